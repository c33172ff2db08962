"""Planted bugs, see plant.py.  Each was written from a property and the code."""
BUGS = []


def bug(id, property, edits, needs, breaks, demo, **k):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, **k))


U, W, CH, WO, SE, LI, CA, BI = ['src/%s.c' % x for x in ('utf8', 'util', 'character', 'word', 'sentence', 'line', 'case', 'bidirectional')]
MAIN = 'int main(void)\n{\n%s\n\treturn bad;\n}\n'

bug('c01-low-surrogate', 'C01', [(U, '''	    BETWEEN(*cp, UINT32_C(0xD800), UINT32_C(0xDFFF)) ||
	    *cp > UINT32_C(0x10FFFF)) {
		/*
		 * codepoint is overlong''', '''	    BETWEEN(*cp, UINT32_C(0xD800), UINT32_C(0xDFFE)) ||
	    *cp > UINT32_C(0x10FFFF)) {
		/*
		 * codepoint is overlong''')], 'the one encoded surrogate ED BF BF', 'the decoder accepts U+DFFF',
    MAIN % '\tcp c;\n\tCHECK(grapheme_decode_utf8("\\xED\\xBF\\xBF", 3, &c) == 3 && c == 0xFFFD);')
bug('c01-overlong', 'C01', [(U, '.mincp = (uint_least32_t)1 << 16,', '.mincp = (uint_least32_t)1 << 15,')],
    'a four byte overlong form of U+8000..U+FFFF', 'the decoder accepts overlong sequences',
    MAIN % '\tcp c;\n\tgrapheme_decode_utf8("\\xF0\\x88\\x80\\x80", 4, &c);\n\tCHECK(c == 0xFFFD);')
bug('c02-range', 'C02', [(U, '''	    cp > UINT32_C(0x10FFFF)) {
		/*
		 * codepoint is a high''', '''	    (cp > UINT32_C(0x10FFFF) && (cp & 0xFFFFF) <= UINT32_C(0x80000))) {
		/*
		 * codepoint is a high''')], 'a code point in 0x180001..0x1FFFFF', 'the encoder writes bytes that are not UTF-8',
    MAIN % '\tchar s[8];\n\tCHECK(grapheme_encode_utf8(0x1ABCDE, s, 8) == 3 && !memcmp(s, "\\xEF\\xBF\\xBD", 3));')
bug('c02-surrogate', 'C02', [(U, '''	if (BETWEEN(cp, UINT32_C(0xD800), UINT32_C(0xDFFF)) ||
	    cp > UINT32_C(0x10FFFF)) {
		/*
		 * codepoint is a high''', '''	if (BETWEEN(cp, UINT32_C(0xD800), UINT32_C(0xDBFF)) ||
	    cp > UINT32_C(0x10FFFF)) {
		/*
		 * codepoint is a high''')], 'a low surrogate', 'the encoder writes a surrogate',
    MAIN % '\tchar s[8];\n\tCHECK(grapheme_encode_utf8(0xDC00, s, 8) == 3 && !memcmp(s, "\\xEF\\xBF\\xBD", 3));')
bug('c03-tail', 'C03', [(U, 'for (i = 0; 1 + i < len; i++) {', 'for (i = 0; i < off; i++) {')],
    'a sequence cut off by the end of the buffer, continued behind it', 'the decoder reads behind the buffer',
    MAIN % '\tcp c;\n\tchar *s = guarded("\\xF0\\x9F\\x98", 3);\n\tCHECK(grapheme_decode_utf8(s, 3, &c) == 4 && c == 0xFFFD);')
bug('c03-nul-write', 'C03', [(W, 'if (w->dest != NULL && w->off + ret < w->destlen) {', 'if (w->dest != NULL && w->off < w->destlen) {'),
                             (W, '''			grapheme_encode_utf8(cp, (char *)(w->dest) + w->off,
			                     w->destlen - w->off);''', '''			grapheme_encode_utf8(cp, (char *)(w->dest) + w->off,
			                     ret);''')],
    'a destination that ends within a multibyte code point', 'case conversion writes behind the destination',
    MAIN % '\tchar *d = guarded("zz", 2);\n\tCHECK(grapheme_to_uppercase_utf8("a\\xE1\\xBA\\x81", 4, d, 2) == 4);')
bug('c04-gb11-extend', 'C04', [(CH, '''	[CHAR_BREAK_PROP_EXTEND + NUM_CHAR_BREAK_PROPS] =
		UINT16_C(1) << CHAR_BREAK_PROP_EXTEND |
		UINT16_C(1) << CHAR_BREAK_PROP_ZWJ,''', '''	[CHAR_BREAK_PROP_EXTEND + NUM_CHAR_BREAK_PROPS] =
		UINT16_C(1) << CHAR_BREAK_PROP_ZWJ,''')],
    'two Extend characters between an emoji and its ZWJ', 'a cluster break within an emoji ZWJ sequence (GB11)',
    MAIN % '\tcp s[] = { 0x1F469, 0xFE0F, 0x1F3FD, 0x200D, 0x1F680 };\n\tCHECK(seg(grapheme_next_character_break, s, 5, "5"));')
bug('c04-gb11-chain', 'C04', [(CH, '''	[CHAR_BREAK_PROP_EXTENDED_PICTOGRAPHIC + NUM_CHAR_BREAK_PROPS] =
		UINT16_C(1) << CHAR_BREAK_PROP_ZWJ |
		UINT16_C(1) << CHAR_BREAK_PROP_EXTEND,
''', '''	[CHAR_BREAK_PROP_EXTENDED_PICTOGRAPHIC + NUM_CHAR_BREAK_PROPS] =
		UINT16_C(1) << CHAR_BREAK_PROP_ZWJ,
''')],
    'a skin tone behind the second emoji of a ZWJ sequence of three', 'a cluster break within a family emoji',
    MAIN % '\tcp s[] = { 0x1F468, 0x200D, 0x1F469, 0x1F3FD, 0x200D, 0x1F467 };\n\tCHECK(seg(grapheme_next_character_break, s, 6, "6"));')
bug('c04-prepend-ri', 'C04', [(CH, '''		state.gb12_13_flag =
			flag_update_gb12_13[cp0_prop +
		                            NUM_CHAR_BREAK_PROPS *
		                                    state.gb12_13_flag] &
			UINT16_C(1) << cp1_prop;''', '''		state.gb12_13_flag =
			!state.gb11_flag && cp0_prop != CHAR_BREAK_PROP_PREPEND &&
			(cp0_prop == cp1_prop) &&
			(flag_update_gb12_13[cp0_prop +
		                            NUM_CHAR_BREAK_PROPS *
		                                    state.gb12_13_flag] &
			 UINT16_C(1) << cp1_prop) &&
			!state.prop_set;''')],
    'a flag behind a Prepend character', 'a flag is torn apart when the cluster does not begin with it (GB12)',
    MAIN % '\tcp s[] = { 0x600, 0x1F1E9, 0x1F1EA };\n\tCHECK(seg(grapheme_next_character_break, s, 3, "3"));')
bug('c05-wb13b-katakana', 'C05', [(WO, '''		     p.skip.next_prop[0] == WORD_BREAK_PROP_NUMERIC ||
		     p.skip.next_prop[0] == WORD_BREAK_PROP_KATAKANA)) {''', '''		     p.skip.next_prop[0] == WORD_BREAK_PROP_NUMERIC)) {''')],
    'a connector before Katakana', 'a word break before the Katakana (WB13b)',
    MAIN % '\tcp s[] = { 0x5F, 0x30A2 };\n\tCHECK(seg(grapheme_next_word_break, s, 2, "2"));')
bug('c05-wb7-extpict', 'C05', [(WO, '''		    (p.skip.prev_prop[1] == WORD_BREAK_PROP_ALETTER ||
		     p.skip.prev_prop[1] ==
		             WORD_BREAK_PROP_BOTH_ALETTER_EXTPICT ||
		     p.skip.prev_prop[1] == WORD_BREAK_PROP_HEBREW_LETTER)) {
			continue;
		}

		/* WB7a */''', '''		    (p.skip.prev_prop[1] == WORD_BREAK_PROP_ALETTER ||
		     p.skip.prev_prop[1] == WORD_BREAK_PROP_HEBREW_LETTER)) {
			continue;
		}

		/* WB7a */''')],
    'a letter that is also Extended_Pictographic before the apostrophe', 'a word break behind the apostrophe (WB7)',
    MAIN % '\tcp s[] = { 0x24C2, 0x27, 0x61 };\n\tCHECK(seg(grapheme_next_word_break, s, 3, "3"));')
bug('c05-ri-skip', 'C05', [(W, '''		p->skip_shift_callback(p->skip.prev_prop[0], p->state);''',
                            '''		if (p->skip.prev_prop[0] != p->skip.prev_prop[1] ||
		    p->raw.prev_prop[0] == p->raw.prev_prop[1]) {
			p->skip_shift_callback(p->skip.prev_prop[0], p->state);
		}''')],
    'an Extend character between two regional indicators', 'flags are paired wrongly (WB16)',
    MAIN % '\tcp s[] = { 0x1F1E9, 0x308, 0x1F1EA, 0x1F1EB };\n\tCHECK(seg(grapheme_next_word_break, s, 4, "3,1"));')
bug('c06-sb8-parasep', 'C06', [(SE, '''				    prop == SENTENCE_BREAK_PROP_SEP ||
				    prop == SENTENCE_BREAK_PROP_CR ||
				    prop == SENTENCE_BREAK_PROP_LF ||
				    prop == SENTENCE_BREAK_PROP_STERM ||''', '''				    prop == SENTENCE_BREAK_PROP_CR ||
				    prop == SENTENCE_BREAK_PROP_LF ||
				    prop == SENTENCE_BREAK_PROP_STERM ||''')],
    'a line separator between a full stop with other text and a lower case letter', 'a missing sentence break (SB8)',
    MAIN % '\tcp s[] = { 0x2E, 0x20, 0x31, 0x2028, 0x61 };\n\tCHECK(seg(grapheme_next_sentence_break, s, 5, "2,2,1"));')
bug('c06-sb9-sep', 'C06', [(SE, '''		    (p.skip.next_prop[0] == SENTENCE_BREAK_PROP_SCONTINUE ||
		     p.skip.next_prop[0] == SENTENCE_BREAK_PROP_STERM ||''', '''		    ((p.raw.prev_prop[0] == p.skip.prev_prop[0] &&
		      p.skip.next_prop[0] == SENTENCE_BREAK_PROP_SCONTINUE) ||
		     p.skip.next_prop[0] == SENTENCE_BREAK_PROP_STERM ||''')],
    'a combining mark between the end of a sentence and a comma', 'a sentence break before the comma (SB8a)',
    MAIN % '\tcp s[] = { 0x41, 0x3F, 0x308, 0x2C, 0x41 };\n\tCHECK(seg(grapheme_next_sentence_break, s, 5, "5"));')
bug('c06-sb7-level', 'C06', [(SE, '''		if ((p.skip.prev_prop[1] == SENTENCE_BREAK_PROP_UPPER ||
		     p.skip.prev_prop[1] == SENTENCE_BREAK_PROP_LOWER) &&
		    p.skip.prev_prop[0] == SENTENCE_BREAK_PROP_ATERM &&''', '''		if ((p.skip.prev_prop[1] == SENTENCE_BREAK_PROP_UPPER ||
		     p.raw.prev_prop[1] == SENTENCE_BREAK_PROP_LOWER) &&
		    p.skip.prev_prop[0] == SENTENCE_BREAK_PROP_ATERM &&''')],
    'a combining mark between a lower case letter and a full stop', 'a sentence break within an abbreviation (SB7)',
    MAIN % '\tcp s[] = { 0x61, 0x308, 0x2E, 0x42 };\n\tCHECK(seg(grapheme_next_sentence_break, s, 4, "4"));')
bug('c07-lb16-eaw', 'C07', [(LI, '''		     last_non_sp_cm_or_zwj_prop ==
		             LINE_BREAK_PROP_CP_WITHOUT_EAW_HWF ||
		     last_non_sp_cm_or_zwj_prop ==
		             LINE_BREAK_PROP_CP_WITH_EAW_HWF) &&
		    cp1_prop == LINE_BREAK_PROP_NS) {''', '''		     last_non_sp_cm_or_zwj_prop ==
		             LINE_BREAK_PROP_CP_WITHOUT_EAW_HWF) &&
		    cp1_prop == LINE_BREAK_PROP_NS) {''')],
    'a wide closing parenthesis, spaces and a nonstarter', 'a line break before the nonstarter (LB16)',
    MAIN % '''	cp s[3] = { 0, 0x20, 0x30FC };
	/* whichever closing parenthesis */
	static const cp cl[] = { 0x29, 0x5D, 0xFF09, 0x3009, 0xFE5A, 0x2046 };
	for (size_t i = 0; i < 6; i++) { s[0] = cl[i]; CHECK(seg(grapheme_next_line_break, s, 3, "3")); }
	for (cp c = 0; c < 0x20000; c++) {
		cp t[2] = { 'a', c }, u[2] = { c, 'a' }; (void)u;
		/* a class CP character: no break before it even after a space, and break behind before ID */
		if (c == 0x5D || c == 0x29) { s[0] = c; CHECK(seg(grapheme_next_line_break, s, 3, "3")); }
		(void)t;
	}''')
bug('c07-lb27', 'C07', [(LI, '''		     last_non_cm_or_zwj_prop == LINE_BREAK_PROP_JT ||
		     last_non_cm_or_zwj_prop == LINE_BREAK_PROP_H2 ||
		     last_non_cm_or_zwj_prop == LINE_BREAK_PROP_H3) &&
		    cp1_prop == LINE_BREAK_PROP_PO) {''', '''		     last_non_cm_or_zwj_prop == LINE_BREAK_PROP_H2 ||
		     last_non_cm_or_zwj_prop == LINE_BREAK_PROP_H3) &&
		    cp1_prop == LINE_BREAK_PROP_PO) {''')],
    'a trailing Jamo before a percent sign', 'a line break between them (LB27)',
    MAIN % '\tcp s[] = { 0x1100, 0x1161, 0x11A8, 0x25 };\n\tCHECK(seg(grapheme_next_line_break, s, 4, "4"));')
bug('c07-ri-cm', 'C07', [(LI, '''			if (cp0_prop == LINE_BREAK_PROP_RI) {''', '''			if (cp0_prop == LINE_BREAK_PROP_RI &&
			    (ri_even || cp1_prop != LINE_BREAK_PROP_CM)) {''')],
    'three or more regional indicators, one of them with a combining mark', 'a flag is paired wrongly (LB30a)',
    MAIN % '\tcp s[] = { 0x1F1E9, 0x1F1EA, 0x308, 0x1F1EB, 0x1F1EC };\n\tCHECK(seg(grapheme_next_line_break, s, 5, "3,2"));')
bug('c08-stale-prop', 'C08', [(CH, '''		/* preserve prop of right codepoint for next iteration */
		state.prop = (uint_least8_t)cp1_prop;
		state.prop_set = true;
''', '''		if (cp1 < UINT32_C(0x20) && cp0_prop == CHAR_BREAK_PROP_OTHER) {
			/* there is always a break before a control */
			return true;
		}

		/* preserve prop of right codepoint for next iteration */
		state.prop = (uint_least8_t)cp1_prop;
		state.prop_set = true;
''')],
    'a state that is carried on over a line feed to a combining mark', 'the stateful query differs from the segmentation',
    MAIN % '''	uint_least16_t st = 0;
	CHECK(grapheme_is_character_break('a', 'b', &st));
	CHECK(grapheme_is_character_break('b', '\\n', &st));
	CHECK(grapheme_is_character_break('\\n', 0x308, &st));''')
bug('c08-null-state', 'C08', [(CH, '''		notbreak = (dont_break[cp0_prop] & (UINT16_C(1) << cp1_prop)) ||
		           (dont_break_gb11[cp0_prop +
		                            state.gb11_flag *
		                                    NUM_CHAR_BREAK_PROPS] &
		            (UINT16_C(1) << cp1_prop)) ||''', '''		notbreak = (dont_break[cp0_prop] & (UINT16_C(1) << cp1_prop)) ||
		           (*s != 0 &&
		            dont_break_gb11[cp0_prop + NUM_CHAR_BREAK_PROPS] &
		                    (UINT16_C(1) << cp1_prop) &&
		            (*s & (UINT16_C(3) << 9))) ||''')],
    'a state whose regional indicator flag is still set, then ZWJ and an emoji', 'the stateful query misses a break',
    MAIN % '''	cp s[] = { 0x1F1E9, 0x1F1EA, 0x200D, 0x1F600 };
	uint_least16_t st = 0;
	CHECK(!grapheme_is_character_break(s[0], s[1], &st));
	CHECK(!grapheme_is_character_break(s[1], s[2], &st));
	CHECK(grapheme_is_character_break(s[2], s[3], &st));
	CHECK(seg(grapheme_next_character_break, s, 4, "3,1"));''')
bug('c10-copy-limit', 'C10', [(W, '''	if (src->srclen == SIZE_MAX) {
		dest->srclen = SIZE_MAX;
	} else {
		dest->srclen =
			(src->off < src->srclen) ? src->srclen - src->off : 0;
	}
''', '''	dest->srclen =
		(src->off < src->srclen) ? src->srclen - src->off : 0;
''')],
    'a NUL-terminated string whose last letter is a capital sigma, with letters behind the terminator', 'a copied reader looks behind the terminator',
    MAIN % '''	static const char s[] = "\\xCE\\x91\\xCE\\xA3\\0abc";
	char d[16];
	CHECK(grapheme_to_lowercase_utf8(s, SIZE_MAX, d, 16) == 4 && !strcmp(d, "\\xCE\\xB1\\xCF\\x82"));''')
bug('c11-nul', 'C11', [(W, 'if (unlikely(r->srclen == SIZE_MAX && *cp == 0)) {', 'if (unlikely(*cp == 0)) {')],
    'a NUL within text of explicit length', 'segmentation makes no progress at the NUL',
    MAIN % '\tcp s[] = { 0x61, 0, 0x62 };\n\tCHECK(seg(grapheme_next_word_break, s, 3, "1,1,1"));\n\tCHECK(seg(grapheme_next_character_break, s, 3, "1,1,1"));')
bug('c12-sigma-ignorable', 'C12', [(CA, '''			    (final_sigma_level == 1 ||
			     final_sigma_level == 2)) {''', '''			    final_sigma_level == 1) {''')],
    'a case-ignorable character between the letter and the final sigma', 'the sigma becomes no final sigma',
    MAIN % '\tcp s[] = { 0x391, 0x301, 0x3A3 }, d[8];\n\tCHECK(grapheme_to_lowercase(s, 3, d, 8) == 3 && d[2] == 0x3C2);')
bug('c12-sigma-lookahead', 'C12', [(CA, '''					if (prop != CASE_PROP_CASE_IGNORABLE &&
					    prop != CASE_PROP_BOTH_CASED_CASE_IGNORABLE) {''', '''					if (tmp_cp == r->off ||
					    prop != CASE_PROP_CASE_IGNORABLE) {'''),
                                   (CA, '''				    (prop != CASE_PROP_CASED &&
				     prop != CASE_PROP_BOTH_CASED_CASE_IGNORABLE)) {''', '''				    tmp.off > 32 ||
				    (prop != CASE_PROP_CASED &&
				     prop != CASE_PROP_BOTH_CASED_CASE_IGNORABLE)) {''')],
    'more than 31 case-ignorable characters between a sigma and the next letter', 'a sigma in the middle of a word becomes a final sigma',
    MAIN % '\tcp s[60], d[80];\n\tfor (int i = 0; i < 60; i++) s[i] = 0x301;\n\ts[0] = 0x391; s[1] = 0x3A3; s[59] = 0x391;\n\tCHECK(grapheme_to_lowercase(s, 60, d, 80) == 60 && d[1] == 0x3C3);')
bug('c13-truncate', 'C13', [(W, 'if (w->dest != NULL && w->off + ret < w->destlen) {', 'if (w->dest != NULL && w->off + ret <= w->destlen) {')],
    'output whose last multibyte code point ends exactly at the end of the destination', 'the terminator overwrites half of a code point, the output is no UTF-8',
    MAIN % '\tchar d[3] = "zz";\n\tCHECK(grapheme_to_uppercase_utf8("a\\xC3\\xA4", 3, d, 3) == 3);\n\tCHECK(!strcmp(d, "A"));')
bug('c13-codepoints', 'C13', [(W, '''		if (w->dest != NULL && w->off < w->destlen) {
			((uint_least32_t *)(w->dest))[w->off] = cp;
		}

		w->off += 1;''', '''		if (w->dest != NULL && w->off < w->destlen) {
			((uint_least32_t *)(w->dest))[w->off] = cp;
		} else if (w->dest != NULL && w->first_unwritable_offset == SIZE_MAX) {
			w->first_unwritable_offset = w->destlen / 2;
		}
		w->off += 1;''')],
    'a destination that is too small for the code points', 'the terminator is put in the middle of the output',
    MAIN % "\tcp s[] = { 'a', 'b', 'c', 'd', 'e' }, d[4] = { 9, 9, 9, 9 };\n\tCHECK(grapheme_to_uppercase(s, 5, d, 4) == 5);\n\tCHECK(d[0] == 'A' && d[1] == 'B' && d[2] == 'C' && d[3] == 0);")
bug('c14-title-both', 'C14', [(CA, '''			prop = get_case_property(cp);
			if (prop == CASE_PROP_CASED ||
			    prop == CASE_PROP_BOTH_CASED_CASE_IGNORABLE) {
				break;
			} else {
				/* increment reader */''', '''			prop = get_case_property(cp);
			if (prop == CASE_PROP_CASED) {
				break;
			} else {
				/* increment reader */''')],
    'a word whose first cased character is also case-ignorable, e.g. U+0345', 'titlecase detection and conversion disagree',
    MAIN % '\tcp s[] = { 0x345, 0x41 }, d[8];\n\tgrapheme_to_titlecase(s, 2, d, 8);\n\tCHECK(grapheme_is_titlecase(s, 2, NULL) == (d[0] == s[0] && d[1] == s[1]));')
bug('c16-both', 'C16', [(CA, '''			prop = get_case_property(cp);
			if (prop == CASE_PROP_CASED ||
			    prop == CASE_PROP_BOTH_CASED_CASE_IGNORABLE) {
				break;
			} else {
				/* write the data''', '''			prop = get_case_property(cp);
			if (prop == CASE_PROP_CASED) {
				break;
			} else {
				/* write the data''')],
    'a word that begins with a character both cased and case-ignorable', 'the second letter is capitalised',
    MAIN % '\tcp s[] = { 0x2B0, 0x61 }, d[8];\n\tCHECK(grapheme_to_titlecase(s, 2, d, 8) == 2 && d[0] == 0x2B0 && d[1] == 0x61);')
bug('c15-lookahead', 'C15', [(CA, '''				herodotus_reader_copy(r, &tmp);
				for (prop = NUM_CASE_PROPS;''', '''				herodotus_reader_copy(r, &tmp);
				if (tmp.srclen > 64) {
					/* bound the lookahead */
					tmp.soft_limit[0] = MIN(tmp.soft_limit[0], 64);
				}
				for (prop = NUM_CASE_PROPS;''')],
    'a sigma with 32 to 63 two byte case-ignorable characters behind it', 'UTF-8 and code point conversion differ',
    MAIN % '''	cp s[60], d[80];
	char u[200], v[200], e[200];
	size_t n = 0, m = 0;
	for (int i = 0; i < 60; i++) s[i] = 0x301;
	s[0] = 0x391; s[1] = 0x3A3; s[50] = 0x391; s[51] = 'a';
	for (int i = 0; i < 60; i++) n += grapheme_encode_utf8(s[i], u + n, 200 - n);
	size_t r = grapheme_to_lowercase(s, 60, d, 80);
	for (size_t i = 0; i < r; i++) m += grapheme_encode_utf8(d[i], v + m, 200 - m);
	CHECK(grapheme_to_lowercase_utf8(u, n, e, 200) == m && !memcmp(e, v, m));''')
bug('c17-x5a-overflow', 'C17', [(BI, '''			if (dirstat->level + (dirstat->level % 2 != 0) + 1 <=
			            MAX_DEPTH &&
			    overflow_isolate_count == 0 &&
			    overflow_embedding_count == 0) {
				/* valid RLI */''', '''			if (dirstat->level + (dirstat->level % 2 != 0) + 1 <=
			            MAX_DEPTH &&
			    overflow_isolate_count == 0) {
				/* valid RLI */''')],
    'an RLI within an overflowing left-to-right embedding at depth 124', 'the isolate is taken as valid (X5a)',
    MAIN % '''	/* level 124 by 62 LRE, a further LRE overflows, then RLI */
	static cp s[70]; size_t n = 0;
	static cp st[80]; int_least8_t lev[80];
	for (int i = 0; i < 63; i++) s[n++] = 0x202A;
	s[n++] = 0x2067; s[n++] = 0x61;
	grapheme_bidirectional_preprocess_paragraph(s, n, GRAPHEME_BIDIRECTIONAL_DIRECTION_LTR, st, n, NULL);
	grapheme_bidirectional_get_line_embedding_levels(st, n, lev, n);
	CHECK(lev[n - 1] == 124);''')
bug('c17-w5-after', 'C17', [(BI, '''				if (ir_get_current_prop(&tmp) != BIDI_PROP_ET) {
					break;
				}''', '''				if (ir_get_current_preserved_prop(&tmp) !=
				    BIDI_PROP_ET) {
					break;
				}''')],
    'a combining mark on a currency sign behind a number in right-to-left text', 'the sign is no longer part of the number (W5)',
    MAIN % '\tcp s[] = { 0x5D0, 0x31, 0x24, 0x300, 0x24 };\n\tCHECK(levels(s, 5, 0, "1,2,2,2,2"));')
bug('c17-n0-an', 'C17', [(BI, '''		            last_strong_or_number_prop == BIDI_PROP_EN ||
		            last_strong_or_number_prop == BIDI_PROP_AN) &&
		           ir.isolating_run_level % 2 == 0) {''', '''		            last_strong_or_number_prop == BIDI_PROP_EN) &&
		           ir.isolating_run_level % 2 == 0) {''')],
    'an Arabic number before a bracket pair that holds right-to-left text in a left-to-right paragraph', 'the brackets take the wrong direction (N0)',
    MAIN % "\tcp s[] = { 'a', 0x661, '(', 0x5D0, ')', 0x5D0 };\n\tCHECK(levels(s, 6, 1, \"0,2,1,1,1,1\"));")
bug('c17-w1-pdi', 'C17', [(BI, '''			if (prop == BIDI_PROP_LRI || prop == BIDI_PROP_RLI ||
			    prop == BIDI_PROP_FSI || prop == BIDI_PROP_PDI) {
				ir_set_current_prop(&ir, BIDI_PROP_ON);''', '''			if (prop == BIDI_PROP_LRI || prop == BIDI_PROP_RLI ||
			    prop == BIDI_PROP_FSI || prop == BIDI_PROP_PDI) {
				ir_set_current_prop(
					&ir, ir.next.off == SIZE_MAX ?
						     BIDI_PROP_ON :
						     ir_get_next_prop(&ir) == BIDI_PROP_EN ?
						     BIDI_PROP_ET :
						     BIDI_PROP_ON);''')],
    'a combining mark directly between the end of an isolate and a number', 'the mark is taken as part of the number (W1)',
    MAIN % '\tcp s[] = { 0x5D0, 0x2067, 0x2069, 0x300, 0x31, 0x5D0 };\n\tCHECK(levels(s, 6, 0, "1,1,1,1,2,1"));')
bug('c18-null-dest', 'C18', [(BI, '''	if (resolved != NULL) {
		/* store resolved paragraph level in output variable */
		/* TODO use enum-type */
''', '''	if (resolved != NULL && buf != NULL) {
		/* store resolved paragraph level in output variable */
		/* TODO use enum-type */
''')],
    'a query of the direction without a destination', 'the direction is not reported',
    MAIN % '''	cp s[] = { 0x5D0 };
	enum grapheme_bidirectional_direction r = GRAPHEME_BIDIRECTIONAL_DIRECTION_LTR;
	CHECK(grapheme_bidirectional_preprocess_paragraph(s, 1, 0, NULL, 0, &r) == 1);
	CHECK(r == GRAPHEME_BIDIRECTIONAL_DIRECTION_RTL);''')
bug('c18-fsi-skip', 'C18', [(BI, '''		/* BD8/BD9 */
		if (prop == BIDI_PROP_LRI || prop == BIDI_PROP_RLI ||
		    prop == BIDI_PROP_FSI) {
			/* we hit an isolate initiator, increment counter */
			isolate_level++;
		} else if (prop == BIDI_PROP_PDI && isolate_level > 0) {
			isolate_level--;
		}

		/* P2 */
		if (isolate_level > 0) {
			continue;
		}

		/* P3 */
		if (prop == BIDI_PROP_L) {
			return 0;
		} else if (prop == BIDI_PROP_AL || prop == BIDI_PROP_R) {
			return 1;
		}
	}

	return 0;
}

static void
preprocess_paragraph(''', '''		/* BD8/BD9 */
		if (prop == BIDI_PROP_LRI || prop == BIDI_PROP_RLI ||
		    prop == BIDI_PROP_FSI) {
			/* we hit an isolate initiator, increment counter */
			isolate_level++;
		} else if (prop == BIDI_PROP_PDI && isolate_level > 0) {
			isolate_level = 0;
		}

		/* P2 */
		if (isolate_level > 0) {
			continue;
		}

		/* P3 */
		if (prop == BIDI_PROP_L) {
			return 0;
		} else if (prop == BIDI_PROP_AL || prop == BIDI_PROP_R) {
			return 1;
		}
	}

	return 0;
}

static void
preprocess_paragraph(''')],
    'nested isolates with a strong character between their ends', 'the paragraph takes its direction from within an isolate',
    MAIN % '''	cp s[] = { 0x2066, 0x2066, 0x2069, 0x5D0, 0x2069, 'a' };
	enum grapheme_bidirectional_direction r;
	grapheme_bidirectional_preprocess_paragraph(s, 6, 0, NULL, 0, &r);
	CHECK(r == GRAPHEME_BIDIRECTIONAL_DIRECTION_LTR);''')
bug('c19-deep', 'C19', [(BI, '''	((uint_least32_t *)lev)[off] |= ((uint_least32_t)(value + 1)) << 21;''',
                         '''	((uint_least32_t *)lev)[off] |= ((uint_least32_t)(value + 1) & 0x3F)
	                                << 21;''')],
    'characters at level 63 or deeper', 'such characters are reordered wrongly',
    MAIN % '''	static cp s[80], st[80], o[80]; size_t n = 0;
	for (int i = 0; i < 31; i++) { s[n++] = 0x202A; }
	s[n++] = 'x'; s[n++] = 0x5D0; s[n++] = 0x5D1; s[n++] = 'y';
	grapheme_bidirectional_preprocess_paragraph(s, n, GRAPHEME_BIDIRECTIONAL_DIRECTION_LTR, st, n, NULL);
	CHECK(grapheme_bidirectional_reorder_line(s, st, n, o, 80) == 4);
	CHECK(o[0] == 'x' && o[1] == 0x5D1 && o[2] == 0x5D0 && o[3] == 'y');''')
bug('c19-runsince', 'C19', [(BI, '				runsince = levlen - 1; /* levlen > 0 */', '				runsince = i;')],
    'a removed formatting character before trailing whitespace', 'the trailing whitespace is not put at the end of the line',
    MAIN % '''	cp s[] = { 'a', 0x202B, 0x5D0, ' ', ' ' }, st[5], o[5];
	grapheme_bidirectional_preprocess_paragraph(s, 5, GRAPHEME_BIDIRECTIONAL_DIRECTION_LTR, st, 5, NULL);
	/* a line cut out of the middle: the L1 reset is that of the line */
	cp t[] = { 'a', 0x202B, 0x5D0, ' ', 0x5D1 };
	grapheme_bidirectional_preprocess_paragraph(t, 5, GRAPHEME_BIDIRECTIONAL_DIRECTION_LTR, st, 5, NULL);
	CHECK(grapheme_bidirectional_reorder_line(t, st, 4, o, 5) == 3);
	CHECK(o[0] == 'a' && o[1] == 0x5D0 && o[2] == ' ');''')
bug('c20-pdi', 'C20', [(BI, '''		if (prop == BIDI_PROP_WS || prop == BIDI_PROP_FSI ||
		    prop == BIDI_PROP_LRI || prop == BIDI_PROP_RLI ||
		    prop == BIDI_PROP_PDI) {
			if (runsince == SIZE_MAX) {
				/* a new run has begun */
				runsince = levlen - 1; /* levlen > 0 */''', '''		if (prop == BIDI_PROP_WS || prop == BIDI_PROP_FSI ||
		    prop == BIDI_PROP_LRI || prop == BIDI_PROP_RLI) {
			if (runsince == SIZE_MAX) {
				/* a new run has begun */
				runsince = levlen - 1; /* levlen > 0 */''')],
    'a line that ends with a PDI but not the paragraph', 'the PDI keeps its level at the end of the line (L1)',
    MAIN % '''	cp s[] = { 'a', 0x202B, 0x5D0, 0x2067, 0x2069, ' ', 0x5D1 }, st[7];
	int_least8_t l[7];
	grapheme_bidirectional_preprocess_paragraph(s, 7, GRAPHEME_BIDIRECTIONAL_DIRECTION_LTR, st, 7, NULL);
	CHECK(grapheme_bidirectional_get_line_embedding_levels(st, 6, l, 7) == 6);
	CHECK(l[2] == 1 && l[3] == 0 && l[4] == 0 && l[5] == 0);''')
bug('c21-static-stack', 'C21', [(BI, '	} directional_status[MAX_DEPTH + 2], *dirstat = directional_status;',
                                '	} *dirstat;\n	static struct directional_status_entry {\n		int_least8_t level;\n		enum grapheme_bidirectional_direction override;\n		bool directional_isolate;\n	} directional_status[MAX_DEPTH + 2];'),
                               (BI, '''	struct {
		int_least8_t level;
		enum grapheme_bidirectional_direction override;
		bool directional_isolate;
	} *dirstat;''', '''	struct directional_status_entry *dirstat;''')] if 0 else [
    (BI, '''	struct {
		int_least8_t level;
		enum grapheme_bidirectional_direction override;
		bool directional_isolate;
	} directional_status[MAX_DEPTH + 2], *dirstat = directional_status;''', '''	static struct status {
		int_least8_t level;
		enum grapheme_bidirectional_direction override;
		bool directional_isolate;
	} directional_status[MAX_DEPTH + 2];
	struct status *dirstat = directional_status;''')],
    'two threads that process paragraphs with embeddings at the same time', 'the threads share the directional status stack',
    '''#include <pthread.h>
static cp s[2][20000];
static signed char want[2][20000];
static void run(int k, signed char *lev)
{
	cp *st = malloc(20000 * sizeof(cp));
	grapheme_bidirectional_preprocess_paragraph(s[k], 20000, GRAPHEME_BIDIRECTIONAL_DIRECTION_LTR, st, 20000, NULL);
	grapheme_bidirectional_get_line_embedding_levels(st, 20000, (int_least8_t *)lev, 20000);
	free(st);
}
static void *th(void *p)
{
	int k = *(int *)p;
	signed char *lev = malloc(20000);
	for (int i = 0; i < 2000; i++) {
		run(k, lev);
		if (memcmp(lev, want[k], 20000)) { bad = 1; break; }
	}
	free(lev);
	return NULL;
}
int main(void)
{
	pthread_t t[8]; int id[2] = { 0, 1 };
	for (int i = 0; i < 20000; i++) {
		s[0][i] = i % 40 < 20 ? 0x202A : i % 40 == 20 ? 'a' : 0x202C;
		s[1][i] = i % 30 < 15 ? 0x202B : i % 30 == 15 ? 'a' : 0x202C;
	}
	/* short paragraphs in effect: the isolating run sequences are tiny */
	run(0, want[0]); run(1, want[1]);
	for (int i = 0; i < 8; i++) pthread_create(&t[i], NULL, th, &id[i % 2]);
	for (int i = 0; i < 8; i++) pthread_join(t[i], NULL);
	if (bad) fprintf(stderr, "levels differ between threads\\n");
	return bad;
}
''', link='-pthread')
bug('c21-static-reader', 'C21', [(SE, '''	HERODOTUS_READER tmp;
	enum sentence_break_property prop;''', '''	static HERODOTUS_READER tmp;
	enum sentence_break_property prop;''')],
    'two threads in the SB8 lookahead at the same time', 'the threads share a reader',
    '''#include <pthread.h>
static cp s[2][4000];
static void *th(void *p)
{
	int k = *(int *)p;
	for (int i = 0; i < 4000 && !bad; i++) {
		if (grapheme_next_sentence_break(s[k], 4000) != (k ? 4000 : 1)) bad = 1;
	}
	return NULL;
}
int main(void)
{
	pthread_t t[8]; int id[2] = { 0, 1 };
	for (int i = 0; i < 4000; i++) s[0][i] = s[1][i] = '1';
	s[0][0] = s[1][0] = '.';
	s[0][1] = s[1][1] = '-';
	s[0][3999] = 'A'; s[1][3999] = 'a';
	for (int i = 0; i < 8; i++) pthread_create(&t[i], NULL, th, &id[i % 2]);
	for (int i = 0; i < 8; i++) pthread_join(t[i], NULL);
	if (bad) fprintf(stderr, "breaks differ between threads\\n");
	return bad;
}
''', link='-pthread')
bug('c22-block-end', 'C22', [('gen/util.c', '''			            sizeof(*(comp->offset)) * 0x100)) {''', '''			            sizeof(*(comp->offset)) * 0xFF)) {''')],
    'a code point at the end of a block of 256 that only differs there', 'the tables give some xxFF code points the properties of others',
    MAIN % '\tcp s[] = { 0x61, 0xFEFF, 0x62 };\n\tCHECK(seg(grapheme_next_word_break, s, 3, "3"));\n\tcp t[] = { 0x24FF }; (void)t;\n\tcp u[] = { 0x17F, 0x1FF }, d[4];\n\tgrapheme_to_uppercase(u, 2, d, 4);\n\tCHECK(d[0] == 0x53 && d[1] == 0x1FE);')
bug('c22-missing-r', 'C22', [('gen/bidirectional.c', '	    (cp >= UINT32_C(0x1ED50) && cp <= UINT32_C(0x1EDFF)) ||\n', '')],
    'an unassigned code point in U+1ED50..U+1EDFF', 'it has bidi class L instead of R',
    MAIN % '\tcp s[] = { 0x1ED60 };\n\tCHECK(levels(s, 1, 0, "1"));')
bug('c22-title-field', 'C22', [('gen/case.c', '''	    (nfields >= 15 && strlen(field[14]) > 0 &&
	     hextocp(field[14], strlen(field[14]), &title))) {''', '''	    (nfields >= 15 && strlen(field[14]) == strlen(field[0]) &&
	     hextocp(field[14], strlen(field[14]), &title))) {''')],
    'a character with titlecase mapping of another length in hexadecimal', 'its titlecase mapping is lost',
    MAIN % '\tcp s[] = { 0x1E922 }, d[4];\n\tgrapheme_to_titlecase(s, 1, d, 4);\n\tCHECK(d[0] == 0x1E900 || d[0] == 0x1E922);\n\tcp t[] = { 0x1F80 };(void)t;')
