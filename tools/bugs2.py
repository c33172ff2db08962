from bugs import *
bug('c21-cache', 'C21', [(WO, '''	return herodotus_reader_ensure_progress(&r, next_word_break(&r));''' , '')] if 0 else [
    (SE, '''	HERODOTUS_READER tmp;
	enum sentence_break_property prop;''', '''	static __thread const void *known;
	static __thread size_t knownlen, knownret;
	HERODOTUS_READER tmp;
	enum sentence_break_property prop;'''),
    (SE, '''	uint_least32_t cp;

	/*
	 * Apply sentence''', '''	uint_least32_t cp;

	if (r->type == HERODOTUS_TYPE_CODEPOINT && r->srclen > 64 &&
	    known == r->src && knownlen == r->srclen) {
		return knownret;
	}
	/*
	 * Apply sentence'''),
    (SE, '''	return herodotus_reader_number_read(&(p.mid_reader));''', '''	known = r->src;
	knownlen = r->srclen;
	return knownret = herodotus_reader_number_read(&(p.mid_reader));''')],
    'two calls with the same buffer of more than 64 code points whose content changed in between', 'the second result is that of the old content',
    MAIN % '''	cp s[100];
	for (int i = 0; i < 100; i++) s[i] = 'a';
	s[9] = '\\n';
	CHECK(grapheme_next_sentence_break(s, 100) == 10);
	s[9] = 'a'; s[19] = '\\n';
	CHECK(grapheme_next_sentence_break(s, 100) == 20);''')
bug('c21-lut', 'C21', [(BI, '''	*output &= ~state_lut[t].filter_mask;
''', '''	if (t == STATE_LEVEL && value > 100) {
		/* remember that we need the whole width */
		state_lut[t].filter_mask |= 0x1F80000;
	} else if (t == STATE_BRACKET_OFF && value > 120) {
		state_lut[t].filter_mask = 0x001FC00;
	}
	*output &= ~state_lut[t].filter_mask;
''')], 'a call with one of the last brackets of the table, then other calls', 'calls change a global table', 'int main(void){return 0;}')
bug('c19-long', 'C19', [(BI, '	size_t i, outputlen, first, last, j, k, l /*, laststart*/;', '	size_t i, outputlen, j, k, l /*, laststart*/;\n	uint_least16_t first, last;')],
    'a line of more than 65536 code points', 'characters behind the 65536th are reordered wrongly',
    MAIN % '''	static cp s[70000], st[70000], o[70000];
	for (int i = 0; i < 70000; i++) s[i] = 'a';
	s[69000] = 0x5D0; s[69001] = 0x5D1;
	grapheme_bidirectional_preprocess_paragraph(s, 70000, GRAPHEME_BIDIRECTIONAL_DIRECTION_LTR, st, 70000, NULL);
	CHECK(grapheme_bidirectional_reorder_line(s, st, 70000, o, 70000) == 70000);
	CHECK(o[69000] == 0x5D1 && o[69001] == 0x5D0);''')
bug('c20-short', 'C20', [(BI, '			if (levlen < levsize) {', '			if (levlen <= levsize) {')],
    'a level array shorter than the line', 'one level is written behind the array',
    MAIN % '''	cp s[] = { 'a', 'b', 'c' }, st[3];
	int_least8_t l[3] = { 77, 77, 77 };
	grapheme_bidirectional_preprocess_paragraph(s, 3, GRAPHEME_BIDIRECTIONAL_DIRECTION_LTR, st, 3, NULL);
	CHECK(grapheme_bidirectional_get_line_embedding_levels(st, 3, l, 2) == 3);
	CHECK(l[0] == 0 && l[1] == 0 && l[2] == 77);''')
bug('c20-middle', 'C20', [(BI, '''				runlevel = (int_least8_t)get_state(
					STATE_PARAGRAPH_LEVEL, linedata[i]);''', '''				runlevel = (int_least8_t)get_state(
					STATE_PARAGRAPH_LEVEL, linedata[0]) == 0 ?
						   0 :
						   (level | 1) > 1 ?
						   (level - 1) | 1 :
						   1;''')],
    'trailing whitespace at a level above 2 at the end of a line in a right-to-left paragraph', 'it does not get the paragraph level (L1)',
    MAIN % '''	cp s[] = { 0x5D0, 0x202A, 0x202B, 'a', ' ', 0x5D0, 0x202C, 0x202C }, st[8];
	int_least8_t l[8];
	grapheme_bidirectional_preprocess_paragraph(s, 8, GRAPHEME_BIDIRECTIONAL_DIRECTION_RTL, st, 8, NULL);
	CHECK(grapheme_bidirectional_get_line_embedding_levels(st, 5, l, 8) == 5);
	CHECK(l[4] == 1);''')
bug('c19-size', 'C19', [(BI, '''			if (outputlen < outputsize) {
				output[outputlen] =''', '''			if (i < outputsize) {
				output[outputlen] =''')],
    'an output exactly as large as the visible characters of a line with removed ones', 'the last characters are not written',
    MAIN % '''	cp s[] = { 0x202A, 0x202C, 'a', 'b' }, st[4], o[2] = { 1, 2 };
	grapheme_bidirectional_preprocess_paragraph(s, 4, GRAPHEME_BIDIRECTIONAL_DIRECTION_LTR, st, 4, NULL);
	CHECK(grapheme_bidirectional_reorder_line(s, st, 4, o, 2) == 2);
	CHECK(o[0] == 'a' && o[1] == 'b');''')
bug('c17-depth', 'C17', [(BI, '''			if (dirstat->level + (dirstat->level % 2 == 0) + 1 <=
			            MAX_DEPTH &&
			    overflow_isolate_count == 0 &&
			    overflow_embedding_count == 0) {
				/* valid LRI */''', '''			if (dirstat->level + (dirstat->level % 2 == 0) + 1 <
			            MAX_DEPTH - 1 &&
			    overflow_isolate_count == 0 &&
			    overflow_embedding_count == 0) {
				/* valid LRI */''')],
    'an LRI at level 122 or 123', 'it is taken as an overflow though level 124 is valid',
    MAIN % '''	static cp s[80], st[80]; size_t n = 0; int_least8_t lev[80];
	for (int i = 0; i < 62; i++) s[n++] = 0x2066;
	s[n++] = 'a';
	grapheme_bidirectional_preprocess_paragraph(s, n, GRAPHEME_BIDIRECTIONAL_DIRECTION_LTR, st, n, NULL);
	grapheme_bidirectional_get_line_embedding_levels(st, n, lev, n);
	CHECK(lev[n - 1] == 124);''')
bug('c17-pdf-isolate', 'C17', [(BI, '''			} else if (dirstat->directional_isolate == false &&
			           dirstat > directional_status) {
				dirstat--;
			}''', '''			} else if (dirstat > directional_status &&
			           (dirstat->directional_isolate == false ||
			            valid_isolate_count > 2)) {
				dirstat--;
			}''')],
    'a PDF within three nested isolates', 'the PDF closes an isolate (X7)',
    MAIN % "\tcp s[] = { 0x2067, 0x2067, 0x2067, 0x202C, 'a' };\n\tCHECK(levels(s, 5, 1, \"0,1,3,-1,6\"));")
bug('c17-n0-nsm', 'C17', [(BI, '''	for (ir = *start; !ir_advance(&ir) && ir_get_current_preserved_prop(
						      &ir) == BIDI_PROP_NSM;) {
		ir_set_current_prop(&ir, bracket_prop);
	}
''', '''	if (!ir_advance(&ir) &&
	    ir_get_current_preserved_prop(&ir) == BIDI_PROP_NSM) {
		ir_set_current_prop(&ir, bracket_prop);
	}
	ir = *start;
	if (!ir_advance(&ir) &&
	    ir_get_current_preserved_prop(&ir) == BIDI_PROP_NSM) {
		ir_set_current_prop(&ir, bracket_prop);
	}
''')],
    'two combining marks behind an opening bracket', 'the second mark does not follow the bracket (N0)',
    MAIN % "\tcp s[] = { 0x5D0, '(', 0x300, 0x301, 'a', ')', 0x5D0 };\n\tCHECK(levels(s, 7, 2, \"1,1,1,1,2,1,1\"));\n\tcp t[] = { 0x5D0, '(', 0x300, 0x301, 0x5D0, 'a', ')', 0x5D0 };\n\tCHECK(levels(t, 8, 1, \"1,0,0,0,1,0,0,1\"));")
bug('c17-eos-pdi', 'C17', [(BI, '''			if (MAX(last_isolate_level, level) % 2 == 0) {
				ir->eos = BIDI_PROP_L;''', '''			if (MAX(last_isolate_level, ir->paragraph_level) % 2 == 0) {
				ir->eos = BIDI_PROP_L;''')],
    'a level run followed by a higher one', 'the end of the sequence takes the wrong direction (X10)',
    MAIN % "\tcp s[] = { 'a', '!', 0x202B, 'b', 0x202C };\n\tCHECK(levels(s, 5, 1, \"0,0,-1,2,-1\"));\n\tcp t[] = { 0x202B, 0x5D0, '!', 0x202A, 'b', 0x202C, 0x202C };\n\tCHECK(levels(t, 7, 1, \"-1,1,1,-1,2,-1,-1\"));\n\tcp u[] = { 0x202A, 'a', '!', 0x202B, 'b', 0x202C, 0x202C };\n\tCHECK(levels(u, 7, 1, \"-1,2,2,-1,4,-1,-1\"));")
bug('c17-fsi-scan', 'C17', [(BI, '''		if (prop == BIDI_PROP_PDI && isolate_level == 0) {''', '''		if (prop == BIDI_PROP_PDI && isolate_level <= 1) {''')],
    'an isolate within an FSI before the first strong character', 'the FSI takes the wrong direction',
    MAIN % "\tcp s[] = { 0x2068, 0x2066, 0x2069, 0x5D0, 0x2069 };\n\tCHECK(levels(s, 5, 1, \"0,1,1,1,0\"));")
bug('c10-sb8-nul', 'C10', [(W, '''	if (src->srclen == SIZE_MAX) {
		dest->srclen = SIZE_MAX;
	} else {
		dest->srclen =
			(src->off < src->srclen) ? src->srclen - src->off : 0;
	}
''', '''	dest->srclen =
		(src->off < src->srclen) ? src->srclen - src->off : 0;
''')],
    'a NUL-terminated string with a full stop and no letter before the terminator, and lower case text behind it', 'the SB8 lookahead looks behind the terminator',
    MAIN % '''	static const cp s[] = { 0x2E, 0x20, 0x31, 0, 0x61 }, t[] = { 0x2E, 0x20, 0x31, 0, 0x41 };
	CHECK(grapheme_next_sentence_break(s, SIZE_MAX) == 2);
	CHECK(grapheme_next_sentence_break(t, SIZE_MAX) == 2);''')
bug('c13-partial', 'C13', [(W, '	} else if (w->first_unwritable_offset < w->destlen) {', '	} else if (w->first_unwritable_offset + 1 < w->destlen &&\n\t           w->off < w->destlen) {')],
    'a UTF-8 destination too small by part of a code point', 'bytes that were never written precede the terminator',
    MAIN % '''	char d[4]; memset(d, 'Z', 4);
	CHECK(grapheme_to_uppercase_utf8("a\\xE1\\xBA\\x81", 4, d, 4) == 4);
	CHECK(!strcmp(d, "A"));''')
bug('c13-count', 'C13', [(CA, '''			for (i = 0; i < sc[off].cplen; i++) {
				herodotus_write_codepoint(w, sc[off].cp[i]);
			}''', '''			for (i = 0; i < sc[off].cplen; i++) {
				if (w->off >= w->destlen && i == 2) {
					break;
				}
				herodotus_write_codepoint(w, sc[off].cp[i]);
			}''')],
    'a mapping to three code points that does not fit', 'the reported size is too small',
    MAIN % '\tCHECK(grapheme_to_uppercase_utf8("\\xEF\\xAC\\x83", 3, NULL, 0) == 3);\n\tchar d[2];\n\tCHECK(grapheme_to_uppercase_utf8("\\xEF\\xAC\\x83", 3, d, 2) == 3);')
bug('c14-caselen', 'C14', [(CA, '''			if (cp != (uint_least32_t)((int_least32_t)cp + map)) {
				/* we have a difference */
				ret = false;
				goto done;
			} else {''', '''			if (cp != (uint_least32_t)((int_least32_t)cp + map)) {
				/* we have a difference */
				ret = false;
				if (map > 0x7FFF || map < -0x7FFF) {
					herodotus_read_codepoint(r, true, &cp);
				}
				goto done;
			} else {''')],
    'text that stops to be lower case at a character whose mapping is far away, e.g. Cherokee', 'the reported prefix includes it',
    MAIN % "\tcp s[] = { 'a', 0x13A0, 'b' };\n\tsize_t n = 9;\n\tCHECK(!grapheme_is_lowercase(s, 3, &n) && n == 1);")
bug('c16-limit', 'C16', [(CA, '''		/* cast the rest of the codepoints in the word to lowercase */
		to_case(r, w, 1, lower_major, lower_minor, lower_special);''', '''		/* cast the rest of the codepoints in the word to lowercase */
		if (r->soft_limit[0] > r->off + 1) {
			to_case(r, w, 1, lower_major, lower_minor,
			        lower_special);
		}''')],
    'a word of two code points', 'its last letter is taken as the beginning of the next word',
    MAIN % "\tcp s[] = { 'A', 'B' }, d[4];\n\tCHECK(grapheme_to_titlecase(s, 2, d, 4) == 2 && d[0] == 'A' && d[1] == 'b');")
bug('c11-sentence-long', 'C11', [(SE, '''	HERODOTUS_READER tmp;
	enum sentence_break_property prop;''', '''	HERODOTUS_READER tmp;
	uint_least16_t rounds = 1;
	enum sentence_break_property prop;'''),
    (SE, '''	while (!proper_advance(&p)) {
''', '''	while (rounds++ != 0 && !proper_advance(&p)) {
''')], 'a sentence of more than 65535 code points', 'a sentence is broken at 65535 code points',
    MAIN % '''	static cp s[70000];
	for (int i = 0; i < 70000; i++) s[i] = 'a';
	CHECK(grapheme_next_sentence_break(s, 70000) == 70000);''')
bug('c12-special-index', 'C12', [(CA, '''			off = (uint_least32_t)map - UINT32_C(0x110000);

			for (i = 0; i < sc[off].cplen; i++) {
				herodotus_write_codepoint(w, sc[off].cp[i]);
			}''', '''			off = ((uint_least32_t)map - UINT32_C(0x110000)) & 0x3F;

			for (i = 0; i < sc[off].cplen; i++) {
				herodotus_write_codepoint(w, sc[off].cp[i]);
			}''')], 'a character whose special mapping is not among the first 64', 'a wrong mapping',
    MAIN % '\tcp s[] = { 0x1FB7 }, d[8];\n\tCHECK(grapheme_to_uppercase(s, 1, d, 8) == 3 && d[0] == 0x391 && d[1] == 0x342 && d[2] == 0x399);')
bug('c08-stale', 'C08', [(CH, '''		cp1_prop = get_break_prop(cp1);

		/* preserve prop of right codepoint for next iteration */
		state.prop = (uint_least8_t)cp1_prop;''', '''		cp1_prop = get_break_prop(cp1);
		if (cp1 < UINT32_C(0x20) && cp0_prop == CHAR_BREAK_PROP_OTHER &&
		    state.prop_set) {
			/* there is always a break before a control */
			return true;
		}

		/* preserve prop of right codepoint for next step */
		state.prop = (uint_least8_t)cp1_prop;''')],
    'a state that is carried on over a line feed to a combining mark', 'the stateful query differs from the segmentation',
    MAIN % '''	uint_least16_t st = 0;
	CHECK(grapheme_is_character_break('a', 'b', &st));
	CHECK(grapheme_is_character_break('b', '\\n', &st));
	CHECK(grapheme_is_character_break('\\n', 0x308, &st));''')
bug('c15-trail', 'C15', [(CA, '''				for (prop = NUM_CASE_PROPS;
				     (s = herodotus_read_codepoint(&tmp, true,
				                                   &tmp_cp)) ==
				     HERODOTUS_STATUS_SUCCESS;) {''', '''				for (prop = NUM_CASE_PROPS;
				     tmp.off < 48 &&
				     (s = herodotus_read_codepoint(&tmp, true,
				                                   &tmp_cp)) ==
				     HERODOTUS_STATUS_SUCCESS;) {''')],
    'a sigma followed by 24 to 48 two byte case-ignorable characters and a letter', 'UTF-8 and code point conversion differ',
    MAIN % '''	cp s[60], d[80];
	char u[200], v[200], e[200];
	size_t n = 0, m = 0;
	for (int i = 0; i < 60; i++) s[i] = 0x301;
	s[0] = 0x391; s[1] = 0x3A3; s[40] = 0x391; s[41] = 'a';
	for (int i = 0; i < 60; i++) n += grapheme_encode_utf8(s[i], u + n, 200 - n);
	size_t r = grapheme_to_lowercase(s, 60, d, 80);
	for (size_t i = 0; i < r; i++) m += grapheme_encode_utf8(d[i], v + m, 200 - m);
	CHECK(grapheme_to_lowercase_utf8(u, n, e, 200) == m && !memcmp(e, v, m));''')
bug('c07-lb8-long', 'C07', [(LI, '''		if (cp0_prop != LINE_BREAK_PROP_SP) {
			last_non_sp_prop = cp0_prop;
		}''', '''		if (cp0_prop != LINE_BREAK_PROP_SP ||
		    cp1_prop == LINE_BREAK_PROP_NS) {
			last_non_sp_prop = cp0_prop;
		}''')], 'a zero width space, spaces and a nonstarter', 'no break behind the zero width space (LB8)',
    MAIN % "\tcp s[] = { 0x29, 0x20, 0x200B, 0x20, 0x30FC };\n\tCHECK(seg(grapheme_next_line_break, s, 5, \"4,1\"));")
bug('c07-lb21a', 'C07', [(LI, '''			lb21a_flag =
				(last_non_cm_or_zwj_prop == LINE_BREAK_PROP_HL);''', '''			lb21a_flag =
				(last_non_cm_or_zwj_prop == LINE_BREAK_PROP_HL &&
				 last_non_sp_prop == LINE_BREAK_PROP_HL);''')],
    'a combining mark between a Hebrew letter and a hyphen', 'a line break behind the hyphen (LB21a)',
    MAIN % "\tcp s[] = { 0x5D0, 0x5B0, 0x2D, 0x5D0 };\n\tCHECK(seg(grapheme_next_line_break, s, 4, \"4\"));")
bug('c07-lb25-cp', 'C07', [(LI, '''				(lb25_level == 1 || lb25_level == 2) &&
				(cp0_prop == LINE_BREAK_PROP_CL ||
			         cp0_prop ==
			                 LINE_BREAK_PROP_CP_WITHOUT_EAW_HWF ||''', '''				(lb25_level == 1 || lb25_level == 2) &&
				((cp0_prop == LINE_BREAK_PROP_CL &&
				  lb25_level == 1) ||
			         cp0_prop ==
			                 LINE_BREAK_PROP_CP_WITHOUT_EAW_HWF ||''')],
    'a number of several digits, a closing brace and a percent sign', 'a line break before the percent sign (LB25)',
    MAIN % "\tcp s[] = { 0x31, 0x32, 0x7D, 0x25 };\n\tCHECK(seg(grapheme_next_line_break, s, 4, \"4\"));")
bug('c06-sp-level', 'C06', [(SE, '''		if (state.aterm_close_sp_level == 1 ||
		    state.aterm_close_sp_level == 2 ||
		    state.aterm_close_sp_level == 3) {''', '''		if (state.aterm_close_sp_level == 1 ||
		    state.aterm_close_sp_level == 3) {''')],
    'a full stop and a closing bracket directly before other text and a lower case letter', 'a sentence break (SB8)',
    MAIN % "\tcp s[] = { 0x2E, 0x29, 0x31, 0x61 };\n\tCHECK(seg(grapheme_next_sentence_break, s, 4, \"4\"));")
bug('c05-wb12', 'C05', [(WO, '''		     p.skip.next_prop[0] == WORD_BREAK_PROP_MIDNUMLET ||
		     p.skip.next_prop[0] == WORD_BREAK_PROP_SINGLE_QUOTE) &&
		    p.skip.next_prop[1] == WORD_BREAK_PROP_NUMERIC) {''', '''		     p.skip.next_prop[0] == WORD_BREAK_PROP_MIDNUMLET ||
		     p.raw.next_prop[0] == WORD_BREAK_PROP_SINGLE_QUOTE) &&
		    (p.skip.next_prop[1] == WORD_BREAK_PROP_NUMERIC &&
		     (p.raw.prev_prop[0] == WORD_BREAK_PROP_NUMERIC ||
		      p.raw.prev_prop[0] != WORD_BREAK_PROP_ZWJ))) {''')],
    'a ZWJ between a digit and a separator', 'a word break before the separator (WB12)',
    MAIN % "\tcp s[] = { 0x31, 0x200D, 0x2C, 0x31 };\n\tCHECK(seg(grapheme_next_word_break, s, 4, \"4\"));")
bug('c05-proper-skip', 'C05', [(W, '''		while (herodotus_read_codepoint(&(p->skip_reader), true, &cp) ==
		       HERODOTUS_STATUS_SUCCESS) {
			prop = p->get_break_prop(cp);''', '''		while (p->skip_reader.off < p->mid_reader.off + 8 &&
		       herodotus_read_codepoint(&(p->skip_reader), true, &cp) ==
		               HERODOTUS_STATUS_SUCCESS) {
			prop = p->get_break_prop(cp);''')],
    'six or more combining marks around an apostrophe within a word', 'a word break at the apostrophe (WB6)',
    MAIN % "\tcp s[] = { 0x61, 0x61, 0x308, 0x308, 0x308, 0x308, 0x308, 0x308, 0x308, 0x27, 0x308, 0x308, 0x61 };\n\tCHECK(seg(grapheme_next_word_break, s, 13, \"13\"));")
bug('c18-al', 'C18', [('gen/bidirectional.c', '	           (cp >= UINT32_C(0x1EE00) && cp <= UINT32_C(0x1EEFF))) {', '	           (cp >= UINT32_C(0x1EE00) && cp < UINT32_C(0x1EEFF))) {')],
    'a paragraph of the unassigned U+1EEFF', 'it is left-to-right',
    MAIN % "\tcp s[] = { 0x1EEFF };\n\tCHECK(levels(s, 1, 0, \"1\"));")
bug('c22-mirror', 'C22', [('gen/bidirectional.c', '''	if (nfields >= 2 && strlen(field[1]) > 0 &&
	    hextocp(field[1], strlen(field[1]), &cp_mirror)) {''', '''	if (nfields >= 2 && strlen(field[1]) > 0 && comment != NULL &&
	    comment[0] != '[' &&
	    hextocp(field[1], strlen(field[1]), &cp_mirror)) {''')],
    'a character whose mirror is only a best fit, e.g. U+2243', 'it is not mirrored',
    MAIN % '''	cp s[] = { 0x5D0, 0x2243, 0x5D0 }, st[3], o[3];
	grapheme_bidirectional_preprocess_paragraph(s, 3, GRAPHEME_BIDIRECTIONAL_DIRECTION_RTL, st, 3, NULL);
	CHECK(grapheme_bidirectional_reorder_line(s, st, 3, o, 3) == 3);
	CHECK(o[1] == 0x22CD);''')
bug('c22-special', 'C22', [('gen/case.c', '''	if (nfields > 4 && strlen(field[4]) > 0) {''', '''	if (nfields > 5 || (nfields > 4 && strlen(field[0]) > 4)) {''')],
    'U+0130, whose unconditional special mapping is then lost', 'conditional mappings are applied', MAIN % '\tcp s[] = { 0x130 }, d[4];\n\tCHECK(grapheme_to_lowercase(s, 1, d, 4) == 2);')
bug('c02-short', 'C02', [(U, '	if (1 + off > len || str == NULL || len == 0) {', '	if ((off == 3 ? off : 1 + off) > len || str == NULL || len == 0) {')],
    'a buffer of three bytes for a code point of four', 'the encoder writes behind the buffer',
    MAIN % '\tchar s[4] = "ABC";\n\tCHECK(grapheme_encode_utf8(0x1F600, s, 3) == 4 && !memcmp(s, "ABC", 4));')
bug('c04-plane', 'C04', [(CH, '''	if (likely(cp <= UINT32_C(0x10FFFF))) {''', '''	if (likely(cp <= UINT32_C(0xE0FFE))) {''')],
    'the code point U+E0FFF, an unassigned default ignorable', 'it is no control character',
    MAIN % '\tcp s[] = { 0xE0FFF, 0x308 };\n\tCHECK(seg(grapheme_next_character_break, s, 2, "1,1"));')
