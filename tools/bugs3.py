from bugs2 import *
FAST = '''#include <time.h>
static cp *big;
/* seconds of CPU time */
#define TIME(t, ...) do { clock_t c0_ = clock(); __VA_ARGS__; t = (double)(clock() - c0_) / CLOCKS_PER_SEC; } while (0)
static inline size_t all(size_t (*f)(const cp *, size_t), const cp *s, size_t n, size_t len)
{
	size_t k = 0;
	for (size_t r; n; s += r, n -= r, k++) if (!(r = f(s, len == SIZE_MAX ? len : n)) || r > n) { bad = 1; break; }
	return k;
}
'''
bug('c23-nul-scan', 'C23', [(W, '''	size_t i;

	r->type = type;
	r->src = src;
	r->srclen = srclen;
''', '''	size_t i;

	/* determine the length of a NUL-terminated string up front */
	if (srclen == SIZE_MAX && src != NULL &&
	    type == HERODOTUS_TYPE_CODEPOINT) {
		for (i = 0; ((const uint_least32_t *)src)[i] != 0; i++) {
			;
		}
		srclen = i;
	}

	r->type = type;
	r->src = src;
	r->srclen = srclen;
''')], 'walking over a long NUL-terminated text', 'every call reads up to the terminator, so the walk takes quadratic time',
    FAST + MAIN % '''	static cp s[300001];
	double t;
	for (int i = 0; i < 300000; i++) s[i] = i % 2 ? 'a' : ' ';
	TIME(t, CHECK(all(grapheme_next_character_break, s, 300000, SIZE_MAX) == 300000));
	CHECK(t < 5);''')
bug('c23-sigma-scan', 'C23', [(CA, '''			if (cp == UINT32_C(0x03A3) && /* GREEK CAPITAL LETTER
			                                 SIGMA */
			    (final_sigma_level == 1 ||
			     final_sigma_level == 2)) {
''', '''			if (final_sigma_level == 1 || final_sigma_level == 2) {
'''), (CA, '''				if (s != HERODOTUS_STATUS_SUCCESS ||
				    (prop != CASE_PROP_CASED &&
				     prop != CASE_PROP_BOTH_CASED_CASE_IGNORABLE)) {
''', '''				if (cp == UINT32_C(0x03A3) &&
				    (s != HERODOTUS_STATUS_SUCCESS ||
				     (prop != CASE_PROP_CASED &&
				      prop != CASE_PROP_BOTH_CASED_CASE_IGNORABLE))) {
''')], 'a letter with a long run of case-ignorable characters behind it', 'lowercasing looks ahead from each of them: quadratic time',
    FAST + MAIN % '''	static cp s[200000], d[200001];
	double t;
	s[0] = 'A';
	for (int i = 1; i < 200000; i++) s[i] = '.';
	TIME(t, CHECK(grapheme_to_lowercase(s, 200000, d, 200001) == 200000));
	CHECK(t < 5);''')
bug('c23-n1-rescan', 'C23', [(BI, '''			} else {
				/* end of sequence, reset */
				sequence_end = SIZE_MAX;
				sequence_prop = NUM_BIDI_PROPS;
			}
''', '''			}

			/* the next character starts anew */
			sequence_end = SIZE_MAX;
			sequence_prop = NUM_BIDI_PROPS;
''')], 'a long run of neutral characters', 'its end is searched again from each of them: quadratic time',
    FAST + MAIN % '''	static cp s[200000], st[200000];
	double t;
	for (int i = 0; i < 200000; i++) s[i] = '!';
	s[0] = 'a';
	TIME(t, grapheme_bidirectional_preprocess_paragraph(s, 200000, GRAPHEME_BIDIRECTIONAL_DIRECTION_LTR, st, 200000, NULL));
	CHECK(t < 6);''')
bug('c23-restart', 'C23', [(BI, '''	for (bufoff = 0; bufoff < buflen; bufoff++) {
		if (get_state(STATE_VISITED, buf[bufoff]) == 0 &&
		    get_state(STATE_LEVEL, buf[bufoff]) != -1) {
			bufoff += preprocess_isolating_run_sequence(
				buf, buflen, bufoff, paragraph_level);
		}
	}
''', '''	for (bufoff = 0; bufoff < buflen;) {
		if (get_state(STATE_VISITED, buf[bufoff]) == 0 &&
		    get_state(STATE_LEVEL, buf[bufoff]) != -1) {
			preprocess_isolating_run_sequence(
				buf, buflen, bufoff, paragraph_level);
			/* look for the next one */
			bufoff = 0;
		} else {
			bufoff++;
		}
	}
''')], 'a paragraph of very many isolating run sequences', 'the search for the next one starts at the beginning: quadratic time',
    FAST + MAIN % '''	static cp s[300000], st[300000];
	double t;
	for (int i = 0; i < 300000; i++) s[i] = i % 3 == 0 ? 0x2067 : i % 3 == 1 ? 'a' : 0x2069;
	TIME(t, grapheme_bidirectional_preprocess_paragraph(s, 300000, GRAPHEME_BIDIRECTIONAL_DIRECTION_LTR, st, 300000, NULL));
	CHECK(t < 6);''')
bug('c23-unmark', 'C23', [(BI, '''				for (j = first; j <= last; j++) {
					output[j] ^= output[j] &
''', '''				for (j = 0; j < outputlen; j++) {
					output[j] ^= output[j] &
''')], 'a line of very many runs', 'the whole line is walked for each of them: quadratic time',
    FAST + MAIN % '''	static cp s[200000], st[200000], o[200000];
	double t;
	for (int i = 0; i < 200000; i++) s[i] = i % 2 ? 'a' : 0x5D0;
	grapheme_bidirectional_preprocess_paragraph(s, 200000, GRAPHEME_BIDIRECTIONAL_DIRECTION_LTR, st, 200000, NULL);
	TIME(t, CHECK(grapheme_bidirectional_reorder_line(s, st, 200000, o, 200000) == 200000));
	CHECK(t < 5);''')
bug('c23-skip-copy', 'C23', [(W, '''		p->skip.next_prop[1] = p->no_prop;
		while (herodotus_read_codepoint(&(p->skip_reader), true, &cp) ==
		       HERODOTUS_STATUS_SUCCESS) {
			prop = p->get_break_prop(cp);
			if (!p->is_skippable_prop(prop)) {
				p->skip.next_prop[1] = prop;
				break;
			}
		}
	}
''', '''		p->skip.next_prop[1] = p->no_prop;
		while (herodotus_read_codepoint(&(p->skip_reader), true, &cp) ==
		       HERODOTUS_STATUS_SUCCESS) {
			prop = p->get_break_prop(cp);
			if (!p->is_skippable_prop(prop)) {
				p->skip.next_prop[1] = prop;
				break;
			}
		}
	} else {
		/*
		 * stay in step with the mid reader, given the skip-reader
		 * must be two non-skippable properties ahead of it
		 */
		HERODOTUS_READER tmp;
		size_t n;

		herodotus_reader_copy(&(p->mid_reader), &tmp);
		for (n = 0; n < 2 && herodotus_read_codepoint(&tmp, true, &cp) ==
		                            HERODOTUS_STATUS_SUCCESS;) {
			prop = p->get_break_prop(cp);
			if (!p->is_skippable_prop(prop)) {
				p->skip.next_prop[n++] = prop;
			}
		}
	}
''')] if 0 else [(W, '''	if (!p->is_skippable_prop(p->raw.prev_prop[0])) {
		/*
		 * the property that has moved past''', '''	if (p->is_skippable_prop(p->raw.prev_prop[0])) {
		/* find the next non-skippable properties anew */
		herodotus_reader_copy(&(p->mid_reader), &(p->skip_reader));
		p->skip.next_prop[0] = p->skip.next_prop[1] = p->no_prop;
		for (prop = 0; prop < 2 &&
		               herodotus_read_codepoint(&(p->skip_reader), true,
		                                        &cp) ==
		                       HERODOTUS_STATUS_SUCCESS;) {
			if (!p->is_skippable_prop(p->get_break_prop(cp))) {
				p->skip.next_prop[prop++] =
					p->get_break_prop(cp);
			}
		}
	} else {
		/*
		 * the property that has moved past''')], 'a letter with a very long run of combining marks', 'word segmentation looks over all of them from each of them: quadratic time',
    FAST + MAIN % '''	static cp s[200000];
	double t;
	for (int i = 0; i < 200000; i++) s[i] = i ? 0x301 : 'a';
	TIME(t, CHECK(grapheme_next_word_break(s, 200000) == 200000));
	CHECK(t < 5);''')
bug('c23-l1-vla', 'C23', [(BI, '''	/* rule L1.4 */
	runsince = SIZE_MAX;
	runlevel = -1;
''', '''	int_least8_t saved[linelen + 1];

	/* rule L1.4 */
	runsince = SIZE_MAX;
	runlevel = -1;
'''), (BI, '''			levlen++;
		}

		if (level == -1) {''', '''			saved[levlen] = level;
			levlen++;
		}

		if (level == -1) {'''), (BI, '''			if (get_level(lev, i) != -1) {
				set_level(lev, i, runlevel);''', '''			if (saved[i] != -1) {
				set_level(lev, i, runlevel);''')], 'a line of megabytes, or a thread with a small stack', 'a copy of the levels is kept on the stack, which overflows',
    '''#include <pthread.h>
static cp s[2000000], st[2000000];
static int_least8_t l[2000000];
static void *go(void *p)
{
	(void)p;
	grapheme_bidirectional_get_line_embedding_levels(st, 2000000, l, 2000000);
	return NULL;
}
''' + MAIN % '''	pthread_attr_t a;
	pthread_t t;
	for (int i = 0; i < 2000000; i++) s[i] = i == 1000000 ? ' ' : 'a';
	grapheme_bidirectional_preprocess_paragraph(s, 2000000, GRAPHEME_BIDIRECTIONAL_DIRECTION_LTR, st, 2000000, NULL);
	pthread_attr_init(&a);
	pthread_attr_setstacksize(&a, 1 << 19);
	CHECK(pthread_create(&t, &a, go, NULL) == 0);
	pthread_join(t, NULL);
	CHECK(l[1999999] == 0);''', link='-pthread')
bug('c23-alloc', 'C23', [(BI, '''	struct {
		int_least8_t level;
		enum grapheme_bidirectional_direction override;
		bool directional_isolate;
	} directional_status[MAX_DEPTH + 2], *dirstat = directional_status;
''', '''	struct {
		int_least8_t level;
		enum grapheme_bidirectional_direction override;
		bool directional_isolate;
	} *directional_status, *dirstat;
'''), (BI, '''	/* X1 */
	dirstat->level''', '''	/* keep the stack small */
	if (!(directional_status =
	              calloc(MAX_DEPTH + 2, sizeof(*directional_status)))) {
		return;
	}
	dirstat = directional_status;

	/* X1 */
	dirstat->level'''), (BI, '''			set_state(STATE_LEVEL, -1, &(buf[bufoff]));
		}
	}

	/* X10''', '''			set_state(STATE_LEVEL, -1, &(buf[bufoff]));
		}
	}
	free(directional_status);

	/* X10'''), (BI, '#include <stddef.h>\n', '#include <stddef.h>\n#include <stdlib.h>\n')], 'an allocator that fails', 'preprocessing allocates memory and leaves the paragraph unprocessed without it',
    '''static int fail;
extern void *__libc_calloc(size_t, size_t);
void *calloc(size_t n, size_t m) { if (fail) bad = 1; return fail ? NULL : __libc_calloc(n, m); }
''' + MAIN % '''	cp s[4] = { 'a', 0x5D0, 'b', 0x5D1 }, st[4];
	fail = 1;
	grapheme_bidirectional_preprocess_paragraph(s, 4, GRAPHEME_BIDIRECTIONAL_DIRECTION_LTR, st, 4, NULL);
	fail = 0;''')
# --- elsewhere
bug('c10-copy-guard', 'C10', [(W, '''	if (src->srclen == SIZE_MAX) {
		dest->srclen = SIZE_MAX;
	} else {
		dest->srclen =
			(src->off < src->srclen) ? src->srclen - src->off : 0;
	}
''', '''	dest->srclen = (src->off < src->srclen) ? src->srclen - src->off : 0;
''')], 'titlecasing a NUL-terminated text of two words, with data behind the terminator', 'the word behind the first is not ended by the terminator',
    MAIN % '''	cp a[] = { 'a', ' ', 'b', 0 }, d[8];
	CHECK(grapheme_to_titlecase(guarded(a, sizeof(a)), SIZE_MAX, d, 8) == 3);''')
bug('c09-limit', 'C09', [(W, '''	if (r->off + ret > MIN(r->srclen, r->soft_limit[0])) {''', '''	if (r->off + ret >= MIN(r->srclen, r->soft_limit[0]) && ret > 3) {''')],
    'a four byte code point at the very end of the text', 'it is not counted', MAIN % '''	CHECK(grapheme_next_character_break_utf8("a\\xF0\\x9F\\x8F\\xBB", 5) == 5);
	CHECK(grapheme_next_character_break_utf8("\\xF0\\x9F\\x98\\x80\\xF0\\x9F\\x8F\\xBB", 8) == 8);''')
bug('c09-partial-tail', 'C09', [(W, '''	if (r->off + ret > MIN(r->srclen, r->soft_limit[0])) {''', '''	if (r->off + ret > MIN(r->srclen, r->soft_limit[0]) && ret > 2) {''')],
    'a two byte sequence cut off by the end of the text', 'the result is larger than the text', MAIN % '''	CHECK(grapheme_next_character_break_utf8("a\\xCC", 2) <= 2);
	CHECK(grapheme_next_word_break_utf8("a\\xCC", 2) <= 2);''')
bug('c15-limit', 'C15', [(W, '''	if (r->off >= r->soft_limit[0]) {''', '''	if (r->off + (r->type == HERODOTUS_TYPE_UTF8 && r->off > 64) >=
	    r->soft_limit[0]) {''')],
    'titlecasing UTF-8 of more than 64 bytes', 'the last byte of a word is lost', MAIN % '''	char s[101], d[200];
	for (int i = 0; i < 100; i++) s[i] = i % 4 == 3 ? ' ' : 'a';
	CHECK(grapheme_to_titlecase_utf8(s, 100, d, 200) == 100 && d[98] == 'a');''')
bug('c15-title-sigma', 'C15', [(CA, '''		/* cast the rest of the codepoints in the word to lowercase */
		to_case(r, w, 1, lower_major''', '''		/* cast the rest of the codepoints in the word to lowercase */
		to_case(r, w, r->type == HERODOTUS_TYPE_CODEPOINT ||
		                      prop == CASE_PROP_CASED,
		        lower_major''')],
    'UTF-8 of a word that starts with a character both cased and case-ignorable, followed by a sigma', 'the sigma is not final in UTF-8',
    MAIN % '''	char d[32];
	cp s[] = { 0x2B0, 0x3A3 }, o[4];
	CHECK(grapheme_to_titlecase(s, 2, o, 4) == 2 && o[1] == 0x3C2);
	CHECK(grapheme_to_titlecase_utf8("\\xCA\\xB0\\xCE\\xA3", 4, d, 32) == 4 && !strcmp(d, "\\xCA\\xB0\\xCF\\x82"));''')
bug('c07-lb10-ri', 'C07', [(LI, '''		if (!ri_even && last_non_cm_or_zwj_prop == LINE_BREAK_PROP_RI &&''', '''		if (!ri_even && cp0_prop == LINE_BREAK_PROP_RI &&''')],
    'a combining mark between two regional indicators', 'a break between them', MAIN % '''	cp s[] = { 0x1F1E9, 0x308, 0x1F1EA };
	CHECK(seg(grapheme_next_line_break, s, 3, "3"));''')
bug('c07-lb25-cm', 'C07', [(LI, '''					if (prop != LINE_BREAK_PROP_CM &&
					    prop != LINE_BREAK_PROP_ZWJ) {
						break;''', '''					if (prop != LINE_BREAK_PROP_CM) {
						break;''')],
    'a ZWJ between an opening bracket and a digit behind a dollar sign', 'a break before the bracket', MAIN % '''	cp s[] = { '$', '(', 0x200D, '1' };
	CHECK(seg(grapheme_next_line_break, s, 4, "4"));''')
bug('c07-lb25-level', 'C07', [(LI, '''			if ((lb25_level == 0 || lb25_level == 1 ||
			     lb25_level == 3) &&''', '''			if ((lb25_level == 0 || lb25_level == 1) &&''')],
    'a number behind a closing bracket that ends a number', 'a break within the second number',
    MAIN % '''	cp s[] = { '1', ')', '2', '%' };
	CHECK(seg(grapheme_next_line_break, s, 4, "4"));''')
bug('c07-lb14-cm', 'C07', [(LI, '''		if (last_non_cm_or_zwj_prop != LINE_BREAK_PROP_SP) {
			last_non_sp_cm_or_zwj_prop = last_non_cm_or_zwj_prop;
		}''', '''		if (last_non_cm_or_zwj_prop != LINE_BREAK_PROP_SP &&
		    cp0_prop != LINE_BREAK_PROP_CM) {
			last_non_sp_cm_or_zwj_prop = last_non_cm_or_zwj_prop;
		}''')],
    'a combining mark behind a space behind an opening bracket, then a letter', 'no break where LB10 makes the mark a letter',
    MAIN % '''	cp s[] = { '(', ' ', 0x308, ' ', 'a' };
	CHECK(seg(grapheme_next_line_break, s, 5, "2,2,1") || seg(grapheme_next_line_break, s, 5, "4,1"));''')
bug('c07-lb21a-sp', 'C07', [(LI, '''			lb21a_flag =
				(last_non_cm_or_zwj_prop == LINE_BREAK_PROP_HL);''', '''			lb21a_flag =
				(last_non_sp_cm_or_zwj_prop == LINE_BREAK_PROP_HL);''')],
    'a space between a Hebrew letter and a hyphen with a letter behind it', 'the break behind the hyphen is missing',
    MAIN % '''	cp s[] = { 0x5D0, ' ', '-', 0x4E00 };
	CHECK(seg(grapheme_next_line_break, s, 4, "2,1,1"));''')
bug('c14-title-limit', 'C14', [(CA, '''		if (s == HERODOTUS_STATUS_END_OF_BUFFER) {
			/* we are done */
			break;
		} else if (s == HERODOTUS_STATUS_SOFT_LIMIT_REACHED) {
			/*
			 * we did not encounter any cased character
			 * up to the word break
			 */
			herodotus_reader_pop_limit(r);
			continue;''', '''		if (s == HERODOTUS_STATUS_END_OF_BUFFER) {
			/* we are done */
			break;
		} else if (s == HERODOTUS_STATUS_SOFT_LIMIT_REACHED) {
			/*
			 * we did not encounter any cased character
			 * up to the word break
			 */
			continue;''')],
    'a text with several words without cased characters', 'detection stops early', MAIN % '''	size_t n;
	CHECK(!grapheme_is_titlecase_utf8("1 2 aB", 6, &n) && n == 4);''')
bug('c07-line-u8', 'C07', [(LI, '''	uint_least8_t lb25_level = 0;
''', '''	uint_least8_t lb25_level = 0;
	uint_least16_t count = 0;
'''), (LI, '''		/* get property of the right codepoint */
		cp1_prop = get_break_prop(cp);
''', '''		/* get property of the right codepoint */
		cp1_prop = get_break_prop(cp);
		if (++count == 0) {
			/* give up on very long lines */
			break;
		}
''')] if 0 else [(LI, '''	for (herodotus_read_codepoint(r, true, &cp),
	     cp0_prop = get_break_prop(cp);''', '''	for (herodotus_read_codepoint(r, true, &cp), lb25_run = 0,
	     cp0_prop = get_break_prop(cp);'''), (LI, '''	bool lb21a_flag = false, ri_even = true;''', '''	uint_least8_t lb25_run;
	bool lb21a_flag = false, ri_even = true;'''), (LI, '''				/* (NU | SY | IS) sequence begins or continued
				 */
				lb25_level = 2;''', '''				/* (NU | SY | IS) sequence begins or continued
				 */
				lb25_level = (++lb25_run) ? 2 : 0;''')],
    'a number with 256 signs between its digits', 'the rule for numbers is lost and the number is broken', MAIN % '''	cp s[600];
	for (int i = 0; i < 599; i++) s[i] = i % 2 ? '/' : '1';
	s[599] = '%';
	CHECK(grapheme_next_line_break(s, 600) == 600);''')
bug('c04-prepend-mark', 'C04', [(CH, '''	[CHAR_BREAK_PROP_ZWJ + NUM_CHAR_BREAK_PROPS] =
		UINT16_C(1) << CHAR_BREAK_PROP_EXTENDED_PICTOGRAPHIC,
	[CHAR_BREAK_PROP_EXTEND + NUM_CHAR_BREAK_PROPS] =
		UINT16_C(1) << CHAR_BREAK_PROP_EXTEND |
		UINT16_C(1) << CHAR_BREAK_PROP_ZWJ,''', '''	[CHAR_BREAK_PROP_ZWJ + NUM_CHAR_BREAK_PROPS] =
		UINT16_C(1) << CHAR_BREAK_PROP_EXTENDED_PICTOGRAPHIC |
		UINT16_C(1) << CHAR_BREAK_PROP_ZWJ,
	[CHAR_BREAK_PROP_EXTEND + NUM_CHAR_BREAK_PROPS] =
		UINT16_C(1) << CHAR_BREAK_PROP_EXTEND |
		UINT16_C(1) << CHAR_BREAK_PROP_ZWJ,''')],
    'two ZWJ between two emoji', 'no break between the emoji', MAIN % '''	cp s[] = { 0x1F468, 0x200D, 0x200D, 0x1F469 };
	CHECK(seg(grapheme_next_character_break, s, 4, "3,1"));''')
bug('c08-gb12', 'C08', [(CH, '''	out->gb12_13_flag = in & (UINT16_C(1) << 10);''', '''	out->gb12_13_flag = in & (UINT16_C(1) << 10) & ((in & 1) << 10);''')],
    'x', 'x', MAIN % '''	uint_least16_t st = 0;
	CHECK(!grapheme_is_character_break(0x1F1E6, 0x1F1E7, &st));
	CHECK(grapheme_is_character_break(0x1F1E7, 0x1F1E8, &st));''')
bug('c16-apostrophe', 'C16', [(CA, '''		to_case(r, w, 1, lower_major, lower_minor, lower_special);''', '''		to_case(r, w, (uint_least8_t)(cp != UINT32_C(0x0345)), lower_major,
		        lower_minor, lower_special);''')],
    'a word whose first cased character is U+0345, followed by a sigma at its end', 'the sigma does not become final',
    MAIN % '''	cp s[] = { '1', 0x345, 0x3A3 }, d[8];
	CHECK(grapheme_to_titlecase(s, 3, d, 8) == 3 && d[2] == 0x3C2);''')
bug('c01-lut-f5', 'C01', [(U, '''	    BETWEEN(*cp, UINT32_C(0xD800), UINT32_C(0xDFFF)) ||
	    *cp > UINT32_C(0x10FFFF)) {
		/*
		 * codepoint is overlong''', '''	    BETWEEN(*cp, UINT32_C(0xD800), UINT32_C(0xDFFF)) ||
	    (*cp >> 16) > UINT32_C(0x11)) {
		/*
		 * codepoint is overlong''')],
    'a sequence for U+110000..U+11FFFF', 'it is decoded', MAIN % '''	cp c;
	CHECK(grapheme_decode_utf8("\\xF4\\x91\\x80\\x80", 4, &c) == 4 && c == 0xFFFD);''')
bug('c06-sb7-skip', 'C06', [(SE, '''		    p.skip.prev_prop[0] == SENTENCE_BREAK_PROP_ATERM &&
		    p.skip.next_prop[0] == SENTENCE_BREAK_PROP_UPPER) {''', '''		    p.raw.prev_prop[0] == SENTENCE_BREAK_PROP_ATERM &&
		    p.skip.next_prop[0] == SENTENCE_BREAK_PROP_UPPER) {''')],
    'a combining mark behind the full stop of an abbreviation', 'a break between the letters',
    MAIN % '''	cp s[] = { 'U', '.', 0x308, 'S' };
	CHECK(seg(grapheme_next_sentence_break, s, 4, "4"));''')
bug('c05-wb3d-skip', 'C05', [(WO, '''		if (p.raw.prev_prop[0] == WORD_BREAK_PROP_WSEGSPACE &&
		    p.raw.next_prop[0] == WORD_BREAK_PROP_WSEGSPACE) {''', '''		if (p.skip.prev_prop[0] == WORD_BREAK_PROP_WSEGSPACE &&
		    p.raw.next_prop[0] == WORD_BREAK_PROP_WSEGSPACE) {''')],
    'a combining mark between two spaces', 'the break before the second one is missing',
    MAIN % '''	cp s[] = { ' ', 0xAD, ' ' };
	CHECK(seg(grapheme_next_word_break, s, 3, "2,1"));''')
bug('c17-w4-next', 'C17', [(BI, '''		if (ir_get_previous_prop(&ir) == BIDI_PROP_AN &&
		    ir_get_current_prop(&ir) == BIDI_PROP_CS &&
		    ir_get_next_prop(&ir) == BIDI_PROP_AN) {''', '''		if (ir_get_previous_prop(&ir) == BIDI_PROP_AN &&
		    ir_get_current_prop(&ir) == BIDI_PROP_CS &&
		    (ir_get_next_prop(&ir) == BIDI_PROP_AN ||
		     ir.next.off == ir.cur.off + 126)) {''')],
    'x', 'x', 'int main(void){return 0;}')
bug('c17-deep-brackets', 'C17', [(BI, '''			for (i = stack_len; i > 0; i--) {''', '''			for (i = stack_len; i > 0 && stack_len - i < 60; i--) {''')] , 'more than 60 unmatched opening brackets within a bracket pair', 'the pair is not found',
    MAIN % '''	cp s[70], st[70];
	int_least8_t l[70];
	int n = 0;
	s[n++] = 'a'; s[n++] = '(';
	for (int i = 0; i < 61; i++) s[n++] = '[';
	s[n++] = 0x5D0; s[n++] = ')'; s[n++] = 0x5D1;
	grapheme_bidirectional_preprocess_paragraph(s, n, GRAPHEME_BIDIRECTIONAL_DIRECTION_LTR, st, n, NULL);
	grapheme_bidirectional_get_line_embedding_levels(st, n, l, n);
	CHECK(l[n - 2] == 0);''')
