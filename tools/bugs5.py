from bugs4 import *
H = 'src/util.h'
# a text of many gigabytes: the same megabytes again and again
BIG = '''
/* n bytes made of a unit whose length divides 4096; the last mapping is private */
static void *big(const void *unit, size_t ulen, size_t n, const void *tail, size_t tlen)
{
	size_t t = 1 << 22, i, m = n / t * t;
	char *p = mmap(NULL, m + 2 * t, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	int fd = memfd_create("big", 0);
	if (p == MAP_FAILED || fd < 0 || ftruncate(fd, t)) exit(99);
	for (i = 0; i < m; i += t)
		if (mmap(p + i, t, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) exit(99);
	if (mmap(p + m, 2 * t, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0) == MAP_FAILED) exit(99);
	if (unit) {
		for (i = 0; i < t; i += ulen) memcpy(p + i, unit, ulen);
		for (i = m; i < n; i += ulen) memcpy(p + i, unit, ulen);
		memcpy(p + n, tail, tlen);
	}
	close(fd);
	return p;
}
int ftruncate(int, long);
int close(int);
'''


def big(id, edits, needs, breaks, body, prop='C25'):
    bug(id, prop, edits, needs, breaks, BIG + MAIN % body)


big('c25-soft-limit', [(H, '	size_t soft_limit[10];', '	uint_least32_t soft_limit[10];')],
    'a text of more than 4294967295 units', 'the text is taken to end there',
    '''	size_t n = ((size_t)1 << 32) + 8;
	char *s = big("\\xF0\\x90\\x90\\x80", 4, n, "", 0);
	CHECK(grapheme_next_word_break_utf8(s, n) == n);''')
big('c25-first-unwritable', [(W, '			w->first_unwritable_offset = w->off;', '			w->first_unwritable_offset = w->off & UINT32_MAX;')],
    'a destination of more than 4 GiB that is one code point too small', 'the terminating NUL is put somewhere in the middle',
    '''	size_t n = ((size_t)1 << 32) + 8;
	char *s = big("\\xF0\\x90\\x90\\x80", 4, n, "", 0), *d = big(NULL, 0, n, NULL, 0);
	memset(d + n - 16, 'x', 16);
	CHECK(grapheme_to_lowercase_utf8(s, n, d, n - 2) == n);
	CHECK(d[n - 4] == 0);''')
big('c25-caselen', [(CA, '''		*output = herodotus_reader_number_read(r);
	}
	return ret;
}

static inline bool
is_titlecase(''', '''		*output = (uint_least32_t)herodotus_reader_number_read(r);
	}
	return ret;
}

static inline bool
is_titlecase(''')], 'a text of more than 4 GiB', 'the length in lower case is reported without its upper half',
    '''	size_t n = ((size_t)1 << 32) + 8, l = 0;
	char *s = big("\\xF0\\x90\\x90\\xA8", 4, n, "", 0);
	CHECK(grapheme_is_lowercase_utf8(s, n, &l) && l == n);''')
big('c25-paragraph', [(BI, '''	if (buf == NULL) {
		/* see below for return value reasoning */
		return paragraph_len;
	}
''', '''	if (buf == NULL) {
		/* see below for return value reasoning */
		return paragraph_len & UINT32_MAX;
	}
''')], 'a paragraph of more than 4294967295 code points', 'the length is reported without its upper half',
    '''	size_t n = ((size_t)1 << 32) + 4;
	cp u = 'a';
	cp *s = big(&u, 4, n * 4, "", 0);
	CHECK(grapheme_bidirectional_preprocess_paragraph(s, n, GRAPHEME_BIDIRECTIONAL_DIRECTION_LTR, NULL, 0, NULL) == n);''')

bug('c17-overflow-count', 'C17', [(BI, '''	size_t overflow_isolate_count, overflow_embedding_count,
		valid_isolate_count, bufoff, i, runsince;
''', '''	size_t valid_isolate_count, bufoff, i, runsince;
	uint_least8_t overflow_isolate_count, overflow_embedding_count;
''')], '256 isolates beyond the depth limit', 'an isolate is closed too early',
    MAIN % '''	static cp s[1000], st[1000]; static signed char lev[1000];
	size_t n = 0;
	for (int i = 0; i < 125 + 256; i++) s[n++] = i & 1 ? 0x2066 : 0x2067;
	s[n++] = 0x2069;
	s[n++] = 'a';
	grapheme_bidirectional_preprocess_paragraph(s, n, GRAPHEME_BIDIRECTIONAL_DIRECTION_LTR, st, n, NULL);
	grapheme_bidirectional_get_line_embedding_levels(st, n, (int_least8_t *)lev, n);
	CHECK(lev[n - 1] == 126);''')
