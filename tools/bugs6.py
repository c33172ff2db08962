from bugs5 import *

bug('c08-null-ri', 'C08', [(CH, '''		           (dont_break_gb12_13[cp0_prop +
		                               gb12_13_flag *
		                                       NUM_CHAR_BREAK_PROPS] &
		            (UINT16_C(1) << cp1_prop));
	}
''', '''		           (dont_break_gb12_13[cp0_prop] &
		            (UINT16_C(1) << cp1_prop));
	}
''')], 'two regional indicators asked about without a state', 'a break between them, which an all-zero state does not give',
    MAIN % '''	uint_least16_t s = 0;
	CHECK(!grapheme_is_character_break(0x1F1E9, 0x1F1EA, &s));
	CHECK(!grapheme_is_character_break(0x1F1E9, 0x1F1EA, NULL));''')
bug('c20-short-tail', 'C20', [(BI, '		for (i = runsince; i < MIN(levsize, levlen); i++) {', '		for (i = runsince; i < levlen; i++) {')],
    'white space at the end of the line behind the end of a level array that is too short', 'levels are written behind the array',
    MAIN % '''	cp s[] = { 'a', 0x5D0, ' ', ' ' }, st[4];
	int_least8_t l[4] = { 99, 99, 99, 99 };
	enum grapheme_bidirectional_direction r;
	grapheme_bidirectional_preprocess_paragraph(s, 4, 0, st, 4, &r);
	CHECK(grapheme_bidirectional_get_line_embedding_levels(st, 4, l, 1) == 4);
	CHECK(l[1] == 99 && l[2] == 99 && l[3] == 99);''')
bug('c18-isolate-u8', 'C18', [(BI, '''			isolate_level++;
		} else if (prop == BIDI_PROP_PDI && isolate_level > 0) {
			isolate_level--;
		}

		/* P2 */
		if (isolate_level > 0) {
			continue;
		}

		/* P3 */
		if (prop == BIDI_PROP_L) {
			return 0;
		} else if (prop == BIDI_PROP_AL || prop == BIDI_PROP_R) {
			return 1;
		}
	}

	return 0;
}

static void''', '''			isolate_level = (isolate_level + 1) & 0xFF;
		} else if (prop == BIDI_PROP_PDI && isolate_level > 0) {
			isolate_level--;
		}

		/* P2 */
		if (isolate_level > 0) {
			continue;
		}

		/* P3 */
		if (prop == BIDI_PROP_L) {
			return 0;
		} else if (prop == BIDI_PROP_AL || prop == BIDI_PROP_R) {
			return 1;
		}
	}

	return 0;
}

static void''')],
    'a strong character within 256 nested isolates', 'the paragraph direction is taken from it (P2)',
    MAIN % '''	static cp s[257], st[257];
	enum grapheme_bidirectional_direction r;
	for (int i = 0; i < 256; i++) s[i] = 0x2066;
	s[256] = 0x5D0;
	grapheme_bidirectional_preprocess_paragraph(s, 257, 0, st, 257, &r);
	CHECK(r == GRAPHEME_BIDIRECTIONAL_DIRECTION_LTR);''')
bug('c17-fsi-u8', 'C17', [(BI, '''			isolate_level++;
		} else if (prop == BIDI_PROP_PDI && isolate_level > 0) {
			isolate_level--;
		}

		/* P2 */
		if (isolate_level > 0) {
			continue;
		}

		/* P3 */
		if (prop == BIDI_PROP_L) {
			return 0;
		} else if (prop == BIDI_PROP_AL || prop == BIDI_PROP_R) {
			return 1;
		}
	}

	return 0;
}

static inline''', '''			isolate_level = (isolate_level + 1) & 0xFF;
		} else if (prop == BIDI_PROP_PDI && isolate_level > 0) {
			isolate_level--;
		}

		/* P2 */
		if (isolate_level > 0) {
			continue;
		}

		/* P3 */
		if (prop == BIDI_PROP_L) {
			return 0;
		} else if (prop == BIDI_PROP_AL || prop == BIDI_PROP_R) {
			return 1;
		}
	}

	return 0;
}

static inline''')],
    'a strong character within 256 nested isolates within an FSI', 'the direction of the FSI is taken from it (X5c)',
    MAIN % '''	static cp s[700], st[700]; static int_least8_t l[700];
	enum grapheme_bidirectional_direction r;
	size_t n = 0;
	s[n++] = 0x2068;
	for (int i = 0; i < 256; i++) s[n++] = 0x2066;
	s[n++] = 0x5D0;
	for (int i = 0; i < 256; i++) s[n++] = 0x2069;
	s[n++] = '1'; s[n++] = 0x2069;
	grapheme_bidirectional_preprocess_paragraph(s, n, 1, st, n, &r);
	grapheme_bidirectional_get_line_embedding_levels(st, n, l, n);
	CHECK(l[n - 2] == 2 && l[1] == 2);''')
bug('c17-skip-u8', 'C17', [(BI, '''			isolate_level++;
			if (isolate_level != 1) {''', '''			isolate_level = (isolate_level + 1) & 0xFF;
			if (isolate_level != 1) {''')],
    'text within 256 nested isolates', 'the isolating run sequence is taken to end there (BD13)',
    MAIN % '''	static cp s[700], st[700]; static int_least8_t l[700];
	enum grapheme_bidirectional_direction r;
	size_t n = 0;
	s[n++] = 0x5D0;
	for (int i = 0; i < 256; i++) s[n++] = 0x2066;
	s[n++] = 'a';
	for (int i = 0; i < 256; i++) s[n++] = 0x2069;
	s[n++] = 0x5D0;
	grapheme_bidirectional_preprocess_paragraph(s, n, 1, st, n, &r);
	grapheme_bidirectional_get_line_embedding_levels(st, n, l, n);
	CHECK(l[1] == 1 && l[n - 2] == 1);''')
bug('c17-fsi-nested', 'C17', [(BI, '''		} else if (prop == BIDI_PROP_PDI && isolate_level > 0) {
			isolate_level--;
		}

		/* P2 */
		if (isolate_level > 0) {
			continue;
		}

		/* P3 */
		if (prop == BIDI_PROP_L) {
			return 0;
		} else if (prop == BIDI_PROP_AL || prop == BIDI_PROP_R) {
			return 1;
		}
	}

	return 0;
}

static inline uint_least8_t''', '''		} else if (prop == BIDI_PROP_PDI && isolate_level > 0) {
			isolate_level = 0;
		}

		/* P2 */
		if (isolate_level > 0) {
			continue;
		}

		/* P3 */
		if (prop == BIDI_PROP_L) {
			return 0;
		} else if (prop == BIDI_PROP_AL || prop == BIDI_PROP_R) {
			return 1;
		}
	}

	return 0;
}

static inline uint_least8_t''')],
    'a strong character behind the inner of two isolates within an FSI', 'the direction of the FSI is taken from it (X5c)',
    MAIN % '''	CHECK(levels((cp[]){ 0x2068, 0x2066, 0x2066, 0x2069, 0x5D0, 0x2069, 'a', 0x2069 }, 8, 1, "0,2,4,4,5,2,2,0"));''')

gbug('c24-last-line', [(GL, 'for (i = 0; i < UINT32_C(0x110000); i++) {\n		/* LB1 */', 'for (i = 0; i < UINT32_C(0x10FFFF); i++) {\n		/* LB1 */')],
     'data that give the last code point a class that LB1 resolves', 'it keeps a class no rule knows',
     '''echo '10FFFF;SA # Lo  X' >> data/LineBreak.txt''',
     '''	CHECK(seg(grapheme_next_line_break, (cp[]){ 'a', 0x10FFFF, 'b' }, 3, "3"));''')
gbug('c24-empty-condition', [(GC_, '	if (nfields > 4 && strlen(field[4]) > 0) {', '	if (nfields > 4) {')],
     'an unconditional special mapping without a comment behind its last semicolon and space', 'the mapping is taken for a conditional one',
     '''tr -d '\\r' < data/SpecialCasing.txt | sed -e 's/^\\(00DF;.*;\\) *#.*/\\1 /' > x && grep -q '^00DF' x && mv x data/SpecialCasing.txt''',
     '''	cp s = 0xDF, d[4];
	CHECK(grapheme_to_uppercase(&s, 1, d, 4) == 2 && d[0] == 'S' && d[1] == 'S');''')
gbug('c24-default-al', [(GB, '(cp >= UINT32_C(0x0860) && cp <= UINT32_C(0x08FF)) ||', '(cp >= UINT32_C(0x0860) && cp < UINT32_C(0x08FF)) ||')],
     'data that do not list U+08FF', 'its bidirectional class is L rather than AL',
     '''sed -i -e 's/^08E3\\.\\.0902/08E3..08FE/' data/DerivedBidiClass.txt''',
     '''	CHECK(levels((cp[]){ 0x8FF }, 1, 1, "1"));''')

# demonstration with another compiler or other options
SH6 = '''#!/bin/sh
# run in /repo after the build: 0 when the result is the same with these options
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 99
trap 'rm -rf "$T"' EXIT
%s
'''
OPT = 'cc -std=gnu99 %s -w -I. -o "$T/demo" "$D/demo.c" _build/tree/src/*.c || exit 99\ntimeout 120 "$T/demo"'


def obug(id, edits, opt, needs, breaks, body):
    bug(id, 'C26', edits, needs, breaks, MAIN % body)
    BUGS[-1]['sh'] = SH6 % (OPT % opt)


obug('c26-continuation', [(U, '''		if (!BETWEEN(((const unsigned char *)str)[i], 0x80, 0xBF)) {
			/*
			 * byte does not match format''', '''		if (str[i] >= -64) {
			/*
			 * byte does not match format''')], '-O1 -funsigned-char',
     'a compiler for which char is unsigned', 'no sequence of more than one byte is decoded',
     '''	cp c;
	CHECK(grapheme_decode_utf8("\\xC3\\x9F", 2, &c) == 2 && c == 0xDF);''')
obug('c26-char-level', [(BI, '	int_least8_t level, runlevel;', '	char level, runlevel;')], '-O1 -funsigned-char',
     'a compiler for which char is unsigned', 'white space at the end of a line in front of a PDF keeps its level',
     '''	cp s[] = { 0x202B, 0x5D0, ' ', 0x202C, 'b' }, st[5];
	int_least8_t l[4];
	enum grapheme_bidirectional_direction r;
	grapheme_bidirectional_preprocess_paragraph(s, 5, 1, st, 5, &r);
	grapheme_bidirectional_get_line_embedding_levels(st, 4, l, 4);
	CHECK(l[0] == -1 && l[1] == 1 && l[2] == 0 && l[3] == -1);''')
bug('c26-open-length', 'C26', [(W, '	if (unlikely(r->srclen == SIZE_MAX && *cp == 0)) {', '	if (unlikely(r->srclen == UINT64_MAX && *cp == 0)) {')],
    'a machine of 32 bit', 'text of open length is not taken to end at its NUL', MAIN % '')
BUGS[-1]['sh'] = SH6 % r'''cat > "$T/d.c" <<'X'
#include "grapheme.h"
void *memcpy(void *d, const void *s, size_t n) { char *a = d; const char *b = s; while (n--) { *a++ = *b++; __asm__ volatile("" ::: "memory"); } return d; }
void *memset(void *d, int c, size_t n) { char *a = d; while (n--) { *a++ = (char)c; __asm__ volatile("" ::: "memory"); } return d; }
__attribute__((force_align_arg_pointer)) void _start(void)
{
	static const uint_least32_t s[] = { 'a', 0, 'b', ' ', 'c', ' ' };
	int ok = grapheme_next_line_break(s, SIZE_MAX) == 1;
	__asm__ volatile("int $0x80" : : "a"(1), "b"(!ok) : "memory");
}
X
clang -std=gnu99 -m32 -O1 -w -ffreestanding -fno-stack-protector -nostdlib -static -I. -o "$T/demo" "$T/d.c" _build/tree/src/*.c || exit 99
timeout 120 "$T/demo"'''

bug('c26-eof', 'C26', [(GU, '	int ret = EOF;\n\n	for (*len', '	char ret = EOF;\n\n	for (*len')],
    'table generators made by a compiler for which char is unsigned', 'the end of a data file is not seen', MAIN % '')
BUGS[-1]['sh'] = SH6 % '''B=_build/tree
mkdir "$T/gen" "$T/data" || exit 99
cp $B/gen/*.c $B/gen/*.h "$T/gen" && cp $B/data/*.txt "$T/data" || exit 99
cd "$T" || exit 99
cc -std=c99 -O1 -funsigned-char -o gen/character gen/character.c gen/util.c || exit 99
(ulimit -v 2000000; timeout 100 gen/character) > out 2> err || exit 1
cmp out gen/character.h'''
