from bugs3 import *
GU, GB, GC_, GL, GW, GCH, GS = 'gen/util.c', 'gen/bidirectional.c', 'gen/case.c', 'gen/line.c', 'gen/word.c', 'gen/character.c', 'gen/sentence.c'
# demonstration of a table generator: the library is made again with other data files
SH4 = '''#!/bin/sh
# run in /repo after the build: makes the library from changed data files in
# a scratch directory; 0 when it follows them
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 99
trap 'rm -rf "$T"' EXIT
B=_build/tree
mkdir "$T/gen" "$T/src" "$T/data" || exit 99
cp $B/Makefile $B/config.mk $B/grapheme.h "$T" && cp $B/gen/*.c $B/gen/types.h $B/gen/util.h "$T/gen" && cp $B/src/*.c $B/src/util.h "$T/src" && cp $B/data/*.txt "$T/data" || exit 99
cd "$T" || exit 99
%s
make -j4 libgrapheme.a ANAME=libgrapheme.a CC=cc 'CFLAGS=-std=c99 -O1' BUILD_CC=cc 'BUILD_CFLAGS=-std=c99 -O1' BUILD_LDFLAGS= > log 2>&1 || { tail -3 log; exit 1; }
cc -std=c99 -D_GNU_SOURCE -O1 -w -I. -o demo "$D/demo.c" libgrapheme.a || exit 99
timeout 120 ./demo
'''


def gbug(id, edits, needs, breaks, data, body, prop='C24'):
    bug(id, prop, edits, needs, breaks, MAIN % body)
    BUGS[-1]['sh'] = SH4 % data


gbug('c24-aliases', [(GB, '#define NUM_BRACKET_ALIASES 20', '#define NUM_BRACKET_ALIASES 2')],
     'data in which a bracket has two canonically equivalent aliases', 'the library does not build from them',
     '''sed -i -e 's/^2045;[^;]*;Ps;0;ON;;/2045;LEFT SQUARE BRACKET WITH QUILL;Ps;0;ON;3008;/' -e 's/^2046;[^;]*;Pe;0;ON;;/2046;RIGHT SQUARE BRACKET WITH QUILL;Pe;0;ON;3009;/' data/UnicodeData.txt''',
     '''	CHECK(levels((cp[]){ 'a', 0x2045, 0x5D0, 0x2046, 0x5D1 }, 5, 1, "0,0,1,0,1"));
	CHECK(levels((cp[]){ 'a', 0x2045, 0x5D0, 0x3009, 0x5D1 }, 5, 1, "0,0,1,0,1"));
	CHECK(levels((cp[]){ 'a', 0x2329, 0x5D0, 0x2046, 0x5D1 }, 5, 1, "0,0,1,0,1"));''')
gbug('c24-long-line', [(GU, '''		if (*len >= *bufsize) {
			/* the buffer needs to be expanded */
			*bufsize += 512;
''', '''		if (*len >= *bufsize && *bufsize == 0) {
			/* the buffer needs to be allocated */
			*bufsize += 16384;
''')], 'a data file with a line of more than 16384 bytes', 'the table generator writes beyond its buffer',
     '''for f in Grapheme Word; do awk -v f=$f '/^0300/ { x = "Y"; while (length(x) < 200000) x = x x; $0 = $0 " " x } { print }' data/${f}BreakProperty.txt > x && mv x data/${f}BreakProperty.txt; done''',
     '''	CHECK(seg(grapheme_next_character_break, (cp[]){ 'a', 0x300, 'b', 0x316 }, 4, "2,2"));
	CHECK(seg(grapheme_next_word_break, (cp[]){ 'a', 0x300, ' ', 0x316 }, 4, "2,2"));''')
gbug('c24-sc-wrap', [(GC_, '''	prop_upper[cp].property =
		(int_least64_t)(UINT32_C(0x110000) + (sclen - 1));''', '''	prop_upper[cp].property =
		(int_least64_t)(UINT32_C(0x110000) + (uint_least8_t)(sclen - 1));''')],
     'data with more than 256 unconditional special mappings', 'the uppercase mapping of one is that of another',
     '''i=0; while [ $i -lt 200 ]; do printf '%X; %X; 0041; 0042 %X; # X\\n' $((0x4E00+i)) $((0x4E00+i)) $((0x61+i%26)); i=$((i+1)); done >> data/SpecialCasing.txt''',
     '''	cp d[8];
	for (cp c = 0x4E00; c < 0x4E00 + 200; c++)
		CHECK(grapheme_to_uppercase(&c, 1, d, 8) == 2 && d[0] == 0x42 && d[1] == 0x61 + (c - 0x4E00) % 26);''')
gbug('c24-lut-type', [(GU, '''	type = (maxval <= UINT_LEAST8_MAX)  ? "uint_least8_t" :
	       (maxval <= UINT_LEAST16_MAX) ? "uint_least16_t" :
	       (maxval <= UINT_LEAST32_MAX) ? "uint_least32_t" :
	                                      "uint_least64_t";

	printf("static const %s %s[] = {\\n\\t", type, name);
	for (i = 0; i < datalen; i++) {''', '''	type = (maxval <= UINT_LEAST8_MAX) ? "uint_least8_t" :
	                                     "uint_least16_t";

	printf("static const %s %s[] = {\\n\\t", type, name);
	for (i = 0; i < datalen; i++) {''')],
     'data with more than 256 different blocks of 256 code points', 'the table of blocks is cut to 16 bits',
     '''python3 - <<'X'
import random
r = random.Random(1)
s = open('data/GraphemeBreakProperty.txt').read().replace('\\r', '')
o = [l for l in s.split('\\n') if not l.startswith(('A', 'B', 'C', 'D'))or '..' in l and len(l.split('..')[0]) > 4]
for c in range(0xE0000 - 300 * 512, 0xE0000 - 512):
    if c % 3 == 0 or r.randrange(2): o.append('%X ; Extend # X' % c if r.randrange(2) else '%X ; SpacingMark # X' % c)
o.append('%X ; Extend # X' % (0xE0000 - 257))
o.append('%X ; Prepend # X' % (0xE0000 - 512))
open('data/GraphemeBreakProperty.txt', 'w').write('\\n'.join(o) + '\\n')
X''', '''	CHECK(seg(grapheme_next_character_break, (cp[]){ 'a', 0xE0000 - 257, 'b' }, 3, "2,1"));
	CHECK(seg(grapheme_next_character_break, (cp[]){ 'a', 0xE0000 - 512, 'b' }, 3, "1,2"));
	for (cp c = 0xE0000 - 511; c < 0xE0000 - 257; c++) CHECK(seg(grapheme_next_character_break, (cp[]){ 'a', c, 'b' }, 3, "1,1,1"));''')
gbug('c24-last-cp', [(GU, '''			for (cp = r.lower; cp <= r.upper; cp++) {''', '''			for (cp = r.lower; cp <= r.upper && cp < UINT32_C(0x10FFFF); cp++) {''')],
     'data that give the last code point a property', 'it keeps the default',
     '''echo '10FFFE..10FFFF ; Extend # X' >> data/GraphemeBreakProperty.txt''',
     '''	CHECK(seg(grapheme_next_character_break, (cp[]){ 'a', 0x10FFFE, 'b' }, 3, "2,1"));
	CHECK(seg(grapheme_next_character_break, (cp[]){ 'a', 0x10FFFF, 'b' }, 3, "2,1"));''')
gbug('c24-mirror-once', [(GB, '''	prop_mirror[cp].property = (int_least32_t)cp_mirror - (int_least32_t)cp;
''', '''	prop_mirror[cp].property = (int_least16_t)(cp_mirror - cp);
''')], 'data in which a character and its mirror are more than 32767 apart', 'it is mirrored to something else',
     '''echo '10D50; 00AB # X' >> data/BidiMirroring.txt; sed -i 's/^00AB; 00BB/00AB; 10D50/' data/BidiMirroring.txt''',
     '''	cp s[] = { 0x5D0, 0xAB, 0x5D1 }, st[3], d[8] = { 0 };
	grapheme_bidirectional_preprocess_paragraph(s, 3, GRAPHEME_BIDIRECTIONAL_DIRECTION_RTL, st, 3, NULL);
	grapheme_bidirectional_reorder_line(s, st, 3, d, 8);
	CHECK(d[1] == 0x10D50);''')
gbug('c24-cmp-half', [(GU, '''			if (!memcmp(&(comp->offset[i << 8]), &(mm->minor[j]),
			            sizeof(*(comp->offset)) * 0x100)) {''', '''			if (!memcmp(&(comp->offset[i << 8]), &(mm->minor[j]),
			            sizeof(*(comp->offset)) * 0xFF)) {''')],
     'two blocks that differ in the last code point only', 'the last code point has the property of the other block',
     '''echo '100FF ; Extend # X
E7AFF ; Extend # X' >> data/GraphemeBreakProperty.txt''',
     '''	CHECK(seg(grapheme_next_character_break, (cp[]){ 'a', 0xE7AFF, 'b' }, 3, "2,1"));''')
gbug('c24-hex-lower', [(GU, '''			relative = 'a';
			off = 10;''', '''			relative = 'a';
			off = 0;''')],
     'data with hexadecimal digits in lower case', 'x', '''sed -i 's/^093B /093b /' data/GraphemeBreakProperty.txt''', '''	CHECK(seg(grapheme_next_character_break, (cp[]){ 'a', 0x93B, 'b' }, 3, "2,1"));''')
gbug('c24-sp-list', [(GU, '''	for (count = 1, tmp1 = str; (tmp2 = strchr(tmp1, ' ')) != NULL;
	     count++, tmp1 = tmp2 + 1) {
		;
	}
''', '''	for (count = 1, tmp1 = str; (tmp2 = strchr(tmp1, ' ')) != NULL;
	     count++, tmp1 = tmp2 + 1) {
		if (tmp2 - tmp1 > 4) {
			count--;
		}
	}
''')], 'a special mapping to a sequence with a code point beyond the BMP', 'a code point of it is lost',
     '''echo '10400; 10428; 1F88 0041 10D50; 10400 0041 10D50; # X' >> data/SpecialCasing.txt''',
     '''	cp s[] = { 0x10400 }, d[8];
	CHECK(grapheme_to_uppercase(s, 1, d, 8) == 3 && d[0] == 0x10400 && d[1] == 0x41 && d[2] == 0x10D50);
	CHECK(grapheme_to_titlecase(s, 1, d, 8) == 3 && d[0] == 0x1F88 && d[1] == 0x41 && d[2] == 0x10D50);''')
