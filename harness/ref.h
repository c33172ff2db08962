/* Reference models: slow-but-obvious readings of the specifications that
 * libgrapheme 2.0.1 implements (UTF-8 as documented by its manual, UAX #29,
 * UAX #14 with the tailoring of example 7, Unicode 3.13 default case
 * conversion, UAX #9), all for Unicode 15.0.0. */
#ifndef REF_H
#define REF_H
#include <cstddef>
#include <cstdint>
#include <vector>
#include "ucd.h"

namespace ref {
typedef std::vector<uint32_t> CPs;
typedef std::vector<uint8_t> Bytes;
typedef std::vector<char> Bounds; /* n + 1 entries; [0] and [n] are true */

struct Dec { uint32_t cp; size_t n; };
Dec decode(const uint8_t *s, size_t len);
int encode(uint32_t cp, uint8_t out[4]);
Bytes encode_all(const CPs &);
/* whole byte string -> code points and their byte offsets (size n + 1); a
 * sequence cut off by the end of the string counts as one U+FFFD */
void decode_all(const uint8_t *s, size_t len, CPs &cps, std::vector<size_t> &off);
/* length of the string without a sequence that its end cuts off */
size_t whole_part(const uint8_t *s, size_t len);

enum Seg { CHAR = 0, WORD, SENT, LINE };
Bounds graphemes(const CPs &);
Bounds words(const CPs &);
Bounds sentences(const CPs &);
Bounds lines(const CPs &);
Bounds segment(Seg, const CPs &);

/* case conversion */
struct CaseOut {
	CPs out;
	size_t firstdiff;   /* first source index whose mapping is not itself, or n */
	std::vector<size_t> srcout; /* out offset of each source code point, n + 1 */
	unsigned sigmas, finals, ambiguous, specials, changed;
	CaseOut() : firstdiff(0), sigmas(0), finals(0), ambiguous(0), specials(0), changed(0) {}
};
CaseOut to_case(ucd::CaseKind, const CPs &);
bool same(const CaseOut &, const uint32_t *got, size_t n);

/* bidi */
struct Bidi {
	size_t len;           /* paragraph length, including the separator */
	int plevel;           /* 0/1 */
	std::vector<int8_t> lv;  /* level per code point, -1 = removed by X9; L1.1-3 applied */
	std::vector<uint8_t> oc; /* original classes */
	unsigned maxdepth, npairs, nseq, maxstack, overflow_iso, overflow_emb, bd16_stop;
};
/* dir: 0 auto, 1 LTR, 2 RTL */
Bidi bidi(const CPs &text, int dir);
/* levels of the line [a, b) of the paragraph: L1.4 on top */
std::vector<int8_t> line_levels(const Bidi &, size_t a, size_t b);
/* visual order of the line: indices into the line, X9-removed ones left out */
std::vector<size_t> reorder(const std::vector<int8_t> &lv);
}
#endif
