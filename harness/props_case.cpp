/* C12 lower and upper case, C13 output contract, C14 case detection,
 * C15 UTF-8 against code points, C16 title case */
#include <algorithm>
#include <cstring>
#include "gen.h"
#include "lib.h"
#include "props.h"
using namespace ref;
using lib::u32;
namespace {
CPs convert(int k, const CPs &s, Ctx &x)
{
	Buf<u32> b(s);
	size_t cap = s.size() * 3 + 8;
	CPs o(cap);
	size_t r = lib::to_case(k, b.p, b.n, (u32 *)o.data(), cap);
	x.evals++;
	if (r >= cap) x.fail("to_%scase of %s returned %zu", lib::CASENAME[k], hex(s).c_str(), r);
	if (!b.intact()) x.fail("input was written to");
	o.resize(r);
	return o;
}
Bytes convert8(int k, const Bytes &s, Ctx &x)
{
	Buf<uint8_t> b(s);
	size_t cap = s.size() * 12 + 16;
	Bytes o(cap);
	size_t r = lib::to_case8(k, (const char *)b.p, b.n, (char *)o.data(), cap);
	x.evals++;
	if (r >= cap) x.fail("to_%scase_utf8 of %s returned %zu", lib::CASENAME[k], hexb(s.data(), s.size()).c_str(), r);
	if (!b.intact()) x.fail("input was written to");
	o.resize(r);
	return o;
}
void conform(int k, const CPs &t, Ctx &x)
{
	CaseOut w = to_case((ucd::CaseKind)k, t);
	CPs g = convert(k, t, x);
	if (g.size() != w.out.size() || !same(w, g.data(), g.size()))
		x.fail("to_%scase of %s\n specification %s\n libgrapheme   %s", lib::CASENAME[k], hex(t).c_str(), hex(w.out).c_str(), hex(g).c_str());
	if (w.finals) x.label("final sigma");
	if (w.sigmas > w.finals) x.label("non-final sigma");
	if (w.ambiguous) x.label("sigma next to what is both cased and case-ignorable");
	if (w.specials) x.label("expanding mapping");
	x.nt(t.size() > 1 && w.changed);
}
/* a small case that is quick to run over every code point in some contexts */
void each_cp(uint64_t idx, Ctx &x, const Prop &p, const int *kinds, int nk)
{
	static const uint32_t CTX[][4] = {
		/* around a capital sigma; 0xFFFFFFFF is the code point itself, 0 ends */
		{0xFFFFFFFF, 0}, {0xFFFFFFFF, 0x3A3, 0}, {0x391, 0xFFFFFFFF, 0x3A3, 0}, {0x391, 0x3A3, 0xFFFFFFFF, 0},
		{0x61, 0xFFFFFFFF, 0}, {0xFFFFFFFF, 0x61, 0}, {0x31, 0xFFFFFFFF, 0x62, 0},
	};
	for (uint32_t i = 0; i < 256; i++) {
		uint32_t v = (uint32_t)idx << 8 | i;
		if (idx >= 0x1100) v = (uint32_t)(idx - 0x1100) << 24 | 0x110000 | i << (i & 15);
		for (auto &t : CTX) {
			CPs s;
			for (int j = 0; j < 4 && t[j]; j++) s.push_back(t[j] == 0xFFFFFFFF ? v : t[j]);
			if (&t == &CTX[3]) s.push_back(0x391);
			u32 out[24];
			for (int q = 0; q < nk; q++) {
				CaseOut w = to_case((ucd::CaseKind)kinds[q], s);
				size_t r = lib::to_case(kinds[q], (const u32 *)s.data(), s.size(), out, 24);
				x.evals++;
				if (r != w.out.size() || !same(w, (const uint32_t *)out, r)) {
					Case c;
					c.cp = s;
					c.p.push_back(kinds[q]);
					sub_case(p, c, x);
				}
			}
		}
	}
	x.nt();
}
extern const Prop P12, P13, P14, P15, P16;
void c12_gen(Src &s, Case &c)
{
	gen::text(s, s.chance(1, 6) ? gen::ANY : gen::CASE, c.cp, 16);
	c.p.push_back(s.chance(2, 3) ? ucd::LOWER : ucd::UPPER);
}
void c12_check(const Case &c, Ctx &x) { conform(c.par(0) ? ucd::UPPER : ucd::LOWER, c.cp, x); }
const int LU[2] = {ucd::LOWER, ucd::UPPER}, TI[1] = {ucd::TITLE};
uint64_t cp_sweepn(bool) { return 0x1110; }
/* every short string over the characters that matter for the final sigma:
 * sigma, cased, case-ignorable, both, neither, expanding */
const uint32_t SIG[] = {0x3A3, 'A', 'a', '\'', 0x301, 0x2B0, 0x345, '1', ' ', 0x130, 0xDF};
const uint64_t NSIG = 11, NCPB = 0x1110;
int sig_len = 3;
uint64_t cps_sweepn(bool thorough) { if (thorough) sig_len = 4; return NCPB + NSIG * NSIG; }
void strings(uint64_t idx, Ctx &x, const Prop &p, const int *kinds, int nk)
{
	uint64_t total = 1;
	for (int len = 0; len <= sig_len; len++, total *= NSIG)
		for (uint64_t j = 0; j < total; j++) {
			CPs s;
			s.push_back(SIG[idx / NSIG]);
			s.push_back(SIG[idx % NSIG]);
			uint64_t v = j;
			for (int i = 0; i < len; i++) { s.push_back(SIG[v % NSIG]); v /= NSIG; }
			u32 out[24];
			for (int q = 0; q < nk; q++) {
				CaseOut w = to_case((ucd::CaseKind)kinds[q], s);
				size_t r = lib::to_case(kinds[q], (const u32 *)s.data(), s.size(), out, 24);
				x.evals++;
				if (r != w.out.size() || !same(w, (const uint32_t *)out, r)) {
					Case c;
					c.cp = s;
					c.p.push_back(kinds[q]);
					sub_case(p, c, x);
				}
			}
		}
	x.nt();
	x.label("exhaustive string batches");
}
void c12_sweep(uint64_t i, Ctx &x) { if (i < NCPB) each_cp(i, x, P12, LU, 2); else strings(i - NCPB, x, P12, LU, 1); }
void c16_sweep(uint64_t i, Ctx &x) { if (i < NCPB) each_cp(i, x, P16, TI, 1); else strings(i - NCPB, x, P16, TI, 1); }
const Prop P12 = {"C12", "sweep: every code point alone and next to sigmas and letters, lower and upper, 256 code points per case, and every string of 2-5 (thorough 2-6) over 11 characters around the sigma; random: texts of sigmas, cased, case-ignorable and expanding characters; non-trivial: more than one code point and something changes (or a sweep batch)",
	c12_gen, c12_check, cps_sweepn, c12_sweep, grow_plain};

void c16_gen(Src &s, Case &c)
{
	unsigned w = (unsigned)s.below(8);
	gen::text(s, w == 0 ? gen::ANY : w < 3 ? gen::WB : gen::CASE, c.cp, 20);
	if (s.chance(1, 2)) { /* words */
		CPs t;
		for (size_t i = 0; i < c.cp.size(); i++) {
			t.push_back(c.cp[i]);
			if (s.chance(1, 6)) t.push_back(s.chance(3, 4) ? ' ' : s.chance(1, 2) ? '-' : '\'');
		}
		c.cp.swap(t);
	}
}
void c16_check(const Case &c, Ctx &x)
{
	conform(ucd::TITLE, c.cp, x);
	/* word by word: title casing is concatenative over the words */
	CPs whole = convert(ucd::TITLE, c.cp, x), parts;
	Buf<u32> b(c.cp);
	int nw = 0;
	for (size_t i = 0; i < b.n;) {
		size_t n = lib::next(WORD, b.p + i, b.n - i);
		if (n == 0 || n > b.n - i) x.fail("no word at %zu", i);
		CPs w(c.cp.begin() + (long)i, c.cp.begin() + (long)(i + n)), o = convert(ucd::TITLE, w, x);
		parts.insert(parts.end(), o.begin(), o.end());
		i += n;
		nw++;
	}
	if (parts != whole)
		x.fail("to_titlecase of %s is %s, word by word %s", hex(c.cp).c_str(), hex(whole).c_str(), hex(parts).c_str());
	if (nw > 1) x.label("several words");
}
const Prop P16 = {"C16", "sweep: every code point alone and next to sigmas and letters, 256 code points per case, and every string of 2-5 (thorough 2-6) over 11 characters around the sigma; random: texts of sigmas, cased, case-ignorable and expanding characters and word-break classes, with spaces put in; non-trivial: more than one code point and something changes (or a sweep batch)",
	c16_gen, c16_check, cps_sweepn, c16_sweep, grow_plain};

/* --- C13: params [0] kind, [1] utf8, [2] extra destination size */
void c13_gen(Src &s, Case &c)
{
	c.p.push_back((int64_t)s.below(3));
	int64_t u8 = (int64_t)s.below(2);
	c.p.push_back(u8);
	if (u8) gen::bytes(s, s.chance(1, 4) ? gen::ANY : gen::CASE, c.by, 3, 10);
	else gen::text(s, s.chance(1, 4) ? gen::ANY : gen::CASE, c.cp, 12);
	c.p.push_back(s.in(0, 400));
}
void c13_check(const Case &c, Ctx &x)
{
	int k = (int)((uint64_t)c.par(0) % 3);
	size_t extra = (size_t)std::min<int64_t>(std::max<int64_t>(c.par(2), 0), 2000);
	const char *nm = lib::CASENAME[k];
	if (c.par(1) == 0) {
		CPs full = convert(k, c.cp, x);
		size_t L = full.size();
		Buf<u32> b(c.cp);
		if (lib::to_case(k, b.p, b.n, NULL, 0) != L) x.fail("to_%scase of %s: the length depends on the destination", nm, hex(c.cp).c_str());
		for (size_t d = 0; d <= L + 2; d++) {
			size_t dn = d == L + 2 ? L + 2 + extra : d;
			if (L > 40 && d > 20 && d + 20 < L && d % 7) continue;
			if (L > 4000 && d > 2 && d + 2 < L && d % 10007 && (d & 0xFFFF)) continue;
			Buf<u32> o(dn, 0xA5);
			size_t r = lib::to_case(k, b.p, b.n, o.p, dn), m = dn ? std::min(L, dn - 1) : 0;
			x.evals++;
			if (r != L) x.fail("to_%scase of %s into %zu elements returned %zu instead of %zu", nm, hex(c.cp).c_str(), dn, r, L);
			if (dn && memcmp(o.p, full.data(), m * 4)) x.fail("to_%scase of %s into %zu elements: %s is no prefix of %s", nm, hex(c.cp).c_str(), dn, hex(CPs(o.p, o.p + m)).c_str(), hex(full).c_str());
			if (dn && o.p[m] != 0) x.fail("to_%scase of %s into %zu elements is not terminated at %zu", nm, hex(c.cp).c_str(), dn, m);
		}
		if (!b.intact()) x.fail("input was written to");
		x.nt(L > 1 && full != c.cp);
		if (L != c.cp.size()) x.label("length changes");
	} else {
		Bytes full = convert8(k, c.by, x);
		size_t L = full.size();
		Buf<uint8_t> b(c.by);
		if (lib::to_case8(k, (const char *)b.p, b.n, NULL, 0) != L) x.fail("to_%scase_utf8 of %s: the length depends on the destination", nm, hexb(b.p, b.n).c_str());
		for (size_t d = 0; d <= L + 2; d++) {
			size_t dn = d == L + 2 ? L + 2 + extra : d;
			if (L > 80 && d > 40 && d + 40 < L && d % 7) continue;
			if (L > 4000 && d > 4 && d + 6 < L && d % 10007 && (d & 0xFFFF)) continue;
			Buf<uint8_t> o(dn, 0xA5);
			size_t r = lib::to_case8(k, (const char *)b.p, b.n, (char *)o.p, dn), m = 0;
			x.evals++;
			if (r != L) x.fail("to_%scase_utf8 of %s into %zu bytes returned %zu instead of %zu", nm, hexb(b.p, b.n).c_str(), dn, r, L);
			if (dn == 0) continue;
			/* whole code points only */
			while (m < L) { size_t q = decode(full.data() + m, L - m).n; if (m + q > dn - 1) break; m += q; }
			if (memcmp(o.p, full.data(), m)) x.fail("to_%scase_utf8 of %s into %zu bytes: %s is no prefix of %s", nm, hexb(b.p, b.n).c_str(), dn, hexb(o.p, m).c_str(), hexb(full.data(), L).c_str());
			if (o.p[m] != 0) x.fail("to_%scase_utf8 of %s into %zu bytes is not terminated at %zu: %s", nm, hexb(b.p, b.n).c_str(), dn, m, hexb(o.p, dn).c_str());
		}
		if (!b.intact()) x.fail("input was written to");
		x.nt(L > 1 && full != c.by);
		if (L != c.by.size()) x.label("length changes");
	}
	x.label(nm);
}
const Prop P13 = {"C13", "random: case texts as code points or (partly malformed) UTF-8, converted into destinations of every size from 0 to two above the need, one far above, and none; non-trivial: more than one element and the conversion changes the text",
	c13_gen, c13_check, 0, 0, grow_plain};

/* --- C14: params [0] kind, [1] what to do with the text first: 0 nothing,
 * 1 convert it, 2 convert it and change one element */
void c14_gen(Src &s, Case &c)
{
	int k = (int)s.below(3);
	c.p.push_back(k);
	gen::text(s, s.chance(1, 6) ? gen::ANY : s.chance(1, 6) ? gen::WB : gen::CASE, c.cp, 14);
	int how = (int)s.below(3);
	if (how) {
		CaseOut o = to_case((ucd::CaseKind)k, c.cp);
		c.cp = o.out;
	}
	if (how == 2 && !c.cp.empty()) c.cp[s.below(c.cp.size())] = s.chance(1, 2) ? s.of(ucd::cased_cps) : s.of(ucd::map_cps);
}
void c14_check(const Case &c, Ctx &x)
{
	int k = (int)((uint64_t)c.par(0) % 3);
	const char *nm = lib::CASENAME[k];
	CaseOut w = to_case((ucd::CaseKind)k, c.cp);
	bool fix = w.firstdiff == c.cp.size();
	Buf<u32> b(c.cp);
	size_t len = 0xABCDEF;
	bool r = lib::is_case(k, b.p, b.n, &len);
	x.evals++;
	if (r != lib::is_case(k, b.p, b.n, NULL)) x.fail("is_%scase of %s depends on whether the length is wanted", nm, hex(c.cp).c_str());
	CPs g = convert(k, c.cp, x);
	if (r != (g == c.cp)) x.fail("is_%scase of %s is %d, but converting it %s", nm, hex(c.cp).c_str(), r, g == c.cp ? "changes nothing" : "changes it");
	if (r != fix || len != w.firstdiff)
		x.fail("is_%scase of %s gave %d with length %zu, expected %d with %zu", nm, hex(c.cp).c_str(), r, len, fix, w.firstdiff);
	/* the prefix is in that case, and what it converts to is, too */
	if (k != ucd::TITLE) {
		if (!lib::is_case(k, b.p, len, NULL)) x.fail("is_%scase: the prefix of length %zu of %s is not", nm, len, hex(c.cp).c_str());
		Buf<u32> gb(g);
		if (!lib::is_case(k, gb.p, gb.n, NULL)) x.fail("is_%scase of the conversion %s of %s is false", nm, hex(g).c_str(), hex(c.cp).c_str());
		if (convert(k, g, x) != g && w.ambiguous == 0 && w.sigmas == 0) x.fail("converting %s to %s case twice differs from once", hex(c.cp).c_str(), nm);
	}
	/* UTF-8 */
	CPs t = c.cp;
	gen::scalar(t);
	Bytes e = encode_all(t);
	Buf<uint8_t> b8(e);
	size_t len8 = 0xABCDEF, want8 = encode_all(CPs(t.begin(), t.begin() + (long)w.firstdiff)).size();
	bool r8 = lib::is_case8(k, (const char *)b8.p, b8.n, &len8);
	x.evals++;
	if (t == c.cp && (r8 != fix || len8 != want8))
		x.fail("is_%scase_utf8 of %s gave %d with length %zu, expected %d with %zu", nm, hex(c.cp).c_str(), r8, len8, fix, want8);
	if (r8 != lib::is_case8(k, (const char *)b8.p, b8.n, NULL)) x.fail("is_%scase_utf8 depends on whether the length is wanted", nm);
	if (!b.intact() || !b8.intact()) x.fail("input was written to");
	x.nt(c.cp.size() > 1 && (w.changed || fix));
	x.label(fix ? "is in case" : w.firstdiff ? "in case up to a point" : "not in case from the start");
}
void c14_sweep(uint64_t idx, Ctx &x)
{
	for (uint32_t i = 0; i < 256; i++) {
		uint32_t v = (uint32_t)idx << 8 | i;
		if (idx >= 0x1100) v = (uint32_t)(idx - 0x1100) << 24 | 0x110000 | i << (i & 15);
		for (int k = 0; k < 3; k++)
			for (int t = 0; t < 3; t++) {
				CPs s;
				if (t == 1) s.push_back(k == ucd::LOWER ? 'a' : 'A');
				s.push_back(v);
				if (t == 2) s.push_back(k == ucd::UPPER ? 'A' : 'a');
				CaseOut w = to_case((ucd::CaseKind)k, s);
				size_t len = 99;
				bool r = lib::is_case(k, (const u32 *)s.data(), s.size(), &len);
				x.evals++;
				if (r != (w.firstdiff == s.size()) || len != w.firstdiff) {
					Case c;
					c.cp = s;
					c.p.push_back(k);
					sub_case(P14, c, x);
				}
			}
	}
	x.nt();
}
const Prop P14 = {"C14", "sweep: every code point alone, behind and before a letter, all three cases, 256 code points per case; random: case texts, their conversions, and conversions with one code point replaced, as code points and UTF-8; non-trivial: more than one code point, already in case or changed by conversion (or a sweep batch)",
	c14_gen, c14_check, cp_sweepn, c14_sweep, grow_plain};

/* --- C15: by; params [0] kind */
void c15_gen(Src &s, Case &c)
{
	c.p.push_back((int64_t)s.below(3));
	gen::bytes(s, s.chance(1, 5) ? gen::ANY : gen::CASE, c.by, 5, 14);
}
void c15_check(const Case &c, Ctx &x)
{
	int k = (int)((uint64_t)c.par(0) % 3);
	const char *nm = lib::CASENAME[k];
	CPs t;
	std::vector<size_t> off;
	/* a sequence cut off by the end of the string is not converted */
	size_t whole = whole_part(c.by.data(), c.by.size());
	decode_all(c.by.data(), whole, t, off);
	if (whole < c.by.size()) x.label("truncated tail");
	Bytes got = convert8(k, c.by, x), want;
	CPs o = convert(k, t, x);
	want = encode_all(o);
	if (got != want)
		x.fail("to_%scase_utf8 of %s is %s; over the decoded code points it is %s", nm, hexb(c.by.data(), c.by.size()).c_str(), hexb(got.data(), got.size()).c_str(), hexb(want.data(), want.size()).c_str());
	Buf<uint8_t> b(c.by);
	Buf<u32> w(t);
	size_t l8 = 9999, l = 9999;
	bool r8 = lib::is_case8(k, (const char *)b.p, b.n, &l8), r = lib::is_case(k, w.p, w.n, &l);
	x.evals += 2;
	if (l > t.size() || r8 != r || l8 != off[l])
		x.fail("is_%scase_utf8 of %s gave %d with length %zu; over the decoded code points %s %d with %zu", nm, hexb(c.by.data(), c.by.size()).c_str(), r8, l8, hex(t).c_str(), r, l);
	bool bad = std::find(t.begin(), t.end(), 0xFFFDu) != t.end();
	x.label(bad ? "malformed" : "well-formed");
	x.nt(t.size() > 1 && (bad || t.size() < c.by.size()));
}
const Prop P15 = {"C15", "random: UTF-8 of case texts, damaged with probability 5/8, against the code point functions over its decoding, conversion and detection; non-trivial: at least two code points and a multi-byte or malformed sequence",
	c15_gen, c15_check, 0, 0, grow_plain};

}
const Prop *const PROPS_CASE[] = {&P12, &P13, &P14, &P15, &P16, 0};
