/* C17 embedding levels, C18 paragraphs, C19 reordering, C20 line levels */
#include <algorithm>
#include <cstring>
#include "gen.h"
#include "lib.h"
#include "props.h"
using namespace ref;
using namespace ucd;
using lib::u32;
typedef enum grapheme_bidirectional_direction Dir;
namespace {
const char *const DIRNAME[3] = {"neutral", "ltr", "rtl"};
int dir_of(const Case &c, size_t i) { return (int)((uint64_t)c.par(i) % 3); }
std::string lvs(const int8_t *p, size_t n)
{
	std::string s;
	for (size_t i = 0; i < n && i < 200; i++) s += (i ? " " : "") + (p[i] < 0 ? std::string("x") : std::to_string(p[i]));
	return s;
}
struct Para {
	std::vector<uint32_t> data;
	size_t len;
	Dir resolved;
};
/* preprocess with a destination of exactly the paragraph's length */
Para prep(const CPs &t, size_t from, int dir, Ctx &x)
{
	Para p;
	Buf<u32> b(t.data() + from, t.size() - from);
	size_t n = b.n;
	p.len = grapheme_bidirectional_preprocess_paragraph(b.p, n, (Dir)dir, NULL, 0, NULL);
	if (p.len > n || (n && !p.len)) x.fail("preprocess_paragraph of %zu code points returned %zu: %s", n, p.len, hex(t).c_str());
	Buf<u32> d(p.len, 0x5A);
	p.resolved = (Dir)99;
	size_t r = grapheme_bidirectional_preprocess_paragraph(b.p, n, (Dir)dir, d.p, p.len, &p.resolved);
	x.evals++;
	if (r != p.len) x.fail("preprocess_paragraph returned %zu with a destination and %zu without: %s", r, p.len, hex(t).c_str());
	if (!b.intact()) x.fail("input was written to");
	p.data.assign(d.p, d.p + p.len);
	return p;
}
std::vector<int8_t> levels(const Para &p, size_t a, size_t b, Ctx &x)
{
	Buf<u32> d((const u32 *)p.data.data() + a, b - a);
	Buf<int8_t> l(b - a, 0x55);
	size_t r = grapheme_bidirectional_get_line_embedding_levels(d.p, b - a, (int_least8_t *)l.p, b - a);
	x.evals++;
	if (r != b - a) x.fail("get_line_embedding_levels of %zu code points returned %zu", b - a, r);
	if (!d.intact()) x.fail("line data was written to");
	return std::vector<int8_t>(l.p, l.p + (b - a));
}
void bidi_labels(const Bidi &b, Ctx &x)
{
	if (b.maxdepth > 2) x.label("nesting over 2");
	if (b.maxdepth > 61) x.label("nesting over 61");
	if (b.overflow_iso) x.label("isolate overflow");
	if (b.overflow_emb) x.label("embedding overflow");
	if (b.npairs) x.label("bracket pairs");
	if (b.maxstack >= 60) x.label("bracket stack over 59");
	if (b.bd16_stop) x.label("bracket stack overflow");
	if (b.nseq > 1) x.label("several isolating run sequences");
	int8_t lo = 127, hi = -1;
	bool rem = false;
	for (auto l : b.lv) { if (l >= 0) { lo = std::min(lo, l); hi = std::max(hi, l); } else rem = true; }
	if (rem) x.label("removed by X9");
	if (hi >= 0 && lo != hi) x.label("mixed levels");
	x.nt(hi >= 0 && lo != hi);
}
/* --- C17: params [0] direction */
void c17_gen(Src &s, Case &c)
{
	if (s.chance(1, 12)) gen::text(s, gen::ANY, c.cp, 20);
	else gen::bidi_text(s, c.cp, s.chance(1, 6) ? 120 : 24);
	c.p.push_back((int64_t)s.below(3));
}
void c17_check(const Case &c, Ctx &x)
{
	int dir = dir_of(c, 0);
	for (size_t off = 0; off < c.cp.size();) {
		/* later paragraphs of a long text come with only a little behind them */
		size_t end = off;
		while (end < c.cp.size() && ucd::bc(c.cp[end]) != BC_B) end++;
		end = off ? std::min(c.cp.size(), end + 16) : c.cp.size();
		CPs rest(c.cp.begin() + (long)off, c.cp.begin() + (long)end);
		Bidi w = bidi(rest, dir);
		std::vector<int8_t> want = line_levels(w, 0, w.len);
		Para p = prep(rest, 0, dir, x);
		if (p.len != w.len) x.fail("paragraph of %s from %zu: length %zu, expected %zu", hex(c.cp).c_str(), off, p.len, w.len);
		std::vector<int8_t> got = levels(p, 0, p.len, x);
		if (got != want)
			x.fail("embedding levels of %s (%s, from %zu)\n specification %s\n libgrapheme   %s", hex(c.cp).c_str(), DIRNAME[dir], off, lvs(want.data(), want.size()).c_str(), lvs(got.data(), got.size()).c_str());
		if (off == 0) bidi_labels(w, x);
		off += p.len;
	}
}
/* all class sequences up to length 4 (quick) or 5, all directions; brackets as
 * classes of their own; BB sequences per case */
int bseq = 4;
const uint64_t BB = 512;
std::vector<uint32_t> alphabet()
{
	std::vector<uint32_t> a;
	for (int i = 0; i < gen::natoms(gen::BC); i++) a.push_back(gen::atom_cps(gen::BC, i)[0]);
	return a;
}
uint64_t c17_sweepn(bool thorough)
{
	if (thorough) bseq = 5;
	uint64_t n = 1, a = (uint64_t)gen::natoms(gen::BC);
	for (int i = 0; i < bseq; i++) n *= a;
	return (n + BB - 1) / BB + 4096;
}
extern const Prop P17;
void quick17(const CPs &t, int dir, Ctx &x)
{
	Bidi w = bidi(t, dir);
	std::vector<int8_t> want = line_levels(w, 0, w.len);
	u32 d[400];
	int_least8_t l[400];
	Dir res;
	size_t r = grapheme_bidirectional_preprocess_paragraph((const u32 *)t.data(), t.size(), (Dir)dir, d, 400, &res);
	x.evals++;
	bool ok = r == w.len && res == (w.plevel ? GRAPHEME_BIDIRECTIONAL_DIRECTION_RTL : GRAPHEME_BIDIRECTIONAL_DIRECTION_LTR);
	ok = ok && grapheme_bidirectional_get_line_embedding_levels(d, r, l, 400) == r && memcmp(l, want.data(), r) == 0;
	if (!ok) {
		Case c;
		c.cp = t;
		c.p.push_back(dir);
		sub_case(P17, c, x);
		x.fail("preprocessing of %s (%s) is wrong", hex(t).c_str(), DIRNAME[dir]);
	}
}
void c17_sweep(uint64_t idx, Ctx &x)
{
	static const std::vector<uint32_t> A = alphabet();
	uint64_t a = A.size(), total = 1;
	for (int i = 0; i < bseq; i++) total *= a;
	uint64_t nb = (total + BB - 1) / BB;
	if (idx >= nb) {
		/* sequences of 7 over an alphabet around brackets */
		static const uint32_t K[] = {'(', ')', 'a', 0x5D0, '1', 0x300, ' ', 0x2067};
		uint64_t h = idx - nb;
		CPs t;
		for (int i = 0; i < 4; i++) { t.push_back(K[h & 7]); h >>= 3; }
		for (int j = 0; j < 512; j++) {
			t.resize(4);
			t.push_back(K[j & 7]);
			t.push_back(K[j >> 3 & 7]);
			t.push_back(K[j >> 6 & 7]);
			quick17(t, 1 + (j & 1), x);
		}
		x.label("exhaustive bracket batches");
	} else {
		CPs t;
		for (uint64_t j = idx * BB; j < idx * BB + BB && j < total; j++) {
			t.clear();
			uint64_t v = j;
			for (int i = 0; i < bseq; i++) { t.push_back(A[v % a]); v /= a; }
			for (int dir = 0; dir < 3; dir++) quick17(t, dir, x);
		}
		x.label("exhaustive batches");
	}
	x.nt();
}
const Prop P17 = {"C17", "sweep: every sequence of bidi classes (brackets apart) of 4 (quick) or 5 (thorough) code points in all directions, and sequences of 7 over brackets, letters, digits, marks and isolates; random: brackets, deep nesting around the limits 63 and 125, overrides, isolates, numbers, separators, real words; non-trivial: resolved levels differ within the paragraph (or a sweep batch)",
	c17_gen, c17_check, c17_sweepn, c17_sweep, grow_plain};

/* --- C18: params [0] direction, [1] destination size, [2] seed of another tail */
void c18_gen(Src &s, Case &c)
{
	if (s.chance(1, 6)) gen::text(s, gen::ANY, c.cp, 16);
	else gen::bidi_text(s, c.cp, 24);
	if (s.chance(1, 3)) {
		CPs more;
		gen::bidi_text(s, more, 10);
		static const uint32_t SEP[] = {'\n', '\r', 0x1C, 0x85, 0x2029};
		c.cp.push_back(SEP[s.below(5)]);
		c.cp.insert(c.cp.end(), more.begin(), more.end());
	}
	c.p.push_back((int64_t)s.below(3));
	c.p.push_back(s.in(0, 40));
	c.p.push_back((int64_t)s.below(1000));
}
void c18_check(const Case &c, Ctx &x)
{
	int dir = dir_of(c, 0);
	Dir res0 = (Dir)99;
	if (grapheme_bidirectional_preprocess_paragraph(NULL, 0, (Dir)dir, NULL, 0, &res0) != 0 ||
	    res0 != (dir == 2 ? GRAPHEME_BIDIRECTIONAL_DIRECTION_RTL : GRAPHEME_BIDIRECTIONAL_DIRECTION_LTR))
		x.fail("the empty paragraph (%s) is not empty or of direction %d", DIRNAME[dir], (int)res0);
	if (c.cp.empty()) return;
	Bidi w = bidi(c.cp, dir);
	Para p = prep(c.cp, 0, dir, x);
	if (p.len != w.len) x.fail("paragraph of %s: length %zu, expected %zu", hex(c.cp).c_str(), p.len, w.len);
	Dir want = w.plevel ? GRAPHEME_BIDIRECTIONAL_DIRECTION_RTL : GRAPHEME_BIDIRECTIONAL_DIRECTION_LTR;
	if (p.resolved != want) x.fail("paragraph %s (%s) resolved to %s, expected %s", hex(c.cp).c_str(), DIRNAME[dir], p.resolved > 2 ? "nothing" : DIRNAME[p.resolved], DIRNAME[want]);
	std::vector<int8_t> lv = levels(p, 0, p.len, x);
	/* the resolved direction, given explicitly, changes nothing */
	Para q = prep(c.cp, 0, (int)p.resolved, x);
	if (q.len != p.len || levels(q, 0, q.len, x) != lv) x.fail("paragraph %s: giving the resolved direction explicitly changes the levels", hex(c.cp).c_str());
	/* nothing behind the paragraph matters: alone, and before another tail */
	for (int alt = 0; alt < 2; alt++) {
		CPs t(c.cp.begin(), c.cp.begin() + (long)p.len);
		if (alt) {
			if (ucd::bc(t.back()) != BC_B) continue;
			RandSrc r((uint64_t)c.par(2));
			CPs tail;
			gen::bidi_text(r, tail, 12);
			t.insert(t.end(), tail.begin(), tail.end());
		}
		Para o = prep(t, 0, dir, x);
		if (o.len != p.len || o.resolved != p.resolved || levels(o, 0, o.len, x) != lv)
			x.fail("the paragraph in %s changes with the text behind it (%s)", hex(c.cp).c_str(), hex(t).c_str());
	}
	/* destinations of other sizes: same result, nothing else touched */
	size_t sizes[] = {(size_t)std::min<int64_t>(std::max<int64_t>(c.par(1), 0), 500000), p.len - 1, p.len + 3, 0, p.len / 2};
	size_t many = p.len > 20000 ? 1 + (size_t)(c.par(1) & 1) : 5; /* long texts take long */
	for (size_t k = 0; k < many; k++) {
		size_t dn = sizes[k];
		Buf<u32> b(c.cp);
		Buf<u32> d(dn, 0x5A);
		Dir r2 = (Dir)99;
		size_t r = grapheme_bidirectional_preprocess_paragraph(b.p, b.n, (Dir)dir, d.p, dn, &r2);
		x.evals++;
		if (r != p.len || r2 != p.resolved) x.fail("preprocess_paragraph of %s into %zu elements returned %zu/%d instead of %zu/%d", hex(c.cp).c_str(), dn, r, (int)r2, p.len, (int)p.resolved);
		for (size_t i = p.len; i < dn; i++) if (d.p[i] != d.orig[i]) x.fail("preprocess_paragraph of %s wrote element %zu behind the paragraph", hex(c.cp).c_str(), i);
		if (dn >= p.len) {
			Para o = p;
			o.data.assign(d.p, d.p + p.len);
			if (levels(o, 0, p.len, x) != lv) x.fail("levels of %s depend on the destination size %zu", hex(c.cp).c_str(), dn);
		} else x.label("destination too small");
		if (many == 5 && grapheme_bidirectional_preprocess_paragraph(b.p, b.n, (Dir)dir, d.p, dn, NULL) != p.len) x.fail("preprocess_paragraph without a place for the direction returned another length");
		if (!b.intact()) x.fail("input was written to");
	}
	/* levels are sane whatever the text */
	for (size_t i = 0; i < p.len; i++)
		if (lv[i] > 126 || lv[i] < -1 || (lv[i] >= 0 && lv[i] < w.plevel)) x.fail("level %d at %zu of %s", lv[i], i, hex(c.cp).c_str());
	if (p.len < c.cp.size()) x.label("text behind the paragraph");
	x.label(dir ? "direction given" : "direction detected");
	x.nt(p.len > 1 && (p.len < c.cp.size() || w.plevel || w.maxdepth));
}
/* direction detection around isolates and separators: all sequences of 6 */
uint64_t c18_sweepn(bool thorough) { return thorough ? 8 * 8 * 8 * 8 * 8 : 8 * 8 * 8 * 8; }
extern const Prop P18;
void c18_sweep(uint64_t idx, Ctx &x)
{
	static const uint32_t K[] = {'a', 0x5D0, ' ', 0x2066, 0x2067, 0x2068, 0x2069, '\n'};
	CPs t;
	for (int i = 0; i < 4; i++) t.push_back(K[idx >> 3 * i & 7]);
	if (idx >> 12) t.push_back(K[idx >> 12 & 7]);
	size_t m = t.size();
	for (int j = 0; j < 64; j++) {
		t.resize(m);
		t.push_back(K[j & 7]);
		t.push_back(K[j >> 3]);
		Bidi w = bidi(t, 0);
		Dir r = (Dir)99;
		size_t n = grapheme_bidirectional_preprocess_paragraph((const u32 *)t.data(), t.size(), (Dir)0, NULL, 0, &r);
		x.evals++;
		if (n != w.len || r != (w.plevel ? GRAPHEME_BIDIRECTIONAL_DIRECTION_RTL : GRAPHEME_BIDIRECTIONAL_DIRECTION_LTR)) {
			Case c;
			c.cp = t;
			c.p.push_back(0);
			sub_case(P18, c, x);
		}
	}
	x.nt();
	x.label("exhaustive batches");
}
void grow_size(Src &s, Case &c, size_t total) { if (s.chance(1, 2)) c.p[1] = s.in(0, (int64_t)total); }
const Prop P18 = {"C18", "sweep: direction and length of every sequence of 6 (thorough 7) over letters, space, isolates and a separator; random: one or more paragraphs of bidi text, with the tail cut and replaced, the resolved direction given back, and destinations of 0, half, one less, a random and a larger size; non-trivial: more than one code point and text behind the paragraph, a right-to-left paragraph, or nesting (or a sweep batch)",
	c18_gen, c18_check, c18_sweepn, c18_sweep, grow_size};

/* --- C19: params [0] direction, [1][2] line start and length, [3] output size offset */
void line_range(const Case &c, size_t len, size_t &a, size_t &b)
{
	a = (size_t)((uint64_t)c.par(1) % (len + 1));
	uint64_t l = (uint64_t)c.par(2);
	b = l == 0 ? len : std::min(len, a + (size_t)(l % (len + 1)));
	if (l == 0) a = 0;
}
void line_gen(Src &s, Case &c)
{
	if (s.chance(1, 12)) gen::text(s, gen::ANY, c.cp, 20);
	else gen::bidi_text(s, c.cp, s.chance(1, 6) ? 100 : 24);
	if (s.chance(1, 3)) for (auto &v : c.cp) if (s.chance(1, 4)) v = s.of(ucd::mirror_cps);
	gen::scalar(c.cp);
	c.p.push_back((int64_t)s.below(3));
	bool whole = s.chance(1, 2);
	c.p.push_back(whole ? 0 : s.in(0, 60));
	c.p.push_back(whole ? 0 : s.in(0, 60));
	c.p.push_back(s.in(0, 80));
}
void grow_line(Src &s, Case &c, size_t total)
{
	if (s.chance(1, 2)) return;
	c.p[1] = s.in(0, (int64_t)total / 2);
	c.p[2] = s.in(0, (int64_t)total);
}
void c19_check(const Case &c, Ctx &x)
{
	if (c.cp.empty()) return;
	CPs cp = c.cp;
	gen::scalar(cp);
	int dir = dir_of(c, 0);
	Para p = prep(cp, 0, dir, x);
	Bidi w = bidi(cp, dir);
	if (p.len != w.len) x.fail("paragraph of %s: length %zu, expected %zu", hex(cp).c_str(), p.len, w.len);
	size_t a, b;
	line_range(c, p.len, a, b);
	size_t n = b - a;
	std::vector<int8_t> lv = line_levels(w, a, b);
	std::vector<size_t> ord = reorder(lv);
	size_t need = ord.size();
	int8_t hi = -1, lo = 127;
	for (auto l : lv) if (l >= 0) { hi = std::max(hi, l); lo = std::min(lo, l); }
	Buf<u32> line((const u32 *)cp.data() + a, n), data((const u32 *)p.data.data() + a, n);
	size_t any = (size_t)((uint64_t)c.par(3) % (n + 3));
	size_t sizes[] = {need, n, n + 1, n + 7, any, need + 1, need ? need - 1 : 0, 0}, known = 0;
	size_t many = n > 20000 ? 2 : 8; /* long texts take long */
	if (many == 2) sizes[1] = any;
	for (size_t k = 0; k < many; k++) {
		size_t on = sizes[k];
		Buf<u32> out(on, 0x5A);
		size_t r = grapheme_bidirectional_reorder_line(line.p, data.p, n, out.p, on);
		x.evals++;
		if (!line.intact() || !data.intact()) x.fail("reorder_line wrote to its input");
		if (r != need) x.fail("reorder_line of [%zu, %zu) of %s (%s) into %zu returned %zu, expected %zu", a, b, hex(cp).c_str(), DIRNAME[dir], on, r, need);
		if (on < need) {
			for (size_t i = 0; i < on; i++)
				if (out.p[i] != 0xFFFD) x.fail("reorder_line into only %zu of %zu elements left %04X", on, need, (unsigned)out.p[i]);
			x.label("output too small");
			continue;
		}
		for (size_t i = 0; i < need; i++) {
			u32 src = cp[a + ord[i]], mir = ucd::mirror(src);
			bool odd = lv[ord[i]] & 1;
			if (out.p[i] == (odd ? mir : src)) continue;
			if (!odd && out.p[i] == mir) {
				if (!known++) x.known("C19-mirror-even", "reorder_line of [%zu, %zu) of %s (%s): %04X at the even level %d came out mirrored as %04X", a, b, hex(cp).c_str(), DIRNAME[dir], (unsigned)src, lv[ord[i]], (unsigned)mir);
				continue;
			}
			CPs want;
			for (auto k : ord) want.push_back(lv[k] & 1 ? ucd::mirror(cp[a + k]) : cp[a + k]);
			x.fail("reorder_line of [%zu, %zu) of %s (%s) into %zu, levels %s\n specification %s\n libgrapheme   %s", a, b, hex(cp).c_str(), DIRNAME[dir], on, lvs(lv.data(), lv.size()).c_str(), hex(want).c_str(), hex(CPs(out.p, out.p + need)).c_str());
		}
		for (size_t i = need; i < on; i++)
			if (out.p[i] != out.orig[i]) x.fail("reorder_line wrote element %zu, behind its %zu", i, need);
	}
	if (hi > 2) x.label("levels over 2");
	if (need < n) x.label("removed by X9");
	if (a || b < p.len) x.label("part of the paragraph");
	x.nt(need > 1 && hi > 0);
}
/* mirroring, exhaustively: every code point at an odd and at an even level */
uint64_t c19_sweepn(bool) { return 0x1100; }
extern const Prop P19;
void c19_sweep(uint64_t idx, Ctx &x)
{
	for (uint32_t i = 0; i < 256; i++) {
		uint32_t v = (uint32_t)idx << 8 | i;
		if (v >= 0xD800 && v < 0xE000) continue;
		u32 t[2], d[2], o[3];
		/* under a right-to-left override everything is at level 1 */
		t[0] = 0x202E;
		t[1] = v;
		size_t n = grapheme_bidirectional_preprocess_paragraph(t, 2, GRAPHEME_BIDIRECTIONAL_DIRECTION_LTR, d, 2, NULL);
		size_t r = grapheme_bidirectional_reorder_line(t, d, n, o, 3);
		int c = ucd::bc(v);
		bool removed = c == BC_LRE || c == BC_RLE || c == BC_LRO || c == BC_RLO || c == BC_PDF || c == BC_BN;
		bool reset = c == BC_B || c == BC_S || c == BC_WS || c == BC_LRI || c == BC_RLI || c == BC_FSI || c == BC_PDI;
		x.evals++;
		bool ok = n == 2 && r == (removed ? 0u : 1u);
		if (ok && r && !reset) ok = o[0] == ucd::mirror(v);
		if (ok && r && reset) ok = o[0] == v;
		/* alone and left to right: even */
		n = grapheme_bidirectional_preprocess_paragraph(t + 1, 1, GRAPHEME_BIDIRECTIONAL_DIRECTION_LTR, d, 2, NULL);
		r = grapheme_bidirectional_reorder_line(t + 1, d, n, o, 3);
		if (n != 1 || r != (removed ? 0u : 1u) || (r && o[0] != v && c == BC_L)) ok = false;
		if (!ok) {
			for (int k = 0; k < 2; k++) {
				Case q;
				if (!k) q.cp.push_back(0x202E);
				q.cp.push_back(v);
				q.p.push_back(1);
				sub_case(P19, q, x);
			}
			x.fail("reorder_line of %04X alone or under an override", v);
		}
	}
	/* the recorded finding, so that every run meets it */
	if (idx == 0) {
		Case q;
		q.cp.push_back('a');
		q.cp.push_back('(');
		q.p.push_back(1);
		sub_case(P19, q, x);
	}
	x.nt();
}
const Prop P19 = {"C19", "sweep: every code point under a right-to-left override and alone, 256 per case; random: bidi text seeded with mirrored characters, whole paragraphs and arbitrary parts of them as lines, output of exactly, one below, one above and a random size; non-trivial: more than one visible code point and a level above 0 (or a sweep batch)",
	line_gen, c19_check, c19_sweepn, c19_sweep, grow_line};

/* --- C20: as C19 */
void c20_check(const Case &c, Ctx &x)
{
	if (c.cp.empty()) return;
	int dir = dir_of(c, 0);
	Para p = prep(c.cp, 0, dir, x);
	Bidi w = bidi(c.cp, dir);
	if (p.len != w.len) x.fail("paragraph of %s: length %zu, expected %zu", hex(c.cp).c_str(), p.len, w.len);
	size_t a, b;
	line_range(c, p.len, a, b);
	size_t n = b - a;
	std::vector<int8_t> want = line_levels(w, a, b);
	Buf<u32> data((const u32 *)p.data.data() + a, n);
	size_t sizes[] = {n, n ? n - 1 : 0, n + 1, n + 9, (size_t)((uint64_t)c.par(3) % (n + 2)), 0, 1};
	for (size_t ln : sizes) {
		Buf<int8_t> l(ln, 0x55);
		size_t r = grapheme_bidirectional_get_line_embedding_levels(data.p, n, (int_least8_t *)l.p, ln);
		x.evals++;
		if (!data.intact()) x.fail("line data was written to");
		if (r != n) x.fail("get_line_embedding_levels of a line of %zu into %zu returned %zu", n, ln, r);
		size_t m = std::min(n, ln);
		if (m && memcmp(l.p, want.data(), m))
			x.fail("levels of the line [%zu, %zu) of %s (%s) into %zu\n specification %s\n libgrapheme   %s", a, b, hex(c.cp).c_str(), DIRNAME[dir], ln, lvs(want.data(), m).c_str(), lvs(l.p, m).c_str());
		for (size_t i = n; i < ln; i++) if (l.p[i] != 0x55) x.fail("get_line_embedding_levels of a line of %zu wrote element %zu", n, i);
		if (ln < n) x.label("levels too small");
	}
	if (grapheme_bidirectional_get_line_embedding_levels(data.p, n, NULL, 0) != n) x.fail("get_line_embedding_levels without a destination does not return %zu", n);
	/* a line break only ever changes the levels of trailing white space */
	std::vector<int8_t> full = line_levels(w, 0, w.len), got = levels(p, a, b, x);
	bool reset = false;
	for (size_t i = 0; i < n; i++) if (got[i] != w.lv[a + i]) reset = true;
	if (reset) x.label("trailing white space reset");
	if (a || b < p.len) x.label("part of the paragraph");
	int8_t hi = -1, lo = 127;
	for (auto v : want) if (v >= 0) { hi = std::max(hi, v); lo = std::min(lo, v); }
	x.nt(n > 1 && (reset || lo != hi));
}
/* every line of every class sequence of 5 over what L1 looks at */
uint64_t c20_sweepn(bool thorough) { return thorough ? 8 * 8 * 8 * 2 * 8 : 8 * 8 * 8 * 2; }
extern const Prop P20;
void c20_sweep(uint64_t idx, Ctx &x)
{
	static const uint32_t K[] = {' ', 0x5D0, 'a', '\t', 0x2067, 0x2069, 0x202B, 0x200B};
	int dir = 1 + (int)(idx & 1);
	CPs t;
	t.push_back(K[idx >> 1 & 7]);
	t.push_back(K[idx >> 4 & 7]);
	t.push_back(K[idx >> 7 & 7]);
	if (idx >> 10) t.push_back(K[idx >> 10 & 7]);
	size_t m = t.size();
	for (int j = 0; j < 64; j++) {
		t.resize(m);
		t.push_back(K[j & 7]);
		t.push_back(K[j >> 3]);
		Bidi w = bidi(t, dir);
		u32 d[8];
		if (grapheme_bidirectional_preprocess_paragraph((const u32 *)t.data(), t.size(), (Dir)dir, d, 8, NULL) != t.size()) x.fail("length of %s", hex(t).c_str());
		for (size_t a = 0; a < t.size(); a++)
			for (size_t b = a + 1; b <= t.size(); b++) {
				std::vector<int8_t> want = line_levels(w, a, b);
				int_least8_t l[8];
				x.evals++;
				if (grapheme_bidirectional_get_line_embedding_levels(d + a, b - a, l, b - a) != b - a || memcmp(l, want.data(), b - a)) {
					Case c;
					c.cp = t;
					c.p.push_back(dir);
					c.p.push_back((int64_t)a);
					c.p.push_back((int64_t)(b - a));
					sub_case(P20, c, x);
					x.fail("levels of the line [%zu, %zu) of %s", a, b, hex(t).c_str());
				}
			}
	}
	x.nt();
	x.label("exhaustive batches");
}
const Prop P20 = {"C20", "sweep: every line of every sequence of 5 (thorough 6) over white space, separators, isolates, letters and removed characters; random: bidi text, whole paragraphs and arbitrary parts as lines, level buffers of exactly, one below, one above, a random size, one and none; non-trivial: a line of more than one code point with mixed levels or a reset of trailing white space (or a sweep batch)",
	line_gen, c20_check, c20_sweepn, c20_sweep, grow_line};
}
const Prop *const PROPS_BIDI[] = {&P17, &P18, &P19, &P20, 0};
