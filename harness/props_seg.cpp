/* C04-C07 conformance of the four segmentations, C08 stateful grapheme breaks,
 * C09 UTF-8 against code points, C10 NUL-terminated against explicit lengths,
 * C11 progress. */
#include <algorithm>
#include <cstring>
#include "gen.h"
#include "lib.h"
#include "props.h"
using namespace ref;
using lib::u32;

namespace {
const gen::Theme THEME[4] = {gen::GCB, gen::WB, gen::SB, gen::LB};

std::string show(const CPs &t, const Bounds &b)
{
	std::string s;
	char x[24];
	for (size_t i = 0; i < t.size() && i < 60; i++) {
		snprintf(x, sizeof x, " %s %04X", b[i] ? "/" : "x", t[i]);
		s += x;
	}
	return s + " /";
}
bool is_scalar(const CPs &t)
{
	for (auto c : t) if (c > 0x10FFFF || (c >= 0xD800 && c < 0xE000)) return false;
	return true;
}

/* --- C04 .. C07 --------------------------------------------------------- */
void conform(Seg k, const CPs &t, Ctx &x, bool utf8)
{
	Bounds want = segment(k, t);
	size_t n = t.size();
	{
		Buf<u32> b(t.data(), n);
		Bounds got = lib::iterate(k, b.p, n, x);
		if (got != want)
			x.fail("%s breaks differ\n specification %s\n libgrapheme   %s", lib::SEGNAME[k], show(t, want).c_str(), show(t, got).c_str());
		if (!b.intact()) x.fail("input was written to");
	}
	if (utf8 && is_scalar(t)) {
		Bytes e = encode_all(t);
		Buf<uint8_t> b(e);
		Bounds g8 = lib::iterate8(k, b.p, e.size(), x), got(n + 1, 0);
		uint8_t o[4];
		size_t off = 0;
		for (size_t i = 0; i <= n; i++) {
			got[i] = g8[off];
			int m = i < n ? encode(t[i], o) : 0;
			for (int j = 1; j < m; j++)
				if (g8[off + (size_t)j]) x.fail("%s break inside of the UTF-8 sequence at byte %zu of %s", lib::SEGNAME[k], off, hexb(e.data(), e.size()).c_str());
			off += (size_t)m;
		}
		if (got != want)
			x.fail("%s breaks (UTF-8) differ\n specification %s\n libgrapheme   %s", lib::SEGNAME[k], show(t, want).c_str(), show(t, got).c_str());
		if (!b.intact()) x.fail("input was written to");
	}
	size_t in = 0;
	for (size_t i = 1; i < n; i++) in += want[i] != 0;
	x.nt(n >= 3 && in > 0 && in < n - 1);
	x.label(n < 4 ? "len 0-3" : n < 16 ? "len 4-15" : n < 64 ? "len 16-63" : "len 64+");
	if (in == 0) x.label("single segment");
	else if (in == n - 1) x.label("all break");
	else x.label("mixed");
}
template <int K> void seg_check(const Case &c, Ctx &x) { conform((Seg)K, c.cp, x, true); }
template <int K> void seg_gen(Src &s, Case &c)
{
	unsigned w = (unsigned)s.below(16);
	gen::text(s, w == 0 ? gen::ANY : w == 1 ? THEME[s.below(4)] : THEME[K], c.cp, s.chance(1, 8) ? 60 : 20);
}
/* every sequence of atoms up to a length; SEQLEN chosen per theme and tier */
uint64_t ipow(uint64_t b, int e) { uint64_t r = 1; while (e--) r *= b; return r; }
const int QLEN[4] = {5, 4, 5, 3}, TLEN[4] = {6, 5, 6, 4};
const uint64_t BATCH = 256;
int sweep_len[4];
template <int K> uint64_t seg_sweepn(bool thorough)
{
	sweep_len[K] = thorough ? TLEN[K] : QLEN[K];
	return (ipow((uint64_t)gen::natoms(THEME[K]), sweep_len[K]) + BATCH - 1) / BATCH;
}
extern const Prop PSEG[4];
template <int K> void seg_sweep(uint64_t idx, Ctx &x)
{
	uint64_t a = (uint64_t)gen::natoms(THEME[K]);
	if (!sweep_len[K]) sweep_len[K] = QLEN[K];
	uint64_t total = ipow(a, sweep_len[K]);
	CPs t;
	for (uint64_t j = idx * BATCH; j < idx * BATCH + BATCH && j < total; j++) {
		t.clear();
		uint64_t v = j, h = j * 0x9E3779B97F4A7C15ull;
		for (int i = 0; i < sweep_len[K]; i++) {
			auto &r = gen::atom_cps(THEME[K], (int)(v % a));
			v /= a;
			h = h * 6364136223846793005ull + 1442695040888963407ull;
			t.push_back(r[(h >> 33) % 3 ? 0 : (h >> 35) % r.size()]);
		}
		Buf<u32> b(t.data(), t.size());
		if (lib::iterate((Seg)K, b.p, t.size(), x) != segment((Seg)K, t)) {
			Case c;
			c.cp = t;
			sub_case(PSEG[K], c, x);
		}
	}
	x.nt();
	x.label("exhaustive batches");
}
const Prop PSEG[4] = {
	{"C04", "random: texts over Grapheme_Cluster_Break x Extended_Pictographic classes, conformance samples spliced and mutated, idioms, long runs; sweep: every class sequence up to 5 (quick) or 6 (thorough) code points, 256 per case; non-trivial: at least 3 code points with both a break and a non-break inside (sweep batches always hold such)",
	 seg_gen<CHAR>, seg_check<CHAR>, seg_sweepn<CHAR>, seg_sweep<CHAR>, grow_plain},
	{"C05", "random: texts over Word_Break x Extended_Pictographic classes, conformance samples spliced and mutated, idioms, long runs; sweep: every class sequence of 4 (quick) or 5 (thorough) code points, 256 per case; non-trivial: at least 3 code points with both a break and a non-break inside (sweep batches always hold such)",
	 seg_gen<WORD>, seg_check<WORD>, seg_sweepn<WORD>, seg_sweep<WORD>, grow_plain},
	{"C06", "random: texts over Sentence_Break classes, conformance samples spliced and mutated, idioms, long runs; sweep: every class sequence of 5 (quick) or 6 (thorough) code points, 256 per case; non-trivial: at least 3 code points with both a break and a non-break inside (sweep batches always hold such)",
	 seg_gen<SENT>, seg_check<SENT>, seg_sweepn<SENT>, seg_sweep<SENT>, grow_plain},
	{"C07", "random: texts over Line_Break classes (East Asian brackets and unassigned pictographs apart), conformance samples spliced and mutated, idioms, long runs; sweep: every class sequence of 3 (quick) or 4 (thorough) code points, 256 per case; non-trivial: at least 3 code points with both a break and a non-break inside (sweep batches always hold such)",
	 seg_gen<LINE>, seg_check<LINE>, seg_sweepn<LINE>, seg_sweep<LINE>, grow_plain},
};

/* --- C08 ---------------------------------------------------------------- */
/* params: [0] number of streams - 1; then operations
 *   op = stream & 3 | kind << 2 | arg << 8
 *   kind 0-2 step (2: reset the state when a break was reported)
 *        3 jump to arg with a fresh state
 *        4 ask about an arbitrary pair with no state */
void c08_gen(Src &s, Case &c)
{
	gen::text(s, s.chance(7, 8) ? gen::GCB : gen::ANY, c.cp, 40);
	if (s.chance(1, 3)) {
		CPs more;
		gen::text(s, gen::GCB, more, 30);
		c.cp.insert(c.cp.end(), more.begin(), more.end());
	}
	c.p.push_back((int64_t)s.below(3));
	size_t ops = s.in(1, 80);
	int style = (int)s.below(4);
	for (size_t i = 0; i < ops; i++) {
		uint64_t st = s.below(4), kind = style == 0 ? 0 : style == 1 ? 2 : s.chance(1, 12) ? 3 : s.chance(1, 10) ? 4 : s.chance(1, 2) ? 2 : 0;
		c.p.push_back((int64_t)(st | kind << 2 | s.below(200) << 8));
	}
}
void c08_check(const Case &c, Ctx &x)
{
	size_t k = (size_t)(((uint64_t)c.par(0)) % 4) + 1, n = c.cp.size();
	struct Stream { CPs t; size_t start, at; uint_least16_t state; Bounds want; bool fresh; };
	std::vector<Stream> st(k);
	for (size_t i = 0; i < k; i++) {
		st[i].t.assign(c.cp.begin() + (long)(n * i / k), c.cp.begin() + (long)(n * (i + 1) / k));
		st[i].start = st[i].at = 0;
		st[i].state = 0;
		st[i].want = graphemes(st[i].t);
	}
	int steps = 0, resets = 0, jumps = 0, inter = 0;
	size_t last = k;
	for (size_t i = 1; i < c.p.size(); i++) {
		uint64_t op = (uint64_t)c.p[i], kind = (op >> 2) & 7, arg = op >> 8;
		size_t si = (op & 3) % k;
		Stream &q = st[si];
		if (kind == 3) {
			if (q.t.empty()) continue;
			q.start = q.at = arg % q.t.size();
			q.state = 0;
			q.want = graphemes(CPs(q.t.begin() + (long)q.start, q.t.end()));
			jumps++;
		} else if (kind == 4) {
			if (n == 0) continue;
			u32 a = c.cp[arg % n], b = c.cp[(arg / 7 + i) % n];
			CPs two;
			two.push_back(a);
			two.push_back(b);
			uint_least16_t z = 0;
			bool r0 = grapheme_is_character_break(a, b, NULL), r1 = grapheme_is_character_break(a, b, &z);
			x.evals += 2;
			if (r0 != r1) x.fail("is_character_break(%04X, %04X): %d without a state, %d with a fresh state", (unsigned)a, (unsigned)b, r0, r1);
			bool w = graphemes(two)[1];
			if (r1 != w) x.fail("is_character_break(%04X, %04X) with a fresh state: %d, specification %d", (unsigned)a, (unsigned)b, r1, w);
		} else {
			if (q.at + 1 >= q.t.size()) continue;
			bool r = grapheme_is_character_break(q.t[q.at], q.t[q.at + 1], &q.state);
			x.evals++;
			bool w = q.want[q.at + 1 - q.start];
			if (r != w)
				x.fail("operation %zu, stream %zu started at %zu: is_character_break(%04X, %04X) at offset %zu gave %d, specification %d; stream: %s", i, si, q.start, q.t[q.at], q.t[q.at + 1], q.at + 1, r, w, hex(q.t).c_str());
			q.at++;
			steps++;
			if (last < k && last != si) inter++;
			last = si;
			if (r && kind == 2) { q.state = 0; resets++; }
		}
	}
	x.nt(steps >= 3 && (resets || jumps || inter));
	if (resets) x.label("state reset after a break");
	if (jumps) x.label("jump with a fresh state");
	if (inter) x.label("interleaved streams");
}
/* all pairs of atoms with no state; all walks of 5 atoms, with and without resets */
uint64_t c08_sweepn(bool) { return (uint64_t)gen::natoms(gen::GCB) * (uint64_t)gen::natoms(gen::GCB); }
extern const Prop P08;
void c08_sweep(uint64_t idx, Ctx &x)
{
	uint64_t a = (uint64_t)gen::natoms(gen::GCB);
	for (uint64_t j = 0; j < a * a * a; j++) {
		uint64_t v = idx + j * a * a;
		CPs t;
		for (int i = 0; i < 5; i++) { t.push_back(gen::atom_cps(gen::GCB, (int)(v % a))[0]); v /= a; }
		Bounds w = graphemes(t);
		bool bad = false;
		for (int mode = 0; mode < 2; mode++) {
			uint_least16_t s = 0;
			for (size_t i = 0; i + 1 < t.size(); i++) {
				bool r = grapheme_is_character_break(t[i], t[i + 1], &s);
				x.evals++;
				if (r != (bool)w[i + 1]) bad = true;
				if (r && mode) s = 0;
			}
		}
		if (j == 0) {
			uint_least16_t s = 0;
			if (grapheme_is_character_break(t[0], t[1], NULL) != grapheme_is_character_break(t[0], t[1], &s)) bad = true;
		}
		if (bad) {
			for (int mode = 0; mode < 3; mode++) {
				Case c;
				c.cp = t;
				c.p.push_back(0);
				if (mode < 2) for (int i = 0; i < 4; i++) c.p.push_back(mode ? 2 << 2 : 0);
				else for (int i = 0; i < 200; i++) c.p.push_back(4 << 2 | (i % 40) << 8);
				sub_case(P08, c, x);
			}
			x.fail("stateful grapheme breaks disagree on %s", hex(t).c_str());
		}
	}
	x.nt();
	x.label("exhaustive batches");
}
const Prop P08 = {"C08", "random: up to 3 texts walked by an interleaved history of steps, optional state resets after reported breaks, jumps with a fresh state and stateless queries; sweep: all 5-code-point class walks with and without resets (one case per leading pair); non-trivial: at least 3 steps and a reset, jump or interleaving (or a sweep batch)",
	c08_gen, c08_check, c08_sweepn, c08_sweep, 0};

/* --- C09 ---------------------------------------------------------------- */
/* params: [0] segmentation */
void c09_gen(Src &s, Case &c)
{
	int k = (int)s.below(4);
	c.p.push_back(k);
	gen::bytes(s, s.chance(1, 6) ? gen::ANY : THEME[k], c.by, 6, 16);
}
void c09_check(const Case &c, Ctx &x)
{
	Seg k = (Seg)((uint64_t)c.par(0) % 4);
	/* decode with the documented loop of the library itself; a sequence that
	 * the end of the string cuts off is a segment of its own if the length is
	 * given, and U+FFFD if the string is NUL-terminated */
	CPs cp;
	std::vector<size_t> off;
	Buf<uint8_t> b(c.by);
	size_t n = b.n;
	bool cut = false, bad = false;
	for (size_t i = 0; i < n;) {
		u32 v;
		size_t r = grapheme_decode_utf8((const char *)b.p + i, n - i, &v);
		if (r == 0) x.fail("decode_utf8 made no progress at %zu", i);
		off.push_back(i);
		if (r > n - i) { cut = true; r = n - i; v = 0xFFFD; }
		if (v == 0xFFFD) bad = true;
		cp.push_back(v);
		i += r;
	}
	off.push_back(n);
	Bounds g8 = lib::iterate8(k, b.p, n, x);
	Bounds want(n + 1, 0);
	{
		Buf<u32> w(cp.data(), cp.size() - cut);
		Bounds g = lib::iterate(k, w.p, w.n, x);
		for (size_t i = 0; i < g.size(); i++) if (g[i]) want[off[i]] = 1;
		want[n] = 1;
	}
	for (size_t i = 0; i <= n; i++)
		if (g8[i] != want[i])
			x.fail("%s break at byte %zu: %d in UTF-8, %d over the decoded code points %s; bytes %s", lib::SEGNAME[k], i, g8[i], want[i], hex(cp).c_str(), hexb(c.by.data(), n).c_str());
	if (std::find(c.by.begin(), c.by.end(), 0) == c.by.end()) {
		Bytes z = c.by;
		z.push_back(0);
		Buf<uint8_t> bz(z);
		Buf<u32> w(cp.data(), cp.size());
		Bounds h8 = lib::iterate8(k, bz.p, n, x, true), h = lib::iterate(k, w.p, w.n, x);
		for (size_t i = 0; i < h.size(); i++)
			if (h8[off[i]] != h[i])
				x.fail("%s break at byte %zu: %d in NUL-terminated UTF-8, %d over the decoded code points %s; bytes %s", lib::SEGNAME[k], off[i], h8[off[i]], h[i], hex(cp).c_str(), hexb(c.by.data(), n).c_str());
		x.label("NUL-terminated as well");
	}
	if (!b.intact()) x.fail("input was written to");
	if (cut) x.label("truncated tail");
	if (bad) x.label("malformed");
	else x.label("well-formed");
	x.nt(n > 1 && cp.size() > 1 && (bad || cp.size() < n));
}
const Prop P09 = {"C09", "random: UTF-8 encodings of the segmentation texts, damaged with probability 3/4 (replaced, inserted and deleted bytes, overlong and surrogate sequences, truncated tails); non-trivial: at least two code points and a multi-byte or malformed sequence",
	c09_gen, c09_check, 0, 0, grow_plain};

/* --- C10 ---------------------------------------------------------------- */
/* cp and by hold the string without its terminator; params: [0] number of
 * garbage elements behind the terminator, [1] destination size */
void c10_gen(Src &s, Case &c)
{
	gen::Theme t = (gen::Theme)s.below(7);
	gen::text(s, t, c.cp, 20);
	c.cp.erase(std::remove(c.cp.begin(), c.cp.end(), 0u), c.cp.end());
	gen::bytes(s, t, c.by, 4, 16);
	c.by.erase(std::remove(c.by.begin(), c.by.end(), 0), c.by.end());
	c.p.push_back(s.chance(1, 2) ? 0 : s.in(1, 8));
	c.p.push_back(s.chance(1, 2) ? 1000 : s.in(0, 40));
}
void c10_check(const Case &c, Ctx &x)
{
	CPs t = c.cp;
	Bytes e = c.by;
	t.erase(std::remove(t.begin(), t.end(), 0u), t.end());
	e.erase(std::remove(e.begin(), e.end(), 0), e.end());
	/* a terminator makes a cut-off sequence malformed, the end of the string
	 * leaves it incomplete (C09, C15) */
	for (size_t w, k = 0; (w = whole_part(e.data(), e.size())) < e.size();) {
		e.resize(w);
		if (++k > 8) e.push_back('a');
	}
	size_t n = t.size(), m = e.size();
	size_t g = (size_t)std::min<int64_t>(std::max<int64_t>(c.par(0), 0), 64), dn = (size_t)std::min<int64_t>(std::max<int64_t>(c.par(1), 0), 4096);
	CPs tz = t;
	Bytes ez = e;
	tz.push_back(0);
	ez.push_back(0);
	static const uint32_t JUNK[8] = {0x301, 'A', 0x5D0, 0x200D, '1', 0x2029, 0x1F468, 0x3A3};
	static const uint8_t JUNK8[8] = {0x80, 'A', 0xCC, 0x81, 0xBF, '1', 0xD7, 0x90};
	for (size_t i = 0; i < g; i++) { tz.push_back(JUNK[i % 8]); ez.push_back(JUNK8[i % 8]); }
	Buf<u32> a(t.data(), n), z(tz.data(), tz.size());
	Buf<uint8_t> a8(e), z8(ez);
	for (int k = 0; k < 4; k++) {
		for (size_t i = 0; i <= n; i++) {
			size_t r = lib::next((Seg)k, a.p + i, n - i), q = lib::next((Seg)k, z.p + i, SIZE_MAX);
			x.evals += 2;
			if (r != q) x.fail("next_%s_break at %zu of %s: %zu with the length, %zu NUL-terminated", lib::SEGNAME[k], i, hex(t).c_str(), r, q);
			if (n > 40) i += n / 40;
		}
		for (size_t i = 0; i <= m; i++) {
			size_t r = lib::next8((Seg)k, (const char *)a8.p + i, m - i), q = lib::next8((Seg)k, (const char *)z8.p + i, SIZE_MAX);
			x.evals += 2;
			if (r != q) x.fail("next_%s_break_utf8 at %zu of %s: %zu with the length, %zu NUL-terminated", lib::SEGNAME[k], i, hexb(e.data(), m).c_str(), r, q);
			if (m > 40) i += m / 40;
		}
	}
	for (int k = 0; k < 3; k++) {
		Buf<u32> d(dn, 0xA5), f(dn, 0xA5);
		size_t r = lib::to_case(k, a.p, n, d.p, dn), q = lib::to_case(k, z.p, SIZE_MAX, f.p, dn);
		x.evals += 2;
		if (r != q || memcmp(d.p, f.p, dn ? (std::min(r, dn - 1) + 1) * sizeof(u32) : 0))
			x.fail("to_%scase of %s into %zu: %zu with the length, %zu NUL-terminated, or contents differ", lib::CASENAME[k], hex(t).c_str(), dn, r, q);
		size_t l1 = 77, l2 = 77;
		bool b1 = lib::is_case(k, a.p, n, &l1), b2 = lib::is_case(k, z.p, SIZE_MAX, &l2);
		if (b1 != b2 || l1 != l2) x.fail("is_%scase of %s: %d/%zu with the length, %d/%zu NUL-terminated", lib::CASENAME[k], hex(t).c_str(), b1, l1, b2, l2);
		Buf<uint8_t> d8(dn, 0xA5), f8(dn, 0xA5);
		r = lib::to_case8(k, (const char *)a8.p, m, (char *)d8.p, dn);
		q = lib::to_case8(k, (const char *)z8.p, SIZE_MAX, (char *)f8.p, dn);
		x.evals += 2;
		if (r != q || (dn && strcmp((const char *)d8.p, (const char *)f8.p)))
			x.fail("to_%scase_utf8 of %s into %zu: %zu with the length, %zu NUL-terminated, or contents differ", lib::CASENAME[k], hexb(e.data(), m).c_str(), dn, r, q);
		l1 = l2 = 77;
		b1 = lib::is_case8(k, (const char *)a8.p, m, &l1);
		b2 = lib::is_case8(k, (const char *)z8.p, SIZE_MAX, &l2);
		if (b1 != b2 || l1 != l2) x.fail("is_%scase_utf8 of %s: %d/%zu with the length, %d/%zu NUL-terminated", lib::CASENAME[k], hexb(e.data(), m).c_str(), b1, l1, b2, l2);
	}
	/* decoding: the same code points; a terminator inside of a sequence is an
	 * unexpected byte, so only the length of the cut-off tail may differ */
	for (size_t i = 0; i < m;) {
		u32 c1 = 1, c2 = 2;
		size_t r = grapheme_decode_utf8((const char *)a8.p + i, m - i, &c1), q = grapheme_decode_utf8((const char *)z8.p + i, SIZE_MAX, &c2);
		x.evals += 2;
		if (c1 != c2 || std::min(r, m - i) != q)
			x.fail("decode_utf8 at %zu of %s: %zu/%04X with the length, %zu/%04X NUL-terminated", i, hexb(e.data(), m).c_str(), r, (unsigned)c1, q, (unsigned)c2);
		i += std::min(r, m - i);
		if (r == 0) break;
	}
	for (int dir = 0; dir < 3; dir++) {
		Buf<u32> d(n, 0), f(n, 0);
		enum grapheme_bidirectional_direction r1, r2;
		size_t r = grapheme_bidirectional_preprocess_paragraph(a.p, n, (enum grapheme_bidirectional_direction)dir, d.p, n, &r1);
		size_t q = grapheme_bidirectional_preprocess_paragraph(z.p, SIZE_MAX, (enum grapheme_bidirectional_direction)dir, f.p, n, &r2);
		x.evals += 2;
		if (r != q || (n && r1 != r2) || r > n) x.fail("preprocess_paragraph of %s: %zu/%d with the length, %zu/%d NUL-terminated", hex(t).c_str(), r, (int)r1, q, (int)r2);
		Buf<int8_t> lv1(r, 0x55), lv2(r, 0x55);
		grapheme_bidirectional_get_line_embedding_levels(d.p, r, (int_least8_t *)lv1.p, r);
		grapheme_bidirectional_get_line_embedding_levels(f.p, r, (int_least8_t *)lv2.p, r);
		if (r && memcmp(lv1.p, lv2.p, r)) x.fail("embedding levels of %s differ between explicit length and NUL termination", hex(t).c_str());
	}
	if (!a.intact() || !z.intact() || !a8.intact() || !z8.intact()) x.fail("input was written to");
	x.nt(n > 1 && m > 1);
	if (g) x.label("bytes behind the terminator");
	x.label(dn >= n ? "large destination" : "small destination");
}
void grow_any(Src &s, Case &c, size_t total)
{
	if (s.chance(1, 2) || c.by.empty()) return;
	c.cp.clear(); /* grow the bytes */
	c.rep[0] = (uint32_t)s.below(c.by.size());
	c.rep[1] = 1 + (uint32_t)s.below(std::min<size_t>(c.by.size() - c.rep[0], 6));
	c.rep[2] = (uint32_t)(total / c.rep[1]);
}
const Prop P10 = {"C10", "random: code point texts and (partly malformed) UTF-8 of every theme without NUL, given once with their length in an exact-size buffer and once NUL-terminated, with or without data behind the terminator, at every start offset; non-trivial: both strings longer than one element",
	c10_gen, c10_check, 0, 0, grow_any};

/* --- C11 ---------------------------------------------------------------- */
/* params: [0] 1 = use bytes; [1..3] unit length, repeats, prefix of cp */
void c11_gen(Src &s, Case &c)
{
	gen::Theme t = (gen::Theme)s.below(7);
	int64_t u8 = (int64_t)s.below(2);
	if (u8) gen::bytes(s, t, c.by, 6, 24);
	else gen::text(s, t, c.cp, 24);
	c.p.push_back(u8);
	c.p.push_back(s.chance(1, 6) ? s.in(1, 3) : 0);
	c.p.push_back(s.chance(1, 4) ? (int64_t)gen::special_len(s) : s.in(1, 40));
}
template <class T> void blow(std::vector<T> &v, int64_t unit, int64_t rep)
{
	/* the first `unit` elements, repeated */
	if (unit <= 0 || v.empty()) return;
	size_t u = std::min((size_t)unit, v.size()), r = (size_t)std::min<int64_t>(std::max<int64_t>(rep, 1), 70000);
	std::vector<T> w;
	for (size_t i = 0; i < r; i++) w.insert(w.end(), v.begin(), v.begin() + (long)u);
	w.insert(w.end(), v.begin() + (long)u, v.end());
	v.swap(w);
}
void c11_check(const Case &c, Ctx &x)
{
	CPs t = c.cp;
	Bytes e = c.by;
	blow(t, c.par(1), c.par(2));
	blow(e, c.par(1), c.par(2));
	for (int k = 0; k < 4; k++) {
		if (lib::next((Seg)k, NULL, 0) || lib::next((Seg)k, NULL, 5) || lib::next((Seg)k, NULL, SIZE_MAX) ||
		    lib::next8((Seg)k, NULL, 0) || lib::next8((Seg)k, NULL, 5) || lib::next8((Seg)k, NULL, SIZE_MAX))
			x.fail("next_%s_break of no string is not 0", lib::SEGNAME[k]);
		if (c.par(0) == 0) {
			Buf<u32> b(t.data(), t.size());
			if (lib::next((Seg)k, b.p + b.n, 0)) x.fail("next_%s_break of an empty string is not 0", lib::SEGNAME[k]);
			Bounds w = lib::iterate((Seg)k, b.p, b.n, x);
			/* a segment found in the text is a segment on its own: cutting the text
			 * at a reported break leaves the breaks before it in place */
			size_t cut = 0;
			for (size_t i = 1; i < b.n; i++) if (w[i] && (cut == 0 || i * 3 <= b.n * 2)) cut = i;
			if (cut) {
				Buf<u32> h(t.data(), cut);
				Bounds v = lib::iterate((Seg)k, h.p, cut, x);
				for (size_t i = 0; i <= cut; i++)
					if (v[i] != w[i]) x.fail("cutting %s at its %s break %zu moves the break at %zu", hex(t).c_str(), lib::SEGNAME[k], cut, i);
				x.label("cut at a break");
			}
			if (!b.intact()) x.fail("input was written to");
			x.nt(b.n > 2);
			if (b.n > 60000) x.label("over 60000 code points");
		} else {
			Buf<uint8_t> b(e);
			if (lib::next8((Seg)k, (const char *)b.p + b.n, 0)) x.fail("next_%s_break_utf8 of an empty string is not 0", lib::SEGNAME[k]);
			Bounds w = lib::iterate8((Seg)k, b.p, b.n, x);
			/* never inside of a well-formed sequence */
			CPs cp;
			std::vector<size_t> off;
			decode_all(b.p, b.n, cp, off);
			size_t j = 0;
			for (size_t i = 0; i <= b.n; i++) {
				while (j < off.size() && off[j] < i) j++;
				if (w[i] && (j == off.size() || off[j] != i)) x.fail("next_%s_break_utf8 stopped inside of the sequence before byte %zu of %s", lib::SEGNAME[k], i, hexb(b.p, b.n).c_str());
			}
			if (!b.intact()) x.fail("input was written to");
			x.nt(b.n > 2);
			if (b.n > 60000) x.label("over 60000 bytes");
		}
		x.label(c.par(0) ? "UTF-8" : "code points");
	}
}
/* long segments: prefix + atom * length + suffix must agree with the reference */
const size_t BIG[] = {255, 256, 257, 1000, 32767, 32768, 65534, 65535, 65536, 65537, 70000};
uint64_t c11_sweepn(bool)
{
	uint64_t n = 0;
	for (int k = 0; k < 4; k++) n += (uint64_t)gen::natoms(THEME[k]);
	return n;
}
void c11_sweep(uint64_t idx, Ctx &x)
{
	int k = 0;
	while (idx >= (uint64_t)gen::natoms(THEME[k])) idx -= (uint64_t)gen::natoms(THEME[k++]);
	auto &r = gen::atom_cps(THEME[k], (int)idx);
	static const CPs PRE[4] = {{0x1F468, 0x300}, {'a'}, {'a', '.', ')'}, {'('}};
	for (size_t L : BIG) {
		if (L > 1000 && L != 65535 && L != 65536 && L != 65537 && L % 7 != idx % 7) continue;
		CPs t = PRE[k];
		for (size_t i = 0; i < L; i++) t.push_back(r[i % std::min<size_t>(r.size(), 3)]);
		static const uint32_t SUF[] = {0x200D, 0x1F469, ' ', 'b', 0x301};
		t.insert(t.end(), SUF, SUF + 5);
		Buf<u32> b(t.data(), t.size());
		Bounds g = lib::iterate((Seg)k, b.p, t.size(), x);
		if (g != segment((Seg)k, t)) {
			Bounds w = segment((Seg)k, t);
			size_t i = 0;
			while (g[i] == w[i]) i++;
			x.fail("%s breaks of a text with %zu repetitions of class of %04X: offset %zu of %zu is %d, specification %d", lib::SEGNAME[k], L, r[0], i, t.size(), g[i], w[i]);
		}
	}
	x.nt();
	x.label("long runs");
}
const Prop P11 = {"C11", "random: texts of every theme as code points or (mostly damaged) UTF-8, partly with their start repeated up to 300 times; sweep: for every class of every segmentation, runs of up to 70000 code points between fixed ends; non-trivial: more than two elements",
	c11_gen, c11_check, c11_sweepn, c11_sweep, 0};
}
const Prop *const PROPS_SEG[] = {&PSEG[0], &PSEG[1], &PSEG[2], &PSEG[3], &P08, &P09, &P10, &P11, 0};
