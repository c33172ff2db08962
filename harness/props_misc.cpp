/* C03 memory discipline, C21 purity, C22 property tables */
#include <algorithm>
#include <cstring>
#include <thread>
#include "gen.h"
#include "lib.h"
#include "props.h"
using namespace ref;
using lib::u32;
typedef enum grapheme_bidirectional_direction Dir;
namespace {
uint64_t mix(uint64_t h, const void *p, size_t n)
{
	const uint8_t *b = (const uint8_t *)p;
	for (size_t i = 0; i < n; i++) h = (h ^ b[i]) * 0x100000001B3ull;
	return h;
}
uint64_t mixv(uint64_t h, uint64_t v) { return mix(h, &v, 8); }
const int NFN = 26;
const char *const FN[NFN] = {"decode_utf8", "encode_utf8", "next_character_break", "next_word_break", "next_sentence_break", "next_line_break",
	"next_character_break_utf8", "next_word_break_utf8", "next_sentence_break_utf8", "next_line_break_utf8",
	"to_lowercase", "to_titlecase", "to_uppercase", "to_lowercase_utf8", "to_titlecase_utf8", "to_uppercase_utf8",
	"is_lowercase", "is_titlecase", "is_uppercase", "is_lowercase_utf8", "is_titlecase_utf8", "is_uppercase_utf8",
	"preprocess_paragraph", "get_line_embedding_levels", "reorder_line", "is_character_break"};
/* inputs shared by the calls: never written to; cp and by have a terminator
 * behind them only in cpz and byz */
struct In {
	Buf<u32> cp, cpz;
	Buf<uint8_t> by, byz;
	static std::vector<u32> z(const CPs &c) { std::vector<u32> v(c.begin(), c.end()); v.push_back(0); return v; }
	static Bytes z8(const Bytes &b) { Bytes v = b; v.push_back(0); return v; }
	In(const Case &c) : cp((const u32 *)c.cp.data(), c.cp.size()), cpz(z(c.cp)), by(c.by), byz(z8(c.by)) {}
	bool intact() const { return cp.intact() && cpz.intact() && by.intact() && byz.intact(); }
};
/* one call, with everything it is given in exact-size blocks; the digest covers
 * the result and what the documentation defines of the output; what != 0 names
 * a broken promise.  pat: what the outputs hold before */
uint64_t call(const In &in, int64_t op, const char **what, int pat = 0xA5)
{
	uint64_t u = (uint64_t)op, h = 0xCBF29CE484222325ull;
	int fn = (int)(u % NFN);
	u /= NFN;
	bool nul = u & 1, none = (u >> 1 & 7) == 0;
	size_t a = (size_t)(u >> 4 & 0xFFF), b = (size_t)(u >> 16 & 0xFFF);
	const u32 *cp = nul ? in.cpz.p : in.cp.p;
	const uint8_t *by = nul ? in.byz.p : in.by.p;
	size_t n = in.cp.n, m = in.by.n;
	size_t so = n ? b % (n + 1) : 0, so8 = m ? b % (m + 1) : 0;
	size_t len = nul ? SIZE_MAX : n - so, len8 = nul ? SIZE_MAX : m - so8;
	*what = 0;
	switch (fn) {
	case 0: {
		u32 v = 7;
		h = mixv(h, grapheme_decode_utf8((const char *)by + so8, len8, none ? NULL : &v));
		if (!none) h = mixv(h, v);
		break;
	}
	case 1: {
		size_t dn = a % 7;
		Buf<uint8_t> d(dn, pat);
		u32 v = so < n ? in.cp.p[so] : (u32)(u * 0x9E3779B1u);
		size_t r = grapheme_encode_utf8(v, none ? NULL : (char *)d.p, dn);
		bool fits = r <= dn && !none;
		h = mix(mixv(h, r), d.p, fits ? r : 0);
		if (r < 1 || r > 4) *what = "length out of range";
		for (size_t i = fits ? r : 0; i < dn; i++) if (d.p[i] != (uint8_t)pat) *what = "wrote outside of its result";
		break;
	}
	case 2: case 3: case 4: case 5: {
		size_t r = lib::next((Seg)(fn - 2), cp + so, len);
		h = mixv(h, r);
		if (r > n - so) *what = "result behind the end";
		break;
	}
	case 6: case 7: case 8: case 9: {
		size_t r = lib::next8((Seg)(fn - 6), (const char *)by + so8, len8);
		h = mixv(h, r);
		if (r > m - so8) *what = "result behind the end";
		break;
	}
	case 10: case 11: case 12: {
		size_t dn = a % (3 * n + 4);
		Buf<u32> d(none ? 0 : dn, pat);
		size_t r = lib::to_case(fn - 10, cp + so, len, none ? NULL : d.p, none ? 0 : dn);
		h = mixv(h, r);
		if (!none && dn) h = mix(h, d.p, (std::min(r, dn - 1) + 1) * 4);
		break;
	}
	case 13: case 14: case 15: {
		size_t dn = a % (6 * m + 4);
		Buf<uint8_t> d(none ? 0 : dn, pat);
		size_t r = lib::to_case8(fn - 13, (const char *)by + so8, len8, none ? NULL : (char *)d.p, none ? 0 : dn);
		h = mixv(h, r);
		if (!none && dn) {
			size_t k = 0;
			while (k < dn && d.p[k]) k++;
			if (k == dn) *what = "output is not terminated";
			h = mix(h, d.p, k);
		}
		break;
	}
	case 16: case 17: case 18: {
		size_t l = 0;
		h = mixv(h, lib::is_case(fn - 16, cp + so, len, none ? NULL : &l));
		h = mixv(h, l);
		if (l > n - so) *what = "length behind the end";
		break;
	}
	case 19: case 20: case 21: {
		size_t l = 0;
		h = mixv(h, lib::is_case8(fn - 19, (const char *)by + so8, len8, none ? NULL : &l));
		h = mixv(h, l);
		if (l > m - so8) *what = "length behind the end";
		break;
	}
	case 22: {
		size_t dn = a % (n + 4);
		Buf<u32> d(none ? 0 : dn, pat);
		Dir r = (Dir)0;
		size_t q = grapheme_bidirectional_preprocess_paragraph(cp + so, len, (Dir)(a % 3), none ? NULL : d.p, none ? 0 : dn, a & 64 ? NULL : &r);
		h = mixv(mixv(h, q), (uint64_t)r);
		if (q > n - so) *what = "paragraph behind the end";
		for (size_t i = q; i < d.n; i++) if (d.p[i] != d.orig[i]) *what = "wrote behind the paragraph";
		if (!none && dn >= q) {
			Buf<int8_t> l(q, pat);
			if (grapheme_bidirectional_get_line_embedding_levels(d.p, q, (int_least8_t *)l.p, q) != q) *what = "wrong number of levels";
			h = mix(h, l.p, q);
		}
		break;
	}
	case 23: case 24: {
		Buf<u32> d(n - so, pat);
		size_t q = grapheme_bidirectional_preprocess_paragraph(in.cp.p + so, n - so, (Dir)(a % 3), d.p, d.n, NULL);
		if (q > n - so) { *what = "paragraph behind the end"; break; }
		/* a line inside of the paragraph */
		size_t s = q ? (a >> 3) % (q + 1) : 0, e = s + (q > s ? (a >> 5) % (q - s + 1) : 0);
		if (a & 4) { s = 0; e = q; }
		Buf<u32> line(in.cp.p + so + s, e - s), data(d.p + s, e - s);
		size_t on = (a * 7 + b) % (e - s + 4);
		if (a & 2) on = e - s;
		if (fn == 23) {
			Buf<int8_t> l(none ? 0 : on, pat);
			size_t r = grapheme_bidirectional_get_line_embedding_levels(data.p, e - s, none ? NULL : (int_least8_t *)l.p, l.n);
			h = mix(mixv(h, r), l.p, std::min(r, l.n));
			if (r != e - s) *what = "wrong number of levels";
			for (size_t i = e - s; i < l.n; i++) if (l.p[i] != l.orig[i]) *what = "wrote behind the levels";
		} else {
			Buf<u32> o(none ? 0 : on, pat);
			size_t r = grapheme_bidirectional_reorder_line(line.p, data.p, e - s, none ? NULL : o.p, o.n);
			h = mixv(h, r);
			bool valid = true;
			for (size_t i = 0; i < line.n; i++) if (line.p[i] > 0x10FFFF) valid = false;
			if (valid) h = mix(h, o.p, (r <= o.n ? r : o.n) * 4);
			if (r > e - s) *what = "more visible than there are";
			for (size_t i = r; r <= o.n && i < o.n; i++) if (o.p[i] != o.orig[i]) *what = "wrote behind the line";
		}
		if (!line.intact() || !data.intact()) *what = "wrote to its input";
		break;
	}
	default: {
		uint_least16_t st = 0;
		for (size_t i = so; i + 1 < n; i++) h = mixv(h, grapheme_is_character_break(in.cp.p[i], in.cp.p[i + 1], none ? NULL : &st));
	}
	}
	return h;
}
bool has_nul(const Case &c)
{
	return std::find(c.cp.begin(), c.cp.end(), 0u) != c.cp.end() || std::find(c.by.begin(), c.by.end(), 0) != c.by.end();
}
int64_t gen_op(Src &s)
{
	int fn = (int)s.below(NFN);
	if (s.chance(1, 6)) fn = 22 + (int)s.below(3);
	if (s.chance(1, 8)) fn = 10 + (int)s.below(6);
	uint64_t u = s.below(2) | s.below(8) << 1 | (s.chance(1, 4) ? s.below(8) : s.below(4096)) << 4 | (s.chance(1, 2) ? 0 : s.below(4096)) << 16;
	return (int64_t)(u * NFN + (uint64_t)fn);
}
/* --- C03: params: calls */
void c03_gen(Src &s, Case &c)
{
	gen::Theme t = (gen::Theme)s.below(7);
	if (s.chance(1, 3)) gen::bidi_text(s, c.cp, 40);
	else gen::text(s, t, c.cp, 24);
	for (size_t k = s.chance(1, 3) ? s.below(4) : 0; k-- && !c.cp.empty();) c.cp[s.below(c.cp.size())] = gen::any_cp(s);
	gen::bytes(s, t, c.by, 5, 20);
	for (size_t k = 4 + s.below(12); k--;) c.p.push_back(gen_op(s));
}
void c03_check(const Case &c, Ctx &x)
{
	In in(c);
	for (size_t i = 0; i < c.p.size(); i++) {
		const char *what;
		call(in, c.p[i] < 0 ? 0 : c.p[i], &what);
		x.evals++;
		const char *f = FN[(uint64_t)std::max<int64_t>(c.p[i], 0) % NFN];
		x.label(f);
		if (what) x.fail("call %zu (%s, argument code %lld): %s; code points %s; bytes %s", i, f, (long long)c.p[i], what, hex(c.cp).c_str(), hexb(c.by.data(), c.by.size()).c_str());
		if (!in.intact()) x.fail("call %zu (%s, argument code %lld) wrote to its input", i, f, (long long)c.p[i]);
	}
	if (has_nul(c)) x.label("holds NUL");
	x.nt(c.cp.size() > 1 && c.by.size() > 1 && c.p.size() > 1);
}
const Prop P03 = {"C03", "random: 4-15 calls of any of the 26 functions on shared exact-size heap blocks holding code points (partly out of range) and partly malformed UTF-8, with lengths or NUL termination, start offsets, destination sizes from 0 up and absent outputs, under AddressSanitizer and UndefinedBehaviorSanitizer; non-trivial: two or more calls on inputs of two or more elements",
	c03_gen, c03_check, 0, 0, 0};

/* --- C21: params: calls; executed in order, in reverse, each one twice, and by
 * several threads at once over the same inputs */
void c21_gen(Src &s, Case &c)
{
	c03_gen(s, c);
	for (size_t k = s.below(10); k--;) c.p.push_back(gen_op(s));
}
void c21_check(const Case &c, Ctx &x)
{
	In in(c);
	size_t n = c.p.size();
	std::vector<uint64_t> first(n);
	const char *w;
	auto op = [&](size_t i) { return c.p[i] < 0 ? 0 : c.p[i]; };
	for (size_t i = 0; i < n; i++) { first[i] = call(in, op(i), &w); x.evals++; }
	for (size_t i = n; i-- > 0;) {
		x.evals += 2;
		if (call(in, op(i), &w) != first[i]) x.fail("call %zu (%s, argument code %lld) gives another result after other calls", i, FN[(uint64_t)op(i) % NFN], (long long)op(i));
		if (call(in, op(i), &w, 0) != first[i] || call(in, op(i), &w, 0xFF) != first[i]) x.fail("call %zu (%s, argument code %lld) gives another result when repeated over other output contents", i, FN[(uint64_t)op(i) % NFN], (long long)op(i));
	}
	/* on equal inputs elsewhere in memory */
	{
		In other(c);
		for (size_t i = 0; i < n; i++)
			if (call(other, op((i * 5 + 3) % n), &w) != first[(i * 5 + 3) % n]) x.fail("call %zu gives another result on a copy of its input", (i * 5 + 3) % n);
	}
	const size_t T = 3;
	std::vector<size_t> bad(T, n);
	std::vector<std::thread> th;
	for (size_t t = 0; t < T; t++)
		th.push_back(std::thread([&, t] {
			for (size_t r = 0; r < 2; r++)
				for (size_t i = 0; i < n; i++) {
					size_t j = (i + t * 3) % n;
					const char *q;
					if (call(in, op(j), &q) != first[j]) bad[t] = j;
				}
		}));
	for (auto &t : th) t.join();
	x.evals += T * 2 * n;
	for (size_t t = 0; t < T; t++)
		if (bad[t] < n) x.fail("call %zu (%s, argument code %lld) gives another result when threads run it at the same time", bad[t], FN[(uint64_t)op(bad[t]) % NFN], (long long)op(bad[t]));
	if (!in.intact()) x.fail("the shared input was written to");
	x.nt(n > 2 && c.cp.size() > 1 && c.by.size() > 1);
}
const Prop P21 = {"C21", "random: histories of 4-24 calls of any functions on shared inputs, replayed in reverse, twice each, on copies of the inputs and by three threads at once (also under ThreadSanitizer), every result digest compared with the first run; non-trivial: at least three calls on inputs of two or more elements",
	c21_gen, c21_check, 0, 0, 0};

/* --- C22: sweep only, every code point in contexts that tell all classes apart */
struct Ctxt { int l, l2, r, r2; }; /* atoms before and behind, -1 none */
struct Probe {
	size_t quick; /* the first so many for the quick tier */
	std::vector<Ctxt> ctx;
	std::vector<std::vector<uint8_t> > want; /* [atom][context]: bit i = break before element i */
};
Probe probes[4];
const gen::Theme TH[4] = {gen::GCB, gen::WB, gen::SB, gen::LB};
size_t fill(int k, const Ctxt &c, uint32_t v, uint32_t *t)
{
	size_t n = 0;
	if (c.l2 >= 0) t[n++] = gen::atom_cps(TH[k], c.l2)[0];
	if (c.l >= 0) t[n++] = gen::atom_cps(TH[k], c.l)[0];
	t[n++] = v;
	if (c.r >= 0) t[n++] = gen::atom_cps(TH[k], c.r)[0];
	if (c.r2 >= 0) t[n++] = gen::atom_cps(TH[k], c.r2)[0];
	return n;
}
uint8_t sig_ref(int k, const Ctxt &c, uint32_t v)
{
	uint32_t t[5];
	size_t n = fill(k, c, v, t);
	Bounds b = segment((Seg)k, CPs(t, t + n));
	uint8_t r = 0;
	for (size_t i = 1; i < n; i++) r |= (uint8_t)(b[i] << i);
	return r;
}
uint8_t sig_lib(int k, const Ctxt &c, uint32_t v)
{
	u32 t[5];
	size_t n = fill(k, c, v, (uint32_t *)t);
	uint8_t r = 0;
	for (size_t i = 0; i < n;) {
		size_t q = lib::next((Seg)k, t + i, n - i);
		if (q == 0 || q > n - i) return 0xFF;
		i += q;
		if (i < n) r |= (uint8_t)(1 << i);
	}
	return r;
}
void make_probes()
{
	static bool done = false;
	if (done) return;
	done = true;
	for (int k = 0; k < 4; k++) {
		int a = gen::natoms(TH[k]);
		std::vector<Ctxt> cand;
		for (int l = -1; l < a; l++)
			for (int r = -1; r < a; r++) cand.push_back(Ctxt{l, -1, r, -1});
		if (TH[k] == gen::SB || TH[k] == gen::LB)
			for (int l = 0; l < a; l++)
				for (int l2 = 0; l2 < a; l2++) cand.push_back(Ctxt{l, l2, l2, -1});
		std::vector<std::vector<uint8_t> > sig(cand.size(), std::vector<uint8_t>((size_t)a));
		for (size_t i = 0; i < cand.size(); i++)
			for (int v = 0; v < a; v++) sig[i][(size_t)v] = sig_ref(k, cand[i], gen::atom_cps(TH[k], v)[0]);
		/* greedy: contexts until no further pair of atoms is told apart, each
		 * pair in up to 2 contexts; then up to 6 for the thorough tier */
		std::vector<int> need((size_t)(a * a), 2);
		Probe &p = probes[k];
		std::vector<char> used(cand.size(), 0);
		for (int phase = 0; phase < 2; phase++) {
			for (;;) {
				size_t best = 0;
				int bestv = 0;
				for (size_t i = 0; i < cand.size(); i++) {
					if (used[i]) continue;
					int v = 0;
					for (int s = 0; s < a; s++)
						for (int t = s + 1; t < a; t++)
							if (need[(size_t)(s * a + t)] > 0 && sig[i][(size_t)s] != sig[i][(size_t)t]) v++;
					if (v > bestv) { bestv = v; best = i; }
				}
				if (!bestv) break;
				used[best] = 1;
				p.ctx.push_back(cand[best]);
				for (int s = 0; s < a; s++)
					for (int t = s + 1; t < a; t++)
						if (sig[best][(size_t)s] != sig[best][(size_t)t]) need[(size_t)(s * a + t)]--;
			}
			if (phase == 0) p.quick = p.ctx.size();
			for (auto &v : need) v += 4;
		}
		p.want.assign((size_t)a, std::vector<uint8_t>());
		for (int v = 0; v < a; v++)
			for (auto &c : p.ctx) p.want[(size_t)v].push_back(sig_ref(k, c, gen::atom_cps(TH[k], v)[0]));
	}
}
/* bidi: the class (and bracket) shows in the levels of these contexts */
struct BProbe { std::vector<std::vector<uint32_t> > ctx; /* 0xFFFFFFFF = v */ };
BProbe bprobe;
std::vector<std::vector<std::vector<int8_t> > > bwant; /* [atom][context] */
const uint32_t V = 0xFFFFFFFF;
std::vector<int8_t> run(const CPs &c, uint32_t v)
{
	CPs t = c;
	for (auto &q : t) if (q == V) q = v;
	Bidi b = bidi(t, 2);
	std::vector<int8_t> l = line_levels(b, 0, b.len);
	b = bidi(t, 1);
	std::vector<int8_t> m = line_levels(b, 0, b.len);
	l.insert(l.end(), m.begin(), m.end());
	return l;
}
void make_bprobes()
{
	if (!bprobe.ctx.empty()) return;
	static const uint32_t E[] = {'a', 0x5D0, 0x627, '1', 0x661, '+', '$', ',', 0x300, ' ', '(', ')', 0x2067, 0x2069, 0x202B, 0x202C, '!', '\t'};
	std::vector<CPs> cand;
	cand.push_back(CPs{V});
	for (uint32_t l : E) {
		cand.push_back(CPs{l, V});
		cand.push_back(CPs{V, l});
		for (uint32_t r : E) {
			cand.push_back(CPs{l, V, r});
			cand.push_back(CPs{V, l, r, 0x5D0});
			cand.push_back(CPs{0x5D0, l, r, V, 'b'});
			cand.push_back(CPs{l, r, V, 0x5D0, ' '});
		}
	}
	int a = gen::natoms(gen::BC);
	std::vector<std::vector<std::vector<int8_t> > > sig(cand.size());
	for (size_t i = 0; i < cand.size(); i++)
		for (int v = 0; v < a; v++) sig[i].push_back(run(cand[i], gen::atom_cps(gen::BC, v)[0]));
	std::vector<int> need((size_t)(a * a), 2);
	std::vector<char> used(cand.size(), 0);
	std::vector<size_t> pick;
	for (;;) {
		size_t best = 0;
		int bestv = 0;
		for (size_t i = 0; i < cand.size(); i++) {
			if (used[i]) continue;
			int v = 0;
			for (int s = 0; s < a; s++)
				for (int t = s + 1; t < a; t++)
					if (need[(size_t)(s * a + t)] > 0 && sig[i][(size_t)s] != sig[i][(size_t)t]) v++;
			if (v > bestv) { bestv = v; best = i; }
		}
		if (!bestv) break;
		used[best] = 1;
		pick.push_back(best);
		for (int s = 0; s < a; s++)
			for (int t = s + 1; t < a; t++)
				if (sig[best][(size_t)s] != sig[best][(size_t)t]) need[(size_t)(s * a + t)]--;
	}
	bwant.assign((size_t)a, std::vector<std::vector<int8_t> >());
	for (size_t i : pick) {
		bprobe.ctx.push_back(cand[i]);
		for (int v = 0; v < a; v++) bwant[(size_t)v].push_back(sig[i][(size_t)v]);
	}
}
bool thorough22 = false;
uint64_t c22_sweepn(bool thorough) { thorough22 = thorough; return 0x1110; }
/* cp[0]: the code point; everything about it */
void c22_one(uint32_t v, Ctx &x, bool deep)
{
	for (int k = 0; k < 4; k++) {
		const Probe &p = probes[k];
		uint32_t key = v;
		if (v > 0x10FFFF || (v >= 0xD800 && v < 0xE000)) key = 0; /* below */
		const std::vector<uint8_t> *w = key || v == 0 ? &p.want[(size_t)gen::atom(TH[k], v)] : 0;
		size_t nctx = deep ? p.ctx.size() : p.quick;
		for (size_t i = 0; i < nctx; i++) {
			uint8_t want = w ? (*w)[i] : sig_ref(k, p.ctx[i], v), got = sig_lib(k, p.ctx[i], v);
			if (got != want) {
				u32 t[5];
				size_t n = fill(k, p.ctx[i], v, (uint32_t *)t);
				x.fail("%s breaks around %04X in %s: before elements (bit mask) %02X, specification %02X", lib::SEGNAME[k], v, hex(CPs(t, t + n)).c_str(), got, want);
			}
		}
		x.evals += nctx;
	}
	for (int k = 0; k < 3; k++) {
		uint32_t w[3];
		u32 in = v, out[5];
		int n = ucd::fullmap((ucd::CaseKind)k, v, w);
		/* alone, no context rule applies; only cased characters are titled */
		if (k == ucd::TITLE && !ucd::cased(v)) { w[0] = v; n = 1; }
		size_t r = lib::to_case(k, &in, 1, out, 5);
		x.evals++;
		if (r != (size_t)n || memcmp(w, out, r * 4)) x.fail("to_%scase of %04X is %s, expected %s", lib::CASENAME[k], v, hex(CPs(out, out + std::min<size_t>(r, 4))).c_str(), hex(CPs(w, w + n)).c_str());
	}
	if (v <= 0x10FFFF) {
		int at = gen::atom(gen::BC, v);
		uint32_t id;
		if (ucd::bracket(v, &id)) {
			/* pairs with what it should, and only with that */
			for (uint32_t o : ucd::bracket_cps) {
				uint32_t oid;
				int kv = ucd::bracket(v, &id), ko = ucd::bracket(o, &oid);
				if (kv == ko) continue;
				CPs t = kv == 1 ? CPs{'a', v, 0x5D0, 'b', o, 0x5D0} : CPs{'a', o, 0x5D0, 'b', v, 0x5D0};
				u32 d[6];
				int_least8_t l[6];
				Bidi b = bidi(t, 2);
				std::vector<int8_t> want = line_levels(b, 0, b.len);
				size_t r = grapheme_bidirectional_preprocess_paragraph((const u32 *)t.data(), 6, GRAPHEME_BIDIRECTIONAL_DIRECTION_RTL, d, 6, NULL);
				if (r > 6) x.fail("paragraph of %s", hex(t).c_str());
				grapheme_bidirectional_get_line_embedding_levels(d, r, l, 6);
				x.evals++;
				if (r != want.size() || memcmp(l, want.data(), r)) x.fail("brackets %04X and %04X: they should%s pair", v, o, id == oid ? "" : " not");
			}
		}
		for (size_t i = 0; i < bprobe.ctx.size(); i++) {
			CPs t = bprobe.ctx[i];
			for (auto &q : t) if (q == V) q = v;
			/* a bracket also has an identity, which the table per class lacks */
			const std::vector<int8_t> w = ucd::bracket(v, &id) ? run(bprobe.ctx[i], v) : bwant[(size_t)at][i];
			u32 d[8];
			int_least8_t l[16];
			size_t n = 0;
			for (int dir = 2; dir >= 1; dir--) {
				size_t r = grapheme_bidirectional_preprocess_paragraph((const u32 *)t.data(), t.size(), (Dir)dir, d, 8, NULL);
				if (r > t.size()) x.fail("paragraph of %s", hex(t).c_str());
				grapheme_bidirectional_get_line_embedding_levels(d, r, l + n, 8);
				n += r;
			}
			x.evals++;
			if (n != w.size() || memcmp(l, w.data(), n)) x.fail("embedding levels of %s (with %04X) do not fit its bidirectional class", hex(t).c_str(), v);
		}
	}
}
extern const Prop P22;
void c22_check(const Case &c, Ctx &x)
{
	make_probes();
	make_bprobes();
	for (auto v : c.cp) c22_one(v, x, true);
	x.nt(!c.cp.empty());
}
void c22_sweep(uint64_t idx, Ctx &x)
{
	make_probes();
	make_bprobes();
	for (uint32_t i = 0; i < 256; i++) {
		uint32_t v = (uint32_t)idx << 8 | i;
		if (idx >= 0x1100) v = (uint32_t)(idx - 0x1100) << 24 | 0x110000 | i << (i & 15);
		x.cur->cp.assign(1, v);
		int sw = x.cur->sweep;
		x.cur->sweep = 0;
		c22_one(v, x, thorough22);
		x.cur->sweep = sw;
	}
	x.cur->cp.clear();
	x.nt();
	x.label("blocks of 256 code points");
}
const Prop P22 = {"C22", "sweep: every code point 0..10FFFF and 4096 values above, 256 per case: segmentation in a set of neighbourhoods chosen so that any two classes differ in at least two of them, all three case mappings, embedding levels in a set of neighbourhoods that tells all bidirectional classes apart, every bracket against every other; every case counts as non-trivial",
	0, c22_check, c22_sweepn, c22_sweep, 0};
}
const Prop *const PROPS_MISC[] = {&P03, &P21, &P22, 0};
void one_code_point(uint32_t v, Ctx &x)
{
	make_probes();
	make_bprobes();
	c22_one(v, x, false);
}
