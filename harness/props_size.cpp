/* C25 size of the texts: what a function does with head, unit x k, tail goes on
 * for every k as it began, also where offsets pass 2^16, 2^31 and 2^32. */
#include <sys/mman.h>
#include <unistd.h>
#include <algorithm>
#include <cstring>
#include "gen.h"
#include "lib.h"
#include "props.h"
using namespace ref;
using lib::u32;
typedef enum grapheme_bidirectional_direction Dir;
namespace {
enum { NEXT = 0, NEXT8 = 4, CONV = 8, CONV8 = 11, IS = 14, IS8 = 17, PARA = 20, LEVELS = 21, NOP = 22 };
const char *const OP[NOP] = {
	"next_character_break", "next_word_break", "next_sentence_break", "next_line_break",
	"next_character_break_utf8", "next_word_break_utf8", "next_sentence_break_utf8", "next_line_break_utf8",
	"to_lowercase", "to_titlecase", "to_uppercase", "to_lowercase_utf8", "to_titlecase_utf8", "to_uppercase_utf8",
	"is_lowercase", "is_titlecase", "is_uppercase", "is_lowercase_utf8", "is_titlecase_utf8", "is_uppercase_utf8",
	"preprocess_paragraph without a destination", "get_line_embedding_levels",
};
bool utf8(int o) { return (o >= NEXT8 && o < CONV) || (o >= CONV8 && o < IS) || (o >= IS8 && o < PARA); }
const size_t PAGE = 4096, SMALL = 1u << 23, TILE = 1u << 21; /* stays in the cache */

/* --- memory: a range of addresses that shows the same few megabytes again and
 * again, so that texts and destinations of many gigabytes need little memory */
struct Range {
	char *base, *p;
	size_t all;
	Range() : base(0), p(0), all(0) {}
	~Range() { if (base) munmap(base, all); }
	void reserve(size_t n)
	{
		all = (n + PAGE - 1) / PAGE * PAGE + PAGE; /* and one that cannot be touched */
		base = (char *)mmap(0, all, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if (base == MAP_FAILED) { base = 0; throw Fail{"no address space"}; }
	}
	void plain(size_t off, size_t n)
	{
		if (n && mmap(base + off, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0) == MAP_FAILED) throw Fail{"no memory"};
	}
	static int tile(size_t n)
	{
		int fd = memfd_create("tile", MFD_CLOEXEC);
		if (fd < 0 || ftruncate(fd, (off_t)n)) throw Fail{"no memory for a tile"};
		return fd;
	}
	/* head, k units, tail, terminator */
	void text(const Bytes &h, const Bytes &u, size_t k, const Bytes &t)
	{
		static const char term[8] = {0, 0, 0, 0, 'b', 0, 0, 0};
		size_t n = h.size() + u.size() * k + t.size(), one = u.size() * PAGE, tile_n = one * std::max<size_t>(1, (TILE) / one);
		if (n <= SMALL || u.size() * k < tile_n) { /* ends where readable memory ends */
			size_t m = (n + 8 + PAGE - 1) / PAGE * PAGE;
			reserve(m);
			plain(0, m);
			p = base + (m - n - 8);
			char *q = p;
			memcpy(q, h.data(), h.size()); q += h.size();
			for (size_t i = 0; i < k; i++, q += u.size()) memcpy(q, u.data(), u.size());
			memcpy(q, t.data(), t.size());
			memcpy(q + t.size(), term, 8);
			return;
		}
		size_t hp = (h.size() + PAGE - 1) / PAGE * PAGE, tiles = u.size() * k / tile_n, rest = k - tiles * (tile_n / u.size()),
		       tp = (rest * u.size() + t.size() + 8 + PAGE - 1) / PAGE * PAGE;
		reserve(hp + tiles * tile_n + tp);
		plain(0, hp);
		p = base + (hp - h.size());
		memcpy(p, h.data(), h.size());
		int fd = tile(tile_n);
		for (size_t i = 0; i < tiles; i++)
			if (mmap(base + hp + i * tile_n, tile_n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) { close(fd); throw Fail{"no memory"}; }
		close(fd);
		for (size_t i = 0; i < tile_n; i += u.size()) memcpy(base + hp + i, u.data(), u.size());
		char *q = base + hp + tiles * tile_n;
		plain((size_t)(q - base), tp);
		for (size_t i = 0; i < rest; i++, q += u.size()) memcpy(q, u.data(), u.size());
		memcpy(q, t.data(), t.size());
		memcpy(q + t.size(), term, 8);
	}
	/* a destination; only its end is to be looked at */
	void room(size_t n)
	{
		const size_t tile_n = TILE;
		size_t m = (n + PAGE - 1) / PAGE * PAGE, i = m % tile_n;
		reserve(m);
		plain(0, i);
		if (i < m) {
			int fd = tile(tile_n);
			for (; i < m; i += tile_n)
				if (mmap(base + i, tile_n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) { close(fd); throw Fail{"no memory"}; }
			close(fd);
		}
		p = base + (m - n);
	}
};
/* --- one call ----------------------------------------------------------- */
struct Text { Bytes h, u, t; };
struct Res { size_t r, r2; int flag; Bytes last; };
const size_t LAST = 64; /* bytes of the end of the output */
template <class T> Bytes raw(const std::vector<T> &v) { return Bytes((const uint8_t *)v.data(), (const uint8_t *)(v.data() + v.size())); }
Res call(int o, const Text &t, size_t k, bool nul, int64_t less, bool none, int dir, int fill = -1)
{
	size_t es = utf8(o) ? 1 : 4;
	Range src, dst;
	src.text(t.h, t.u, k, t.t);
	size_t n = (t.h.size() + t.u.size() * k + t.t.size()) / es, len = nul ? SIZE_MAX : n;
	const u32 *s = (const u32 *)src.p;
	const char *s8 = src.p;
	Res R = {0, 0, 0, {}};
	auto end = [&](size_t room) { size_t l = std::min(room, LAST); R.last.assign((uint8_t *)dst.p + room - l, (uint8_t *)dst.p + room); };
	if (o < NEXT8) R.r = lib::next((Seg)o, s, len);
	else if (o < CONV) R.r = lib::next8((Seg)(o - NEXT8), s8, len);
	else if (o < IS) {
		auto conv = [&](void *d, size_t m) { return o < CONV8 ? lib::to_case(o - CONV, s, len, (u32 *)d, m) : lib::to_case8(o - CONV8, s8, len, (char *)d, m); };
		if (none) R.r = R.r2 = conv(0, 0);
		else {
			/* the size that the linear law says was found with small k */
			size_t need = (size_t)less;
			dst.room(need * es);
			if (fill >= 0) memset(dst.p, fill, need * es);
			R.r = R.r2 = conv(dst.p, need);
			end(need * es);
		}
	} else if (o < PARA) {
		R.flag = o < IS8 ? lib::is_case(o - IS, s, len, &R.r) : lib::is_case8(o - IS8, s8, len, &R.r);
	} else if (o == PARA) {
		Dir d;
		R.r = grapheme_bidirectional_preprocess_paragraph(s, len, (Dir)dir, 0, 0, &d);
		R.flag = (int)d;
	} else {
		size_t room = n > (size_t)less ? n - (size_t)less : 0;
		dst.room(room);
		if (fill >= 0) memset(dst.p, fill, room);
		R.r = grapheme_bidirectional_get_line_embedding_levels(s, n, (int_least8_t *)dst.p, room);
		end(room);
	}
	return R;
}
/* --- the case: code points are head, unit, tail; params: call, lengths of head
 * and unit, k / 12, flags (1 NUL-terminated, 2 no destination, 4 a byte of the
 * unit's UTF-8 is missing), elements by which the destination differs from the need, direction */
const size_t STEP = 12, K0 = 48; /* of copies: what happens may have a period of its own */
void c25_check(const Case &c, Ctx &x)
{
	int o = (int)((uint64_t)c.par(0) % NOP), dir = (int)((uint64_t)c.par(6) % 3);
	size_t n = c.cp.size(), h = std::min<size_t>((size_t)std::max<int64_t>(0, c.par(1)), n), u = std::min<size_t>((size_t)std::max<int64_t>(0, c.par(2)), n - h),
	       steps = (size_t)std::max<int64_t>(8, c.par(3));
	bool nul = c.par(4) & 1, none = c.par(4) & 2;
	if (!u) return;
	CPs a = c.cp;
	if (utf8(o)) gen::scalar(a);
	for (auto &v : a) if (!v && nul) v = 'a';
	CPs ph(a.begin(), a.begin() + (long)h), pu(a.begin() + (long)h, a.begin() + (long)(h + u)), pt(a.begin() + (long)(h + u), a.end());
	Text t;
	if (utf8(o)) {
		t = {encode_all(ph), encode_all(pu), encode_all(pt)};
		if (c.par(4) & 4 && t.u.size() > 1) t.u.erase(t.u.begin() + (long)(t.u.size() / 2));
	} else if (o == LEVELS) {
		/* its input is made by preprocess_paragraph */
		CPs w = ph;
		for (size_t i = 0; i < K0; i++) w.insert(w.end(), pu.begin(), pu.end());
		w.insert(w.end(), pt.begin(), pt.end());
		std::vector<u32> d(w.size(), 0);
		size_t l = grapheme_bidirectional_preprocess_paragraph(w.data(), w.size(), (Dir)dir, d.data(), d.size(), 0);
		if (l != w.size()) return;
		auto part = [&](size_t f, size_t m) { return raw(std::vector<u32>(d.begin() + (long)f, d.begin() + (long)(f + m))); };
		t = {part(0, h), part(h + u * (K0 / 2), u), part(h + u * K0, n - h - u)};
	} else t = {raw(ph), raw(pu), raw(pt)};
	if (t.u.empty() || t.u.size() > 256) return;
	size_t k = STEP * steps, es = utf8(o) ? 1 : 4, total = (t.h.size() + t.u.size() * k + t.t.size()) / es;
	if (total > ((size_t)1 << 33)) return;
	/* the law: linear in k from K0 on, else the text says nothing */
	auto law = [&](auto f, size_t &base, size_t &slope) {
		size_t v[4];
		for (size_t i = 0; i < 4; i++) v[i] = f(K0 + STEP * i);
		base = v[0]; slope = v[1] - v[0];
		return v[1] >= v[0] && v[2] - v[1] == slope && v[3] - v[2] == slope;
	};
	auto at = [&](size_t base, size_t slope, size_t kk) { return base + slope * ((kk - K0) / STEP); };
	size_t b0 = 0, s0 = 0, b1, s1;
	bool conv = o >= CONV && o < IS;
	if (conv && !law([&](size_t kk) { x.evals++; return call(o, t, kk, nul, 0, true, dir).r; }, b0, s0)) { x.label("no linear law"); return; }
	auto arg = [&](size_t kk) -> int64_t {
		if (o == LEVELS) return c.par(5) % 8;
		int64_t need = (int64_t)at(b0, s0, kk) + c.par(5) % 8 - 4; /* room for the terminator or a little less or more */
		return std::max<int64_t>(0, need);
	};
	Res last = {0, 0, 0, {}};
	bool same = true;
	Bytes mask;
	size_t seen = 0;
	if (!law([&](size_t kk) {
		Res r = call(o, t, kk, nul, arg(kk), none, dir, 0), q = call(o, t, kk, nul, arg(kk), none, dir, 0xEE);
		x.evals += 2;
		/* what is not written to is not looked at */
		mask.assign(r.last.size(), 0xFF);
		for (size_t i = 0; i < r.last.size(); i++) if (r.last[i] != q.last[i]) mask[i] = r.last[i] = 0;
		if (seen++ && (r.flag != last.flag || r.last != last.last)) same = false;
		last = r;
		return r.r;
	}, b1, s1) || !same) { x.label("no linear law"); return; }
	Res r = call(o, t, k, nul, arg(k), none, dir);
	x.evals++;
	for (size_t i = 0; i < r.last.size() && i < mask.size(); i++) r.last[i] &= mask[i];
	size_t want = at(b1, s1, k);
	auto what = [&](const char *m, const std::string &g, const std::string &w) {
		x.fail("%s: %s is %s, the shorter texts say %s\n text: %s, then %zu times %s, then %s: %zu %s%s%s",
		       OP[o], m, g.c_str(), w.c_str(), hex(ph).c_str(), k, hex(pu).c_str(), hex(pt).c_str(), total, utf8(o) ? "bytes" : "code points",
		       nul ? ", NUL-terminated" : "", conv && none ? ", no destination" : "");
	};
	if (r.r != want) what(o >= IS && o < PARA ? "the length" : "the result", std::to_string(r.r), std::to_string(want));
	if (r.flag != last.flag) what(o == PARA ? "the direction" : "the verdict", std::to_string(r.flag), std::to_string(last.flag));
	if (r.last != last.last) what("the end of the output", hexb(r.last.data(), r.last.size()), hexb(last.last.data(), last.last.size()));
	x.nt(s1 > 0);
	if (s1 > 0) x.label(total > 0xFFFFFFFFu ? "over 2^32 units" : total > 65535 ? "over 65535 units" : "smaller");
	else x.label("ends early");
}
bool grows(const Case &c)
{
	int o = (int)c.par(0);
	size_t h = (size_t)c.par(1), u = (size_t)c.par(2);
	auto len = [&](size_t k) {
		CPs w(c.cp.begin(), c.cp.begin() + (long)h);
		for (size_t i = 0; i < k; i++) w.insert(w.end(), c.cp.begin() + (long)h, c.cp.begin() + (long)(h + u));
		w.push_back(0);
		if (o < NEXT8) return lib::next((Seg)o, w.data(), w.size() - 1);
		gen::scalar(w);
		Bytes y = encode_all(w);
		return lib::next8((Seg)(o - NEXT8), (const char *)y.data(), y.size() - 1);
	};
	return len(K0) > len(24);
}
void text(Src &s, int o, Case &c)
{
	gen::Theme th = o < CONV ? (gen::Theme)(o & 3) : o < PARA ? gen::CASE : gen::BC;
	auto piece = [&](size_t l) {
		for (size_t i = 0; i < l; i++) {
			uint32_t v;
			do v = th == gen::CASE ? (s.chance(1, 3) ? gen::of_atom(s, gen::WB, (int)s.below((uint64_t)gen::natoms(gen::WB))) : gen::any_cp(s, false))
			       : gen::of_atom(s, th, (int)s.below((uint64_t)gen::natoms(th)));
			while (v == 0 || (o >= PARA && ucd::bc(v) == BC_B));
			c.cp.push_back(v);
		}
		return (int64_t)l;
	};
	std::vector<int64_t> p = c.p;
	for (int i = 0; i < 60; i++) {
		c.cp.clear();
		c.p = p;
		c.p[1] = piece(s.below(4));
		c.p[2] = piece(s.chance(1, 2) ? 1 : 1 + s.below(5));
		if (o >= CONV || grows(c)) break;
	}
	if (o < CONV && !grows(c)) { /* what never breaks */
		uint32_t v = (o & 3) == 0 ? 0x301 : 'a';
		c.cp = {'a', v};
		c.p[1] = c.p[2] = 1;
	}
	piece(s.below(4));
}
void c25_gen(Src &s, Case &c)
{
	int o = (int)s.below(NOP);
	c.p = {o, 0, 0, 0, (int64_t)s.below(8), (int64_t)s.below(8), (int64_t)s.below(3)};
	text(s, o, c);
	static const size_t SIZE[] = {256, 1024, 4096, 32768, 65536, 65536, 131072};
	size_t want = SIZE[s.below(7)] + s.below(300);
	c.p[3] = (int64_t)(want / (size_t)c.p[2] / STEP + 1);
}
extern const Prop P25;
/* calls on texts of more than 2^32 units; of those that share their code the quick
 * tier takes one, and of UTF-8 one with long sequences, as they take a minute each */
const int QUICK[] = {NEXT, NEXT + 1, NEXT + 2, NEXT + 3, CONV, IS + 2, PARA, LEVELS,
                     CONV8 + 1, NEXT8, NEXT8 + 1, NEXT8 + 2, NEXT8 + 3, IS8 + 2, CONV8 + 2, IS8};
const size_t NQUICK = sizeof QUICK / sizeof *QUICK;
uint64_t c25_sweepn(bool thorough) { return thorough ? NQUICK + NOP * 2 : NQUICK; }
void c25_sweep(uint64_t i, Ctx &x)
{
	RandSrc r(i * 77 + 5);
	int o = i < NQUICK ? QUICK[i] : (int)((i - NQUICK) % NOP);
	Case c;
	for (int tries = 0; tries < 40; tries++) {
		c.clear();
		c.p = {o, 0, 0, 8, (int64_t)r.below(4), (int64_t)r.below(8), (int64_t)r.below(3)};
		if (i < NQUICK && o >= CONV && o < IS) { /* a little too small, large enough */
			c.p[4] &= ~(int64_t)2;
			c.p[5] = o == CONV ? 3 : o == CONV8 + 1 ? 2 : 5;
		}
		text(r, o, c);
		if (i < NQUICK && utf8(o)) { /* by planes: their letters have four bytes */
			static const uint32_t LONG[4] = {0xE0100, 0x10400, 0x10400, 0x10400};
			for (long j = 0; j < c.p[2]; j++) c.cp[(size_t)(c.p[1] + j)] = o < CONV ? LONG[o & 3] + (uint32_t)r.below(16) : 0x10400 + (uint32_t)r.below(80);
		}
		/* it must go on and on */
		Ctx y;
		c25_check(c, y);
		if (y.nontrivial) break;
	}
	Bytes y = encode_all(CPs(c.cp.begin() + c.p[1], c.cp.begin() + c.p[1] + c.p[2]));
	size_t u = utf8(o) ? y.size() : (size_t)c.p[2];
	c.p[3] = (int64_t)((((size_t)1 << 32) + 1000 + r.below(1000)) / u / STEP + 1);
	sub_case(P25, c, x);
}
const Prop P25 = {"C25", "sweep: every call on head, unit x k, tail of more than 2^32 code points or bytes (memory that shows the same megabytes again and again); random: the same with 256 to 131372 units, lengths and NUL-terminated, destinations of about the needed size; for k = 48, 60, 72, 84 the results must lie on a line and the end of the output be equal (else the text is passed over), and the result, verdict and end of the output for the large k must be what that line says; non-trivial: the result grows with k",
	c25_gen, c25_check, c25_sweepn, c25_sweep, 0, 400};
}
const Prop *const PROPS_SIZE[] = {&P25, 0};
