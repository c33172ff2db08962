/* C23 the cost of a call: work linear in its input, a small fixed stack, no
 * allocation.  Only in the flavour `count`, whose library counts its basic
 * block transitions, which makes the measure exact and repeatable. */
#include <sys/mman.h>
#include <ucontext.h>
#include <algorithm>
#include <cstring>
#include "cost.h"
#include "gen.h"
#include "lib.h"
#include "props.h"
using namespace ref;
using lib::u32;
typedef enum grapheme_bidirectional_direction Dir;
namespace {
/* --- the calls ---------------------------------------------------------- */
struct Text {
	std::vector<u32> cp, out;  /* NUL behind the end */
	std::vector<char> by, out8;
	std::vector<u32> data;
	std::vector<int8_t> lv;
	size_t n, m, plen;
};
const char *const OP[] = {
	"next_character_break over the text", "next_word_break over the text", "next_sentence_break over the text", "next_line_break over the text",
	"next_character_break over the text, NUL-terminated", "next_word_break over the text, NUL-terminated", "next_sentence_break over the text, NUL-terminated", "next_line_break over the text, NUL-terminated",
	"next_character_break_utf8 over the text", "next_word_break_utf8 over the text", "next_sentence_break_utf8 over the text", "next_line_break_utf8 over the text",
	"next_character_break_utf8 over the text, NUL-terminated", "next_word_break_utf8 over the text, NUL-terminated", "next_sentence_break_utf8 over the text, NUL-terminated", "next_line_break_utf8 over the text, NUL-terminated",
	"to_lowercase", "to_titlecase", "to_uppercase", "to_lowercase into nothing", "to_titlecase into nothing", "to_uppercase into nothing",
	"to_lowercase_utf8", "to_titlecase_utf8", "to_uppercase_utf8", "to_lowercase_utf8 into a few bytes", "to_titlecase_utf8 into a few bytes", "to_uppercase_utf8 into a few bytes",
	"is_lowercase", "is_titlecase", "is_uppercase", "is_lowercase_utf8", "is_titlecase_utf8", "is_uppercase_utf8",
	"is_lowercase of the converted text", "is_titlecase of the converted text", "is_uppercase of the converted text",
	"preprocess_paragraph", "get_line_embedding_levels", "reorder_line",
	"is_character_break over the text", "decode_utf8 over the text", "encode_utf8 over the text",
};
const int NOP = (int)(sizeof OP / sizeof *OP);
/* group: which calls a case measures */
const int GROUP[4][2] = {{0, 8}, {8, 16}, {16, 37}, {37, 43}};
volatile size_t sink;
void op(int o, Text &t, int dir)
{
	size_t n = t.n, m = t.m, off = 0, r;
	switch (o) {
	case 0: case 1: case 2: case 3: while (off < n && (r = lib::next((Seg)o, t.cp.data() + off, n - off))) off += r; break;
	case 4: case 5: case 6: case 7: while (t.cp[off] && (r = lib::next((Seg)(o - 4), t.cp.data() + off, SIZE_MAX))) off += r; break;
	case 8: case 9: case 10: case 11: while (off < m && (r = lib::next8((Seg)(o - 8), t.by.data() + off, m - off))) off += r; break;
	case 12: case 13: case 14: case 15: while (t.by[off] && (r = lib::next8((Seg)(o - 12), t.by.data() + off, SIZE_MAX))) off += r; break;
	case 16: case 17: case 18: sink = lib::to_case(o - 16, t.cp.data(), n, t.out.data(), t.out.size()); break;
	case 19: case 20: case 21: sink = lib::to_case(o - 19, t.cp.data(), SIZE_MAX, NULL, 0); break;
	case 22: case 23: case 24: sink = lib::to_case8(o - 22, t.by.data(), m, t.out8.data(), t.out8.size()); break;
	case 25: case 26: case 27: sink = lib::to_case8(o - 25, t.by.data(), SIZE_MAX, t.out8.data(), 7); break;
	case 28: case 29: case 30: sink = lib::is_case(o - 28, t.cp.data(), n, &r); break;
	case 31: case 32: case 33: sink = lib::is_case8(o - 31, t.by.data(), m, &r); break;
	case 34: case 35: case 36: /* out holds the conversion, see measure() */
		sink = lib::is_case(o - 34, t.out.data(), std::min(t.plen, t.out.size()), &r);
		break;
	case 37: t.plen = grapheme_bidirectional_preprocess_paragraph(t.cp.data(), n, (Dir)dir, t.data.data(), n, NULL); break;
	case 38: sink = grapheme_bidirectional_get_line_embedding_levels(t.data.data(), t.plen, (int_least8_t *)t.lv.data(), t.plen); break;
	case 39: sink = grapheme_bidirectional_reorder_line(t.cp.data(), t.data.data(), t.plen, t.out.data(), t.out.size()); break;
	case 40: {
		uint_least16_t st = 0;
		for (size_t i = 0; i + 1 < n; i++) sink = grapheme_is_character_break(t.cp[i], t.cp[i + 1], &st);
		break;
	}
	case 41: {
		u32 c;
		while (off < m && (r = grapheme_decode_utf8(t.by.data() + off, m - off, &c)) && r <= m - off) off += r;
		break;
	}
	default: {
		char b[4];
		for (size_t i = 0; i < n; i++) sink = grapheme_encode_utf8(t.cp[i], b, 4);
	}
	}
}
/* --- on a painted stack of its own -------------------------------------- */
const size_t STACK = 1 << 20;
uint8_t *stk;
ucontext_t back, there;
struct { int o; Text *t; int dir; } job;
void trampoline() { op(job.o, *job.t, job.dir); }
struct Cost { uint64_t work, allocs; size_t stack; };
Cost measure(int o, Text &t, int dir)
{
	if (!stk) {
		const size_t guard = 1 << 26; /* below it */
		stk = (uint8_t *)mmap(0, STACK + guard, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if (stk == MAP_FAILED || mprotect(stk + guard, STACK, PROT_READ | PROT_WRITE)) { stk = 0; throw Fail{"no memory for the stack"}; }
		stk += guard;
		memset(stk, 0xA7, STACK);
	}
	if (o >= 34 && o <= 36) t.plen = lib::to_case(o - 34, t.cp.data(), t.n, t.out.data(), t.out.size());
	if (o == 38 || o == 39) op(37, t, dir);
	getcontext(&there);
	there.uc_stack.ss_sp = stk;
	there.uc_stack.ss_size = STACK;
	there.uc_link = &back;
	job.o = o; job.t = &t; job.dir = dir;
	makecontext(&there, trampoline, 0);
	uint64_t w = cost::work, a = cost::allocs;
	swapcontext(&back, &there);
	Cost c = {cost::work - w, cost::allocs - a, 0};
	size_t i = 0;
	while (i < STACK && stk[i] == 0xA7) i++;
	c.stack = STACK - i;
	memset(stk + i, 0xA7, STACK - i);
	return c;
}
/* --- the case: A x k, middle, B x k, tail; params: group, direction, lengths of
 * head, A, middle and B (the rest is the tail), damage of the UTF-8 */
void build(const Case &c, size_t k, Text &t)
{
	CPs x;
	size_t n = c.cp.size(), h = std::min<size_t>((size_t)c.par(2), n), a = std::min<size_t>((size_t)c.par(3), n - h),
	       m = std::min<size_t>((size_t)c.par(4), n - h - a), b = std::min<size_t>((size_t)c.par(5), n - h - a - m);
	auto add = [&](size_t f, size_t l, size_t times) { while (times--) x.insert(x.end(), c.cp.begin() + (long)f, c.cp.begin() + (long)(f + l)); };
	add(0, h, 1); add(h, a, k); add(h + a, m, 1); add(h + a + m, b, k); add(h + a + m + b, n - h - a - m - b, 1);
	for (auto &v : x) if (!v) v = 'a';
	t.n = x.size();
	t.cp.assign(x.begin(), x.end());
	t.cp.push_back(0);
	gen::scalar(x);
	Bytes y = encode_all(x);
	if (c.par(6) & 1) /* take bytes away at a fixed distance */
		for (size_t i = 0, j = 0; i < y.size(); i++) { if (i % 5 != 3 || y[i] < 0x80) y[j++] = y[i]; if (i + 1 == y.size()) { y.resize(j); break; } }
	t.m = y.size();
	t.by.assign(y.begin(), y.end());
	t.by.push_back(0);
	t.out.assign(t.n * 3 + 8, 0);
	t.out8.assign(t.m * 4 + 8, 0);
	t.data.assign(t.n + 1, 0);
	t.lv.assign(t.n + 1, 0);
	t.plen = 0;
}
void c23_gen(Src &s, Case &c)
{
	static const gen::Theme TG[4] = {gen::ANY, gen::ANY, gen::CASE, gen::BC};
	int g = s.chance(1, 3) ? 3 : (int)s.below(4);
	gen::Theme th = g < 2 ? (gen::Theme)s.below(4) : TG[g];
	auto piece = [&](size_t max) {
		CPs t;
		size_t l = s.below(max + 1);
		for (int i = 0; i < 4 && t.empty() && l; i++) {
			if (s.chance(1, 3)) /* classes of whatever theme */
				for (size_t j = 0; j < l; j++) { gen::Theme o = (gen::Theme)s.below(5); t.push_back(gen::of_atom(s, o, (int)s.below((uint64_t)gen::natoms(o)))); }
			else if (s.chance(1, 3)) { /* a single class, but in other themes different ones */
				gen::Theme o = (gen::Theme)s.below(5);
				int k = (int)s.below((uint64_t)gen::natoms(o));
				for (size_t j = 0; j < l; j++) t.push_back(gen::of_atom(s, o, k));
			}
			else if (g == 3) gen::bidi_text(s, t, 12);
			else gen::text(s, th, t, 12);
			for (auto &v : t) if (g == 3 && ucd::bc(v) == BC_B) v = ' ';
			if (t.size() > l) { size_t f = s.below(t.size() - l + 1); t = CPs(t.begin() + (long)f, t.begin() + (long)(f + l)); }
		}
		c.cp.insert(c.cp.end(), t.begin(), t.end());
		return (int64_t)t.size();
	};
	int64_t h = piece(5), a = piece(s.chance(1, 2) ? 2 : 6);
	if (!a) { c.cp.push_back(gen::of_atom(s, g == 2 ? gen::WB : th, (int)s.below((uint64_t)gen::natoms(g == 2 ? gen::WB : th)))); a = 1; }
	int64_t m = s.chance(1, 2) ? piece(3) : 0, b = s.chance(1, 3) ? piece(3) : 0;
	piece(3);
	c.p = {g, (int64_t)s.below(3), h, a, m, b, s.chance(1, 4)};
}
const size_t K1 = 400, F = 4;
void c23_check(const Case &c, Ctx &x)
{
	if (!cost::counting) { x.label("not the counting build"); return; }
	int g = (int)((uint64_t)c.par(0) & 3), dir = (int)((uint64_t)c.par(1) % 3);
	if (c.par(3) + c.par(5) <= 0 || c.par(3) < 0 || c.par(2) < 0 || c.par(4) < 0 || c.par(5) < 0) return;
	Text t1, t2;
	build(c, K1, t1);
	build(c, K1 * F, t2);
	if (t1.n < K1 || t2.n > 4000000) return;
	for (int o = GROUP[g][0]; o < GROUP[g][1]; o++) {
		Cost a = measure(o, t1, dir), b = measure(o, t2, dir);
		x.evals += 2;
		const char *why = 0;
		if (b.allocs || a.allocs) why = "memory was allocated";
		else if (b.stack > 65536) why = "more than 64 KiB of stack";
		else if (b.stack > a.stack + 4096) why = "the stack grows with the text";
		else if (b.work > a.work / 2 * 3 * F + 20000) why = "the work grows faster than the text";
		if (why)
			x.fail("%s: %s\n text: (%s) with parts of %lld, %lld (x k), %lld, %lld (x k) and the rest, direction %d\n k = %zu: %zu code points, work %llu, stack %zu, allocations %llu\n k = %zu: %zu code points, work %llu, stack %zu, allocations %llu",
			       OP[o], why, hex(c.cp).c_str(), (long long)c.par(2), (long long)c.par(3), (long long)c.par(4), (long long)c.par(5), dir,
			       K1, t1.n, (unsigned long long)a.work, a.stack, (unsigned long long)a.allocs, K1 * F, t2.n, (unsigned long long)b.work, b.stack, (unsigned long long)b.allocs);
		x.nt(b.work > 3 * a.work);
		if (a.work > 500 * t1.n) x.label("over 500 steps per code point");
	}
	x.label(g == 0 ? "segmentation" : g == 1 ? "segmentation, UTF-8" : g == 2 ? "case" : "bidi, stateful query, UTF-8");
}
/* every class of every theme as repeated unit, thorough: every pair of classes */
const int NTHEME = 5; /* the others have no classes of their own */
int nunits()
{
	int n = 0;
	for (int t = 0; t < NTHEME; t++) n += gen::natoms((gen::Theme)t);
	return n;
}
uint32_t unit(Src &s, int i)
{
	int t = 0;
	for (; i >= gen::natoms((gen::Theme)t); t++) i -= gen::natoms((gen::Theme)t);
	uint32_t c = gen::of_atom(s, (gen::Theme)t, i);
	return c ? c : 'a';
}
extern const Prop P23;
uint64_t c23_sweepn(bool thorough)
{
	uint64_t n = (uint64_t)nunits();
	return n * (thorough ? n + 1 : 1);
}
void c23_sweep(uint64_t idx, Ctx &x)
{
	uint64_t n = (uint64_t)nunits();
	RandSrc r(idx * 31 + 7);
	Case c;
	uint32_t u = unit(r, (int)(idx % n)), v = idx / n ? unit(r, (int)(idx / n - 1)) : 0;
	/* heads and tails that make rules look far */
	static const CPs HEAD[6] = {{0x1F468}, {'a', '\''}, {'a', '.'}, {0x5D0, '('}, {'$', '('}, {0x3A3}}, TAIL[6] = {{0x200D, 0x1F468}, {'b'}, {'b'}, {')', '%'}, {'1'}, {0x5D0}};
	for (int g = 0; g < 4; g++)
		for (int form = 0; form < 3; form++) {
			size_t h = (size_t)r.below(6);
			c.clear();
			if (form) c.cp = HEAD[h];
			size_t hl = c.cp.size();
			c.cp.push_back(u);
			if (v) c.cp.push_back(v);
			if (form == 1) c.cp.insert(c.cp.end(), TAIL[h].begin(), TAIL[h].end());
			c.p = {g, (int64_t)(idx + (uint64_t)form) % 3, (int64_t)hl, v ? 2 : 1, 0, 0, 0};
			sub_case(P23, c, x);
		}
	x.label("sweep units");
	x.nt();
}
const Prop P23 = {"C23", "sweep: every class of every algorithm repeated (thorough: every pair of classes), alone and between characters that make rules look far; random: head, a unit of up to 6 code points repeated 400 and 1600 times, middle, a second repeated unit, tail; for every function (segmentation of the whole text, conversions, detection, bidi) the number of executed basic block transitions of the library, its stack high-water mark and its allocations are compared between both lengths; non-trivial: the work grew at least threefold",
	c23_gen, c23_check, c23_sweepn, c23_sweep, 0};
}
const Prop *const PROPS_COST[] = {&P23, 0};
