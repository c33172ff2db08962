/* C26: runs generated cases on the library this is linked with and returns a
 * digest of everything observable, so that builds can be compared.  Also made
 * without a C library (32 bit): everything it needs is here.  Fixed-width
 * types only, so that the cases are the same in every build. */
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include "grapheme.h"
#include "alphabet.inc"

typedef uint8_t u8;
typedef uint32_t u32;
typedef uint64_t u64;

#ifdef BARE
static long sys(long n, long a, long b, long c)
{
	long r;
	__asm__ volatile("int $0x80" : "=a"(r) : "a"(n), "b"(a), "c"(b), "d"(c) : "memory");
	return r;
}
static long rd(void *p, size_t n) { return sys(3, 0, (long)p, (long)n); }
static long wr(const void *p, size_t n) { return sys(4, 1, (long)p, (long)n); }
void *memcpy(void *d, const void *s, size_t n) { char *a = d; const char *b = s; while (n--) { *a++ = *b++; __asm__ volatile("" ::: "memory"); } return d; }
void *memmove(void *d, const void *s, size_t n)
{
	char *a = d; const char *b = s;
	if (a < b) return memcpy(d, s, n);
	while (n--) { a[n] = b[n]; __asm__ volatile("" ::: "memory"); }
	return d;
}
void *memset(void *d, int c, size_t n) { char *a = d; while (n--) { *a++ = (char)c; __asm__ volatile("" ::: "memory"); } return d; }
int memcmp(const void *d, const void *s, size_t n) { const u8 *a = d, *b = s; for (; n; n--, a++, b++) if (*a != *b) return *a - *b; return 0; }
size_t strlen(const char *s) { size_t n = 0; while (s[n]) { n++; __asm__ volatile("" ::: "memory"); } return n; }
int strcmp(const char *s, const char *t) { while (*s && *s == *t) s++, t++; return (u8)*s - (u8)*t; }
#else
#include <string.h>
#include <unistd.h>
static long rd(void *p, size_t n) { return read(0, p, n); }
static long wr(const void *p, size_t n) { return write(1, p, n); }
#endif

enum { MAXN = 600 };
struct rec { u32 bytes, dir, destlen, sub, n; uint_least32_t cp[MAXN]; u8 b[4 * MAXN]; };
static struct rec rec;

/* --- generator */
static u64 s0;
static u32 rnd(u32 n)
{
	s0 ^= s0 >> 12; s0 ^= s0 << 25; s0 ^= s0 >> 27;
	return (u32)((s0 * UINT64_C(2685821657736338717)) >> 33) % n;
}
static u32 enc(u32 c, u8 *p)
{
	if (c < 0x80) { p[0] = (u8)c; return 1; }
	if (c < 0x800) { p[0] = (u8)(0xC0 | c >> 6); p[1] = (u8)(0x80 | (c & 63)); return 2; }
	if (c < 0x10000) { p[0] = (u8)(0xE0 | c >> 12); p[1] = (u8)(0x80 | (c >> 6 & 63)); p[2] = (u8)(0x80 | (c & 63)); return 3; }
	p[0] = (u8)(0xF0 | (c >> 18 & 7)); p[1] = (u8)(0x80 | (c >> 12 & 63)); p[2] = (u8)(0x80 | (c >> 6 & 63)); p[3] = (u8)(0x80 | (c & 63));
	return 4;
}
static void generate(u32 seed, u32 i)
{
	u32 few[8], nfew, k, mode, len, m;
	s0 = (u64)seed * UINT64_C(0x9E3779B97F4A7C15) + (u64)i * UINT64_C(0xD1B54A32D192ED03) + 1;
	for (k = 0; k < 8; k++) rnd(2);
	rec.bytes = rnd(5) < 2;
	mode = rnd(10);
	nfew = 1 + rnd(8);
	for (k = 0; k < nfew; k++) few[k] = alphabet[rnd(NALPHA)];
	len = rnd(40) ? rnd(rnd(4) ? 12 : 48) : rnd(rec.bytes ? MAXN / 2 : MAXN);
	for (k = 0; k < len; k++) {
		u32 c;
		if (mode < 6) c = few[rnd(nfew)];
		else if (mode < 9) c = alphabet[rnd(NALPHA)];
		else c = rnd(4) ? rnd(0x110000) : (rnd(0x10000) << 16 | rnd(0x10000));
		if (!rnd(12)) c = rnd(128);
		rec.cp[k] = c;
	}
	rec.n = len;
	if (rec.bytes) {
		for (k = m = 0; k < len; k++) m += enc(rec.cp[k], rec.b + m);
		if (rnd(2)) {
			for (k = rnd(4); k > 0 && m > 0; k--) {
				u32 at = rnd(m), j;
				switch (rnd(3)) {
				case 0: rec.b[at] = (u8)rnd(256); break;
				case 1: for (j = at; j + 1 < m; j++) rec.b[j] = rec.b[j + 1]; m--; break;
				default: m = at; break;
				}
			}
		}
		rec.n = m;
	}
	rec.dir = rnd(3);
	rec.destlen = rnd(2) ? rnd(2 * rec.n + 4) : 3 * rec.n + 8;
	rec.sub = rnd(0x7FFFFFFF);
}

/* --- everything observable */
static u8 out[1 << 20];
static u32 on;
static void put(u64 v) { for (int k = 0; k < 8 && on < sizeof(out); k++) out[on++] = (u8)(v >> (8 * k)); }
static void mark(char c) { if (on < sizeof(out)) out[on++] = (u8)c; }

static uint_least32_t tmp[4 * MAXN], st[MAXN], nul[MAXN + 1];
static int_least8_t lev[MAXN];
static char ctmp[16 * MAXN], cnul[4 * MAXN + 1];

static void fill(void *p, u32 n) { u8 *q = p; while (n--) *q++ = 0xAA; }

static void run_cp(void)
{
	static size_t (*const next[])(const uint_least32_t *, size_t) = { grapheme_next_character_break, grapheme_next_word_break, grapheme_next_sentence_break, grapheme_next_line_break };
	static size_t (*const to[])(const uint_least32_t *, size_t, uint_least32_t *, size_t) = { grapheme_to_lowercase, grapheme_to_uppercase, grapheme_to_titlecase };
	static bool (*const is[])(const uint_least32_t *, size_t, size_t *) = { grapheme_is_lowercase, grapheme_is_uppercase, grapheme_is_titlecase };
	u32 k, j, dl = rec.destlen < 4 * MAXN ? rec.destlen : 4 * MAXN;
	size_t r, off, l;
	uint_least16_t state = 0;
	bool zero = false;
	for (k = 0; k < rec.n; k++) { nul[k] = rec.cp[k]; zero |= !rec.cp[k]; }
	nul[rec.n] = 0;
	for (j = 0; j < 4; j++) {
		mark("cwsl"[j]);
		for (off = 0; off < rec.n; off += r) {
			put(r = next[j](rec.cp + off, rec.n - off));
			if (r == 0 || r > rec.n - off) break;
		}
		put(next[j](nul, SIZE_MAX));
	}
	mark('b');
	for (k = 0; k + 1 < rec.n; k++) {
		put(grapheme_is_character_break(rec.cp[k], rec.cp[k + 1], &state));
		put(grapheme_is_character_break(rec.cp[k], rec.cp[k + 1], NULL));
	}
	for (j = 0; j < 3; j++) {
		mark("LUT"[j]);
		fill(tmp, sizeof(tmp));
		put(r = to[j](rec.cp, rec.n, tmp, dl));
		for (k = 0; k < dl && k <= r; k++) put(tmp[k]);
		put(to[j](nul, SIZE_MAX, NULL, 0));
		l = 77;
		put(is[j](rec.cp, rec.n, &l)); put(l);
		l = 77;
		put(is[j](nul, SIZE_MAX, &l)); put(l);
	}
	mark('e');
	for (k = 0; k < rec.n; k++) {
		fill(ctmp, 8);
		put(r = grapheme_encode_utf8(rec.cp[k], ctmp, k % 6));
		for (j = 0; j < 5; j++) put((u8)ctmp[j]);
	}
	for (off = 0; off < rec.n; off += r) {
		enum grapheme_bidirectional_direction res = GRAPHEME_BIDIRECTIONAL_DIRECTION_NEUTRAL;
		u32 a, b;
		mark('p');
		fill(st, sizeof(st));
		put(r = grapheme_bidirectional_preprocess_paragraph(rec.cp + off, rec.n - off, (enum grapheme_bidirectional_direction)rec.dir, st, MAXN, &res));
		put((u64)res);
		if (r == 0 || r > rec.n - off) break;
		for (j = 0; j < 2; j++) {
			a = j ? rec.sub % (u32)r : 0;
			b = j ? a + 1 + rec.sub / 7 % ((u32)r - a) : (u32)r;
			fill(lev, sizeof(lev));
			mark('v');
			put(l = grapheme_bidirectional_get_line_embedding_levels(st + a, b - a, lev, j ? rec.destlen % MAXN : MAXN));
			for (k = 0; k < l && k < (j ? rec.destlen % MAXN : MAXN); k++) put((u64)(lev[k] + 256));
			fill(tmp, sizeof(tmp));
			mark('o');
			put(l = grapheme_bidirectional_reorder_line(rec.cp + off + a, st + a, b - a, tmp, MAXN));
			for (k = 0; k < l && k < MAXN; k++) put(tmp[k]);
		}
	}
	(void)zero;
}

static void run_bytes(void)
{
	static size_t (*const next[])(const char *, size_t) = { grapheme_next_character_break_utf8, grapheme_next_word_break_utf8, grapheme_next_sentence_break_utf8, grapheme_next_line_break_utf8 };
	static size_t (*const to[])(const char *, size_t, char *, size_t) = { grapheme_to_lowercase_utf8, grapheme_to_uppercase_utf8, grapheme_to_titlecase_utf8 };
	static bool (*const is[])(const char *, size_t, size_t *) = { grapheme_is_lowercase_utf8, grapheme_is_uppercase_utf8, grapheme_is_titlecase_utf8 };
	const char *s = (const char *)rec.b;
	u32 k, j, dl = rec.destlen < sizeof(ctmp) ? rec.destlen : sizeof(ctmp);
	size_t r, off, l;
	for (k = 0; k < rec.n; k++) cnul[k] = s[k];
	cnul[rec.n] = 0;
	for (j = 0; j < 2; j++) {
		mark("dD"[j]);
		for (off = 0; off < rec.n; off += r) {
			uint_least32_t c = 0xAAAAAAAA;
			put(r = grapheme_decode_utf8((j ? cnul : s) + off, j ? SIZE_MAX : rec.n - off, &c)); put(c);
			if (r == 0 || r > rec.n - off) break;
		}
	}
	for (j = 0; j < 4; j++) {
		mark("cwsl"[j]);
		for (off = 0; off < rec.n; off += r) {
			put(r = next[j](s + off, rec.n - off));
			if (r == 0 || r > rec.n - off) break;
		}
		put(next[j](cnul, SIZE_MAX));
	}
	for (j = 0; j < 3; j++) {
		mark("LUT"[j]);
		fill(ctmp, sizeof(ctmp));
		put(r = to[j](s, rec.n, ctmp, dl));
		for (k = 0; k < dl && k <= r; k++) mark(ctmp[k]);
		put(to[j](cnul, SIZE_MAX, NULL, 0));
		l = 77;
		put(is[j](s, rec.n, &l)); put(l);
		l = 77;
		put(is[j](cnul, SIZE_MAX, &l)); put(l);
	}
}

static u64 fnv(const void *p, size_t n, u64 h)
{
	const u8 *q = p;
	while (n--) h = (h ^ *q++) * UINT64_C(1099511628211);
	return h;
}
static void get(void *p, size_t n)
{
	u8 *q = p;
	while (n > 0) { long r = rd(q, n); if (r <= 0) for (;;) {
#ifdef BARE
		sys(1, 0, 0, 0);
#else
		_exit(0);
#endif
	} q += r; n -= (size_t)r; }
}
static void give(const void *p, size_t n)
{
	const u8 *q = p;
	while (n > 0) { long r = wr(q, n); if (r <= 0) return; q += r; n -= (size_t)r; }
}

static u8 res[17 * 1024];
/* requests, 4 words: 1 seed first count: digests; 2 seed i: the case;
 * 3 0 0 size, case: all that is observable */
static void serve(void)
{
	u32 q[4], k, rn = 0;
	for (;;) {
		get(q, sizeof(q));
		if (q[0] == 1) {
			for (k = 0; k < q[3]; k++) {
				u64 h, t;
				u32 j, u = 0;
				generate(q[1], q[2] + k);
				on = 0;
				if (rec.bytes) run_bytes(); else run_cp();
				h = fnv(out, on, UINT64_C(14695981039346656037));
				t = fnv(&rec, 20, UINT64_C(14695981039346656037));
				t = rec.bytes ? fnv(rec.b, rec.n, t) : fnv(rec.cp, 4 * rec.n, t);
				for (j = 1; j < rec.n; j++) u += rec.bytes ? rec.b[j] >= 0xC0 && rec.b[j] != rec.b[j - 1] : rec.cp[j] >= 0x80 && rec.cp[j] != rec.cp[j - 1];
				for (j = 0; j < 8; j++) { res[rn++] = (u8)(h >> (8 * j)); res[rn++] = (u8)(t >> (8 * j)); }
				res[rn++] = (u8)((u >= 2) | rec.bytes << 1);
				if (rn == sizeof(res)) { give(res, rn); rn = 0; }
			}
			give(res, rn); rn = 0;
		} else if (q[0] == 2) {
			u32 n;
			generate(q[1], q[2]);
			n = 20 + (rec.bytes ? rec.n : 4 * rec.n);
			give(&n, 4); give(&rec, 20);
			if (rec.bytes) give(rec.b, rec.n); else give(rec.cp, 4 * rec.n);
		} else {
			get(&rec, 20);
			if (rec.bytes) get(rec.b, rec.n); else get(rec.cp, 4 * rec.n);
			on = 0;
			if (rec.bytes) run_bytes(); else run_cp();
			give(&on, 4); give(out, on);
		}
	}
}
#ifdef BARE
__attribute__((force_align_arg_pointer)) void _start(void) { serve(); }
#else
int main(void) { serve(); return 0; }
#endif
