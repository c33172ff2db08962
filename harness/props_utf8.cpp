/* C01 decoding, C02 encoding */
#include <algorithm>
#include <cstring>
#include "gen.h"
#include "lib.h"
#include "props.h"
using namespace ref;
using lib::u32;
namespace {
/* by: the string; params: [0] != 0: also with no place for the code point */
void one(const uint8_t *p, size_t n, Ctx &x, bool cpnull)
{
	u32 cp = 0x12345678;
	size_t r = grapheme_decode_utf8((const char *)p, n, &cp);
	Dec d = decode(p, n);
	x.evals++;
	if (r != d.n || cp != d.cp)
		x.fail("decode_utf8 of %s: returned %zu with %04X, expected %zu with %04X", hexb(p, n).c_str(), r, (unsigned)cp, d.n, d.cp);
	if (cpnull) {
		size_t q = grapheme_decode_utf8((const char *)p, n, NULL);
		if (q != r) x.fail("decode_utf8 of %s without a place for the code point returned %zu, with one %zu", hexb(p, n).c_str(), q, r);
	}
	/* independent of the model */
	if (n && r == 0) x.fail("decode_utf8 of %s made no progress", hexb(p, n).c_str());
	if (cp > 0x10FFFF || (cp >= 0xD800 && cp < 0xE000)) x.fail("decode_utf8 of %s produced %04X", hexb(p, n).c_str(), (unsigned)cp);
	for (size_t i = 1; i < r && i < n; i++)
		if ((p[i] & 0xC0) != 0x80) x.fail("decode_utf8 of %s swallowed the byte %02X", hexb(p, n).c_str(), p[i]);
	if (cp != 0xFFFD && r <= n) {
		uint8_t o[4];
		if ((size_t)encode(cp, o) != r || memcmp(o, p, r)) x.fail("decode_utf8 accepted the non-canonical %s", hexb(p, r).c_str());
	}
}
void c01_gen(Src &s, Case &c) { gen::bytes(s, gen::ANY, c.by, 7, 12); c.p.push_back((int64_t)s.below(2)); }
void c01_check(const Case &c, Ctx &x)
{
	Buf<uint8_t> b(c.by);
	size_t multi = 0, bad = 0;
	u32 cp = 1;
	if (grapheme_decode_utf8(NULL, 0, &cp) != 0 || cp != 0xFFFD) x.fail("decode_utf8 of no string");
	cp = 1;
	if (grapheme_decode_utf8(NULL, b.n + 1, &cp) != 0 || cp != 0xFFFD) x.fail("decode_utf8 of no string with a length");
	cp = 1;
	if (grapheme_decode_utf8((const char *)b.p, 0, &cp) != 0 || cp != 0xFFFD) x.fail("decode_utf8 of an empty string");
	if (grapheme_decode_utf8(NULL, 0, NULL) != 0 || grapheme_decode_utf8((const char *)b.p, 0, NULL) != 0) x.fail("decode_utf8 of nothing into nothing");
	/* every suffix (also unaligned ones), and every prefix of a suffix up to 6 */
	for (size_t i = 0; i < b.n; i++) {
		one(b.p + i, b.n - i, x, c.par(0) != 0);
		for (size_t m = 1; m <= 6 && m < b.n - i; m++) one(b.p + i, m, x, false);
	}
	/* the documented loop covers the string */
	for (size_t i = 0; i < b.n;) {
		size_t r = grapheme_decode_utf8((const char *)b.p + i, b.n - i, &cp);
		if (r > b.n - i) { x.label("truncated tail"); break; }
		if (r > 1) multi++;
		if (cp == 0xFFFD) bad++;
		i += r;
	}
	if (!b.intact()) x.fail("input was written to");
	x.nt(b.n > 1 && (multi || bad));
	if (bad) x.label("malformed");
	if (multi) x.label("multi-byte");
}
uint64_t c01_sweepn(bool) { return 65536; }
extern const Prop P01, P02;
void c01_sweep(uint64_t idx, Ctx &x)
{
	/* all strings that start with these two bytes: 1..3 bytes in full, 4 and 5
	 * with the fourth from a list */
	static const uint8_t F[] = {0x00, 0x41, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xE2, 0xF0, 0xFF};
	uint8_t full[5];
	full[0] = (uint8_t)(idx >> 8);
	full[1] = (uint8_t)idx;
	full[4] = 0x80;
	uint8_t *m = (uint8_t *)malloc(5);
	auto go = [&](size_t n) {
		uint8_t *p = m + 5 - n; /* the end of the string is the end of the block */
		memcpy(p, full, n);
		u32 cp = 0x12345678;
		size_t r = grapheme_decode_utf8((const char *)p, n, &cp);
		Dec d = decode(p, n);
		x.evals++;
		if (r != d.n || cp != d.cp) {
			Case c;
			c.by.assign(p, p + n);
			sub_case(P01, c, x);
			x.fail("decode_utf8 of %s: returned %zu with %04X, expected %zu with %04X", hexb(p, n).c_str(), r, (unsigned)cp, d.n, d.cp);
		}
	};
	if (full[1] == 0) go(1);
	go(2);
	for (int a = 0; a < 256; a++) {
		full[2] = (uint8_t)a;
		go(3);
		if (full[0] < 0xE0) continue; /* never longer than three bytes */
		for (uint8_t f : F) { full[3] = f; go(4); }
		full[3] = 0xBF;
		go(5);
	}
	free(m);
	x.nt(full[0] >= 0x80);
}
const Prop P01 = {"C01", "sweep: every byte string of 1-3 bytes and, behind lead bytes from E0, 4 and 5 bytes with the fourth from 13 values, one case per first two bytes; random: damaged UTF-8, every suffix and its short prefixes; non-trivial: a string with a multi-byte or malformed sequence",
	c01_gen, c01_check, c01_sweepn, c01_sweep, 0};

/* --- C02: cp = code points, params [0] buffer length */
void enc(uint32_t v, Ctx &x)
{
	uint8_t want[4];
	int w = encode(v, want);
	x.evals++;
	for (size_t len = 0; len <= 6; len++) {
		Buf<uint8_t> b(len, 0xA5);
		size_t r = grapheme_encode_utf8(v, (char *)b.p, len);
		if (r != (size_t)w) x.fail("encode_utf8(%04X) into %zu bytes returned %zu, expected %d", v, len, r, w);
		if (len < r) {
			if (!b.intact()) x.fail("encode_utf8(%04X) wrote into a buffer of only %zu bytes", v, len);
		} else {
			if (memcmp(b.p, want, r)) x.fail("encode_utf8(%04X) wrote %s", v, hexb(b.p, r).c_str());
			for (size_t i = r; i < len; i++) if (b.p[i] != 0xA5) x.fail("encode_utf8(%04X) wrote behind its %zu bytes", v, r);
			u32 back = 1;
			size_t q = grapheme_decode_utf8((const char *)b.p, r, &back);
			bool scalar = v <= 0x10FFFF && !(v >= 0xD800 && v < 0xE000);
			if (q != r || back != (scalar ? v : 0xFFFD)) x.fail("encode_utf8(%04X) decodes to %04X (%zu bytes)", v, (unsigned)back, q);
		}
		if (grapheme_encode_utf8(v, NULL, len) != (size_t)w) x.fail("encode_utf8(%04X) without a buffer: wrong length", v);
	}
}
void c02_gen(Src &s, Case &c)
{
	gen::text(s, gen::ANY, c.cp, 12);
	for (size_t k = s.below(4); k--;) c.cp.push_back(gen::any_cp(s));
	c.p.push_back(s.in(0, 60));
}
void c02_check(const Case &c, Ctx &x)
{
	for (auto v : c.cp) enc(v, x);
	/* the documented array conversion, against the model, into a bounded buffer */
	size_t len = (size_t)std::min<int64_t>(std::max<int64_t>(c.par(0), 0), 4096), off = 0, tot = 0;
	Buf<uint8_t> b(len, 0xA5);
	Bytes want;
	bool scalar = true, odd = false;
	CPs kept;
	for (auto v : c.cp) {
		uint8_t o[4];
		int w = encode(v, o);
		tot += (size_t)w;
		if (w > 1) odd = true;
		if (v > 0x10FFFF || (v >= 0xD800 && v < 0xE000)) scalar = false;
		size_t r = grapheme_encode_utf8(v, (char *)b.p + off, len - off);
		if (r > len - off) break;
		want.insert(want.end(), o, o + w);
		kept.push_back(scalar ? v : 0xFFFD);
		off += r;
	}
	if (off != want.size() || (off && memcmp(b.p, want.data(), off))) x.fail("encoding %s gave %s", hex(c.cp).c_str(), hexb(b.p, off).c_str());
	/* decoding the whole gives the code points back, one by one */
	size_t i = 0, j = 0;
	if (scalar)
		for (; i < off; j++) {
			u32 v;
			i += grapheme_decode_utf8((const char *)b.p + i, off - i, &v);
			if (j >= kept.size() || v != kept[j]) x.fail("decoding the encoding of %s gives %04X at %zu", hex(c.cp).c_str(), (unsigned)v, j);
		}
	if (scalar && (j != kept.size() || i != off)) x.fail("decoding the encoding of %s gives %zu code points", hex(c.cp).c_str(), j);
	x.nt(odd);
	if (tot > len) x.label("array did not fit");
	if (!scalar) x.label("not representable");
}
uint64_t c02_sweepn(bool) { return 0x1130; }
void c02_sweep(uint64_t idx, Ctx &x)
{
	for (uint32_t i = 0; i < 256; i++) {
		uint32_t v = (uint32_t)idx << 8 | i;
		if (idx >= 0x1120) v = (uint32_t)(idx - 0x1120) << 28 | i << (i & 15) | (i * 0x1F35u); /* far out of range */
		Case c;
		uint8_t o[4], got[4];
		int w = encode(v, o);
		u32 back;
		size_t r = grapheme_encode_utf8(v, (char *)got, 4);
		x.evals++;
		if (r != (size_t)w || memcmp(o, got, r) || grapheme_decode_utf8((const char *)got, r, &back) != r ||
		    back != (v > 0x10FFFF || (v >= 0xD800 && v < 0xE000) ? 0xFFFD : v) || (i & 63) == 0) {
			c.cp.push_back(v);
			c.p.push_back(4);
			sub_case(P02, c, x);
		}
	}
	x.nt();
}
const Prop P02 = {"C02", "sweep: every code point 0..111FFF and samples up to FFFFFFFF, 256 per case; random: arrays of code points into buffers of every size around the need, single code points into 0-6 bytes, and back; non-trivial: an array holding a multi-byte encoding (or a sweep batch)",
	c02_gen, c02_check, c02_sweepn, c02_sweep, 0};
}
const Prop *const PROPS_UTF8[] = {&P01, &P02, 0};
