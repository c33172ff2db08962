#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>
#include <algorithm>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <sstream>
#include "core.h"
#include "cost.h"
#include "lib.h"

namespace cost {
bool counting;
uint64_t work, allocs;
}

static uint64_t fnv(uint64_t h, const void *p, size_t n)
{
	const uint8_t *b = (const uint8_t *)p;
	for (size_t i = 0; i < n; i++) h = (h ^ b[i]) * 0x100000001B3ull;
	return h;
}
uint64_t Case::hash() const
{
	uint64_t h = 0xCBF29CE484222325ull;
	size_t n[3] = {cp.size(), by.size(), p.size()};
	h = fnv(h, n, sizeof n);
	h = fnv(h, cp.data(), cp.size() * 4);
	h = fnv(h, by.data(), by.size());
	if (repeats()) h = fnv(h, rep, sizeof rep);
	return fnv(h, p.data(), p.size() * 8);
}
std::string Case::text() const
{
	std::string s;
	char b[32];
	s += "sweep " + std::to_string(sweep) + "\ncp";
	for (auto c : cp) { snprintf(b, sizeof b, " %04X", c); s += b; }
	s += "\nbytes";
	for (auto c : by) { snprintf(b, sizeof b, " %02X", c); s += b; }
	s += "\nparams";
	for (auto v : p) s += " " + std::to_string(v);
	if (repeats()) s += "\nrepeat " + std::to_string(rep[0]) + " " + std::to_string(rep[1]) + " " + std::to_string(rep[2]);
	return s + "\n";
}
Case Case::expanded() const
{
	Case c = *this;
	if (!repeats()) return c;
	size_t n = cp.empty() ? by.size() : cp.size(), f = rep[0], l = std::min<size_t>(rep[1], n - f);
	auto grow = [&](auto &v, const auto &o) {
		v.clear();
		v.insert(v.end(), o.begin(), o.begin() + (long)f);
		for (size_t k = 0; k < rep[2]; k++) v.insert(v.end(), o.begin() + (long)f, o.begin() + (long)(f + l));
		v.insert(v.end(), o.begin() + (long)(f + l), o.end());
	};
	if (cp.empty()) grow(c.by, by); else grow(c.cp, cp);
	c.rep[0] = c.rep[1] = 0;
	c.rep[2] = 1;
	return c;
}
void grow_plain(Src &, Case &, size_t) {}
bool lengthen(const Prop &p, Src &s, Case &c)
{
	static const size_t LEN[] = {300, 700, 5000, 33000, 66000, 66000, 66500, 132000};
	size_t n = c.cp.empty() ? c.by.size() : c.cp.size();
	if (!n || !p.grow) return false;
	size_t f = s.below(n), l = 1 + s.below(std::min<size_t>(n - f, s.chance(1, 2) ? 2 : 8)), total = LEN[s.below(8)] + s.below(1000);
	if (total <= n) return false;
	c.rep[0] = (uint32_t)f;
	c.rep[1] = (uint32_t)l;
	c.rep[2] = (uint32_t)((total - n) / l + 1);
	p.grow(s, c, total);
	return true;
}
bool Case::parse(const std::string &t)
{
	clear();
	std::istringstream in(t);
	std::string line;
	int got = 0;
	while (std::getline(in, line)) {
		std::istringstream l(line);
		std::string k, v;
		l >> k;
		if (k == "sweep") { l >> sweep; got++; }
		else if (k == "cp") { while (l >> v) cp.push_back((uint32_t)strtoul(v.c_str(), 0, 16)); got++; }
		else if (k == "bytes") { while (l >> v) by.push_back((uint8_t)strtoul(v.c_str(), 0, 16)); got++; }
		else if (k == "repeat") l >> rep[0] >> rep[1] >> rep[2];
		else if (k == "params") { while (l >> v) p.push_back(strtoll(v.c_str(), 0, 10)); got++; }
	}
	return got == 4;
}
static const size_t CURMAX = 8u << 20;
static char *curmap;
bool open_current(const char *f)
{
	int fd = open(f, O_RDWR | O_CREAT | O_TRUNC, 0644);
	if (fd < 0 || ftruncate(fd, (off_t)CURMAX)) return false;
	curmap = (char *)mmap(0, CURMAX, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
	close(fd);
	if (curmap == MAP_FAILED) curmap = 0;
	return curmap != 0;
}
void save_current(const Case &c)
{
	if (!curmap) return;
	/* binary: total, sweep, ncp, nby, np, data */
	uint32_t h[8] = {1, (uint32_t)c.sweep, (uint32_t)c.cp.size(), (uint32_t)c.by.size(), (uint32_t)c.p.size(), c.rep[0], c.rep[1], c.rep[2]};
	size_t need = sizeof h + c.cp.size() * 4 + c.by.size() + c.p.size() * 8;
	if (need > CURMAX) { h[0] = 0; memcpy(curmap, h, sizeof h); return; }
	char *q = curmap;
	memcpy(q, h, sizeof h); q += sizeof h;
	if (c.cp.size()) memcpy(q, c.cp.data(), c.cp.size() * 4);
	q += c.cp.size() * 4;
	if (c.p.size()) memcpy(q, c.p.data(), c.p.size() * 8);
	q += c.p.size() * 8;
	if (c.by.size()) memcpy(q, c.by.data(), c.by.size());
}
void Ctx::fail(const char *fmt, ...)
{
	char b[4096];
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(b, sizeof b, fmt, ap);
	va_end(ap);
	throw Fail{b};
}
void Ctx::known(const char *key, const char *fmt, ...)
{
	char b[4096];
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(b, sizeof b, fmt, ap);
	va_end(ap);
	if (!known_allowed.count(key)) throw Fail{b};
	auto &k = known_hit[key];
	if (k.first++ == 0) k.second = b;
}
std::string hex(const ref::CPs &c, size_t max)
{
	std::string s;
	char b[16];
	for (size_t i = 0; i < c.size() && i < max; i++) {
		snprintf(b, sizeof b, "%s%04X", i ? " " : "", c[i]);
		s += b;
	}
	if (c.size() > max) s += " ... (" + std::to_string(c.size()) + ")";
	return s;
}
std::string hexb(const uint8_t *p, size_t n, size_t max)
{
	std::string s;
	char b[16];
	for (size_t i = 0; i < n && i < max; i++) {
		snprintf(b, sizeof b, "%s%02X", i ? " " : "", p[i]);
		s += b;
	}
	if (n > max) s += " ... (" + std::to_string(n) + ")";
	return s;
}
void run_case(const Prop &p, Case &c, Ctx &x)
{
	x.cur = &c;
	x.nontrivial = false;
	if (c.sweep) p.sweep((uint64_t)c.par(0), x);
	else if (c.repeats()) {
		Case e = c.expanded();
		size_t n = std::max(e.cp.size(), e.by.size());
		x.label(n > 65535 ? "over 65535 units" : n > 255 ? "over 255 units" : "repeated part");
		p.check(e, x);
	} else p.check(c, x);
}
void (*on_sub)(const Case &);
void sub_case(const Prop &p, const Case &c, Ctx &x)
{
	Case saved = *x.cur;
	*x.cur = c;
	if (on_sub) on_sub(c);
	p.check(c, x);
	*x.cur = saved; /* not reached on failure: cur stays at the narrow case */
}

namespace lib {
ref::Bounds iterate(ref::Seg k, const u32 *s, size_t n, Ctx &c, bool nul)
{
	ref::Bounds b(n + 1, 0);
	b[0] = 1;
	for (size_t off = 0; off < n;) {
		size_t r = next(k, s + off, nul ? SIZE_MAX : n - off);
		c.evals++;
		if (r == 0 || r > n - off)
			c.fail("next_%s_break at offset %zu of %zu code points returned %zu", SEGNAME[k], off, n, r);
		off += r;
		b[off] = 1;
	}
	b[n] = 1;
	return b;
}
ref::Bounds iterate8(ref::Seg k, const uint8_t *s, size_t n, Ctx &c, bool nul)
{
	ref::Bounds b(n + 1, 0);
	b[0] = 1;
	for (size_t off = 0; off < n;) {
		size_t r = next8(k, (const char *)s + off, nul ? SIZE_MAX : n - off);
		c.evals++;
		if (r == 0 || r > n - off)
			c.fail("next_%s_break_utf8 at offset %zu of %zu bytes returned %zu", SEGNAME[k], off, n, r);
		off += r;
		b[off] = 1;
	}
	b[n] = 1;
	return b;
}
}
