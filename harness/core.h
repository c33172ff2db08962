/* The frame of every check: choice sources, cases, contexts, properties. */
#ifndef CORE_H
#define CORE_H
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <set>
#include <string>
#include <vector>
#include "ref.h"

/* --- where the random choices come from -------------------------------- */
struct Src {
	virtual ~Src() {}
	virtual uint64_t below(uint64_t n) = 0; /* uniform in [0, n); n == 0 gives 0 */
	int64_t in(int64_t lo, int64_t hi) { return lo + (int64_t)below((uint64_t)(hi - lo) + 1); }
	bool chance(unsigned num, unsigned den) { return below(den) < num; }
	template <class V> const typename V::value_type &of(const V &v) { return v[below(v.size())]; }
};
struct RandSrc : Src {
	uint64_t s;
	explicit RandSrc(uint64_t seed) : s(seed) {}
	uint64_t next()
	{
		uint64_t z = (s += 0x9E3779B97F4A7C15ull);
		z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
		z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
		return z ^ (z >> 31);
	}
	uint64_t below(uint64_t n) override
	{
		return n ? (uint64_t)(((unsigned __int128)next() * n) >> 64) : 0;
	}
};
struct ByteSrc : Src { /* libFuzzer input; zeros once it is used up */
	const uint8_t *p, *e;
	ByteSrc(const uint8_t *d, size_t n) : p(d), e(d + n) {}
	uint64_t below(uint64_t n) override
	{
		uint64_t v = 0;
		for (uint64_t m = n ? n - 1 : 0; m; m >>= 8) v = v << 8 | (p < e ? *p++ : 0);
		return n ? v % n : 0;
	}
};

/* --- cases -------------------------------------------------------------- */
struct Case {
	int sweep;              /* 1: p[0] is an index into the property's sweep */
	ref::CPs cp;
	ref::Bytes by;
	std::vector<int64_t> p;
	/* code points (bytes where there are none) [rep[0], rep[0] + rep[1]) stand for
	 * rep[2] copies of them; expanded before the check sees the case */
	uint32_t rep[3];
	Case() : sweep(0), rep{0, 0, 1} {}
	void clear() { sweep = 0; cp.clear(); by.clear(); p.clear(); rep[0] = rep[1] = 0; rep[2] = 1; }
	bool repeats() const { return rep[2] > 1 && rep[1] > 0 && rep[0] < (cp.empty() ? by.size() : cp.size()); }
	Case expanded() const;
	int64_t par(size_t i) const { return i < p.size() ? p[i] : 0; }
	uint64_t hash() const;
	std::string text() const;
	bool parse(const std::string &);
};

struct Fail { std::string msg; };

struct Ctx {
	bool nontrivial;
	uint64_t evals;          /* library comparisons made, for the report */
	std::map<std::string, uint64_t> labels;
	std::set<std::string> known_allowed;
	std::map<std::string, std::pair<uint64_t, std::string> > known_hit;
	Case *cur;               /* the case being run (sweeps replace it) */
	Ctx() : nontrivial(false), evals(0), cur(0) {}
	void label(const char *l) { labels[l]++; }
	void nt(bool b = true) { nontrivial = nontrivial || b; }
	[[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
	/* a violation that known_findings.jsonl may list under this key */
	void known(const char *key, const char *fmt, ...) __attribute__((format(printf, 3, 4)));
};

/* the case being run is kept in a mapped file, for crashes and hangs */
bool open_current(const char *file);
void save_current(const Case &);

struct Prop {
	const char *id;
	const char *rule;
	void (*gen)(Src &, Case &);
	void (*check)(const Case &, Ctx &);
	/* deterministic part: cases 0 .. sweepn()-1; a sweep step may be a whole
	 * family of inputs, in which case it narrows ctx.cur before failing */
	uint64_t (*sweepn)(bool thorough);
	void (*sweep)(uint64_t, Ctx &);
	/* not null: cases are also run with a part repeated until the text is that
	 * long; may adapt the parameters */
	void (*grow)(Src &, Case &, size_t total);
	int hang; /* limit of CPU seconds per case, 0: the usual one */
};
void grow_plain(Src &, Case &, size_t);
/* choose the part to repeat; false when there is nothing to repeat */
bool lengthen(const Prop &, Src &, Case &);
const Prop *find_prop(const char *id);
/* run one case (random, sweep or replayed) */
void run_case(const Prop &, Case &, Ctx &);
/* run a narrower case from within a sweep step */
void sub_case(const Prop &, const Case &, Ctx &);
extern void (*on_sub)(const Case &); /* told of every such case */
std::string hex(const ref::CPs &, size_t max = 80);
std::string hexb(const uint8_t *, size_t, size_t max = 120);

/* --- library memory discipline ----------------------------------------- */
/* Exact-size heap copy, so that the sanitised library cannot look past either
 * end unnoticed; knows whether it was written to. */
template <class T> struct Buf {
	T *base, *p;
	size_t n;
	std::vector<T> orig;
	Buf(const T *src, size_t len) : n(len), orig(src, src + len) { alloc(); fill(); }
	explicit Buf(const std::vector<T> &v) : n(v.size()), orig(v) { alloc(); fill(); }
	Buf(size_t len, int pattern) : n(len), orig(len)
	{
		if (n) __builtin_memset((void *)orig.data(), pattern, n * sizeof(T));
		alloc();
		fill();
	}
	~Buf() { free(base); }
	bool intact() const { return n == 0 || __builtin_memcmp(p, orig.data(), n * sizeof(T)) == 0; }
private:
	Buf(const Buf &);
	Buf &operator=(const Buf &);
	void alloc()
	{
		if (n) base = p = (T *)malloc(n * sizeof(T));
		else { base = (T *)malloc(16); p = base + 16 / sizeof(T); }
	}
	void fill() { if (n) __builtin_memcpy((void *)p, orig.data(), n * sizeof(T)); }
};
#endif
