/* libFuzzer target over the same generators and checks; the property is named
 * by VP_PROP, VP_CURRENT is the file that holds the case being run. */
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include "core.h"
#include "gen.h"
static const Prop *prop;
static Ctx ctx;
static FILE *stat_;
static uint64_t ran, nt;
static void report()
{
	const char *f = getenv("VP_STATS");
	if (f && (stat_ = fopen(f, "w"))) { fprintf(stat_, "%llu %llu\n", (unsigned long long)ran, (unsigned long long)nt); fclose(stat_); }
}
extern "C" int LLVMFuzzerInitialize(int *, char ***)
{
	ucd::init();
	gen::init();
	const char *p = getenv("VP_PROP"), *c = getenv("VP_CURRENT"), *k = getenv("VP_KNOWN");
	prop = p ? find_prop(p) : 0;
	if (!prop || !prop->gen || !c || !open_current(c)) { fprintf(stderr, "VP_PROP, VP_CURRENT\n"); exit(2); }
	std::string s;
	for (; k && *k; k++) { if (*k == ',') { ctx.known_allowed.insert(s); s.clear(); } else s += *k; }
	if (!s.empty()) ctx.known_allowed.insert(s);
	on_sub = save_current;
	atexit(report);
	return 0;
}
extern "C" int LLVMFuzzerTestOneInput(const uint8_t *d, size_t n)
{
	ByteSrc s(d, n);
	Case c;
	prop->gen(s, c);
	save_current(c);
	try {
		run_case(*prop, c, ctx);
	} catch (Fail &f) {
		save_current(c);
		fprintf(stderr, "FAIL: %s\n", f.msg.c_str());
		report();
		abort();
	}
	ran++;
	nt += ctx.nontrivial;
	return 0;
}
