/* C24: the library that the repository's generators and sources make from other
 * data files behaves as those files say.  Run by run.py once per set of data
 * files (datagen.py), with the library built from them and VP_UCD naming the
 * tables of the reference models. */
#include <algorithm>
#include "gen.h"
#include "lib.h"
#include "props.h"
using namespace ref;

void one_code_point(uint32_t v, Ctx &x);

namespace {
/* params: [0] kind, then those of the property whose check is used; kind NK:
 * every code point of the text by itself, as in C22 */
const char *const KIND[] = {"C04", "C05", "C06", "C07", "C12", "C16", "C17", "C19", "C09", 0};
const int NK = sizeof KIND / sizeof *KIND, NIS = NK - 1;
void c24_gen(Src &s, Case &c)
{
	int k = (int)s.below(NK);
	find_prop(k == NIS ? "C12" : KIND[k])->gen(s, c);
	if (!ucd::hot.empty() && s.chance(7, 8))
		for (auto &v : c.cp) if (s.chance(1, 3)) v = s.of(ucd::hot);
	c.p.insert(c.p.begin(), k);
}
void c24_check(const Case &c, Ctx &x)
{
	int64_t k = c.par(0);
	if (k == NK) {
		for (auto v : c.cp) one_code_point(v, x);
		x.nt(!c.cp.empty());
		return;
	}
	if ((int)((uint64_t)k % NK) == NIS) {
		/* detection: the text is what its conversion would be */
		Buf<lib::u32> b((const lib::u32 *)c.cp.data(), c.cp.size());
		for (int i = 0; i < 3; i++) {
			CaseOut w = to_case((ucd::CaseKind)i, c.cp);
			bool is = lib::is_case(i, b.p, b.n, NULL);
			x.evals++;
			if (is != (w.out == c.cp))
				x.fail("is_%scase of %s: %d, its conversion is %s", lib::CASENAME[i], hex(c.cp).c_str(), is, hex(w.out).c_str());
			x.nt(b.n > 1);
		}
		return;
	}
	Case sub = c;
	sub.p.assign(c.p.begin() + (c.p.empty() ? 0 : 1), c.p.end());
	find_prop(KIND[(uint64_t)k % NK])->check(sub, x);
}
std::vector<uint32_t> probe;
const uint64_t PER = 32;
uint64_t c24_sweepn(bool thorough)
{
	/* where the data differs, one code point of every block of 256, and some of
	 * the places where a property changes */
	RandSrc r(12345);
	probe = ucd::hot;
	for (uint32_t b = 0; b < 0x1100; b++) if (b < 0x300 || b % 16 == 0 || thorough) probe.push_back(b << 8 | (uint32_t)r.below(256));
	for (auto e : ucd::edges) if (thorough || r.chance(1, 4)) probe.push_back(e);
	std::sort(probe.begin(), probe.end());
	probe.erase(std::unique(probe.begin(), probe.end()), probe.end());
	return (probe.size() + PER - 1) / PER;
}
void c24_sweep(uint64_t idx, Ctx &x)
{
	for (uint64_t i = idx * PER; i < idx * PER + PER && i < probe.size(); i++) {
		x.cur->cp.assign(1, probe[i]);
		x.cur->p.assign(1, NK);
		int sw = x.cur->sweep;
		x.cur->sweep = 0;
		one_code_point(probe[i], x);
		x.cur->sweep = sw;
	}
	x.cur->cp.clear();
	x.nt();
	x.label("code points by themselves");
}
const Prop P24 = {"C24", "per set of generated data files: sweep over the code points whose data was changed, the borders of properties and one code point per block, each in neighbourhoods that tell all classes apart (as C22); random texts with changed code points put in, checked as in C04-C07, C09, C12, C16, C17, C19 against the reference models loaded with the same data, and case detection against the conversion; non-trivial as in those",
	c24_gen, c24_check, c24_sweepn, c24_sweep, 0};
}
const Prop *const PROPS_DATA[] = {&P24, 0};
