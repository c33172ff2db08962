/* Runs the reference models against the official conformance tests: the break
 * tests from the vendored data (seeds.inc), the bidi tests from
 * /usr/share/unicode where that is installed.  Exit 0: no mismatch. */
#include "../harness/ref.h"
#include "../harness/seeds.inc"

#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <map>
#include <sstream>
#include <string>
using namespace ref;

static int seg(const char *name, const uint32_t *p, Seg s)
{
	int bad = 0, tot = 0;
	while (*p != 0xFFFFFFFF) {
		uint32_t n = *p++;
		CPs c;
		Bounds b;
		for (uint32_t i = 0; i < n; i++) {
			c.push_back(p[i] & 0x7fffffff);
			b.push_back(p[i] >> 31);
		}
		b.push_back(1);
		if (n) b[0] = 1;
		p += n;
		tot++;
		if (segment(s, c) != b) bad++;
	}
	printf("%s: %d tests, %d mismatches\n", name, tot, bad);
	return bad || !tot;
}
static bool levels_ok(const Bidi &b, const std::string &levels, const std::string &order)
{
	std::vector<int8_t> v = line_levels(b, 0, b.len);
	std::vector<size_t> o = reorder(v);
	std::stringstream s(levels), t(order);
	std::string h;
	size_t i = 0;
	for (; s >> h; i++)
		if (i >= v.size() || v[i] != (h == "x" ? -1 : atoi(h.c_str()))) return false;
	if (i != v.size()) return false;
	for (i = 0; t >> h; i++)
		if (i >= o.size() || o[i] != (size_t)atoi(h.c_str())) return false;
	return i == o.size();
}
static int character_test()
{
	std::ifstream f("/usr/share/unicode/BidiCharacterTest.txt");
	if (!f) { printf("BidiCharacterTest.txt is not installed: skipped\n"); return 0; }
	std::string l;
	int bad = 0, tot = 0, multi = 0;
	while (std::getline(f, l)) {
		if (l.empty() || l[0] == '#') continue;
		std::vector<std::string> fs;
		std::stringstream ss(l);
		std::string x;
		while (std::getline(ss, x, ';')) fs.push_back(x);
		fs.resize(5);
		CPs c;
		std::stringstream s(fs[0]);
		while (s >> x) c.push_back((uint32_t)std::stoul(x, 0, 16));
		int dir = atoi(fs[1].c_str());
		Bidi b = bidi(c, dir == 2 ? 0 : dir == 0 ? 1 : 2);
		if (b.len != c.size()) { multi++; continue; } /* more than one paragraph */
		tot++;
		if (b.plevel != atoi(fs[2].c_str()) || !levels_ok(b, fs[3], fs[4])) bad++;
	}
	printf("BidiCharacterTest: %d tests (%d of several paragraphs left out), %d mismatches\n", tot, multi, bad);
	return bad != 0;
}
static int class_test()
{
	std::ifstream f("/usr/share/unicode/BidiTest.txt");
	if (!f) { printf("BidiTest.txt is not installed: skipped\n"); return 0; }
	static const char *nm[] = {"L", "R", "AL", "EN", "ES", "ET", "AN", "CS", "NSM", "BN", "B", "S", "WS", "ON", "LRE", "LRO", "RLE", "RLO", "PDF", "LRI", "RLI", "FSI", "PDI"};
	std::map<std::string, uint32_t> rep;
	for (int i = 0; i < 23; i++)
		for (auto c : ucd::by_bc[i]) {
			uint32_t id;
			if (!ucd::bracket(c, &id)) { rep[nm[i]] = c; break; }
		}
	std::string l, lev, ord;
	int bad = 0, tot = 0, multi = 0;
	while (std::getline(f, l)) {
		if (l.empty() || l[0] == '#') continue;
		if (l.compare(0, 8, "@Levels:") == 0) { lev = l.substr(8); continue; }
		if (l.compare(0, 9, "@Reorder:") == 0) { ord = l.substr(9); continue; }
		if (l[0] == '@') continue;
		size_t p = l.find(';');
		CPs c;
		std::stringstream s(l.substr(0, p));
		std::string h;
		while (s >> h) c.push_back(rep[h]);
		int bits = atoi(l.c_str() + p + 1);
		for (int d = 0; d < 3; d++)
			if (bits >> d & 1) {
				Bidi b = bidi(c, d);
				if (b.len != c.size()) { multi++; continue; }
				tot++;
				if (!levels_ok(b, lev, ord)) bad++;
			}
	}
	printf("BidiTest: %d tests (%d of several paragraphs left out), %d mismatches\n", tot, multi, bad);
	return bad != 0;
}
int main()
{
	ucd::init();
	int r = seg("GraphemeBreakTest", SEED_G, CHAR);
	r |= seg("WordBreakTest", SEED_W, WORD);
	r |= seg("SentenceBreakTest", SEED_S, SENT);
	r |= seg("LineBreakTest", SEED_L, LINE);
	r |= character_test();
	r |= class_test();
	return r;
}
