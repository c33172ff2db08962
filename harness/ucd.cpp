#include "ucd.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <unordered_map>
#include "ucd_tables.inc"

namespace ucd {
uint8_t *gcb_, *wb_, *sb_, *lb_, *bc_, *fl_;
std::vector<uint32_t> cased_cps, special_cps, bracket_cps, mirror_cps, map_cps;
std::vector<std::vector<uint32_t>> by_gcb, by_wb, by_sb, by_lb, by_bc;
std::vector<uint32_t> edges, hot;
static std::unordered_map<uint32_t, uint32_t> mi, brk;
static std::unordered_map<uint32_t, us> sp[3];
static uint32_t *map_[3];

template <size_t N> static uint8_t *expand(const ur (&t)[N])
{
	uint8_t *p = (uint8_t *)calloc(0x110000, 1);
	for (auto &r : t)
		memset(p + r.lo, (int)r.v, r.hi - r.lo + 1);
	return p;
}
static void index(const uint8_t *p, int n, std::vector<std::vector<uint32_t>> &v)
{
	v.assign(n, {});
	for (uint32_t c = 0; c < 0x110000; c++) {
		auto &x = v[p[c]];
		x.push_back(c);
	}
}
/* the tables of other data files (C24), as written by datagen.py */
static bool load(const char *file)
{
	FILE *f = fopen(file, "rb");
	char magic[8];
	if (!f || fread(magic, 1, 8, f) != 8 || memcmp(magic, "VPUCD1\n", 8)) { fprintf(stderr, "cannot read %s\n", file); exit(2); }
	uint8_t **t[] = {&gcb_, &wb_, &sb_, &lb_, &bc_, &fl_};
	auto need = [&](void *p, size_t n) { if (fread(p, 1, n, f) != n) { fprintf(stderr, "%s is cut off\n", file); exit(2); } };
	for (auto p : t) need(*p = (uint8_t *)malloc(0x110000), 0x110000);
	for (int k = 0; k < 5; k++) {
		uint32_t n, e[2];
		need(&n, 4);
		while (n--) {
			need(e, 8);
			if (k < 3) map_[k][e[0]] = e[1];
			else if (k == 3) { mi[e[0]] = e[1]; mirror_cps.push_back(e[0]); }
			else { brk[e[0]] = e[1]; bracket_cps.push_back(e[0]); }
		}
	}
	for (int k = 0; k < 3; k++) {
		uint32_t n, e[5];
		need(&n, 4);
		while (n--) {
			need(e, 20);
			sp[k][e[0]] = us{e[0], (uint8_t)e[1], {e[2], e[3], e[4]}};
			if (k == UPPER) special_cps.push_back(e[0]);
		}
	}
	uint32_t n;
	need(&n, 4);
	hot.resize(n);
	need(hot.data(), 4 * (size_t)n);
	fclose(f);
	return true;
}
void init()
{
	if (gcb_) return;
	for (int k = 0; k < 3; k++) {
		map_[k] = (uint32_t *)malloc(0x110000 * 4);
		for (uint32_t c = 0; c < 0x110000; c++) map_[k][c] = c;
	}
	const char *file = getenv("VP_UCD");
	if (!file || !load(file)) {
		gcb_ = expand(T_gcb); wb_ = expand(T_wb); sb_ = expand(T_sb);
		lb_ = expand(T_lb); bc_ = expand(T_bc); fl_ = expand(T_fl);
		for (auto &e : T_lo) map_[LOWER][e.c] = e.v;
		for (auto &e : T_ti) map_[TITLE][e.c] = e.v;
		for (auto &e : T_up) map_[UPPER][e.c] = e.v;
		for (auto &e : T_mi) { mi[e.c] = e.v; mirror_cps.push_back(e.c); }
		for (auto &e : T_brk) { brk[e.c] = e.v; bracket_cps.push_back(e.c); }
		for (auto &e : T_sl) sp[LOWER][e.c] = e;
		for (auto &e : T_st) sp[TITLE][e.c] = e;
		for (auto &e : T_su) { sp[UPPER][e.c] = e; special_cps.push_back(e.c); }
	}
	index(gcb_, GCB_COUNT, by_gcb); index(wb_, WB_COUNT, by_wb);
	index(sb_, SB_COUNT, by_sb); index(lb_, LB_COUNT, by_lb);
	index(bc_, BC_COUNT, by_bc);
	uint64_t prev = ~0ull;
	for (uint32_t c = 0; c < 0x110000; c++) {
		if (fl_[c] & F_CASED) cased_cps.push_back(c);
		if (map_[0][c] != c || map_[1][c] != c || map_[2][c] != c)
			map_cps.push_back(c);
		uint64_t t = gcb_[c] | (uint64_t)wb_[c] << 8 | (uint64_t)sb_[c] << 16 |
		             (uint64_t)lb_[c] << 24 | (uint64_t)bc_[c] << 32 | (uint64_t)fl_[c] << 40;
		if (t != prev) {
			if (c) edges.push_back(c - 1);
			edges.push_back(c);
		}
		prev = t;
	}
	for (auto l : {&cased_cps, &special_cps, &bracket_cps, &mirror_cps, &map_cps})
		if (l->empty()) l->push_back('a');  /* for the generators */
}
int fullmap(CaseKind k, uint32_t c, uint32_t out[3])
{
	if (c >= 0x110000) { out[0] = c; return 1; }
	auto it = sp[k].find(c);
	if (it != sp[k].end()) {
		for (int i = 0; i < it->second.n; i++) out[i] = it->second.v[i];
		return it->second.n;
	}
	out[0] = map_[k][c];
	return 1;
}
uint32_t mirror(uint32_t c)
{
	auto it = mi.find(c);
	return it == mi.end() ? c : it->second;
}
int bracket(uint32_t c, uint32_t *id)
{
	auto it = brk.find(c);
	if (it == brk.end()) return 0;
	*id = it->second & 0xFFFFFF;
	return (int)(it->second >> 24);
}
}
