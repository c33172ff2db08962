/* Unicode 15.0.0 property lookup of the reference models. */
#ifndef UCD_H
#define UCD_H
#include <cstddef>
#include <cstdint>
#include <vector>
#include "ucd_enums.inc"

namespace ucd {
enum { F_CASED = 1, F_CIGN = 2, F_EXTPICT = 4, F_CN = 8, F_FWH = 16 };
void init();
extern uint8_t *gcb_, *wb_, *sb_, *lb_, *bc_, *fl_;
/* code points above 0x10FFFF have the defaults of unlisted code points */
inline int gcb(uint32_t c) { return c < 0x110000 ? gcb_[c] : (int)GCB_Other; }
inline int wb(uint32_t c) { return c < 0x110000 ? wb_[c] : (int)WB_Other; }
inline int sb(uint32_t c) { return c < 0x110000 ? sb_[c] : (int)SB_Other; }
inline int lb(uint32_t c) { return c < 0x110000 ? lb_[c] : (int)LB_AL; }
inline int bc(uint32_t c) { return c < 0x110000 ? bc_[c] : (int)BC_L; }
inline int fl(uint32_t c) { return c < 0x110000 ? fl_[c] : 0; }
inline bool cased(uint32_t c) { return fl(c) & F_CASED; }
inline bool cign(uint32_t c) { return fl(c) & F_CIGN; }
inline bool extpict(uint32_t c) { return fl(c) & F_EXTPICT; }
enum CaseKind { LOWER = 0, TITLE = 1, UPPER = 2 };
/* full (context-free) case mapping; writes up to 3 code points */
int fullmap(CaseKind k, uint32_t c, uint32_t out[3]);
uint32_t mirror(uint32_t c);
/* 0 none, 1 opening, 2 closing; id = canonical opening bracket */
int bracket(uint32_t c, uint32_t *id);
/* all code points with an interesting mapping, for the generators */
extern std::vector<uint32_t> cased_cps, special_cps, bracket_cps, mirror_cps, map_cps;
/* code points by property value */
extern std::vector<std::vector<uint32_t>> by_gcb, by_wb, by_sb, by_lb, by_bc;
/* representatives: first and last code point of every run of identical
 * property tuples (i.e. every place where some table changes value) */
extern std::vector<uint32_t> edges;
/* code points that the data of C24 treats unlike the vendored data */
extern std::vector<uint32_t> hot;
}
#endif
