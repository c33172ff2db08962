#ifndef GEN_H
#define GEN_H
#include "core.h"
namespace gen {
enum Theme { GCB = 0, WB, SB, LB, BC, CASE, ANY };
void init();
/* a code point with the given property value */
uint32_t of_class(Src &, Theme, int cls);
uint32_t any_cp(Src &, bool wild = true);
/* text for a theme; maxlen bounds the length except for rare long runs */
void text(Src &, Theme, ref::CPs &, size_t maxlen = 24);
void bidi_text(Src &, ref::CPs &, size_t maxlen = 40);
/* valid UTF-8 of a text, then damaged with the given probability (x/8) */
void bytes(Src &, Theme, ref::Bytes &, unsigned damage, size_t maxlen = 24);
void damage(Src &, ref::Bytes &);
/* replaces what UTF-8 cannot carry by U+FFFD */
void scalar(ref::CPs &);
size_t special_len(Src &);
/* atoms: the finest classes the rules of a theme can tell apart (property value
 * and, where a rule asks for it, Extended_Pictographic, East Asian Width, ...) */
int natoms(Theme);
int atom(Theme, uint32_t cp);
const std::vector<uint32_t> &atom_cps(Theme, int atom);
uint32_t of_atom(Src &, Theme, int atom);
const std::vector<ref::CPs> &seeds(Theme);
}
#endif
