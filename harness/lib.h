/* Guarded calls into libgrapheme. */
#ifndef LIB_H
#define LIB_H
#include <cstdlib>
#include "core.h"
extern "C" {
#include <grapheme.h>
}
namespace lib {
typedef uint_least32_t u32;
static_assert(sizeof(u32) == 4, "32-bit code points");
inline size_t next(ref::Seg k, const u32 *s, size_t n)
{
	switch (k) {
	case ref::CHAR: return grapheme_next_character_break(s, n);
	case ref::WORD: return grapheme_next_word_break(s, n);
	case ref::SENT: return grapheme_next_sentence_break(s, n);
	default: return grapheme_next_line_break(s, n);
	}
}
inline size_t next8(ref::Seg k, const char *s, size_t n)
{
	switch (k) {
	case ref::CHAR: return grapheme_next_character_break_utf8(s, n);
	case ref::WORD: return grapheme_next_word_break_utf8(s, n);
	case ref::SENT: return grapheme_next_sentence_break_utf8(s, n);
	default: return grapheme_next_line_break_utf8(s, n);
	}
}
static const char *const SEGNAME[] = {"character", "word", "sentence", "line"};
inline size_t to_case(int k, const u32 *s, size_t n, u32 *d, size_t dn)
{
	return k == ucd::LOWER ? grapheme_to_lowercase(s, n, d, dn)
	     : k == ucd::TITLE ? grapheme_to_titlecase(s, n, d, dn)
	                       : grapheme_to_uppercase(s, n, d, dn);
}
inline size_t to_case8(int k, const char *s, size_t n, char *d, size_t dn)
{
	return k == ucd::LOWER ? grapheme_to_lowercase_utf8(s, n, d, dn)
	     : k == ucd::TITLE ? grapheme_to_titlecase_utf8(s, n, d, dn)
	                       : grapheme_to_uppercase_utf8(s, n, d, dn);
}
inline bool is_case(int k, const u32 *s, size_t n, size_t *l)
{
	return k == ucd::LOWER ? grapheme_is_lowercase(s, n, l)
	     : k == ucd::TITLE ? grapheme_is_titlecase(s, n, l)
	                       : grapheme_is_uppercase(s, n, l);
}
inline bool is_case8(int k, const char *s, size_t n, size_t *l)
{
	return k == ucd::LOWER ? grapheme_is_lowercase_utf8(s, n, l)
	     : k == ucd::TITLE ? grapheme_is_titlecase_utf8(s, n, l)
	                       : grapheme_is_uppercase_utf8(s, n, l);
}
static const char *const CASENAME[] = {"lower", "title", "upper"};

/* the documented loop: boundaries of the whole text; fails on no progress or
 * overrun.  n + 1 entries */
ref::Bounds iterate(ref::Seg k, const u32 *s, size_t n, Ctx &c, bool nul = false);
ref::Bounds iterate8(ref::Seg k, const uint8_t *s, size_t n, Ctx &c, bool nul = false);
}
#endif
