/* Reference model: default case conversion (Unicode 15.0 section 3.13), and
 * the word-by-word titlecasing libgrapheme documents. */
#include "ref.h"

namespace ref {
namespace {
/* the two readings of a context "cased letter, then case-ignorables": a code
 * point can be both.  As a regular expression it may play either part; ICU and
 * others skip every case-ignorable first. */
bool before_regex(const CPs &s, size_t lo, size_t i, bool pre)
{
	while (i > lo) {
		if (ucd::cased(s[i - 1])) return true;
		if (!ucd::cign(s[i - 1])) return false;
		i--;
	}
	return pre;
}
bool before_skip(const CPs &s, size_t lo, size_t i, bool pre)
{
	while (i > lo && ucd::cign(s[i - 1])) i--;
	return i > lo ? ucd::cased(s[i - 1]) : pre;
}
bool after_regex(const CPs &s, size_t i, size_t hi)
{
	for (i++; i < hi; i++) {
		if (ucd::cased(s[i])) return true;
		if (!ucd::cign(s[i])) return false;
	}
	return false;
}
bool after_skip(const CPs &s, size_t i, size_t hi)
{
	for (i++; i < hi && ucd::cign(s[i]);) i++;
	return i < hi && ucd::cased(s[i]);
}
void emit(CaseOut &o, uint32_t c)
{
	o.out.push_back(c);
}
/* lowercases s[lo..hi); context does not reach outside of it, except that
 * pre tells that a cased letter comes immediately before */
void lower(CaseOut &o, const CPs &s, size_t lo, size_t hi, bool pre)
{
	uint32_t m[3];
	for (size_t i = lo; i < hi; i++) {
		o.srcout.push_back(o.out.size());
		if (s[i] == 0x3A3) {
			bool b1 = before_regex(s, lo, i, pre), b2 = before_skip(s, lo, i, pre);
			bool a1 = after_regex(s, i, hi), a2 = after_skip(s, i, hi);
			o.sigmas++;
			if (b1 != b2 || a1 != a2) o.ambiguous++;
			/* the reading that libgrapheme has taken, see DESIGN.md */
			if (b1 && !a2) { o.finals++; emit(o, 0x3C2); }
			else emit(o, 0x3C3);
			if (o.firstdiff > i) o.firstdiff = i;
			o.changed++;
			continue;
		}
		int n = ucd::fullmap(ucd::LOWER, s[i], m);
		for (int k = 0; k < n; k++) emit(o, m[k]);
		if (n > 1) o.specials++;
		if (n != 1 || m[0] != s[i]) { o.changed++; if (o.firstdiff > i) o.firstdiff = i; }
	}
}
void plain(CaseOut &o, ucd::CaseKind k, const CPs &s, size_t i)
{
	uint32_t m[3];
	int n = ucd::fullmap(k, s[i], m);
	o.srcout.push_back(o.out.size());
	for (int j = 0; j < n; j++) emit(o, m[j]);
	if (n > 1) o.specials++;
	if (n != 1 || m[0] != s[i]) { o.changed++; if (o.firstdiff > i) o.firstdiff = i; }
}
}

CaseOut to_case(ucd::CaseKind kind, const CPs &s)
{
	CaseOut o;
	size_t n = s.size();
	o.firstdiff = n;
	if (kind == ucd::LOWER) {
		lower(o, s, 0, n, false);
	} else if (kind == ucd::UPPER) {
		for (size_t i = 0; i < n; i++) plain(o, kind, s, i);
	} else {
		Bounds w = words(s);
		for (size_t a = 0; a < n;) {
			size_t b = a + 1, i = a;
			while (!w[b]) b++;
			for (; i < b && !ucd::cased(s[i]); i++) {
				o.srcout.push_back(o.out.size());
				emit(o, s[i]);
			}
			if (i < b) {
				plain(o, ucd::TITLE, s, i);
				lower(o, s, i + 1, b, true);
			}
			a = b;
		}
	}
	o.srcout.push_back(o.out.size());
	return o;
}

bool same(const CaseOut &o, const uint32_t *got, size_t n)
{
	if (n > o.out.size()) return false;
	for (size_t i = 0; i < n; i++)
		if (got[i] != o.out[i]) return false;
	return true;
}
}
