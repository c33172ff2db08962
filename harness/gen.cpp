#include "gen.h"
#include <algorithm>
#include "seeds.inc"
using namespace ucd;
using ref::CPs;

namespace gen {
static std::vector<CPs> seed_[7], idiom_[7];
static std::vector<std::vector<uint32_t> > *tab[5];
static std::vector<std::vector<uint32_t> > atoms_[5];
static std::map<int, int> atomid_[5];
static int key(Theme t, uint32_t c)
{
	uint32_t id;
	switch (t) {
	case GCB: return gcb(c) * 2 + extpict(c);
	case WB: return wb(c) * 2 + extpict(c);
	case SB: return sb(c);
	case LB: return lb(c) * 4 + ((lb(c) == LB_OP || lb(c) == LB_CP) && (fl(c) & F_FWH) ? 1 : 0) + (extpict(c) && (fl(c) & F_CN) ? 2 : 0);
	default: return bc(c) * 4 + bracket(c, &id);
	}
}

static CPs lit(const char32_t *s) { CPs c; while (*s) c.push_back((uint32_t)*s++); return c; }
static void load(const uint32_t *p, std::vector<CPs> &v)
{
	while (*p != 0xFFFFFFFF) {
		uint32_t n = *p++;
		CPs c;
		for (uint32_t i = 0; i < n; i++) c.push_back(p[i] & 0x7FFFFFFF);
		p += n;
		v.push_back(c);
	}
}
void init()
{
	if (tab[0]) return;
	tab[GCB] = &by_gcb; tab[WB] = &by_wb; tab[SB] = &by_sb; tab[LB] = &by_lb; tab[BC] = &by_bc;
	for (int t = 0; t < 5; t++)
		for (uint32_t c = 0; c < 0x110000; c++) {
			if (c >= 0xD800 && c < 0xE000) continue;
			auto r = atomid_[t].insert(std::make_pair(key((Theme)t, c), (int)atoms_[t].size()));
			if (r.second) atoms_[t].push_back(CPs());
			atoms_[t][(size_t)r.first->second].push_back(c);
		}
	load(SEED_G, seed_[GCB]); load(SEED_W, seed_[WB]); load(SEED_S, seed_[SB]); load(SEED_L, seed_[LB]);
	static const char32_t *const G[] = {
		U"\r\n", U"\n\r", U"e\u0301", U"\u0600\u0661", U"\u1100\u1161\u11A8", U"\uAC00\u11A8", U"\uAC01\u1161",
		U"\U0001F1E6\U0001F1E7", U"\U0001F1E6\U0001F1E7\U0001F1E8", U"\U0001F468\u200D\U0001F469\u200D\U0001F467",
		U"\U0001F468\u0308\u200D\U0001F469", U"\U0001F468\u200D\u200D\U0001F469", U"\U0001F468\U0001F3FB\u200D\u2695\uFE0F",
		U"\u0915\u0903", U"\u0E33", U"a\u200Db", U"\u00A9\u200D\u00AE", U"\U0001F1E6\u0300\U0001F1E7", U"\U000110BD\U0001F600",
	};
	static const char32_t *const W[] = {
		U"can't", U"3.14", U"1,000.5", U"a.b", U"a:b", U"a_b_", U"__", U"1a2", U"\u05D0\u0022\u05D1", U"\u05D0'", U"\u05D0'a",
		U"\u30A2\u30FC_", U"a''b", U"a'\u0300b", U"a\u00AD'b", U"1\u2060,\u03002", U"   ", U" \u0300 ", U" \u200D ",
		U"\u200D\U0001F600", U"a\u200D\u00A9", U"\U0001F1E6\u200D\U0001F1E7\U0001F1E8", U"1.a", U"a,b", U"'a", U"1'2", U"\r\n",
		U"a.\u0300", U"\u05D0\"\u0301\u05D1", U"\u3000\u2003 ", U"\u000B\u0300",
	};
	static const char32_t *const S[] = {
		U"a. b", U"a. B", U"U.S.A. is", U"U.S.", U"3.14", U"a.b", U"A.B", U"a.B", U"Hi.) The", U"(\u201CHi!\u201D) x", U"etc.) and", U"a.\" b",
		U"a.), b", U"a. , b", U"a! B", U"a?!b", U"a.\u0300 \u0301b", U"a.  \u2029b", U"a.\r\nb", U"\u3002\u300D\u3042", U"a. (1", U"a. 1b",
		U"a.\u00A0\u2014 b", U"a. ...b", U"a!. b", U"a.! b", U"a.)  ) b", U"A.\u00AD\u0300B", U"a.)\u0300 \u00ADB", U"a.). Hello",
	};
	static const char32_t *const L[] = {
		U"$(12.35)", U"1,234.56%", U"foo-bar", U"(s) ", U"a/b", U"\u2014 \u2014", U"\u05D0-\u05D1", U"\u05D0\u0301-\u0308b", U"( \u0308a",
		U"\" (", U") !", U"} \u3005", U"a\u200B b", U"a \u200B b", U"\u200B\u0300a", U"\u200D\u4E00", U"a\u2060b", U" \u2060 ", U"\u00A0a", U"-\u00A0", U"1)2%", U"1))$",
		U"$\u0308(1", U"%-1", U"-1", U".5", U"1/2", U"1/a", U"\U0001F466\U0001F3FB", U"\U0001F1E6\U0001F1E7\U0001F1E8", U"\u1100\u1161$",
		U"$\uAC00", U"a(", U"a\uFF08", U"1\u300C", U")a", U"\u300Da", U"\uFFFCa", U"a\uFFFC\u0308", U"\u00B4a", U"!\u2026", U"\u2026\u2026", U"a\u2026", U"\r\n", U" \r\n", U"\u000Ba",
		U"\u05D0/", U"/\u05D0", U".a", U"a.a", U"\U0001F8FF\U0001F3FB", U"(  \u0300x", U"] )(", U"a\u0085", U"1}\u0308%", U"1 %", U"\u0E01\u0E31\u0E01", U"\u2028", U"\u00AB \u00BB",
	};
	static const char32_t *const C[] = {
		U"\u038C\u03A3\u039F\u03A3", U"\u0391\u03A3.", U"\u0391\u03A3", U"A'B\u03A3", U"\u0391.\u03A3", U"\u03A3", U"\u0391\u03A3\u00AD\u0391", U"\u0391\u0301\u03A3\u0301", U"1\u03A3", U"a\u03A31",
		U"\u00DF", U"\u0149", U"\u0390", U"\uFB03", U"\u01C4\u01C5\u01C6", U"\u0130", U"I\u0307", U"\u1F80", U"\u1F88", U"\u1FB3\u1FBC", U"\u10D0\u1C90", U"\u13A0\uAB70", U"hello World", U"HELLO",
		U"don't", U"\u02B0a", U"\u0345\u0391", U"\u1FC7", U"\u0391\u02B0\u03A3", U"\u02B0\u03A3", U"\u0391\u03A3\u02B0", U"\U00010400\U00010428", U"\u03A3\u03A3 \u03A3\u03A3", U"a\u00ADb\u03A3:\u0391", U"\u1E9E", U"\u03C3\u03C2",
	};
	static const char32_t *const B[] = {
		U"a(b)c", U"\u05D0(b)\u05D1", U"a(\u05D0)b", U"\u05D0(1)b", U"(\u05D0[a]\u05D1)", U"\u2329a\u3009", U"\u3008\u05D0\u232A", U"\uFF08\u05D0)", U"1+2", U"\u06611,2", U"\u0661,\u0662", U"\u0627 1", U"$1", U"1$", U"\u05D0\u0300(", U"a)\u0300\u05D0(b]\u0300)\u0301",
		U"\u2067a\u2069\u05D0", U"\u2068\u05D0\u2069a", U"\u202Ea(b\u202C", U"\u202D\u05D0\u2067\u2069\u202C", U"\u202B\u2066\u202C\u2069", U"\u202Ba\u202Cb ", U"a\t\u05D0 ", U"\u2069\u2069", U"\u2067\u2067", U"a \u2067 \u2069 \tb",
	};
	for (auto s : G) idiom_[GCB].push_back(lit(s));
	for (auto s : W) idiom_[WB].push_back(lit(s));
	for (auto s : S) idiom_[SB].push_back(lit(s));
	for (auto s : L) idiom_[LB].push_back(lit(s));
	for (auto s : B) idiom_[BC].push_back(lit(s));
	for (auto s : C) idiom_[CASE].push_back(lit(s));
	for (int i = 0; i < 6; i++) {
		idiom_[ANY].insert(idiom_[ANY].end(), idiom_[i].begin(), idiom_[i].end());
		if (i < 4) seed_[ANY].insert(seed_[ANY].end(), seed_[i].begin(), seed_[i].end());
	}
	seed_[BC] = idiom_[BC]; seed_[CASE] = idiom_[CASE];
}
int natoms(Theme t) { return (int)atoms_[t].size(); }
int atom(Theme t, uint32_t c) { return atomid_[t].at(key(t, c)); }
const std::vector<uint32_t> &atom_cps(Theme t, int a) { return atoms_[t][(size_t)a]; }
static uint32_t from(Src &s, const std::vector<uint32_t> &v)
{
	if (v.empty()) return 'a';
	switch (s.below(4)) {
	case 0: return v[0];
	case 1: return v[s.below(std::min<size_t>(v.size(), 4))];
	case 2: return v[v.size() - 1 - s.below(std::min<size_t>(v.size(), 4))];
	default: return s.of(v);
	}
}
uint32_t of_atom(Src &s, Theme t, int a) { return from(s, atoms_[t][(size_t)a]); }
const std::vector<CPs> &seeds(Theme t) { return seed_[t]; }

uint32_t of_class(Src &s, Theme t, int cls) { return from(s, (*tab[t])[(size_t)cls]); }
uint32_t any_cp(Src &s, bool wild)
{
	switch (s.below(wild ? 8 : 7)) {
	case 0: return (uint32_t)s.below(0x80);
	case 1: return (uint32_t)s.below(0x800);
	case 2: return (uint32_t)s.below(0x10000);
	case 3: return (uint32_t)s.below(0x110000);
	case 4: case 5: return s.of(edges);
	case 6: return of_class(s, (Theme)s.below(5), 0);
	default: {
		static const uint32_t odd[] = {0x10FFFF, 0x110000, 0x110001, 0x1FFFFF, 0x200000, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 0xD800, 0xDFFF, 0xFFFE, 0xFFFF, 0, 0xFFFD};
		return s.chance(1, 4) ? (uint32_t)s.below(1ull << 32) : odd[s.below(sizeof odd / sizeof *odd)];
	}
	}
}
size_t special_len(Src &s)
{
	static const size_t L[] = {7, 8, 9, 15, 16, 17, 31, 32, 33, 62, 63, 64, 65, 66, 100, 124, 125, 126, 127, 128, 129, 130, 254, 255, 256, 257, 258, 300};
	return L[s.below(sizeof L / sizeof *L)];
}
static Theme pick(Src &s, Theme t) { return t == ANY ? (Theme)s.below(6) : t; }
static uint32_t case_cp(Src &s)
{
	switch (s.below(12)) {
	case 0: case 1: return 0x3A3;
	case 2: return s.of(special_cps);
	case 3: return s.of(map_cps);
	case 4: return s.of(cased_cps);
	case 5: { static const uint32_t ci[] = {'\'', '.', 0xAD, 0x301, 0x345, 0x2B0, 0x200D, 0x2019, ':', 0x387, 0xB7, 0x60}; return ci[s.below(12)]; }
	case 6: { static const uint32_t b[] = {0x2B0, 0x2B8, 0x345, 0x1D78, 0x2071, 0x1D2C, 0xA69C, 0x2090}; return b[s.below(8)]; }
	case 7: return s.chance(1, 2) ? ' ' : '1';
	case 8: { static const uint32_t g[] = {0x391, 0x3B1, 0x3C3, 0x3C2, 0x130, 0x131, 0x69, 0x49, 0x49, 0x1C5, 0xDF, 0x149, 0x1E9E, 0x4E00, '_'}; return g[s.below(15)]; }
	case 9: return (uint32_t)s.in('A', 'Z');
	case 10: return (uint32_t)s.in('a', 'z');
	default: return any_cp(s, false);
	}
}
uint32_t theme_cp(Src &s, Theme t)
{
	t = pick(s, t);
	if (t == CASE) return case_cp(s);
	return of_atom(s, t, (int)s.below((uint64_t)natoms(t)));
}

void text(Src &s, Theme t, CPs &out, size_t maxlen)
{
	out.clear();
	size_t mode = s.below(16);
	if (t == BC && s.chance(1, 2)) { bidi_text(s, out, maxlen); return; }
	size_t len = s.chance(1, 24) ? s.in(0, 1) : s.chance(1, 2) ? (size_t)s.in(1, (int64_t)std::min<size_t>(8, maxlen)) : (size_t)s.in(1, (int64_t)maxlen);
	if (mode < 5) { /* small alphabet of classes */
		size_t k = 2 + s.below(5);
		std::vector<std::pair<Theme, int> > al;
		CPs fixed;
		for (size_t i = 0; i < k; i++) {
			Theme x = pick(s, t);
			if (x == CASE) fixed.push_back(case_cp(s));
			else al.push_back(std::make_pair(x, (int)s.below((uint64_t)natoms(x))));
		}
		while (out.size() < len) {
			size_t j = s.below(al.size() + fixed.size());
			if (j < fixed.size()) out.push_back(fixed[j]);
			else { auto &a = al[j - fixed.size()]; out.push_back(of_atom(s, a.first, a.second)); }
		}
	} else if (mode < 8) { /* all classes */
		while (out.size() < len) out.push_back(theme_cp(s, t));
	} else if (mode < 11) { /* conformance samples, joined and damaged */
		size_t k = 1 + s.below(3);
		for (size_t i = 0; i < k; i++) {
			const CPs &x = s.of(seed_[t]);
			size_t a = s.chance(1, 3) ? s.below(x.size() + 1) : 0;
			out.insert(out.end(), x.begin() + (long)a, x.end());
		}
		for (size_t m = s.below(4); m-- && !out.empty();) {
			size_t at = s.below(out.size());
			switch (s.below(4)) {
			case 0: out[at] = theme_cp(s, t); break;
			case 1: out.insert(out.begin() + (long)at, theme_cp(s, t)); break;
			case 2: out.erase(out.begin() + (long)at); break;
			default: out.insert(out.begin() + (long)at, out[s.below(out.size())]);
			}
		}
	} else if (mode < 14) { /* idioms with glue */
		size_t k = 1 + s.below(4);
		for (size_t i = 0; i < k; i++) {
			const CPs &x = s.of(idiom_[t]);
			out.insert(out.end(), x.begin(), x.end());
			if (s.chance(1, 2)) out.push_back(theme_cp(s, t));
			if (s.chance(1, 4)) out.push_back(' ');
		}
		if (s.chance(1, 3) && !out.empty()) out[s.below(out.size())] = theme_cp(s, t);
		if (s.chance(1, 4) && !out.empty()) out.insert(out.begin() + (long)s.below(out.size()), s.chance(1, 2) ? 0x300 : 0x200D);
	} else if (mode < 15) { /* a long run of one small unit */
		CPs unit;
		for (size_t k = 1 + s.below(3); k--;) unit.push_back(theme_cp(s, t));
		for (size_t k = s.below(4); k--;) out.push_back(theme_cp(s, t));
		size_t rep = s.chance(1, 2) ? special_len(s) : s.below(20);
		while (rep--) out.insert(out.end(), unit.begin(), unit.end());
		for (size_t k = s.below(4); k--;) out.push_back(theme_cp(s, t));
	} else { /* anything */
		while (out.size() < len) out.push_back(s.chance(1, 2) ? any_cp(s) : theme_cp(s, t));
	}
}

void bidi_text(Src &s, CPs &out, size_t maxlen)
{
	static const uint32_t STRONG[] = {'a', 0x5D0, 0x627, '1', 0x661};
	static const uint32_t INIT[] = {0x202A, 0x202B, 0x202D, 0x202E, 0x2066, 0x2067, 0x2068};
	static const uint32_t TERM[] = {0x202C, 0x2069};
	static const uint32_t BR[] = {'(', ')', '[', ']', 0x2329, 0x232A, 0x3008, 0x3009, '{', '}'};
	out.clear();
	auto strong = [&] { return STRONG[s.below(5)]; };
	auto cls = [&](int c) { return of_class(s, BC, c); };
	auto tok = [&]() -> uint32_t { return cls((int)s.below(BC_COUNT)); };
	auto tok_noB = [&]() -> uint32_t { int c; do c = (int)s.below(BC_COUNT); while (c == BC_B && !s.chance(1, 64)); return cls(c); };
	size_t len = s.chance(1, 2) ? (size_t)s.in(1, 8) : (size_t)s.in(1, (int64_t)maxlen);
	switch (s.below(10)) {
	case 0: case 1: /* short, uniform over classes */
		while (out.size() < len) out.push_back(tok_noB());
		break;
	case 2: case 3: /* brackets, strong and weak characters, marks */
		while (out.size() < len) {
			switch (s.below(10)) {
			case 0: case 1: case 2: case 3: out.push_back(s.chance(1, 8) ? s.of(bracket_cps) : BR[s.below(s.chance(1, 2) ? 2 : 10)]); break;
			case 4: case 5: case 6: out.push_back(strong()); break;
			case 7: out.push_back(s.chance(1, 2) ? cls(BC_NSM) : 0x300); break;
			case 8: out.push_back(cls(s.chance(1, 2) ? BC_ON : BC_WS)); break;
			default: out.push_back(s.chance(1, 3) ? INIT[s.below(7)] : s.chance(1, 2) ? TERM[s.below(2)] : tok_noB());
			}
		}
		break;
	case 4: { /* deep nesting */
		size_t depth = s.chance(1, 2) ? s.below(12) : s.chance(1, 2) ? 55 + s.below(16) : 118 + s.below(20);
		bool uni = s.chance(1, 2);
		uint32_t u = INIT[s.below(7)];
		if (s.chance(1, 2)) out.push_back(strong());
		for (size_t i = 0; i < depth; i++) {
			out.push_back(uni && !s.chance(1, 40) ? u : INIT[s.below(7)]);
			if (s.chance(1, 12)) out.push_back(strong());
		}
		for (size_t k = s.below(5); k--;) out.push_back(s.chance(1, 2) ? strong() : tok_noB());
		size_t close = s.below(depth + 4);
		bool cu = s.chance(1, 2);
		for (size_t i = 0; i < close; i++) {
			out.push_back(cu ? TERM[u >= 0x2066] : TERM[s.below(2)]);
			if (s.chance(1, 12)) out.push_back(s.chance(1, 4) ? tok_noB() : strong());
		}
		for (size_t k = s.below(5); k--;) out.push_back(s.chance(1, 2) ? strong() : tok_noB());
		break;
	}
	case 5: { /* many brackets */
		size_t d = s.chance(1, 2) ? s.below(10) : 58 + s.below(10);
		if (s.chance(1, 2)) { /* a few complete pairs before */
			for (size_t k = s.below(4); k--;) { out.push_back('['); out.push_back(strong()); out.push_back(']'); }
		}
		out.push_back(strong());
		for (size_t i = 0; i < d; i++) { out.push_back(s.chance(1, 10) ? '[' : '('); if (s.chance(1, 8)) out.push_back(strong()); if (s.chance(1, 20)) out.push_back(')'); }
		out.push_back(strong());
		for (size_t i = s.below(d + 3); i--;) { out.push_back(s.chance(1, 12) ? ']' : ')'); if (s.chance(1, 8)) out.push_back(strong()); if (s.chance(1, 16)) out.push_back(0x300); }
		for (size_t k = s.below(4); k--;) out.push_back(tok_noB());
		break;
	}
	case 6: { /* overrides, isolates and marks */
		static const uint32_t A[] = {0x202D, 0x202E, 0x2066, 0x2067, 0x2068, 0x2069, 0x202C, 0x2069, 0x300, 'a', 0x5D0, '1', '(', ')', ' ', 0x200B, 0xAD};
		while (out.size() < len) out.push_back(A[s.below(17)]);
		break;
	}
	case 7: { /* numbers */
		static const uint32_t A[] = {'1', 0x661, '+', '-', ',', '.', '$', '%', 'a', 0x5D0, 0x627, 0x300, 0x200B, ' ', '/', ':', 0x2067, 0x2069};
		while (out.size() < len) out.push_back(A[s.below(18)]);
		break;
	}
	case 8: { /* separators and trailing space */
		static const uint32_t A[] = {' ', '\t', 0x2066, 0x2067, 0x2068, 0x2069, 0x202B, 0x202C, 0x200B, 'a', 0x5D0, ' ', 0x2003, 0x1F, '1'};
		while (out.size() < len) out.push_back(A[s.below(15)]);
		break;
	}
	default: /* words */
		while (out.size() < len) {
			uint32_t base = STRONG[s.below(5)];
			for (size_t k = 1 + s.below(4); k--;) out.push_back(base + (uint32_t)s.below(3));
			switch (s.below(5)) {
			case 0: out.push_back(' '); break;
			case 1: out.push_back(BR[s.below(10)]); break;
			case 2: out.push_back(tok_noB()); break;
			case 3: out.push_back(s.of(mirror_cps)); break;
			default: out.push_back('.'); out.push_back(' ');
			}
		}
	}
	if (s.chance(1, 6)) { /* end of paragraph, and then some more */
		static const uint32_t SEP[] = {'\n', '\r', 0x1C, 0x1D, 0x1E, 0x85, 0x2029};
		size_t at = s.chance(1, 2) ? out.size() : s.below(out.size() + 1);
		out.insert(out.begin() + (long)at, SEP[s.below(7)]);
		if (s.chance(1, 2)) for (size_t k = s.below(6); k--;) out.push_back(s.chance(1, 2) ? strong() : tok());
	}
}

void scalar(CPs &c)
{
	for (auto &x : c) if (x > 0x10FFFF || (x >= 0xD800 && x <= 0xDFFF)) x = 0xFFFD;
}
void damage(Src &s, ref::Bytes &b)
{
	static const uint8_t ODD[] = {0x00, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xE1, 0xED, 0xEF, 0xF0, 0xF1, 0xF3, 0xF4, 0xF5, 0xF7, 0xF8, 0xFC, 0xFE, 0xFF, 'a'};
	static const char *const FRAG[] = {"\xC3", "\xE2\x82", "\xF0\x9F\x98", "\xF0\x9F", "\xC0\xAF", "\xE0\x80\xAF", "\xF0\x80\x80\xAF", "\xED\xA0\x80", "\xED\xBF\xBF", "\xF4\x90\x80\x80", "\xF7\xBF\xBF\xBF", "\xF8\x88\x80\x80\x80", "\xBF", "\x80\x80", "\xE2\x41", "\xF0\x90\x41", "\xEF\xBF\xBD"};
	for (size_t k = 1 + s.below(3); k--;) {
		size_t at = s.below(b.size() + 1);
		switch (s.below(6)) {
		case 0: if (at < b.size()) b[at] = ODD[s.below(sizeof ODD)]; break;
		case 1: b.insert(b.begin() + (long)at, ODD[s.below(sizeof ODD)]); break;
		case 2: if (at < b.size()) b.erase(b.begin() + (long)at); break;
		case 3: if (!b.empty()) b.resize(b.size() - 1 - s.below(std::min<size_t>(b.size(), 3))); break;
		case 4: { const char *f = FRAG[s.below(sizeof FRAG / sizeof *FRAG)]; b.insert(b.begin() + (long)at, f, f + __builtin_strlen(f)); break; }
		default: { const char *f = FRAG[s.below(4)]; b.insert(b.end(), f, f + __builtin_strlen(f)); }
		}
	}
}
void bytes(Src &s, Theme t, ref::Bytes &b, unsigned dmg, size_t maxlen)
{
	static const uint8_t ODD[] = {0x00, 0x7F, 0x80, 0x90, 0xA0, 0xBF, 0xC0, 0xC2, 0xDF, 0xE0, 0xE1, 0xED, 0xEF, 0xF0, 0xF1, 0xF4, 0xF5, 0xF8, 0xFF, 'a', ' '};
	if (dmg && s.chance(1, 10)) {
		b.clear();
		for (size_t n = s.below(12); n--;) b.push_back(s.chance(1, 2) ? ODD[s.below(sizeof ODD)] : (uint8_t)s.below(256));
		return;
	}
	CPs c;
	text(s, t, c, maxlen);
	scalar(c);
	b = ref::encode_all(c);
	if (s.chance(dmg, 8)) damage(s, b);
}
}
