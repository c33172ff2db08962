#include "ref.h"
#include <algorithm>
using namespace ucd;

namespace ref {
/* ---- UTF-8 ------------------------------------------------------------ */
Dec decode(const uint8_t *s, size_t len)
{
	if (!s || len == 0) return {0xFFFD, 0};
	uint8_t b = s[0];
	size_t need = b < 0x80 ? 1 : b < 0xC0 ? 0 : b < 0xE0 ? 2 : b < 0xF0 ? 3 : b < 0xF8 ? 4 : 0;
	if (need == 0) return {0xFFFD, 1}; /* stray continuation or 0xF8..0xFF */
	if (need == 1) return {b, 1};
	/* length of the prefix that is well-formed so far */
	size_t k = 1;
	while (k < need && k < len && (s[k] & 0xC0) == 0x80) k++;
	if (k < need) {
		if (k == len) return {0xFFFD, need}; /* cut off by the end: desired length */
		return {0xFFFD, k};                  /* unexpected byte */
	}
	uint32_t cp = b & (0x7F >> need);
	for (size_t i = 1; i < need; i++) cp = cp << 6 | (s[i] & 0x3F);
	static const uint32_t least[5] = {0, 0, 0x80, 0x800, 0x10000};
	if (cp < least[need] || (cp >= 0xD800 && cp < 0xE000) || cp > 0x10FFFF) cp = 0xFFFD;
	return {cp, need};
}
int encode(uint32_t cp, uint8_t o[4])
{
	if (cp > 0x10FFFF || (cp >= 0xD800 && cp <= 0xDFFF)) cp = 0xFFFD;
	if (cp < 0x80) { o[0] = (uint8_t)cp; return 1; }
	if (cp < 0x800) { o[0] = (uint8_t)(0xC0 | cp >> 6); o[1] = (uint8_t)(0x80 | (cp & 63)); return 2; }
	if (cp < 0x10000) {
		o[0] = (uint8_t)(0xE0 | cp >> 12); o[1] = (uint8_t)(0x80 | (cp >> 6 & 63));
		o[2] = (uint8_t)(0x80 | (cp & 63)); return 3;
	}
	o[0] = (uint8_t)(0xF0 | cp >> 18); o[1] = (uint8_t)(0x80 | (cp >> 12 & 63));
	o[2] = (uint8_t)(0x80 | (cp >> 6 & 63)); o[3] = (uint8_t)(0x80 | (cp & 63));
	return 4;
}
Bytes encode_all(const CPs &c)
{
	Bytes b; uint8_t o[4];
	for (auto x : c) { int n = encode(x, o); b.insert(b.end(), o, o + n); }
	return b;
}
void decode_all(const uint8_t *s, size_t len, CPs &cps, std::vector<size_t> &off)
{
	cps.clear(); off.clear();
	for (size_t i = 0; i < len;) {
		Dec d = decode(s + i, len - i);
		off.push_back(i); cps.push_back(d.cp);
		i += std::min(d.n, len - i);
	}
	off.push_back(len);
}
size_t whole_part(const uint8_t *s, size_t len)
{
	for (size_t i = 0; i < len;) {
		Dec d = decode(s + i, len - i);
		if (d.n > len - i) return i;
		i += d.n;
	}
	return len;
}

/* ---- UAX #29 grapheme clusters ---------------------------------------- */
Bounds graphemes(const CPs &t)
{
	size_t n = t.size();
	Bounds b(n + 1, 1);
	std::vector<size_t> ri(n, 0);      /* length of the RI run ending here */
	std::vector<char> epx(n, 0);       /* ExtPict Extend* ends here */
	for (size_t i = 0; i < n; i++) {
		int c = gcb(t[i]);
		if (c == GCB_Regional_Indicator) ri[i] = 1 + (i ? ri[i - 1] : 0);
		if (extpict(t[i])) epx[i] = 1;
		else if (c == GCB_Extend && i && epx[i - 1]) epx[i] = 1;
	}
	for (size_t i = 1; i < n; i++) {
		int l = gcb(t[i - 1]), r = gcb(t[i]);
		bool brk;
		if (l == GCB_CR && r == GCB_LF) brk = false;                                  /* GB3 */
		else if (l == GCB_CR || l == GCB_LF || l == GCB_Control) brk = true;          /* GB4 */
		else if (r == GCB_CR || r == GCB_LF || r == GCB_Control) brk = true;          /* GB5 */
		else if (l == GCB_L && (r == GCB_L || r == GCB_V || r == GCB_LV || r == GCB_LVT)) brk = false;
		else if ((l == GCB_LV || l == GCB_V) && (r == GCB_V || r == GCB_T)) brk = false;
		else if ((l == GCB_LVT || l == GCB_T) && r == GCB_T) brk = false;
		else if (r == GCB_Extend || r == GCB_ZWJ) brk = false;                        /* GB9 */
		else if (r == GCB_SpacingMark) brk = false;                                   /* GB9a */
		else if (l == GCB_Prepend) brk = false;                                       /* GB9b */
		else if (l == GCB_ZWJ && extpict(t[i]) && i >= 2 && epx[i - 2]) brk = false;  /* GB11 */
		else if (l == GCB_Regional_Indicator && r == GCB_Regional_Indicator)
			brk = ri[i - 1] % 2 == 0;                                             /* GB12/13 */
		else brk = true;
		b[i] = brk;
	}
	return b;
}

/* ---- UAX #29 words ---------------------------------------------------- */
Bounds words(const CPs &t)
{
	size_t n = t.size();
	Bounds b(n + 1, 1);
	if (!n) return b;
	auto skip = [](int c) { return c == WB_Extend || c == WB_Format || c == WB_ZWJ; };
	auto nl = [](int c) { return c == WB_Newline || c == WB_CR || c == WB_LF; };
	/* WB4: units of a base character and its (Extend | Format | ZWJ)* */
	std::vector<int> u;            /* class of each unit */
	std::vector<size_t> unit(n);   /* unit of each code point */
	for (size_t i = 0; i < n; i++) {
		int c = wb(t[i]);
		if (!(skip(c) && i > 0 && !nl(wb(t[i - 1])))) u.push_back(c);
		unit[i] = u.size() - 1;
	}
	std::vector<size_t> ri(u.size(), 0);
	for (size_t k = 0; k < u.size(); k++)
		if (u[k] == WB_Regional_Indicator) ri[k] = 1 + (k ? ri[k - 1] : 0);
	auto ahl = [](int c) { return c == WB_ALetter || c == WB_Hebrew_Letter; };
	auto mnlq = [](int c) { return c == WB_MidNumLet || c == WB_Single_Quote; };
	for (size_t i = 1; i < n; i++) {
		int l = wb(t[i - 1]), r = wb(t[i]);
		bool brk = true;
		if (l == WB_CR && r == WB_LF) brk = false;                       /* WB3 */
		else if (nl(l)) brk = true;                                      /* WB3a */
		else if (nl(r)) brk = true;                                      /* WB3b */
		else if (l == WB_ZWJ && extpict(t[i])) brk = false;              /* WB3c */
		else if (l == WB_WSegSpace && r == WB_WSegSpace) brk = false;    /* WB3d */
		else if (skip(r)) brk = false;                                   /* WB4 */
		else {
			size_t k = unit[i];
			int p = u[k - 1], q = u[k];
			int pp = k >= 2 ? u[k - 2] : -1, qq = k + 1 < u.size() ? u[k + 1] : -1;
			if (ahl(p) && ahl(q)) brk = false;                                        /* WB5 */
			else if (ahl(p) && (q == WB_MidLetter || mnlq(q)) && ahl(qq)) brk = false; /* WB6 */
			else if (ahl(pp) && (p == WB_MidLetter || mnlq(p)) && ahl(q)) brk = false; /* WB7 */
			else if (p == WB_Hebrew_Letter && q == WB_Single_Quote) brk = false;       /* WB7a */
			else if (p == WB_Hebrew_Letter && q == WB_Double_Quote && qq == WB_Hebrew_Letter) brk = false;
			else if (pp == WB_Hebrew_Letter && p == WB_Double_Quote && q == WB_Hebrew_Letter) brk = false;
			else if (p == WB_Numeric && q == WB_Numeric) brk = false;                  /* WB8 */
			else if (ahl(p) && q == WB_Numeric) brk = false;                           /* WB9 */
			else if (p == WB_Numeric && ahl(q)) brk = false;                           /* WB10 */
			else if (pp == WB_Numeric && (p == WB_MidNum || mnlq(p)) && q == WB_Numeric) brk = false;
			else if (p == WB_Numeric && (q == WB_MidNum || mnlq(q)) && qq == WB_Numeric) brk = false;
			else if (p == WB_Katakana && q == WB_Katakana) brk = false;                /* WB13 */
			else if ((ahl(p) || p == WB_Numeric || p == WB_Katakana || p == WB_ExtendNumLet) &&
			         q == WB_ExtendNumLet) brk = false;                                /* WB13a */
			else if (p == WB_ExtendNumLet && (ahl(q) || q == WB_Numeric || q == WB_Katakana)) brk = false;
			else if (p == WB_Regional_Indicator && q == WB_Regional_Indicator)
				brk = ri[k - 1] % 2 == 0;                                          /* WB15/16 */
		}
		b[i] = brk;
	}
	return b;
}

/* ---- UAX #29 sentences ------------------------------------------------ */
Bounds sentences(const CPs &t)
{
	size_t n = t.size();
	Bounds b(n + 1, 1);
	if (!n) return b;
	auto skip = [](int c) { return c == SB_Extend || c == SB_Format; };
	auto para = [](int c) { return c == SB_Sep || c == SB_CR || c == SB_LF; };
	auto sat = [](int c) { return c == SB_STerm || c == SB_ATerm; };
	std::vector<int> u;
	std::vector<size_t> unit(n);
	for (size_t i = 0; i < n; i++) {
		int c = sb(t[i]);
		if (!(skip(c) && i > 0 && !para(sb(t[i - 1])))) u.push_back(c);
		unit[i] = u.size() - 1;
	}
	size_t m = u.size();
	/* for each unit: index of the SATerm such that
	 *   cl[k]: SATerm Close*            ends at k
	 *   sp[k]: SATerm Close* Sp*        ends at k
	 *   ps[k]: SATerm Close* Sp* ParaSep? ends at k        (-1: none) */
	std::vector<long> cl(m, -1), sp(m, -1), ps(m, -1);
	for (size_t k = 0; k < m; k++) {
		if (sat(u[k])) cl[k] = (long)k;
		else if (u[k] == SB_Close && k) cl[k] = cl[k - 1];
		if (cl[k] >= 0) sp[k] = cl[k];
		else if (u[k] == SB_Sp && k) sp[k] = sp[k - 1];
		if (sp[k] >= 0) ps[k] = sp[k];
		else if (para(u[k]) && k) ps[k] = sp[k - 1];
	}
	/* SB8 right side: first unit at or after k that is OLetter, Upper, Lower, ParaSep, SATerm */
	std::vector<int> stop(m + 1, -1);
	for (size_t k = m; k-- > 0;) {
		int c = u[k];
		stop[k] = (c == SB_OLetter || c == SB_Upper || c == SB_Lower || para(c) || sat(c)) ? c : stop[k + 1];
	}
	for (size_t i = 1; i < n; i++) {
		int l = sb(t[i - 1]), r = sb(t[i]);
		bool brk = false;
		if (l == SB_CR && r == SB_LF) brk = false;         /* SB3 */
		else if (para(l)) brk = true;                      /* SB4 */
		else if (skip(r)) brk = false;                     /* SB5 */
		else {
			size_t k = unit[i];
			int p = u[k - 1], q = u[k], pp = k >= 2 ? u[k - 2] : -1;
			if (p == SB_ATerm && q == SB_Numeric) brk = false;                             /* SB6 */
			else if ((pp == SB_Upper || pp == SB_Lower) && p == SB_ATerm && q == SB_Upper) brk = false;
			else if (sp[k - 1] >= 0 && u[sp[k - 1]] == SB_ATerm && stop[k] == SB_Lower) brk = false; /* SB8 */
			else if (sp[k - 1] >= 0 && (q == SB_SContinue || sat(q))) brk = false;         /* SB8a */
			else if (cl[k - 1] >= 0 && (q == SB_Close || q == SB_Sp || para(q))) brk = false; /* SB9 */
			else if (sp[k - 1] >= 0 && (q == SB_Sp || para(q))) brk = false;               /* SB10 */
			else if (ps[k - 1] >= 0) brk = true;                                           /* SB11 */
			else brk = false;                                                              /* SB998 */
		}
		b[i] = brk;
	}
	return b;
}

/* ---- UAX #14, tailored with example 7 --------------------------------- */
Bounds lines(const CPs &t)
{
	size_t n = t.size();
	Bounds b(n + 1, 1);
	if (!n) return b;
	auto hard = [](int c) { return c == LB_BK || c == LB_CR || c == LB_LF || c == LB_NL; };
	/* LB9/LB10 */
	std::vector<int> u;
	std::vector<uint32_t> base;
	std::vector<size_t> unit(n);
	std::vector<char> att(n, 0);
	for (size_t i = 0; i < n; i++) {
		int c = lb(t[i]);
		bool ext = c == LB_CM || c == LB_ZWJ;
		if (ext && i > 0) {
			int p = lb(t[i - 1]);
			if (!hard(p) && p != LB_SP && p != LB_ZW) att[i] = 1;
		}
		if (!att[i]) { u.push_back(ext ? (int)LB_AL : c); base.push_back(t[i]); }
		unit[i] = u.size() - 1;
	}
	size_t m = u.size();
	/* last non-space unit at or before k (-1: none); RI runs */
	std::vector<long> ns(m, -1);
	std::vector<size_t> ri(m, 0);
	/* NU (NU|SY|IS)* ends here; NU (NU|SY|IS)* (CL|CP) ends here */
	std::vector<char> num(m, 0), numc(m, 0);
	for (size_t k = 0; k < m; k++) {
		ns[k] = u[k] != LB_SP ? (long)k : k ? ns[k - 1] : -1;
		if (u[k] == LB_RI) ri[k] = 1 + (k ? ri[k - 1] : 0);
		if (u[k] == LB_NU) num[k] = 1;
		else if ((u[k] == LB_SY || u[k] == LB_IS) && k && num[k - 1]) num[k] = 1;
		else if ((u[k] == LB_CL || u[k] == LB_CP) && k && num[k - 1]) numc[k] = 1;
	}
	/* LB8 looks at raw classes: ZW SP* */
	std::vector<char> zwsp(n, 0);
	for (size_t i = 0; i < n; i++) {
		int c = lb(t[i]);
		zwsp[i] = c == LB_ZW || (c == LB_SP && i && zwsp[i - 1]);
	}
	auto al = [](int c) { return c == LB_AL || c == LB_HL; };
	auto kor = [](int c) { return c == LB_JL || c == LB_JV || c == LB_JT || c == LB_H2 || c == LB_H3; };
	for (size_t i = 1; i < n; i++) {
		int l = lb(t[i - 1]), r = lb(t[i]);
		if (l == LB_BK) { b[i] = 1; continue; }                                /* LB4 */
		if (l == LB_CR && r == LB_LF) { b[i] = 0; continue; }                  /* LB5 */
		if (l == LB_CR || l == LB_LF || l == LB_NL) { b[i] = 1; continue; }
		if (hard(r)) { b[i] = 0; continue; }                                   /* LB6 */
		if (r == LB_SP || r == LB_ZW) { b[i] = 0; continue; }                  /* LB7 */
		if (zwsp[i - 1]) { b[i] = 1; continue; }                               /* LB8 */
		if (l == LB_ZWJ) { b[i] = 0; continue; }                               /* LB8a */
		if (att[i]) { b[i] = 0; continue; }                                    /* LB9 */
		size_t k = unit[i];
		int p = u[k - 1], q = u[k], pp = k >= 2 ? u[k - 2] : -1, qq = k + 1 < m ? u[k + 1] : -1;
		int s = ns[k - 1] >= 0 ? u[ns[k - 1]] : -1; /* X in "X SP* x" */
		bool brk;
		if (q == LB_WJ || p == LB_WJ) brk = false;                             /* LB11 */
		else if (p == LB_GL) brk = false;                                      /* LB12 */
		else if (p != LB_SP && p != LB_BA && p != LB_HY && q == LB_GL) brk = false; /* LB12a */
		else if (q == LB_EX) brk = false;                                      /* LB13 */
		else if (p != LB_NU && (q == LB_CL || q == LB_CP || q == LB_IS || q == LB_SY)) brk = false;
		else if (s == LB_OP) brk = false;                                      /* LB14 */
		else if (s == LB_QU && q == LB_OP) brk = false;                        /* LB15 */
		else if ((s == LB_CL || s == LB_CP) && q == LB_NS) brk = false;        /* LB16 */
		else if (s == LB_B2 && q == LB_B2) brk = false;                        /* LB17 */
		else if (p == LB_SP) brk = true;                                       /* LB18 */
		else if (q == LB_QU || p == LB_QU) brk = false;                        /* LB19 */
		else if (q == LB_CB || p == LB_CB) brk = true;                         /* LB20 */
		else if (q == LB_BA || q == LB_HY || q == LB_NS || p == LB_BB) brk = false; /* LB21 */
		else if (pp == LB_HL && (p == LB_HY || p == LB_BA)) brk = false;       /* LB21a */
		else if (p == LB_SY && q == LB_HL) brk = false;                        /* LB21b */
		else if (q == LB_IN) brk = false;                                      /* LB22 */
		else if ((al(p) && q == LB_NU) || (p == LB_NU && al(q))) brk = false;  /* LB23 */
		else if (p == LB_PR && (q == LB_ID || q == LB_EB || q == LB_EM)) brk = false; /* LB23a */
		else if ((p == LB_ID || p == LB_EB || p == LB_EM) && q == LB_PO) brk = false;
		else if ((p == LB_PR || p == LB_PO) && al(q)) brk = false;             /* LB24 */
		else if (al(p) && (q == LB_PR || q == LB_PO)) brk = false;
		else if ((p == LB_PR || p == LB_PO) && q == LB_NU) brk = false;        /* LB25 */
		else if ((p == LB_PR || p == LB_PO) && (q == LB_OP || q == LB_HY) && qq == LB_NU) brk = false;
		else if ((p == LB_OP || p == LB_HY) && q == LB_NU) brk = false;
		else if (num[k - 1] && (q == LB_NU || q == LB_SY || q == LB_IS || q == LB_CL || q == LB_CP)) brk = false;
		else if ((num[k - 1] || numc[k - 1]) && (q == LB_PO || q == LB_PR)) brk = false;
		else if (p == LB_JL && (q == LB_JL || q == LB_JV || q == LB_H2 || q == LB_H3)) brk = false; /* LB26 */
		else if ((p == LB_JV || p == LB_H2) && (q == LB_JV || q == LB_JT)) brk = false;
		else if ((p == LB_JT || p == LB_H3) && q == LB_JT) brk = false;
		else if (kor(p) && q == LB_PO) brk = false;                            /* LB27 */
		else if (p == LB_PR && kor(q)) brk = false;
		else if (al(p) && al(q)) brk = false;                                  /* LB28 */
		else if (p == LB_IS && al(q)) brk = false;                             /* LB29 */
		else if ((al(p) || p == LB_NU) && q == LB_OP && !(fl(base[k]) & F_FWH)) brk = false; /* LB30 */
		else if (p == LB_CP && !(fl(base[k - 1]) & F_FWH) && (al(q) || q == LB_NU)) brk = false;
		else if (p == LB_RI && q == LB_RI) brk = ri[k - 1] % 2 == 0;           /* LB30a */
		else if (p == LB_EB && q == LB_EM) brk = false;                        /* LB30b */
		else if ((fl(base[k - 1]) & (F_EXTPICT | F_CN)) == (F_EXTPICT | F_CN) && q == LB_EM) brk = false;
		else brk = true;                                                       /* LB31 */
		b[i] = brk;
	}
	return b;
}
Bounds segment(Seg s, const CPs &t)
{
	switch (s) {
	case CHAR: return graphemes(t);
	case WORD: return words(t);
	case SENT: return sentences(t);
	default: return lines(t);
	}
}
}
