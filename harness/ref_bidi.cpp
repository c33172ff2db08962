/* Reference model: the Unicode Bidirectional Algorithm (UAX #9, Unicode 15.0),
 * rule by rule, on explicit level runs and isolating run sequences. */
#include <algorithm>
#include "ref.h"

namespace ref {
namespace {
using namespace ucd;
const int MAXDEPTH = 125;
bool removed(int c) { return c == BC_LRE || c == BC_RLE || c == BC_LRO || c == BC_RLO || c == BC_PDF || c == BC_BN; }
bool isoinit(int c) { return c == BC_LRI || c == BC_RLI || c == BC_FSI; }
bool NI(int c) { return c == BC_B || c == BC_S || c == BC_WS || c == BC_ON || c == BC_FSI || c == BC_LRI || c == BC_RLI || c == BC_PDI; }
/* strong direction of a class for N0-N2: EN and AN count as R */
int dirof(int c) { return c == BC_L ? BC_L : (c == BC_R || c == BC_EN || c == BC_AN) ? BC_R : -1; }

/* P2/P3 over [a, b): 0, 1, or -1 when there is no strong character */
int first_strong(const std::vector<uint8_t> &oc, const std::vector<size_t> &match, size_t a, size_t b)
{
	for (size_t i = a; i < b; i++) {
		if (oc[i] == BC_L) return 0;
		if (oc[i] == BC_R || oc[i] == BC_AL) return 1;
		if (isoinit(oc[i])) {
			if (match[i] >= b) return -1;
			i = match[i];
		}
	}
	return -1;
}
}

Bidi bidi(const CPs &text, int dir)
{
	Bidi r;
	size_t n = 0;
	r.maxdepth = r.npairs = r.nseq = r.maxstack = r.overflow_iso = r.overflow_emb = r.bd16_stop = 0;
	while (n < text.size() && ucd::bc(text[n++]) != BC_B) ;
	r.len = n;
	r.oc.resize(n);
	for (size_t i = 0; i < n; i++) r.oc[i] = (uint8_t)ucd::bc(text[i]);
	const std::vector<uint8_t> &oc = r.oc;

	/* BD9: matching PDIs; n = none */
	std::vector<size_t> match(n, n);
	std::vector<char> matchedPDI(n, 0);
	{
		std::vector<size_t> st;
		for (size_t i = 0; i < n; i++) {
			if (isoinit(oc[i])) st.push_back(i);
			else if (oc[i] == BC_PDI && !st.empty()) {
				match[st.back()] = i;
				matchedPDI[i] = 1;
				st.pop_back();
			}
		}
	}

	/* P2, P3 */
	if (dir == 1) r.plevel = 0;
	else if (dir == 2) r.plevel = 1;
	else r.plevel = first_strong(oc, match, 0, n) == 1;

	/* X1-X8 */
	struct St { int level, ovr; bool iso; };
	std::vector<St> st(1, St{r.plevel, -1, false});
	unsigned oiso = 0, oemb = 0, viso = 0;
	std::vector<int> lv(n, 0), cl(n);
	for (size_t i = 0; i < n; i++) cl[i] = oc[i];
	for (size_t i = 0; i < n; i++) {
		int c = oc[i];
		/* (of no effect in an overflow) */
		if (c == BC_FSI) c = oiso || oemb ? (int)BC_LRI : first_strong(oc, match, i + 1, match[i]) == 1 ? (int)BC_RLI : (int)BC_LRI;
		int up = st.back().level;
		int nextodd = (up + 1) | 1, nexteven = (up + 2) & ~1;
		switch (c) {
		case BC_RLE: case BC_LRE: case BC_RLO: case BC_LRO: {
			bool rtl = c == BC_RLE || c == BC_RLO;
			int nl = rtl ? nextodd : nexteven;
			lv[i] = up;
			if (nl <= MAXDEPTH && oiso == 0 && oemb == 0)
				st.push_back(St{nl, c == BC_RLO ? BC_R : c == BC_LRO ? BC_L : -1, false});
			else if (oiso == 0) { oemb++; r.overflow_emb++; }
			break;
		}
		case BC_RLI: case BC_LRI: {
			lv[i] = up;
			if (st.back().ovr >= 0) cl[i] = st.back().ovr;
			int nl = c == BC_RLI ? nextodd : nexteven;
			if (nl <= MAXDEPTH && oiso == 0 && oemb == 0) {
				viso++;
				st.push_back(St{nl, -1, true});
			} else { oiso++; r.overflow_iso++; }
			break;
		}
		case BC_PDI:
			if (oiso > 0) oiso--;
			else if (viso > 0) {
				oemb = 0;
				while (!st.back().iso) st.pop_back();
				st.pop_back();
				viso--;
			}
			lv[i] = st.back().level;
			if (st.back().ovr >= 0) cl[i] = st.back().ovr;
			break;
		case BC_PDF:
			lv[i] = up;
			if (oiso > 0) ;
			else if (oemb > 0) oemb--;
			else if (!st.back().iso && st.size() >= 2) st.pop_back();
			break;
		case BC_B:
			lv[i] = r.plevel;
			break;
		case BC_BN:
			lv[i] = up;
			break;
		default:
			lv[i] = up;
			if (st.back().ovr >= 0) cl[i] = st.back().ovr;
		}
		if ((unsigned)st.size() - 1 > r.maxdepth) r.maxdepth = (unsigned)st.size() - 1;
	}

	/* X9, X10: level runs over the characters that remain */
	std::vector<size_t> keep, pos(n, 0);
	for (size_t i = 0; i < n; i++)
		if (!removed(oc[i])) { pos[i] = keep.size(); keep.push_back(i); }
	size_t m = keep.size();
	std::vector<std::pair<size_t, size_t> > runs; /* [a, b) in keep */
	std::vector<size_t> runof(m);
	for (size_t a = 0; a < m;) {
		size_t b = a;
		while (b < m && lv[keep[b]] == lv[keep[a]]) { runof[b] = runs.size(); b++; }
		runs.push_back(std::make_pair(a, b));
		a = b;
	}
	for (size_t ri = 0; ri < runs.size(); ri++) {
		size_t f = keep[runs[ri].first];
		if (oc[f] == BC_PDI && matchedPDI[f]) continue;
		/* BD13 */
		std::vector<size_t> q; /* text indices of the sequence */
		size_t cur = ri;
		for (;;) {
			for (size_t k = runs[cur].first; k < runs[cur].second; k++) q.push_back(keep[k]);
			size_t l = q.back();
			if (isoinit(oc[l]) && match[l] < n) cur = runof[pos[match[l]]];
			else break;
		}
		r.nseq++;
		size_t k = q.size();
		int level = lv[q[0]];
		/* sos, eos */
		size_t p0 = pos[q[0]], p1 = pos[q[k - 1]];
		int before = p0 > 0 ? lv[keep[p0 - 1]] : r.plevel;
		int after = (p1 + 1 < m && !isoinit(oc[q[k - 1]])) ? lv[keep[p1 + 1]] : r.plevel;
		int sos = (std::max(level, before) & 1) ? BC_R : BC_L;
		int eos = (std::max(level, after) & 1) ? BC_R : BC_L;
		std::vector<int> t(k);
		for (size_t i = 0; i < k; i++) t[i] = cl[q[i]];

		/* W1 */
		for (size_t i = 0; i < k; i++)
			if (t[i] == BC_NSM) {
				if (i == 0) t[i] = sos;
				else if (isoinit(t[i - 1]) || t[i - 1] == BC_PDI) t[i] = BC_ON;
				else t[i] = t[i - 1];
			}
		/* W2 */
		{
			int s = sos;
			for (size_t i = 0; i < k; i++) {
				if (t[i] == BC_R || t[i] == BC_L || t[i] == BC_AL) s = t[i];
				else if (t[i] == BC_EN && s == BC_AL) t[i] = BC_AN;
			}
		}
		/* W3 */
		for (size_t i = 0; i < k; i++) if (t[i] == BC_AL) t[i] = BC_R;
		/* W4 */
		for (size_t i = 1; i + 1 < k; i++) {
			if (t[i] == BC_ES && t[i - 1] == BC_EN && t[i + 1] == BC_EN) t[i] = BC_EN;
			else if (t[i] == BC_CS && t[i - 1] == t[i + 1] && (t[i - 1] == BC_EN || t[i - 1] == BC_AN)) t[i] = t[i - 1];
		}
		/* W5 */
		for (size_t i = 0; i < k;) {
			if (t[i] != BC_ET) { i++; continue; }
			size_t j = i;
			while (j < k && t[j] == BC_ET) j++;
			if ((i > 0 && t[i - 1] == BC_EN) || (j < k && t[j] == BC_EN))
				for (size_t x = i; x < j; x++) t[x] = BC_EN;
			i = j;
		}
		/* W6 */
		for (size_t i = 0; i < k; i++)
			if (t[i] == BC_ET || t[i] == BC_ES || t[i] == BC_CS) t[i] = BC_ON;
		/* W7 */
		{
			int s = sos;
			for (size_t i = 0; i < k; i++) {
				if (t[i] == BC_R || t[i] == BC_L) s = t[i];
				else if (t[i] == BC_EN && s == BC_L) t[i] = BC_L;
			}
		}
		/* BD16 */
		std::vector<std::pair<size_t, size_t> > pairs;
		{
			struct El { uint32_t id; size_t at; };
			std::vector<El> stk;
			for (size_t i = 0; i < k; i++) {
				uint32_t id;
				int b = t[i] == BC_ON ? ucd::bracket(text[q[i]], &id) : 0;
				if (b == 1) {
					if (stk.size() == 63) { r.bd16_stop++; break; }
					stk.push_back(El{id, i});
					if (stk.size() > r.maxstack) r.maxstack = (unsigned)stk.size();
				} else if (b == 2) {
					for (size_t x = stk.size(); x-- > 0;)
						if (stk[x].id == id) {
							pairs.push_back(std::make_pair(stk[x].at, i));
							stk.resize(x);
							break;
						}
				}
			}
			std::sort(pairs.begin(), pairs.end());
			r.npairs += (unsigned)pairs.size();
		}
		/* N0 */
		int e = (level & 1) ? BC_R : BC_L;
		for (size_t x = 0; x < pairs.size(); x++) {
			size_t a = pairs[x].first, b = pairs[x].second;
			bool same = false, opp = false;
			int set = -1;
			for (size_t i = a + 1; i < b; i++) {
				int d = dirof(t[i]);
				if (d == e) same = true;
				else if (d >= 0) opp = true;
			}
			if (same) set = e;
			else if (opp) {
				int ctx = sos;
				for (size_t i = a; i-- > 0;)
					if (dirof(t[i]) >= 0) { ctx = dirof(t[i]); break; }
				set = ctx != e ? ctx : e;
			}
			if (set >= 0) {
				t[a] = t[b] = set;
				for (size_t i = a + 1; i < k && oc[q[i]] == BC_NSM; i++) t[i] = set;
				for (size_t i = b + 1; i < k && oc[q[i]] == BC_NSM; i++) t[i] = set;
			}
		}
		/* N1, N2 */
		for (size_t i = 0; i < k;) {
			if (!NI(t[i])) { i++; continue; }
			size_t j = i;
			while (j < k && NI(t[j])) j++;
			int l = i > 0 ? dirof(t[i - 1]) : sos, rr = j < k ? dirof(t[j]) : eos;
			for (size_t x = i; x < j; x++) t[x] = (l == rr && l >= 0) ? l : e;
			i = j;
		}
		/* I1, I2 */
		for (size_t i = 0; i < k; i++) {
			int l = lv[q[i]];
			/* deferred: runs are keyed by the levels of X1-X8 */
			cl[q[i]] = (l & 1) ? (t[i] == BC_R ? l : l + 1)
			                   : (t[i] == BC_R ? l + 1 : t[i] == BC_L ? l : l + 2);
		}
	}
	r.lv.assign(n, -1);
	for (size_t x = 0; x < m; x++) r.lv[keep[x]] = (int8_t)cl[keep[x]];
	/* L1, items 1 to 3 (and the end of the paragraph) */
	for (size_t i = n, tail = 1; i-- > 0;) {
		if (removed(oc[i])) continue;
		if (oc[i] == BC_S || oc[i] == BC_B) { r.lv[i] = (int8_t)r.plevel; tail = 1; }
		else if (oc[i] == BC_WS || isoinit(oc[i]) || oc[i] == BC_PDI) { if (tail) r.lv[i] = (int8_t)r.plevel; }
		else tail = 0;
	}
	return r;
}

std::vector<int8_t> line_levels(const Bidi &b, size_t s, size_t e)
{
	std::vector<int8_t> v(b.lv.begin() + (long)s, b.lv.begin() + (long)e);
	for (size_t i = e; i-- > s;) {
		int c = b.oc[i];
		if (removed(c)) continue;
		if (c == BC_WS || isoinit(c) || c == BC_PDI || c == BC_S || c == BC_B) v[i - s] = (int8_t)b.plevel;
		else break;
	}
	return v;
}

std::vector<size_t> reorder(const std::vector<int8_t> &lv)
{
	std::vector<size_t> o;
	int hi = 0, lowodd = 1000;
	for (size_t i = 0; i < lv.size(); i++)
		if (lv[i] >= 0) {
			o.push_back(i);
			hi = std::max(hi, (int)lv[i]);
			if (lv[i] & 1) lowodd = std::min(lowodd, (int)lv[i]);
		}
	for (int l = hi; l >= lowodd; l--)
		for (size_t i = 0; i < o.size();) {
			size_t j = i;
			while (j < o.size() && lv[o[j]] >= l) j++;
			std::reverse(o.begin() + (long)i, o.begin() + (long)j);
			i = j + (j == i);
		}
	return o;
}
}
