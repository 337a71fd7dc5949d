// Numeric domain: symbols, linear forms, zones (difference bound matrices).
#pragma once
#include <algorithm>
#include <bitset>
#include <cassert>
#include <cstdint>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <tuple>
#include <unordered_map>
#include <utility>
#include <vector>

typedef __int128 I;
static const I INF = ((I)1) << 100;

inline std::string i2s(I v) {
	if (v >= INF) return "+oo";
	if (v <= -INF) return "-oo";
	bool neg = v < 0;
	unsigned __int128 u = neg ? (unsigned __int128)(-v) : (unsigned __int128)v;
	std::string s;
	do { s.insert(s.begin(), char('0' + (int)(u % 10))); u /= 10; } while (u);
	return neg ? "-" + s : s;
}

// ---------------------------------------------------------------- symbols
// kind: 'Z' zero, 'A' argument, 'L' alloca, 'G' global, 'H' heap object,
//       'F' fresh at an instruction, 'J' join symbol at a block, 'O' old copy
struct SymInfo {
	char kind;
	const void* p;
	std::string tag;
	int n;
	bool rooted() const { return kind == 'A' || kind == 'L' || kind == 'G' || kind == 'H'; }
};
struct Syms {
	std::vector<SymInfo> info;
	std::map<std::tuple<char, const void*, std::string, int>, int> index;
	Syms() { info.push_back({'Z', nullptr, "", 0}); }
	int get(char kind, const void* p, const std::string& tag = "", int n = 0) {
		auto k = std::make_tuple(kind, p, tag, n);
		auto it = index.find(k);
		if (it != index.end()) return it->second;
		int id = (int)info.size();
		info.push_back({kind, p, tag, n});
		index[k] = id;
		return id;
	}
	int old(int s) { return get('O', nullptr, "", s); }
	int twin(int s) { return get('N', nullptr, "", s); }          // the negation of s
	int hasTwin(int s) const { auto it = index.find(std::make_tuple('N', (const void*)nullptr, std::string(), s)); return it == index.end() ? -1 : it->second; }
	bool isTwin(int s) const { return info[s].kind == 'N'; }
	int base(int s) const { return info[s].n; }
};
extern Syms syms;

// ---------------------------------------------------------------- linear forms
struct Lin {
	I c = 0;
	std::vector<std::pair<int, I>> t; // sorted by symbol, coefs != 0
	Lin() {}
	Lin(I k) : c(k) {}
	static Lin sym(int s) { Lin l; if (s) l.t.push_back({s, 1}); return l; }
	bool isConst() const { return t.empty(); }
	bool operator==(const Lin& o) const { return c == o.c && t == o.t; }
	bool operator!=(const Lin& o) const { return !(*this == o); }
};
inline Lin linAdd(const Lin& a, const Lin& b, I kb = 1) {
	Lin r;
	r.c = a.c + kb * b.c;
	size_t i = 0, j = 0;
	while (i < a.t.size() || j < b.t.size()) {
		if (j == b.t.size() || (i < a.t.size() && a.t[i].first < b.t[j].first)) r.t.push_back(a.t[i++]);
		else if (i == a.t.size() || b.t[j].first < a.t[i].first) { r.t.push_back({b.t[j].first, kb * b.t[j].second}); j++; }
		else {
			I k = a.t[i].second + kb * b.t[j].second;
			if (k != 0) r.t.push_back({a.t[i].first, k});
			i++; j++;
		}
	}
	if (kb == 0) { r = a; }
	return r;
}
inline Lin linSub(const Lin& a, const Lin& b) { return linAdd(a, b, -1); }
inline Lin linMul(const Lin& a, I k) {
	Lin r;
	if (k == 0) return r;
	r.c = a.c * k;
	for (auto& x : a.t) r.t.push_back({x.first, x.second * k});
	return r;
}

inline I satAdd(I a, I b) {
	if (a >= INF || b >= INF) return INF;
	I r = a + b;
	if (r >= INF) return INF;
	if (r < -INF) return -INF;
	return r;
}
inline I floorDiv(I a, I b) { I q = a / b; if ((a % b != 0) && ((a < 0) != (b < 0))) q--; return q; }

// ---------------------------------------------------------------- zones
struct Dbm {
	std::vector<int> ids{0};
	std::vector<I> m{0};
	bool bottom = false;
	// definitions: symbol == linear form of other symbols (names given to sums and differences)
	std::vector<std::pair<int, Lin>> eqs;

	// small value sets with holes (values -256..511) and casts between them: e == cast(x + c) to 8 bits
	typedef std::bitset<768> VS;
	struct Link { int e, x; I c; bool sg; bool operator==(const Link& o) const { return e == o.e && x == o.x && c == o.c && sg == o.sg; } bool operator<(const Link& o) const { return std::tie(e, x, c, sg) < std::tie(o.e, o.x, o.c, o.sg); } };
	std::map<int, VS> vs;
	std::vector<Link> links;
	static I castTo(I v, bool sg) { v = ((v % 256) + 256) % 256; return sg && v >= 128 ? v - 256 : v; }
	// the values of s, if they are few
	bool valuesOf(int s, VS& r) const {
		I l = loSym(s), h = hiSym(s);
		if (l < -256 || h > 511) return false;
		r.reset();
		auto it = vs.find(s);
		for (I v = l; v <= h; v++) if (it == vs.end() || it->second[(size_t)(v + 256)]) r.set((size_t)(v + 256));
		return true;
	}
	bool valuesOfLin(const Lin& l, VS& r) const {
		if (l.t.empty()) { if (l.c < -256 || l.c > 511) return false; r.reset(); r.set((size_t)(l.c + 256)); return true; }
		if (l.t.size() != 1 || (l.t[0].second != 1 && l.t[0].second != -1)) return false;
		VS a; if (!valuesOf(l.t[0].first, a)) return false;
		r.reset();
		for (int i = 0; i < 768; i++) if (a[i]) { I v = l.t[0].second * (I)(i - 256) + l.c; if (v < -256 || v > 511) return false; r.set((size_t)(v + 256)); }
		return true;
	}
	// restrict s to a set; true when something changed
	bool restrict(int s, const VS& a) {
		if (bottom) return false;
		VS cur; if (!valuesOf(s, cur)) { // bring into range first
			int lo = -1, hi = -1; for (int i = 0; i < 768; i++) if (a[i]) { if (lo < 0) lo = i; hi = i; }
			if (lo < 0) { bottom = true; return true; }
			int k = add(s); constrain(k, 0, hi - 256); constrain(0, k, 256 - lo);
			if (bottom || !valuesOf(s, cur)) return true;
		}
		VS n = cur & a;
		if (n == cur) { canon(s, n); return false; }
		if (n.none()) { bottom = true; return true; }
		canon(s, n);
		return true;
	}
	void canon(int s, const VS& n) {
		int lo = -1, hi = -1; size_t cnt = 0;
		for (int i = 0; i < 768; i++) if (n[i]) { if (lo < 0) lo = i; hi = i; cnt++; }
		if (lo < 0) { bottom = true; return; }
		int k = add(s);
		if (hi - 256 < hiSym(s)) constrain(k, 0, hi - 256);
		if (lo - 256 > loSym(s)) constrain(0, k, 256 - lo);
		if ((size_t)(hi - lo + 1) == cnt) vs.erase(s); else vs[s] = n;
	}
	void sync() {
		if (vs.empty() && links.empty()) return;
		for (int round = 0; round < 8 && !bottom; round++) {
			bool ch = false;
			for (auto it = vs.begin(); it != vs.end();) { int s = it->first; ++it; VS c; if (valuesOf(s, c)) { I l = loSym(s), h = hiSym(s); VS o = vs[s]; canon(s, c); if (bottom) return; if (l != loSym(s) || h != hiSym(s)) ch = true; } }
			for (auto& k : links) {
				VS x, e, nx, ne;
				if (bottom || !valuesOf(k.x, x)) continue;
				bool he = valuesOf(k.e, e);
				for (int i = 0; i < 768; i++) if (x[i]) { I v = castTo((I)(i - 256) + k.c, k.sg); if (!he || e[(size_t)(v + 256)]) { ne.set((size_t)(v + 256)); nx.set(i); } }
				if (restrict(k.e, ne)) ch = true;
				if (bottom) return;
				if (restrict(k.x, nx)) ch = true;
				if (bottom) return;
			}
			if (!ch) break;
		}
	}
	size_t n() const { return ids.size(); }
	I& at(size_t i, size_t j) { return m[i * ids.size() + j]; }
	I at(size_t i, size_t j) const { return m[i * ids.size() + j]; }
	int find(int s) const {
		for (size_t i = 0; i < ids.size(); i++) if (ids[i] == s) return (int)i;
		return -1;
	}
	int add(int s) {
		int k = find(s);
		if (k >= 0) return k;
		size_t o = ids.size(), nn = o + 1;
		std::vector<I> w(nn * nn, INF);
		for (size_t i = 0; i < o; i++) for (size_t j = 0; j < o; j++) w[i * nn + j] = m[i * o + j];
		w[o * nn + o] = 0;
		m.swap(w);
		ids.push_back(s);
		return (int)o;
	}
	// twin of s (== -s), with the bounds of s
	int addTwin(int s) {
		int t = syms.twin(s);
		int k = find(t);
		if (k >= 0) return k;
		I l = loSym(s), h = hiSym(s);
		k = add(t);
		if (l > -INF) constrain(k, 0, -l);
		if (h < INF) constrain(0, k, h);
		return k;
	}
	void syncTwin(int s) { // bounds learned through the twin
		int t = syms.hasTwin(s), k = t < 0 ? -1 : find(t), b = find(s);
		if (k < 0 || b < 0 || bottom) return;
		I l = loSym(t), h = hiSym(t);
		if (l > -INF) constrain(b, 0, -l);
		if (h < INF) constrain(0, b, h);
		if (bottom) return;
		l = loSym(s), h = hiSym(s);
		if (l > -INF) constrain(k, 0, -l);
		if (h < INF) constrain(0, k, h);
	}
	static bool kept(int x, const std::set<int>& keep) { return keep.count(x) || (syms.isTwin(x) && keep.count(syms.base(x))); }
	void project(const std::set<int>& keep) {
		std::vector<size_t> k;
		for (size_t i = 0; i < ids.size(); i++) if (ids[i] == 0 || kept(ids[i], keep)) k.push_back(i);
		if (!eqs.empty()) {
			auto gone = [&](int x) { return x != 0 && !keep.count(x); };
			for (size_t i = 0; i < eqs.size();) {
				bool g = gone(eqs[i].first);
				for (auto& t : eqs[i].second.t) if (gone(t.first)) g = true;
				if (g) eqs.erase(eqs.begin() + i); else i++;
			}
		}
		for (auto it = vs.begin(); it != vs.end();) if (!keep.count(it->first)) it = vs.erase(it); else ++it;
		for (size_t i = 0; i < links.size();) if (!keep.count(links[i].e) || !keep.count(links[i].x)) links.erase(links.begin() + i); else i++;
		if (k.size() == ids.size()) return;
		std::vector<int> ni;
		std::vector<I> w(k.size() * k.size());
		for (size_t i = 0; i < k.size(); i++) {
			ni.push_back(ids[k[i]]);
			for (size_t j = 0; j < k.size(); j++) w[i * k.size() + j] = at(k[i], k[j]);
		}
		ids.swap(ni);
		m.swap(w);
	}
	void drop(int s) {
		if (find(s) < 0) return;
		std::set<int> keep(ids.begin(), ids.end());
		for (auto& e : eqs) { keep.insert(e.first); for (auto& t : e.second.t) keep.insert(t.first); }
		keep.erase(s);
		{ int t = syms.hasTwin(s); if (t >= 0) keep.erase(t); }
		project(keep);
	}
	void rename(int a, int b) {
		for (auto& e : eqs) {
			if (e.first == a) e.first = b;
			I k = 0; Lin r; r.c = e.second.c;
			for (auto& t : e.second.t) if (t.first == a) k = t.second; else r.t.push_back(t);
			if (k != 0) { Lin x; x.t.push_back({b, k}); e.second = linAdd(r, x); }
		}
		{ auto it = vs.find(a); if (it != vs.end()) { VS v = it->second; vs.erase(it); vs[b] = v; } }
		for (auto& l : links) { if (l.e == a) l.e = b; if (l.x == a) l.x = b; }
		int k = find(a);
		if (k < 0) return;
		ids[k] = b;
		int t = syms.hasTwin(a); if (t >= 0 && (k = find(t)) >= 0) { int tb = syms.twin(b); if (find(tb) >= 0) drop(tb); k = find(t); ids[k] = tb; }
	}
	void define(int s, const Lin& l) {
		for (auto& e : eqs) if (e.first == s) { e.second = l; return; }
		eqs.push_back({s, l});
	}
	// x_i - x_j <= c (indexes)
	void constrain(size_t i, size_t j, I c) {
		if (bottom || c >= INF) return;
		if (i == j) { if (c < 0) bottom = true; return; }
		if (c >= at(i, j)) return;
		if (at(j, i) < INF && at(j, i) + c < 0) { bottom = true; return; }
		size_t N = n();
		std::vector<I> col(N), row(N);
		for (size_t a = 0; a < N; a++) { col[a] = at(a, i); row[a] = at(j, a); }
		for (size_t a = 0; a < N; a++) {
			if (col[a] >= INF) continue;
			I ac = satAdd(col[a], c);
			for (size_t b = 0; b < N; b++) {
				if (row[b] >= INF) continue;
				I v = satAdd(ac, row[b]);
				if (v < at(a, b)) at(a, b) = v;
			}
		}
	}
	I hiSym(int s) const { int k = find(s); return k < 0 ? INF : at(k, 0); }
	I loSym(int s) const { int k = find(s); if (k < 0) return -INF; I v = at(0, k); return v >= INF ? -INF : -v; }
	I diffHi(int a, int b) const { // max of a-b
		int i = find(a), j = find(b);
		I best = INF;
		if (i >= 0 && j >= 0) best = at(i, j);
		I h = hiSym(a), l = loSym(b);
		if (h < INF && l > -INF && h - l < best) best = h - l;
		return best;
	}
	// upper bound of a linear form, with rewriting by the definitions
	I hi(const Lin& l) const {
		I best = hi0(l);
		if (eqs.empty() || l.t.size() < 2) return best;
		for (auto& e : eqs) {
			Lin z = linSub(e.second, Lin::sym(e.first)); // == 0
			for (auto& a : l.t) for (auto& b : z.t) if (a.first == b.first && a.second % b.second == 0) {
				Lin r = linAdd(l, z, -(a.second / b.second));
				if (r.t.size() > l.t.size() + 1) continue;
				best = std::min(best, hi0(r));
			}
		}
		return best;
	}
	I hi0(const Lin& l) const {
		// greedy pairing of +/- terms, rest by intervals
		std::vector<std::pair<int, I>> pos, neg;
		for (auto& x : l.t) (x.second > 0 ? pos : neg).push_back({x.first, x.second > 0 ? x.second : -x.second});
		I total = l.c;
		// try to pair with the best gain: repeatedly choose pair minimising bound
		while (!pos.empty() && !neg.empty()) {
			I bestGain = 0; int bi = -1, bj = -1; bool found = false; I bestVal = 0;
			for (size_t i = 0; i < pos.size(); i++) for (size_t j = 0; j < neg.size(); j++) {
				I d = diffHi(pos[i].first, neg[j].first);
				if (d >= INF) continue;
				I h = hiSym(pos[i].first), lo = loSym(neg[j].first);
				I sep = (h >= INF || lo <= -INF) ? INF : h - lo;
				I gain = sep >= INF ? INF : sep - d;
				if (!found || gain > bestGain) { found = true; bestGain = gain; bi = (int)i; bj = (int)j; bestVal = d; }
			}
			if (!found) break;
			I k = std::min(pos[bi].second, neg[bj].second);
			if (bestVal > 0 && bestVal > INF / (k > 0 ? k : 1)) return INF;
			total = satAdd(total, bestVal * k);
			pos[bi].second -= k; neg[bj].second -= k;
			if (pos[bi].second == 0) pos.erase(pos.begin() + bi);
			if (neg[bj].second == 0) neg.erase(neg.begin() + bj);
		}
		// pairs of equal sign, through a twin
		for (auto* side : {&pos, &neg}) {
			for (size_t i = 0; i < side->size(); i++) for (size_t j = i + 1; j < side->size(); j++) {
				auto &a = (*side)[i], &b = (*side)[j];
				if (!a.second || !b.second) continue;
				I best = INF, sep = INF;
				if (side == &pos) {
					int ta = syms.hasTwin(a.first), tb = syms.hasTwin(b.first);
					if (tb >= 0 && find(tb) >= 0) best = std::min(best, diffHi(a.first, tb));
					if (ta >= 0 && find(ta) >= 0) best = std::min(best, diffHi(b.first, ta));
					I x = hiSym(a.first), y = hiSym(b.first); if (x < INF && y < INF) sep = x + y;
				} else {
					int ta = syms.hasTwin(a.first), tb = syms.hasTwin(b.first);
					if (tb >= 0 && find(tb) >= 0) best = std::min(best, diffHi(tb, a.first));
					if (ta >= 0 && find(ta) >= 0) best = std::min(best, diffHi(ta, b.first));
					I x = loSym(a.first), y = loSym(b.first); if (x > -INF && y > -INF) sep = -x - y;
				}
				if (best >= sep || best >= INF) continue;
				I k = std::min(a.second, b.second);
				if (best > 0 && best > INF / k) continue;
				total = satAdd(total, best * k);
				a.second -= k; b.second -= k;
			}
		}
		for (auto& x : pos) { if (!x.second) continue; I h = hiSym(x.first); if (h >= INF || h > INF / x.second) return INF; total = satAdd(total, h * x.second); }
		for (auto& x : neg) { if (!x.second) continue; I lo = loSym(x.first); if (lo <= -INF || -lo > INF / x.second) return INF; total = satAdd(total, -lo * x.second); }
		return total;
	}
	I lo(const Lin& l) const { I h = hi(linMul(l, -1)); return h >= INF ? -INF : -h; }
	// assume l <= 0
	void assumeLe0(const Lin& l0) {
		if (bottom) return;
		Lin l = l0;
		if (l.t.empty()) { if (l.c > 0) bottom = true; return; }
		I g = 0;
		for (auto& x : l.t) { I a = x.second < 0 ? -x.second : x.second; I b = g; while (b) { I r = a % b; a = b; b = r; } g = a; }
		if (g > 1) { for (auto& x : l.t) x.second /= g; l.c = -floorDiv(-l.c, g); }
		for (auto& x : l.t) add(x.first);
		if (lo(l) > 0) { bottom = true; return; }
		// every unit +x / -y pair, every unit single, with the rest bounded below
		auto rest = [&](size_t i, int j) -> I { // lower bound of l without terms i and j
			Lin r; r.c = l.c;
			for (size_t k = 0; k < l.t.size(); k++) if (k != i && (int)k != j) r.t.push_back(l.t[k]);
			return lo(r);
		};
		for (size_t i = 0; i < l.t.size(); i++) {
			I r = rest(i, -1);
			if (r > -INF) {
				int k = find(l.t[i].first);
				I co = l.t[i].second;
				if (co > 0) constrain(k, 0, floorDiv(-r, co));
				else constrain(0, k, floorDiv(-r, -co)); // -x*|co| <= -r -> -x <= floor(-r/|co|)
			}
			for (size_t j = 0; j < l.t.size(); j++) {
				if (i == j || l.t[i].second <= 0 || l.t[j].second >= 0 || l.t[i].second != -l.t[j].second) continue;
				I r2 = rest(i, (int)j);
				if (r2 > -INF) constrain(find(l.t[i].first), find(l.t[j].first), floorDiv(-r2, l.t[i].second));
			}
			for (size_t j = i + 1; j < l.t.size() && !bottom; j++) {
				if (l.t[i].second != l.t[j].second) continue;
				I r2 = rest(i, (int)j);
				if (r2 <= -INF) continue;
				int x = l.t[i].first, y = l.t[j].first; I k = l.t[i].second;
				if (syms.isTwin(x) || syms.isTwin(y) || syms.info[x].rooted() || syms.info[y].rooted()) continue;
				I b = floorDiv(-r2, k > 0 ? k : -k);
				I cur = hi0(k > 0 ? linAdd(Lin::sym(x), Lin::sym(y)) : linMul(linAdd(Lin::sym(x), Lin::sym(y)), -1));
				if (cur <= b) continue;
				int tx = addTwin(x); if (bottom) return;
				if (k > 0) constrain(find(y), tx, b); else constrain(tx, find(y), b);
				if (bottom) return;
				syncTwin(x);
			}
			if (bottom) return;
		}
		for (auto& x : l.t) if (!syms.isTwin(x.first)) { syncTwin(x.first); if (bottom) return; }
	}
	void assumeEq0(const Lin& l) { assumeLe0(l); assumeLe0(linMul(l, -1)); }
	static Dbm join(const Dbm& a0, const Dbm& b0, const std::set<int>& keep) {
		Dbm ac, bc; const Dbm *pa = &a0, *pb = &b0;
		for (int side = 0; side < 2; side++) {
			const Dbm& x = side ? b0 : a0; const Dbm*& py = side ? pa : pb; Dbm& yc = side ? ac : bc;
			for (int t : x.ids) if (syms.isTwin(t) && keep.count(syms.base(t)) && py->find(t) < 0 && py->find(syms.base(t)) >= 0) {
				if (py != &yc) { yc = *py; py = &yc; }
				yc.addTwin(syms.base(t));
			}
		}
		const Dbm &a = *pa, &b = *pb;
		Dbm r;
		std::vector<int> ids{0};
		for (int s : a.ids) if (s && kept(s, keep) && b.find(s) >= 0) ids.push_back(s);
		size_t N = ids.size();
		r.ids = ids;
		r.m.assign(N * N, INF);
		std::vector<int> ia, ib;
		for (int s : ids) { ia.push_back(a.find(s)); ib.push_back(b.find(s)); }
		for (size_t i = 0; i < N; i++) for (size_t j = 0; j < N; j++) r.m[i * N + j] = std::max(a.at(ia[i], ia[j]), b.at(ib[i], ib[j]));
		for (int s : ids) {
			if (!s || (!a.vs.count(s) && !b.vs.count(s))) { VS x, y; if (!s || a.hiSym(s) >= b.loSym(s) - 1 && b.hiSym(s) >= a.loSym(s) - 1) continue; }
			VS x, y;
			if (a.valuesOf(s, x) && b.valuesOf(s, y)) r.canon(s, x | y);
		}
		for (auto& l : a.links) if (std::find(b.links.begin(), b.links.end(), l) != b.links.end() && r.find(l.e) >= 0 && r.find(l.x) >= 0) r.links.push_back(l);
		return r;
	}
	// this: previous; nw: joined, same or fewer symbols
	void closeAll() {
		size_t N = n();
		for (size_t k = 0; k < N; k++) for (size_t i = 0; i < N; i++) {
			if (at(i, k) >= INF) continue;
			for (size_t j = 0; j < N; j++) { I v = satAdd(at(i, k), at(k, j)); if (v < at(i, j)) at(i, j) = v; }
		}
		for (size_t i = 0; i < N; i++) if (at(i, i) < 0) bottom = true;
	}
};
