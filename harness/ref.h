// Reference model of regular languages over the alphabet pire works on: the 256 bytes, the begin mark (258),
// the end mark (259) and one "other" symbol (256, stands for the unused letters). Nothing here uses pire.
#pragma once
#include <bitset>
#include <deque>
#include <memory>
#include <unordered_map>
#include "engine.h"

namespace ref {

enum { OTHER = 256, BM = 258, EM = 259, NSYM = 260 };
typedef std::bitset<NSYM> CharSet;
typedef std::vector<int> Word;

struct TooBig {};

inline CharSet one(int c) { CharSet s; s.set(c); return s; }
inline CharSet range(int a, int b) { CharSet s; for (int c = a; c <= b; ++c) s.set(c); return s; }
inline CharSet bytes() { return range(0, 255); }
inline CharSet allSyms() { CharSet s; s.set(); s.reset(257); return s; }

inline Word toWord(const std::string& s) { Word w; for (unsigned char c : s) w.push_back(c); return w; }
inline Word marked(const std::string& s) { Word w; w.push_back(BM); for (unsigned char c : s) w.push_back(c); w.push_back(EM); return w; }
inline std::string toBytes(const Word& w) { std::string s; for (int c : w) if (c < 256) s += (char)c; return s; }

struct Nfa {
	struct State { std::vector<std::pair<CharSet, int>> edges; std::vector<int> eps; };
	std::vector<State> st;
	std::vector<int> starts;
	std::vector<char> fin;
	int add() { st.emplace_back(); fin.push_back(0); return (int)st.size() - 1; }
	void edge(int a, const CharSet& s, int b) { if (s.any()) st[a].edges.push_back({s, b}); }
	void eps(int a, int b) { st[a].eps.push_back(b); }
};

struct VecHash { size_t operator()(const std::vector<int>& v) const { return pbt::hashBytes(v.data(), v.size() * sizeof(int)); } };

/// A language: a complete minimal deterministic automaton, state 0 is the start
struct Lang {
	uint16_t cls[NSYM];             // letter -> class
	int nc = 1;                     // number of classes
	std::vector<int> rep;           // a member of each class
	std::vector<int> delta;         // delta[state * nc + class]
	std::vector<char> fin;

	size_t size() const { return fin.size(); }
	int next(int s, int sym) const { return delta[s * nc + cls[sym]]; }
	int run(const Word& w, int s = 0) const { for (int c : w) s = next(s, c); return s; }
	bool accepts(const Word& w) const { return fin[run(w)]; }
	/// states from which a final one is reachable
	std::vector<char> alive() const {
		std::vector<std::vector<int>> back(size());
		for (size_t s = 0; s < size(); ++s) for (int c = 0; c < nc; ++c) back[delta[s * nc + c]].push_back((int)s);
		std::vector<char> a(size(), 0);
		std::vector<int> q;
		for (size_t s = 0; s < size(); ++s) if (fin[s]) { a[s] = 1; q.push_back((int)s); }
		while (!q.empty()) { int s = q.back(); q.pop_back(); for (int b : back[s]) if (!a[b]) { a[b] = 1; q.push_back(b); } }
		return a;
	}
	bool empty() const { for (char f : fin) if (f) return false; return true; }
	CharSet classSet(int c) const { CharSet s; for (int i = 0; i < NSYM; ++i) if (i != 257 && cls[i] == c) s.set(i); return s; }

	Nfa nfa() const {
		Nfa n;
		for (size_t s = 0; s < size(); ++s) { n.add(); n.fin[s] = fin[s]; }
		n.starts.push_back(0);
		std::vector<CharSet> cs; for (int c = 0; c < nc; ++c) cs.push_back(classSet(c));
		std::vector<char> al = alive();
		for (size_t s = 0; s < size(); ++s) {
			std::map<int, CharSet> to;
			for (int c = 0; c < nc; ++c) if (al[delta[s * nc + c]]) to[delta[s * nc + c]] |= cs[c];
			for (auto& kv : to) n.edge((int)s, kv.second, kv.first);
		}
		return n;
	}
};

namespace impl {

inline int partition(const std::vector<CharSet>& sets, uint16_t* cls, std::vector<int>& rep) {
	int cur[NSYM]; for (int& c : cur) c = 0;
	int n = 1;
	for (auto& s : sets) {
		std::vector<int> m0(n, -1), m1(n, -1);
		int k = 0;
		for (int c = 0; c < NSYM; ++c) {
			if (c == 257) continue;
			int& t = (s[c] ? m1 : m0)[cur[c]];
			if (t < 0) t = k++;
			cur[c] = t;
		}
		n = k;
	}
	rep.assign(n, -1);
	for (int c = 0; c < NSYM; ++c) { if (c == 257) { cls[c] = 0; continue; } cls[c] = (uint16_t)cur[c]; if (rep[cur[c]] < 0) rep[cur[c]] = c; }
	return n;
}

// Moore minimization with state renumbering from the start state; then merges equivalent letter classes
inline Lang minimize(const Lang& d) {
	size_t n = d.size(); int nc = d.nc;
	std::vector<int> cl(n);
	for (size_t i = 0; i < n; ++i) cl[i] = d.fin[i] ? 1 : 0;
	size_t count = 0;
	for (;;) {
		std::unordered_map<std::vector<int>, int, VecHash> ids;
		std::vector<int> nx(n), key(nc + 1);
		for (size_t i = 0; i < n; ++i) {
			key[nc] = cl[i];
			for (int c = 0; c < nc; ++c) key[c] = cl[d.delta[i * nc + c]];
			nx[i] = ids.emplace(key, (int)ids.size()).first->second;
		}
		cl.swap(nx);
		if (ids.size() == count) break;
		count = ids.size();
	}
	// renumber by BFS
	std::vector<int> num(count, -1), repState; std::deque<int> q;
	num[cl[0]] = 0; repState.push_back(0);
	for (size_t i = 0; i < repState.size(); ++i)
		for (int c = 0; c < nc; ++c) { int t = d.delta[repState[i] * nc + c]; if (num[cl[t]] < 0) { num[cl[t]] = (int)repState.size(); repState.push_back(t); } }
	size_t m = repState.size();
	// merge letter classes with equal columns
	std::unordered_map<std::vector<int>, int, VecHash> cols;
	std::vector<int> cmap(nc), crep;
	for (int c = 0; c < nc; ++c) {
		std::vector<int> col(m);
		for (size_t i = 0; i < m; ++i) col[i] = num[cl[d.delta[repState[i] * nc + c]]];
		auto it = cols.emplace(col, (int)cols.size());
		cmap[c] = it.first->second;
		if (it.second) crep.push_back(c);
	}
	Lang r;
	r.nc = (int)crep.size();
	for (int i = 0; i < NSYM; ++i) r.cls[i] = (uint16_t)cmap[d.cls[i]];
	for (int c : crep) r.rep.push_back(d.rep[c]);
	r.delta.resize(m * r.nc); r.fin.resize(m);
	for (size_t i = 0; i < m; ++i) {
		r.fin[i] = d.fin[repState[i]];
		for (int c = 0; c < r.nc; ++c) r.delta[i * r.nc + c] = num[cl[d.delta[repState[i] * nc + crep[c]]]];
	}
	return r;
}

}

inline Lang determinize(const Nfa& n, size_t limit = 3000) {
	std::vector<CharSet> sets; std::unordered_map<CharSet, char> seen;
	for (auto& s : n.st) for (auto& e : s.edges) if (seen.emplace(e.first, 1).second) sets.push_back(e.first);
	Lang d;
	d.nc = impl::partition(sets, d.cls, d.rep);
	size_t sz = n.st.size();
	// epsilon closures
	std::vector<char> mark(sz, 0);
	auto close = [&](std::vector<int>& v) {
		for (size_t i = 0; i < v.size(); ++i) mark[v[i]] = 1;
		for (size_t i = 0; i < v.size(); ++i) for (int t : n.st[v[i]].eps) if (!mark[t]) { mark[t] = 1; v.push_back(t); }
		for (int x : v) mark[x] = 0;
		std::sort(v.begin(), v.end());
	};
	std::unordered_map<std::vector<int>, int, VecHash> ids;
	std::vector<std::vector<int>> list;
	auto id = [&](std::vector<int>&& v) {
		std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end());
		close(v);
		auto it = ids.find(v);
		if (it != ids.end()) return it->second;
		int k = (int)list.size();
		if (list.size() >= limit) throw TooBig();
		ids.emplace(v, k); list.push_back(std::move(v));
		return k;
	};
	id(std::vector<int>(n.starts));
	for (size_t i = 0; i < list.size(); ++i) {
		std::vector<std::vector<int>> to(d.nc);
		for (int s : list[i]) for (auto& e : n.st[s].edges) for (int c = 0; c < d.nc; ++c) if (e.first[d.rep[c]]) to[c].push_back(e.second);
		for (int c = 0; c < d.nc; ++c) { int t = id(std::move(to[c])); d.delta.push_back(t); }
	}
	for (auto& v : list) { char f = 0; for (int s : v) f |= n.fin[s]; d.fin.push_back(f); }
	return impl::minimize(d);
}

inline Lang none() { Nfa n; n.starts.push_back(n.add()); return determinize(n); }
inline Lang epsilon() { Nfa n; int s = n.add(); n.starts.push_back(s); n.fin[s] = 1; return determinize(n); }
inline Lang chars(const CharSet& c) { Nfa n; int a = n.add(), b = n.add(); n.starts.push_back(a); n.fin[b] = 1; n.edge(a, c, b); return determinize(n); }
inline Lang sym(int c) { return chars(one(c)); }
inline Lang word(const Word& w) { Nfa n; int a = n.add(); n.starts.push_back(a); for (int c : w) { int b = n.add(); n.edge(a, one(c), b); a = b; } n.fin[a] = 1; return determinize(n); }
inline Lang words(const std::vector<Word>& ws) {
	Nfa n; int r = n.add(); n.starts.push_back(r);
	for (auto& w : ws) { int a = r; for (int c : w) { int b = n.add(); n.edge(a, one(c), b); a = b; } n.fin[a] = 1; }
	return determinize(n);
}
inline Lang anything() { Nfa n; int s = n.add(); n.starts.push_back(s); n.fin[s] = 1; n.edge(s, allSyms(), s); return determinize(n); }

inline int append(Nfa& a, const Nfa& b) {
	int off = (int)a.st.size();
	for (auto& s : b.st) {
		int k = a.add();
		for (auto& e : s.edges) a.edge(k, e.first, e.second + off);
		for (int t : s.eps) a.eps(k, t + off);
	}
	return off;
}
inline Lang cat(const Lang& x, const Lang& y) {
	Nfa a = x.nfa(), b = y.nfa();
	size_t na = a.st.size();
	int off = append(a, b);
	for (size_t i = 0; i < na; ++i) if (a.fin[i]) { a.eps((int)i, off + b.starts[0]); a.fin[i] = 0; }
	for (size_t i = 0; i < b.st.size(); ++i) a.fin[off + i] = b.fin[i];
	return determinize(a);
}
// product construction
template<class F> Lang product(const Lang& x, const Lang& y, F f, size_t limit = 6000) {
	Lang d;
	std::map<std::pair<int, int>, int> cm; std::vector<std::pair<int, int>> cl;
	for (int i = 0; i < NSYM; ++i) {
		if (i == 257) { d.cls[i] = 0; continue; }
		auto k = std::make_pair((int)x.cls[i], (int)y.cls[i]);
		auto it = cm.emplace(k, (int)cl.size());
		if (it.second) { cl.push_back(k); d.rep.push_back(i); }
		d.cls[i] = (uint16_t)it.first->second;
	}
	d.nc = (int)cl.size();
	std::map<std::pair<int, int>, int> ids; std::vector<std::pair<int, int>> list;
	auto id = [&](int a, int b) { auto it = ids.emplace(std::make_pair(a, b), (int)list.size()); if (it.second) { if (list.size() >= limit) throw TooBig(); list.push_back({a, b}); } return it.first->second; };
	id(0, 0);
	for (size_t i = 0; i < list.size(); ++i)
		for (int c = 0; c < d.nc; ++c) d.delta.push_back(id(x.delta[list[i].first * x.nc + cl[c].first], y.delta[list[i].second * y.nc + cl[c].second]));
	for (auto& p : list) d.fin.push_back(f(x.fin[p.first] != 0, y.fin[p.second] != 0));
	return impl::minimize(d);
}
inline Lang alt(const Lang& x, const Lang& y) { return product(x, y, [](bool a, bool b) { return a || b; }); }
inline Lang both(const Lang& x, const Lang& y) { return product(x, y, [](bool a, bool b) { return a && b; }); }
inline Lang minus(const Lang& x, const Lang& y) { return product(x, y, [](bool a, bool b) { return a && !b; }); }
inline Lang inverse(const Lang& x) { Lang r = x; for (auto& f : r.fin) f = !f; return r; }
inline Lang star(const Lang& x) {
	Nfa a = x.nfa(); int n = a.add();
	a.eps(n, 0); a.starts[0] = n;
	for (int i = 0; i < n; ++i) if (a.fin[i]) a.eps(i, n);
	a.fin[n] = 1;
	return determinize(a);
}
inline Lang power(const Lang& x, size_t k) { Lang r = epsilon(); while (k--) r = cat(r, x); return r; }
/// lo..hi repetitions, hi < 0 is unbounded
inline Lang repeat(const Lang& x, int lo, int hi) {
	Lang r = power(x, lo);
	if (hi < 0) return cat(r, star(x));
	Lang o = alt(x, epsilon());
	for (int i = lo; i < hi; ++i) r = cat(r, o);
	return r;
}
inline Lang reversed(const Lang& x) {
	Nfa a = x.nfa(), b;
	for (size_t i = 0; i < a.st.size(); ++i) b.add();
	for (size_t i = 0; i < a.st.size(); ++i) { for (auto& e : a.st[i].edges) b.edge(e.second, e.first, (int)i); if (a.fin[i]) b.starts.push_back((int)i); }
	b.fin[0] = 1;
	return determinize(b);
}
inline Lang prefixes(const Lang& x) { Lang r = x; r.fin = x.alive(); return impl::minimize(r); }
inline Lang suffixes(const Lang& x) { return reversed(prefixes(reversed(x))); }
inline Lang surrounded(const Lang& x) { return cat(cat(anything(), x), anything()); }

/// Empty string if equal, else a shortest word in the difference
inline bool differ(const Lang& x, const Lang& y, Word* witness) {
	std::map<std::pair<int, int>, std::pair<std::pair<int, int>, int>> par;
	std::deque<std::pair<int, int>> q;
	auto start = std::make_pair(0, 0);
	par[start] = {start, -1}; q.push_back(start);
	// joint classes
	std::vector<int> reps; std::set<std::pair<int, int>> seen;
	for (int i = 0; i < NSYM; ++i) if (i != 257 && seen.insert({x.cls[i], y.cls[i]}).second) reps.push_back(i);
	while (!q.empty()) {
		auto p = q.front(); q.pop_front();
		if ((x.fin[p.first] != 0) != (y.fin[p.second] != 0)) {
			if (witness) { witness->clear(); while (par[p].second >= 0) { witness->push_back(par[p].second); p = par[p].first; } std::reverse(witness->begin(), witness->end()); }
			return true;
		}
		for (int c : reps) {
			auto t = std::make_pair(x.next(p.first, c), y.next(p.second, c));
			if (par.emplace(t, std::make_pair(p, c)).second) q.push_back(t);
		}
	}
	return false;
}
inline bool equal(const Lang& x, const Lang& y) { return !differ(x, y, nullptr); }

/// A random word which tends to reach interesting states. `onlyBytes`: no marks.
inline Word randomWord(pbt::Src& src, const Lang& l, size_t maxLen, bool onlyBytes = false, bool wantAccepted = true) {
	Word w; int s = 0;
	std::vector<char> al = l.alive();
	std::vector<CharSet> cs; for (int c = 0; c < l.nc; ++c) cs.push_back(onlyBytes ? (l.classSet(c) & bytes()) : l.classSet(c));
	size_t len = src.len(0, maxLen);
	bool stray = !wantAccepted || src.chance(1, 5);
	while (w.size() < len + (wantAccepted ? 30 : 0)) {
		if (w.size() >= len && (!wantAccepted || l.fin[s] || !al[s])) break;
		std::vector<int> good, any;
		for (int c = 0; c < l.nc; ++c) if (cs[c].any()) { any.push_back(c); if (al[l.delta[s * l.nc + c]]) good.push_back(c); }
		int c;
		if (!good.empty() && !(stray && src.chance(1, 6))) c = good[src.below(good.size())];
		else if (!any.empty()) c = any[src.below(any.size())];
		else break;
		// a member of the class, prefer the first or the last one
		size_t k = cs[c].count();
		size_t pos = k <= 2 ? src.below(k) : src.chance(1, 2) ? (src.coin() ? k - 1 : 0) : src.below(k);
		int sym = -1;
		for (int i = 0; i < NSYM; ++i) if (cs[c][i]) { if (!pos) { sym = i; break; } --pos; }
		w.push_back(sym);
		s = l.next(s, sym);
	}
	return w;
}

/// Language of one code point range in structural UTF-8 (shortest form)
inline void utf8Split(uint32_t a, uint32_t b, std::vector<std::vector<std::pair<int, int>>>& out) {
	auto enc = [](uint32_t c, int* p) -> int {
		if (c < 0x80) { p[0] = c; return 1; }
		if (c < 0x800) { p[0] = 0xC0 | (c >> 6); p[1] = 0x80 | (c & 63); return 2; }
		if (c < 0x10000) { p[0] = 0xE0 | (c >> 12); p[1] = 0x80 | ((c >> 6) & 63); p[2] = 0x80 | (c & 63); return 3; }
		p[0] = 0xF0 | (c >> 18); p[1] = 0x80 | ((c >> 12) & 63); p[2] = 0x80 | ((c >> 6) & 63); p[3] = 0x80 | (c & 63); return 4;
	};
	static const uint32_t lim[] = {0x7F, 0x7FF, 0xFFFF, 0x1FFFFF};
	for (uint32_t l : lim) if (a <= l && b > l) { utf8Split(a, l, out); utf8Split(l + 1, b, out); return; }
	int n = a < 0x80 ? 1 : a < 0x800 ? 2 : a < 0x10000 ? 3 : 4;
	for (int i = 1; i < n; ++i) {
		uint32_t m = (1u << (6 * i)) - 1;
		if ((a & ~m) != (b & ~m)) {
			if (a & m) { utf8Split(a, a | m, out); utf8Split((a | m) + 1, b, out); return; }
			if ((b & m) != m) { utf8Split(a, (b & ~m) - 1, out); utf8Split(b & ~m, b, out); return; }
		}
	}
	int pa[4], pb[4]; enc(a, pa); enc(b, pb);
	std::vector<std::pair<int, int>> v;
	for (int i = 0; i < n; ++i) v.push_back({pa[i], pb[i]});
	out.push_back(v);
}
inline Lang codePoints(const std::vector<std::pair<uint32_t, uint32_t>>& ranges) {
	Nfa n; int s = n.add(), f = n.add(); n.starts.push_back(s); n.fin[f] = 1;
	std::vector<std::vector<std::pair<int, int>>> seqs;
	for (auto& r : ranges) if (r.first <= r.second) utf8Split(r.first, r.second, seqs);
	for (auto& q : seqs) { int a = s; for (size_t i = 0; i < q.size(); ++i) { int b = i + 1 == q.size() ? f : n.add(); n.edge(a, range(q[i].first, q[i].second), b); a = b; } }
	return determinize(n);
}
/// '.' in UTF-8: any structurally well-formed sequence of 1..4 bytes
inline Lang utf8Dot() {
	Nfa n; int s = n.add(), f = n.add(); n.starts.push_back(s); n.fin[f] = 1;
	int c1 = n.add(), c2 = n.add(), c3 = n.add();
	CharSet cont = range(0x80, 0xBF);
	n.edge(s, range(0, 0x7F), f); n.edge(s, range(0xC0, 0xDF), c1); n.edge(s, range(0xE0, 0xEF), c2); n.edge(s, range(0xF0, 0xF7), c3);
	n.edge(c3, cont, c2); n.edge(c2, cont, c1); n.edge(c1, cont, f);
	return determinize(n);
}
inline std::string utf8(uint32_t c) {
	std::string s;
	if (c < 0x80) s += (char)c;
	else if (c < 0x800) { s += (char)(0xC0 | (c >> 6)); s += (char)(0x80 | (c & 63)); }
	else if (c < 0x10000) { s += (char)(0xE0 | (c >> 12)); s += (char)(0x80 | ((c >> 6) & 63)); s += (char)(0x80 | (c & 63)); }
	else { s += (char)(0xF0 | (c >> 18)); s += (char)(0x80 | ((c >> 12) & 63)); s += (char)(0x80 | ((c >> 6) & 63)); s += (char)(0x80 | (c & 63)); }
	return s;
}

}
