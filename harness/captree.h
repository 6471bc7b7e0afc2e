// Pattern trees with groups and quantifiers, and a matcher that tries alternatives in order of preference.
#pragma once
#include "pireutil.h"
#include <pire/extra.h>
#include <functional>
namespace cap {
using pbt::Src;
struct N; typedef std::shared_ptr<N> Ptr;
struct N { enum T {Set, Dot, Bol, Eol, Cat, Alt, Grp, Rep} t; std::string set; bool neg=false; std::vector<Ptr> k; int idx=0; int lo=0, hi=-1; bool greedy=true; };
inline Ptr mk(N::T t) { auto p = std::make_shared<N>(); p->t = t; return p; }
struct Opt { int depth = 2; bool empty = false; bool nullableRep = false; bool lazy = true; bool counts = true; bool marks = true; int kids = 4; std::string letters = "ab"; };
inline bool nullable(const Ptr& n) {
	switch (n->t) {
	case N::Cat: for (auto& k : n->k) if (!nullable(k)) return false; return true;
	case N::Alt: for (auto& k : n->k) if (nullable(k)) return true; return false;
	case N::Grp: return nullable(n->k[0]);
	case N::Rep: return n->lo == 0 || nullable(n->k[0]);
	default: return false; }
}
inline Ptr alt(Src& s, const Opt& o, int d);
inline Ptr atom(Src& s, const Opt& o, int d) {
	if (d > 0 && s.chance(2, 5)) { auto g = mk(N::Grp); g->k.push_back(alt(s, o, d - 1)); return g; }
	if (s.chance(1, 6)) return mk(N::Dot);
	auto p = mk(N::Set); size_t n = s.chance(1, 4) ? 2 : 1; for (size_t i = 0; i < n; ++i) p->set += o.letters[s.below(o.letters.size())];
	p->neg = s.chance(1, 10); return p;
}
inline Ptr item(Src& s, const Opt& o, int d) {
	auto a = atom(s, o, d);
	if (!s.chance(2, 5)) return a;
	if (nullable(a) && !o.nullableRep) return a;
	auto r = mk(N::Rep); r->k.push_back(a);
	switch (s.below(o.counts ? 5 : 3)) { case 0: r->lo = 0; r->hi = -1; break; case 1: r->lo = 1; r->hi = -1; break; case 2: r->lo = 0; r->hi = 1; break;
		case 3: r->lo = s.below(3); r->hi = r->lo + 1 + s.below(2); break; case 4: r->lo = s.below(3); r->hi = -1; break; }
	r->greedy = !(o.lazy && s.coin());
	return r;
}
inline Ptr cat(Src& s, const Opt& o, int d) {
	auto c = mk(N::Cat); size_t n = (o.empty && s.chance(1, 6) ? 0 : 1) + s.below(o.kids);
	for (size_t i = 0; i < n; ++i) { if (o.marks && s.chance(1, 25)) c->k.push_back(mk(s.coin() ? N::Bol : N::Eol)); else c->k.push_back(item(s, o, d)); }
	return c;
}
inline Ptr alt(Src& s, const Opt& o, int d) {
	size_t n = s.weighted({5, 3, 1}) + 1;
	if (n == 1) return cat(s, o, d);
	auto a = mk(N::Alt); for (size_t i = 0; i < n; ++i) a->k.push_back(cat(s, o, d)); return a;
}
/// spelling of a letter of the model: utf8 gives some of them more bytes
inline std::string spell(char c, bool utf8) { if (utf8) switch (c) { case 'b': return "\xD1\x8F"; case 'c': return "\xE4\xB8\xAD"; case 'd': return "\xF0\x9F\x98\x80"; } return std::string(1, c); }
inline std::string spellAll(const std::string& t, bool utf8) { std::string r; for (char c : t) r += spell(c, utf8); return r; }
inline void text(const Ptr& n, std::string& r, int& idx, bool utf8 = false) {
	switch (n->t) {
	case N::Set: if (n->set.size() == 1 && !n->neg) r += n->set == "(" || n->set == ")" ? "\\" + n->set : spellAll(n->set, utf8); else r += (n->neg ? "[^" : "[") + spellAll(n->set, utf8) + "]"; break;
	case N::Dot: r += '.'; break; case N::Bol: r += '^'; break; case N::Eol: r += '$'; break;
	case N::Cat: for (auto& k : n->k) text(k, r, idx, utf8); break;
	case N::Alt: for (size_t i = 0; i < n->k.size(); ++i) { if (i) r += '|'; text(n->k[i], r, idx, utf8); } break;
	case N::Grp: n->idx = ++idx; r += '('; text(n->k[0], r, idx, utf8); r += ')'; break;
	case N::Rep: text(n->k[0], r, idx, utf8);
		if (n->lo == 0 && n->hi == -1) r += '*'; else if (n->lo == 1 && n->hi == -1) r += '+'; else if (n->lo == 0 && n->hi == 1) r += '?';
		else { r += "{" + std::to_string(n->lo) + (n->hi == -1 ? ",}" : "," + std::to_string(n->hi) + "}"); n->greedy = true; break; }
		if (!n->greedy) r += '?'; break;
	}
}
/// size of the automaton, roughly
inline size_t weight(const Ptr& n) { size_t r = n->t == N::Set || n->t == N::Dot ? 1 : 0; for (auto& k : n->k) r += weight(k); if (n->t == N::Rep) r *= n->hi < 0 ? n->lo + 1 : n->hi; return std::max<size_t>(r, 1); }
inline std::string sample(Src& s, const Ptr& n, const std::string& any) {
	std::string r;
	switch (n->t) {
	case N::Set: if (!n->neg) return std::string(1, n->set[s.below(n->set.size())]); return std::string(1, any[s.below(any.size())]);
	case N::Dot: return std::string(1, any[s.below(any.size())]);
	case N::Cat: for (auto& k : n->k) r += sample(s, k, any); return r;
	case N::Alt: return sample(s, n->k[s.below(n->k.size())], any);
	case N::Grp: return sample(s, n->k[0], any);
	case N::Rep: { int c = n->lo + s.below(n->hi < 0 ? 3 : n->hi - n->lo + 1); while (c--) r += sample(s, n->k[0], any); return r; }
	default: return r; }
}
struct TooLong {};
struct M { // matcher in order of preference; capture of group `g`: its first iteration
	std::vector<int> w; int g; long b = -1, e = -1; bool loose = false; size_t steps = 0;
	typedef std::function<bool(size_t)> K;
	bool m(const Ptr& n, size_t i, const K& k) {
		if (++steps > 200000) throw TooLong();
		switch (n->t) {
		case N::Set: return i < w.size() && w[i] < 256 && (n->set.find((char)w[i]) != std::string::npos) != n->neg && k(i + 1);
		case N::Dot: return i < w.size() && w[i] < 256 && k(i + 1);
		case N::Bol: return i < w.size() && w[i] == ref::BM && k(i + 1);
		case N::Eol: return i < w.size() && w[i] == ref::EM && k(i + 1);
		case N::Cat: return seq(n, 0, i, k);
		case N::Alt: for (auto& x : n->k) if (m(x, i, k)) return true; return false;
		case N::Grp: if (n->idx != g) return m(n->k[0], i, k); {
			long ob = b, oe = e; bool mine = b < 0; if (mine) b = i;
			if (m(n->k[0], i, [&](size_t j) { long pe = e; if (mine && e < 0) e = j; bool r = k(j); if (!r) e = pe; return r; })) return true;
			b = ob; e = oe; return false; }
		case N::Rep: return rep(n, 0, i, k);
		}
		return false;
	}
	bool seq(const Ptr& n, size_t x, size_t i, const K& k) { if (x == n->k.size()) return k(i); return m(n->k[x], i, [&, x](size_t j) { return seq(n, x + 1, j, k); }); }
	bool rep(const Ptr& n, int c, size_t i, const K& k) {
		bool more = n->hi < 0 || c < n->hi, stop = c >= n->lo;
		auto again = [&] { return more && m(n->k[0], i, [&, c, i](size_t j) { if (j == i && c >= n->lo) return loose && k(j); return rep(n, c + 1, j, k); }); };
		if (!stop) return again();
		if (n->greedy) return again() || k(i);
		return k(i) || again();
	}
};
}
