// C22: automata edited by hand against a set-of-edges model.
#include "genfsm.h"
using namespace pbt;
using namespace pu;
namespace P = Pire;

typedef std::pair<size_t, size_t> Pr;
struct Model {
	size_t n = 1, init = 0;
	std::map<Pr, ref::CharSet> edges;    // 257 stands for the empty transition
	std::set<size_t> fin{0};
	std::map<size_t, unsigned long> tags;
	std::map<Pr, unsigned long> out;

	ref::Nfa nfa() const {
		ref::Nfa r;
		for (size_t i = 0; i < n; ++i) { r.add(); r.fin[i] = fin.count(i) != 0; }
		r.starts.push_back((int)init);
		for (auto& e : edges) { ref::CharSet s = e.second; if (s[257]) r.eps((int)e.first.first, (int)e.first.second); s.reset(257); r.edge((int)e.first.first, s, (int)e.first.second); }
		return r;
	}
	void import(const Model& o) {
		for (auto& e : o.edges) edges[Pr(e.first.first + n, e.first.second + n)] = e.second;
		for (auto& e : o.out) out[Pr(e.first.first + n, e.first.second + n)] = e.second;
		for (auto& t : o.tags) tags[t.first + n] = t.second;
		n += o.n;
	}
};
struct Auto { P::Fsm f; Model m; bool sparsed = false; bool clean = true; /* single initial structure usable by the building operations */ };

static std::string showSet(const std::set<size_t>& v) { std::string s = "{"; for (size_t x : v) s += str(s.size() > 1 ? "," : "", x); return s + "}"; }

static void queries(const Auto& a, const std::string& d, Ctx& ctx) {
	const Model& m = a.m; const P::Fsm& f = a.f;
	if (f.Size() != m.n) fail(str(d, ": ", f.Size(), " states, should be ", m.n));
	if (f.Initial() != m.init) fail(str(d, ": initial state ", f.Initial(), ", should be ", m.init));
	std::set<size_t> fin(f.Finals().begin(), f.Finals().end());
	if (fin != m.fin) fail(str(d, ": final states ", showSet(fin), ", should be ", showSet(m.fin)));
	std::vector<std::map<int, std::set<size_t>>> by(m.n);
	for (auto& e : m.edges) for (int c = 0; c < ref::NSYM; ++c) if (e.second[c]) by[e.first.first][c].insert(e.first.second);
	for (size_t s = 0; s < m.n; ++s) {
		if (f.IsFinal(s) != (m.fin.count(s) != 0)) fail(str(d, ": IsFinal(", s, ")"));
		auto t = m.tags.find(s);
		if (f.Tag(s) != (t == m.tags.end() ? 0 : t->second)) fail(str(d, ": tag of ", s, " is ", f.Tag(s)));
		std::set<int> letters;
		for (int c = 0; c < ref::NSYM; ++c) {
			const auto& g = f.Destinations(s, (P::Char)c);
			auto w = by[s].find(c);
			bool same = w == by[s].end() ? g.empty() : g.size() == w->second.size() && std::equal(g.begin(), g.end(), w->second.begin());
			if (!same) fail(str(d, ": destinations of ", s, " by ", c, " are ", showSet(std::set<size_t>(g.begin(), g.end())), ", should be ", showSet(w == by[s].end() ? std::set<size_t>() : w->second)));
			if (w != by[s].end()) letters.insert(c);
		}
		auto ol = f.OutgoingLetters(s);
		std::set<int> got; for (auto c : ol) { if ((int)c < ref::NSYM && c != 256) got.insert((int)c); }
		letters.erase(256);
		if (got != letters) { std::string x; for (int c : got) if (!letters.count(c)) x += str(" +", c); for (int c : letters) if (!got.count(c)) x += str(" -", c); fail(str(d, ": outgoing letters of ", s, " are wrong:", x.substr(0, 60))); }
		for (size_t t2 = 0; t2 < m.n; ++t2) {
			auto e = m.edges.find(Pr(s, t2));
			bool conn = e != m.edges.end() && e->second.any();
			if (f.Connected(s, t2) != conn) fail(str(d, ": Connected(", s, ", ", t2, ") is ", !conn));
			for (int c : {(int)'a', (int)'b', 0, 255, 257, (int)ref::BM, (int)ref::EM}) if (f.Connected(s, t2, (P::Char)c) != (conn && e->second[c])) fail(str(d, ": Connected(", s, ", ", t2, ", ", c, ") is wrong"));
			auto o = m.out.find(Pr(s, t2));
			if (f.Output(s, t2) != (o == m.out.end() ? 0 : o->second)) fail(str(d, ": output of ", s, "->", t2, " is ", f.Output(s, t2), ", should be ", o == m.out.end() ? 0 : o->second));
		}
	}
	ctx.count(m.n);
}
static void language(const Auto& a, const std::string& d, Src& src, Ctx& ctx) {
	ref::Lang l; try { l = ref::determinize(a.m.nfa(), 400); } catch (ref::TooBig&) { return; }
	P::Fsm x(a.f);
	if (!x.Determine(400)) return;
	bool tagged = false; for (auto& t : a.m.tags) tagged |= t.second != 0;   // tags mean final to SimpleScanner and SlowScanner
	switch (src.below(tagged ? 3 : 5)) {
	case 0: { P::Fsm c(a.f); expectScanner(P::Scanner(c), l, d + " compiled as Scanner", &ctx); break; }
	case 1: { P::Fsm c(a.f); expectScanner(c.Compile<P::NonrelocScannerNoMask>(), l, d + " compiled as NonrelocScannerNoMask", &ctx); break; }
	case 4: { P::Fsm c(a.f); expectScanner(c.Compile<P::SimpleScanner>(), l, d + " compiled as SimpleScanner", &ctx); break; }
	case 3: { P::Fsm c(a.f); expectScanner(P::SlowScanner(c), l, d + " compiled as SlowScanner", &ctx); break; }
	default: { P::Fsm c(a.f); c.RemoveEpsilons(); expectFsm(c, l, d + " without empty transitions", &ctx); if (src.coin()) { c.Canonize(); expectFsm(c, l, d + " canonized", &ctx); } }
	}
}
// after an operation which renumbers states: check the language, take over the structure
static void reread(Auto& a, const ref::Lang* l, const std::string& d, Ctx& ctx) {
	if (l) expectFsm(a.f, *l, d, &ctx);
	Model m; m.n = a.f.Size(); m.init = a.f.Initial(); m.fin = std::set<size_t>(a.f.Finals().begin(), a.f.Finals().end());
	for (size_t s = 0; s < m.n; ++s) {
		if (a.f.Tag(s)) m.tags[s] = a.f.Tag(s);
		for (int c = 0; c < ref::NSYM; ++c) for (size_t t : a.f.Destinations(s, (P::Char)c)) m.edges[Pr(s, t)].set(c);
		for (size_t t = 0; t < m.n; ++t) if (a.f.Output(s, t)) m.out[Pr(s, t)] = a.f.Output(s, t);
	}
	a.m = m;
}
static void unpack(Auto& a, std::string& d, size_t k) { if (a.sparsed) { a.f.Unsparse(); a.sparsed = false; d += str(" ", k, ".Unsparse()"); } }

static void edits(Src& src, Ctx& ctx) {
	Auto v[3];
	std::string d;
	size_t steps = 2 + src.len(2, 28), kinds = 0; std::set<size_t> used;
	if (src.chance(1, 4)) { size_t n = 2 + src.below(5); v[0].f.Resize(n); v[0].m.n = n; d = str(" 0.Resize(", n, ")"); }
	// some histories dwell on a few kinds of edits
	std::vector<size_t> boost;
	if (src.coin()) { size_t n = 2 + src.below(2); while (n--) boost.push_back(src.below(23)); if (src.chance(1, 3)) boost = {10, 5}; }
	for (size_t i = 0; i < steps; ++i) {
		size_t k = src.weighted({5, 3, 2});
		Auto& a = v[k]; Model& m = a.m;
		size_t s = src.below(m.n), t = src.below(m.n);
		static const int letters[] = {'a', 'b', 'c', 0, 255, 128, 257, ref::BM, ref::EM};
		int c = letters[src.below(9)];
		size_t op = boost.empty() || src.coin() ? src.weighted({6, 14, 4, 4, 4, 4, 3, 4, 5, 4, 4, 2, 2, 2, 2, 3, 1, 1, 2, 2, 2, 2, 1}) : src.pick(boost);
		used.insert(op);
		switch (op) {
		case 0: { if (m.n > 12) break; size_t add = 1 + src.below(4); if (a.f.Resize(m.n + add) != m.n) fail(d + ": Resize() returned a wrong number"); m.n += add; d += str(" ", k, ".Resize(", m.n, ")"); break; }
		case 1: { unpack(a, d, k);
			if (src.chance(1, 5)) { int x = src.below(256), y = src.range(x, 255); for (int q = x; q <= y; ++q) { a.f.Connect(s, t, (P::Char)q); m.edges[Pr(s, t)].set(q); } d += str(" ", k, ".Connect(", s, ",", t, ",[", x, "-", y, "])"); }
			else { if (c == 257 && src.coin()) a.f.Connect(s, t); else a.f.Connect(s, t, (P::Char)c); m.edges[Pr(s, t)].set(c); d += str(" ", k, ".Connect(", s, ",", t, ",", c, ")"); }
			break; }
		case 2: { unpack(a, d, k);
			std::vector<std::pair<Pr, int>> all; for (auto& e : m.edges) for (int q = 0; q < ref::NSYM; ++q) if (e.second[q]) all.push_back({e.first, q});
			if (!all.empty() && src.chance(4, 5)) { auto x = all[src.below(all.size())]; s = x.first.first; t = x.first.second; c = x.second; }
			a.f.Disconnect(s, t, (P::Char)c); m.edges[Pr(s, t)].reset(c); d += str(" ", k, ".Disconnect(", s, ",", t, ",", c, ")"); break; }
		case 3: { if (!m.edges.empty() && src.chance(4, 5)) { auto e = src.pick(m.edges); s = e.first.first; t = e.first.second; }
			a.f.Disconnect(s, t); m.edges.erase(Pr(s, t)); d += str(" ", k, ".Disconnect(", s, ",", t, ")"); break; }
		case 4: { unpack(a, d, k); a.f.ConnectFinal(t, (P::Char)c); for (size_t x : m.fin) m.edges[Pr(x, t)].set(c); d += str(" ", k, ".ConnectFinal(", t, ",", c, ")"); break; }
		case 5: { size_t w = src.below(m.n);
			if (!m.edges.empty() && src.chance(4, 5)) { auto e = src.pick(m.edges); s = e.first.first; t = e.first.second; }
			// often onto a transition that is there already
			if (src.coin()) { std::vector<Pr> to; for (auto& e : m.out) if (e.second) to.push_back(e.first); if (!to.empty()) { auto e = src.pick(to); s = e.first; t = e.second; } }
			if (src.coin()) { std::vector<size_t> to; for (auto& e : m.out) if (e.second && e.first.first == s && e.first.second != t) to.push_back(e.first.second); if (to.empty()) for (auto& e : m.edges) if (e.first.first == s && e.first.second != t) to.push_back(e.first.second); if (!to.empty()) w = src.pick(to); }
			a.f.Divert(s, t, w); d += str(" ", k, ".Divert(", s, ",", t, ",", w, ")");
			if (w != t) {
				auto e = m.edges.find(Pr(s, t)); if (e != m.edges.end()) { ref::CharSet cs = e->second; m.edges.erase(e); m.edges[Pr(s, w)] |= cs; }
				auto o = m.out.find(Pr(s, t)); if (o != m.out.end()) { unsigned long x = o->second; m.out.erase(o); m.out[Pr(s, w)] |= x; }
			}
			break; }
		case 6: { size_t j = src.below(3); if (m.n + v[j].m.n > 16) break; Model o = v[j].m; a.f.Import(v[j].f); m.import(o); a.sparsed = false; d += str(" ", k, ".Import(", j, ")"); break; }
		case 7: a.f.SetInitial(s); m.init = s; d += str(" ", k, ".SetInitial(", s, ")"); break;
		case 8: a.f.SetFinal(s, true); m.fin.insert(s); d += str(" ", k, ".SetFinal(", s, ")"); break;
		case 9: if (src.coin()) { a.f.SetFinal(s, false); m.fin.erase(s); d += str(" ", k, ".SetFinal(", s, ",false)"); } else { a.f.ClearFinal(); m.fin.clear(); d += str(" ", k, ".ClearFinal()"); } break;
		case 10: { unsigned long x = src.below(4) << src.below(20); if (!m.edges.empty() && src.chance(4, 5)) { auto e = src.pick(m.edges); s = e.first.first; t = e.first.second; }
			a.f.SetOutput(s, t, x); m.out[Pr(s, t)] = x; d += str(" ", k, ".SetOutput(", s, ",", t, ",", x, ")"); break; }
		case 11: a.f.ClearOutputs(); m.out.clear(); d += str(" ", k, ".ClearOutputs()"); break;
		case 12: { unsigned long x = 4 * src.below(3); a.f.SetTag(s, x); m.tags[s] = x; d += str(" ", k, ".SetTag(", s, ",", x, ")"); break; }
		case 13: { size_t j = src.below(3); if (src.coin()) v[k] = Auto(v[j]); else { P::Fsm c2(v[j].f); a.f = c2; a.m = v[j].m; a.sparsed = v[j].sparsed; } d += str(" ", k, "=", j); break; }
		case 14: { size_t j = src.below(3); a.f.Swap(v[j].f); std::swap(a.m, v[j].m); std::swap(a.sparsed, v[j].sparsed); d += str(" ", k, ".Swap(", j, ")"); break; }
		case 15: { if (src.coin()) { a.f.Sparse(src.coin()); a.sparsed = true; d += str(" ", k, ".Sparse()"); } else { a.f.Unsparse(); a.sparsed = false; d += str(" ", k, ".Unsparse()"); } break; }
		case 16: { if (src.coin()) a.f = P::Fsm(), m = Model(); else { a.f = P::Fsm::MakeFalse(); m = Model(); m.fin.clear(); } a.sparsed = false; d += str(" ", k, "=new"); break; }
		// operations which build on the structure: the language is known, the structure is read again
		case 17: case 18: case 19: case 20: case 21: case 22: {
			ref::Lang l, l2; size_t j = src.below(3);
			try { l = ref::determinize(m.nfa(), 200); l2 = ref::determinize(v[j].m.nfa(), 200); } catch (ref::TooBig&) { break; }
			if (m.n + v[j].m.n > 16) break;
			if (op == 17) { P::Fsm x(a.f); if (!x.Determine(60)) break; bool mini = src.coin(); a.f = x; if (mini) a.f.Minimize(); d += str(" ", k, mini ? ".Determine(),Minimize()" : ".Determine()"); reread(a, &l, d, ctx); if (!a.f.IsDetermined()) fail(d + ": not determined"); a.f.SetIsDetermined(false); a.sparsed = true; break; }
			unpack(a, d, k); unpack(v[j], d, j);
			try {
			if (op == 18) { l = ref::alt(l, l2); d += str(" ", k, "|=", j); a.f |= v[j].f; }
			else if (op == 19) { l = ref::cat(l, l2); d += str(" ", k, "+=", j); a.f += v[j].f; }
			else if (op == 20) { l = ref::star(l); d += str(" ", k, ".Iterate()"); a.f.Iterate(); }
			else if (op == 21) { l = ref::cat(l, ref::sym('a')); d += str(" ", k, ".Append(a)"); a.f.Append('a'); }
			else { l = ref::reversed(l); d += str(" ", k, ".Reverse()"); Model o = m; a.f.Reverse();
				for (size_t x = 0; x < o.n; ++x) { auto tg = o.tags.find(x); if (a.f.Tag(x) != (tg == o.tags.end() ? 0 : tg->second)) fail(d + ": tags were not kept"); for (size_t y = 0; y < o.n; ++y) { auto z = o.out.find(Pr(y, x)); if (a.f.Output(x, y) != (z == o.out.end() ? 0 : z->second)) fail(d + ": outputs were not inverted"); } }
			}
			reread(a, &l, d, ctx);
			} catch (ref::TooBig&) { discard(); }
			break; }
		}
		ctx.publish(d);
		for (auto& x : v) queries(x, d, ctx);
		if (src.chance(1, 5)) language(v[k], d, src, ctx);
	}
	ctx.describe(d);
	for (auto& x : v) language(x, d, src, ctx);
	(void)kinds;
	if (used.size() >= 4) ctx.nontrivial(d);
}

// building operations carry tags and outputs along
static void carried(Src& src, Ctx& ctx) {
	gen::RawOptions o; o.maxStates = 5; o.tags = true; o.maxTag = 7;
	auto make = [&](std::string& d) {
		Auto a; gen::Raw r = gen::raw(src, o); a.f = r.fsm; d += r.text;
		for (size_t s = 0; s < a.f.Size(); ++s) for (size_t t = 0; t < a.f.Size(); ++t) if (a.f.Connected(s, t) && src.chance(1, 3)) { unsigned long x = 1 + src.below(6); a.f.SetOutput(s, t, x); d += str(" out ", s, "->", t, "=", x); }
		reread(a, nullptr, "", ctx); return a;
	};
	std::string dx, dy; Auto x = make(dx), y = make(dy);
	size_t op = src.below(4);
	std::string d = str(dx, op == 0 ? " | " : op == 1 ? " + " : op == 2 ? " * " : " surrounded ", op < 2 ? dy : "");
	ctx.describe(d);
	P::Fsm f(x.f);
	if (op == 0) f |= y.f; else if (op == 1) f += y.f; else if (op == 2) f.Iterate(); else f.Surround();
	// Surround() puts something in front: there the old states are found by matching both orders of import
	auto has = [&](const Model& m, size_t off) {
		for (auto& t : m.tags) if (f.Tag(t.first + off) != t.second) return false;
		for (auto& e : m.out) if (e.first.first + off >= f.Size() || f.Output(e.first.first + off, e.first.second + off) != e.second) return false;
		return true;
	};
	bool ok = false;
	if (op < 2) ok = has(x.m, 0) && has(y.m, x.m.n);
	else for (size_t off = 0; off + x.m.n <= f.Size(); ++off) ok |= has(x.m, off);
	if (!ok) fail(d + ": tags or outputs of an operand are lost");
	// appended: leaving the left part by a transition of the right initial state carries its output
	if (op == 1) for (size_t s : x.m.fin) for (auto& e : y.m.out) if (e.first.first == y.m.init && f.Output(s, e.first.second + x.m.n) != e.second) fail(d + ": an output of the initial state of the right part is lost");
	if (!x.m.out.empty() || !x.m.tags.empty()) ctx.nontrivial(d);
	ctx.count(4);
}

// empty transitions: nothing an automaton outputs on the way is lost when they are removed, and nothing is made up
static void outputs(Src& src, Ctx& ctx) {
	gen::RawOptions o; o.maxStates = 6; o.wide = false; gen::Raw r = gen::raw(src, o);
	Auto a; a.f = r.fsm; std::string d = r.text;
	size_t extra = src.below(5);
	while (extra--) { size_t s = src.below(a.f.Size()), t = src.below(a.f.Size()); a.f.Connect(s, t); d += str(" ", s, "-eps->", t); }
	unsigned long bit = 1;
	for (size_t s = 0; s < a.f.Size(); ++s) for (size_t t = 0; t < a.f.Size(); ++t) if (a.f.Connected(s, t) && src.chance(1, 2)) { a.f.SetOutput(s, t, bit); d += str(" out ", s, "->", t, "=", bit); bit <<= 1; }
	ctx.describe(d);
	reread(a, nullptr, "", ctx);
	const Model& m = a.m;
	auto outOf = [&](size_t s, size_t t) { auto i = m.out.find(Pr(s, t)); return i == m.out.end() ? 0ul : i->second; };
	P::Fsm f(a.f); f.RemoveEpsilons();
	bool used = false;
	for (size_t s = 0; s < m.n; ++s) {
		// ways along empty transitions which visit no state twice; the third part is the set of states visited
		typedef std::tuple<size_t, unsigned long, unsigned> Way; std::set<Way> seen; std::vector<Way> q;
		unsigned long all = 0;
		q.push_back(Way(s, 0, 1u << s)); seen.insert(q[0]);
		for (size_t i = 0; i < q.size() && i < 2000; ++i) {
			auto x = q[i];
			for (auto& e : m.edges) if (e.first.first == std::get<0>(x)) {
				size_t t = e.first.second, at = std::get<0>(x); unsigned vis = std::get<2>(x); unsigned long msk = std::get<1>(x) | outOf(at, t);
				ref::CharSet cs = e.second;
				if (cs[257] && !(vis & (1u << t))) { Way w(t, msk, vis | (1u << t)); if (seen.insert(w).second) q.push_back(w); }
				all |= msk;
				cs.reset(257);
				for (int c = 0; c < ref::NSYM; ++c) if (cs[c]) {
					if (!f.Connected(s, t, (P::Char)c)) fail(str(d, ": no transition ", s, "-", c, "->", t, " after removing the empty ones"));
					if (msk & ~f.Output(s, t)) fail(str(d, ": output ", msk & ~f.Output(s, t), " on the way from ", s, " to ", t, " through ", at, " is lost with the empty transitions"));
					if (msk && at != s) used = true;
				}
			}
		}
		for (size_t t = 0; t < m.n; ++t) if (f.Connected(s, t)) {
			unsigned long may = all;
			if (f.Output(s, t) & ~may) fail(str(d, ": output ", f.Output(s, t) & ~may, " from ", s, " to ", t, " comes from nowhere"));
		}
	}
	ctx.count(m.n);
	if (used) ctx.nontrivial(d);
}
// unions of unions keep what their starting transitions output
static void unionOutputs(Src& src, Ctx& ctx) {
	std::string d;
	auto make = [&](size_t n) { P::Fsm f; for (size_t i = 0; i < n; ++i) { P::Fsm x; x.Append("abc"[src.below(3)]); if (i) f |= x; else f = x; }
		for (size_t t = 0; t < f.Size(); ++t) if (f.Connected(f.Initial(), t) && src.coin()) { unsigned long x = 1 + src.below(7); f.SetOutput(f.Initial(), t, x); d += str(" out ", f.Initial(), "->", t, "=", x); } return f; };
	size_t a = 1 + src.below(3), b = 1 + src.below(3);
	d = str("union of ", a); P::Fsm x = make(a); d += str(" | union of ", b); P::Fsm y = make(b);
	ctx.describe(d);
	P::Fsm f(x); f |= y;
	f.RemoveEpsilons();
	P::Fsm ex(x), ey(y); ex.RemoveEpsilons(); ey.RemoveEpsilons();
	for (int side = 0; side < 2; ++side) { const P::Fsm& e = side ? ey : ex; size_t off = side ? x.Size() : 0;
		for (size_t t = 0; t < e.Size(); ++t) if (e.Connected(e.Initial(), t)) { unsigned long w = e.Output(e.Initial(), t); if (w & ~f.Output(f.Initial(), t + off)) fail(str(d, ": output ", w, " of the ", side ? "right" : "left", " operand on its first transition to ", t, " became ", f.Output(f.Initial(), t + off))); } }
	ctx.count(2); ctx.nontrivial(d);
}

// chains of alternatives of which some were edited in between
static void alternatives(Src& src, Ctx& ctx) {
	std::string d; P::Fsm f; ref::Lang l; bool first = true;
	auto piece = [&](ref::Lang& pl, std::string& t) {
		pat::Options o; o.depth = 1; o.maxTerms = 3; o.letters = "abc"; P::Fsm p;
		size_t n = 1 + src.below(3); pl = ref::none(); bool fst = true;
		for (size_t i = 0; i < n; ++i) { ref::Lang x; std::string y; P::Fsm q = gen::parsed(src, x, y, o); if (fst) p = q; else p |= q; pl = ref::alt(pl, x); t += (fst ? "" : "|") + y; fst = false; }
		switch (src.below(6)) {
		case 1: { p.SetFinal(p.Initial(), true); pl = ref::alt(pl, ref::epsilon()); t += " with final initial state"; // only when nothing leads back there
			ref::Lang got = langOf(p); pl = got; break; }
		case 2: { size_t s = src.below(p.Size()); p.SetInitial(s); pl = langOf(p); t += str(" from state ", s); break; }
		case 3: { size_t s = src.below(p.Size()); p.SetFinal(s, src.coin()); pl = langOf(p); t += str(" state ", s, " made (not) final"); break; }
		default: break;
		}
		return p;
	};
	size_t n = 2 + src.below(3);
	for (size_t i = 0; i < n; ++i) {
		ref::Lang x; std::string t; P::Fsm p = piece(x, t);
		d += str(first ? "" : " | ", "(", t, ")"); ctx.describe(d);
		if (first) { f = p; l = x; first = false; } else { f |= p; l = ref::alt(l, x); }
		expectFsm(f, l, d, &ctx);
		if (src.chance(1, 4)) { f.Append('b'); l = ref::cat(l, ref::sym('b')); d += " b"; expectFsm(f, l, d, &ctx); }
	}
	ctx.nontrivial(d);
}

int main(int argc, char** argv) {
	Suite s;
	s.id = "C22";
	s.rule = "edits: a history with at least four different kinds of operations; outputs: an output precedes a letter by way of an empty transition; carried: an operand with tags or outputs; alternatives and union-outputs: every case; distinct by the history";
	s.assumptions = {"up to 16 states, histories of up to 30 edits on three automata; states are only added, never cut off",
		"before a determined or sparsed automaton is edited by hand it is unpacked by Unsparse() and SetIsDetermined(false), as the library itself does",
		"outputs of empty transitions at the end of a match have nothing to move to when these are removed and are not followed"};
	s.laws = {
		{"edits", 4000, 500000, edits},
		{"carried", 3000, 200000, carried},
		{"outputs", 3000, 200000, outputs},
		{"union-outputs", 500, 20000, unionOutputs},
		{"alternatives", 2500, 150000, alternatives},
	};
	return run(s, argc, argv);
}
