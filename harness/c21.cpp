// C21: Dead() and Final() of scanner states, and the automaton's list of dead states, are exact.
#include "genfsm.h"
#include "kinds.h"
#include <pire/extra.h>
using namespace pbt;
using namespace pu;
namespace P = Pire;

// ---- the automaton's own list
static std::set<size_t> deadOf(const ref::Nfa& n) {
	size_t sz = n.st.size();
	auto reach = [&](std::vector<int> from, bool back) {
		std::vector<std::vector<int>> g(sz);
		for (size_t i = 0; i < sz; ++i) { for (auto& e : n.st[i].edges) (back ? g[e.second] : g[i]).push_back(back ? (int)i : e.second); for (int t : n.st[i].eps) (back ? g[t] : g[i]).push_back(back ? (int)i : t); }
		std::vector<char> m(sz, 0);
		for (int x : from) m[x] = 1;
		for (size_t i = 0; i < from.size(); ++i) for (int t : g[from[i]]) if (!m[t]) { m[t] = 1; from.push_back(t); }
		return m;
	};
	std::vector<int> fin; for (size_t i = 0; i < sz; ++i) if (n.fin[i]) fin.push_back((int)i);
	std::vector<char> a = reach(n.starts, false), b = reach(fin, true);
	std::set<size_t> r;
	for (size_t i = 0; i < sz; ++i) if (!a[i] || !b[i]) r.insert(i);
	return r;
}
static std::string showSet(const std::set<size_t>& v) { std::string s = "{"; for (size_t x : v) s += str(s.size() > 1 ? "," : "", x); return s + "}"; }

static void expectDead(P::Fsm& f, const ref::Nfa& n, const std::string& d, Ctx& ctx) {
	std::set<size_t> want = deadOf(n);
	auto g = f.DeadStates();
	std::set<size_t> got(g.begin(), g.end());
	if (got != want) fail(str(d, ": DeadStates() is ", showSet(got), ", should be ", showSet(want)));
	ref::Lang l; try { l = ref::determinize(n); } catch (ref::TooBig&) { discard(); }
	P::Fsm r(f);
	r.RemoveDeadEnds();
	expectFsm(r, l, d + " after RemoveDeadEnds()", &ctx);
	if (r.Size() != f.Size() || r.Initial() != f.Initial() || r.Finals().size() < [&]() { size_t k = 0; for (size_t x : f.Finals()) k += !want.count(x); return k; }()) fail(d + ": RemoveDeadEnds() renumbered or lost states");
	for (size_t s = 0; s < f.Size(); ++s) for (int c = 0; c < ref::NSYM; ++c) {
		std::set<size_t> a, b;
		for (size_t t : f.Destinations(s, (P::Char)c)) if (!want.count(s) && !want.count(t)) a.insert(t);
		for (size_t t : r.Destinations(s, (P::Char)c)) b.insert(t);
		if (a != b) fail(str(d, ": RemoveDeadEnds() left transitions by ", c, " from ", s, " to ", showSet(b), ", should be ", showSet(a)));
	}
	// nothing is dead any more but for the states cut off, and removing again changes nothing
	auto h = r.DeadStates();
	if (std::set<size_t>(h.begin(), h.end()) != want) fail(d + ": the dead states differ after they were removed");
	ctx.count(f.Size());
}

static void structure(Src& src, Ctx& ctx) {
	P::Fsm f; std::string d; ref::Nfa n;
	switch (src.weighted({5, 2, 2})) {
	case 0: { gen::RawOptions o; o.maxStates = src.coin() ? 6 : 16; gen::Raw r = gen::raw(src, o); f = r.fsm; n = r.nfa; d = r.text;
		if (src.chance(1, 3)) { f.Sparse(); d += " sparsed"; } break; }
	case 1: { ref::Lang l; try { f = gen::any(src, l, d, 8); } catch (ref::TooBig&) { discard(); }
		if (f.Size() > 60) discard();
		if (src.coin()) { if (!f.Determine(300)) discard(); d += " determined"; if (src.coin()) { f.Minimize(); d += " minimized"; } }
		n = nfaOf(f); break; }
	default: { // chains with side branches, loops apart from the rest
		size_t k = 2 + src.below(12); n = ref::Nfa(); f = P::Fsm::MakeFalse(); f.Resize(k);
		for (size_t i = 0; i < k; ++i) n.add();
		d = str("chain of ", k);
		for (size_t i = 0; i + 1 < k; ++i) if (!src.chance(1, 8)) { bool back = src.chance(1, 4); size_t a = back ? i + 1 : i, b = back ? i : i + 1; int c = src.oneOf({(int)'a', 0, 255, (int)ref::EM, 257}); f.Connect(a, b, (P::Char)c); if (c == 257) n.eps((int)a, (int)b); else n.edge((int)a, ref::one(c), (int)b); d += str(" ", a, "-", c, "->", b); }
		size_t e = src.below(4); while (e--) { size_t a = src.below(k), b = src.below(k); f.Connect(a, b, 'b'); n.edge((int)a, ref::one('b'), (int)b); d += str(" ", a, "-b->", b); }
		size_t init = src.below(k), fin = src.below(k); f.SetInitial(init); n.starts = {(int)init}; f.SetFinal(fin, true); n.fin[fin] = 1; f.SetIsDetermined(false);
		d += str(" initial ", init, " final ", fin); }
	}
	ctx.describe(d);
	expectDead(f, n, d, ctx);
	std::set<size_t> w = deadOf(n);
	if (!w.empty() && w.size() < n.st.size()) ctx.nontrivial(d);
}

// ---- scanner states
static P::Fsm pickFsm(Src& s, ref::Lang& l, std::string& d, size_t states) {
	P::Fsm f;
	try { f = gen::any(s, l, d, 7); if (s.chance(1, 4)) { f.Surround(); l = ref::surrounded(l); d += " surrounded"; } } catch (ref::TooBig&) { discard(); }
	if (f.Size() > 80 || l.size() > states) discard();
	P::Fsm x(f); if (!x.Determine(600)) discard();
	return f;
}
template<class Sc> static void variants(Src& s, const Sc& sc, const ref::Lang& l, const std::string& d, Ctx& ctx, bool dead) {
	switch (s.below(4)) {
	case 0: expectScanner(sc, l, d, &ctx, dead); break;
	case 1: { Sc c(sc); expectScanner(c, l, d + " (copy)", &ctx, dead); break; }
	case 2: { std::istringstream in(save(sc), std::ios::binary); Sc c; c.Load(&in); expectScanner(c, l, d + " (loaded)", &ctx, dead); break; }
	default: { Sc c(sc), e; c.Swap(e); expectScanner(e, l, d + " (swapped)", &ctx, dead); }
	}
}
static void compiled(Src& src, Ctx& ctx) {
	std::string d; ref::Lang l;
	P::Fsm f = pickFsm(src, l, d, 60);
	if (src.chance(1, 3)) { f.Canonize(); d += " canonized"; }
	ctx.describe(d);
	std::vector<char> al = l.alive();
	bool mixed = std::count(al.begin(), al.end(), 0) && std::count(al.begin(), al.end(), 1);
	switch (src.below(6)) {
	case 0: variants(src, P::Scanner(f), l, d + ": Scanner", ctx, true); break;
	case 1: variants(src, P::NonrelocScanner(f), l, d + ": NonrelocScanner", ctx, true); break;
	case 2: variants(src, P::ScannerNoMask(f), l, d + ": ScannerNoMask", ctx, true); break;
	case 3: variants(src, P::NonrelocScannerNoMask(f), l, d + ": NonrelocScannerNoMask", ctx, true); break;
	case 4: expectScanner(P::SimpleScanner(f), l, d + ": SimpleScanner", &ctx); break;
	default: expectScanner(P::SlowScanner(f), l, d + ": SlowScanner", &ctx);
	}
	if (mixed) ctx.nontrivial(d);
}

template<class Sc> static void glueOf(Src& src, const std::vector<P::Fsm>& fs, const ref::Lang& l, const std::string& d, Ctx& ctx) {
	std::vector<Sc> v; for (auto& f : fs) { P::Fsm c(f); v.push_back(Sc(c)); }
	while (v.size() > 1) { size_t i = src.below(v.size() - 1); Sc g = Sc::Glue(v[i], v[i + 1], 3000); if (g.Empty()) discard(); v[i] = g; v.erase(v.begin() + i + 1); }
	variants(src, v[0], l, d, ctx, true);
}
static void glued(Src& src, Ctx& ctx) {
	std::string d; std::vector<P::Fsm> fs; ref::Lang l = ref::none();
	size_t n = 2 + src.below(3); bool finite = false;
	for (size_t i = 0; i < n; ++i) { ref::Lang x; std::string t; fs.push_back(pickFsm(src, x, t, 14)); d += str(i, ": ", t, "; "); try { l = ref::alt(l, x); } catch (ref::TooBig&) { discard(); } auto a = x.alive(); finite |= std::count(a.begin(), a.end(), 0) != 0; }
	ctx.describe(d);
	switch (src.below(4)) {
	case 0: glueOf<P::Scanner>(src, fs, l, d + "Scanner", ctx); break;
	case 1: glueOf<P::NonrelocScanner>(src, fs, l, d + "NonrelocScanner", ctx); break;
	case 2: glueOf<P::ScannerNoMask>(src, fs, l, d + "ScannerNoMask", ctx); break;
	default: glueOf<P::NonrelocScannerNoMask>(src, fs, l, d + "NonrelocScannerNoMask", ctx);
	}
	if (finite) ctx.nontrivial(d);
}

// a pair is final when either part is, dead when both are
template<class A, class B> static void pairOf(const P::Fsm& x, const P::Fsm& y, const ref::Lang& l, const std::string& d, Ctx& ctx, bool exact) {
	P::Fsm fx(x), fy(y); A a(fx); B b(fy);
	P::ScannerPair<A, B> pr(a, b);
	typedef typename P::ScannerPair<A, B>::State St;
	struct Node { St st; int ls; Word w; };
	std::vector<Node> q; std::set<std::string> seen;
	std::vector<char> al = l.alive();
	auto push = [&](const St& st, int ls, const Word& w) { if (seen.insert(stateKey(a, st.first) + "/" + stateKey(b, st.second) + "/" + str(ls)).second) q.push_back(Node{st, ls, w}); };
	{ St st; pr.Initialize(st); push(st, 0, Word()); }
	std::vector<int> reps(l.rep); reps.push_back(ref::BM); reps.push_back(ref::EM); reps.push_back(255); reps.push_back(0);
	for (size_t i = 0; i < q.size() && i < 600; ++i) {
		Node nd = q[i];
		if (pr.Final(nd.st) != (l.fin[nd.ls] != 0)) fail(str(d, ": Final is ", pr.Final(nd.st), " after ", showWord(nd.w)));
		bool dd = pr.Dead(nd.st);
		if (exact ? dd != !al[nd.ls] : dd && al[nd.ls]) fail(str(d, ": Dead is ", dd, " after ", showWord(nd.w)));
		auto six = pr.StateIndex(nd.st);
		if (six.first != a.StateIndex(nd.st.first) || six.second != b.StateIndex(nd.st.second)) fail(d + ": state index of the pair");
		ctx.count(2);
		for (int c : reps) { if (c == 256) continue; St st = nd.st; P::Step(pr, st, (P::Char)c); Word w = nd.w; w.push_back(c); push(st, l.next(nd.ls, c), w); }
	}
}
static void pairs(Src& src, Ctx& ctx) {
	std::string dx, dy; ref::Lang lx, ly;
	P::Fsm x = pickFsm(src, lx, dx, 20), y = pickFsm(src, ly, dy, 20);
	std::string d = dx + " and " + dy;
	ctx.describe(d);
	ref::Lang l; try { l = ref::alt(lx, ly); } catch (ref::TooBig&) { discard(); }
	switch (src.below(4)) {
	case 0: pairOf<P::Scanner, P::Scanner>(x, y, l, "pair of Scanners: " + d, ctx, true); break;
	case 1: pairOf<P::Scanner, P::NonrelocScannerNoMask>(x, y, l, "Scanner and NonrelocScannerNoMask: " + d, ctx, true); break;
	case 2: pairOf<P::NonrelocScanner, P::SimpleScanner>(x, y, l, "NonrelocScanner and SimpleScanner: " + d, ctx, false); break;
	default: pairOf<P::SimpleScanner, P::ScannerNoMask>(x, y, l, "SimpleScanner and ScannerNoMask: " + d, ctx, false);
	}
	ctx.nontrivial(d);
}

// half-final scanners: dead exactly when no match can be reported any more
template<class Sc> static void halfOf(const Sc& sc, const std::string& d, Ctx& ctx, bool& both) {
	struct Node { typename Sc::State st; Word w; };
	std::vector<Node> q; std::map<size_t, size_t> id; std::vector<std::vector<size_t>> back;
	auto listed = [&](const typename Sc::State& st) { typename Sc::State c = st; auto r = sc.AcceptedRegexps(c); return std::vector<size_t>(r.first, r.second); };
	auto push = [&](const typename Sc::State& st, const Word& w) { size_t k = sc.StateIndex(st); auto it = id.emplace(k, q.size()); if (it.second) { q.push_back(Node{st, w}); back.emplace_back(); } return it.first->second; };
	{ typename Sc::State st; sc.Initialize(st); push(st, Word()); }
	std::vector<char> good;
	for (size_t i = 0; i < q.size(); ++i) {
		if (q.size() > 300) discard();
		for (int c = 0; c < ref::NSYM; ++c) {
			if (c == 256 || c == 257) continue;
			typename Sc::State st = q[i].st; Word w = q[i].w; w.push_back(c);
			std::vector<size_t> res(sc.RegexpsCount());
			P::Step(sc, st, (P::Char)c);
			size_t t = push(st, w); if (std::find(back[t].begin(), back[t].end(), i) == back[t].end()) back[t].push_back(i);
		}
	}
	good.assign(q.size(), 0); std::vector<size_t> bfs;
	for (size_t i = 0; i < q.size(); ++i) if (sc.Final(q[i].st)) { good[i] = 1; bfs.push_back(i); }
	for (size_t i = 0; i < bfs.size(); ++i) for (size_t b : back[bfs[i]]) if (!good[b]) { good[b] = 1; bfs.push_back(b); }
	bool yes = false, no = false;
	for (size_t i = 0; i < q.size(); ++i) {
		(good[i] ? yes : no) = true;
		if (sc.Dead(q[i].st) != !good[i]) fail(str(d, ": Dead is ", sc.Dead(q[i].st), " after ", showWord(q[i].w), ", a match can ", good[i] ? "" : "not ", "follow"));
		ctx.count();
		// in a dead state nothing is ever added to the results
		if (!good[i]) for (int c : {(int)'a', (int)'b', 0, 255, (int)ref::EM, (int)ref::BM}) { typename Sc::State st = q[i].st; auto before = listed(st); P::Step(sc, st, (P::Char)c); if (listed(st) != before) fail(d + ": a dead state reports a match"); }
	}
	both |= yes && no;
}
template<class Sc> static void halfBuild(Src& src, const std::string&, Ctx& ctx) {
	std::vector<Sc> v; std::string d;
	size_t n = 1 + src.below(2);
	for (size_t i = 0; i < n; ++i) {
		std::string t; ref::Lang l; P::Fsm f = pickFsm(src, l, t, 20);
		if (src.chance(1, 3)) { P::HalfFinalFsm h(f); if (src.coin()) h.MakeScanner(); else h.MakeNonGreedyCounter(true, src.coin()); v.push_back(Sc(h)); t += " as HalfFinalFsm"; }
		else v.push_back(Sc(f));
		d += t + "; ";
	}
	ctx.describe(d);
	Sc sc = v[0]; if (n > 1) { sc = Sc::Glue(v[0], v[1], 2000); if (sc.Empty()) discard(); d += "glued"; }
	bool both = false;
	halfOf(sc, d + kinds::Info<Sc>::name(), ctx, both);
	if (both) ctx.nontrivial(d);
}
static void half(Src& src, Ctx& ctx) {
	switch (src.below(4)) {
	case 0: halfBuild<P::HalfFinalScanner>(src, "", ctx); break;
	case 1: halfBuild<P::NonrelocHalfFinalScanner>(src, "", ctx); break;
	case 2: halfBuild<P::HalfFinalScannerNoMask>(src, "", ctx); break;
	default: halfBuild<P::NonrelocHalfFinalScannerNoMask>(src, "", ctx);
	}
}

int main(int argc, char** argv) {
	Suite s;
	s.id = "C21";
	s.rule = "structure: the automaton has both dead and useful states; scanners: both a dead and a live state is reachable (pairs: every case); distinct by the automata";
	s.assumptions = {"automata of up to 16 (raw) or 80 (parsed) states, glues of up to 4; SimpleScanner and SlowScanner never report dead states: for them (and pairs with them) only that no live state is called dead is checked",
		"half-final scanners: dead is compared with reachability of reporting states in the scanner itself (their verdicts are C05's and C16's matter)"};
	s.laws = {
		{"structure", 6000, 400000, structure},
		{"compiled", 1500, 150000, compiled},
		{"glued", 700, 60000, glued},
		{"pairs", 600, 40000, pairs},
		{"half", 700, 50000, half},
	};
	return run(s, argc, argv);
}
