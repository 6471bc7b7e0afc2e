// C08: glued scanners report exactly the expressions that match.
#include <unordered_set>
#include "genfsm.h"
#include "observe.h"
using namespace pbt;
using namespace pu;
namespace P = Pire;

struct Leaf { P::Fsm f; Lang l; std::string text; bool empty = false; };
struct Tree { int leaf = -1; std::unique_ptr<Tree> a, b; size_t maxSize = 0; };

static std::unique_ptr<Tree> genTree(Src& s, std::vector<int>& leaves, size_t lo, size_t hi) {
	auto t = std::unique_ptr<Tree>(new Tree);
	if (hi - lo == 1) { t->leaf = leaves[lo]; return t; }
	size_t mid = lo + 1 + s.below(hi - lo - 1);
	t->a = genTree(s, leaves, lo, mid);
	t->b = genTree(s, leaves, mid, hi);
	if (s.chance(1, 4)) t->maxSize = 50000;
	return t;
}
static std::string treeText(const Tree& t) { return t.leaf >= 0 ? str(t.leaf) : "(" + treeText(*t.a) + " " + treeText(*t.b) + ")"; }

template<class Sc> struct Glued { Sc sc; std::vector<int> leaves; };
template<class Sc> static Sc make(const Leaf& l) { if (l.empty) return Sc(); P::Fsm c(l.f); return Sc(c); }

template<class Sc> static std::vector<size_t> listed(const Sc& sc, typename Sc::State st) {
	auto r = sc.AcceptedRegexps(st);
	return std::vector<size_t>(r.first, r.second);
}
static std::string showList(const std::vector<size_t>& v) { std::string s = "{"; for (size_t x : v) s += str(s.size() > 1 ? "," : "", x); return s + "}"; }

// the glued scanner against the languages of its parts, through every reachable combination of states
template<class Sc> static size_t verify(const Sc& sc, const std::vector<const Lang*>& ls, const std::string& what, bool half, size_t limit, bool& several) {
	struct Node { typename Sc::State st; std::vector<int> q; int parent; int sym; };
	std::vector<Node> nodes;
	std::set<std::vector<int>> seen;
	std::vector<std::vector<char>> alive; for (auto l : ls) alive.push_back(l->alive());
	// letters no language tells apart need not be tried twice; all are tried in the first states
	std::vector<int> reps;
	{ std::set<std::vector<int>> sig; for (int c = 0; c < ref::NSYM; ++c) { if (c == 256 || c == 257) continue; std::vector<int> k; for (auto l : ls) k.push_back(l->cls[c]); if (sig.insert(k).second) reps.push_back(c); } if (std::find(reps.begin(), reps.end(), (int)EM) == reps.end()) reps.push_back(EM); }
	auto path = [&](size_t i) { Word w; while (nodes[i].parent >= 0) { w.push_back(nodes[i].sym); i = nodes[i].parent; } std::reverse(w.begin(), w.end()); return w; };
	auto push = [&](const typename Sc::State& st, std::vector<int> q, int parent, int sym) {
		std::vector<int> k = q; k.push_back((int)sc.StateIndex(st));
		if (half) for (size_t x : listed(sc, st)) k.push_back((int)x);
		if (seen.insert(k).second) nodes.push_back(Node{st, q, parent, sym});
	};
	typename Sc::State init; sc.Initialize(init);
	push(init, std::vector<int>(ls.size(), 0), -1, 0);
	for (size_t i = 0; i < nodes.size() && nodes.size() < limit; ++i) {
		std::vector<size_t> want;
		typename Sc::State st = nodes[i].st;
		std::vector<int> q = nodes[i].q;
		if (half) { P::Step(sc, st, P::EndMark); for (size_t k = 0; k < ls.size(); ++k) q[k] = ls[k]->next(q[k], EM); }
		for (size_t k = 0; k < ls.size(); ++k) if (ls[k]->fin[q[k]]) want.push_back(k);
		std::vector<size_t> got = listed(sc, st);
		if (want.size() > 1) several = true;
		if (got != want) fail(str(what, " lists ", showList(got), " after ", showWord(path(i)), half ? " and the end mark" : "", ", expected ", showList(want)));
		if (!half) {
			if (sc.Final(st) != !want.empty()) fail(str(what, " after ", showWord(path(i)), " is", sc.Final(st) ? "" : " not", " final, ", showList(want), " match"));
			bool al = false; for (size_t k = 0; k < ls.size(); ++k) al |= alive[k][q[k]] != 0;
			if (sc.Dead(st) != !al) fail(str(what, " after ", showWord(path(i)), " reports dead=", sc.Dead(st), ", but a match can ", al ? "" : "not ", "follow"));
		}
		const std::vector<int> q0 = nodes[i].q;
		auto go = [&](int c) {
			if (half && c == EM) return;
			typename Sc::State n = nodes[i].st;
			P::Step(sc, n, (P::Char)c);
			std::vector<int> nq = q0;
			for (size_t k = 0; k < ls.size(); ++k) nq[k] = ls[k]->next(nq[k], c);
			push(n, nq, (int)i, c);
		};
		if (i < 12) { for (int c = 0; c < ref::NSYM; ++c) if (c != 256 && c != 257) go(c); } else for (int c : reps) go(c);
	}
	return nodes.size();
}

template<class Sc> static bool build(const Tree& t, const std::vector<Leaf>& leaves, Glued<Sc>& out, const std::string& d, bool check) {
	if (t.leaf >= 0) { out.sc = make<Sc>(leaves[t.leaf]); if (!leaves[t.leaf].empty) out.leaves.push_back(t.leaf); return true; }
	Glued<Sc> a, b;
	if (!build(*t.a, leaves, a, d, check) || !build(*t.b, leaves, b, d, check)) return false;
	std::string va, vb; Sc ca(a.sc), cb(b.sc);
	out.sc = Sc::Glue(a.sc, b.sc, t.maxSize);
	out.leaves = a.leaves; out.leaves.insert(out.leaves.end(), b.leaves.begin(), b.leaves.end());
	if (out.sc.Empty() && !out.leaves.empty()) return false;   // did not fit; limits have a law of their own
	if (out.leaves.empty() && !out.sc.Empty()) fail(d + ": empty scanners glue into a non-empty one");
	// the operands are untouched
	if (a.sc.Size() != ca.Size() || b.sc.Size() != cb.Size() || a.sc.RegexpsCount() != a.leaves.size() || b.sc.RegexpsCount() != b.leaves.size()) fail(d + ": gluing changed an operand");
	return true;
}
template<class Sc> static void one(const Tree& t, const std::vector<Leaf>& leaves, const std::string& d, bool half, Ctx& ctx, bool& several, size_t limit) {
	Glued<Sc> g;
	if (!build(t, leaves, g, d, true)) { ctx.label("too large"); return; }
	if (g.leaves.empty()) return;
	if (g.sc.RegexpsCount() != g.leaves.size()) fail(str(d, ": ", g.sc.RegexpsCount(), " expressions in a glue of ", g.leaves.size()));
	std::vector<const Lang*> ls; for (int i : g.leaves) ls.push_back(&leaves[i].l);
	ctx.count(verify(g.sc, ls, d, half, limit, several));
	// operands keep working: the leaves of the root's sides
	if (t.leaf < 0) {
		Glued<Sc> a, b;
		if (build(*t.a, leaves, a, d, false) && build(*t.b, leaves, b, d, false) && !a.sc.Empty() && !b.sc.Empty()) {
			Sc r = Sc::Glue(a.sc, b.sc, t.maxSize), r2 = Sc::Glue(a.sc, b.sc, t.maxSize);
			std::vector<const Lang*> la, lb; for (int i : a.leaves) la.push_back(&leaves[i].l); for (int i : b.leaves) lb.push_back(&leaves[i].l);
			bool x;
			ctx.count(verify(a.sc, la, d + " (left operand afterwards)", half, limit / 4, x) + verify(b.sc, lb, d + " (right operand afterwards)", half, limit / 4, x) + verify(r2, ls, d + " (glued again)", half, limit / 4, x));
		}
	}
}
static std::vector<Leaf> genLeaves(Src& src, size_t n, std::string& d) {
	std::vector<Leaf> v;
	for (size_t i = 0; i < n; ++i) {
		Leaf l;
		if (src.chance(1, 10)) { l.empty = true; l.text = "empty"; l.l = ref::none(); }
		else {
			try { l.f = gen::any(src, l.l, l.text, 5); if (src.chance(1, 2)) { l.f.Surround(); l.l = ref::surrounded(l.l); l.text += " surrounded"; } } catch (ref::TooBig&) { discard(); }
			if (l.f.Size() > 80 || l.l.size() > 25) discard();
			P::Fsm x(l.f); if (!x.Determine(800)) discard();
		}
		d += str(i, ": ", l.text, "; ");
		v.push_back(l);
	}
	return v;
}
static void trees(Src& src, Ctx& ctx) {
	std::string d;
	size_t n = 1 + src.len(1, 5);
	std::vector<Leaf> leaves = genLeaves(src, n, d);
	std::vector<int> order; for (size_t i = 0; i < n; ++i) order.push_back((int)i);
	if (src.chance(1, 3)) order.push_back((int)src.below(n));   // the same expression twice
	auto t = genTree(src, order, 0, order.size());
	d = treeText(*t) + " of " + d;
	ctx.describe(d);
	bool several = false;
	size_t lim = 2500;
	switch (src.below(4)) {
	case 0: one<P::Scanner>(*t, leaves, d + "Scanner", false, ctx, several, lim); break;
	case 1: one<P::NonrelocScanner>(*t, leaves, d + "NonrelocScanner", false, ctx, several, lim); break;
	case 2: one<P::ScannerNoMask>(*t, leaves, d + "ScannerNoMask", false, ctx, several, lim); break;
	default: one<P::NonrelocScannerNoMask>(*t, leaves, d + "NonrelocScannerNoMask", false, ctx, several, lim); break;
	}
	switch (src.below(4)) {
	case 0: one<P::HalfFinalScanner>(*t, leaves, d + "HalfFinalScanner", true, ctx, several, lim); break;
	case 1: one<P::NonrelocHalfFinalScanner>(*t, leaves, d + "NonrelocHalfFinalScanner", true, ctx, several, lim); break;
	case 2: one<P::HalfFinalScannerNoMask>(*t, leaves, d + "HalfFinalScannerNoMask", true, ctx, several, lim); break;
	default: one<P::NonrelocHalfFinalScannerNoMask>(*t, leaves, d + "NonrelocHalfFinalScannerNoMask", true, ctx, several, lim); break;
	}
	ctx.label(str(order.size(), " leaves"));
	if (several) { ctx.label("several expressions match at once"); ctx.nontrivial(d); }
}

// number of pairs of states reachable together, over all symbols
template<class Sc> static size_t pairs(const Sc& a, const Sc& b) {
	std::set<std::pair<size_t, size_t>> seen;
	std::vector<std::pair<typename Sc::State, typename Sc::State>> q;
	auto push = [&](const typename Sc::State& x, const typename Sc::State& y) { if (seen.insert({a.StateIndex(x), b.StateIndex(y)}).second) q.push_back({x, y}); };
	typename Sc::State x, y; a.Initialize(x); b.Initialize(y); push(x, y);
	for (size_t i = 0; i < q.size(); ++i) for (int c = 0; c < ref::NSYM; ++c) {
		if (c == 257) continue;
		auto n = q[i];
		P::Step(a, n.first, (P::Char)c); P::Step(b, n.second, (P::Char)c);
		push(n.first, n.second);
	}
	return seen.size();
}
template<class Sc> static void limit(const Leaf& a, const Leaf& b, const std::string& d, Src& src, Ctx& ctx) {
	Sc x = make<Sc>(a), y = make<Sc>(b);
	size_t n = pairs(x, y);
	ctx.label(n > 20 ? "more than 20 states" : "up to 20 states");
	for (long m : {(long)n - 2, (long)n, (long)n + 1, (long)(1 + src.below(n + 3))}) {
		if (m <= 0) continue;
		Sc g = Sc::Glue(x, y, (size_t)m);
		if (m >= (long)n && g.Empty()) fail(str(d, " glue of ", n, " states is refused with the limit ", m));
		if (m + 1 < (long)n && !g.Empty()) fail(str(d, " glue of ", n, " states is not refused with the limit ", m));
		if (!g.Empty()) {
			bool s = false;
			if (g.Size() > (size_t)m + 1) fail(str(d, " has ", g.Size(), " states, the limit is ", m));
			ctx.count(verify(g, {&a.l, &b.l}, str(d, " with limit ", m), false, 800, s));
		} else {
			if (g.RegexpsCount() != 0) fail(d + ": the refused glue has expressions");
			typename Sc::State st; g.Initialize(st); P::Step(g, st, 'a');
			if (g.Final(st)) fail(d + ": the refused glue matches");
		}
		ctx.count();
	}
	if (n > 3) ctx.nontrivial(d);
}
static void limits(Src& src, Ctx& ctx) {
	std::string d;
	std::vector<Leaf> v = genLeaves(src, 2, d);
	if (v[0].empty || v[1].empty) discard();
	ctx.describe(d);
	if (src.coin()) limit<P::Scanner>(v[0], v[1], d + "Scanner", src, ctx); else limit<P::NonrelocScannerNoMask>(v[0], v[1], d + "NonrelocScannerNoMask", src, ctx);
}

// glues of a known large size, around the default limit and the capacity of the internal tables
template<class Sc> static void large(const std::string& what, size_t depth, size_t maxSize, bool fits, Ctx& ctx) {
	// "a" and "b" exactly `depth` characters from the end: 2^depth states each, 3^depth together (and a few for the marks)
	std::string pad = str(".{", depth - 1, "}$");
	P::Fsm fa = pu::parse("a" + pad), fb = pu::parse("b" + pad);
	fa.PrependAnything(); fb.PrependAnything();
	Sc a(fa), b(fb);
	Sc g = Sc::Glue(a, b, maxSize);
	std::string d = str(what, " glue of a", pad, " and b", pad, " with limit ", maxSize);
	if (fits && g.Empty()) fail(d + " is refused");
	if (!fits && !g.Empty()) fail(str(d, " is not refused, it has ", g.Size(), " states"));
	if (g.Empty()) { ctx.nontrivial(d); return; }
	uint64_t r = 12345;
	for (int i = 0; i < 3000; ++i) {
		std::string t;
		size_t n = depth + i % 5;
		for (size_t k = 0; k < n; ++k) { r = r * 6364136223846793005ull + 1442695040888963407ull; t += "abc"[(r >> 33) % 3]; }
		typename Sc::State st; g.Initialize(st);
		P::Step(g, st, P::BeginMark); P::Run(g, st, t.data(), t.data() + t.size()); P::Step(g, st, P::EndMark);
		std::vector<size_t> want;
		if (t[t.size() - depth] == 'a') want.push_back(0);
		if (t[t.size() - depth] == 'b') want.push_back(1);
		if (listed(g, st) != want) fail(str(d, " lists ", showList(listed(g, st)), " on ", show(t)));
		ctx.count();
	}
	ctx.nontrivial(d);
}
static void sizes(Src&, Ctx& ctx) {
	ctx.describe(str("size case ", ctx.index));
	switch (ctx.index) {
	case 0: large<P::Scanner>("Scanner", 8, 0, true, ctx); break;                 // 6.5 thousand states
	case 1: large<P::NonrelocScanner>("NonrelocScanner", 9, 0, true, ctx); break; // 20 thousand
	case 2: large<P::Scanner>("Scanner", 11, 0, false, ctx); break;               // 177 thousand, over the default limit
	case 3: large<P::Scanner>("Scanner", 11, 2000000, true, ctx); break;          // allowed explicitly
	case 4: large<P::ScannerNoMask>("ScannerNoMask", 9, 5000, false, ctx); break;
	case 5: { // over the capacity of the lookup table: refused or right, never broken
		std::string pad = ".{11}$";
		P::Fsm fa = pu::parse("a" + pad), fb = pu::parse("b" + pad); fa.PrependAnything(); fb.PrependAnything();
		P::Scanner a(fa), b(fb);
		// the exact number of combinations, which is the smallest limit that must do
		std::unordered_set<size_t> seen; std::vector<std::pair<P::Scanner::State, P::Scanner::State>> q;
		auto push = [&](P::Scanner::State x, P::Scanner::State y) { if (seen.insert(a.StateIndex(x) * b.Size() + b.StateIndex(y)).second) q.push_back({x, y}); };
		{ P::Scanner::State x, y; a.Initialize(x); b.Initialize(y); push(x, y); }
		for (size_t i = 0; i < q.size(); ++i) for (int c : {(int)'a', (int)'b', (int)'c', (int)ref::BM, (int)ref::EM}) { auto n = q[i]; P::Step(a, n.first, (P::Char)c); P::Step(b, n.second, (P::Char)c); push(n.first, n.second); }
		P::Scanner g = P::Scanner::Glue(a, b, q.size());
		if (g.Empty()) fail(str("large glue of ", q.size(), " states is refused with the limit ", q.size()));
		if (g.Size() > q.size() + 1) fail(str("large glue has ", g.Size(), " states, should have ", q.size()));
		{ typename P::Scanner::State st; g.Initialize(st); std::string t = "bbbbbacccccccccc"; P::Run(g, st, t.data(), t.data() + t.size()); P::Step(g, st, P::EndMark); std::vector<size_t> w{1}; if (listed(g, st) != w) fail("large glue is wrong"); }
		ctx.nontrivial("over the table"); break; }
	}
}

// glues of very many expressions, of which many match at once
template<class Sc> static void crowd(Src& src, size_t n, const std::vector<std::pair<std::string, int>>& kinds, std::vector<int> which, const std::string& d, bool half, Ctx& ctx) {
	std::vector<Sc> made; std::vector<Lang> ls;
	for (auto& k : kinds) { P::Fsm f = pu::parse(half && k.second ? k.first + "$" : k.first); if (half && !k.second) f.AppendAnything(); ls.push_back(langOf(f)); made.push_back(Sc(f)); }
	// a row of glues: from the left, from the right, or by halves
	std::function<Sc(size_t, size_t)> fold; size_t way = src.below(3);
	fold = [&](size_t lo, size_t hi) { if (hi - lo == 1) return made[which[lo]]; size_t mid = way == 0 ? hi - 1 : way == 1 ? lo + 1 : (lo + hi) / 2; return Sc::Glue(fold(lo, mid), fold(mid, hi), 20000); };
	Sc g = fold(0, n);
	if (g.Empty()) fail(d + ": refused");
	if (g.RegexpsCount() != n) fail(str(d, ": ", g.RegexpsCount(), " expressions"));
	Sc copy(g);
	std::vector<std::string> texts{""};
	for (size_t i = 0; i < texts.size() && texts[i].size() < 4; ++i) for (char c : std::string("abc")) texts.push_back(texts[i] + c);
	size_t most = 0;
	for (auto& t : texts) {
		typename Sc::State st; copy.Initialize(st);
		P::Run(copy, st, t.data(), t.data() + t.size());
		Word w = ref::toWord(t);
		if (half) { P::Step(copy, st, P::EndMark); w.push_back(EM); }
		std::vector<size_t> want, got = listed(copy, st);
		std::vector<char> yes; for (auto& l : ls) yes.push_back(l.accepts(w));
		for (size_t i = 0; i < n; ++i) if (yes[which[i]]) want.push_back(i);
		most = std::max(most, want.size());
		if (got != want) {
			size_t i = 0; while (i < got.size() && i < want.size() && got[i] == want[i]) ++i;
			fail(str(d, ": ", got.size(), " of ", n, " expressions listed for ", show(t), ", ", want.size(), " match; first difference at place ", i, ": ", i < got.size() ? str(got[i]) : "the end", " instead of ", i < want.size() ? str(want[i]) : "the end"));
		}
		if (!half && copy.Final(st) != !want.empty()) fail(str(d, " after ", show(t), ": wrong final flag"));
		ctx.count();
	}
	ctx.label(most > 64 ? "more than 64 match at once" : most > 8 ? "9 to 64 match at once" : "up to 8 match at once");
}
static void crowds(Src& src, Ctx& ctx) {
	static const size_t sizes[] = {9, 12, 16, 17, 20, 31, 32, 33, 48, 63, 64, 65, 100, 127, 128, 129, 140, 255, 256, 257, 300, 600};
	size_t n = sizes[src.below(ctx.thorough ? 22 : 19)];
	std::vector<std::pair<std::string, int>> kinds; size_t nk = 2 + src.below(12);
	for (size_t i = 0; i < nk; ++i) {
		std::string w; size_t k = 1 + src.below(3); while (k--) w += "abc"[src.below(3)];
		if (i == 0) w = ".*"; else switch (src.below(5)) { case 0: w += ".*"; break; case 1: w = "[ab]" + w; break; case 2: w = w.substr(0, 1) + "*"; break; default: break; }
		kinds.push_back({w, (int)src.coin()});
	}
	std::vector<int> which; for (size_t i = 0; i < n; ++i) which.push_back((int)src.below(nk));
	size_t kind = src.below(8);
	std::string d = str(n, " expressions of"); for (auto& k : kinds) d += " " + k.first;
	d += str(", kind ", kind);
	ctx.describe(d);
	switch (kind) {
	case 0: crowd<P::Scanner>(src, n, kinds, which, d, false, ctx); break;
	case 1: crowd<P::NonrelocScanner>(src, n, kinds, which, d, false, ctx); break;
	case 2: crowd<P::ScannerNoMask>(src, n, kinds, which, d, false, ctx); break;
	case 3: crowd<P::NonrelocScannerNoMask>(src, n, kinds, which, d, false, ctx); break;
	case 4: crowd<P::HalfFinalScanner>(src, n, kinds, which, d, true, ctx); break;
	case 5: crowd<P::NonrelocHalfFinalScanner>(src, n, kinds, which, d, true, ctx); break;
	case 6: crowd<P::HalfFinalScannerNoMask>(src, n, kinds, which, d, true, ctx); break;
	default: crowd<P::NonrelocHalfFinalScannerNoMask>(src, n, kinds, which, d, true, ctx); break;
	}
	ctx.label(n > 64 ? "more than 64 expressions" : "up to 64 expressions");
	ctx.nontrivial(d);
}

int main(int argc, char** argv) {
	Suite s;
	s.id = "C08";
	s.rule = "several glued expressions match one text (trees); products of more than 3 states (limits); every case (sizes)";
	s.assumptions = {"up to 7 expressions of up to 25 states in one glue, up to 2500 reachable combinations of states followed; limits checked up to one state more or less; crowds of more expressions by texts"};
	s.laws = {
		{"trees", 1000, 150000, trees},
		{"limits", 350, 50000, limits},
		{"crowds", 60, 2000, crowds},
		{"sizes", 6, 6, sizes, true},
	};
	return run(s, argc, argv);
}
