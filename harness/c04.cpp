// C04: determinization, minimization and cleanup keep the language and hit the limits.
#include "genfsm.h"
using namespace pbt;
using namespace pu;
namespace P = Pire;

static void expectDeterministic(const P::Fsm& f, const std::string& what) {
	if (!f.IsDetermined()) fail(what + ": not marked as determined");
	for (size_t s = 0; s < f.Size(); ++s) {
		if (!f.Destinations(s, P::Epsilon).empty()) fail(what + ": empty transition left");
		for (unsigned c = 0; c < P::MaxChar; ++c) if (c != P::Epsilon && f.Destinations(s, (P::Char)c).size() > 1) fail(str(what, ": several successors of state ", s, " by letter ", c));
	}
}
static void expectClasses(const P::Fsm& f, const std::string& what) {
	// raw transition table: representatives carry the transitions of the whole class
	P::Fsm u(f); u.Unsparse();
	for (unsigned a = 0; a < P::MaxChar; ++a) {
		if (a == P::Epsilon) continue;
		if (!f.Letters().Contains((P::Char)a)) fail(str(what, ": letter ", a, " belongs to no class"));
		unsigned r = f.Letters().Representative((P::Char)a);
		if (f.Letters().Index((P::Char)a) != f.Letters().Index((P::Char)r)) fail(str(what, ": class index of ", a, " and of its representative differ"));
		for (size_t s = 0; s < f.Size(); ++s)
			if (u.Destinations(s, (P::Char)a) != u.Destinations(s, (P::Char)r) || u.Destinations(s, (P::Char)a) != f.Destinations(s, (P::Char)a)) fail(str(what, ": letter ", a, " shares a class with ", r, " but leads elsewhere from state ", s));
	}
}

static void pipeline(Src& src, Ctx& ctx) {
	Lang l; std::string d;
	P::Fsm f;
	try { f = gen::any(src, l, d, 9); } catch (ref::TooBig&) { discard(); }
	if (f.Size() > 120) discard();
	ctx.describe(d);
	try {
		{ P::Fsm x(f); x.RemoveEpsilons(); expectFsm(x, l, d + " RemoveEpsilons", &ctx);
		  for (size_t s = 0; s < x.Size(); ++s) if (!x.Destinations(s, P::Epsilon).empty()) fail(d + " empty transitions left after RemoveEpsilons");
		  expectClasses(x, d + " RemoveEpsilons");
		  x.Unsparse(); expectFsm(x, l, d + " RemoveEpsilons, Unsparse", &ctx);
		  x.Sparse(); expectClasses(x, d + " Sparse"); expectFsm(x, l, d + " Sparse", &ctx); }
		{ P::Fsm x(f); x.RemoveDeadEnds(); expectFsm(x, l, d + " RemoveDeadEnds", &ctx); x.RemoveDeadEnds(); expectFsm(x, l, d + " RemoveDeadEnds twice", &ctx); }
		P::Fsm det(f);
		bool ok = det.Determine(3000);
		if (!ok) { expectFsm(det, l, d + " failed Determine", &ctx); ctx.label("too many states"); return; }
		expectDeterministic(det, d);
		expectClasses(det, d + " Determine");
		expectFsm(det, l, d + " Determine", &ctx);
		size_t n = det.Size();
		{ P::Fsm x(det); x.Determine(); expectFsm(x, l, d + " Determine twice", &ctx); if (x.Size() != n) fail(d + " Determine of a determined automaton changed it"); }
		// limits around the number of states really needed
		for (int k = -2; k <= 1; ++k) {
			if ((int)n + k < 1) continue;
			size_t lim = n + k;
			P::Fsm x(f);
			bool r = x.Determine(lim);
			ctx.count();
			if (r && lim + 1 < n) fail(str(d, " Determine(", lim, ") succeeded, but ", n, " states are needed"));
			if (!r && lim >= n) fail(str(d, " Determine(", lim, ") failed, but ", n, " states are enough"));
			if (r) { expectDeterministic(x, d); if (x.Size() != n) fail(d + " number of states depends on the limit"); }
			expectFsm(x, l, str(d, " Determine(", lim, ") ", r ? "succeeded" : "failed"), &ctx);
			if (!r) { ctx.label("limit hit"); if (!x.Determine()) fail(d + " Determine without a limit failed after a limited one"); expectFsm(x, l, d + " Determine after a failed one", &ctx); if (x.Size() != n) fail(d + " size after a retry differs"); }
			P::Fsm y(f);
			bool thrown = false;
			try { y.Canonize(lim); } catch (P::Error&) { thrown = true; }
			if (thrown && lim >= n) fail(d + " Canonize refused an automaton within the limit");
			if (!thrown && lim + 1 < n) fail(d + " Canonize exceeded the limit");
			expectFsm(y, l, str(d, " Canonize(", lim, ")"), &ctx);
		}
		{ P::Fsm x(det); x.Minimize(); expectFsm(x, l, d + " Minimize", &ctx); expectDeterministic(x, d + " Minimize"); expectClasses(x, d + " Minimize");
		  if (x.Size() != l.size()) fail(str(d, " Minimize left ", x.Size(), " states, ", l.size(), " are enough"));
		  x.Minimize(); if (x.Size() != l.size()) fail(d + " Minimize twice"); expectFsm(x, l, d + " Minimize twice", &ctx);
		  x.RemoveDeadEnds(); expectFsm(x, l, d + " Minimize, RemoveDeadEnds", &ctx);
		  { P::Fsm y(x); y.Canonize(); expectFsm(y, l, d + " Minimize, RemoveDeadEnds, Canonize", &ctx); if (y.Size() != l.size()) fail(d + " Minimize, RemoveDeadEnds, Canonize: not minimal"); }
		  x.Unsparse(); expectFsm(x, l, d + " Minimize, RemoveDeadEnds, Unsparse", &ctx); }
		{ P::Fsm x(f); x.Canonize(); expectFsm(x, l, d + " Canonize", &ctx); if (x.Size() != l.size()) fail(str(d, " Canonize left ", x.Size(), " states, ", l.size(), " are enough"));
		  P::Fsm y(x); y.Unsparse(); expectFsm(y, l, d + " Canonize, Unsparse", &ctx);
		  // go on building on the result
		  x += f; expectFsm(x, ref::cat(l, l), d + " Canonize, += itself", &ctx); }
		// the same automaton reached in another way has the same canonical size
		{ P::Fsm x(f); x.Reverse(); x.Determine(3000); P::Fsm y(x); y.Reverse(); y.Canonize(); if (y.Size() != l.size()) fail(d + " canonical size after reversing twice differs"); expectFsm(y, l, d + " reversed twice, canonized", &ctx); }
	} catch (ref::TooBig&) { discard(); }
	if (l.size() > 2 && f.Size() > 2) ctx.nontrivial(d);
}

// tags: determinization joins the tags of the merged states, minimization does so too
static void tags(Src& src, Ctx& ctx) {
	gen::RawOptions o; o.tags = true; o.maxTag = 7; o.maxStates = 7; o.wide = src.chance(1, 3);
	gen::Raw r = gen::raw(src, o);
	ctx.describe(r.text);
	const ref::Nfa& n = r.nfa;
	// terminal states (final, going to themselves by every letter) absorb everything: their subsets are not explored further
	auto closure = [&](std::set<int> v) { std::vector<int> q(v.begin(), v.end()); for (size_t i = 0; i < q.size(); ++i) for (int t : n.st[q[i]].eps) if (v.insert(t).second) q.push_back(t); return v; };
	std::vector<char> term(n.st.size(), 0);
	for (size_t s = 0; s < n.st.size(); ++s) {
		std::set<int> c = closure({(int)s});
		bool fin = false; ref::CharSet cs;
		for (int t : c) { fin |= n.fin[t]; for (auto& e : n.st[t].edges) if (closure({e.second}).count((int)s)) cs |= e.first; }
		term[s] = fin && (cs & ref::allSyms()) == ref::allSyms();
	}
	P::Fsm det(r.fsm);
	if (!det.Determine(2000)) discard();
	P::Fsm can(det); can.Minimize();
	// lockstep: subset, state of det, state of can
	std::map<std::set<int>, size_t> seen; std::vector<std::pair<std::set<int>, std::pair<size_t, size_t>>> q;
	std::set<int> start = closure({n.starts[0]});
	q.push_back({start, {det.Initial(), can.Initial()}}); seen[start] = 0;
	std::map<size_t, size_t> toCan; std::vector<std::pair<size_t, size_t>> dq{{det.Initial(), can.Initial()}};
	toCan[det.Initial()] = can.Initial();
	for (size_t i = 0; i < dq.size(); ++i) for (int c = 0; c < ref::NSYM; ++c) {
		if (c == 257) continue;
		auto& a = det.Destinations(dq[i].first, c); auto& b = can.Destinations(dq[i].second, c);
		if (a.empty() != b.empty()) fail(r.text + ": minimized automaton lost a transition");
		if (a.empty()) continue;
		auto it = toCan.find(*a.begin());
		if (it == toCan.end()) { toCan[*a.begin()] = *b.begin(); dq.push_back({*a.begin(), *b.begin()}); }
		else if (it->second != *b.begin()) fail(r.text + ": minimization maps a state to two states");
	}
	std::map<size_t, unsigned long> expectCan;
	for (auto& kv : toCan) expectCan[kv.second] |= det.Tag(kv.first);
	for (auto& kv : expectCan) { ctx.count(); if (can.Tag(kv.first) != kv.second) fail(str(r.text, ": merged state carries tag ", can.Tag(kv.first), ", the union is ", kv.second)); }
	size_t checked = 0;
	for (size_t i = 0; i < q.size() && i < 500; ++i) {
		auto cur = q[i];
		unsigned long t = 0; bool stop = false, fin = false;
		for (int s : cur.first) { t |= r.tags[s]; stop |= term[s]; fin |= n.fin[s]; }
		ctx.count();
		if (!stop || i == 0) { }
		if (!stop && det.Tag(cur.second.first) != t) fail(str(r.text, ": determined state carries tag ", det.Tag(cur.second.first), ", the union over the merged states is ", t));
		if (det.IsFinal(cur.second.first) != fin && !stop) fail(r.text + ": finality differs");
		if (stop) continue;
		++checked;
		for (int c : {(int)'a', (int)'b', (int)'c', 0, 255, 128, 1, 64, 127, 200, (int)ref::BM, (int)ref::EM, (int)ref::OTHER}) {
			std::set<int> nx;
			for (int s : cur.first) for (auto& e : n.st[s].edges) if (e.first[c]) nx.insert(e.second);
			nx = closure(nx);
			if (seen.count(nx)) continue;
			seen[nx] = 1;
			auto& a = det.Destinations(cur.second.first, c);
			if (a.empty()) { if (!nx.empty()) fail(r.text + ": transition lost"); continue; }
			q.push_back({nx, {*a.begin(), 0}});
		}
	}
	unsigned long all = 0; for (auto t : r.tags) all |= t;
	if (all && checked > 1) ctx.nontrivial(r.text);
}

// families whose determinized size is known: the n-th letter from the end, counters
static void families(Src&, Ctx& ctx) {
	size_t n = 1 + ctx.index / 2;
	P::Fsm f; Lang l; size_t need;
	if (ctx.index % 2 == 0) {
		// .*a.{n-1}: 2^n states, over bytes; plus the dead state
		f = parse(str(".*a.{", n - 1, "}")); need = (size_t(1) << n) + 1;
		l = ref::cat(ref::cat(ref::star(ref::chars(ref::bytes())), ref::sym('a')), ref::power(ref::chars(ref::bytes()), n - 1));
	} else { f = parse(str("(a{", n, "})*")); need = n + 1; l = ref::star(ref::power(ref::sym('a'), n)); }
	ctx.describe(str(ctx.index % 2 ? "(a{n})*" : ".*a.{n-1}", " n=", n));
	PBT_EXPECT(l.size() == need, "the reference is wrong");
	P::Fsm x(f); x.Canonize();
	PBT_EXPECT(x.Size() == need, str("canonized into ", x.Size(), " states instead of ", need));
	expectFsm(x, l, "family", &ctx);
	if (need > 4) { P::Fsm y(f); PBT_EXPECT(!y.Determine(need / 2), "a limit below the minimal size was met"); expectFsm(y, l, "family after a failed Determine", &ctx); }
	ctx.nontrivial(ctx.index);
}

int main(int argc, char** argv) {
	Suite s;
	s.id = "C04";
	s.rule = "automaton with more than 2 states whose minimal form has more than 2 states; tags: some tag set and more than one subset visited; distinct by printed structure";
	s.assumptions = {"raw automata up to 9 states (epsilon, marks, ranges, all-letter loops), parsed ones up to 120 states; determinized size up to 3000",
		"Determine(m) may count the initial state or not: m or m+1 states are both taken for 'allowed'", "tags reached only through a terminal state are not judged"};
	s.laws = {
		{"pipeline", 4000, 250000, pipeline},
		{"tags", 8000, 500000, tags},
		{"families", 18, 18, families, true},
	};
	return run(s, argc, argv);
}
