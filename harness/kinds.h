// Every scanner kind behind one interface: its name, a generator of values, and comparison by behaviour.
#pragma once
#include "genfsm.h"
#include "observe.h"

namespace kinds {
namespace P = Pire;
using namespace pbt;
using ref::Word;

enum Family { Masked, Unmasked, Simple, Slow, Loaded, NoGlue };

template<class Sc> struct Info;
#define KIND(T, FAM, MMAP, GLUE) template<> struct Info<P::T> { static const char* name() { return #T; } static const Family family = FAM; static const bool mmap = MMAP; static const bool glue = GLUE; }
KIND(Scanner, Masked, true, true);
KIND(ScannerNoMask, Unmasked, true, true);
KIND(NonrelocScanner, Masked, false, true);
KIND(NonrelocScannerNoMask, Unmasked, false, true);
KIND(HalfFinalScanner, Masked, true, true);
KIND(HalfFinalScannerNoMask, Unmasked, true, true);
KIND(NonrelocHalfFinalScanner, Masked, false, true);
KIND(NonrelocHalfFinalScannerNoMask, Unmasked, false, true);
KIND(SimpleScanner, Simple, true, false);
KIND(SlowScanner, Slow, true, false);
KIND(CountingScanner, Loaded, true, true);
KIND(AdvancedCountingScanner, Loaded, true, true);
KIND(NoGlueLimitCountingScanner, NoGlue, true, true);
KIND(CapturingScanner, Loaded, true, false);
KIND(SlowCapturingScanner, Slow, true, false);
#undef KIND

/// calls f.run<Sc>() for the kind number i (0..14)
static const size_t count = 15;
template<class F> void dispatch(size_t i, F& f) {
	switch (i) {
	case 0: f.template run<P::Scanner>(); break;
	case 1: f.template run<P::ScannerNoMask>(); break;
	case 2: f.template run<P::NonrelocScanner>(); break;
	case 3: f.template run<P::NonrelocScannerNoMask>(); break;
	case 4: f.template run<P::HalfFinalScanner>(); break;
	case 5: f.template run<P::HalfFinalScannerNoMask>(); break;
	case 6: f.template run<P::NonrelocHalfFinalScanner>(); break;
	case 7: f.template run<P::NonrelocHalfFinalScannerNoMask>(); break;
	case 8: f.template run<P::SimpleScanner>(); break;
	case 9: f.template run<P::SlowScanner>(); break;
	case 10: f.template run<P::CountingScanner>(); break;
	case 11: f.template run<P::AdvancedCountingScanner>(); break;
	case 12: f.template run<P::NoGlueLimitCountingScanner>(); break;
	case 13: f.template run<P::CapturingScanner>(); break;
	default: f.template run<P::SlowCapturingScanner>();
	}
}

/// What a user sees, apart from the numbers of states
template<class Sc> std::string seen(const Sc& sc, const typename Sc::State& st) {
	std::string v = obs::view(sc, st);
	size_t i = v.find_first_not_of("states 0123456789");
	if (!v.compare(0, 3, "at ")) i = v.find_first_of("cn", v.find("threads") + 7);
	return i == std::string::npos ? "" : v.substr(i);
}
template<class Sc> bool startsAtMark(const Sc&) { return true; }
inline bool startsAtMark(const P::SlowCapturingScanner&) { return false; }   // takes the marks by itself

template<class Sc> std::string behaviour(const Sc& sc, const std::vector<Word>& probes) {
	std::string r = str("size ", sc.Size(), " expressions ", sc.RegexpsCount(), sc.Empty() ? " empty" : "");
	for (const Word& w : probes) {
		typename Sc::State st; sc.Initialize(st);
		r += "\n[" + seen(sc, st);
		for (int c : w) {
			if (!startsAtMark(sc) && c >= 256) continue;
			P::Step(sc, st, (P::Char)c);
			r += " | " + seen(sc, st);
		}
		std::string t; for (int c : w) if (c < 256) t += (char)c;
		typename Sc::State s2; sc.Initialize(s2);
		P::Run(sc, s2, t.data(), t.data() + t.size());
		r += " || " + seen(sc, s2) + "]";
	}
	return r;
}

template<class Sc> std::string key(const Sc& sc, const typename Sc::State& st) { return std::to_string(sc.StateIndex(st)); }
inline std::string key(const P::SlowScanner& sc, const P::SlowScanner::State& st) { return obs::view(sc, st); }
inline std::string key(const P::SlowCapturingScanner& sc, const P::SlowCapturingScanner::State& st) { return obs::view(sc, st); }

/// Walks both scanners through all reachable pairs of states (up to the limit) and compares what they show.
/// Returns an empty string or the difference.
template<class A, class B> std::string compare(const A& a, const B& b, size_t limit = 150) {
	if (a.Empty() != b.Empty()) return str("one is empty, the other is not");
	if (a.RegexpsCount() != b.RegexpsCount()) return str("numbers of expressions ", a.RegexpsCount(), " and ", b.RegexpsCount());
	struct Node { typename A::State x; typename B::State y; int parent; int sym; };
	std::vector<Node> nodes;
	std::set<std::string> done;
	auto push = [&](const typename A::State& x, const typename B::State& y, int parent, int sym) { if (done.insert(key(a, x) + "/" + key(b, y)).second) nodes.push_back(Node{x, y, parent, sym}); };
	auto path = [&](size_t i) { Word w; while (nodes[i].parent >= 0) { w.push_back(nodes[i].sym); i = nodes[i].parent; } std::reverse(w.begin(), w.end()); return w; };
	{ typename A::State x; a.Initialize(x); typename B::State y; b.Initialize(y); push(x, y, -1, 0); }
	static const int few[] = {'a', 'b', 'c', 'x', ' ', '-', 0, 255, '0', ref::EM};
	for (size_t i = 0; i < nodes.size() && i < limit; ++i) {
		std::string p = seen(a, nodes[i].x), q = seen(b, nodes[i].y);
		if (p != q) return str("after ", showWord(path(i)), ": '", p, "' and '", q, "'");
		auto go = [&](int c) {
			if (c >= 256 && (!startsAtMark(a) || c == 256 || c == 257)) return;
			typename A::State x = nodes[i].x; typename B::State y = nodes[i].y;
			P::Step(a, x, (P::Char)c); P::Step(b, y, (P::Char)c);
			push(x, y, (int)i, c);
		};
		if (i < 3) for (int c = 0; c < ref::NSYM; ++c) go(c); else for (int c : few) go(c);
	}
	return "";
}

inline std::vector<Word> probes(Src& s, const ref::Lang* l) {
	std::vector<Word> v;
	size_t n = 2 + s.below(3);
	for (size_t i = 0; i < n; ++i) {
		Word w; w.push_back(ref::BM);
		if (l && s.chance(2, 3)) { Word r = ref::randomWord(s, *l, 12, true, true); w.insert(w.end(), r.begin(), r.end()); }
		else for (unsigned char c : obs::texture(s, nullptr, 25, "abcx -")) w.push_back(c);
		w.push_back(ref::EM);
		v.push_back(w);
	}
	return v;
}

template<class Sc> struct Made { Sc sc; std::string text; std::vector<Word> probes; bool empty = false; };

inline P::Fsm smallFsm(Src& src, ref::Lang& l, std::string& d, size_t states) {
	P::Fsm f;
	try { f = gen::any(src, l, d, 6); if (src.chance(1, 2)) { f.Surround(); l = ref::surrounded(l); d += " surrounded"; } } catch (ref::TooBig&) { discard(); }
	if (f.Size() > 60 || l.size() > states) discard();
	P::Fsm x(f); if (!x.Determine(400)) discard();
	return f;
}

template<class Sc> struct Maker {
	static void make(Src& s, Made<Sc>& m) {
		ref::Lang l; P::Fsm f = smallFsm(s, l, m.text, 25);
		m.sc = Sc(f);
		m.probes = probes(s, &l);
	}
};
template<class R, class Sh> struct Maker<P::Impl::HalfFinalScanner<R, Sh> > {
	typedef P::Impl::HalfFinalScanner<R, Sh> Sc;
	static void make(Src& s, Made<Sc>& m) {
		if (s.coin()) {
			obs::CountPair cp = obs::countPair(s);
			P::Fsm re = pu::parse(cp.re); if (re.Size() > 20) discard();
			P::HalfFinalFsm hf(re);
			if (s.coin()) { hf.MakeGreedyCounter(s.coin()); m.text = "greedy counter " + show(cp.re); } else { bool x = s.coin(), y = s.coin(); hf.MakeNonGreedyCounter(x, y); m.text = str("non-greedy counter ", x, y, " ", show(cp.re)); }
			m.sc = Sc(hf);
			m.probes = probes(s, nullptr);
		} else {
			ref::Lang l; P::Fsm f = smallFsm(s, l, m.text, 25);
			m.sc = Sc(f);
			m.probes = probes(s, &l);
		}
	}
};
template<class Sc> struct CountMaker {
	static void make(Src& s, Made<Sc>& m) {
		obs::CountPair cp = obs::countPair(s);
		P::Fsm re = pu::parse(cp.re), sep = pu::parse(cp.sep);
		if (re.Size() + sep.Size() > 30) discard();
		m.text = show(cp.re) + " by " + show(cp.sep);
		m.sc = Sc(re, sep);
		m.probes = probes(s, nullptr);
	}
};
template<> struct Maker<P::CountingScanner>: CountMaker<P::CountingScanner> {};
template<> struct Maker<P::AdvancedCountingScanner>: CountMaker<P::AdvancedCountingScanner> {};
template<> struct Maker<P::NoGlueLimitCountingScanner>: CountMaker<P::NoGlueLimitCountingScanner> {};
template<class Sc> struct CaptureMaker {
	static void make(Src& s, Made<Sc>& m) {
		pat::Options o; o.marks = false; o.depth = 2; o.maxTerms = 5; if (s.coin()) o.letters = "abc";
		pat::Pattern a = pat::generate(s, o), b = pat::generate(s, o), c = pat::generate(s, o);
		std::string re = a.text + "(" + b.text + ")" + c.text;
		size_t group = 1 + s.below(2);
		std::vector<P::wchar32> w; for (unsigned char ch : re) w.push_back(ch);
		P::Lexer lx(w.begin(), w.end());
		lx.AddFeature(P::Features::Capture(group));
		P::Fsm f;
		try { f = lx.Parse(); } catch (P::Error&) { discard(); }
		bool slow = std::is_same<Sc, P::SlowCapturingScanner>::value;
		if (!slow && s.coin()) f.Surround();
		if (f.Size() > 50) discard();
		P::Fsm x(f); if (!slow && !x.Determine(300)) discard();
		m.text = str("group ", group, " of ", show(re));
		m.sc = Sc(f);
		try { ref::Lang l = ref::cat(ref::cat(pat::lang(a.tree, false), pat::lang(b.tree, false)), pat::lang(c.tree, false)); m.probes = probes(s, l.size() < 40 ? &l : nullptr); } catch (ref::TooBig&) { m.probes = probes(s, nullptr); }
	}
};
template<> struct Maker<P::CapturingScanner>: CaptureMaker<P::CapturingScanner> {};
template<> struct Maker<P::SlowCapturingScanner>: CaptureMaker<P::SlowCapturingScanner> {};

template<class Sc, bool Glue> struct Gluer { static void glue(Src&, Made<Sc>&) {} };
template<class Sc> struct Gluer<Sc, true> {
	static void glue(Src& s, Made<Sc>& m) {
		Made<Sc> o; Maker<Sc>::make(s, o);
		Sc g = Sc::Glue(m.sc, o.sc, 600);
		if (g.Empty()) return;
		m.sc = g; m.text += " glued with " + o.text; m.probes.insert(m.probes.end(), o.probes.begin(), o.probes.end());
	}
};

template<class Sc> Made<Sc> make(Src& s) {
	Made<Sc> m;
	if (s.chance(1, 8)) { m.empty = true; m.text = "empty"; m.probes = probes(s, nullptr); }
	else {
		Maker<Sc>::make(s, m);
		size_t g = s.weighted({4, 2, 1});
		while (g--) Gluer<Sc, Info<Sc>::glue>::glue(s, m);
	}
	m.text = str(Info<Sc>::name(), " of ", m.text);
	return m;
}

}
