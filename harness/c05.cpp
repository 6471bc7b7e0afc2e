// C05: all scanner kinds compiled from one automaton give the same verdicts (and agree with its language).
#include "genfsm.h"
#include "observe.h"
#include "scale.h"
using namespace pbt;
using namespace pu;
namespace P = Pire;

template<class Sc> static void accepted(const Sc& sc, const Lang& l, const std::string& what, Ctx& ctx) {
	size_t n = explore(sc, l, [&](const typename Sc::State& st, int ls, std::function<Word()> path) {
		auto r = sc.AcceptedRegexps(st);
		size_t k = r.second - r.first;
		bool f = l.fin[ls];
		if (k != (f ? 1u : 0u)) fail(str(what, " after ", showWord(path()), " lists ", k, " matched expressions, verdict is ", f));
		if (k && *r.first != 0) fail(str(what, " lists expression ", *r.first));
	});
	ctx.count(n);
}

template<class Sc> static void one(const P::Fsm& f, const Lang& l, const std::string& what, Ctx& ctx) {
	P::Fsm c(f);
	Sc sc = c.Compile<Sc>();
	if (sc.Empty()) fail(what + ": the compiled scanner is empty");
	if (sc.RegexpsCount() != 1) fail(str(what, ": RegexpsCount() = ", sc.RegexpsCount()));
	expectScanner(sc, l, what, &ctx);
	accepted(sc, l, what, ctx);
}
template<class Sc> static void half(const P::Fsm& f, const Lang& l, const std::string& what, Ctx& ctx) {
	P::Fsm c(f);
	Sc sc(c);
	if (sc.Empty()) fail(what + ": the compiled scanner is empty");
	if (sc.RegexpsCount() != 1) fail(str(what, ": RegexpsCount() = ", sc.RegexpsCount()));
	expectHalfFinal(sc, l, what, &ctx);
}
template<class A, class B> static void convertHalf(const P::Fsm& f, const Lang& l, const std::string& what, Ctx& ctx) {
	P::Fsm c(f);
	A a(c);
	B b(a);
	expectHalfFinal(b, l, what + " converted", &ctx);
	A back(b);
	expectHalfFinal(back, l, what + " converted and back", &ctx);
}
template<class A, class B> static void convert(const P::Fsm& f, const Lang& l, const std::string& what, Ctx& ctx) {
	P::Fsm c(f);
	A a(c);
	B b(a);
	expectScanner(b, l, what + " converted", &ctx); accepted(b, l, what + " converted", ctx);
	A back(b);
	expectScanner(back, l, what + " converted and back", &ctx); accepted(back, l, what + " converted and back", ctx);
	B b2; b2 = B(back);
	expectScanner(b2, l, what + " converted twice", &ctx);
	expectScanner(a, l, what + " after conversion", &ctx);
	if (back.Size() != a.Size() || back.RegexpsCount() != a.RegexpsCount() || back.LettersCount() != a.LettersCount()) fail(what + ": sizes change by conversion");
}

static void verdicts(Src& src, Ctx& ctx) {
	Lang l; std::string d; P::Fsm f;
	try { f = gen::any(src, l, d, 8); } catch (ref::TooBig&) { discard(); }
	if (f.Size() > 90 || l.size() > 60) discard();
	ctx.describe(d);
	{ P::Fsm x(f); if (!x.Determine(1500)) discard(); }
	one<P::Scanner>(f, l, d + ": Scanner", ctx);
	one<P::ScannerNoMask>(f, l, d + ": ScannerNoMask", ctx);
	one<P::NonrelocScanner>(f, l, d + ": NonrelocScanner", ctx);
	one<P::NonrelocScannerNoMask>(f, l, d + ": NonrelocScannerNoMask", ctx);
	one<P::SimpleScanner>(f, l, d + ": SimpleScanner", ctx);
	one<P::SlowScanner>(f, l, d + ": SlowScanner", ctx);
	half<P::HalfFinalScanner>(f, l, d + ": HalfFinalScanner", ctx);
	half<P::HalfFinalScannerNoMask>(f, l, d + ": HalfFinalScannerNoMask", ctx);
	half<P::NonrelocHalfFinalScanner>(f, l, d + ": NonrelocHalfFinalScanner", ctx);
	half<P::NonrelocHalfFinalScannerNoMask>(f, l, d + ": NonrelocHalfFinalScannerNoMask", ctx);
	convert<P::Scanner, P::NonrelocScanner>(f, l, d + ": Scanner", ctx);
	convert<P::ScannerNoMask, P::NonrelocScannerNoMask>(f, l, d + ": ScannerNoMask", ctx);
	convertHalf<P::HalfFinalScanner, P::NonrelocHalfFinalScanner>(f, l, d + ": HalfFinalScanner", ctx);
	convertHalf<P::HalfFinalScannerNoMask, P::NonrelocHalfFinalScannerNoMask>(f, l, d + ": HalfFinalScannerNoMask", ctx);
	{ P::Fsm x(f); x.Canonize(); x.RemoveDeadEnds(); if (src.coin()) { one<P::Scanner>(x, l, d + ": cleaned, Scanner", ctx); one<P::SimpleScanner>(x, l, d + ": cleaned, SimpleScanner", ctx); } half<P::HalfFinalScanner>(x, l, d + ": cleaned, HalfFinalScanner", ctx); }
	{ P::Fsm x(f); x.Canonize(); one<P::Scanner>(x, l, d + ": canonized, Scanner", ctx); one<P::SlowScanner>(x, l, d + ": canonized, SlowScanner", ctx); one<P::SimpleScanner>(x, l, d + ": canonized, SimpleScanner", ctx); }
	expectFsm(f, l, d + " after compiling copies", &ctx);
	if (l.size() > 2) ctx.nontrivial(d);
}

// texts: every kind gives the language's verdict through the usual calls
template<class Sc> static void verdict(const Sc& sc, const std::string& t, size_t shift, const Lang& l, const Word& w, const std::string& what) {
	Text tx(t, shift);
	bool r1 = P::Runner(sc).Begin().Run(tx.begin(), tx.end()).End();
	Word m = ref::marked(t);
	if (r1 != l.accepts(m)) fail(str(what, r1 ? " matches " : " does not match ", show(t), " with marks"));
	bool r2 = P::Runner(sc).Run(tx.begin(), tx.end() - tx.begin());
	if (r2 != l.accepts(w)) fail(str(what, r2 ? " matches " : " does not match ", show(t), " without marks"));
	bool r3 = P::Matches(sc, tx.begin(), tx.end());
	if (r3 != l.accepts(w)) fail(str(what, " Matches() ", r3 ? "accepts " : "refuses ", show(t)));
	bool r4 = P::Runner(sc).Begin().Run(t).End();
	if (r4 != r1) fail(str(what, " string and range runs differ on ", show(t)));
}
template<class Sc> static void halfv(const Sc& sc, const std::string& t, size_t shift, const Lang& l, const Word& w, const std::string& what) {
	Text tx(t, shift);
	for (int b = 0; b < 2; ++b) {
		P::RunHelper<Sc> r(sc);
		if (b) r.Begin();
		r.Run(tx.begin(), tx.end()).End();
		Word m; if (b) m.push_back(BM); m.insert(m.end(), w.begin(), w.end()); m.push_back(EM);
		bool got = halfVerdict(sc, r.State());
		if (got != l.accepts(m)) fail(str(what, got ? " matches " : " does not match ", show(t), b ? " with marks" : " with the end mark"));
	}
}
static void texts(Src& src, Ctx& ctx) {
	Lang l; std::string d; P::Fsm f;
	try { f = gen::any(src, l, d, 8); if (src.coin()) { f.Surround(); l = ref::surrounded(l); d += " surrounded"; } } catch (ref::TooBig&) { discard(); }
	if (f.Size() > 150 || l.size() > 150) discard();
	ctx.describe(d);
	{ P::Fsm x(f); if (!x.Determine(1500)) discard(); }
	P::Fsm c[8]; for (auto& x : c) x = f;
	P::Scanner s0(c[0]); P::ScannerNoMask s1(c[1]); P::NonrelocScanner s2(c[2]); P::NonrelocScannerNoMask s3(c[3]); P::SimpleScanner s4(c[4]); P::SlowScanner s5(c[5]); P::HalfFinalScanner s6(c[6]); P::NonrelocHalfFinalScannerNoMask s7(c[7]);
	// the same by conversion, there and back
	P::NonrelocScanner n0(s0); P::Scanner r0(s2), b0(n0); P::NonrelocScannerNoMask n1(s1); P::ScannerNoMask r1(s3); P::NonrelocHalfFinalScanner h0(s6); P::HalfFinalScannerNoMask h1(s7);
	P::NonrelocScanner a2; a2 = n0; P::Scanner a0; a0 = r0;
	bool yes = false, no = false;
	for (int i = 0; i < 11; ++i) {
		Word w;
		if (i >= 8) w = ref::toWord(obs::lingering(src, l, 300));
		else if (i < 6) { for (int x : ref::randomWord(src, l, src.chance(1, 3) ? 60 : 12, false, i < 4)) if (x < 256) w.push_back(x); }
		else { size_t n = src.below(80); while (n--) w.push_back("abc\0\xff"[src.below(5)] & 255); }
		std::string t = ref::toBytes(w);
		size_t shift = src.below(16);
		ctx.describe(d + " text " + show(t));
		(l.accepts(ref::marked(t)) || l.accepts(w) ? yes : no) = true;
		verdict(s0, t, shift, l, w, d + ": Scanner"); verdict(s1, t, shift, l, w, d + ": ScannerNoMask"); verdict(s2, t, shift, l, w, d + ": NonrelocScanner"); verdict(s3, t, shift, l, w, d + ": NonrelocScannerNoMask");
		verdict(s4, t, shift, l, w, d + ": SimpleScanner"); verdict(s5, t, shift, l, w, d + ": SlowScanner"); halfv(s6, t, shift, l, w, d + ": HalfFinalScanner"); halfv(s7, t, shift, l, w, d + ": NonrelocHalfFinalScannerNoMask");
		verdict(n0, t, shift, l, w, d + ": NonrelocScanner from Scanner"); verdict(r0, t, shift, l, w, d + ": Scanner from NonrelocScanner"); verdict(b0, t, shift, l, w, d + ": Scanner from NonrelocScanner from Scanner");
		verdict(n1, t, shift, l, w, d + ": NonrelocScannerNoMask from ScannerNoMask"); verdict(r1, t, shift, l, w, d + ": ScannerNoMask from NonrelocScannerNoMask");
		verdict(a2, t, shift, l, w, d + ": converted and assigned NonrelocScanner"); verdict(a0, t, shift, l, w, d + ": converted and assigned Scanner");
		halfv(h0, t, shift, l, w, d + ": NonrelocHalfFinalScanner from HalfFinalScanner"); halfv(h1, t, shift, l, w, d + ": HalfFinalScannerNoMask from NonrelocHalfFinalScannerNoMask");
		ctx.count(66);
	}
	ctx.label(yes && no ? "both verdicts seen" : yes ? "only matches" : "only mismatches");
	if (yes && no) ctx.nontrivial(d);
}

// automata of tens of thousands of states
template<class Sc> static void largeOne(const Sc& sc, const scale::Big& b, const std::vector<std::string>& ts, const std::string& what, Ctx& ctx) {
	for (auto& t : ts) {
		bool want = b.accepts(t);
		typename Sc::State st; sc.Initialize(st);
		P::Run(sc, st, t.data(), t.data() + t.size());
		if (sc.Final(st) != want) fail(str(what, ": ", b.text, want ? " does not match " : " matches ", t.size() < 500 ? show(t) : str("a text of ", t.size(), " letters")));
		auto r = sc.AcceptedRegexps(st);
		if ((size_t)(r.second - r.first) != (want ? 1u : 0u)) fail(str(what, ": ", b.text, ": wrong list of expressions"));
		ctx.count(2);
	}
}
template<class Sc> static void largeHalf(const Sc& sc, const scale::Big& b, const std::vector<std::string>& ts, const std::string& what, Ctx& ctx) {
	for (auto& t : ts) {
		bool want = b.accepts(t);
		typename Sc::State st; sc.Initialize(st);
		P::Run(sc, st, t.data(), t.data() + t.size());
		P::Step(sc, st, P::EndMark);
		if (halfVerdict(sc, st) != want) fail(str(what, ": ", b.text, want ? " does not match " : " matches ", t.size() < 500 ? show(t) : str("a text of ", t.size(), " letters")));
		ctx.count();
	}
}
static void larges(Src& src, Ctx& ctx) {
	size_t kind = src.below(9), n = src.oneOf<size_t>({300, 1000, 5000, 33000, 66000}) + src.below(20);
	if (kind >= 5) n = std::min<size_t>(n, kind == 5 ? 1500 : 5000);
	scale::Big b = scale::big(src, n, src.coin());
	std::string d = str(b.text, ", kind ", kind);
	ctx.describe(d);
	auto ts = scale::texts(src, b, kind == 5 ? 8 : 16);
	P::Fsm f(b.fsm);
	if (kind >= 6 && !b.around) f.AppendSpecial(P::EndMark);
	switch (kind) {
	case 0: { P::Scanner s(f); largeOne(s, b, ts, "Scanner", ctx); P::NonrelocScanner c(s); largeOne(c, b, ts, "Scanner converted", ctx); break; }
	case 1: { P::ScannerNoMask s(f); largeOne(s, b, ts, "ScannerNoMask", ctx); P::NonrelocScannerNoMask c(s); largeOne(c, b, ts, "ScannerNoMask converted", ctx); break; }
	case 2: { P::NonrelocScanner s(f); largeOne(s, b, ts, "NonrelocScanner", ctx); P::Scanner c(s); largeOne(c, b, ts, "NonrelocScanner converted", ctx); break; }
	case 3: { P::NonrelocScannerNoMask s(f); largeOne(s, b, ts, "NonrelocScannerNoMask", ctx); P::ScannerNoMask c(s); largeOne(c, b, ts, "NonrelocScannerNoMask converted", ctx); break; }
	case 4: { P::SimpleScanner s(f); largeOne(s, b, ts, "SimpleScanner", ctx); break; }
	case 5: { P::SlowScanner s(f); largeOne(s, b, ts, "SlowScanner", ctx); break; }
	case 6: { P::HalfFinalScanner s(f); largeHalf(s, b, ts, "HalfFinalScanner", ctx); P::NonrelocHalfFinalScanner c(s); largeHalf(c, b, ts, "HalfFinalScanner converted", ctx); break; }
	case 7: { P::NonrelocHalfFinalScanner s(f); largeHalf(s, b, ts, "NonrelocHalfFinalScanner", ctx); break; }
	default: { P::HalfFinalScannerNoMask s(f); largeHalf(s, b, ts, "HalfFinalScannerNoMask", ctx); break; }
	}
	ctx.label(n > 30000 ? "more than 30000 states" : "up to 30000 states");
	ctx.nontrivial(d);
}

int main(int argc, char** argv) {
	Suite s;
	s.id = "C05";
	s.rule = "automata whose minimal form has more than 2 states (exact comparison) or for which the sampled texts gave both verdicts (texts); distinct by printed automaton";
	s.assumptions = {"automata whose minimal form has up to 150 states; every reachable (scanner state, language state) pair and all 260 symbols are followed in the exact law (up to 20000 pairs)", "large automata (to 66000 states) are compared on texts only"};
	s.laws = {
		{"verdicts", 900, 100000, verdicts},
		{"texts", 2000, 250000, texts},
		{"large", 24, 1500, larges},
	};
	return run(s, argc, argv);
}
