// C06: running a scanner over a buffer equals feeding its bytes one at a time.
#include "genfsm.h"
#include "observe.h"
#include "scale.h"
using namespace pbt;
using namespace pu;
namespace P = Pire;

struct Plan {
	Word before;                 // what the scanner has consumed already
	std::string text;
	std::vector<size_t> cuts;    // ascending positions in the text
	size_t shifts[2];
	std::string fills[2];
	Word tail;                   // consumed afterwards, shows hidden differences of the states
};

static Plan plan(Src& s, const Lang* l, const std::string& pool) {
	Plan p;
	if (s.coin()) p.before.push_back(BM);
	if (s.coin()) for (unsigned char c : obs::texture(s, l, 12, pool)) p.before.push_back(c);
	p.text = obs::texture(s, l, s.chance(1, 3) ? 300 : 90, pool);
	size_t k = s.below(4);
	for (size_t i = 0; i < k; ++i) p.cuts.push_back(s.below(p.text.size() + 1));
	std::sort(p.cuts.begin(), p.cuts.end());
	p.shifts[0] = s.below(16); p.shifts[1] = s.below(16);
	p.fills[0] = std::string(1, pool[s.below(pool.size())]); p.fills[1] = std::string(1, (char)s.below(256)) + pool;
	size_t n = s.below(4);
	while (n--) p.tail.push_back((unsigned char)pool[s.below(pool.size())]);
	if (s.coin()) p.tail.push_back(EM);
	return p;
}
static std::string planText(const Plan& p) { return str("after ", showWord(p.before), " text ", show(p.text), " (", p.text.size(), ") shifts ", p.shifts[0], ",", p.shifts[1]); }

template<class Sc> static void check(const Sc& sc, const Plan& p, const std::string& what, Ctx& ctx) {
	typename Sc::State st0; sc.Initialize(st0);
	for (int c : p.before) P::Step(sc, st0, (P::Char)c);
	typename Sc::State ref = st0;
	std::vector<std::string> at(p.cuts.size());
	size_t ci = 0;
	for (size_t i = 0; i <= p.text.size(); ++i) {
		while (ci < p.cuts.size() && p.cuts[ci] == i) at[ci++] = obs::view(sc, ref);
		if (i < p.text.size()) P::Step(sc, ref, (unsigned char)p.text[i]);
	}
	std::string want = obs::view(sc, ref);
	typename Sc::State tail = ref;
	for (int c : p.tail) P::Step(sc, tail, (P::Char)c);
	std::string wantTail = obs::view(sc, tail);
	auto same = [&](const typename Sc::State& st, const std::string& how) {
		std::string got = obs::view(sc, st);
		if (got != want) fail(str(what, " ", planText(p), ": ", how, " gives ", got, ", byte by byte gives ", want));
		typename Sc::State t = st;
		for (int c : p.tail) P::Step(sc, t, (P::Char)c);
		std::string gt = obs::view(sc, t);
		if (gt != wantTail) fail(str(what, " ", planText(p), ": ", how, ", then ", showWord(p.tail), " gives ", gt, ", byte by byte gives ", wantTail));
		ctx.count(2);
	};
	for (int v = 0; v < 2; ++v) {
		obs::Fenced f(p.text, p.shifts[v], p.fills[v]);
		{ typename Sc::State st = st0; P::Run(sc, st, f.begin(), f.end()); same(st, str("a run at offset ", p.shifts[v])); }
		typename Sc::State st = st0;
		const char* at0 = f.begin();
		for (size_t i = 0; i < p.cuts.size(); ++i) {
			P::Run(sc, st, at0, f.begin() + p.cuts[i]);
			at0 = f.begin() + p.cuts[i];
			std::string got = obs::view(sc, st);
			if (got != at[i]) fail(str(what, " ", planText(p), ": running the first ", p.cuts[i], " bytes at offset ", p.shifts[v], " gives ", got, ", byte by byte gives ", at[i]));
		}
		P::Run(sc, st, at0, f.end());
		same(st, str("a run in pieces at offset ", p.shifts[v]));
		if (v == 0) {
			same(P::Runner(sc, st0).Run(f.begin(), f.end()).State(), "Runner over a range");
			same(P::Runner(sc, st0).Run(f.begin(), p.text.size()).State(), "Runner over a pointer and a length");
		} else
			same(P::Runner(sc, st0).Run(P::ystring(p.text)).State(), "Runner over a string");
	}
}
template<class A, class B> static void checkPair(const A& a, const B& b, const Plan& p, const std::string& what, Ctx& ctx) {
	typedef P::ScannerPair<A, B> Pair;
	Pair pair(a, b);
	typename A::State ra; a.Initialize(ra);
	typename B::State rb; b.Initialize(rb);
	typename Pair::State st; pair.Initialize(st);
	for (int c : p.before) { P::Step(a, ra, (P::Char)c); P::Step(b, rb, (P::Char)c); P::Step(pair, st, (P::Char)c); }
	typename A::State sa = ra; typename B::State sb = rb;
	for (unsigned char c : p.text) { P::Step(a, ra, c); P::Step(b, rb, c); }
	std::string wa = obs::view(a, ra), wb = obs::view(b, rb);
	obs::Fenced f(p.text, p.shifts[0], p.fills[0]);
	P::Run(a, b, sa, sb, f.begin(), f.end());
	std::string d = what + " " + planText(p);
	if (obs::view(a, sa) != wa) fail(str(d, ": the first of two gives ", obs::view(a, sa), ", alone ", wa));
	if (obs::view(b, sb) != wb) fail(str(d, ": the second of two gives ", obs::view(b, sb), ", alone ", wb));
	P::Run(pair, st, f.begin(), f.end());
	if (obs::view(a, st.first) != wa || obs::view(b, st.second) != wb) fail(d + ": the pair differs from its parts");
	if (pair.Final(st) != (a.Final(ra) || b.Final(rb)) || pair.Dead(st) != (a.Dead(ra) && b.Dead(rb))) fail(d + ": verdict of the pair");
	ctx.count(4);
}

static P::Fsm genFsm(Src& src, Lang& l, std::string& d, size_t limit = 60) {
	P::Fsm f;
	try { f = gen::any(src, l, d, 7); if (src.chance(2, 3)) { f.Surround(); l = ref::surrounded(l); d += " surrounded"; } } catch (ref::TooBig&) { discard(); }
	if (f.Size() > 120 || l.size() > limit) discard();
	P::Fsm x(f); if (!x.Determine(1500)) discard();
	return f;
}
template<class Sc> static Sc make(const P::Fsm& f) { P::Fsm c(f); return Sc(c); }

static void plain(Src& src, Ctx& ctx) {
	Lang l; std::string d; P::Fsm f = genFsm(src, l, d);
	Lang l2; std::string d2; P::Fsm f2; bool glue = src.chance(1, 3);
	if (glue) { f2 = genFsm(src, l2, d2, 30); d += " glued with " + d2; }
	std::string pool = src.coin() ? "abcx" : std::string("ax\0\xff", 4);
	ctx.describe(d);
	P::Scanner s0 = make<P::Scanner>(f); P::ScannerNoMask s1 = make<P::ScannerNoMask>(f); P::NonrelocScanner s2 = make<P::NonrelocScanner>(f); P::NonrelocScannerNoMask s3 = make<P::NonrelocScannerNoMask>(f);
	P::HalfFinalScanner h0 = make<P::HalfFinalScanner>(f); P::HalfFinalScannerNoMask h1 = make<P::HalfFinalScannerNoMask>(f); P::NonrelocHalfFinalScanner h2 = make<P::NonrelocHalfFinalScanner>(f); P::NonrelocHalfFinalScannerNoMask h3 = make<P::NonrelocHalfFinalScannerNoMask>(f);
	P::SimpleScanner si = make<P::SimpleScanner>(f); P::SlowScanner sl = make<P::SlowScanner>(f);
	if (glue) {
		s0 = P::Scanner::Glue(s0, make<P::Scanner>(f2)); s1 = P::ScannerNoMask::Glue(s1, make<P::ScannerNoMask>(f2)); s2 = P::NonrelocScanner::Glue(s2, make<P::NonrelocScanner>(f2)); s3 = P::NonrelocScannerNoMask::Glue(s3, make<P::NonrelocScannerNoMask>(f2));
		h0 = P::HalfFinalScanner::Glue(h0, make<P::HalfFinalScanner>(f2)); h3 = P::NonrelocHalfFinalScannerNoMask::Glue(h3, make<P::NonrelocHalfFinalScannerNoMask>(f2));
	}
	bool moved = false;
	for (int i = 0; i < 5; ++i) {
		Plan p = plan(src, &l, pool);
		ctx.describe(d + " " + planText(p));
		if (p.text.size() >= 16) ctx.label("text of 16 bytes or more");
		check(s0, p, d + ": Scanner", ctx); check(s1, p, d + ": ScannerNoMask", ctx); check(s2, p, d + ": NonrelocScanner", ctx); check(s3, p, d + ": NonrelocScannerNoMask", ctx);
		check(h0, p, d + ": HalfFinalScanner", ctx); check(h1, p, d + ": HalfFinalScannerNoMask", ctx); check(h2, p, d + ": NonrelocHalfFinalScanner", ctx); check(h3, p, d + ": NonrelocHalfFinalScannerNoMask", ctx);
		check(si, p, d + ": SimpleScanner", ctx); check(sl, p, d + ": SlowScanner", ctx);
		checkPair(s0, s2, p, d + ": Scanner and NonrelocScanner", ctx); checkPair(s1, si, p, d + ": ScannerNoMask and SimpleScanner", ctx); checkPair(sl, s0, p, d + ": SlowScanner and Scanner", ctx); checkPair(si, sl, p, d + ": SimpleScanner and SlowScanner", ctx);
		std::string a = obs::after(s0, p.before); Word w = p.before; for (unsigned char c : p.text) w.push_back(c);
		if (obs::after(s0, w) != a) moved = true;
	}
	if (glue) ctx.label("glued");
	if (moved) ctx.nontrivial(d);
}

static P::Fsm parseOr(const std::string& s, bool surround = false) { ParseOpts o; P::Fsm f = pu::parse(s, o); if (surround) f.Surround(); return f; }

static void counters(Src& src, Ctx& ctx) {
	size_t n = 1 + src.below(3);
	P::CountingScanner c0; P::AdvancedCountingScanner c1; P::NoGlueLimitCountingScanner c2; P::HalfFinalScanner g0; P::NonrelocHalfFinalScannerNoMask g1;
	std::string d;
	for (size_t i = 0; i < n; ++i) {
		obs::CountPair cp = obs::countPair(src);
		d += str(i ? " + " : "", show(cp.re), " by ", show(cp.sep));
		ctx.describe(d);
		P::Fsm re = parseOr(cp.re), sep = parseOr(cp.sep);
		if (re.Size() + sep.Size() > 40) discard();
		P::CountingScanner a(re, sep); P::AdvancedCountingScanner b(re, sep); P::NoGlueLimitCountingScanner c(re, sep);
		P::HalfFinalFsm hf(re); if (src.coin()) hf.MakeGreedyCounter(src.coin()); else hf.MakeNonGreedyCounter(src.coin(), src.coin());
		P::HalfFinalScanner g(hf); P::NonrelocHalfFinalScannerNoMask g2(hf);
		if (!i) { c0 = a; c1 = b; c2 = c; g0 = g; g1 = g2; }
		else {
			c0 = P::CountingScanner::Glue(c0, a, 3000); c1 = P::AdvancedCountingScanner::Glue(c1, b, 3000); c2 = P::NoGlueLimitCountingScanner::Glue(c2, c, 3000); g0 = P::HalfFinalScanner::Glue(g0, g, 3000); g1 = P::NonrelocHalfFinalScannerNoMask::Glue(g1, g2, 3000);
			if (c0.Empty() || c1.Empty() || c2.Empty() || g0.Empty() || g1.Empty()) discard();
		}
	}
	for (int i = 0; i < 5; ++i) {
		Plan p = plan(src, nullptr, "abc x-");
		ctx.describe(d + " " + planText(p));
		check(c0, p, d + ": CountingScanner", ctx); check(c1, p, d + ": AdvancedCountingScanner", ctx); check(c2, p, d + ": NoGlueLimitCountingScanner", ctx); check(g0, p, d + ": counting HalfFinalScanner", ctx); check(g1, p, d + ": counting NonrelocHalfFinalScannerNoMask", ctx);
		checkPair(c0, c1, p, d + ": CountingScanner and AdvancedCountingScanner", ctx); checkPair(c2, g0, p, d + ": NoGlueLimitCountingScanner and HalfFinalScanner", ctx);
		typename P::CountingScanner::State st; c0.Initialize(st); P::Run(c0, st, p.text.data(), p.text.data() + p.text.size());
		for (size_t k = 0; k < n; ++k) if (st.Result((int)k) > 1) { ctx.nontrivial(d); ctx.label("counted two or more"); break; }
	}
}

static void captures(Src& src, Ctx& ctx) {
	pat::Options o; o.marks = src.coin(); o.depth = 2; o.maxTerms = 6; if (src.coin()) o.letters = "abc";
	pat::Pattern a = pat::generate(src, o), b = pat::generate(src, o), c = pat::generate(src, o);
	std::string re = a.text + "(" + b.text + ")" + c.text;
	size_t group = 1;
	for (size_t i = 0; i < a.text.size(); ++i) if (a.text[i] == '(' ) ++group;   // escapes may add some; any group will do
	P::Fsm f;
	bool surround = src.coin();
	{
		std::vector<P::wchar32> w(re.begin(), re.end());
		for (auto& x : w) x &= 0xFF;
		P::Lexer lx(w.begin(), w.end());
		lx.AddFeature(P::Features::Capture(group));
		try { f = lx.Parse(); } catch (P::Error&) { discard(); }
	}
	P::Fsm slowf(f);
	if (surround) f.Surround();
	if (f.Size() > 80) discard();
	std::string d = str("group ", group, " of ", show(re), surround ? " surrounded" : "");
	ctx.describe(d);
	P::Fsm x(f); if (!x.Determine(1500)) discard();
	P::CapturingScanner s0(f); P::SlowCapturingScanner s1(slowf);
	bool some = false;
	Lang l; bool have = true;
	try { l = ref::cat(ref::cat(pat::lang(a.tree, false), pat::lang(b.tree, false)), pat::lang(c.tree, false)); if (l.size() > 60) have = false; } catch (ref::TooBig&) { have = false; }
	for (int i = 0; i < 4; ++i) {
		Plan p = plan(src, nullptr, "abc0x");
		if (have && i < 3) { p.text = ref::toBytes(ref::randomWord(src, l, 40, false, true)); for (auto& k : p.cuts) k = std::min(k, p.text.size()); if (src.coin()) p.before = {BM}; }
		ctx.describe(d + " " + planText(p));
		check(s0, p, d + ": CapturingScanner", ctx);
		Plan q = p; while (!q.before.empty() && q.before[0] == BM) q.before.erase(q.before.begin());
		if (!q.tail.empty() && q.tail.back() == EM) q.tail.pop_back();
		if (q.text.size() > 60) { q.text.resize(60); for (auto& k : q.cuts) k = std::min<size_t>(k, 60); }
		check(s1, q, d + ": SlowCapturingScanner", ctx);
		std::string v = obs::after(s0, [&] { Word w = p.before; for (unsigned char ch : p.text) w.push_back(ch); return w; }());
		if (v.find("capture ") != std::string::npos && v.find("nothing") == std::string::npos) some = true;
	}
	if (some) ctx.nontrivial(d);
}

// every length x offset for scanners whose states sit in different kinds of loops
static void lengths(Src&, Ctx& ctx) {
	static const char* pats[] = {"b", "x[^a]*", "[^a]*b[^b]*", "ab.*", ".*", "a{3}", "[ab]x*[cd]", "\\d+$"};
	size_t len = ctx.index % 70, pi = ctx.index / 70;
	P::Fsm f = parseOr(pats[pi]); 
	std::string d = pats[pi];
	ctx.describe(str(d, " length ", len));
	P::Fsm g = f.Surrounded();
	P::Scanner s0 = make<P::Scanner>(f), s0s = make<P::Scanner>(g); P::NonrelocScanner s2 = make<P::NonrelocScanner>(f); P::NonrelocScannerNoMask s3 = make<P::NonrelocScannerNoMask>(g); P::SimpleScanner si = make<P::SimpleScanner>(g); P::HalfFinalScanner hf = make<P::HalfFinalScanner>(g);
	P::Scanner glued = P::Scanner::Glue(s0, s0s);
	for (size_t shift = 0; shift < 16; ++shift) for (char c : std::string("xab")) for (size_t at : {len, (size_t)0, len / 2, len ? len - 1 : 0}) {
		Plan p; p.text = std::string(len, c); if (at < len) p.text[at] = c == 'b' ? 'a' : 'b';
		p.shifts[0] = shift; p.shifts[1] = (shift + 5) % 16; p.fills[0] = "b"; p.fills[1] = "a"; p.cuts = {len / 3, len / 2};
		check(s0, p, d + ": Scanner", ctx); check(s0s, p, d + ": surrounded Scanner", ctx); check(s2, p, d + ": NonrelocScanner", ctx); check(s3, p, d + ": surrounded NonrelocScannerNoMask", ctx); check(si, p, d + ": surrounded SimpleScanner", ctx); check(hf, p, d + ": HalfFinalScanner", ctx); check(glued, p, d + ": glued Scanner", ctx);
	}
	if (len >= 16) ctx.nontrivial(str(d, len));
}

// texts of up to a megabyte
template<class Sc> static void longOne(Src& src, const Sc& sc, const std::string& t, const std::string& what, Ctx& ctx) {
	typename Sc::State want; sc.Initialize(want); P::Step(sc, want, P::BeginMark);
	typename Sc::State pieces = want, whole = want;
	for (unsigned char c : t) P::Step(sc, want, c);
	std::string w = obs::view(sc, want);
	size_t shift = src.below(16);
	obs::Fenced f(t, shift, "ab");
	P::Run(sc, whole, f.begin(), f.end());
	if (obs::view(sc, whole) != w) fail(str(what, ": a run gives ", obs::view(sc, whole), ", byte by byte gives ", w));
	size_t piece = src.oneOf<size_t>({1000, 4096, 65536, 65537, 7, 100000});
	for (const char* p = f.begin(); p < f.end(); p += piece) P::Run(sc, pieces, p, std::min(p + piece, f.end()));
	if (obs::view(sc, pieces) != w) fail(str(what, ": runs over pieces of ", piece, " give ", obs::view(sc, pieces), ", byte by byte gives ", w));
	ctx.count(2);
}
static void longs(Src& src, Ctx& ctx) {
	static const char* pats[] = {"abc", "[^a]*b[^b]*", "x[^a]*", "a.{5}b", "(aa)*", "c{9}", "ab.*"};
	std::string pat = pats[src.below(7)];
	size_t n = src.oneOf<size_t>({3000, 65530, 70000, 140000, 1100000}) + src.below(20);
	std::string t;
	switch (src.below(3)) {
	case 0: t = scale::noise(src, n); break;
	case 1: t = std::string(n, 'x'); break;
	default: t = std::string(n, "abcx"[src.below(4)]); for (size_t i = 0, k = src.below(40); i < k; ++i) t[src.below(n)] = "abcx"[src.below(4)];
	}
	if (src.coin()) t[t.size() - 1 - src.below(20)] = 'b';
	size_t kind = src.below(9); if (kind == 4) t.resize(std::min<size_t>(t.size(), 70000));
	std::string d = str(show(pat), " on ", t.size(), " letters, kind ", kind);
	ctx.describe(d);
	P::Fsm f = parseOr(pat, src.coin()), sep = parseOr(".*");
	switch (kind) {
	case 0: longOne(src, make<P::Scanner>(f), t, d, ctx); break;
	case 1: longOne(src, make<P::NonrelocScanner>(f), t, d, ctx); break;
	case 2: longOne(src, make<P::ScannerNoMask>(f), t, d, ctx); break;
	case 3: longOne(src, make<P::SimpleScanner>(f), t, d, ctx); break;
	case 4: longOne(src, make<P::SlowScanner>(f), t, d, ctx); break;
	case 5: { P::HalfFinalFsm h(parseOr("abc")); h.MakeNonGreedyCounter(); longOne(src, P::HalfFinalScanner(h), t, d, ctx); break; }
	case 6: longOne(src, P::CountingScanner(parseOr("ab"), sep), t, d, ctx); break;
	case 7: longOne(src, P::AdvancedCountingScanner(parseOr("ab"), sep), t, d, ctx); break;
	default: longOne(src, P::NoGlueLimitCountingScanner(parseOr("ab"), sep), t, d, ctx); break;
	}
	ctx.label(t.size() > 65536 ? "more than 65536 bytes" : "up to 65536 bytes");
	ctx.nontrivial(d);
}

int main(int argc, char** argv) {
	Suite s;
	s.id = "C06";
	s.rule = "scanners that leave their state on some text (plain), counters that reached 2 (counters), a capture reported (captures), texts of 16 bytes and more (lengths)";
	s.assumptions = {"texts of up to 300 bytes, and some of up to 1.1 million (long), at offsets 0..15 from a 16-byte boundary; memory words which do not overlap the buffer are poisoned, so reading them is a violation"};
	s.laws = {
		{"plain", 900, 90000, plain},
		{"counters", 500, 50000, counters},
		{"captures", 400, 40000, captures},
		{"long", 150, 8000, longs},
		{"lengths", 8 * 70, 8 * 70, lengths, true},
	};
	return run(s, argc, argv);
}
