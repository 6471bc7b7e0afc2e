// C16: half-final scanners accept like ordinary ones and count occurrences as specified.
#include "pireutil.h"
#include "pattern.h"
#include "observe.h"
#include "genfsm.h"
using namespace pbt;
using namespace pu;
namespace P = Pire;
typedef std::vector<std::vector<char>> Table;
static Table table(const Lang& l, const Word& w) {
	size_t n = w.size();
	Table m(n + 1, std::vector<char>(n + 1, 0));
	for (size_t i = 0; i <= n; ++i) { int s = 0; m[i][i] = l.fin[0]; for (size_t j = i; j < n; ++j) { s = l.next(s, w[j]); m[i][j + 1] = l.fin[s]; } }
	return m;
}
enum Mode { GreedySimple, Greedy, EndsSimple, Ends, Disjoint, Modes }; // in the order of the tests' table
static const char* modeName[] = {"greedy, simplified", "greedy", "overlapping, simplified", "overlapping", "non-overlapping"};
static size_t usualDepth = P::HalfFinalFsm::MaxCountDepth;
struct Depth { Depth(size_t n) { P::HalfFinalFsm::MaxCountDepth = n; } ~Depth() { P::HalfFinalFsm::MaxCountDepth = usualDepth; } };

/// number of positions where a match ends
static size_t ends(const Table& t, size_t n) { size_t r = 0; for (size_t e = 0; e <= n; ++e) { bool x = false; for (size_t b = 0; b <= e; ++b) x = x || t[b][e]; r += x; } return r; }
/// number of different places where the first match beginning not before some position ends
static size_t firstEnds(const Table& t, size_t n) {
	std::set<size_t> r;
	for (size_t s = 0; s <= n; ++s) { bool found = false; for (size_t e = s; e <= n && !found; ++e) for (size_t b = s; b <= e && !found; ++b) if (t[b][e]) { r.insert(e); found = true; } }
	return r.size();
}
/// matches taken one after another, each the first to end
static size_t disjoint(const Table& t, size_t n) {
	size_t r = 0, s = 0;
	for (size_t e = 0; e <= n; ++e) { bool x = false; for (size_t b = s; b <= e; ++b) x = x || t[b][e]; if (x) { ++r; s = e; } }
	return r;
}
/// leftmost longest matches; `plain` if no unfinished match ever reaches into another one
static size_t tokens(const Lang& l, const Table& t, const Word& w, bool& plain) {
	size_t n = w.size();
	std::vector<std::pair<size_t, size_t>> tok;
	for (size_t i = 0; i < n;) { size_t e = 0; for (size_t k = n; k > i && !e; --k) if (t[i][k]) e = k; if (e) { tok.push_back({i, e}); i = e; } else ++i; }
	plain = true;
	std::vector<char> alive = l.alive();
	for (size_t i = 0; i < n && plain; ++i) {
		int q = 0; size_t x = i;
		while (x < n && alive[q = l.next(q, w[x])]) ++x;
		if (x == i) continue;
		bool in = false, apart = true;
		for (auto& k : tok) { if (k.first <= i && x <= k.second) in = true; if (x > k.first && i < k.second) apart = false; }
		if (!in && !apart) plain = false;
	}
	for (auto& k : tok) {
		size_t mine = n + 1, other = n + 1;
		for (size_t i = k.first; i < k.second; ++i) for (size_t m = i + 1; m <= k.second; ++m) if (t[i][m]) { size_t& z = i == k.first ? mine : other; z = std::min(z, m); }
		if (other < mine) plain = false;
	}
	return tok.size();
}
static P::HalfFinalFsm counter(const P::Fsm& f, int mode) {
	P::HalfFinalFsm h(f);
	switch (mode) {
	case Greedy: h.MakeGreedyCounter(false); break;
	case GreedySimple: h.MakeGreedyCounter(true); break;
	case Ends: h.MakeNonGreedyCounter(true, false); break;
	case EndsSimple: h.MakeNonGreedyCounter(true, true); break;
	case Disjoint: h.MakeNonGreedyCounter(false); break;
	}
	return h;
}
/// the text between the marks, in pieces; what is listed must be what was counted
template<class Sc> std::vector<size_t> run(Src& s, const Sc& sc, const std::string& t) {
	typename Sc::State st; sc.Initialize(st);
	P::Step(sc, st, P::BeginMark);
	Text x(t, s.below(9));
	for (const char* p = x.begin(); p != x.end();) { size_t n = s.coin() ? x.end() - p : 1 + s.below(x.end() - p); if (s.chance(1, 8)) { typename Sc::State u(st); P::Run(sc, u, p, p + n); st = u; } else P::Run(sc, st, p, p + n); p += n; }
	P::Step(sc, st, P::EndMark);
	std::vector<size_t> r;
	auto a = sc.AcceptedRegexps(st); auto i = a.first;
	for (size_t k = 0; k < sc.RegexpsCount(); ++k) {
		r.push_back(st.Result(k));
		bool listed = i != a.second && *i == k; if (listed) ++i;
		if (listed != (r[k] != 0)) fail(str("expression ", k, " is ", listed ? "" : "not ", "listed, its count is ", r[k]));
	}
	if (i != a.second) fail(str("the list of matched expressions is out of order or too long"));
	return r;
}
struct Sub { P::Fsm f; Lang l; std::string d; };
static Sub subject(Src& s, size_t maxStates = 40) {
	Sub r; pat::Options o; o.depth = 2; o.maxTerms = 5; o.letters = "abc"; o.maxCount = 3; o.marks = s.chance(1, 6);
	try {
		if (s.chance(1, 6)) { Lang dummy; r.f = gen::any(s, dummy, r.d, 5); }
		else { std::string t = pat::generate(s, o).text; r.f = parse(t); r.d = show(t); }
		if (r.f.Size() > maxStates) discard();
		r.l = langOf(r.f);
	} catch (ref::TooBig&) { discard(); } catch (P::Error&) { discard(); }
	return r;
}
static std::string someText(Src& s, const Lang& l, size_t maxLen = 24) {
	std::string t; size_t parts = 1 + s.below(6);
	while (parts-- && t.size() < maxLen) switch (s.weighted({5, 2, 1})) { case 0: t += ref::toBytes(ref::randomWord(s, l, 6, true)).substr(0, 10); break; case 1: { size_t n = s.below(4); while (n--) t += "abcx"[s.below(4)]; break; } case 2: t += std::string(s.below(20), "abc"[s.below(3)]); }
	if (t.size() > maxLen) t.resize(maxLen);
	return t;
}
static void judge(Ctx& ctx, const std::string& d, int mode, const Lang& l, const std::string& t, size_t got, size_t depth) {
	Word w = ref::marked(t); size_t n = w.size(); Table tb = table(l, w);
	bool nullable = l.fin[0], exact = true;
	size_t want = 0;
	switch (mode) {
	case Ends: want = ends(tb, n); break;
	case EndsSimple: want = firstEnds(tb, n); break;
	case Disjoint: want = disjoint(tb, n); break;
	default: {
		if (nullable) return;
		bool plain; want = tokens(l, tb, w, plain);
		exact = plain || (mode == Greedy && want <= depth);
	}
	}
	ctx.count();
	if (exact && got != want) fail(str(d, ", ", modeName[mode], ", on ", show(t), ": counted ", got, ", should be ", want));
	if ((got == 0) != (want == 0)) fail(str(d, ", ", modeName[mode], ", on ", show(t), ": counted ", got, ", there are ", want));
	if (!exact && got > disjoint(tb, n)) fail(str(d, ", ", modeName[mode], ", on ", show(t), ": counted ", got, ", there are not so many disjoint matches"));
	if (want > 1) { ctx.nontrivial(str(mode, d, t)); ctx.label(str(modeName[mode], exact ? "" : ", bound")); }
}
template<class F> void anyKind(Src& s, F f) {
	switch (s.below(4)) {
	case 0: f((P::HalfFinalScanner*)nullptr); break;
	case 1: f((P::HalfFinalScannerNoMask*)nullptr); break;
	case 2: f((P::NonrelocHalfFinalScanner*)nullptr); break;
	case 3: f((P::NonrelocHalfFinalScannerNoMask*)nullptr); break;
	}
}
template<class Sc> Sc make(Src& s, const P::Fsm& f, int mode) {
	P::HalfFinalFsm h = counter(f, mode);
	return s.coin() ? Sc(h) : h.Compile<Sc>();
}
template<int Mode> void counts(Src& s, Ctx& ctx) {
	Sub x = subject(s);
	size_t depth = Mode == Greedy && s.coin() ? 1 + s.below(14) : usualDepth; Depth dd(depth);
	ctx.describe(str(x.d, ", depth ", depth));
	anyKind(s, [&](auto* k) {
		typedef typename std::remove_pointer<decltype(k)>::type Sc;
		Sc sc = make<Sc>(s, x.f, Mode);
		for (int i = 0; i < 10; ++i) {
			std::string t = someText(s, x.l, s.chance(1, 5) ? 60 : 24);
			ctx.describe(str(x.d, ", ", modeName[Mode], ", depth ", depth, ", on ", show(t)));
			judge(ctx, x.d, Mode, x.l, t, run(s, sc, t)[0], depth);
		}
	});
}
/// the verdict of a scanner made straight from any automaton
static void straight(Src& s, Ctx& ctx) {
	P::Fsm f; std::string d; Lang l, dummy; pat::Options o; o.depth = 2; o.maxTerms = 6; o.marks = true; if (s.coin()) o.letters = "ab";
	try {
		if (s.coin()) f = gen::any(s, dummy, d, 7); else { std::string t = pat::generate(s, o).text; f = parse(t); d = show(t); }
		switch (s.below(5)) { case 0: f.Surround(); d += ".Surround()"; break; case 1: f.PrependAnything(); d += ".PrependAnything()"; break; case 2: f.AppendAnything(); d += ".AppendAnything()"; break; case 3: f.Canonize(); d += ".Canonize()"; break; case 4: break; }
		l = langOf(f);
	} catch (ref::TooBig&) { discard(); } catch (P::Error&) { discard(); }
	ctx.describe(d);
	anyKind(s, [&](auto* k) {
		typedef typename std::remove_pointer<decltype(k)>::type Sc;
		P::HalfFinalFsm h(f); h.MakeScanner();
		expectHalfFinal(f.Compile<Sc>(), l, d + ", HalfFinalScanner(fsm)", &ctx);
		expectHalfFinal(h.Compile<Sc>(), l, d + ", MakeScanner()", &ctx);
	});
	if (l.size() > 2) ctx.nontrivial(d);
}
template<class Sc> struct CanLoad { static const bool value = true; };
template<class S> struct CanLoad<P::Impl::HalfFinalScanner<P::Impl::Nonrelocatable, S>> { static const bool value = false; };
template<class Sc> void stored(Src& s, const Sc& sc, const std::string& t, const std::vector<size_t>& want, const std::string& d, std::true_type) {
	std::string image = save(sc);
	std::istringstream in(image); Sc l; l.Load(&in);
	if (run(s, l, t) != want) fail(d + ": counts differ after Save and Load");
	std::vector<size_t> mem((image.size() + sizeof(size_t) - 1) / sizeof(size_t));
	memcpy(mem.data(), image.data(), image.size());
	Sc m; const void* e = m.Mmap(mem.data(), image.size());
	if (e != (const char*)mem.data() + image.size()) fail(d + ": Mmap did not consume the image");
	if (run(s, m, t) != want) fail(d + ": counts differ after Mmap");
}
template<class Sc> void stored(Src&, const Sc&, const std::string&, const std::vector<size_t>&, const std::string&, std::false_type) {}
/// glued together in any order, each expression keeps its count
static void glue(Src& s, Ctx& ctx) {
	size_t n = 2 + s.below(4);
	std::vector<Sub> subs; std::vector<int> modes; std::string d;
	for (size_t i = 0; i < n; ++i) { subs.push_back(subject(s, 25)); modes.push_back(s.below(Modes + 1)); d += str(i ? " + " : "", subs[i].d, modes[i] == Modes ? " (straight)" : str(" (", modeName[modes[i]], ")")); }
	ctx.describe(d);
	anyKind(s, [&](auto* k) {
		typedef typename std::remove_pointer<decltype(k)>::type Sc;
		Depth dd(3);
		std::vector<Sc> alone, parts;
		std::vector<std::vector<size_t>> order;
		for (size_t i = 0; i < n; ++i) { alone.push_back(modes[i] == Modes ? subs[i].f.Compile<Sc>() : make<Sc>(s, subs[i].f, modes[i])); if (alone.back().Size() > 150) { ctx.label("glue: large"); discard(); } }
		parts = alone;
		while (parts.size() > 1) {
			size_t i = s.below(parts.size() - 1);
			Sc g = Sc::Glue(parts[i], parts[i + 1], 30000);
			if (g.Empty()) { ctx.label("glue: refused"); discard(); }
			parts[i] = g; parts.erase(parts.begin() + i + 1);
		}
		if (parts[0].RegexpsCount() != n) fail(str(d, ": the glued scanner tells of ", parts[0].RegexpsCount(), " expressions"));
		for (int j = 0; j < 8; ++j) {
			std::string t = someText(s, subs[s.below(n)].l);
			ctx.describe(d + " on " + show(t));
			std::vector<size_t> got = run(s, parts[0], t);
			size_t busy = 0;
			for (size_t i = 0; i < n; ++i) {
				size_t want = run(s, alone[i], t)[0];
				if (got[i] != want) fail(str(d, " on ", show(t), ": glued, expression ", i, " counts ", got[i], ", alone ", want));
				if (modes[i] != Modes) judge(ctx, subs[i].d, modes[i], subs[i].l, t, want, 3);
				busy += want > 1;
			}
			if (busy > 1) ctx.nontrivial(d + t);
			if (j == 0) stored(s, parts[0], t, got, d, std::integral_constant<bool, CanLoad<Sc>::value>());
		}
	});
}
/// more matches than fit a byte or a word of 16 bits
static void longs(Src& s, Ctx& ctx) {
	size_t n = s.oneOf<size_t>({200, 300, 3000, 70000}) + s.below(10);
	std::string word = s.oneOf<std::string>({"ab", "a", "abc", "abab"}), gap = s.oneOf<std::string>({"", "-", "b"});
	std::string t; for (size_t i = 0; i < n; ++i) t += word + gap;
	if (word == "abab" && gap == "") gap = "-", t = std::string(), [&] { for (size_t i = 0; i < n; ++i) t += word + gap; }();
	ctx.describe(str(show(word + gap), " ", n, " times"));
	P::Fsm f = parse(word);
	anyKind(s, [&](auto* k) {
		typedef typename std::remove_pointer<decltype(k)>::type Sc;
		for (int m = 0; m < Modes; ++m) {
			size_t got = run(s, make<Sc>(s, f, m), t)[0];
			if (got != n) fail(str(show(word), ", ", modeName[m], ", on ", show(word + gap), " ", n, " times: counted ", got));
		}
	});
	ctx.nontrivial(word + gap + std::to_string(n)); ctx.count(5);
}
// the table of the tests, and fixed defects
static void regressions(Src& s, Ctx& ctx) {
	struct Case { const char *re, *text; int want[5]; }; // -1: not defined
	static const Case cases[] = {
		{"ab+", "abbabbbabbbbbb", {3, 3, 3, 11, 3}}, {"(ab)+", "ababbababbab", {3, 3, 5, 5, 5}}, {"(abab)+", "ababababab", {1, 1, 4, 4, 2}},
		{"ab+c|b", "abbbbbbbbbb", {1, 10, 10, 10, 10}}, {"ab+c|b", "abbbbbbbbbbc", {1, 1, 10, 11, 10}}, {"ab+c|b", "abbbbbbbbbbbc", {-1, 1, 11, 12, 11}},
		{"a\\w+c|b", "abbbdbbbdbbc", {-1, 1, 8, 9, 8}}, {"a[a-z]+c|b", "abeeeebeeeeeeeeeceeaeebeeeaeecceebeeaeebeeb", {2, 4, 7, 9, 7}},
		{"(\\w\\w)+", "ab abbb ababa a", {3, 3, 8, 8, 5}},
		{"a*$", "aaa", {1, 1, 1, 1, 1}}, {"a$", "aa", {1, 1, 1, 1, 1}}, {"^a|b$", "ab", {2, 2, 2, 2, 2}},
		{".(aa)?", "aaa", {1, 1, 3, 3, 3}}, {"a?", "aa", {-1, -1, 5, 5, 5}}, {"a?", "", {-1, -1, 3, 3, 3}},
		{"[ae]*a|(ba)*d", "baababa", {-1, 3, -1, -1, -1}},
		{"x[ab]*y|(ax[ab]*)+z|a", "axa", {-1, 2, -1, -1, -1}},
	};
	const Case& k = cases[ctx.index];
	std::string d = str(show(k.re), " on ", show(k.text));
	ctx.describe(d);
	P::Fsm f = parse(k.re); Lang l = langOf(f);
	for (int kind = 0; kind < 4; ++kind) for (int m = 0; m < Modes; ++m) {
		size_t got = 0;
		auto one = [&](auto* p) { typedef typename std::remove_pointer<decltype(p)>::type Sc; got = run(s, make<Sc>(s, f, m), k.text)[0]; };
		switch (kind) { case 0: one((P::HalfFinalScanner*)nullptr); break; case 1: one((P::HalfFinalScannerNoMask*)nullptr); break; case 2: one((P::NonrelocHalfFinalScanner*)nullptr); break; case 3: one((P::NonrelocHalfFinalScannerNoMask*)nullptr); break; }
		if (k.want[m] >= 0 && got != (size_t)k.want[m]) fail(str(d, ", ", modeName[m], ": counted ", got, ", should be ", k.want[m]));
		judge(ctx, d, m, l, k.text, got, usualDepth);
	}
	ctx.nontrivial(d);
}
// the lost counts: an unfinished earlier match meets the place where the search begins anew
static void handmade(Src& s, Ctx& ctx) {
	P::Fsm f; f.Resize(4); f.SetIsDetermined(false); f.SetInitial(0); f.ClearFinal(); f.SetFinal(1, true);
	for (int c = 0; c < 256; ++c) { if (c <= 58) f.Connect(3, 2, c); if (c >= 56 && c <= 97) f.Connect(2, 2, c); if (c >= 98 && c <= 100) f.Connect(0, 3, c); f.Connect(2, 0, c); }
	f.Connect(1, 0, 'a'); f.Connect(0, 0, 'e'); f.Connect(0, 0, 'a'); f.Connect(0, 1, 'a');
	Lang l = langOf(f);
	for (const char* t : {"b00b0a0b0a", "aa0a", "b0a", "b0a0a", "ab0a0b0a", "b0b0a0a"}) for (int m = 0; m < Modes; ++m) {
		ctx.describe(str("handmade, ", modeName[m], ", on ", t));
		judge(ctx, "handmade", m, l, t, run(s, make<P::HalfFinalScanner>(s, f, m), t)[0], usualDepth);
	}
	ctx.nontrivial("handmade");
}
int main(int argc, char** argv) {
	Suite s;
	s.id = "C16";
	s.rule = "counts of two and more (at least two expressions with such counts in glued scanners); automata with more than two states for the verdict";
	s.assumptions = {"the simplified greedy counter and, beyond HalfFinalFsm::MaxCountDepth pending matches, the greedy counter are documented as approximate: where an unfinished match reaches into another one they are only checked against bounds",
		"greedy counters of expressions matching the empty string are not defined and not checked",
		"texts are closed by the end mark, as the documentation demands"};
	s.laws = {
		{"regressions", 17, 17, regressions, true},
		{"handmade", 1, 1, handmade, true},
		{"straight", 600, 40000, straight},
		{"greedy", 2000, 100000, counts<Greedy>},
		{"greedy, simplified", 1000, 50000, counts<GreedySimple>},
		{"overlapping", 1000, 50000, counts<Ends>},
		{"overlapping, simplified", 1000, 50000, counts<EndsSimple>},
		{"non-overlapping", 1000, 50000, counts<Disjoint>},
		{"glue", 600, 30000, glue},
		{"long", 30, 300, longs},
	};
	return run(s, argc, argv);
}
