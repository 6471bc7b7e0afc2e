// C15: captured text is the right fragment of a real match.
#include "captree.h"
using namespace pbt;
using namespace pu;
using namespace cap;
namespace P = Pire;
typedef std::pair<long, long> Span; // {-1, -1}: nothing captured
static std::string show2(Span s) { return s.first < 0 ? "nothing" : str(s.first, "-", s.second); }

struct Pat { Ptr tree; std::string re; int groups = 0, group = 1; bool utf8 = false, ci = false; };
static Pat pattern(Src& s, const Opt& o, bool anchored) {
	Pat p;
	p.tree = alt(s, o, o.depth);
	if (anchored) {
		auto c = mk(N::Cat); c->k.push_back(mk(N::Bol));
		if (p.tree->t == N::Alt) { auto g = mk(N::Grp); g->k.push_back(p.tree); p.tree = g; }
		c->k.push_back(p.tree); p.tree = c;
		if (s.chance(1, 3)) c->k.push_back(mk(N::Eol));
	}
	if (weight(p.tree) > 40) discard();
	p.utf8 = s.chance(1, 5); p.ci = !p.utf8 && s.chance(1, 8);
	text(p.tree, p.re, p.groups, p.utf8);
	if (!p.groups) { auto g = mk(N::Grp); g->k.push_back(p.tree); p.tree = g; p.re.clear(); p.groups = 0; text(p.tree, p.re, p.groups, p.utf8); }
	p.group = 1 + s.below(p.groups);
	return p;
}
static P::Fsm parsePat(const std::string& re, int group, bool utf8, bool ci) {
	P::Lexer lx;
	if (utf8) lx.SetEncoding(P::Encodings::Utf8());
	std::vector<P::wchar32> u; (utf8 ? P::Encodings::Utf8() : P::Encodings::Latin1()).FromLocal(re.data(), re.data() + re.size(), std::back_inserter(u));
	lx.Assign(u.begin(), u.end());
	lx.AddFeature(P::Features::Capture(group));
	if (ci) lx.AddFeature(P::Features::CaseInsensitive());
	return lx.Parse();
}
static Span slow(Src& s, const P::SlowCapturingScanner& sc, const std::string& t) {
	P::SlowCapturingScanner::State st; sc.Initialize(st);
	for (size_t i = 0; i < t.size();) { size_t n = s.chance(1, 2) ? t.size() - i : 1 + s.below(t.size() - i); P::Run(sc, st, t.data() + i, t.data() + i + n); i += n; if (s.chance(1, 8)) { P::SlowCapturingScanner::State c(st); st = c; } }
	P::SlowCapturingScanner::SingleState r;
	if (!sc.GetCapture(st, r)) return {-1, -1};
	if (!r.Captured()) return {-2, -2};
	return {(long)r.Begin(), (long)r.End()};
}
/// positions in the marked word of letters -> offsets in the text
struct Offsets {
	std::vector<long> at;
	Offsets(const std::string& letters, bool utf8) { long x = 0; at.push_back(0); for (char c : letters) { at.push_back(x); x += spell(c, utf8).size(); } at.push_back(x); at.push_back(x); }
	Span operator()(long b, long e) const { return b < 0 || e < 0 ? Span(-1, -1) : Span(at[b], at[e]); }
};
static Span preferred(const Pat& p, const std::string& t, bool surround, bool& matched) {
	M m; m.g = p.group; m.w = ref::marked(t); matched = false;
	for (size_t i = 0; i <= (surround ? m.w.size() : 0) && !matched; ++i) { m.b = m.e = -1; matched = m.m(p.tree, i, [](size_t) { return true; }); }
	return matched ? Offsets(t, p.utf8)(m.b, m.e) : Span(-1, -1);
}
static std::set<Span> possible(const Pat& p, const std::string& t, bool surround) {
	std::set<Span> r; Offsets o(t, p.utf8); Word w = ref::marked(t);
	for (size_t i = 0; i <= (surround ? w.size() : 0); ++i) { M m; m.g = p.group; m.w = w; m.loose = true; m.m(p.tree, i, [&](size_t) { r.insert(o(m.b, m.e)); return false; }); }
	return r;
}
static std::string someText(Src& s, const Pat& p, size_t maxLen = 14) {
	static const std::string pool = "aaabbbcd()";
	std::string t;
	size_t n = s.chance(2, 3) ? 1 + s.below(2) : 0, junk = s.below(n ? 4 : 9);
	for (size_t i = 0; i < n; ++i) { if (s.chance(1, 3)) t += pool[s.below(pool.size())]; t += sample(s, p.tree, "abbc"); }
	for (size_t i = 0; i < junk; ++i) t.insert(s.coin() ? t.size() : s.below(t.size() + 1), 1, pool[s.below(pool.size())]);
	if (t.size() > maxLen) t.resize(maxLen);
	return t;
}
static std::string spelled(Src& s, const Pat& p, const std::string& t) {
	std::string r = spellAll(t, p.utf8);
	if (p.ci) for (char& c : r) if (s.coin()) c = toupper(c);
	return r;
}
// loaded and mapped copies find the same
static void copies(Src& s, const P::SlowCapturingScanner& sc, P::SlowCapturingScanner& out, std::vector<size_t>& memory) {
	switch (s.below(4)) {
	case 0: { std::string im = save(sc); std::istringstream in(im); out.Load(&in); break; }
	case 1: { std::string im = save(sc); memory.assign((im.size() + 7) / 8, 0); memcpy(memory.data(), im.data(), im.size()); out.Mmap(memory.data(), im.size()); break; }
	default: out = sc;
	}
}
static void slowLaw(Src& s, Ctx& ctx, const Opt& o, bool surround, bool exact) {
	Pat p = pattern(s, o, !surround || s.chance(1, 3));
	int asked = s.chance(1, 25) ? p.groups + 1 + s.below(2) : p.group;
	if (asked > p.groups) p.group = -1;
	std::string d = str("group ", asked, " of ", show(p.re), p.utf8 ? " in UTF-8" : "", p.ci ? " ignoring case" : "", surround ? "" : " not surrounded");
	ctx.describe(d);
	P::Fsm f = parsePat(p.re, asked, p.utf8, p.ci);
	if (surround) f.Surround();
	if (f.Size() > 300) discard();
	P::SlowCapturingScanner made = f.Compile<P::SlowCapturingScanner>(), sc; std::vector<size_t> memory;
	copies(s, made, sc, memory);
	for (int i = 0; i < 8; ++i) {
		std::string t = someText(s, p, exact ? 14 : 8), text = spelled(s, p, t);
		ctx.describe(d + " on " + show(text));
		Span got = slow(s, sc, text); bool matched = false;
		try {
			if (exact) {
				Span want = preferred(p, t, surround, matched);
				if (got != want) fail(str(d, " on ", show(text), ": captured ", show2(got), ", the preferred match has ", matched ? show2(want) : "no match"));
				if (matched && want.first >= 0) { ctx.label("captured"); std::set<Span> all = possible(p, t, surround); if (all.size() > 1) { ctx.label("several ways"); ctx.nontrivial(d + text); } }
				else ctx.label(matched ? "group not taken" : "no match");
			} else {
				std::set<Span> all = possible(p, t, surround);
				if (all.empty() ? got.first != -1 : !all.count(got)) fail(str(d, " on ", show(text), ": captured ", show2(got), ", which no match of the expression gives (", all.size(), " possible)"));
				ctx.label(all.empty() ? "no match" : all.size() == 1 ? "one way" : "several ways");
				if (all.size() > 1) ctx.nontrivial(d + text);
			}
		} catch (TooLong&) { ctx.label("too many ways"); continue; }
		ctx.count();
	}
}
static Opt options(Src& s) {
	Opt o; o.depth = s.chance(1, 3) ? 2 : 1; o.empty = s.chance(1, 3); o.counts = s.chance(1, 3); o.lazy = s.chance(2, 3); o.kids = o.depth == 2 ? 2 : 4; o.letters = s.chance(1, 4) ? "ab()" : s.chance(1, 3) ? "abcd" : "ab";
	return o;
}
static void slowPreferred(Src& s, Ctx& ctx) { slowLaw(s, ctx, options(s), true, true); }
static void slowPrefix(Src& s, Ctx& ctx) { slowLaw(s, ctx, options(s), false, true); }
static void slowValid(Src& s, Ctx& ctx) { Opt o = options(s); o.nullableRep = true; o.empty = true; o.counts = false; o.kids = 2; slowLaw(s, ctx, o, s.chance(3, 4), false); }

// ---- the fast one
static Ptr word(Src& s, const std::string& l, size_t n) { auto c = mk(N::Cat); while (n--) { auto p = mk(N::Set); p->set = std::string(1, l[s.below(l.size())]); if (s.chance(1, 4)) p->set += l[s.below(l.size())]; c->k.push_back(p); } return c; }
static Ptr rep(Ptr p, int lo, int hi) { auto r = mk(N::Rep); r->k.push_back(p); r->lo = lo; r->hi = hi; return r; }
static bool starts(const Ptr& z, int c) { // z may begin with c; z does not accept the empty string
	switch (z->t) {
	case N::Set: return c < 256 && z->set.find((char)c) != std::string::npos;
	case N::Cat: for (auto& k : z->k) { if (starts(k, c)) return true; if (!nullable(k)) return false; } return false;
	case N::Alt: for (auto& k : z->k) if (starts(k, c)) return true; return false;
	default: return starts(z->k[0], c); }
}
static void fast(Src& s, Ctx& ctx) {
	// something, a group of other letters, something
	const std::string outside = "xy= "; static const char* any = "abc";
	auto border = [&](bool before) {
		auto p = word(s, "xy=", 1 + s.below(3));
		if (s.coin()) { p->k.push_back(rep(word(s, outside, 1)->k[0], s.below(2), -1)); p->k.push_back(word(s, "xy=", 1)->k[0]); }
		(void)before; return p;
	};
	auto pre = border(true), post = border(false), g = mk(N::Grp), c = mk(N::Cat);
	auto set = [&] { auto w = word(s, any, 1); if (s.coin()) w->k[0]->set = any; return w->k[0]; };
	switch (s.below(6)) {
	case 0: c->k = {rep(set(), 1, -1)}; break;
	case 1: c->k = {set(), rep(set(), 0, -1)}; break;
	case 2: c = word(s, any, 1 + s.below(4)); break;
	case 3: { auto a = mk(N::Alt), gg = mk(N::Grp); a->k = {word(s, any, 1 + s.below(3)), word(s, any, 1 + s.below(3))}; gg->k.push_back(a); c->k = {gg}; break; }
	case 4: c->k = {rep(set(), 1, 3)}; break;
	case 5: c->k = {rep(set(), 1, -1), rep(set(), 1, -1)}; break;
	}
	g->k.push_back(c);
	Pat p; p.tree = mk(N::Cat); p.tree->k = {pre, g, post}; text(p.tree, p.re, p.groups); p.group = g->idx; p.ci = s.chance(1, 5);
	std::string d = str("group ", p.group, " of ", show(p.re), p.ci ? " ignoring case" : "");
	ctx.describe(d);
	P::Fsm f = parsePat(p.re, p.group, false, p.ci); f.Surround(); f.Determine();
	P::CapturingScanner made = f.Compile<P::CapturingScanner>(), sc; std::vector<size_t> memory;
	switch (s.below(4)) {
	case 0: { std::string im = save(made); std::istringstream in(im); sc.Load(&in); break; }
	case 1: { std::string im = save(made); memory.assign((im.size() + 7) / 8, 0); memcpy(memory.data(), im.data(), im.size()); sc.Mmap(memory.data(), im.size()); break; }
	default: sc = made;
	}
	P::Fsm fs = parsePat(p.re, p.group, false, p.ci); fs.Surround();
	P::SlowCapturingScanner ss = fs.Compile<P::SlowCapturingScanner>();
	for (int i = 0; i < 10; ++i) {
		std::string t; size_t n = s.below(3);
		while (n--) { t += sample(s, pre, "x"); if (s.chance(1, 6)) t += sample(s, pre, "x"); t += sample(s, g, "a"); if (!s.chance(1, 6)) t += sample(s, post, "x"); }
		size_t junk = s.below(t.empty() ? 12 : 3); while (junk--) t.insert(s.below(t.size() + 1), 1, "xy= aabbc"[s.below(9)]);
		if (t.size() > 40) t.resize(40);
		std::string text = spelled(s, p, t);
		std::string dd = d + " on " + show(text); ctx.describe(dd);
		P::CapturingScanner::State st; sc.Initialize(st); P::Step(sc, st, P::BeginMark); P::Run(sc, st, text.data(), text.data() + text.size()); P::Step(sc, st, P::EndMark);
		Span got = st.Captured() ? Span((long)st.Begin() - 1, (long)st.End() - 1) : Span(-1, -1);
		Word w = ref::marked(t); size_t L = w.size();
		std::set<size_t> B, E; std::set<std::pair<size_t, size_t>> full;
		for (size_t i0 = 0; i0 < L; ++i0) { M a; a.g = -1; a.w = w; a.m(pre, i0, [&](size_t b) {
			M x; x.w = w; x.g = -1;
			x.m(g, b, [&](size_t e) { if (e >= L) return false; if (starts(post, w[e])) E.insert(e); M y; y.w = w; y.g = -1; y.m(post, e, [&](size_t) { full.insert({b, e}); return true; }); return false; });
			if (b < L && starts(g, w[b])) B.insert(b);
			return false; }); }
		if (sc.Final(st) != !full.empty()) fail(str(dd, ": the text ", full.empty() ? "does not match" : "matches", ", but the scanner is ", sc.Final(st) ? "" : "not ", "final"));
		ctx.count();
		if (E.empty()) { if (st.Captured()) fail(str(dd, ": captured ", show2(got), ", but the group nowhere ends")); ctx.label("no end"); continue; }
		if (full.empty()) { ctx.label("no match"); continue; }
		size_t e0 = *E.begin(), b0 = 0; for (size_t b : B) if (b < e0) b0 = b;
		if (!full.count({b0, e0})) { ctx.label("first place fails later"); continue; }
		Span want(b0 - 1, e0 - 1);
		if (got != want) fail(str(dd, ": captured ", show2(got), ", should be ", show2(want)));
		if (full.size() == 1) {
			Span sl = slow(s, ss, text);
			if (sl != want) fail(str(dd, ": the slow scanner captured ", show2(sl), ", should be ", show2(want)));
			ctx.nontrivial(dd); ctx.label("fast, one way");
		} else ctx.label("fast, several ways");
	}
}
// ---- far from the beginning of the text: among letters which the expression does not know, the answer only moves
static bool closed(const Ptr& n) { if (n->t == N::Dot || n->t == N::Bol || n->t == N::Eol || n->neg) return false; for (auto& k : n->k) if (!closed(k)) return false; return true; }
static void far(Src& s, Ctx& ctx) {
	static const size_t marks[] = {100, 126, 127, 128, 254, 255, 256, 257, 1000, 4095, 4096, 32766, 32767, 32768, 40000, 65534, 65535, 65536, 65537, 70000};
	Opt o = options(s); Pat p = pattern(s, o, false);
	if (!closed(p.tree) || nullable(p.tree)) discard();
	size_t n = marks[s.below(ctx.thorough ? 20 : 17)], m = s.coin() ? 2 + s.below(20) : n;
	std::string d = str("group ", p.group, " of ", show(p.re), p.utf8 ? " in UTF-8" : "", p.ci ? " ignoring case" : "", " behind ", n, " other letters, before ", m);
	ctx.describe(d);
	P::Fsm f = parsePat(p.re, p.group, p.utf8, p.ci); f.Surround();
	if (f.Size() > 150) discard();
	P::SlowCapturingScanner sc = f.Compile<P::SlowCapturingScanner>();
	std::unique_ptr<P::CapturingScanner> quick;
	{ P::Fsm g = parsePat(p.re, p.group, p.utf8, p.ci); g.Surround(); if (g.Determine(1000)) quick.reset(new P::CapturingScanner(g.Compile<P::CapturingScanner>())); }
	auto fastSpan = [&](const std::string& x, bool& fin) {
		P::CapturingScanner::State st; quick->Initialize(st); P::Step(*quick, st, P::BeginMark); P::Run(*quick, st, x.data(), x.data() + x.size()); P::Step(*quick, st, P::EndMark);
		fin = quick->Final(st); return st.Captured() ? Span((long)st.Begin() - 1, (long)st.End() - 1) : Span(-1, -1);
	};
	for (int i = 0; i < 2; ++i) {
		std::string t = someText(s, p), small = spelled(s, p, "zz" + t + "zz"), large = std::string(n - 2, 'z') + small + std::string(m - 2, 'z');
		long shift = (long)n - 2; bool matched = false;
		try {
			Span want = preferred(p, "zz" + t + "zz", true, matched), got = slow(s, sc, large);
			if (got.first >= 0) { got.first -= shift; got.second -= shift; }
			if (got != want) fail(str(d, " around ", show(t), ": captured (counting from two letters before) ", show2(got), ", the preferred match has ", matched ? show2(want) : "no match"));
			ctx.label(matched && want.first >= 0 ? "captured" : "not captured"); if (want.first >= 0) ctx.nontrivial(d + t);
		} catch (TooLong&) { ctx.label("too many ways"); }
		if (quick) {
			bool f1, f2; Span a = fastSpan(small, f1), b = fastSpan(large, f2);
			if (b.first >= 0) { b.first -= shift; b.second -= shift; }
			if (a != b || f1 != f2) fail(str(d, " around ", show(t), ": the fast scanner captured ", show2(a), " in the short text, ", show2(b), " (moved back) in the long one"));
			ctx.label("fast one, too");
		}
		ctx.count(2);
	}
}
// ---- fixed defects and documented examples
static void regressions(Src& s, Ctx& ctx) {
	struct Case { const char* re; int group; const char* text; long b, e; bool surround; };
	static const Case cases[] = {
		{"(a)$", 1, "ab", -1, -1, true}, {"(a($|b))", 1, "ab", 0, 2, true}, {"b|^(a)", 1, "a", 0, 1, true}, {"(^a)", 1, "a", 0, 1, true},
		{"(a$)", 1, "xa", 1, 2, true}, {"a($)", 1, "xa", 2, 2, true}, {"c|(^|b)a", 1, "a", 0, 0, true}, {"(a)(b|$)", 2, "a", 1, 1, true},
		{"b?(a+)c", 1, "aaac", 0, 3, true}, {"b*(a+)c", 1, "aaac", 0, 3, true}, {"^(.b*|(b??))", 2, "aacbb", -1, -1, true}, {"^([a]*?b.*?a)*?", 1, "bbbbaab", -1, -1, true},
		{"(a)??", 1, "a", -1, -1, true}, {"(a*)", 1, "baa", 0, 0, true}, {"(a+?)", 1, "aa", 0, 1, true}, {"x(a+?)y", 1, "xaay", 1, 3, true},
		{"^(.|.b+.)", 1, "bbc", 0, 1, false}, {"^b(a??)(a*)", 1, "baa", 1, 1, false}, {".*?(p.*s)", 1, "p a p c s d", 0, 9, true}, {".*(p.*s)", 1, "p a p c s d", 4, 9, true},
		{"(A)|A", 1, "A", 0, 1, true}, {"A|(A)", 1, "A", -1, -1, true}, {"\\((a)\\)", 1, "(a)", 1, 2, true}, {"[(](a)", 1, "(a)", 1, 2, true},
	};
	const Case& k = cases[ctx.index];
	std::string d = str("group ", k.group, " of ", show(k.re), " on ", show(k.text)); ctx.describe(d);
	P::Fsm f = parsePat(k.re, k.group, false, false); if (k.surround) f.Surround();
	Span got = slow(s, f.Compile<P::SlowCapturingScanner>(), k.text);
	if (got != Span(k.b, k.e)) fail(str(d, ": captured ", show2(got), ", should be ", show2({k.b, k.e})));
	ctx.nontrivial(d); ctx.count();
}
int main(int argc, char** argv) {
	Suite s;
	s.id = "C15";
	s.rule = "the text matches, the group takes part, and other matches of the expression would give it another extent (slow), or exactly one extent is possible (fast)";
	s.assumptions = {"repeated parts accepting the empty string: only that the capture belongs to some match is checked, not which one",
		"of a repeated group the first repetition is what is reported",
		"the slow scanner is run over the text without marks (it adds them itself); the fast one with marks, positions counting from the begin mark, as in tests/capture_ut.cpp",
		"the fast scanner: a group between two non-empty parts made of other letters; if the first place that looks like the group turns out not to match further on, its answer is not specified (its documentation leaves the conditions open)"};
	s.laws = {
		{"regressions", 24, 24, regressions, true},
		{"slow, preferred", 2500, 150000, slowPreferred},
		{"slow, not surrounded", 1500, 80000, slowPrefix},
		{"slow, any match", 1500, 60000, slowValid},
		{"fast", 1500, 60000, fast},
		{"far", 800, 30000, far},
	};
	return run(s, argc, argv);
}
