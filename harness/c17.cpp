// C17: approximate matching accepts exactly the texts within the distance of a word of the original.
#include "genfsm.h"
#include <pire/extra.h>
#include <pire/approx_matching.h>
using namespace pbt;
using namespace pu;
namespace P = Pire;

// texts which at most k edits of separate places turn into a word of l
static ref::Lang within(const ref::Lang& l, size_t k, size_t limit = 2500) {
	ref::Nfa b = l.nfa(), n;
	size_t sz = b.st.size();
	for (size_t j = 0; j <= k; ++j) for (size_t s = 0; s < sz; ++s) { int x = n.add(); n.fin[x] = b.fin[s]; }
	auto at = [&](size_t s, size_t j) { return (int)(j * sz + s); };
	n.starts.push_back(at(b.starts[0], 0));
	for (size_t j = 0; j <= k; ++j) for (size_t s = 0; s < sz; ++s) {
		for (auto& e : b.st[s].edges) n.edge(at(s, j), e.first, at(e.second, j));
		if (j == k) continue;
		n.edge(at(s, j), ref::bytes(), at(s, j + 1));                     // a character too many
		for (auto& e : b.st[s].edges) {
			ref::CharSet first = e.first & ref::bytes();
			if (first.none()) continue;
			n.edge(at(s, j), ref::bytes(), at(e.second, j + 1));          // another character
			n.eps(at(s, j), at(e.second, j + 1));                         // a character is missing
			for (auto& g : b.st[e.second].edges) {                        // two neighbours swapped
				ref::CharSet second = g.first & ref::bytes();
				if (second.none()) continue;
				int mid = n.add(); n.edge(at(s, j), second, mid); n.edge(mid, first, at(g.second, j + 1));
			}
		}
	}
	return ref::determinize(n, limit);
}
// the distance itself, by the textbook recurrence; marks match themselves only
static size_t distance(const Word& a, const Word& b) {
	const size_t inf = 1000000;
	std::vector<std::vector<size_t>> d(a.size() + 1, std::vector<size_t>(b.size() + 1, inf));
	auto byte = [](int c) { return c < 256; };
	d[0][0] = 0;
	for (size_t i = 0; i <= a.size(); ++i) for (size_t j = 0; j <= b.size(); ++j) {
		size_t& x = d[i][j];
		if (i && byte(a[i - 1])) x = std::min(x, d[i - 1][j] + 1);
		if (j && byte(b[j - 1])) x = std::min(x, d[i][j - 1] + 1);
		if (i && j && (a[i - 1] == b[j - 1] || (byte(a[i - 1]) && byte(b[j - 1])))) x = std::min(x, d[i - 1][j - 1] + (a[i - 1] != b[j - 1]));
		if (i > 1 && j > 1 && a[i - 1] == b[j - 2] && a[i - 2] == b[j - 1] && byte(a[i - 1]) && byte(a[i - 2])) x = std::min(x, d[i - 2][j - 2] + 1);
	}
	return d[a.size()][b.size()];
}

static P::Fsm pick(Src& s, ref::Lang& l, std::string& d, size_t states) {
	P::Fsm f;
	try {
		switch (s.weighted({4, 3, 2})) {
		case 0: f = gen::any(s, l, d, 6); break;
		case 1: { pat::Options o; o.marks = false; o.depth = 2; o.maxTerms = 5; if (s.coin()) o.letters = "abc"; std::string t; f = gen::parsed(s, l, t, o);
			bool b = s.coin(), e = s.coin();
			if (b) { P::Fsm x; x.AppendSpecial(P::BeginMark); x += f; f = x; l = ref::cat(ref::sym(ref::BM), l); t = "^" + t; }
			if (e) { f.AppendSpecial(P::EndMark); l = ref::cat(l, ref::sym(ref::EM)); t += "$"; }
			if (s.coin()) { f.Surround(); l = ref::surrounded(l); t += " surrounded"; }
			d = t; break; }
		default: { // a plain word
			Word w; bool b = s.coin(), e = s.coin(); size_t n = s.below(6); f = P::Fsm(); if (b) { f.AppendSpecial(P::BeginMark); w.push_back(ref::BM); }
			for (size_t i = 0; i < n; ++i) { int c = s.oneOf({(int)'a', (int)'b', (int)'c', 0, 255, 128}); f.Append((char)c); w.push_back(c); }
			if (e) { f.AppendSpecial(P::EndMark); w.push_back(ref::EM); }
			l = ref::word(w); d = showWord(w); }
		}
	} catch (ref::TooBig&) { discard(); }
	if (f.Size() > 40 || l.size() > states) discard();
	if (s.chance(1, 4)) { if (!f.Determine(200)) discard(); d += " determined"; if (s.coin()) { f.Minimize(); d += " minimized"; } }
	return f;
}
static void check(const P::Fsm& f, const ref::Lang& l, size_t k, Src& src, const std::string& d, Ctx& ctx, ref::Lang& w) {
	try { w = within(l, k); } catch (ref::TooBig&) { discard(); }
	if (w.size() > 300) discard();
	P::Fsm a = P::CreateApproxFsm(f, k);
	try { expectFsm(a, w, d + ": approximate automaton", &ctx); } catch (ref::TooBig&) { discard(); }
	if (!k && !(a.Size() == f.Size())) fail(d + ": distance 0 changes the automaton");
	P::Fsm c(f);
	P::Fsm t(a); if (!t.Determine(1500)) return;
	switch (src.below(9)) {
	case 0: expectScanner(P::Scanner(c, k), w, d + ": Scanner", &ctx, true); break;
	case 1: expectScanner(c.Compile<P::NonrelocScanner>(k), w, d + ": NonrelocScanner", &ctx, true); break;
	case 2: expectScanner(c.Compile<P::ScannerNoMask>(k), w, d + ": ScannerNoMask", &ctx, true); break;
	case 3: expectScanner(P::NonrelocScannerNoMask(c, k), w, d + ": NonrelocScannerNoMask", &ctx, true); break;
	case 4: expectScanner(c.Compile<P::SimpleScanner>(k), w, d + ": SimpleScanner", &ctx); break;
	case 5: expectScanner(c.Compile<P::SlowScanner>(k), w, d + ": SlowScanner", &ctx); break;
	case 6: expectScanner(P::SlowScanner(c, false, true, k), w, d + ": SlowScanner (constructed)", &ctx); break;
	case 7: { P::HalfFinalScanner sc(c, k); // matches are looked for within texts: compare with the exact half-final scanner of the approximate automaton
		P::HalfFinalScanner ex(a); std::vector<Word> ps; for (int i = 0; i < 6; ++i) { Word x; x.push_back(ref::BM); Word r = ref::randomWord(src, w, 8, true); x.insert(x.end(), r.begin(), r.end()); x.push_back(ref::EM); ps.push_back(x); }
		for (auto& x : ps) { P::HalfFinalScanner::State p, q; sc.Initialize(p); ex.Initialize(q); for (int ch : x) { P::Step(sc, p, (P::Char)ch); P::Step(ex, q, (P::Char)ch); } if (halfVerdict(sc, p) != halfVerdict(ex, q)) fail(str(d, ": half-final scanners with a distance and of the approximate automaton differ on ", showWord(x))); }
		break; }
	default: { P::CapturingScanner sc(c, k); std::vector<Word> ps; for (int i = 0; i < 30; ++i) { Word x = ref::randomWord(src, w, 8); P::CapturingScanner::State st; sc.Initialize(st); for (int ch : x) P::Step(sc, st, (P::Char)ch); if (sc.Final(st) != w.accepts(x)) fail(str(d, ": CapturingScanner ", sc.Final(st) ? "accepts " : "does not accept ", showWord(x))); } }
	}
}
static void exact(Src& src, Ctx& ctx) {
	ref::Lang l, w; std::string d;
	size_t k = src.weighted({1, 6, 4, 2});
	P::Fsm f = pick(src, l, d, k > 1 ? 12 : 25);
	d = str("distance ", k, " from ", d);
	ctx.describe(d);
	check(f, l, k, src, d, ctx, w);
	ctx.label(str("distance ", k));
	if (k && !l.empty()) ctx.nontrivial(d);
}
// edits made one by one to a word of the language; also guards the construction above
static void edited(Src& src, Ctx& ctx) {
	ref::Lang l, w; std::string d;
	size_t k = 1 + src.below(3);
	P::Fsm f = pick(src, l, d, k > 2 ? 10 : 20);
	if (l.empty()) discard();
	d = str("distance ", k, " from ", d);
	ctx.describe(d);
	try { w = within(l, k); } catch (ref::TooBig&) { discard(); }
	P::Fsm c(f); P::Fsm a = P::CreateApproxFsm(f, k); if (!a.Determine(1500)) discard();
	P::Scanner sc(c, k);
	P::Fsm c1(f); P::Scanner more(c1, k + 1 > 3 ? k : k + 1);
	for (int i = 0; i < 12; ++i) {
		Word t = ref::randomWord(src, l, 8), out; if (!l.accepts(t)) continue;
		size_t left = src.below(k + 1), pos = 0, used = 0;
		while (pos <= t.size()) {
			bool here = pos < t.size(), byte = here && t[pos] < 256;
			if (left && src.chance(1, 2)) {
				size_t e = src.below(4);
				int x = src.oneOf({(int)'x', (int)'a', (int)'b', 0, 255});
				if (e == 0) { out.push_back(x); --left; ++used; if (!here) break; continue; }
				if (e == 1 && byte) { out.push_back(x); ++pos; --left; ++used; continue; }
				if (e == 2 && byte) { ++pos; --left; ++used; continue; }
				if (e == 3 && byte && pos + 1 < t.size() && t[pos + 1] < 256) { out.push_back(t[pos + 1]); out.push_back(t[pos]); pos += 2; --left; ++used; continue; }
			}
			if (here) out.push_back(t[pos]);
			++pos;
		}
		if (distance(out, t) > used || !w.accepts(out)) { fprintf(stderr, "oracles disagree: %s %s %s\n", d.c_str(), showWord(t).c_str(), showWord(out).c_str()); abort(); }
		if (!acceptsWord(sc, out)) fail(str(d, ": ", showWord(out), ", ", used, " edits away from ", showWord(t), ", is not accepted"));
		if (!acceptsWord(more, out)) fail(str(d, ": a greater distance loses ", showWord(out)));
		ctx.count(2);
	}
	ctx.nontrivial(d);
}
// a few words, every short text
static void brute(Src& src, Ctx& ctx) {
	std::vector<Word> ws; std::string d; size_t n = 1 + src.below(3), k = src.below(4); bool b = src.coin(), e = src.coin();
	P::Fsm f; bool first = true;
	for (size_t i = 0; i < n; ++i) { Word w; P::Fsm x; if (b) { w.push_back(ref::BM); x.AppendSpecial(P::BeginMark); } size_t m = src.below(5); for (size_t j = 0; j < m; ++j) { int c = "abc"[src.below(3)]; w.push_back(c); x.Append((char)c); } if (e) { w.push_back(ref::EM); x.AppendSpecial(P::EndMark); } ws.push_back(w); d += showWord(w) + " "; if (first) f = x; else f |= x; first = false; }
	d = str("distance ", k, " from ", d); ctx.describe(d);
	P::SimpleScanner sc(f, k);
	static const char al[] = "abcx"; std::vector<std::string> q{""};
	for (size_t i = 0; i < q.size(); ++i) {
		if (q[i].size() < (k > 2 ? 4 : 5)) for (char c : std::string("abcx")) q.push_back(q[i] + c);
		Word t; if (b) t.push_back(ref::BM); for (char c : q[i]) t.push_back(c); if (e) t.push_back(ref::EM);
		size_t best = 1000; for (auto& w : ws) best = std::min(best, distance(t, w));
		if (acceptsWord(sc, t) != (best <= k)) fail(str(d, ": ", showWord(t), " at distance ", best, acceptsWord(sc, t) ? " is accepted" : " is not accepted"));
		ctx.count();
	}
	(void)al;
	ctx.nontrivial(d);
}
// greater distances and longer words: the slow scanner needs no determination
static void afar(Src& src, Ctx& ctx) {
	std::vector<Word> ws; std::string d; size_t n = 1 + src.below(2), k = src.chance(1, 4) ? src.below(3) : 3 + src.below(8); bool b = src.coin(), e = src.coin();
	size_t len = src.chance(1, 3) ? 20 + src.below(60) : src.below(20); std::string pool = src.coin() ? "ab" : "abcdefgh";
	P::Fsm f; bool first = true;
	for (size_t i = 0; i < n; ++i) {
		Word w; P::Fsm x; if (b) { w.push_back(ref::BM); x.AppendSpecial(P::BeginMark); }
		for (size_t j = 0; j < len; ++j) { int c = pool[src.below(pool.size())]; w.push_back(c); x.Append((char)c); }
		if (e) { w.push_back(ref::EM); x.AppendSpecial(P::EndMark); }
		ws.push_back(w); d += showWord(w) + " "; if (first) f = x; else f |= x; first = false;
	}
	if (k > 6 && len > 30) k = 6;
	d = str("distance ", k, " from ", d); ctx.describe(d);
	P::Fsm c(f); P::SlowScanner sc(c, false, true, k);
	std::unique_ptr<P::Scanner> fast; if (k * len < 25) { P::Fsm a = P::CreateApproxFsm(f, k); if (a.Determine(1000)) { fast.reset(new P::Scanner(f, k)); ctx.label("fast one, too"); } }
	for (int i = 0; i < 8; ++i) {
		Word t = ws[src.below(n)]; size_t edits = src.coin() ? k + src.below(2) : src.below(k + 3);
		while (edits--) {
			size_t lo = b, hi = t.size() - e; if (hi < lo) break;
			size_t at = lo + src.below(hi - lo + 1); int x = pool[src.below(pool.size())]; if (src.chance(1, 4)) x = 'x';
			switch (src.below(4)) { case 0: t.insert(t.begin() + at, x); break; case 1: if (at < hi) t[at] = x; break; case 2: if (at < hi) t.erase(t.begin() + at); break; default: if (at + 1 < hi) std::swap(t[at], t[at + 1]); }
		}
		size_t best = 1000000; for (auto& w : ws) best = std::min(best, distance(t, w));
		if (acceptsWord(sc, t) != (best <= k)) fail(str(d, ": ", showWord(t), " at distance ", best, best <= k ? " is not accepted" : " is accepted"));
		if (fast && acceptsWord(*fast, t) != (best <= k)) fail(str(d, ": ", showWord(t), " at distance ", best, best <= k ? " is not accepted" : " is accepted", " by the fast scanner"));
		if (best + 1 >= k && best <= k + 1) ctx.label("at the limit");
		ctx.count();
	}
	ctx.nontrivial(d);
}
static void regressions(Src&, Ctx& ctx) {
	struct R { const char* re; size_t k; const char* text; bool yes; };
	static const R list[] = {
		{"^abc$", 1, "xxabc", false}, {"^abc$", 1, "xabc", true}, {"^abc$", 2, "xxabc", true}, {"^abc$", 1, "abcxx", false}, {"^a$", 1, "xxxxa", false},
		{"^a(b|c)$", 1, "ba", true}, {"^a(b|c)$", 1, "ca", true}, {"^(a|b)(c|d)$", 1, "da", true}, {"^a*b$", 1, "aaaba", true}, {"^ab$", 1, "abx", true}, {"^ab$", 1, "axxb", false},
		{"^a..b$", 2, "xa..b", true}, {"^.*ab$", 2, "xxxxbax", true}, {"^a$", 0, "b", false}, {"^()$", 1, "x", true}, {"^()$", 1, "xy", false}, {"^[]$", 3, "", true}, {"^[]$", 3, "xxxx", false}, {"^[]$", 3, "x", false},
	};
	const R& r = list[ctx.index];
	ctx.describe(str(r.re, " distance ", r.k, " on ", r.text));
	bool want = r.yes; if (!strcmp(r.re, "^[]$")) want = false;   // nothing is near no word at all
	for (int det = 0; det < 2; ++det) for (int sur = 0; sur < 2; ++sur) {
		P::Fsm f = parse(r.re); if (sur) f.Surround(); if (det) f.Canonize();
		P::Scanner sc(f, r.k);
		bool got = P::Runner(sc).Begin().Run(std::string(r.text)).End();
		if (got != want) fail(str(r.re, sur ? " surrounded" : "", det ? " determined" : "", " at distance ", r.k, got ? " matches " : " does not match ", r.text));
	}
	// an automaton of one letter, no marks: characters can be added at its end
	P::Fsm f; f.Append('a'); P::SimpleScanner sc(f, 1); Word w; w.push_back('a'); w.push_back('x'); if (!acceptsWord(sc, w)) fail("'a' at distance 1 does not accept 'ax'");
	ctx.nontrivial(str(r.re, r.k, r.text));
}

int main(int argc, char** argv) {
	Suite s;
	s.id = "C17";
	s.rule = "a distance of at least one and a non-empty language; distinct by automaton and distance";
	s.assumptions = {"distances 0..3 (0..10 for single words, with the slow scanner), automata of up to 40 states, approximations of up to 300 (larger ones are discarded)", "each character takes part in at most one edit (as in the optimal string alignment distance)"};
	s.laws = {
		{"exact", 800, 120000, exact},
		{"edited", 400, 60000, edited},
		{"brute", 300, 20000, brute},
		{"afar", 300, 20000, afar},
		{"regressions", 19, 19, regressions, true},
	};
	return run(s, argc, argv);
}
