// C14: counting scanners report the longest chain of matches, alone or glued.
#include "pireutil.h"
#include "pattern.h"
#include "observe.h"
#include <pire/extra.h>
using namespace pbt;
using namespace pu;
namespace P = Pire;
typedef std::vector<std::vector<char>> Table; // [from][to]: that part of the text is in the language

static Table table(const Lang& l, const Word& w) {
	size_t n = w.size();
	Table m(n + 1, std::vector<char>(n + 1, 0));
	for (size_t i = 0; i <= n; ++i) { int s = 0; m[i][i] = l.fin[0]; for (size_t j = i; j < n; ++j) { s = l.next(s, w[j]); m[i][j + 1] = l.fin[s]; } }
	return m;
}
/// most matches in any chain
static size_t anyChain(const Table& r, const Table* s, size_t n) {
	std::vector<size_t> best(n + 1, 0);
	size_t res = 0;
	for (size_t e = 1; e <= n; ++e) for (size_t b = 0; b < e; ++b) if (r[b][e]) {
		size_t c = 1;
		for (size_t p = 1; p <= b; ++p) if (best[p] && (!s || (*s)[p][b])) c = std::max(c, best[p] + 1);
		best[e] = std::max(best[e], c); res = std::max(res, c);
	}
	return res;
}
struct Verdict {
	size_t chain = 0;      // most matches in any chain
	size_t disjoint = 0;   // most non-overlapping matches
	bool exact = false;    // there is only one way to divide the text: `tokens` is the answer
	size_t tokens = 0;     // longest chain of leftmost-longest matches
	size_t after = 0;      // the same, with a separator demanded before the first match too
	size_t found = 0;
};
static Verdict judge(const Lang& lr, const Lang& ls, const Word& w) {
	Verdict v;
	size_t n = w.size();
	Table r = table(lr, w), s = table(ls, w);
	v.chain = anyChain(r, &s, n); v.disjoint = anyChain(r, nullptr, n);
	std::vector<std::pair<size_t, size_t>> tok;
	for (size_t i = 0; i < n;) {
		size_t e = 0;
		for (size_t k = n; k > i && !e; --k) if (r[i][k]) e = k;
		if (e) { tok.push_back({i, e}); i = e; } else ++i;
	}
	v.found = tok.size();
	v.exact = true;
	std::vector<char> ra = lr.alive(), sa = ls.alive();
	// an unfinished match neither crosses nor contains a part of a token
	for (size_t i = 0; i < n && v.exact; ++i) {
		int q = 0; size_t x = i;
		while (x < n && ra[q = lr.next(q, w[x])]) ++x;
		if (x == i) continue;
		bool in = false, apart = true;
		for (auto& t : tok) { if (t.first <= i && x <= t.second) in = true; if (x > t.first && i < t.second) apart = false; }
		if (!in && !apart) v.exact = false;
	}
	// the match that ends first within a token begins where the token does
	for (auto& t : tok) {
		size_t mine = n + 1, other = n + 1;
		for (size_t i = t.first; i < t.second; ++i) for (size_t m = i + 1; m <= t.second; ++m) if (r[i][m]) { size_t& z = i == t.first ? mine : other; z = std::min(z, m); }
		if (other < mine) v.exact = false;
	}
	size_t run = 0, run2 = 0;
	std::vector<size_t> chainOf(tok.size(), 0);
	for (size_t k = 0; k < tok.size(); ++k) {
		bool joined = k && s[tok[k - 1].second][tok[k].first];
		chainOf[k] = k ? chainOf[k - 1] + !joined : 0;
		run = joined ? run + 1 : 1;
		v.tokens = std::max(v.tokens, run);
		bool sep = false;
		for (size_t x = 0; x <= tok[k].first; ++x) sep = sep || s[x][tok[k].first];
		run2 = joined && run2 ? run2 + 1 : sep ? 1 : 0;
		v.after = std::max(v.after, run2);
	}
	// no unfinished separator reaches into a token of another chain
	for (size_t k = 0; k < tok.size() && v.exact; ++k) {
		int q = 0; size_t x = tok[k].second;
		while (x < n && sa[q = ls.next(q, w[x])]) ++x;
		for (size_t l = k + 1; l < tok.size(); ++l) if (chainOf[l] != chainOf[k] && x > tok[l].first) v.exact = false;
	}
	// shorter matches inside of the tokens, or leaving some tokens to the separators, would not make it longer
	if (v.exact) {
		size_t best = 0;
		std::vector<std::vector<size_t>> be(tok.size(), std::vector<size_t>(n + 1, 0));
		for (size_t k = 0; k < tok.size(); ++k) for (size_t i = tok[k].first; i < tok[k].second; ++i) for (size_t m = i + 1; m <= tok[k].second; ++m) if (r[i][m]) {
			size_t c = 1;
			for (size_t p = 0; p < k; ++p) for (size_t x = tok[p].first + 1; x <= tok[p].second; ++x) if (be[p][x] && s[x][i]) c = std::max(c, be[p][x] + 1);
			be[k][m] = std::max(be[k][m], c); best = std::max(best, c);
		}
		if (best != v.tokens) v.exact = false;
	}
	return v;
}

struct Pair {
	std::string re, sep, d; P::Fsm fre, fsep; Lang lre, lsep;
	bool nullable = false, dots = false, marks = false, apart = false; // `apart`: made of different characters
};
static Pair pair(Src& s, size_t maxStates = 30, bool small = false) {
	Pair p;
	pat::Options o; o.depth = 2; o.maxTerms = 5; o.letters = "abc"; o.maxCount = 3; o.classes = true; o.marks = s.chance(1, 8);
	if (small) { o.depth = 1; o.maxTerms = 2; o.maxCount = 2; }
	switch (s.below(4)) {
	case 0: { obs::CountPair c = obs::countPair(s); p.re = c.re; p.sep = c.sep; break; }
	case 1: { // words of letters between something else
		static const char* seps[] = {" ", "-+", "[- ]+", " +", "\\s", " -|- ", "(, )?-", "[^a-c]", "[^a-c]+", "[^a-c]*", "", "-?", " *", "(-| )?"};
		o.marks = false; o.classes = false; o.negated = false;
		p.re = pat::generate(s, o).text; p.sep = seps[s.below(sizeof(seps) / sizeof(*seps))]; p.apart = p.re.find('.') == std::string::npos && (p.sep == " " || p.sep == "-+" || p.sep == "[- ]+" || p.sep == " +" || p.sep == "\\s"); break;
	}
	case 2: { p.re = pat::generate(s, o).text; p.sep = ".*"; break; }
	case 3: { p.re = pat::generate(s, o).text; p.sep = pat::generate(s, o).text; break; }
	}
	p.dots = p.sep == ".*";
	p.fre = parse(p.re); p.fsep = parse(p.sep);
	if (p.fre.Size() + p.fsep.Size() > maxStates) discard();
	try { p.lre = langOf(p.fre); p.lsep = langOf(p.fsep); } catch (ref::TooBig&) { discard(); }
	p.nullable = p.lre.fin[0];
	for (int m : {(int)ref::BM, (int)ref::EM}) { int c = p.lre.cls[m]; std::vector<char> a = p.lre.alive(); for (size_t i = 0; i < p.lre.size(); ++i) if (a[i] && a[p.lre.delta[i * p.lre.nc + c]]) p.marks = true; }
	p.d = show(p.re) + " by " + show(p.sep);
	return p;
}
static std::string someText(Src& s, const Pair& p, size_t maxLen = 30) {
	static const std::string pool = "abcx -";
	std::string t;
	size_t parts = s.below(9);
	for (size_t i = 0; i < parts && t.size() < maxLen; ++i) switch (s.weighted({4, 3, 2, 1})) {
	case 0: t += ref::toBytes(ref::randomWord(s, p.lre, 3, true)).substr(0, 12); break;
	case 1: t += ref::toBytes(ref::randomWord(s, p.lsep, 2, true)).substr(0, 8); break;
	case 2: { size_t n = s.below(4); while (n--) t += pool[s.below(pool.size())]; break; }
	case 3: t += std::string(s.below(30), pool[s.below(pool.size())]); break;
	}
	if (t.size() > maxLen) t.resize(maxLen);
	return t;
}
template<class Sc> typename Sc::State steps(const Sc& sc, const Word& w) {
	typename Sc::State st; sc.Initialize(st);
	for (int c : w) P::Step(sc, st, (P::Char)c);
	return st;
}
/// the same text fed in pieces
template<class Sc> typename Sc::State pieces(Src& s, const Sc& sc, const std::string& t) {
	typename Sc::State st; sc.Initialize(st);
	P::Step(sc, st, P::BeginMark);
	Text x(t, s.below(9));
	for (const char* p = x.begin(); p != x.end();) {
		size_t n = std::min<size_t>(x.end() - p, s.chance(1, 3) ? s.below(3) : s.chance(1, 2) ? s.below(12) : x.end() - p);
		P::Run(sc, st, p, p + n);
		p += n;
		if (s.chance(1, 4)) { typename Sc::State copy(st); st = copy; }
	}
	P::Step(sc, st, P::EndMark);
	return st;
}
template<class Sc> size_t count(Src& s, const Sc& sc, const std::string& t, const std::string& d) {
	size_t a = steps(sc, ref::marked(t)).Result(0), b = pieces(s, sc, t).Result(0);
	if (a != b) fail(str(d, ": ", a, " matches in ", show(t), ", but ", b, " if the text is given in pieces"));
	return a;
}
static void check(Src& s, Ctx& ctx, const Pair& p, const P::CountingScanner* c, const P::AdvancedCountingScanner& a, const P::NoGlueLimitCountingScanner& g, const std::string& t, bool simple) {
	Word w = ref::marked(t);
	size_t A = count(s, a, t, p.d + ", AdvancedCountingScanner"), L = count(s, g, t, p.d + ", NoGlueLimitCountingScanner");
	if (A != L) fail(str(p.d, " on ", show(t), ": AdvancedCountingScanner counts ", A, ", NoGlueLimitCountingScanner ", L));
	ctx.count();
	if (p.nullable) { if (!c) return; count(s, *c, t, p.d + ", CountingScanner"); return; }
	Verdict v = judge(p.lre, p.lsep, w);
	if (A > v.chain) fail(str(p.d, " on ", show(t), ": AdvancedCountingScanner counts ", A, ", but no chain is longer than ", v.chain));
	if ((A > 0) != (v.found > 0)) fail(str(p.d, " on ", show(t), ": AdvancedCountingScanner counts ", A, ", though there are ", v.found, " matches"));
	if (v.exact && !simple && A != v.tokens) fail(str(p.d, " on ", show(t), ": AdvancedCountingScanner counts ", A, ", the longest chain is ", v.tokens));
	if (c) {
		size_t C = count(s, *c, t, p.d + ", CountingScanner");
		if (C > v.disjoint) fail(str(p.d, " on ", show(t), ": CountingScanner counts ", C, ", but there are only ", v.disjoint, " non-overlapping matches"));
		if (v.exact && p.dots && !p.marks && C != v.tokens) fail(str(p.d, " on ", show(t), ": CountingScanner counts ", C, ", there are ", v.tokens));
		if (v.exact && p.apart && C != v.after) fail(str(p.d, " on ", show(t), ": CountingScanner counts ", C, ", the longest chain of matches preceded by separators is ", v.after));
	}
	if (v.exact && v.found) {
		ctx.label(v.tokens > 1 ? "exact, more than one" : "exact, one");
		if (v.tokens > 1) ctx.nontrivial(p.d + "/" + t);
	} else ctx.label(v.found ? "bounds" : "no match");
}
static void chains(Src& s, Ctx& ctx) {
	Pair p = pair(s);
	ctx.describe(p.d);
	bool simple = false;
	P::CountingScanner c(p.fre, p.fsep);
	P::AdvancedCountingScanner a(p.fre, p.fsep, &simple);
	P::NoGlueLimitCountingScanner g(p.fre, p.fsep);
	for (int i = 0; i < 12; ++i) {
		std::string t = someText(s, p);
		ctx.describe(p.d + " on " + show(t));
		check(s, ctx, p, &c, a, g, t, simple);
	}
	if (simple) ctx.label("simple");
}
// ---- gluing, images
template<class Sc> void glued(Src& s, Ctx& ctx, size_t maxCount) {
	size_t n = maxCount > 16 && s.chance(1, 6) ? 17 + s.below(20) : 2 + s.below(4);
	std::vector<Pair> ps; std::vector<Sc> alone, pool; std::string d;
	std::vector<std::vector<size_t>> ids;
	if (n > 6) { // a few small ones many times over
		std::vector<Pair> few; std::vector<Sc> fs;
		static const char* res[] = {"a", "b", "ab", "[a-c]+", "ba", "c"}; static const char* seps[] = {".*", "", " ", "[^a]*"};
		for (int i = 0; i < 3; ++i) { Pair p; p.re = res[s.below(6)]; p.sep = seps[s.below(4)]; p.fre = parse(p.re); p.fsep = parse(p.sep); p.lre = langOf(p.fre); p.lsep = langOf(p.fsep); p.d = show(p.re) + " by " + show(p.sep); few.push_back(p); fs.push_back(Sc(p.fre, p.fsep)); }
		for (size_t i = 0; i < n; ++i) { size_t k = s.below(3); ps.push_back(few[k]); alone.push_back(fs[k]); }
		d = str(n, " of ", few[0].d, ", ", few[1].d, ", ", few[2].d);
	} else for (size_t i = 0; i < n; ++i) { ps.push_back(pair(s, 18, true)); alone.push_back(Sc(ps[i].fre, ps[i].fsep)); d += (i ? ", " : "") + ps[i].d; }
	ctx.describe(d);
	for (size_t i = 0; i < n; ++i) { pool.push_back(alone[i]); ids.push_back({i}); }
	while (pool.size() > 1) {
		size_t i = s.below(pool.size()); size_t j = s.below(pool.size() - 1); if (j >= i) ++j;
		Sc g = s.chance(1, 4) ? Sc::Glue(pool[i], pool[j], 3000) : Sc::Glue(pool[i], pool[j]);
		if (g.Empty() || g.Size() > 4000) discard();
		std::vector<size_t> v = ids[i]; v.insert(v.end(), ids[j].begin(), ids[j].end());
		if (g.RegexpsCount() != v.size()) fail(str(d, ": ", g.RegexpsCount(), " expressions after gluing ", v.size()));
		switch (s.below(5)) { // the glued one goes on as it is, loaded, mapped or copied
		case 0: { std::string im = save(g); std::istringstream in(im); Sc x; x.Load(&in); g = x; break; }
		case 1: { Sc x(g); Sc y; y = x; g = y; break; }
		}
		pool[i] = g; ids[i] = v;
		pool.erase(pool.begin() + j); ids.erase(ids.begin() + j);
	}
	Sc& all = pool[0]; std::vector<size_t>& order = ids[0];
	std::string image = save(all);
	std::vector<size_t> mapped((image.size() + 7) / 8);
	memcpy(mapped.data(), image.data(), image.size());
	Sc map; map.Mmap(mapped.data(), image.size());
	for (int i = 0; i < 6; ++i) {
		std::string t;
		size_t parts = 1 + s.below(3);
		while (parts--) t += someText(s, ps[s.below(n)]);
		ctx.describe(d + " on " + show(t));
		typename Sc::State st = pieces(s, all, t), sm = pieces(s, map, t), sw = steps(all, ref::marked(t));
		size_t pos = 0;
		for (size_t k = 0; k < n; ++k) {
			size_t want = steps(alone[order[k]], ref::marked(t)).Result(0);
			if (st.Result(k) != want || sw.Result(k) != want) fail(str(d, " glued, on ", show(t), ": ", ps[order[k]].d, " (number ", k, ") counted ", st.Result(k), ", alone ", want));
			if (sm.Result(k) != want) fail(str(d, " glued and mapped, on ", show(t), ": ", ps[order[k]].d, " counted ", sm.Result(k), ", alone ", want));
			pos += want > 0; ctx.count(2);
		}
		if (pos > 1) ctx.nontrivial(d + "/" + t);
	}
	ctx.label(str("glued ", n > 16 ? "more than 16" : "few"));
}
static void glueOld(Src& s, Ctx& ctx) { glued<P::CountingScanner>(s, ctx, 16); }
static void glueAdvanced(Src& s, Ctx& ctx) { glued<P::AdvancedCountingScanner>(s, ctx, 16); }
static void glueNoLimit(Src& s, Ctx& ctx) { glued<P::NoGlueLimitCountingScanner>(s, ctx, 40); }
// an image of an AdvancedCountingScanner read as a NoGlueLimitCountingScanner, glued further
static void compatible(Src& s, Ctx& ctx) {
	std::vector<Pair> ps; std::vector<P::AdvancedCountingScanner> adv; std::string d;
	size_t n = 1 + s.below(3), m = s.below(3);
	for (size_t i = 0; i < n + m; ++i) { ps.push_back(pair(s, 18, true)); adv.push_back(P::AdvancedCountingScanner(ps[i].fre, ps[i].fsep)); d += (i ? ", " : "") + ps[i].d; }
	ctx.describe(d);
	P::AdvancedCountingScanner a = adv[0];
	for (size_t i = 1; i < n; ++i) { a = P::AdvancedCountingScanner::Glue(a, adv[i], 4000); if (a.Empty()) discard(); }
	P::NoGlueLimitCountingScanner g;
	std::string im = save(a);
	std::vector<size_t> mapped((im.size() + 7) / 8); memcpy(mapped.data(), im.data(), im.size());
	if (s.coin()) { std::istringstream in(im); g.Load(&in); } else g.Mmap(mapped.data(), im.size());
	for (size_t i = n; i < n + m; ++i) {
		g = P::NoGlueLimitCountingScanner::Glue(g, P::NoGlueLimitCountingScanner(ps[i].fre, ps[i].fsep), 4000);
		if (g.Empty()) discard();
	}
	if (g.RegexpsCount() != n + m) fail(d + ": wrong number of expressions");
	for (int i = 0; i < 6; ++i) {
		std::string t; size_t parts = 1 + s.below(3);
		while (parts--) t += someText(s, ps[s.below(n + m)]);
		P::NoGlueLimitCountingScanner::State st = pieces(s, g, t);
		for (size_t k = 0; k < n + m; ++k) {
			size_t want = steps(adv[k], ref::marked(t)).Result(0);
			if (st.Result(k) != want) fail(str(d, ": ", n, " of them loaded, on ", show(t), ": ", ps[k].d, " counted ", st.Result(k), ", alone ", want));
			ctx.count();
		}
		if (t.size() > 5) ctx.nontrivial(d + "/" + t);
	}
}
// several texts one after another: counts go on, or begin anew after Initialize
static void records(Src& s, Ctx& ctx) {
	Pair p = pair(s);
	ctx.describe(p.d);
	P::AdvancedCountingScanner a(p.fre, p.fsep); P::NoGlueLimitCountingScanner g(p.fre, p.fsep); P::CountingScanner c(p.fre, p.fsep);
	P::AdvancedCountingScanner::State sa; P::NoGlueLimitCountingScanner::State sg; P::CountingScanner::State sc;
	a.Initialize(sa); g.Initialize(sg); c.Initialize(sc);
	Word all;
	size_t n = 2 + s.below(4), last = 0, lastC = 0;
	for (size_t i = 0; i < n; ++i) {
		std::string t = someText(s, p, 15);
		Word w = ref::marked(t);
		for (int x : w) {
			all.push_back(x);
			P::Step(a, sa, (P::Char)x); P::Step(g, sg, (P::Char)x); P::Step(c, sc, (P::Char)x);
			if (sa.Result(0) < last || sc.Result(0) < lastC) fail(p.d + ": the result went down after " + showWord(all));
			if (sa.Result(0) > last + 1 || sc.Result(0) > lastC + 1) fail(p.d + ": one character added more than one match after " + showWord(all));
			last = sa.Result(0); lastC = sc.Result(0);
			if (sg.Result(0) != sa.Result(0)) fail(str(p.d, ": AdvancedCountingScanner counts ", sa.Result(0), ", NoGlueLimitCountingScanner ", sg.Result(0), " after ", showWord(all)));
			ctx.count();
		}
	}
	if (!p.nullable) {
		Verdict v = judge(p.lre, p.lsep, all);
		if (last > v.chain) fail(str(p.d, ": ", last, " counted, but no chain is longer than ", v.chain, " in ", showWord(all)));
		if (v.exact && last != v.tokens) fail(str(p.d, ": ", last, " counted, the longest chain is ", v.tokens, " in ", showWord(all)));
		if (lastC > v.disjoint) fail(str(p.d, ": CountingScanner counts ", lastC, ", there are only ", v.disjoint, " matches in ", showWord(all)));
		if (v.exact && v.tokens > 1) ctx.nontrivial(p.d + showWord(all));
	}
	a.Initialize(sa); c.Initialize(sc); g.Initialize(sg);
	if (sa.Result(0) || sc.Result(0) || sg.Result(0)) fail(p.d + ": a state is not clean after Initialize");
}
// long texts: far more matches than fit a byte or a word of 16 bits
static void longs(Src& s, Ctx& ctx) {
	size_t n = s.oneOf<size_t>({200, 300, 40000, 70000});
	n += s.below(10);
	std::string word = s.oneOf<std::string>({"ab", "a", "abc"}), gap = s.oneOf<std::string>({"", " ", "--", "x"});
	std::string sep = gap == "" ? "" : gap == "--" ? "-+" : s.coin() ? gap : "[" + gap + "]*";
	size_t cut = s.below(n);
	std::string t;
	for (size_t i = 0; i < n; ++i) { t += word; t += i == cut ? "!" : gap; }
	size_t want = std::max(cut + 1, n - cut - 1);
	std::string d = str(show(word), " by ", show(sep), ", ", n, " times with a break after ", cut + 1);
	ctx.describe(d);
	P::Fsm re = parse(word), fs = parse(sep), dots = parse(".*");
	size_t a = pieces(s, P::AdvancedCountingScanner(re, fs), t).Result(0), g = pieces(s, P::NoGlueLimitCountingScanner(re, fs), t).Result(0);
	if (a != want) fail(str(d, ": AdvancedCountingScanner counts ", a, ", should be ", want));
	if (g != want) fail(str(d, ": NoGlueLimitCountingScanner counts ", g, ", should be ", want));
	size_t c = pieces(s, P::CountingScanner(re, dots), t).Result(0), ad = pieces(s, P::AdvancedCountingScanner(re, dots), t).Result(0);
	if (c != n || ad != n) fail(str(d, ": by \".*\": CountingScanner counts ", c, ", AdvancedCountingScanner ", ad, ", should be ", n));
	ctx.nontrivial(d); ctx.count(4);
}
// expressions for which the exact construction is too large
static void fallback(Src& s, Ctx& ctx) {
	static const char* re[] = {"a.{10}", "a.{10}", "a.{9}b"}; static const char* sep[] = {".{3,9}", ".*", "a.{8}"};
	Pair p; p.re = re[ctx.index]; p.sep = sep[ctx.index]; p.d = show(p.re) + " by " + show(p.sep); ctx.describe(p.d);
	p.fre = parse(p.re); p.fsep = parse(p.sep); p.lre = langOf(p.fre); p.lsep = langOf(p.fsep);
	bool simple = false;
	P::AdvancedCountingScanner a(p.fre, p.fsep, &simple); P::NoGlueLimitCountingScanner g(p.fre, p.fsep);
	ctx.label(simple ? "simple" : "exact");
	for (int i = 0; i < 300; ++i) check(s, ctx, p, nullptr, a, g, someText(s, p, 60), simple);
}
// known shapes and fixed defects
static void regressions(Src& s, Ctx& ctx) {
	struct Case { const char *re, *sep, *text; int c, a; }; // -1: not defined
	static const Case cases[] = {
		{"(c?.){2,2}b|[b]{1,1}", ".*", "bbaccccccccccccccc", 2, 2},
		{"(c?.){2,2}b|[b]{1,1}", ".*", "bbaccb", 3, -1},
		{"cc", "[]a", "accxcc", 0, 1}, {"ab", "c*\\c", "ababaaxa", 0, 1},
		{"[a-z]+", "\\s", "abc def, abc def ghi, abc", 3, 3}, {"\\w", "", "abc abcdef abcd abcdefgh ac", 8, 8},
		{"abc", ".*", "abcabcabcabc", 4, 4}, {"abba", ".*", "abbabbabbabbat", 2, 2}, {"a", "b", "aaa", -1, 1},
		{"[a-z]+", " +", " ab abc def a  cd", 5, 5}, {"www", ".{1,6}", "wwwsswwwsssswwws", -1, 3}, {"www.{1,6}", "", "wwwsswwwsssswwws", -1, 3},
		{"a", ",", "xa", 0, 1}, {"aa", " ", "aaa aaaa", -1, 2},
	};
	const Case& k = cases[ctx.index];
	std::string d = str(show(k.re), " by ", show(k.sep), " on ", show(k.text));
	ctx.describe(d);
	P::Fsm re = parse(k.re), sep = parse(k.sep);
	size_t c = count(s, P::CountingScanner(re, sep), k.text, d), a = count(s, P::AdvancedCountingScanner(re, sep), k.text, d), g = count(s, P::NoGlueLimitCountingScanner(re, sep), k.text, d);
	if (k.c >= 0 && c != (size_t)k.c) fail(str(d, ": CountingScanner counts ", c, ", should be ", k.c));
	if (k.a >= 0 && a != (size_t)k.a) fail(str(d, ": AdvancedCountingScanner counts ", a, ", should be ", k.a));
	if (a != g) fail(str(d, ": AdvancedCountingScanner counts ", a, ", NoGlueLimitCountingScanner ", g));
	ctx.nontrivial(d); ctx.count(3);
}
// an expression that tells all 256 bytes apart
static void letters(Src&, Ctx& ctx) {
	// a byte and one of the digits naming its bits; the nine sets tell all bytes and the marks apart
	P::Fsm f; f.Resize(11); f.SetIsDetermined(false); f.SetInitial(0); f.SetFinal(10, true);
	auto has = [](int c, int k) { return k == 8 || (c >> k & 1); };
	for (int c = 0; c < 256; ++c) for (int k = 0; k < 9; ++k) if (has(c, k)) f.Connect(0, 1 + k, (P::Char)c);
	for (int k = 0; k < 9; ++k) f.Connect(1 + k, 10, (P::Char)('0' + k));
	P::AdvancedCountingScanner a(f, parse(".*"));
	size_t bad = 0;
	for (int c = 0; c < 256; ++c) for (int k = 0; k < 9; ++k) {
		std::string t = {(char)c, (char)('0' + k)};
		bad += steps(a, ref::marked(t)).Result(0) != (size_t)has(c, k);
	}
	ctx.nontrivial("letters"); ctx.count(256 * 9);
	if (bad) ctx.known("257-letters", str("an expression with ", a.LettersCount(), " classes of letters: ", bad, " of 2304 words are miscounted"));
}
int main(int argc, char** argv) {
	Suite s;
	s.id = "C14";
	s.rule = "texts that contain a chain of at least two matches and can be divided in one way only (chains, records), at least two expressions counted (glue)";
	s.assumptions = {"where matches overlap, or an unfinished match or separator reaches into another match, the documentation does not define the greedy chain: there the counters are checked against bounds (no chain is longer; non-zero if and only if there is a match) and against each other",
		"expressions accepting the empty string: only agreement of the implementations, of pieces and of gluing is checked",
		"CountingScanner counts a first match only if a separator precedes it (its historical behaviour, tests/count_ut.cpp); with '.*' that makes no difference"};
	s.laws = {
		{"regressions", 14, 14, regressions, true},
		{"letters", 1, 1, letters, true},
		{"chains", 1200, 100000, chains},
		{"records", 400, 40000, records},
		{"glue CountingScanner", 200, 10000, glueOld},
		{"glue AdvancedCountingScanner", 200, 10000, glueAdvanced},
		{"glue NoGlueLimitCountingScanner", 300, 15000, glueNoLimit},
		{"compatible", 400, 10000, compatible},
		{"long", 60, 600, longs},
		{"fallback", 1, 3, fallback},
	};
	s.caseCpuLimit = 200;
	return run(s, argc, argv);
}
