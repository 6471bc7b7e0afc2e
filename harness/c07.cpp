// C07: prefix and suffix search return exactly the longest / shortest match.
#include "genfsm.h"
#include "observe.h"
#include "scale.h"
using namespace pbt;
using namespace pu;
namespace P = Pire;

// the answer by definition: number of bytes of the longest / shortest accepted prefix, -1 if there is none
struct Want { long longest[4], shortest[4]; };   // index: through the first mark | through the last mark * 2
static Want search(const Lang& l, const std::string& t, int first, int last) {
	Want w;
	for (int k = 0; k < 4; ++k) {
		w.longest[k] = w.shortest[k] = -1;
		int s = 0;
		if (k & 1) s = l.next(s, first);
		for (size_t i = 0; i <= t.size(); ++i) {
			if (l.fin[s]) { w.longest[k] = (long)i; if (w.shortest[k] < 0) w.shortest[k] = (long)i; }
			if (i < t.size()) s = l.next(s, (unsigned char)t[i]);
		}
		if ((k & 2) && l.fin[l.next(s, last)]) { w.longest[k] = (long)t.size(); if (w.shortest[k] < 0) w.shortest[k] = (long)t.size(); }
	}
	return w;
}
static std::string name(long i) { return i < 0 ? "nothing" : str(i, " bytes"); }

template<class Sc> static void prefixes(const Sc& sc, const Want& w, const std::string& t, size_t shift, const std::string& what, Ctx& ctx) {
	obs::Fenced f(t, shift, "ab");
	for (int k = 0; k < 4; ++k) {
		const char* r = P::LongestPrefix(sc, f.begin(), f.end(), k & 1, k & 2);
		long got = r ? r - f.begin() : -1;
		if (got != w.longest[k]) fail(str(what, " longest prefix of ", show(t), " at offset ", shift, k & 1 ? " through the begin mark" : "", k & 2 ? " through the end mark" : "", ": ", name(got), " instead of ", name(w.longest[k])));
		r = P::ShortestPrefix(sc, f.begin(), f.end(), k & 1, k & 2);
		got = r ? r - f.begin() : -1;
		if (got != w.shortest[k]) fail(str(what, " shortest prefix of ", show(t), " at offset ", shift, k & 1 ? " through the begin mark" : "", k & 2 ? " through the end mark" : "", ": ", name(got), " instead of ", name(w.shortest[k])));
	}
	ctx.count(8);
}
// `w` holds the answers for the text read backwards
template<class Sc> static void suffixes(const Sc& sc, const Want& w, const std::string& t, size_t shift, const std::string& what, Ctx& ctx) {
	obs::Fenced f(t, shift, "ab");
	const char *rb = f.end() - 1, *re = f.begin() - 1;
	for (int k = 0; k < 4; ++k) {
		const char* r = P::LongestSuffix(sc, rb, re, k & 1, k & 2);
		long got = r ? rb - r : -1;
		if (got != w.longest[k]) fail(str(what, " longest suffix of ", show(t), k & 1 ? " through the end mark" : "", k & 2 ? " through the begin mark" : "", ": ", name(got), " instead of ", name(w.longest[k])));
		r = P::ShortestSuffix(sc, rb, re, k & 1, k & 2);
		got = r ? rb - r : -1;
		if (got != w.shortest[k]) fail(str(what, " shortest suffix of ", show(t), k & 1 ? " through the end mark" : "", k & 2 ? " through the begin mark" : "", ": ", name(got), " instead of ", name(w.shortest[k])));
	}
	ctx.count(8);
}
template<class Sc> static Sc make(const P::Fsm& f) { P::Fsm c(f); return Sc(c); }

struct Kinds {
	P::Scanner s0; P::ScannerNoMask s1; P::NonrelocScanner s2; P::NonrelocScannerNoMask s3; P::SimpleScanner si; P::SlowScanner sl; P::CapturingScanner cp;
	explicit Kinds(const P::Fsm& f): s0(make<P::Scanner>(f)), s1(make<P::ScannerNoMask>(f)), s2(make<P::NonrelocScanner>(f)), s3(make<P::NonrelocScannerNoMask>(f)), si(make<P::SimpleScanner>(f)), sl(make<P::SlowScanner>(f)), cp(make<P::CapturingScanner>(f)) {}
	template<class F> void each(const std::string& d, F fn) const { fn(s0, d + ": Scanner"); fn(s1, d + ": ScannerNoMask"); fn(s2, d + ": NonrelocScanner"); fn(s3, d + ": NonrelocScannerNoMask"); fn(si, d + ": SimpleScanner"); fn(sl, d + ": SlowScanner"); fn(cp, d + ": CapturingScanner"); }
};
struct DoPrefix { const Want& w; const std::string& t; size_t shift; Ctx& ctx; template<class Sc> void operator()(const Sc& sc, const std::string& d) const { prefixes(sc, w, t, shift, d, ctx); } };
struct DoSuffix { const Want& w; const std::string& t; size_t shift; Ctx& ctx; template<class Sc> void operator()(const Sc& sc, const std::string& d) const { suffixes(sc, w, t, shift, d, ctx); } };

static std::string genText(Src& src, const Lang& l) {
	std::string t;
	if (src.coin()) t = ref::toBytes(ref::randomWord(src, l, src.chance(1, 4) ? 100 : 20, false, true));
	if (src.coin()) t += obs::texture(src, &l, 120);
	return t;
}

static void searches(Src& src, Ctx& ctx) {
	Lang l; std::string d; P::Fsm f;
	try { f = gen::any(src, l, d, 7); if (src.chance(1, 4)) { f.Surround(); l = ref::surrounded(l); d += " surrounded"; } } catch (ref::TooBig&) { discard(); }
	if (f.Size() > 120 || l.size() > 100) discard();
	{ P::Fsm x(f); if (!x.Determine(1500)) discard(); }
	ctx.describe(d);
	Kinds k(f);
	// the same words read backwards
	P::Fsm rf(f); rf.Reverse(); Lang rl; bool haveR = true;
	try { rl = ref::reversed(l); } catch (ref::TooBig&) { haveR = false; }
	if (haveR && (rl.size() > 200 || ![&] { P::Fsm x(rf); return x.Determine(3000); }())) haveR = false;
	std::unique_ptr<Kinds> rk; if (haveR) rk.reset(new Kinds(rf));
	bool proper = false, none = false;
	for (int i = 0; i < 6; ++i) {
		std::string t = genText(src, l);
		size_t shift = src.chance(1, 3) ? (16 - t.size() % 16) % 16 : src.below(16);
		ctx.describe(d + " text " + show(t));
		Want w = search(l, t, BM, EM);
		for (int j = 0; j < 4; ++j) { if (w.longest[j] > 0 && (w.longest[j] < (long)t.size() || w.shortest[j] != w.longest[j])) proper = true; if (w.longest[j] < 0) none = true; }
		k.each(d, DoPrefix{w, t, shift, ctx});
		std::string back(t.rbegin(), t.rend());
		// a scanner may be handed any text backwards: its language is what is read backwards
		Want wb = search(l, t, EM, BM);
		k.each(d, DoSuffix{wb, back, shift, ctx});
		if (haveR) {
			Want wr = search(rl, back, EM, BM);
			rk->each(d + " reversed", DoSuffix{wr, t, shift, ctx});
			// suffixes by definition
			long lo = -1;
			for (size_t b = 0; b <= t.size() && lo < 0; ++b) { Word x; for (size_t q = b; q < t.size(); ++q) x.push_back((unsigned char)t[q]); if (l.accepts(x)) lo = (long)(t.size() - b); }
			if (lo != wr.longest[0]) fail("harness: reversed language");
		}
	}
	if (proper) ctx.label("a match which is neither empty nor everything");
	if (none) ctx.label("no match");
	if (proper) ctx.nontrivial(d);
}

static void lengths(Src&, Ctx& ctx) {
	static const char* pats[] = {"x[^a]*", ".*", "[^a]*b[^b]*", "(aa)*", "x*$", "^?x*", "x{20}", "[^ab]*a|b"};
	size_t len = ctx.index % 70, pi = ctx.index / 70;
	P::Fsm f = pu::parse(pats[pi]);
	Lang l = langOf(f);
	std::string d = pats[pi];
	Kinds k(f);
	for (size_t shift = 0; shift < 16; ++shift) for (char c : std::string("xab")) for (size_t at : {len, (size_t)0, len / 2, len ? len - 1 : 0}) {
		std::string t(len, c); if (at < len) t[at] = c == 'a' ? 'b' : c == 'b' ? 'x' : 'a';
		if (len && at == len && c == 'a') t[0] = 'x';
		ctx.describe(str(d, " length ", len, " offset ", shift, " text ", show(t)));
		Want w = search(l, t, BM, EM);
		k.each(d, DoPrefix{w, t, shift, ctx});
		std::string back(t.rbegin(), t.rend());
		Want wb = search(l, t, EM, BM);
		k.each(d, DoSuffix{wb, back, shift, ctx});
	}
	if (len) ctx.nontrivial(str(d, len));
}

// texts of up to a megabyte
static void longs(Src& src, Ctx& ctx) {
	static const char* pats[] = {"[^c]*", "[^a]*b[^b]*", "x[^a]*", "(aa)*", ".*b", "x*$", ".{300}", "a*b"};
	std::string d = pats[src.below(8)];
	P::Fsm f = pu::parse(d); Lang l = langOf(f);
	size_t n = src.oneOf<size_t>({300, 4000, 65530, 70000, 140000, 700000}) + src.below(20);
	std::string t = src.chance(1, 4) ? scale::noise(src, n) : std::string(n, "abx"[src.below(3)]);
	size_t k = src.below(4); while (k--) t[src.below(n)] = "abcx"[src.below(4)];
	if (src.coin()) t[n - 1 - src.below(20)] = "abc"[src.below(3)];
	std::string back(t.rbegin(), t.rend());
	d += str(" on ", n, " letters");
	ctx.describe(d);
	Want w = search(l, t, BM, EM), wb = search(l, back, EM, BM);
	auto chk = [&](long got, long want, const char* what) { if (got != want) fail(str(d, ": ", what, ": ", name(got), " instead of ", name(want))); ctx.count(); };
	auto all = [&](const auto& sc) {
		obs::Fenced x(t, src.below(16), "ab");
		const char *rb = x.end() - 1, *re = x.begin() - 1;
		for (int k = 0; k < 4; ++k) {
			const char* r = P::LongestPrefix(sc, x.begin(), x.end(), k & 1, k & 2); chk(r ? r - x.begin() : -1, w.longest[k], "longest prefix");
			r = P::ShortestPrefix(sc, x.begin(), x.end(), k & 1, k & 2); chk(r ? r - x.begin() : -1, w.shortest[k], "shortest prefix");
			r = P::LongestSuffix(sc, rb, re, k & 1, k & 2); chk(r ? rb - r : -1, wb.longest[k], "longest suffix");
			r = P::ShortestSuffix(sc, rb, re, k & 1, k & 2); chk(r ? rb - r : -1, wb.shortest[k], "shortest suffix");
		}
	};
	switch (src.below(5)) {
	case 0: all(make<P::Scanner>(f)); break;
	case 1: all(make<P::ScannerNoMask>(f)); break;
	case 2: all(make<P::NonrelocScanner>(f)); break;
	case 3: all(make<P::NonrelocScannerNoMask>(f)); break;
	default: all(make<P::SimpleScanner>(f)); break;
	}
	if (w.longest[0] > 65536) { ctx.label("a match of more than 65536 bytes"); ctx.nontrivial(d); }
}

int main(int argc, char** argv) {
	Suite s;
	s.id = "C07";
	s.rule = "a text with a longest prefix that is neither empty nor equal to both the text and the shortest one (searches); non-empty texts (lengths)";
	s.assumptions = {"texts of up to about 220 bytes, and some of up to 700 thousand (long), at offsets 0..15 from a 16-byte boundary", "half-final and counting scanners are left out: their Final() does not tell whether the consumed text is accepted"};
	s.laws = {
		{"searches", 1200, 120000, searches},
		{"long", 60, 6000, longs},
		{"lengths", 8 * 70, 8 * 70, lengths, true},
	};
	return run(s, argc, argv);
}
