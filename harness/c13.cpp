// C13: the convenience wrapper finds a pattern exactly when some substring matches.
#include "pireutil.h"
#include "pattern.h"
#include <pire/easy.h>
#include <memory>
using namespace pbt;
using namespace pu;
namespace P = Pire;
using P::Regexp;

struct Opts { bool utf8 = false, latin1 = false, ci = false, andnot = false; };
static std::string showOpts(const Opts& o) { return str(o.utf8 ? "UTF8 " : "", o.latin1 ? "LATIN1 " : "", o.ci ? "I " : "", o.andnot ? "ANDNOT " : ""); }

/// the wrapper under the options, given in a certain order, some of them repeatedly
static Regexp wrap(const std::string& re, const Opts& o, Src& s) {
	std::vector<int> v;
	if (o.utf8) v.push_back(0);
	if (o.ci) v.push_back(1);
	if (o.andnot) v.push_back(2);
	if (o.latin1 && !o.utf8) v.push_back(3);
	size_t twice = v.empty() ? 0 : s.below(3);
	for (size_t i = 0; i < twice; ++i) v.push_back(v[s.below(v.size())]);
	for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[s.below(i)]);
	bool cstr = re.find('\0') == std::string::npos && s.coin();
	if (v.empty()) return cstr ? Regexp(re.c_str()) : s.coin() ? Regexp(re) : Regexp(re, P::Options());
	if (v.size() == 1) switch (v[0]) {
	case 0: return cstr ? Regexp(re.c_str(), P::UTF8) : Regexp(re, P::UTF8);
	case 1: return cstr ? Regexp(re.c_str(), P::I) : Regexp(re, P::I);
	case 2: return cstr ? Regexp(re.c_str(), P::ANDNOT) : Regexp(re, P::ANDNOT);
	default: return cstr ? Regexp(re.c_str(), P::LATIN1) : Regexp(re, P::LATIN1);
	}
	if (v.size() == 2 && v[0] < 2 && v[1] < 2 && v[0] != v[1]) return v[0] ? (cstr ? Regexp(re.c_str(), P::I | P::UTF8) : Regexp(re, P::I | P::UTF8)) : (cstr ? Regexp(re.c_str(), P::UTF8 | P::I) : Regexp(re, P::UTF8 | P::I));
	if (v.size() == 3 && v[0] == 1 && v[1] == 2 && v[2] == 0) return Regexp(re, P::I | P::ANDNOT | P::UTF8);
	P::Options op;
	for (int k : v) switch (k) {
	case 0: { P::Options n(op | P::UTF8); op = n; break; }
	case 1: { P::Options n(op | P::I); op = n; break; }
	case 2: { P::Options n(op | P::ANDNOT); op = n; break; }
	case 3: { P::Options n(op | P::LATIN1); op = n; break; }
	}
	return cstr ? Regexp(re.c_str(), op) : Regexp(re, op);
}
static bool matchesAll(const Regexp& r, const std::string& t, const std::string& d, Src& s) {
	Text x(t, s.below(9));
	bool m = r.Matches(x.begin(), x.end());
	if (r.Matches(t) != m) fail(str(d, ": Matches(string) and Matches(begin, end) differ on ", show(t)));
	if ((t ==~ r) != m) fail(str(d, ": ==~ and Matches(begin, end) differ on ", show(t)));
	if (t.find('\0') == std::string::npos) {
		Text z(t + '\0');
		if (r.Matches(z.begin()) != m || (z.begin() ==~ r) != m) fail(str(d, ": the verdict on a C string differs on ", show(t)));
	}
	return m;
}
/// the pattern with the other case of each letter added (letters of the ASCII and Cyrillic alphabets)
static void addCase(uint32_t c, std::vector<std::pair<uint32_t, uint32_t>>& r) {
	auto add = [&](uint32_t x) { r.push_back({x, x}); };
	if (c < 0x80 && isalpha((int)c)) add(c ^ 32);
	else if (c >= 0x410 && c <= 0x42F) add(c + 32); else if (c >= 0x430 && c <= 0x44F) add(c - 32); else if (c == 0x401) add(0x451); else if (c == 0x451) add(0x401);
}
static pat::Node anyCase(const pat::Node& n) {
	pat::Node r = n;
	if (r.kind == pat::Node::Set) { for (auto& q : n.ranges) for (uint32_t c = q.first; c <= q.second && c < q.first + 400; ++c) addCase(c, r.ranges); }
	for (auto& k : r.kids) k = anyCase(k);
	return r;
}
static Lang found(const Lang& l) { return ref::surrounded(l); }
static Lang framed() { static Lang f = ref::cat(ref::cat(ref::sym(ref::BM), ref::star(ref::chars(ref::bytes()))), ref::sym(ref::EM)); return f; }

struct Made { std::string re; Opts o; pat::Node tree; Lang lang; std::string d; };
static Made generated(Src& s) {
	Made m;
	m.o.utf8 = s.chance(1, 3); m.o.latin1 = s.chance(1, 4); m.o.ci = s.chance(1, 3); m.o.andnot = s.chance(1, 3);
	pat::Options o; o.utf8 = m.o.utf8; o.andnot = m.o.andnot; o.depth = 2; o.maxTerms = 8;
	if (m.o.ci) { o.letters = "abAB-1"; }
	else if (s.coin()) o.letters = "abc";
	pat::Pattern p = pat::generate(s, o);
	m.re = p.text; m.tree = m.o.ci ? anyCase(p.tree) : p.tree;
	switch (s.below(5)) { // anchors at the ends
	case 1: { m.re = "^(" + m.re + ")$"; break; }
	case 2: { m.re = "^(" + m.re + ")"; break; }
	case 3: { m.re = "(" + m.re + ")$"; break; }
	default: ;
	}
	try {
		Lang l = pat::lang(m.tree, m.o.utf8);
		if (m.re != p.text) { if (m.re[0] == '^' && m.re.compare(0, 2, "^(") == 0 && m.re.size() > p.text.size() + 2) l = ref::cat(ref::sym(ref::BM), l); if (m.re.back() == '$') l = ref::cat(l, ref::sym(ref::EM)); }
		m.lang = found(l);
	} catch (ref::TooBig&) { discard(); }
	m.d = showOpts(m.o) + show(m.re);
	if (m.lang.size() > 300) discard();
	return m;
}
static std::string text(Src& s, const Lang& l) {
	if (s.chance(1, 6)) { std::string t; size_t n = s.below(60); while (n--) t += (char)(s.chance(1, 6) ? s.below(256) : "aabAB \n-"[s.below(8)]); return t; }
	// both matching and non-matching ones, within marks
	static thread_local const Lang* last = nullptr; static thread_local Lang in, out;
	if (last != &l) { in = ref::both(framed(), l); out = ref::minus(framed(), l); last = &l; }
	return ref::toBytes(ref::randomWord(s, s.coin() ? in : out, 25));
}
static void wrapper(Src& s, Ctx& ctx) {
	Made m = generated(s);
	ctx.describe(m.d);
	std::unique_ptr<Regexp> r;
	try { r.reset(new Regexp(wrap(m.re, m.o, s))); } catch (P::Error& e) { fail(str(m.d, " is refused: ", e.what())); }
	std::unique_ptr<Regexp> again(new Regexp(wrap(m.re, m.o, s)));
	size_t yes = 0, no = 0;
	for (int i = 0; i < 12; ++i) {
		std::string t = text(s, m.lang);
		bool want = m.lang.accepts(ref::marked(t));
		bool got = matchesAll(*r, t, m.d, s);
		if (want != got) fail(str(m.d, got ? " is found in " : " is not found in ", show(t)));
		if (again->Matches(t) != want) fail(str(m.d, " with the options given in another way differs on ", show(t)));
		(want ? yes : no)++; ctx.count();
	}
	if (yes && no) ctx.nontrivial(m.d); else ctx.label("one-sided");
	if (m.o.ci) ctx.label("I"); if (m.o.utf8) ctx.label("UTF8"); if (m.o.andnot) ctx.label("ANDNOT");
}
// ready scanners, and copies through a history
static void objects(Src& s, Ctx& ctx) {
	struct Slot { std::unique_ptr<Regexp> r; size_t v; };
	std::vector<Lang> langs; std::vector<Regexp> originals; std::vector<std::string> names; std::vector<char> scanner;
	size_t n = 2 + s.below(2);
	std::string d;
	for (size_t i = 0; i < n; ++i) {
		Made m = generated(s);
		int way = s.below(3);
		if (way == 0) originals.push_back(wrap(m.re, m.o, s));
		else {
			// a ready scanner is used as given: nothing is added around the pattern
			P::Fsm f; std::string frame = s.coin() ? "surrounded " : "";
			ParseOpts po; po.utf8 = m.o.utf8; po.ci = m.o.ci; po.andnot = m.o.andnot;
			f = parse(m.re, po);
			if (f.Size() > 100) discard();
			try { m.lang = langOf(f); if (!frame.empty()) { f.Surround(); m.lang = ref::surrounded(m.lang); } } catch (ref::TooBig&) { discard(); }
			if (way == 1) { P::Fsm c(f); if (!c.Determine(2000)) discard(); originals.push_back(Regexp(c.Compile<P::Scanner>())); m.d = frame + "Scanner of " + m.d; }
			else { originals.push_back(Regexp(P::SlowScanner(f))); m.d = frame + "SlowScanner of " + m.d; }
		}
		langs.push_back(m.lang); names.push_back(m.d); d += (i ? ", " : "") + m.d; scanner.push_back(way != 0);
	}
	if (s.chance(1, 6)) { // empty ones
		originals.push_back(s.coin() ? Regexp(P::Scanner()) : Regexp(P::SlowScanner())); langs.push_back(ref::none()); names.push_back("an empty scanner"); d += ", an empty scanner";
	}
	ctx.describe(d);
	std::vector<Slot> slots(3);
	auto check = [&](Slot& x, const char* what) {
		if (!x.r) return;
		for (int i = 0; i < 3; ++i) {
			std::string t = text(s, langs[x.v]);
			bool want = langs[x.v].accepts(ref::marked(t)), got = matchesAll(*x.r, t, names[x.v], s);
			if (want != got) fail(str(d, ": ", names[x.v], " ", what, got ? " is found in " : " is not found in ", show(t)));
			ctx.count();
		}
	};
	for (size_t i = 0; i < originals.size(); ++i) { Slot x; x.v = i; x.r.reset(new Regexp(originals[i])); check(x, "copied"); }
	size_t steps = s.below(12);
	for (size_t k = 0; k < steps; ++k) {
		Slot& a = slots[s.below(slots.size())]; Slot& b = slots[s.below(slots.size())];
		switch (s.below(7)) {
		case 0: { size_t v = s.below(originals.size()); a.r.reset(new Regexp(originals[v])); a.v = v; check(a, "copied"); break; }
		case 1: if (a.r && b.r) { *a.r = *b.r; a.v = b.v; check(a, "assigned"); check(b, "assigned from"); } break;
		case 2: if (b.r && &a != &b) { a.r.reset(new Regexp(std::move(*b.r))); a.v = b.v; b.r.reset(); check(a, "moved"); } break;
		case 3: if (a.r) { Regexp& x = *a.r; x = *a.r; check(a, "assigned itself"); } break;
		case 4: if (a.r && b.r) { using std::swap; swap(*a.r, *b.r); std::swap(a.v, b.v); check(a, "swapped"); check(b, "swapped"); } break;
		case 5: if (a.r) { size_t v = s.below(originals.size()); *a.r = originals[v]; a.v = v; check(a, "assigned from the original"); } break;
		case 6: if (b.r) { std::vector<Regexp> v; for (int i = 0; i < 5; ++i) v.push_back(*b.r); v.erase(v.begin()); a.r.reset(new Regexp(v[s.below(4)])); a.v = b.v; check(a, "out of a vector"); } break;
		}
	}
	for (auto& x : slots) check(x, "at the end");
	if (steps > 3) ctx.nontrivial(d);
}
// both-anchored patterns mean the whole text; markless and half-anchored ones a substring, prefix or suffix: decided by spans of the text itself
static void spans(Src& s, Ctx& ctx) {
	pat::Options o; o.marks = false; o.letters = "ab"; o.depth = 2; o.maxTerms = 7; o.andnot = s.chance(1, 4);
	pat::Pattern p = pat::generate(s, o);
	ctx.describe(show(p.text));
	auto make = [&](const std::string& re) { return o.andnot ? Regexp(re, P::ANDNOT) : Regexp(re); };
	Regexp plain = make(p.text), begin = make("^(" + p.text + ")"), end = make("(" + p.text + ")$"), whole = make("^(" + p.text + ")$");
	size_t found = 0;
	for (int i = 0; i < 10; ++i) {
		std::string t; size_t n = s.below(9); while (n--) t += "abc"[s.below(3)];
		pat::Spans sp = pat::spans(p.tree, false, ref::toWord(t));
		bool any = false, pre = false, suf = false, all = sp[0] >> t.size() & 1;
		for (size_t a = 0; a <= t.size(); ++a) for (size_t b = a; b <= t.size(); ++b) if (sp[a] >> b & 1) { any = true; if (!a) pre = true; if (b == t.size()) suf = true; }
		if (o.andnot) { /* a negated part also spans the marks; only the fully anchored form is bounded by them */ any = any || plain.Matches(t); pre = pre || begin.Matches(t); suf = suf || end.Matches(t); }
		auto expect = [&](const Regexp& r, bool want, const std::string& d) { if (r.Matches(t) != want) fail(str(d, want ? " is not found in " : " is found in ", show(t))); ctx.count(); };
		expect(plain, any, p.text);
		expect(begin, pre, "^(" + p.text + ")");
		expect(end, suf, "(" + p.text + ")$");
		expect(whole, all, "^(" + p.text + ")$");
		found += any;
	}
	if (found && p.text.size() > 1) ctx.nontrivial(p.text);
}
static void malformed(Src& s, Ctx& ctx) {
	Made m = generated(s);
	std::string bad = m.re; Opts o = m.o; o.utf8 = o.utf8 || s.coin(); o.latin1 = false;
	switch (s.below(o.utf8 ? 5 : 4)) {
	case 0: bad += ")"; break;
	case 1: bad = "(" + bad; break;
	case 2: bad += "|*"; break;
	case 3: bad += "\xFF"; break;
	case 4: bad += "\xD0"; break;
	}
	ctx.describe(showOpts(o) + show(bad));
	try { Regexp r = wrap(bad, o, s); } catch (P::Error& e) { ctx.nontrivial(showOpts(o) + bad); ctx.count(); return; }
	fail(showOpts(o) + show(bad) + " is accepted");
}
// an expression whose deterministic automaton is too large falls back to the slow engine
static void slow(Src& s, Ctx& ctx) {
	static const char* res[] = {"a.{18}b", "^(a|b)*a(a|b){18}$", "x(a|b)*a[ab]{19}c"};
	std::string re = res[ctx.index];
	ctx.describe(re);
	Regexp r0(re); Regexp r(r0); Regexp r2("y"); r2 = r;
	size_t yes = 0;
	for (int i = 0; i < 400; ++i) {
		std::string t; bool want = false;
		if (ctx.index == 0) { size_t n = s.below(40); while (n--) t += "ab\nc"[s.below(4)]; for (size_t k = 0; k + 19 < t.size(); ++k) if (t[k] == 'a' && t[k + 19] == 'b') want = true; }
		else if (ctx.index == 1) { size_t n = s.below(50); while (n--) t += s.chance(1, 60) ? 'c' : "ab"[s.below(2)]; want = t.size() > 18 && t[t.size() - 19] == 'a' && t.find('c') == std::string::npos; }
		else {
			size_t n = s.below(60); while (n--) t += s.chance(1, 12) ? 'c' : s.chance(1, 12) ? 'x' : "ab"[s.below(2)];
			for (size_t k = 0; k < t.size() && !want; ++k) if (t[k] == 'x') for (size_t e = k + 1; e < t.size() && t[e] != 'x'; ++e) if (t[e] == 'c') { if (e - k > 20 && t[e - 20] == 'a') want = true; break; }
		}
		yes += want;
		if (matchesAll(r, t, re, s) != want) fail(re + (want ? " is not found in " : " is found in ") + show(t));
		if (r2.Matches(t) != want || r0.Matches(t) != want) fail(re + ": copies differ on " + show(t));
		ctx.count();
	}
	ctx.label(str("of 400 texts matched: ", yes > 20 ? "more than 20" : "few"));
	ctx.nontrivial(re);
}
int main(int argc, char** argv) {
	Suite s;
	s.id = "C13";
	s.rule = "expressions with both matching and non-matching texts (wrapper), histories of more than 3 steps (objects), expressions found at least once (spans)";
	s.assumptions = {"patterns up to 8 terms, texts up to 60 bytes; case-insensitive patterns use ASCII letters (C18 goes further)", "the slow engine is reached by two expressions whose deterministic automata exceed 200000 states, and by ready SlowScanners"};
	s.caseCpuLimit = 240;
	s.laws = {
		{"wrapper", 1500, 60000, wrapper},
		{"objects", 450, 20000, objects, false, true},
		{"spans", 1300, 50000, spans},
		{"malformed", 500, 10000, malformed},
		{"slow", 2, 3, slow, false},
	};
	return run(s, argc, argv);
}
