// C03: automaton building operations denote the matching language operations (stateful, model based).
#include "pireutil.h"
using namespace pbt;
using namespace pu;
namespace P = Pire;

struct Slot { P::Fsm f; Lang l; std::string text; };

static const size_t MaxLang = 40;
static const size_t MaxFsm = 300;

static char genByte(Src& s) { return (char)s.oneOf<int>({'a', 'b', 'c', 0x80, 0xFF, 0, '\n', 'z'}); }
static std::string genStr(Src& s, size_t lo, size_t hi) { size_t n = s.len(lo, hi); std::string r; while (n--) r += genByte(s); return r; }

static const char* opNames[] = {"Append(char)", "Append(str)", "AppendStrings", "AppendDot", "AppendSpecial", "Utf8Dot", "+=", "|=", "&=", "*=n", "Iterate", "Complement",
	"PrependAnything", "AppendAnything", "Surround", "Reverse", "MakePrefix", "MakeSuffix", "+", "|", "&", "unary *", "~", "* n", "Surrounded", "copy", "MakeFalse", "RemoveDeadEnds", "Swap", "Canonize, Unsparse"};
enum { NOPS = sizeof(opNames) / sizeof(*opNames) };

static void history(Src& src, Ctx& ctx) {
	std::vector<Slot> pool;
	size_t n = 1 + src.below(3);
	std::string log;
	for (size_t i = 0; i < n; ++i) {
		Slot s;
		switch (src.below(4)) {
		case 0: s.f = P::Fsm(); s.l = ref::epsilon(); s.text = "eps"; break;
		case 1: { std::string t = genStr(src, 1, 3); s.f.Append(t); s.l = ref::word(ref::toWord(t)); s.text = show(t); break; }
		case 2: s.f = P::Fsm::MakeFalse(); s.l = ref::none(); s.text = "none"; break;
		default: { std::string t = genStr(src, 1, 2); s.f.Append(t).Iterate(); s.l = ref::star(ref::word(ref::toWord(t))); s.text = show(t) + "*"; break; }
		}
		log += str("f", i, "=", s.text, "; ");
		pool.push_back(s);
	}
	size_t steps = src.len(1, ctx.thorough ? 14 : 9);
	size_t applied = 0;
	std::set<int> kinds;
	for (size_t st = 0; st < steps; ++st) {
		int op = (int)src.below(NOPS);
		if (src.chance(1, 6)) op = src.coin() ? 7 : 28;   // unions remember how they were made: interleave them with exchanges
		size_t a = src.below(pool.size()), b = src.below(pool.size());
		Slot& A = pool[a]; Slot& B = pool[b];
		P::Fsm copyA; bool keepCopy = st % 4 == 3; if (keepCopy) copyA = A.f;
		Lang before = A.l, lb = B.l, r;
		std::string what = str("f", a);
		size_t cost = A.f.Size();
		if (op == 6 || op == 7 || op == 8 || (op >= 18 && op <= 20)) cost += B.f.Size();
		if (cost > MaxFsm) continue;
		try {
			switch (op) {
			case 0: { char c = genByte(src); what += str(".Append(", show(std::string(1, c)), ")"); r = ref::cat(A.l, ref::sym((unsigned char)c)); A.f.Append(c); break; }
			case 1: { std::string t = genStr(src, 0, 4); what += str(".Append(", show(t), ")"); r = ref::cat(A.l, ref::word(ref::toWord(t))); A.f.Append(t); break; }
			case 2: {
				P::TVector<P::ystring> v; std::vector<Word> ws;
				size_t k = src.below(4) + (src.chance(1, 12) ? 0 : 1);
				what += ".AppendStrings(";
				for (size_t i = 0; i < k; ++i) { std::string t = genStr(src, 1, 4); v.push_back(t); ws.push_back(ref::toWord(t)); what += show(t) + " "; }
				what += ")";
				if (!k) continue;
				r = ref::cat(A.l, ref::words(ws)); A.f.AppendStrings(v); break; }
			case 3: what += ".AppendDot()"; r = ref::cat(A.l, ref::chars(ref::bytes())); A.f.AppendDot(); break;
			case 4: { int c = src.coin() ? EM : BM; what += str(".AppendSpecial(", c, ")"); r = ref::cat(A.l, ref::sym(c)); A.f.AppendSpecial(c); break; }
			case 5: what += ".Utf8Dot"; r = ref::cat(A.l, ref::utf8Dot()); P::Encodings::Utf8().AppendDot(A.f); break;
			case 6: what += str(" += f", b); r = ref::cat(A.l, lb); A.f += B.f; break;
			case 7: what += str(" |= f", b); r = ref::alt(A.l, lb); A.f |= B.f; break;
			case 8: what += str(" &= f", b); r = ref::both(A.l, lb); A.f &= B.f; break;
			case 9: { size_t k = src.below(4); if (cost * k > MaxFsm) continue; what += str(" *= ", k); r = ref::power(A.l, k); A.f *= k; break; }
			case 10: what += ".Iterate()"; r = ref::star(A.l); A.f.Iterate(); break;
			case 11: what += ".Complement()"; r = ref::inverse(A.l); A.f.Complement(); break;
			case 12: what += ".PrependAnything()"; r = ref::cat(ref::anything(), A.l); A.f.PrependAnything(); break;
			case 13: what += ".AppendAnything()"; r = ref::cat(A.l, ref::anything()); A.f.AppendAnything(); break;
			case 14: what += ".Surround()"; r = ref::surrounded(A.l); A.f.Surround(); break;
			case 15: what += ".Reverse()"; r = ref::reversed(A.l); A.f.Reverse(); break;
			case 16: what += ".MakePrefix()"; r = ref::prefixes(A.l); A.f.MakePrefix(); break;
			case 17: what += ".MakeSuffix()"; r = ref::suffixes(A.l); A.f.MakeSuffix(); break;
			case 18: what += str(" = f", a, " + f", b); r = ref::cat(A.l, lb); { P::Fsm t = A.f + B.f; expectFsm(A.f, before, log + "operand of " + what); A.f = t; } break;
			case 19: what += str(" = f", a, " | f", b); r = ref::alt(A.l, lb); { P::Fsm t = A.f | B.f; expectFsm(A.f, before, log + "operand of " + what); A.f = t; } break;
			case 20: what += str(" = f", a, " & f", b); r = ref::both(A.l, lb); { P::Fsm t = A.f & B.f; expectFsm(A.f, before, log + "operand of " + what); A.f = t; } break;
			case 21: what += str(" = *f", a); r = ref::star(A.l); { P::Fsm t = *A.f; expectFsm(A.f, before, log + "operand of " + what); A.f = t; } break;
			case 22: what += str(" = ~f", a); r = ref::inverse(A.l); { P::Fsm t = ~A.f; expectFsm(A.f, before, log + "operand of " + what); A.f = t; } break;
			case 23: { size_t k = src.below(4); if (cost * k > MaxFsm) continue; what += str(" = f", a, " * ", k); r = ref::power(A.l, k); { P::Fsm t = A.f * k; expectFsm(A.f, before, log + "operand of " + what); A.f = t; } break; }
			case 24: what += str(" = f", a, ".Surrounded()"); r = ref::surrounded(A.l); { P::Fsm t = A.f.Surrounded(); expectFsm(A.f, before, log + "operand of " + what); A.f = t; } break;
			case 25: what += str(" = f", b); r = lb; A.f = B.f; break;
			case 26: what += " = MakeFalse()"; r = ref::none(); A.f = P::Fsm::MakeFalse(); break;
			case 29: what += ".Canonize().Unsparse()"; r = A.l; A.f.Canonize(); A.f.Unsparse(); break;
			case 28: what += str(".Swap(f", b, ")"); r = lb; A.f.Swap(B.f); B.l = before; lb = before; break;
			default: what += ".RemoveDeadEnds()"; r = A.l; A.f.RemoveDeadEnds(); break;
			}
		} catch (ref::TooBig&) { continue; }
		log += what + "; ";
		ctx.describe(log);
		ctx.label(opNames[op]);
		if (a == b && (op >= 6 && op <= 8)) ctx.label("self operand");
		++applied; kinds.insert(op);
		A.l = r;
		expectFsm(A.f, r, log, &ctx);
		if (a == b && op == 28) A.l = r = before;
		if (a != b && op >= 6 && (op <= 8 || op >= 18)) expectFsm(B.f, lb, log + "(other operand)", &ctx);
		if (keepCopy) expectFsm(copyA, before, log + "(copy taken before the operation)", &ctx);
		if (r.size() > MaxLang) { A.f = P::Fsm(); A.f.Append('a'); A.l = ref::sym('a'); log += str("f", a, "='a'; "); }
	}
	// compiled form agrees too
	for (auto& s : pool) {
		if (s.f.Size() > 300) continue;
		P::Fsm c(s.f);
		P::Scanner sc = c.Compile<P::Scanner>();
		expectScanner(sc, s.l, log + "compiled scanner", &ctx);
	}
	if (applied >= 2 && kinds.size() >= 2) ctx.nontrivial(log);
}

// algebraic identities on random operands, decided on the automata alone (independent of the reference's operations)
static P::Fsm genFsm(Src& s, int depth, std::string& t) {
	if (depth == 0 || s.chance(1, 3)) {
		switch (s.below(5)) {
		case 0: { std::string w = genStr(s, 1, 3); t += show(w); return P::Fsm().Append(w); }
		case 1: t += "eps"; return P::Fsm();
		case 2: t += "."; return P::Fsm().AppendDot();
		case 3: t += "none"; return P::Fsm::MakeFalse();
		default: t += "^"; return P::Fsm().AppendSpecial(s.coin() ? P::BeginMark : P::EndMark);
		}
	}
	switch (s.below(5)) {
	case 0: { t += "("; P::Fsm a = genFsm(s, depth - 1, t); t += "+"; a += genFsm(s, depth - 1, t); t += ")"; return a; }
	case 1: { t += "("; P::Fsm a = genFsm(s, depth - 1, t); t += "|"; a |= genFsm(s, depth - 1, t); t += ")"; return a; }
	case 2: { t += "("; P::Fsm a = genFsm(s, depth - 1, t); t += ")*"; return a.Iterate(); }
	case 3: { t += "~("; P::Fsm a = genFsm(s, depth - 1, t); t += ")"; return a.Complement(); }
	default: { t += "("; P::Fsm a = genFsm(s, depth - 1, t); t += "&"; a &= genFsm(s, depth - 1, t); t += ")"; return a; }
	}
}
static void same(const P::Fsm& x, const P::Fsm& y, const std::string& what) {
	Word w; Lang a = langOf(x), b = langOf(y);
	if (ref::differ(a, b, &w)) fail(str(what, ": the two sides differ on ", showWord(w), " (left ", a.accepts(w) ? "accepts" : "refuses", ")"));
}
static void identities(Src& src, Ctx& ctx) {
	std::string ta, tb, tc;
	P::Fsm a = genFsm(src, 2, ta), b = genFsm(src, 2, tb), c = genFsm(src, 1, tc);
	std::string d = "a=" + ta + " b=" + tb + " c=" + tc;
	ctx.describe(d);
	if (a.Size() + b.Size() + c.Size() > 250) discard();
	try {
		same((a + b) + c, a + (b + c), d + " (a+b)+c = a+(b+c)");
		same(a | b, b | a, d + " a|b = b|a");
		same(a | a, a, d + " a|a = a");
		same((a | b) + c, (a + c) | (b + c), d + " (a|b)c = ac|bc");
		same(**a, *a, d + " a** = a*");
		same(~(a | b), ~a & ~b, d + " ~(a|b) = ~a & ~b");
		same(~~a, a, d + " ~~a = a");
		same(*a, P::Fsm() | (a + *a), d + " a* = eps|aa*");
		{ P::Fsm x(a + b), y(b), z(a); x.Reverse(); y.Reverse(); z.Reverse(); same(x, y + z, d + " rev(ab) = rev b rev a"); }
		{ P::Fsm x(a); x.Reverse(); x.Reverse(); same(x, a, d + " rev rev a = a"); }
		{ P::Fsm x(a); x.MakePrefix(); same(x | a, x, d + " a within prefixes"); P::Fsm y(x); y.MakePrefix(); same(x, y, d + " prefix idempotent"); }
		{ P::Fsm x(a); x.MakeSuffix(); same(x | a, x, d + " a within suffixes"); P::Fsm y(x); y.MakeSuffix(); same(x, y, d + " suffix idempotent"); }
		{ P::Fsm x(a), y(a); x.MakeSuffix(); y.Reverse(); y.MakePrefix(); y.Reverse(); same(x, y, d + " suffixes = rev prefixes rev"); }
		same(a * 3, a + a + a, d + " a*3 = aaa");
		ctx.count(15);
	} catch (ref::TooBig&) { discard(); }
	if (a.Size() > 1 && b.Size() > 1) ctx.nontrivial(d);
}

// minimal inputs of the defects this check found, kept as plain checks
static void regressions(Src&, Ctx& ctx) {
	typedef P::Fsm F;
	auto exp = [&](const F& f, const Lang& l, const char* w) { ctx.describe(w); expectFsm(f, l, w, &ctx); };
	Lang a = ref::sym('a'), b = ref::sym('b'), e = ref::epsilon();
	switch (ctx.index) {
	case 0: exp(F().Append('a') + F(), a, "a + eps"); break;
	case 1: exp(F() + F(), e, "eps + eps"); break;
	case 2: { F x = F().Append('a'); x += *F().Append('b'); exp(x, ref::cat(a, ref::star(b)), "a + b*"); break; }
	case 3: { F x = F() | F().Append('b'); exp(F().Append('a') + x, ref::cat(a, ref::alt(b, e)), "a + (eps|b)"); break; }
	case 4: { F x = F().Append('x'); x.Complement(); x.Append('z'); exp(x, ref::cat(ref::inverse(ref::sym('x')), ref::sym('z')), "~x + z"); break; }
	case 5: { F x = F().Append('x'); x.Complement(); x.AppendDot(); exp(x, ref::cat(ref::inverse(ref::sym('x')), ref::chars(ref::bytes())), "~x + ."); break; }
	case 6: { F x = F().Append('x'); x += x; exp(x, ref::word({'x', 'x'}), "x += x"); break; }
	case 7: { F x = F().Append('x'); x |= x; exp(x, ref::sym('x'), "x |= x"); break; }
	case 8: { F x = F::MakeFalse().Append('a'); x.MakeSuffix(); exp(x, ref::none(), "suffixes of nothing"); break; }
	case 9: { F x = *F().Append("ab"); x.MakeSuffix(); exp(x, ref::suffixes(ref::star(ref::word({'a', 'b'}))), "suffixes of (ab)*"); break; }
	case 10: { F x = F().Append("ab"); x |= F().Append("c"); x |= x; exp(x, ref::words({{'a', 'b'}, {'c'}}), "(ab|c) |= itself"); break; }
	case 11: { F x = F().Append("ab"); x &= x; exp(x, ref::word({'a', 'b'}), "x &= x"); break; }
	case 12: { F x = F().Append('a'); x.Determine(); F y = x; x = F::MakeFalse(); x.Append('b'); exp(x, ref::none(), "assigned over a determined one"); break; }
	}
}

// sets of hundreds of strings, added at once or one by one: the same language
static void many(Src& src, Ctx& ctx) {
	static const size_t marks[] = {10, 60, 127, 128, 129, 255, 256, 257, 400, 700};
	size_t n = marks[src.below(ctx.thorough ? 10 : 9)], style = src.below(5), before = src.below(3);
	std::vector<std::string> v; std::vector<Word> ws;
	std::string stem; if (style == 3) stem = genStr(src, 1, 5);
	for (size_t i = 0; i < n; ++i) {
		std::string t;
		switch (style) {
		case 0: t = genStr(src, 1, 6); break;
		case 1: t = std::string(1 + i % 40, 'a'); if (i >= 40) t += genStr(src, 0, 2); break;                    // prefixes of one another
		case 2: t = std::string(1, (char)(i % 256)) + genStr(src, 0, 2); break;                                  // every first byte
		case 3: t = stem + genStr(src, 0, 4); break;                                                              // a common beginning
		default: t = v.empty() || !src.chance(1, 4) ? genStr(src, 1, 4) : v[src.below(v.size())]; if (src.chance(1, 6)) t = std::string(t.rbegin(), t.rend()); // with repetitions
		}
		v.push_back(t); ws.push_back(ref::toWord(t));
	}
	std::string d = str(n, " strings of style ", style, " after ", before == 0 ? "nothing" : before == 1 ? "a" : "a*", ": ", show(v[0]), " ", show(v[1]), " ... ", show(v.back()));
	ctx.describe(d);
	Lang l = before == 0 ? ref::epsilon() : before == 1 ? ref::sym('a') : ref::star(ref::sym('a'));
	P::Fsm f; if (before) f.Append('a'); if (before == 2) f.Iterate();
	std::sort(ws.begin(), ws.end()); ws.erase(std::unique(ws.begin(), ws.end()), ws.end());
	try { l = ref::cat(l, ref::words(ws)); } catch (ref::TooBig&) { discard(); }
	P::Fsm a(f); a.AppendStrings(P::TVector<P::ystring>(v.begin(), v.end()));
	expectFsm(a, l, d + ", AppendStrings", &ctx);
	{ P::Fsm x(a); P::Scanner sc = x.Compile<P::Scanner>(); expectScanner(sc, l, d + ", AppendStrings, compiled", &ctx); }
	if (n <= 260) {
		P::Fsm u = P::Fsm::MakeFalse();
		for (auto& t : v) u |= P::Fsm().Append(t);
		P::Fsm b(f); b += u;
		expectFsm(b, l, d + ", united", &ctx);
		if (src.coin()) { P::Scanner sc = b.Compile<P::Scanner>(); expectScanner(sc, l, d + ", united, compiled", &ctx); }
	}
	{ P::Fsm x(a); x.Append('z'); x.Reverse(); expectFsm(x, ref::reversed(ref::cat(l, ref::sym('z'))), d + ", AppendStrings, Append(z), Reverse", &ctx); }
	ctx.label(str("style ", style)); ctx.nontrivial(d);
}
int main(int argc, char** argv) {
	Suite s;
	s.id = "C03";
	s.rule = "a history with at least two applied operations of at least two kinds; identities: operands a and b with more than one state; distinct by the printed history";
	s.assumptions = {"automata up to 300 states and languages up to 40 minimal states per history step"};
	s.laws = {
		{"history", 9000, 700000, history},
		{"identities", 1500, 100000, identities},
		{"many", 250, 8000, many},
		{"regressions", 13, 13, regressions, true},
	};
	return run(s, argc, argv);
}
