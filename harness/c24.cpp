// C24: lexer extensions are consulted by priority and see every token, against a model of lexing and parsing.
#include "pireutil.h"
#include <climits>
using namespace pbt;
using namespace pu;
namespace P = Pire;
typedef uint32_t U;

static const U Ctl = P::Consts::Control, End = P::Consts::End;
static std::string showU(U c) { return c == End ? "<end>" : ((c & Ctl) ? "\\" : "") + ((c & ~Ctl) < 127 && (c & ~Ctl) > 31 ? std::string(1, (char)(c & ~Ctl)) : str("#", c & ~Ctl)); }

enum Tok { Letters, Count, Dot, Open, Close, Or, And, Not, Begin, EndM, Eof };
static const char* tokName[] = {"letters", "count", "dot", "(", ")", "|", "&", "~", "^", "$", "eof"};
struct Token { Tok t = Eof; std::set<std::vector<U>> strs; bool neg = false; int lo = 0, hi = 0; };
static std::string showTok(const Token& t) {
	std::string s = tokName[t.t];
	if (t.t == Letters) { s += t.neg ? " not" : ""; for (auto& x : t.strs) { s += " "; for (U c : x) s += showU(c); } }
	if (t.t == Count) s += str(" ", t.lo, ",", t.hi);
	return s;
}
static Token letter(U c) { Token t; t.t = Letters; t.strs.insert(std::vector<U>(1, c)); return t; }

struct Spec {
	int id; int prio; std::set<U> accepts;
	int lex = 0;      // 0 declines; 1 reads some, puts it back and declines; 2 makes a token out of what it read
	int reads = 1; Token makes;
	int alter = 0;    // what happens to tokens: 0 nothing
	U from = 0; Token to; Tok which = Letters;
	int paren = 0; U pch = 0;
	bool caseless = false;   // stands for the built-in option: not logged
};
struct Log { std::vector<std::string> lex; std::vector<std::pair<int, ref::Lang>> paren; };

// ---- what the library does
static P::Term toTerm(const Token& t) {
	switch (t.t) {
	case Letters: { P::Term::CharacterRange r; r.second = t.neg; for (auto& s : t.strs) r.first.insert(P::Term::String(s.begin(), s.end())); return P::Term(P::TokenTypes::Letters, r); }
	case Count: return P::Term::Repetition(t.lo, t.hi);
	case Dot: return P::Term::Dot();
	case Open: return P::Term(P::TokenTypes::Open);
	case Close: return P::Term(P::TokenTypes::Close);
	case Or: return P::Term(P::TokenTypes::Or);
	case And: return P::Term(P::TokenTypes::And);
	case Not: return P::Term(P::TokenTypes::Not);
	case Begin: return P::Term::BeginMark();
	case EndM: return P::Term::EndMark();
	default: return P::Term(P::TokenTypes::End);
	}
}
static Token fromTerm(const P::Term& t) {
	Token r;
	switch (t.Type()) {
	case P::TokenTypes::Letters: { r.t = Letters; const auto& c = t.Value().As<P::Term::CharacterRange>(); r.neg = c.second; for (auto& s : c.first) r.strs.insert(std::vector<U>(s.begin(), s.end())); break; }
	case P::TokenTypes::Count: { r.t = Count; const auto& c = t.Value().As<P::Term::RepetitionCount>(); r.lo = c.first; r.hi = c.second; break; }
	case P::TokenTypes::Dot: r.t = Dot; break;
	case P::TokenTypes::Open: r.t = Open; break;
	case P::TokenTypes::Close: r.t = Close; break;
	case P::TokenTypes::Or: r.t = Or; break;
	case P::TokenTypes::And: r.t = And; break;
	case P::TokenTypes::Not: r.t = Not; break;
	case P::TokenTypes::BeginMark: r.t = Begin; break;
	case P::TokenTypes::EndMark: r.t = EndM; break;
	case P::TokenTypes::End: r.t = Eof; break;
	default: fail(str("an extension was given a token of unknown type ", t.Type()));
	}
	return r;
}
// how tokens are altered, used by both sides
static bool altered(const Spec& s, Token& t) {
	switch (s.alter) {
	case 1: if (t.t == Letters && t.strs.count(std::vector<U>(1, s.from))) { if (s.to.t == Letters) { t.strs.erase(std::vector<U>(1, s.from)); t.strs.insert(s.to.strs.begin(), s.to.strs.end()); } else t = s.to; return true; } break;
	case 2: if (t.t == s.which && t.t != Letters) { t = s.to; return true; } break;
	case 3: if (t.t == Count) { t.lo = s.to.lo; t.hi = s.to.hi; return true; } break;
	}
	return false;
}
static void parenFsm(const Spec& s, P::Fsm& f) {
	P::Fsm x; x.Append((char)s.pch);
	switch (s.paren) { case 1: f.Append((char)s.pch); break; case 2: f |= x; break; case 3: f.Iterate(); break; case 4: x += f; f = x; break; }
}
static ref::Lang parenLang(const Spec& s, const ref::Lang& l) {
	ref::Lang x = ref::sym((int)s.pch);
	switch (s.paren) { case 1: return ref::cat(l, x); case 2: return ref::alt(l, x); case 3: return ref::star(l); case 4: return ref::cat(x, l); }
	return l;
}
class Rec: public P::Feature {
public:
	Rec(const Spec& s, Log& l, const P::Encoding*& enc): m_s(s), m_log(l), m_enc(enc) {}
	int Priority() const override { return m_s.prio; }
	bool Accepts(P::wchar32 c) const override { bool r = m_s.accepts.count(c) != 0; m_log.lex.push_back(str(m_s.id, " offered ", showU(c))); return r; }
	P::Term Lex() override {
		m_enc = &Encoding();
		std::vector<P::wchar32> got; std::string d;
		if (PeekChar() != 0 || true) d = showU(PeekChar());
		if (m_s.lex) for (int i = 0; i < m_s.reads; ++i) { got.push_back(GetChar()); d += " " + showU(got.back()); }
		m_log.lex.push_back(str(m_s.id, " reads ", d));
		if (m_s.lex == 2) return toTerm(m_s.makes);
		while (!got.empty()) { UngetChar(got.back()); got.pop_back(); }
		return P::Term(0);
	}
	void Alter(P::Term& t) override { Token k = fromTerm(t); m_log.lex.push_back(str(m_s.id, " sees ", showTok(k))); if (altered(m_s, k)) t = toTerm(k); }
	void Parenthesized(P::Fsm& f) override { m_log.paren.push_back({m_s.id, langOf(f)}); parenFsm(m_s, f); }
private:
	Spec m_s; Log& m_log; const P::Encoding*& m_enc;
};

// ---- the model
struct SyntaxError {};
struct Model {
	std::vector<U> in; size_t pos = 0;
	std::vector<Spec> asc;   // by priority; the built-in readers stand at 50 but are never needed here
	bool utf8 = false;
	Log log; Token cur; size_t tokens = 0;

	Token lexOne() {
		Token t; bool made = false;
		U ch = pos < in.size() ? in[pos] : End;
		if (ch != End) {
			for (auto& s : asc) {
				if (s.caseless) continue;
				log.lex.push_back(str(s.id, " offered ", showU(ch)));
				if (!s.accepts.count(ch)) continue;
				std::string d = showU(ch); size_t p = pos;
				if (s.lex) for (int i = 0; i < s.reads; ++i) { d += " " + showU(p < in.size() ? in[p] : End); if (p < in.size()) ++p; }
				log.lex.push_back(str(s.id, " reads ", d));
				if (s.lex == 2) { pos = p; t = s.makes; made = true; break; }
			}
			if (!made) {
				++pos;
				switch (ch) {
				case '|': t.t = Or; break; case '(': t.t = Open; break; case ')': t.t = Close; break; case '.': t.t = Dot; break; case '^': t.t = Begin; break; case '$': t.t = EndM; break;
				case '*': t.t = Count; t.lo = 0; t.hi = -1; break; case '+': t.t = Count; t.lo = 1; t.hi = -1; break; case '?': t.t = Count; t.lo = 0; t.hi = 1; break;
				default: if (ch & Ctl) { U c = ch & ~Ctl; if (!strchr("|().*+?^$\\", (int)c)) throw SyntaxError(); t = letter(c); } else t = letter(ch);
				}
			}
		}
		for (size_t i = asc.size(); i--; ) {
			const Spec& s = asc[i];
			if (s.caseless) { if (t.t == Letters) { auto o = t.strs; for (auto& x : o) if (x.size() == 1 && x[0] < 128 && isalpha((int)x[0])) { t.strs.insert(std::vector<U>(1, toupper((int)x[0]))); t.strs.insert(std::vector<U>(1, tolower((int)x[0]))); } else if (x.size() == 1 && (x[0] == 0x44F || x[0] == 0x42F)) { t.strs.insert(std::vector<U>(1, 0x44F)); t.strs.insert(std::vector<U>(1, 0x42F)); } } continue; }
			log.lex.push_back(str(s.id, " sees ", showTok(t)));
			altered(s, t);
		}
		++tokens;
		return t;
	}
	void next() { cur = lexOne(); }
	void parens(ref::Lang& l) { for (size_t i = asc.size(); i--; ) if (!asc[i].caseless) { log.paren.push_back({asc[i].id, l}); l = parenLang(asc[i], l); if (l.size() > 40) throw ref::TooBig(); } }
	ref::Lang of(const Token& t) {
		ref::Lang dot = utf8 ? ref::utf8Dot() : ref::chars(ref::bytes());
		switch (t.t) {
		case Dot: return dot;
		case Begin: return ref::sym(ref::BM);
		case EndM: return ref::sym(ref::EM);
		default: { std::vector<ref::Word> ws; for (auto& s : t.strs) { ref::Word w; for (U c : s) if (utf8) for (unsigned char b : ref::utf8(c)) w.push_back(b); else w.push_back((int)c); ws.push_back(w); } ref::Lang l = ref::words(ws); return t.neg ? ref::minus(dot, l) : l; }
		}
	}
	ref::Lang alternative() { ref::Lang l = conjunction(); while (cur.t == Or) { next(); l = ref::alt(l, conjunction()); } return l; }
	ref::Lang conjunction() { ref::Lang l = negation(); while (cur.t == And) { next(); l = ref::both(l, negation()); } return l; }
	ref::Lang negation() { if (cur.t == Not) { next(); return ref::inverse(concatenation()); } return concatenation(); }
	ref::Lang concatenation() { ref::Lang l = ref::epsilon(); while (cur.t == Letters || cur.t == Dot || cur.t == Begin || cur.t == EndM || cur.t == Open) l = ref::cat(l, iteration()); return l; }
	ref::Lang iteration() {
		ref::Lang l = term();
		if (cur.t == Count) { l = ref::repeat(l, cur.lo, cur.hi); parens(l); next(); }
		return l;
	}
	ref::Lang term() {
		if (cur.t == Open) { next(); ref::Lang l = alternative(); if (cur.t != Close) throw SyntaxError(); parens(l); next(); return l; }
		ref::Lang l = of(cur); next(); return l;
	}
	ref::Lang parse() { next(); ref::Lang l = alternative(); if (cur.t != Eof) throw SyntaxError(); return l; }
};

static Spec genSpec(Src& s, int id, std::set<int>& used) {
	static const int prios[] = {0, 10, 49, 51, 60, 100, -1, -1000, INT_MAX, INT_MIN, 7, 8, 52, 1000000};
	Spec f; f.id = id;
	do f.prio = prios[s.below(14)]; while (!used.insert(f.prio).second);
	static const U chars[] = {'a', 'b', 'c', '(', ')', '|', '*', '.', '^', '+', '?', Ctl | 'q', Ctl | '(', Ctl | 'd', '[', '{', '&', '~', 0x44F};
	size_t n = s.below(4);
	while (n--) f.accepts.insert(chars[s.below(19)]);
	f.lex = (int)s.weighted({2, 3, 4});
	f.reads = 1 + (int)s.below(3);
	auto token = [&](int what) { Token t; switch (what) { case 0: t = letter(s.oneOf({(U)'x', (U)'a', (U)'b'})); break; case 1: t.t = Dot; break; case 2: t.t = Count; t.lo = (int)s.below(3); t.hi = s.coin() ? -1 : t.lo + (int)s.below(2); if (!t.lo && !t.hi) t.hi = 1; break; case 3: t.t = Letters; t.strs = {{(U)'x', (U)'y'}, {(U)'z'}}; break; case 4: t.t = Or; break; case 5: t.t = And; break; case 6: t.t = Not; break; case 7: t.t = Begin; break; case 8: t.t = Letters; t.strs = {{(U)'a'}, {(U)'x'}}; t.neg = true; break; case 9: t.t = Open; break; default: t.t = Close; } return t; };
	f.makes = token((int)s.weighted({6, 2, 2, 2, 2, 1, 1, 1, 2, 1, 1}));
	f.alter = (int)s.weighted({4, 3, 2, 1});
	f.from = s.oneOf({(U)'a', (U)'b', (U)'c', (U)'x'});
	if (f.alter == 1) f.to = token((int)s.weighted({4, 2, 0, 3, 1, 1, 0, 1, 2}));
	if (f.alter == 2) { f.which = s.oneOf({Dot, Begin, EndM, Or, Count}); f.to = f.which == Or ? token(s.coin() ? 5 : 4) : f.which == Count ? token(2) : token((int)s.weighted({4, 0, 0, 3, 0, 0, 0, 1, 1})); }
	if (f.alter == 3) f.to = token(2);
	f.paren = (int)s.weighted({4, 2, 2, 1, 2}); f.pch = s.oneOf({(U)'z', (U)'a', (U)'w'});
	return f;
}
static std::string pattern(Src& s, size_t depth) {
	std::string r; size_t n = s.below(4) + (depth == 2);
	static const char* units[] = {"a", "b", "c", ".", "^", "$", "\\q", "\\(", "\\|", "x", "\\\\", "&", "~", "\\."};
	for (size_t i = 0; i < n; ++i) {
		if (depth && s.chance(1, 4)) r += "(" + pattern(s, depth - 1) + ")";
		else r += units[s.weighted({5, 5, 5, 2, 1, 1, 2, 1, 1, 1, 1, 1, 1, 1})];
		if (s.chance(1, 4)) r += s.oneOf({"*", "+", "?"});
		if (s.chance(1, 8)) r += "|";
	}
	return r;
}

static void priorities(Src& src, Ctx& ctx) {
	std::set<int> used;
	std::vector<Spec> specs; size_t n = src.chance(1, 8) ? 5 + src.below(6) : 1 + src.below(4);
	for (size_t i = 0; i < n; ++i) specs.push_back(genSpec(src, (int)i, used));
	bool ci = src.chance(1, 4), utf8 = src.chance(1, 4);
	std::string text = pattern(src, 2);
	if (utf8 && src.coin()) text += "\xD1\x8F";
	std::vector<P::wchar32> in;
	(utf8 ? P::Encodings::Utf8() : P::Encodings::Latin1()).FromLocal(text.data(), text.data() + text.size(), std::back_inserter(in));
	std::string d = show(text) + (ci ? " caseless" : "") + (utf8 ? " utf-8" : "");
	for (auto& s : specs) { d += str("; ", s.id, " at ", s.prio, ": accepts"); for (U c : s.accepts) d += " " + showU(c); d += str(s.lex == 0 ? " declines" : s.lex == 1 ? str(" reads ", s.reads, " and declines") : str(" reads ", s.reads, " as ", showTok(s.makes))); if (s.alter) d += str(" alters", s.alter == 1 ? " " + showU(s.from) : s.alter == 2 ? str(" ", tokName[s.which]) : " count", " to ", showTok(s.to)); if (s.paren) d += str(" groups", s.paren, showU(s.pch)); }
	ctx.describe(d);

	Model m; m.utf8 = utf8; m.asc = specs;
	if (ci) { Spec c; c.id = -1; c.prio = 50; c.caseless = true; m.asc.push_back(c); }
	std::sort(m.asc.begin(), m.asc.end(), [](const Spec& a, const Spec& b) { return a.prio < b.prio; });
	for (size_t i = 0; i < in.size(); ++i) if (in[i] == '\\') { m.in.push_back(Ctl | in[i + 1]); ++i; } else m.in.push_back(in[i]);
	bool error = false; ref::Lang want;
	try { want = m.parse(); } catch (SyntaxError&) { error = true; } catch (ref::TooBig&) { discard(); }

	std::vector<size_t> order; for (size_t i = 0; i <= specs.size(); ++i) order.push_back(i);   // the last one is the built-in option
	for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[src.below(i)]);
	for (int round = 0; round < 2; ++round) {
		Log log; const P::Encoding* enc = nullptr;
		P::Lexer lx; lx.SetEncoding(utf8 ? P::Encodings::Utf8() : P::Encodings::Latin1());
		if (round) std::reverse(order.begin(), order.end());     // any other order of installation gives the same
		for (size_t i : order) {
			if (i == specs.size()) { if (ci) lx.AddFeature(P::Features::CaseInsensitive()); continue; }
			P::Feature::Ptr p(new Rec(specs[i], log, enc));
			if (i % 2) lx.AddFeature(p); else lx.AddFeature(std::move(p));
		}
		lx.Assign(in.begin(), in.end());
		P::Fsm f; bool threw = false;
		try { f = lx.Parse(); } catch (P::Error& e) { if (std::string(e.what()).find("complicated") != std::string::npos) discard(); threw = true; } catch (ref::TooBig&) { discard(); }
		if (threw != error) fail(str(d, threw ? ": refused" : ": accepted, a syntax error was expected"));
		if (error) { // up to the error everything is consulted as usual
			for (size_t i = 0; i < log.lex.size() && i < m.log.lex.size(); ++i) if (log.lex[i] != m.log.lex[i]) fail(str(d, ": event ", i, " is '", log.lex[i], "', expected '", m.log.lex[i], "'"));
			ctx.label("syntax error"); continue;
		}
		if (log.lex != m.log.lex) { size_t i = 0; while (i < log.lex.size() && i < m.log.lex.size() && log.lex[i] == m.log.lex[i]) ++i; fail(str(d, ": event ", i, " is '", i < log.lex.size() ? log.lex[i] : "none", "', expected '", i < m.log.lex.size() ? m.log.lex[i] : "none", "'")); }
		if (log.paren.size() != m.log.paren.size()) fail(str(d, ": ", log.paren.size(), " calls for groups, expected ", m.log.paren.size()));
		for (size_t i = 0; i < log.paren.size(); ++i) {
			if (log.paren[i].first != m.log.paren[i].first) fail(str(d, ": group call ", i, " was made to extension ", log.paren[i].first, ", expected ", m.log.paren[i].first));
			Word w; if (ref::differ(log.paren[i].second, m.log.paren[i].second, &w)) fail(str(d, ": group call ", i, " (extension ", log.paren[i].first, ") was given a wrong automaton: differs on ", showWord(w)));
		}
		if (enc && enc != (utf8 ? &P::Encodings::Utf8() : &P::Encodings::Latin1())) fail(d + ": the extension sees another encoding");
		try { expectFsm(f, want, d, &ctx); } catch (ref::TooBig&) { discard(); }
		ctx.count(log.lex.size() + log.paren.size());
	}
	bool produced = false, changed = false;
	for (auto& e : m.log.lex) produced |= e.find(" reads ") != std::string::npos;
	for (auto& s : specs) changed |= s.alter || (s.paren && !m.log.paren.empty());
	if (!error && m.tokens > 3 && (produced || changed)) ctx.nontrivial(d);
	if (produced) ctx.label("offered part taken or put back");
	if (!m.log.paren.empty()) ctx.label("groups");
}

int main(int argc, char** argv) {
	Suite s;
	s.id = "C24";
	s.rule = "a well-formed pattern of at least three tokens in which some extension takes or puts back input, alters tokens or changes groups; distinct by pattern and extensions";
	s.assumptions = {"one to four extensions (ten at most, seldom) of different priorities, none equal to the default of 50 (the order among equal priorities is not specified); the case-insensitive option is sometimes installed among them",
		"extensions get the automaton of every parenthesized part and of every repeated one"};
	s.laws = {
		{"priorities", 9000, 600000, priorities},
	};
	return run(s, argc, argv);
}
