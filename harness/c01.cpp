// C01: a parsed pattern accepts exactly the language its text denotes.
#include "pireutil.h"
#include "pattern.h"
using namespace pbt;
using namespace pu;

static void check(const std::string& text, const pat::Node& tree, const ParseOpts& po, Src& src, Ctx& ctx) {
	Lang l;
	try { l = pat::lang(tree, po.utf8); } catch (ref::TooBig&) { discard(); }
	// the two evaluations of the meaning agree (guards the oracle itself)
	for (int i = 0; i < 3; ++i) {
		Word w = ref::randomWord(src, l, 10);
		if (w.size() > 28) continue;
		if (pat::matches(tree, po.utf8, w) != l.accepts(w)) { fprintf(stderr, "oracles disagree on %s: %s\n", show(text).c_str(), showWord(w).c_str()); abort(); }
	}
	Pire::Fsm f;
	try { f = parse(text, po); }
	catch (Pire::Error& e) { fail(str("well-formed pattern ", show(text), " is refused: ", e.what())); }
	if (f.Size() > 3000) discard();
	try { expectFsm(f, l, show(text), &ctx); } catch (ref::TooBig&) { discard(); }
	if (f.Size() < 400) {
		Pire::Fsm d(f);
		if (d.Determine(2000)) {
			Pire::Scanner sc = d.Compile<Pire::Scanner>();
			expectScanner(sc, l, show(text) + " compiled", &ctx);
		}
	}
}

static void patterns(Src& src, Ctx& ctx) {
	pat::Options o;
	o.andnot = src.chance(1, 2);
	if (src.chance(1, 3)) o.letters = "abc";
	pat::Pattern p = pat::generate(src, o, &ctx.labels);
	ctx.describe((o.andnot ? "andnot " : "") + show(p.text));
	ParseOpts po; po.andnot = o.andnot;
	std::string text = p.text;
	check(text, p.tree, po, src, ctx);
	if (p.text.size() > 2) ctx.nontrivial(p.text + (o.andnot ? "\1" : ""));
}

// every single character, escape and two-character class in isolation
static void single(Src& src, Ctx& ctx) {
	unsigned c = ctx.index % 256, kind = ctx.index / 256;
	pat::Pattern p;
	char hex[16];
	ParseOpts po;
	p.tree.kind = pat::Node::Set; p.tree.ranges = {{c, c}};
	snprintf(hex, sizeof hex, "\\x%02X", c);
	switch (kind) {
	case 0: // as it is
		if (c >= 0x80 || (c && strchr("|().*+?^$\\[{", c))) { ctx.describe("-"); return; }
		p.text = std::string(1, (char)c); break;
	case 1: p.text = hex; break;
	case 2: p.text = std::string("[") + hex + "]"; break;
	case 3: p.text = std::string("[^") + hex + "]"; p.tree.negated = true; break;
	case 4: p.text = std::string("[") + hex + "-\\xff]"; p.tree.ranges = {{c, 255}}; break;
	case 5: p.text = std::string("[\\x00-") + hex + "]"; p.tree.ranges = {{0, c}}; break;
	case 6: // raw character ends a range
		if (c >= 0x80 || strchr("]-\\^[", c) && c) return;
		p.text = std::string("[") + (char)c + "-\\x7f]"; p.tree.ranges = {{c, 127}}; break;
	case 7:
		if (c >= 0x80 || c == ']' || c == '-' || c == '\\' || c == '^' || c == '[') return;
		p.text = std::string("[") + std::string(1, 0) + "-" + (char)c + "]"; p.tree.ranges = {{0, c}}; break;
	case 8: // escaped
		if (!c || c >= 0x80 || !strchr("|().*+?^$\\[]{}", c)) return;
		p.text = std::string("\\") + (char)c; break;
	case 9: // escaped in a set
		if (!c || c >= 0x80 || !strchr("^[]-\\*+{}()$?.&~", c)) return;
		p.text = std::string("[a\\") + (char)c + "b]"; p.tree.ranges = {{'a', 'a'}, {c, c}, {'b', 'b'}}; break;
	case 10: // with the and/not option
		if (c != '&' && c != '~') return;
		po.andnot = true; p.text = std::string("a\\") + (char)c; p.tree.kind = pat::Node::Cat; p.tree.ranges.clear();
		for (unsigned x : {(unsigned)'a', c}) { pat::Node k; k.kind = pat::Node::Set; k.ranges = {{x, x}}; p.tree.kids.push_back(k); }
		break;
	case 11: // twice
		if (c >= 0x80 || (c && strchr("|().*+?^$\\[{", c))) return;
		p.text = std::string(1, (char)c) + "{2}"; { pat::Node r; r.kind = pat::Node::Repeat; r.lo = r.hi = 2; r.kids.push_back(p.tree); p.tree = r; } break;
	case 12: // a class, alone or in a set, positive or negated
		if (c >= 32) return;
		{ p.tree.ranges.clear(); char k = "lcwdsnrt"[c % 8]; pat::Gen::addClass(k, p.tree.ranges);
		  bool neg = (c & 8) && c % 8 < 5; p.tree.negated = neg; p.text = std::string("\\") + (char)(neg ? toupper(k) : k); if (c & 16) p.text = "[" + p.text + "]"; }
		break;
	}
	ctx.describe(show(p.text));
	check(p.text, p.tree, po, src, ctx);
	ctx.nontrivial(p.text);
}

// documented precedences and equalities on concrete patterns: same language, written in two ways
static void equalities(Src&, Ctx& ctx) {
	struct E { const char *a, *b; bool andnot; };
	static const E list[] = {
		{"ab|cd", "(ab)|(cd)", false}, {"ab*", "a(b*)", false}, {"ab+c", "a(b)+c", false}, {"a|b|c", "[abc]", false}, {"(a|b)c", "ac|bc", false},
		{"a?", "(|a)", false}, {"a{0,1}", "a?", false}, {"a{1,}", "a+", false}, {"a{0,}", "a*", false}, {"a{3}", "aaa", false}, {"a{2,4}", "aa|aaa|aaaa", false},
		{"a{2,}", "aaa*", false}, {"a{0}", "()", false}, {"a{0}b", "b", false}, {"(a*)*", "a*", false}, {"(a+)?", "a*", false}, {"", "()", false}, {"|a", "a?", false},
		{"a|", "a?", false}, {"[a-c]", "[abc]", false}, {"[c-a]", "[]", false}, {"[^]", ".", false}, {"\\D", "[^0-9]", false}, {"\\d", "[0123456789]", false},
		{"\\x41", "A", false}, {"\\x{41}", "A", false}, {"\\x{000041}", "A", false}, {"\\t", "\\x09", false}, {"\\n", "\\x0A", false}, {"\\r", "\\x0D", false},
		{"a&b|c", "(a&b)|c", true}, {"c|a&b", "c|(a&b)", true}, {"~ab", "~(ab)", true}, {"~a&~b", "~(a|b)", true}, {"a~", "a~", false}, {"a&b", "a[&]b", false},
		{"~a|b", "(~a)|b", true}, {"~", "~()", true}, {"~()&a*", "a+", true}, {"(~(~a))", "a", true}, {"a&", "a&()", true}, {"x|y&y", "x|y", true}, {"~a*", "~(a*)", true},
		{"^^", "^{2}", false}, {"a$|^b", "(a$)|(^b)", false}, {"(()|(a()))b", "a?b", false}, {"[a\\]]", "\\]|a", false}, {"[\\^a]", "a|\\^", false}, {"[a^]", "a|\\^", false}, {"[a\\-c]", "a|-|c", false}, {"a{2}b{1,2}", "aabb?", false},
		{"(a{2}){2}", "a{4}", false}, {"(ab){0,2}", "(ab(ab)?)?", false}, {"[a-b-c]", "[ab\\-c]", false}, {"]", "\\]", false}, {"}", "\\}", false}, {"a]", "a\\]", false}, {"a,b", "a[,]b", false},
	};
	const E& e = list[ctx.index];
	ctx.describe(str(e.a, "  =  ", e.b));
	ParseOpts po; po.andnot = e.andnot;
	Word w;
	Lang a = langOf(parse(e.a, po)), b = langOf(parse(e.b, po));
	if (ref::differ(a, b, &w)) fail(str("patterns ", e.a, " and ", e.b, " differ on ", showWord(w)));
	ctx.nontrivial(e.a);
}
enum { NEQ = 58 };

// counts, alternations, nestings, sequences and sets far larger than usual, whose meaning is easy to tell
static void large(Src& src, Ctx& ctx) {
	static const int marks[] = {15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 126, 127, 128, 129, 199, 200, 254, 255, 256, 257, 299, 300, 400, 511, 512, 513, 600};
	std::string text, d; Lang l; ParseOpts po;
	auto lit = [&](size_t lo, size_t hi) { std::string t; for (size_t n = src.len(lo, hi); n--;) t += "abc"[src.below(3)]; return t; };
	int kind = (int)src.below(6);
	try {
		switch (kind) {
		case 0: case 1: {
			std::string u = lit(1, 2), v = src.chance(1, 3) ? lit(1, 2) : u;
			int n = marks[src.below(29)], m = n; if (u.size() + v.size() > 2 && n > 300) n = m = 300;
			int form = (int)src.below(5);
			if (form > 2 && n > 129) m = n = marks[src.below(16)];   // optional parts cost the cube of their number
			if (form == 1) m = -1; else if (form == 2) m = n + (int)src.below(5); else if (form == 3) m = n, n = (int)src.below(3); else if (form == 4) n = (int)src.below(m + 1);
			std::string tail = src.coin() ? "" : lit(1, 2);
			text = (u == v ? "(" + u + ")" : "(" + u + "|" + v + ")") + (form == 0 ? str("{", n, "}") : m < 0 ? str("{", n, ",}") : str("{", n, ",", m, "}")) + tail;
			ref::Nfa a; int s = a.add(); a.starts.push_back(s); std::vector<int> ends; int last = m < 0 ? n : m;
			auto step = [&](int from, int to) { for (auto& w : {u, v}) { int c = from; for (size_t i = 0; i < w.size(); ++i) { int t = i + 1 == w.size() ? to : a.add(); a.edge(c, ref::one((unsigned char)w[i]), t); c = t; } } };
			for (int i = 0; i <= last; ++i) { if (i >= n) ends.push_back(s); if (i == last) break; int t = a.add(); step(s, t); s = t; }
			if (m < 0) step(s, s);
			if (tail.empty()) { for (int e : ends) a.fin[e] = 1; }
			else { int e = a.add(); a.fin[e] = 1; std::vector<int> st; int head = e; for (size_t i = tail.size(); i-- > 1;) { int b = a.add(); a.edge(b, ref::one((unsigned char)tail[i]), head); head = b; } for (int x : ends) a.edge(x, ref::one((unsigned char)tail[0]), head); }
			l = ref::determinize(a); ctx.label("a large count"); break; }
		case 2: { size_t n = marks[src.below(29)]; std::vector<Word> ws; for (size_t i = 0; i < n; ++i) { std::string w = lit(src.chance(1, 50) ? 0 : 1, 6); text += (i ? "|" : "") + w; ws.push_back(ref::toWord(w)); }
			std::sort(ws.begin(), ws.end()); ws.erase(std::unique(ws.begin(), ws.end()), ws.end()); l = ref::words(ws); ctx.label("many alternatives"); break; }
		case 3: { size_t n = src.chance(1, 6) ? 300 + src.below(1000) : marks[src.below(25)]; std::string open, close; Word w; Word head, tl;
			for (size_t i = 0; i < n; ++i) { open += "("; if (src.chance(1, 5)) { char c = "abc"[src.below(3)]; open += c; head.push_back(c); } std::string x; if (src.chance(1, 5)) { char c = "abc"[src.below(3)]; x = c; tl.insert(tl.begin(), c); } close = x + ")" + close; }
			std::string core = src.coin() ? "a" : "a*"; text = open + core + close;
			// the letters before the closing parentheses stand in the order of the text
			Word order; for (char c : close) if (c != ')') order.push_back(c);
			l = ref::cat(ref::cat(ref::word(head), core == "a" ? ref::sym('a') : ref::star(ref::sym('a'))), ref::word(order)); ctx.label("deep nesting"); break; }
		case 4: { size_t n = 3 * marks[src.below(29)]; text = lit(n, n); Word w = ref::toWord(text); if (src.coin()) { size_t at = src.below(text.size()); text.insert(at + 1, "?"); Word v = w; v.erase(v.begin() + at); l = ref::alt(ref::word(w), ref::word(v)); } else l = ref::word(w); ctx.label("a long sequence"); break; }
		default: { size_t n = marks[src.below(29)]; ref::CharSet cs; text = "["; bool neg = src.chance(1, 3); if (neg) text += "^";
			for (size_t i = 0; i < n; ++i) { unsigned c = src.below(128), e = src.chance(1, 4) ? c + src.below(128 - c) : c; char h[32]; if (c == e) snprintf(h, sizeof h, src.coin() ? "\\x%02x" : "\\x{%x}", c); else snprintf(h, sizeof h, "\\x%02x-\\x%02x", c, e); text += h; for (; c <= e; ++c) cs.set(c); }
			text += "]"; l = ref::chars(neg ? ref::bytes() & ~cs : cs); ctx.label("a large set"); break; }
		}
	} catch (ref::TooBig&) { discard(); }
	d = text.size() < 60 ? text : str(text.substr(0, 30), " ... ", text.substr(text.size() - 20), " (", text.size(), " characters)");
	ctx.describe(d);
	Pire::Fsm f;
	try { f = parse(text, po); }
	catch (Pire::Error& e) { fail(str("well-formed pattern ", d, " is refused: ", e.what())); }
	expectFsm(f, l, d, &ctx);
	Pire::Fsm x(f); Pire::Scanner sc = x.Compile<Pire::Scanner>();
	expectScanner(sc, l, d + " compiled", &ctx);
	ctx.nontrivial(text);
}

int main(int argc, char** argv) {
	Suite s;
	s.id = "C01";
	s.rule = "a generated pattern of more than two characters (distinct by text and options); every enumerated character/escape/class case";
	s.assumptions = {"patterns of up to 14 terms, nesting up to 3, counts up to 5; reference languages up to 3000 states (larger ones are discarded); larger counts, alternations, nestings (to 257), sequences and sets only in the simple forms of the law 'large'",
		"sets mixing a negated class with other members and negations of \\n \\r \\t are not generated (undocumented)"};
	s.laws = {
		{"patterns", 7000, 500000, patterns},
		{"single", 13 * 256, 13 * 256, single, true},
		{"equalities", NEQ, NEQ, equalities, true},
		{"large", 160, 12000, large},
	};
	return run(s, argc, argv);
}
