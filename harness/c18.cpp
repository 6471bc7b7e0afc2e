// C18: case and look-alike insensitivity widen characters to their equivalents, against independent tables and exact languages.
#include "pireutil.h"
#include "pattern.h"
#include "casetable.h"
#include <pire/easy.h>
#include <pire/extra.h>
using namespace pbt;
using namespace pu;
namespace P = Pire;
typedef uint32_t U;
typedef std::vector<std::pair<U, U>> Ranges;

static std::map<U, std::pair<U, U>>& cases() { static std::map<U, std::pair<U, U>> m; if (m.empty()) for (auto& r : caseTable) m[r[0]] = {r[1], r[2]}; return m; }
static const std::vector<std::vector<U>>& looks() {
	static const std::vector<std::vector<U>> g = {
		{'A', 0x410}, {'B', 0x412}, {'C', 0x421}, {'E', 0x415, 0x401}, {'H', 0x41D}, {'K', 0x41A}, {'M', 0x41C}, {'O', 0x41E}, {'P', 0x420}, {'T', 0x422}, {'X', 0x425},
		{'a', 0x430}, {'c', 0x441}, {'e', 0x435, 0x451}, {'m', 0x442}, {'o', 0x43E}, {'p', 0x440}, {'u', 0x438}, {'x', 0x445}, {'y', 0x443}};
	return g;
}
// Characters whose case mapping differs from one version of Unicode to another, or is not one to one and left out by the library's table.
static bool doubtful(U c) { return c >= 0x3000 || (c >= 0x3F2 && c <= 0x3FB) || c == 0x1FBE || c == 0x2126 || c == 0x212A || c == 0x212B; }
struct Opts { bool ci = false, glyph = false, utf8 = false; };
static std::string show(const Opts& o) { return std::string(o.ci ? " caseless" : "") + (o.glyph ? " look-alikes" : "") + (o.utf8 ? " utf-8" : ""); }
static std::set<U> widen(U c, const Opts& o) {
	std::set<U> r{c};
	if (o.ci) { auto i = cases().find(c); if (i != cases().end()) { r.insert(i->second.first); r.insert(i->second.second); } }
	if (o.glyph) { std::set<U> s = r; for (U x : s) for (auto& g : looks()) if (std::find(g.begin(), g.end(), x) != g.end()) r.insert(g.begin(), g.end()); }
	return r;
}
static Ranges widen(const Ranges& rs, const Opts& o) {
	std::set<U> all; for (auto& r : rs) for (U c = r.first; c <= r.second; ++c) { auto w = widen(c, o); all.insert(w.begin(), w.end()); }
	Ranges out; for (U c : all) if (!out.empty() && out.back().second + 1 == c) out.back().second = c; else out.push_back({c, c});
	return out;
}
static pat::Node widen(pat::Node n, const Opts& o) { if (n.kind == pat::Node::Set) n.ranges = widen(n.ranges, o); for (auto& k : n.kids) k = widen(k, o); return n; }

static std::string lit(U c) { if (c < 0x80 ? isalnum((int)c) != 0 : true) { std::string s; for (unsigned char b : ref::utf8(c)) s += (char)b; return s; } char b[20]; snprintf(b, sizeof b, "\\x{%X}", c); return b; }
static P::Fsm compile(const std::string& text, const Opts& o, bool glyphFirst, bool andnot = false) {
	const P::Encoding& e = o.utf8 ? P::Encodings::Utf8() : P::Encodings::Latin1();
	std::vector<P::wchar32> ws; P::Encodings::Utf8().FromLocal(text.data(), text.data() + text.size(), std::back_inserter(ws));
	P::Lexer lx; lx.SetEncoding(e);
	if (andnot && !glyphFirst) lx.AddFeature(P::Features::AndNotSupport());
	if (o.glyph && glyphFirst) lx.AddFeature(P::Features::GlueSimilarGlyphs());
	if (o.ci) lx.AddFeature(P::Features::CaseInsensitive());
	if (o.glyph && !glyphFirst) lx.AddFeature(P::Features::GlueSimilarGlyphs());
	if (andnot && glyphFirst) lx.AddFeature(P::Features::AndNotSupport());
	lx.Assign(ws.begin(), ws.end());
	return lx.Parse();
}

// every character below U+3000 by itself
static void characters(Src&, Ctx& ctx) {
	U from = (U)ctx.index * 64; ctx.describe(str("characters from ", from)); bool some = false;
	for (U c = from; c < from + 64; ++c) {
		if (doubtful(c)) continue;
		for (int k = 0; k < 4; ++k) {
			Opts o; o.ci = k & 1; o.glyph = k & 2; o.utf8 = c >= 0x80 || c % 2;
			std::set<U> w = widen(c, o); some |= w.size() > 1;
			for (int in = 0; in < (c < 0x500 ? 2 : 1); ++in) {
				P::Fsm f = compile(in ? "[" + lit(c) + "]" : lit(c), o, c & 2);
				f.Canonize(); P::SimpleScanner sc(f);
				// exactly these characters: all of them, and none of the others around
				std::set<U> others; for (U d = from & ~0xFFu; d < (from & ~0xFFu) + 256; ++d) others.insert(d);
				for (U d = 0; d < 128; ++d) others.insert(d);
				for (U d : {0x130u, 0x131u, 0x17Fu, 0xB5u, 0x3BCu, 0x39Cu, 0x1E9Eu, 0x212Au}) others.insert(d);
				for (U d = 0x400; d < 0x460; ++d) others.insert(d);
				others.insert(w.begin(), w.end());
				for (U d : others) {
					std::string t; for (unsigned char b : ref::utf8(d)) t += (char)b;
					bool want = w.count(d) && (o.utf8 || d < 0x80);
					bool got = bool(P::Runner(sc).Run(t));
					if (got != want) fail(str("pattern ", lit(c), " (", c, ")", show(o), got ? " matches " : " does not match ", "character ", d));
				}
				ctx.count(others.size());
			}
		}
	}
	if (some) ctx.nontrivial(str(from));
}

static U anyChar(Src& s, bool utf8) {
	if (!utf8) return s.chance(3, 4) ? (U)s.pick(std::string("abcehkmoptuxyABCEHKMOPTUXYzZ")) : (U)s.below(0x80);
	switch (s.below(7)) {
	case 0: return (U)s.pick(std::string("abcehkmoptuxyABCEHKMOPTUXYzZ"));
	case 1: { auto& g = s.pick(looks()); return s.pick(g); }
	case 2: return 0x400 + (U)s.below(0x60);
	case 3: return s.oneOf({0xDFu, 0xB5u, 0x17Fu, 0x130u, 0x131u, 0x1C4u, 0x1C5u, 0x1C6u, 0x3C2u, 0x3C3u, 0x3A3u, 0x39Cu, 0x3BCu, 0x1E9Bu, 0x345u, 0x178u, 0xFFu, 0x24B6u, 0x24E9u, 0x2160u});
	case 4: return (U)s.below(0x80);
	case 5: { U c; do c = (U)s.below(0x3000); while (doubtful(c)); return c; }
	default: return 0x4E00 + (U)s.below(100);
	}
}
struct Gen { std::string text; pat::Node n; };
static Gen node(Src& s, bool utf8, int depth, size_t& budget) {
	Gen g; int what = depth <= 0 || !budget ? (int)s.weighted({6, 4, 2, 1}) : (int)s.weighted({6, 4, 2, 1, 4, 3, 3});
	if (budget) --budget;
	switch (what) {
	case 0: { U c = anyChar(s, utf8); g.text = lit(c); g.n.kind = pat::Node::Set; g.n.ranges = {{c, c}}; break; }
	case 1: {
		g.n.kind = pat::Node::Set; g.n.negated = s.chance(1, 4); g.text = g.n.negated ? "[^" : "["; size_t n = 1 + s.below(3);
		while (n--) {
			U c = anyChar(s, utf8);
			if (s.chance(1, 3)) { U d = c + (U)s.below(12); bool ok = true; for (U x = c; x <= d; ++x) ok &= !doubtful(x) || x >= 0x3000; if (!utf8 && d >= 0x80) ok = false; if (ok) { g.text += lit(c) + "-" + lit(d); g.n.ranges.push_back({c, d}); continue; } }
			g.text += lit(c); g.n.ranges.push_back({c, c});
		}
		g.text += "]"; break;
	}
	case 2: {
		g.n.kind = pat::Node::Set; int k = (int)s.below(6); bool neg = s.chance(1, 3); const char* names = "lcwdsn"; if (k == 5) neg = false;
		char nm = names[k]; g.text = std::string("\\") + (char)(neg ? toupper(nm) : nm); g.n.negated = neg;
		Ranges l = {{'A', 'Z'}, {'a', 'z'}}, c = {{0x410, 0x44F}, {0x401, 0x401}, {0x451, 0x451}};
		switch (k) { case 0: g.n.ranges = l; break; case 1: g.n.ranges = c; break; case 2: g.n.ranges = l; g.n.ranges.insert(g.n.ranges.end(), c.begin(), c.end()); break; case 3: g.n.ranges = {{'0', '9'}}; break; case 4: g.n.ranges = {{' ', ' '}, {'\t', '\t'}, {'\r', '\r'}, {'\n', '\n'}, {0xA0, 0xA0}}; break; default: g.n.ranges = {{'\n', '\n'}}; }
		break;
	}
	case 3: g.text = "."; g.n.kind = pat::Node::Dot; break;
	case 4: { g.n.kind = pat::Node::Cat; size_t n = 2 + s.below(2); while (n--) { Gen k = node(s, utf8, depth - 1, budget); g.text += k.text; g.n.kids.push_back(k.n); } g.text = "(" + g.text + ")"; break; }
	case 5: { g.n.kind = pat::Node::Alt; for (int i = 0; i < 2; ++i) { Gen k = node(s, utf8, depth - 1, budget); g.text += (i ? "|" : "") + k.text; g.n.kids.push_back(k.n); } g.text = "(" + g.text + ")"; break; }
	default: { Gen k = node(s, utf8, depth - 1, budget); g.n.kind = pat::Node::Repeat; g.n.kids.push_back(k.n); g.n.lo = (int)s.below(2); g.n.hi = -1; g.text = "(" + k.text + ")" + (g.n.lo ? "+" : "*"); }
	}
	return g;
}
// whole patterns, exactly
static void patterns(Src& src, Ctx& ctx) {
	Opts o; o.utf8 = src.chance(3, 4); int k = 1 + (int)src.below(3); o.ci = k & 1; o.glyph = k & 2;
	size_t budget = 6; Gen g = node(src, o.utf8, 3, budget); std::string d = g.text + show(o); ctx.describe(d);
	pat::Node w = widen(g.n, o);
	P::Fsm f; bool andnot = src.coin();
	try { f = compile(g.text, o, src.coin(), andnot); } catch (P::Error& e) { if (std::string(e.what()).find("complicated") != std::string::npos) discard(); fail(str(d, " is refused: ", e.what())); }
	ref::Lang plain, wide;
	try { plain = pat::lang(g.n, o.utf8); wide = pat::lang(w, o.utf8); expectFsm(f, wide, d, &ctx); } catch (ref::TooBig&) { discard(); }
	ref::Word x; bool changes = ref::differ(plain, wide, &x);
	if (changes) ctx.nontrivial(d);
	ctx.label(changes ? "the option changes the language" : "no effect");
	// sampled words through a scanner made by the easy interface
	if (!o.glyph) {
		P::Regexp re = o.utf8 ? (src.coin() ? P::Regexp("^(" + g.text + ")$", P::I | P::UTF8) : P::Regexp("^(" + g.text + ")$", P::UTF8 | P::I)) : P::Regexp("^(" + g.text + ")$", P::I);
		for (int i = 0; i < 4; ++i) { ref::Word v = ref::randomWord(src, wide, 8); if (src.chance(1, 3) && !v.empty()) v[src.below(v.size())] ^= 32; bool marks = false; for (int y : v) marks |= y > 255; if (marks) continue; std::string t; for (int y : v) t += (char)y; bool want = wide.accepts(v); if (re.Matches(t) != want) fail(str(d, " through Regexp ", want ? "does not match " : "matches ", pbt::show(t))); ctx.count(); }
	}
}
// Texts made from words of the pattern by changing letters for their counterparts.
static void texts(Src& src, Ctx& ctx) {
	Opts o; o.utf8 = true; int k = 1 + (int)src.below(3); o.ci = k & 1; o.glyph = k & 2;
	size_t n = 1 + src.below(5); std::vector<U> word; std::string p;
	for (size_t i = 0; i < n; ++i) { U c = anyChar(src, true); word.push_back(c); p += lit(c); }
	ctx.describe(p + show(o));
	P::Fsm f = compile(p, o, src.coin()); f.Canonize(); P::Scanner sc(f);
	for (int r = 0; r < 12; ++r) {
		std::string t; bool want = true;
		for (U c : word) {
			std::set<U> w = widen(c, o); U x = c; std::vector<U> v(w.begin(), w.end());
			if (src.chance(2, 3)) x = src.pick(v);
			else if (src.chance(1, 4)) { x = anyChar(src, true); if (src.coin()) { auto i = cases().find(c); if (i != cases().end()) x = src.coin() ? i->second.first : i->second.second; } }
			want &= w.count(x) != 0; for (unsigned char b : ref::utf8(x)) t += (char)b;
		}
		if (bool(P::Runner(sc).Run(t)) != want) fail(str(p, show(o), want ? " does not match " : " matches ", pbt::show(t)));
		ctx.count();
	}
	ctx.nontrivial(p + show(o));
}

int main(int argc, char** argv) {
	Suite s;
	s.id = "C18";
	s.rule = "a pattern whose language the option changes (a block of characters with counterparts); distinct by pattern and options";
	s.assumptions = {"a character of the pattern stands for itself, its upper and its lower case by the simple mappings of Unicode 3.2 (U+03F2..03FB, U+1FBE, U+2126, U+212A, U+212B are left out, their mappings differ between versions or are not reversible)",
		"look-alikes are those of the case variants when both options are on"};
	s.laws = {
		{"characters", 192, 192, characters, true},
		{"patterns", 7000, 900000, patterns},
		{"texts", 5000, 400000, texts},
	};
	return run(s, argc, argv);
}
