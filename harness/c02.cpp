// C02: UTF-8 patterns match exactly the UTF-8 spellings of their characters.
#include "pireutil.h"
#include "pattern.h"
using namespace pbt;
using namespace pu;

static void check(const std::string& text, const pat::Node& tree, const ParseOpts& po, Src& src, Ctx& ctx, bool scan) {
	Lang l;
	try { l = pat::lang(tree, po.utf8); } catch (ref::TooBig&) { discard(); }
	for (int i = 0; i < 3; ++i) {
		Word w = ref::randomWord(src, l, 12);
		if (w.size() > 28) continue;
		if (pat::matches(tree, po.utf8, w) != l.accepts(w)) { fprintf(stderr, "oracles disagree on %s: %s\n", show(text).c_str(), showWord(w).c_str()); abort(); }
	}
	Pire::Fsm f;
	try { f = parse(text, po); }
	catch (Pire::Error& e) { fail(str("well-formed pattern ", show(text), " is refused: ", e.what())); }
	if (f.Size() > 8000) discard();
	try { expectFsm(f, l, show(text), &ctx); } catch (ref::TooBig&) { discard(); }
	if (scan && f.Size() < 600) {
		Pire::Fsm d(f);
		if (d.Determine(2000)) {
			Pire::Scanner sc = d.Compile<Pire::Scanner>();
			expectScanner(sc, l, show(text) + " compiled", &ctx);
			// whole texts: well-formed, and with a byte damaged
			for (int i = 0; i < 6; ++i) {
				Word w = ref::randomWord(src, l, 14, true, i < 4);
				std::string t = ref::toBytes(w);
				if (!t.empty() && i % 2) { size_t p = src.below(t.size()); switch (src.below(4)) { case 0: t.erase(p, 1); break; case 1: t.insert(p, 1, (char)src.oneOf<int>({0x80, 0xBF, 0xC2, 0xE2, 0xF1, 0xFF, 'a'})); break; case 2: t[p] = (char)(t[p] ^ (1 << src.below(8))); break; default: t.resize(p); } }
				Text tx(t);
				bool got = Pire::Matches(sc, tx.begin(), tx.end());
				if (got != l.accepts(ref::toWord(t))) fail(str(show(text), got ? " matches " : " does not match ", show(t)));
				ctx.count();
			}
		}
	}
}

static void patterns(Src& src, Ctx& ctx) {
	pat::Options o;
	o.utf8 = true;
	o.andnot = src.chance(1, 3);
	o.depth = 2; o.maxTerms = 10;
	pat::Pattern p = pat::generate(src, o, &ctx.labels);
	ctx.describe((o.andnot ? "andnot " : "") + show(p.text));
	ParseOpts po; po.andnot = o.andnot; po.utf8 = true;
	check(p.text, p.tree, po, src, ctx, true);
	bool wide = false; for (unsigned char c : p.text) if (c >= 0x80) wide = true;
	if (p.text.size() > 2 && (wide || p.text.find("\\x") != std::string::npos || p.text.find('.') != std::string::npos || p.text.find('[') != std::string::npos)) ctx.nontrivial(p.text + (o.andnot ? "\1" : ""));
}

// one code point alone, spelled in every way
static uint32_t anyCode(Src& src) {
	if (src.chance(1, 2)) { static const uint32_t edge[] = {0, 0x7F, 0x80, 0xFF, 0x100, 0x7FF, 0x800, 0xD7FF, 0xD800, 0xDFFF, 0xE000, 0xEFFF, 0xF000, 0xF0FF, 0xF100, 0xFFFF, 0x10000, 0x3FFFF, 0x40000, 0xFFFFF, 0x100000, 0x10FFFF};
		int64_t c = (int64_t)edge[src.below(22)] + src.range(-3, 3); return c < 0 ? 0 : c > 0x10FFFF ? 0x10FFFF : (uint32_t)c; }
	if (src.chance(1, 3)) return 0xF000 + src.below(0x100);
	return src.below(src.coin() ? 0x110000 : 0x3000);
}
static void codePoint(Src& src, Ctx& ctx) {
	uint32_t c = ctx.thorough ? ctx.index % 0x110000 : anyCode(src);
	pat::Pattern p;
	ParseOpts po; po.utf8 = true;
	p.tree.kind = pat::Node::Set; p.tree.ranges = {{c, c}};
	char hex[32]; snprintf(hex, sizeof hex, "\\x{%X}", c);
	bool special = c < 0x80 && c && strchr("|().*+?^$\\[{", (int)c);
	switch (src.below(6)) {
	case 0: p.text = special ? std::string("\\") + (char)c : ref::utf8(c); break;
	case 1: p.text = hex; break;
	case 2: p.text = std::string("[") + hex + "]"; break;
	case 3: p.text = std::string("[^") + hex + "]"; p.tree.negated = true; break;
	case 4: { if (c < 0x80) discard(); p.text = "[" + ref::utf8(c) + "]"; break; }
	default: { uint32_t d = std::min<uint32_t>(c + src.below(70), 0x10FFFF); char h2[32]; snprintf(h2, sizeof h2, "-\\x{%x}]", d); p.text = "[" + (c < 0x80 ? std::string(hex) : ref::utf8(c)) + h2; p.tree.ranges = {{c, d}}; }
	}
	ctx.describe(show(p.text) + str(" U+", std::hex, c));
	check(p.text, p.tree, po, src, ctx, false);
	if (c >= 0x80) ctx.nontrivial(p.text);
}

// larger sets of ranges
static void sets(Src& src, Ctx& ctx) {
	pat::Pattern p; ParseOpts po; po.utf8 = true;
	p.tree.kind = pat::Node::Set; p.text = "[";
	if (src.chance(1, 3)) { p.text += "^"; p.tree.negated = true; }
	size_t n = src.range(1, 4);
	for (size_t i = 0; i < n; ++i) {
		uint32_t a = anyCode(src), b = std::min<uint64_t>(0x10FFFF, a + src.below(src.coin() ? 3000 : 100));
		char h[64]; snprintf(h, sizeof h, "\\x{%x}-\\x{%X}", a, b);
		if (src.chance(1, 4) && a >= 0x80) p.text += ref::utf8(a) + "-" + ref::utf8(b); else p.text += h;
		p.tree.ranges.push_back({a, b});
	}
	p.text += "]";
	ctx.describe(show(p.text));
	check(p.text, p.tree, po, src, ctx, false);
	ctx.nontrivial(p.text);
}

// Latin-1 cannot spell anything beyond 7 bits: such characters match nothing
static void unreachable(Src& src, Ctx& ctx) {
	pat::Options o; o.utf8 = false; o.depth = 2; o.maxTerms = 8;
	pat::Pattern p = pat::generate(src, o, &ctx.labels);
	uint32_t c = 0x80 + (src.coin() ? src.below(0x180) : src.below(0x10FF80));
	char h[32]; snprintf(h, sizeof h, "\\x{%x}", c);
	pat::Node k; k.kind = pat::Node::Set; k.ranges = {{c, c}};
	pat::Node cat; cat.kind = pat::Node::Cat;
	pat::Node g; g = p.tree;
	if (src.coin()) { cat.kids = {g, k}; p.text = "(" + p.text + ")" + h; } else { cat.kids = {k, g}; p.text = h + ("(" + p.text + ")"); }
	if (src.coin()) { pat::Node alt; alt.kind = pat::Node::Alt; pat::Node z; z.kind = pat::Node::Set; z.ranges = {{'z', 'z'}}; alt.kids = {z, cat}; p.text = "z|" + p.text; p.tree = alt; } else p.tree = cat;
	ctx.describe(show(p.text));
	ParseOpts po;
	check(p.text, p.tree, po, src, ctx, true);
	ctx.nontrivial(p.text);
}

static void regressions(Src& src, Ctx& ctx) {
	ParseOpts po; po.utf8 = true;
	auto set = [](std::vector<std::pair<uint32_t, uint32_t>> r) { pat::Node n; n.kind = pat::Node::Set; n.ranges = r; return n; };
	auto good = [&](const std::string& t, const pat::Node& n) { ctx.describe(show(t)); check(t, n, po, src, ctx, true); ctx.nontrivial(t); };
	auto bad = [&](const std::string& t) { ctx.describe(show(t)); ctx.nontrivial(t); try { parse(t, po); } catch (Pire::Error&) { return; } fail(show(t) + " was accepted although the escape means nothing"); };
	switch (ctx.index) {
	case 0: good("\xEF\x81\xA4", set({{0xF064, 0xF064}})); break;         // was taken for \d
	case 1: good("\\x{f064}", set({{0xF064, 0xF064}})); break;
	case 2: good("[\\x{e000}-\\x{f100}]", set({{0xE000, 0xF100}})); break;
	case 3: good("[\xEF\x81\xA4]", set({{0xF064, 0xF064}})); break;
	case 4: good("\xEF\x83\xBF", set({{0xF0FF, 0xF0FF}})); break;          // was taken for the end of the pattern
	case 5: { pat::Node c; c.kind = pat::Node::Cat; c.kids = {set({{'a', 'a'}}), set({{0xF0FF, 0xF0FF}}), set({{'b', 'b'}})}; good("a\xEF\x83\xBF" "b", c); break; }
	case 6: bad("\\\xD1\x8F"); break;
	case 7: bad("a\\\xC3\xBF" "b"); break;
	case 8: bad("[\\\xC5\x9B]"); break;
	case 9: good("\xEF\x80\xAE", set({{0xF02E, 0xF02E}})); break;
	case 10: good("[\xEF\x81\x9D]", set({{0xF05D, 0xF05D}})); break;
	}
}

int main(int argc, char** argv) {
	Suite s;
	s.id = "C02";
	s.rule = "patterns with a non-ASCII character, code, dot or set; single code points above U+007F; distinct by text";
	s.assumptions = {"'.' and negated sets are structural UTF-8 (any lead byte with the right number of continuation bytes), as the statement says",
		"ranges of up to 3000 code points; thorough enumerates every single code point"};
	s.laws = {
		{"patterns", 2500, 200000, patterns},
		{"code points", 6000, 0x110000, codePoint},
		{"sets", 500, 20000, sets},
		{"unreachable", 700, 40000, unreachable},
		{"regressions", 11, 11, regressions, true},
	};
	return run(s, argc, argv);
}
