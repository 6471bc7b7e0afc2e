// C12: any pattern text is parsed or refused cleanly.
#include "pireutil.h"
#include "refparse.h"
#include <pire/extra.h>
using namespace pbt;
using namespace pu;
namespace P = Pire;
typedef std::vector<uint32_t> Chars;

struct Opts { bool utf8 = false, andnot = false, ci = false, glyphs = false; size_t capture = 0; };
static std::string showOpts(const Opts& o) { return str(o.utf8 ? "utf8 " : "", o.andnot ? "andnot " : "", o.ci ? "ci " : "", o.glyphs ? "glyphs " : "", o.capture ? str("capture ", o.capture, " ") : std::string()); }
static std::string show(const Chars& c) { std::string r; for (uint32_t x : c) { if (x >= 0x20 && x < 0x7F) r += (char)x; else { char b[16]; snprintf(b, sizeof b, "<%X>", x); r += b; } } return r; }
using pbt::show;

static void install(P::Lexer& lx, const Opts& o, unsigned order) {
	lx.SetEncoding(o.utf8 ? P::Encodings::Utf8() : P::Encodings::Latin1());
	for (unsigned k = 0; k < 4; ++k) switch ((order + k) % 4) {
	case 0: if (o.andnot) lx.AddFeature(P::Features::AndNotSupport()); break;
	case 1: if (o.ci) lx.AddFeature(P::Features::CaseInsensitive()); break;
	case 2: if (o.glyphs) lx.AddFeature(P::Features::GlueSimilarGlyphs()); break;
	case 3: if (o.capture) lx.AddFeature(P::Features::Capture(o.capture)); break;
	}
}

/// the automaton can be used: its structure is sound, it compiles and runs
static void usable(const P::Fsm& f, const std::string& d) {
	if (f.Size() > 700) return;
	ref::Nfa n = nfaOf(f); (void)n;
	P::SlowScanner slow(f.Size() < 150 ? P::SlowScanner(*std::unique_ptr<P::Fsm>(new P::Fsm(f))) : P::SlowScanner());
	static const std::string text = "ab(x) 0-\xD0\xB0\xFF";
	P::Runner(slow).Begin().Run(text.data(), text.data() + text.size()).End();
	P::Fsm c(f);
	if (f.Size() < 150 && c.Determine(400)) {
		P::Scanner sc = c.Compile<P::Scanner>();
		bool x = P::Runner(sc).Begin().Run(text.data(), text.data() + text.size()).End(), y = P::Runner(slow).Begin().Run(text.data(), text.data() + text.size()).End();
		if (x != y) fail(d + ": the fast and the slow scanner disagree");
	}
}

static bool repeatsMuch(const Chars& t) {
	for (size_t i = 0; i < t.size(); ++i) if (t[i] == '{') {
		unsigned long long v = 0, max = 0; bool over = false;
		for (size_t k = i + 1; k < t.size() && ((t[k] >= '0' && t[k] <= '9') || t[k] == ','); ++k) { if (t[k] == ',') v = 0; else v = std::min(v * 10 + t[k] - '0', 1ull << 40); if (v > 0x7FFFFFFF) over = true; max = std::max(max, v); }
		if (!over && max > 300) return true;
	}
	return false;
}
/// a range of very many characters takes seconds
static bool wideRange(const Chars& t) {
	for (size_t i = 0; i + 1 < t.size(); ++i) if (t[i] == '-') {
		if (t[i + 1] > 0x6000 && t[i + 1] <= 0x10FFFF) return true;
		size_t digits = 0;
		if (i + 3 < t.size() && t[i + 1] == '\\' && t[i + 2] == 'x' && t[i + 3] == '{') for (size_t k = i + 4; k < t.size() && t[k] != '}'; ++k) ++digits;
		if (digits >= 4) return true;
	}
	return false;
}
static void check(const Chars& text, const Opts& o, unsigned order, Ctx& ctx, P::Lexer* reused = nullptr) {
	std::string d = showOpts(o) + show(text);
	refparse::Syntax syn; syn.utf8 = o.utf8; syn.andnot = o.andnot; syn.capture = o.capture != 0;
	refparse::Result want = refparse::parse(text, syn);
	bool hard = false; size_t cost = 0;
	if (want.verdict == refparse::Result::Accepted) { cost = refparse::cost(want.tree, o.utf8, hard); if (o.glyphs) cost *= 3; if (cost > 3000 || hard) { ctx.label("too large"); discard(); } }
	// a refused pattern might have been built partially before the error was found
	else if (repeatsMuch(text)) { ctx.label("too large"); discard(); }
	if (wideRange(text) && (o.ci || o.glyphs || hashBytes(text.data(), text.size() * 4) % 30)) { ctx.label("range too wide"); discard(); }
	P::Fsm f; bool accepted = false; std::string error;
	try {
		if (reused) { reused->Assign(text.begin(), text.end()); f = reused->Parse(); }
		else { P::Lexer lx(text.begin(), text.end()); install(lx, o, order); f = lx.Parse(); }
		accepted = true;
	} catch (P::Error& e) { error = e.what(); if (error.empty()) fail(d + ": an error without a message"); }
	ctx.count();
	ctx.label(want.verdict == refparse::Result::Open ? "open" : want.verdict == refparse::Result::Accepted ? "accepted" : "refused: " + want.why);
	if (want.verdict == refparse::Result::Accepted && !accepted) fail(str(d, " is well-formed, but refused: ", error));
	if (want.verdict == refparse::Result::Refused && accepted) fail(str(d, " is accepted, although malformed (", want.why, ")"));
	if (!accepted) { if (text.size() > 1) ctx.nontrivial(d); return; }
	usable(f, d);
	if (text.size() > 1) ctx.nontrivial(d);
	if (want.verdict == refparse::Result::Accepted && want.known && !o.ci && !o.glyphs && cost < 200) {
		Lang l;
		try { l = pat::lang(want.tree, o.utf8); } catch (ref::TooBig&) { return; }
		try { expectFsm(f, l, d, &ctx); } catch (ref::TooBig&) { return; }
		ctx.label("meaning compared");
	}
}

static Opts options(Src& s) {
	Opts o; o.utf8 = s.coin(); o.andnot = s.coin(); o.ci = s.chance(1, 5); o.glyphs = s.chance(1, 8); if (s.chance(1, 3)) o.capture = 1 + s.below(4);
	return o;
}
static void put(Chars& t, const char* s) { for (; *s; ++s) t.push_back((unsigned char)*s); }
static uint32_t wild(Src& s) {
	static const uint32_t cps[] = {0, 1, 0x7F, 0x80, 0xE9, 0xFF, 0x100, 0x130, 0x131, 0x410, 0x451, 0x17F, 0x212A, 0xD7FF, 0xD800, 0xDFFF, 0xE000, 0xF000, 0xF001, 0xF028, 0xF02A, 0xF05B, 0xF05C, 0xF05D, 0xF064, 0xF078, 0xF07C, 0xF0FF, 0xF100, 0xFEFF, 0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0x1005B, 0x1F600, 0x10FFFF};
	switch (s.below(4)) {
	case 0: case 1: return cps[s.below(sizeof(cps) / sizeof(*cps))];
	case 2: return (uint32_t)s.below(0x80);
	default: return (uint32_t)s.below(0x110000);
	}
}
static void token(Src& s, Chars& t) {
	static const char* tokens[] = {"a", "b", "(", ")", "|", "*", "+", "?", "^", "$", ".", "[", "]", "{", "}", "\\", "-", ",", "0", "1", "2", "3", "&", "~", "{2}", "{1,}", "{0,2}", "{3,2}", "{,2}", "{0}", "{0,0}", "{2147483647999}", "{4294967297}", "{1,99999999999}", "[a-c]", "[^a]", "[c-a]", "[]", "[^]", "[\\d]", "[^\\w]", "[\\D]", "[a-\\x{63}]", "[\\x61-c]", "[-a]", "[a\\-c]", "[a\\]]", "\\x41", "\\x{41}", "\\x{0000041}", "\\x{110000}", "\\x{10FFFF}", "\\x{FFFFFFFFFFFFFFFFFF}", "\\x{100000041}", "\\x{", "\\x", "\\x{}", "\\x4", "\\d", "\\D", "\\w", "\\W", "\\s", "\\S", "\\l", "\\c", "\\C", "\\n", "\\r", "\\t", "\\q", "\\8", "\\A", "\\&", "\\~", "\\(", "\\)", "\\\\", "\\[", "\\]", "\\{", "\\}", "\\.", "\\-", "()", "(|)", "(a|b)", "(a)*", "(b){2}", ".*", "x", "X", "g", "F", "oo", "rn"};
	if (s.chance(1, 8)) t.push_back(wild(s));
	else if (s.chance(1, 20)) { t.push_back('\\'); t.push_back(wild(s)); }
	else put(t, tokens[s.below(sizeof(tokens) / sizeof(*tokens))]);
}
static void soup(Src& s, Ctx& ctx) {
	Opts o = options(s);
	Chars t; size_t n = 1 + s.len(0, 14);
	while (n--) token(s, t);
	ctx.describe(showOpts(o) + show(t));
	check(t, o, s.below(4), ctx);
}
static void inSets(Src& s, Ctx& ctx) {
	// a set and little else
	Opts o = options(s);
	static const char* tokens[] = {"a", "c", "z", "-", "-", "^", "[", "\\-", "\\^", "\\[", "\\]", "\\\\", "\\x61", "\\x{7A}", "\\x{110000}", "\\x", "\\d", "\\W", "\\n", "\\*", "\\.", "*", "(", ")", "|", "{", "}", "$", "&", "~", "\\&", "\\q", "\\x{10FFFF}", "\\x00"};
	Chars t; if (s.coin()) token(s, t);
	t.push_back('['); if (s.chance(1, 3)) t.push_back('^');
	size_t n = s.below(6); while (n--) if (s.chance(1, 10)) t.push_back(wild(s)); else put(t, tokens[s.below(sizeof(tokens) / sizeof(*tokens))]);
	if (!s.chance(1, 8)) t.push_back(']');
	if (s.coin()) token(s, t);
	ctx.describe(showOpts(o) + show(t));
	check(t, o, s.below(4), ctx);
}
static void mutated(Src& s, Ctx& ctx) {
	Opts o = options(s);
	pat::Options po; po.utf8 = o.utf8; po.andnot = o.andnot; po.depth = 2; po.maxTerms = 8;
	pat::Pattern p = pat::generate(s, po);
	Chars t; std::string ps = p.text;
	if (o.utf8) { const char* b = ps.data(); const char* e = b + ps.size(); while (b != e) t.push_back(P::Encodings::Utf8().FromLocal(b, e)); }
	else for (unsigned char c : ps) t.push_back(c);
	std::string was = show(t);
	size_t n = s.below(4);
	while (n-- && !t.empty()) {
		size_t at = s.below(t.size());
		switch (s.below(6)) {
		case 0: t.erase(t.begin() + at); break;
		case 1: { Chars x; token(s, x); t.insert(t.begin() + at, x.begin(), x.end()); break; }
		case 2: t.insert(t.begin() + at, t[s.below(t.size())]); break;
		case 3: t.resize(at); break;
		case 4: std::swap(t[at], t[s.below(t.size())]); break;
		case 5: t[at] = wild(s); break;
		}
	}
	ctx.describe(showOpts(o) + show(t) + " from " + was);
	check(t, o, s.below(4), ctx);
}
static void wilds(Src& s, Ctx& ctx) {
	Opts o = options(s);
	Chars t; size_t n = s.len(0, 30);
	while (n--) { if (s.chance(1, 40)) t.push_back(s.coin() ? (uint32_t)s.range(0x110000, 0xFFFFFFFF) : s.oneOf<uint32_t>({0x110000, 0x80000000, 0x8000005B, 0x80000064, 0x8000005C, 0x80000000 + ')', 0xFFFFFFFF, 0xFFFFFFFE, 0xFFFFF000, 0xF0000000, 0x7FFFFFFF})); else t.push_back(wild(s)); }
	ctx.describe(showOpts(o) + show(t));
	check(t, o, s.below(4), ctx);
}
// one lexer for several patterns, some of them malformed
static void reuse(Src& s, Ctx& ctx) {
	Opts o = options(s); o.capture = 0;
	P::Lexer lx; install(lx, o, s.below(4));
	std::string d;
	size_t n = 2 + s.below(4);
	for (size_t k = 0; k < n; ++k) {
		Chars t; size_t m = s.len(0, 5); while (m--) token(s, t);
		d += (k ? ", then " : "") + show(t);
		ctx.describe(showOpts(o) + d);
		try { check(t, o, 0, ctx, &lx); } catch (Fail& f) { fail(d + ": " + f.msg); } catch (Discard&) {}
	}
	ctx.nontrivial(d);
}
// plain strings of bytes mean the characters with these codes
static void bytes(Src& s, Ctx& ctx) {
	Chars t; size_t n = 1 + s.len(0, 12);
	while (n--) if (s.chance(1, 4)) t.push_back(0x80 + s.below(0x80)); else { Chars x; token(s, x); for (uint32_t c : x) if (c < 0x100) t.push_back(c); }
	std::string text; for (uint32_t c : t) text += (char)c;
	ctx.describe(show(text));
	refparse::Result want = refparse::parse(t, refparse::Syntax());
	bool hard = false;
	if (want.verdict == refparse::Result::Accepted ? refparse::cost(want.tree, false, hard) > 2000 : text.find('{') != std::string::npos) discard();
	auto parse = [&](int way, P::Fsm& f) {
		try {
			if (way == 0) { P::Lexer lx(text); f = lx.Parse(); }
			else if (way == 1) { P::Lexer lx(text.c_str()); f = lx.Parse(); }
			else if (way == 2) { P::Lexer lx(text.begin(), text.end()); f = lx.Parse(); }
			else if (way == 3) { P::Lexer lx; lx.Assign(text.data(), text.data() + text.size()); f = lx.Parse(); }
			else { std::vector<unsigned char> v(text.begin(), text.end()); P::Lexer lx(v); f = lx.Parse(); }
			return true;
		} catch (P::Error&) { return false; }
	};
	Lang l; bool have = false;
	if (want.verdict == refparse::Result::Accepted && want.known) try { l = pat::lang(want.tree, false); have = true; } catch (ref::TooBig&) {}
	for (int way = 0; way < 5; ++way) {
		if (way == 1 && text.find('\0') != std::string::npos) continue;
		P::Fsm f; bool ok = parse(way, f);
		ctx.count();
		if (want.verdict == refparse::Result::Accepted && !ok) fail(str(show(text), " is well-formed, but refused (", way, ")"));
		if (want.verdict == refparse::Result::Refused && ok) fail(str(show(text), " is accepted, although malformed (", want.why, ", ", way, ")"));
		if (ok) usable(f, show(text));
		if (ok && have) try { expectFsm(f, l, show(text), &ctx); } catch (ref::TooBig&) {}
	}
	ctx.nontrivial(text);
}
// every single character and every escaped one, in the common contexts
static void singles(Src& s, Ctx& ctx) {
	uint64_t k = ctx.index; uint32_t c = k % 272; k /= 272; int context = k % 6; k /= 6; Opts o; o.utf8 = k & 1; o.andnot = k & 2; o.capture = k & 4 ? 1 : 0;
	if (c >= 256) { static const uint32_t more[] = {0xF000, 0xF05B, 0xF05D, 0xF07C, 0xF064, 0xF0FF, 0xFFFF, 0x10FFFF, 0x110000, 0x80000000, 0x8000005B, 0x80000064, 0xFFFFFFFF, 0xFFFFFFFE, 0xD800, 0x410}; c = more[c - 256]; }
	Chars t;
	switch (context) {
	case 0: t = {c}; break;
	case 1: t = {'\\', c}; break;
	case 2: t = {'a', c, 'b'}; break;
	case 3: t = {'[', 'a', c, ']'}; break;
	case 4: t = {'[', 'a', '\\', c, ']'}; break;
	case 5: t = {'[', c, '-', 0x7A, ']'}; break;
	}
	ctx.describe(showOpts(o) + show(t));
	check(t, o, 0, ctx);
}
// nested deeply, or very long: what is balanced is parsed (up to 1500 levels), what is not is refused
static void deep(Src& s, Ctx& ctx) {
	Opts o; o.utf8 = s.coin(); o.andnot = s.coin(); if (s.chance(1, 4)) o.capture = 1 + s.below(4);
	static const size_t marks[] = {30, 48, 49, 50, 64, 65, 66, 97, 98, 99, 100, 128, 199, 200, 255, 256, 257, 300};
	size_t levels = s.chance(1, 3) ? 300 + s.below(s.chance(1, 5) ? 1200 : 300) : marks[s.below(18)];
	bool beyond = s.chance(1, 10); if (beyond) levels = 5200 + s.below(20000);
	int style = (int)s.below(4);
	Chars t, close; size_t negations = 0;
	Lang l = ref::none(); bool known = !o.capture && !beyond;
	Word head, tail;
	for (size_t i = 0; i < levels; ++i) {
		bool extra = style == 1 ? true : style == 2 && i % 16 == 0;
		if (style == 3 && o.andnot && negations < 12 && i % 9 == 5) { t.push_back('~'); ++negations; known = false; }
		t.push_back('(');
		if (extra && levels <= 1600) { t.push_back('b'); head.push_back('b'); }
		if (style == 2 && i % 64 == 3 && levels <= 1600) { put(t, "c|"); known = false; }
		close.push_back(')'); if (extra && levels <= 1600) { close.push_back('c'); tail.push_back('c'); }
	}
	// the letters c stand behind the parentheses of inner levels only: the outermost one comes last
	put(t, "a"); t.insert(t.end(), close.begin(), close.end());
	int damage = (int)s.below(6); const char* what = "";
	switch (damage) {
	case 0: t.pop_back(); while (!t.empty() && t.back() != ')') t.pop_back(); if (!t.empty()) t.pop_back(); what = ", one not closed"; break;
	case 1: t.push_back(')'); what = ", one too many closed"; break;
	case 2: t.insert(t.begin() + s.below(levels), '*'); what = ", damaged in front"; known = false; break;
	default: damage = -1;
	}
	std::string d = str(showOpts(o), levels, " levels of parentheses, style ", style, what);
	ctx.describe(d);
	P::Fsm f; bool accepted = false;
	try { P::Lexer lx(t.begin(), t.end()); install(lx, o, s.below(4)); f = lx.Parse(); accepted = true; }
	catch (P::Error& e) { if (!*e.what()) fail(d + ": an error without a message"); }
	ctx.count(); ctx.label(damage < 0 ? "balanced" : "damaged"); if (beyond) ctx.label("beyond any stack");
	if (damage < 0 && !beyond && !accepted) fail(d + " is well-formed, but refused");
	if (damage >= 0 && damage < 2 && accepted) fail(d + " is accepted");
	ctx.nontrivial(d);
	if (!accepted) return;
	usable(f, d);
	if (known && damage < 0) { Word w = head; w.push_back('a'); w.insert(w.end(), tail.begin(), tail.end()); expectFsm(f, ref::word(w), d, &ctx); ctx.label("meaning compared"); }
}
int main(int argc, char** argv) {
	Suite s;
	s.id = "C12";
	s.rule = "texts of at least two characters (distinct texts with options)";
	s.assumptions = {"up to about 60 characters, but up to 25000 in the simple forms of the law 'deep' (groups nested up to 1500 levels have to be accepted); repetition counts which would build automata of more than 3000 states, and conjunctions or negations of large parts, are left out: the library sets no limit there", "where the syntax documents no outcome (unnegated \\N \\R \\T, an escaped NUL, a hyphen after a class inside a set, {? with captures) any outcome but a crash is accepted", "AddressSanitizer, bounds checks and the library's own assertions are on; 40 s of processor time per case count as an endless loop"};
	s.laws = {
		{"soup", 6000, 400000, soup},
		{"sets", 4000, 200000, inSets},
		{"mutated", 4000, 300000, mutated},
		{"wilds", 2000, 100000, wilds},
		{"reuse", 1500, 60000, reuse},
		{"bytes", 2000, 80000, bytes},
		{"deep", 250, 15000, deep},
		{"singles", 272 * 6 * 8, 272 * 6 * 8, singles, true},
	};
	return run(s, argc, argv);
}
