// C20: encodings round-trip characters and refuse malformed text, against reference encoders and decoders.
#include "pireutil.h"
#include "genfsm.h"
#include <pire/easy.h>
using namespace pbt;
using namespace pu;
namespace P = Pire;
typedef uint32_t U;

static const P::Encoding& enc(bool utf8) { return utf8 ? P::Encodings::Utf8() : P::Encodings::Latin1(); }
static std::string want(U c, bool utf8) { if (!utf8) return c < 0x80 ? std::string(1, (char)c) : std::string(); std::string s; for (unsigned char b : ref::utf8(c)) s += (char)b; return s; }

// A block of exactly the given size: reading past it is seen by the sanitizer.
struct Exact {
	std::unique_ptr<char[]> p; size_t n;
	explicit Exact(const std::string& s): p(new char[s.size()]), n(s.size()) { if (n) memcpy(p.get(), s.data(), n); }
	const char* begin() const { return p.get(); } const char* end() const { return p.get() + n; }
};
// Length of the character at @p i, 0 when malformed; the character into @p c.
static size_t decode(const std::string& s, size_t i, bool utf8, U* c) {
	unsigned char b = s[i];
	if (b < 0x80) { *c = b; return 1; }
	if (!utf8) return 0;
	size_t len = b >= 0xC0 && b < 0xE0 ? 2 : b >= 0xE0 && b < 0xF0 ? 3 : b >= 0xF0 && b < 0xF8 ? 4 : 0;
	if (!len || s.size() - i < len) return 0;
	U r = b & (0xFF >> (len + 1));
	for (size_t k = 1; k < len; ++k) { unsigned char x = s[i + k]; if (x < 0x80 || x > 0xBF) return 0; r = r * 64 + (x - 0x80); }
	*c = r; return len;
}
static void checkText(const std::string& text, bool utf8, Ctx& ctx) {
	Exact x(text);
	std::vector<U> chars; bool bad = false; size_t i = 0;
	while (i < text.size()) { U c; size_t n = decode(text, i, utf8, &c); if (!n) { bad = true; break; } chars.push_back(c); i += n; }
	// one by one
	const char* p = x.begin();
	for (size_t k = 0; k < chars.size(); ++k) {
		const char* q = p; U c, ignored; U got;
		try { got = enc(utf8).FromLocal(p, x.end()); } catch (P::Error&) { fail(str("character ", k, " of ", show(text), " is refused")); }
		c = chars[k]; size_t n = decode(text, q - x.begin(), utf8, &ignored);
		if (got != c) fail(str("character ", k, " of ", show(text), " is read as ", got, ", expected ", c));
		if ((size_t)(p - q) != n) fail(str("character ", k, " of ", show(text), " takes ", p - q, " bytes, expected ", n));
	}
	{ bool threw = false; const char* q = p; try { enc(utf8).FromLocal(p, x.end()); } catch (P::Error&) { threw = true; }
	  if (!threw) fail(str(bad ? "malformed text is read at " : "a character is read from the end of ", q - x.begin(), " in ", show(text))); }
	// and at once
	std::vector<P::wchar32> all; bool threw = false;
	try { enc(utf8).FromLocal(x.begin(), x.end(), std::back_inserter(all)); } catch (P::Error&) { threw = true; }
	if (threw != bad) fail(str(show(text), threw ? " is refused" : " is accepted"));
	if (std::vector<U>(all.begin(), all.end()) != chars) fail(str(show(text), " is read as ", all.size(), " characters, some of them wrong"));
	// through the easy interface: the same text is refused as a pattern
	bool safe = true; for (U ch : chars) safe &= bad || !ch || (ch >= 0x80 && ch < 0x110000) || (ch < 0x80 && isalnum((int)ch));
	if (safe && text.size() < 12) {
		bool t2 = false;
		try { if (utf8) P::Regexp re(text, P::UTF8); else P::Regexp re(text); } catch (P::Error&) { t2 = true; }
		if (t2 != bad) fail(str("pattern ", show(text), t2 ? " is refused" : " is accepted"));
	}
	ctx.count(chars.size() + 2);
	ctx.label(bad ? "malformed" : "well-formed");
}

static void characters(Src&, Ctx& ctx) {
	U from = (U)ctx.index * 0x800; ctx.describe(str("characters from ", from));
	for (U c = from; c < from + 0x800; ++c) for (int u = 0; u < 2; ++u) {
		std::string s = enc(u).ToLocal(c), w = want(c, u);
		if (s != w) fail(str("character ", c, u ? " in UTF-8" : "", " is written as ", show(s), ", expected ", show(w)));
		if (w.empty()) continue;
		Exact x(s); const char* p = x.begin();
		U got = enc(u).FromLocal(p, x.end());
		if (got != c || p != x.end()) fail(str("character ", c, " is read back as ", got, " from ", p - x.begin(), " bytes of ", s.size()));
		for (size_t n = 1; n < s.size(); ++n) { Exact y(s.substr(0, n)); const char* q = y.begin(); bool t = false; try { enc(u).FromLocal(q, y.end()); } catch (P::Error&) { t = true; } if (!t) fail(str("the first ", n, " bytes of character ", c, " are accepted")); }
		ctx.count(2);
	}
	ctx.nontrivial(str(from));
}
static U anyChar(Src& s) {
	switch (s.below(5)) { case 0: return (U)s.below(0x80); case 1: return (U)s.below(0x800); case 2: return (U)s.below(0x10000); case 3: return (U)s.below(0x110000);
	default: return s.oneOf({0u, 0x7Fu, 0x80u, 0x7FFu, 0x800u, 0xFFFFu, 0x10000u, 0x10FFFFu, 0x3FFFFu, 0x40000u, 0xFFFu, 0x1000u}); }
}
static void texts(Src& src, Ctx& ctx) {
	bool utf8 = src.chance(2, 3); std::string text; size_t n = src.len(0, 12);
	for (size_t i = 0; i < n; ++i) text += enc(utf8).ToLocal(utf8 ? anyChar(src) : (U)src.below(0x80));
	bool broken = src.chance(1, 2);
	if (broken && !text.empty()) switch (src.below(4)) {
	case 0: text.resize(src.below(text.size())); break;
	case 1: text.erase(src.below(text.size()), 1); break;
	case 2: text[src.below(text.size())] = (char)src.below(256); break;
	default: text.insert(src.below(text.size() + 1), 1, (char)(128 + src.below(128)));
	}
	ctx.describe(str(utf8 ? "UTF-8 " : "7 bits ", show(text)));
	checkText(text, utf8, ctx);
	if (text.size() > 2) ctx.nontrivial(str(utf8, text));
}
static void garbage(Src& src, Ctx& ctx) {
	static const unsigned char b[] = {0x00, 0x41, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xE1, 0xED, 0xEF, 0xF0, 0xF3, 0xF4, 0xF5, 0xF7, 0xF8, 0xFB, 0xFC, 0xFD, 0xFE, 0xFF};
	std::string text; size_t n = src.len(0, 9); for (size_t i = 0; i < n; ++i) text += (char)(src.chance(1, 6) ? src.below(256) : b[src.below(sizeof b)]);
	bool utf8 = src.chance(3, 4); ctx.describe(str(utf8 ? "UTF-8 " : "7 bits ", show(text)));
	checkText(text, utf8, ctx);
	if (text.size() > 1) ctx.nontrivial(str(utf8, text));
}
// all texts of up to two bytes, and longer ones at the limits of the ranges
static void shortTexts(Src&, Ctx& ctx) {
	ctx.describe(str("texts starting with byte ", ctx.index)); std::string a(1, (char)ctx.index);
	static const unsigned char b[] = {0x00, 0x7F, 0x80, 0xBF, 0xC0, 0xFF};
	for (int u = 0; u < 2; ++u) {
		checkText("", u, ctx); checkText(a, u, ctx);
		for (int c = 0; c < 256; ++c) checkText(a + (char)c, u, ctx);
		for (unsigned char x : b) for (unsigned char y : b) { checkText(a + (char)x + (char)y, u, ctx); for (unsigned char z : b) { checkText(a + (char)x + (char)y + (char)z, u, ctx); for (unsigned char v : b) checkText(a + (char)x + (char)y + (char)z + (char)v, u, ctx); } }
	}
	ctx.nontrivial(a);
}
// what a pattern of quoted characters matches is the text itself
static void quoted(Src& src, Ctx& ctx) {
	bool utf8 = src.chance(3, 4); std::string text, pattern; ref::Lang l = ref::epsilon();
	size_t n = src.len(0, 4);
	for (size_t i = 0; i < n; ++i) {
		if (src.chance(1, 5)) { pattern += "."; text += "?"; l = ref::cat(l, utf8 ? ref::utf8Dot() : ref::chars(ref::bytes())); continue; }
		U c = utf8 ? anyChar(src) : (U)src.below(0x80);
		std::string s = want(c, utf8); if (c < 128 && !isalnum((int)c)) { c = 'a'; s = "a"; }
		text += s; pattern += s;
		ref::Word w; for (char x : s) w.push_back((unsigned char)x); l = ref::cat(l, ref::words({w}));
	}
	ctx.describe(str(utf8 ? "UTF-8 " : "", show(pattern)));
	ParseOpts o; o.utf8 = utf8;
	P::Fsm f = parse(pattern, o); expectFsm(f, l, show(pattern), &ctx);
	if (n > 1) ctx.nontrivial(pattern);
}
static void dots(Src& src, Ctx& ctx) {
	gen::RawOptions o; o.maxStates = 5; P::Fsm f = gen::raw(src, o).fsm; bool utf8 = src.coin(); ctx.describe(str("dot of ", utf8 ? "UTF-8" : "7 bits", " after an automaton of ", f.Size(), " states"));
	ref::Lang l = langOf(f);
	enc(utf8).AppendDot(f);
	expectFsm(f, ref::cat(l, utf8 ? ref::utf8Dot() : ref::chars(ref::bytes())), "after AppendDot", &ctx);
	if (!l.empty()) { std::ostringstream o2; o2 << f; ctx.nontrivial(str(utf8, " ", o2.str())); }
}

// texts of many thousands of characters
static void longTexts(Src& src, Ctx& ctx) {
	bool utf8 = src.chance(3, 4); size_t n = src.oneOf<size_t>({255, 256, 257, 1023, 1024, 4095, 4096, 4097, 65535, 65536, 70000}); uint64_t r = src.below(1000000) * 7919 + 1;
	std::string text;
	while (n--) { r = r * 6364136223846793005ull + 1442695040888963407ull; uint32_t v = (uint32_t)(r >> 33); text += want(utf8 && (v & 1) ? (v >> 8) % 0x110000 : utf8 && (v & 2) ? (v >> 8) % 0x800 : (v >> 8) % 0x80, utf8); }
	int broken = (int)src.below(4); const char* what = "";
	if (broken == 1) { text.erase(text.size() - 1); what = ", the last byte cut"; } else if (broken == 2) { text[src.below(text.size())] = (char)0xFF; what = ", one byte damaged"; } else if (broken == 3) { text += (char)0xF4; what = ", a lead byte added"; }
	std::string d = str(utf8 ? "UTF-8 " : "7 bits ", text.size(), " bytes", what); ctx.describe(d);
	try { checkText(text, utf8, ctx); } catch (Fail& f) { fail(d + ": " + f.msg.substr(0, 80) + " ... " + f.msg.substr(f.msg.size() > 100 ? f.msg.size() - 100 : 0)); }
	ctx.nontrivial(d);
}

int main(int argc, char** argv) {
	Suite s;
	s.id = "C20";
	s.rule = "a text of at least two bytes (or block of characters); distinct by encoding and text";
	s.assumptions = {"UTF-8 is decoded by its structure only (lead byte and number of continuation bytes): overlong forms, surrogates and values above 10FFFF are not called malformed; values from 200000 are not characters"};
	s.laws = {
		{"characters", 1024, 1024, characters, true},
		{"short-texts", 256, 256, shortTexts, true},
		{"texts", 12000, 3000000, texts},
		{"garbage", 12000, 3000000, garbage},
		{"long", 150, 10000, longTexts},
		{"quoted", 2000, 300000, quoted},
		{"dots", 1200, 200000, dots},
	};
	return run(s, argc, argv);
}
