// Patterns generated together with their meaning. The text follows the documented syntax; the meaning is
// evaluated in two independent ways: as a reference language and by a span matcher over one given word.
#pragma once
#include "ref.h"

namespace pat {

using ref::Lang; using ref::Word;

struct Options {
	bool utf8 = false, andnot = false;
	bool marks = true;        // ^ and $
	bool classes = true;      // \d and the like
	int depth = 3;
	int maxCount = 3;
	std::string letters;      // if set, plain characters are taken from here only
	bool negated = true;
	bool groups = true;
	bool counts = true;
	size_t maxTerms = 14;     // total number of terms
};

struct Node {
	enum Kind { Empty, Set, Dot, Bol, Eol, Cat, Alt, And, Not, Repeat } kind = Empty;
	std::vector<Node> kids;
	std::vector<std::pair<uint32_t, uint32_t>> ranges;   // Set
	bool negated = false;
	int lo = 0, hi = 0;                                   // Repeat
	bool ci = false;                                       // unused here
};

struct Pattern { std::string text; Node tree; };

// ---- meaning: reference language ----
inline Lang lang(const Node& n, bool utf8) {
	switch (n.kind) {
	case Node::Empty: return ref::epsilon();
	case Node::Bol: return ref::sym(ref::BM);
	case Node::Eol: return ref::sym(ref::EM);
	case Node::Dot: return utf8 ? ref::utf8Dot() : ref::chars(ref::bytes());
	case Node::Set: {
		Lang l;
		if (utf8) l = ref::codePoints(n.ranges);
		else {
			ref::CharSet cs;
			for (auto& r : n.ranges) for (uint32_t c = r.first; c <= r.second && c < 0x80; ++c) cs.set(c);
			l = ref::chars(cs);
		}
		if (n.negated) l = ref::minus(utf8 ? ref::utf8Dot() : ref::chars(ref::bytes()), l);
		return l;
	}
	case Node::Cat: { Lang r = ref::epsilon(); for (auto& k : n.kids) { r = ref::cat(r, lang(k, utf8)); } return r; }
	case Node::Alt: { Lang r = ref::none(); for (auto& k : n.kids) r = ref::alt(r, lang(k, utf8)); return r; }
	case Node::And: { Lang r = lang(n.kids[0], utf8); for (size_t i = 1; i < n.kids.size(); ++i) r = ref::both(r, lang(n.kids[i], utf8)); return r; }
	case Node::Not: return ref::inverse(lang(n.kids[0], utf8));
	case Node::Repeat: return ref::repeat(lang(n.kids[0], utf8), n.lo, n.hi);
	}
	return ref::none();
}

// ---- meaning: spans (i, j) of a word matched by the node; words up to 30 symbols ----
typedef std::vector<uint32_t> Spans; // row i: bit j
inline Spans spanMul(const Spans& a, const Spans& b) {
	Spans r(a.size(), 0);
	for (size_t i = 0; i < a.size(); ++i) for (size_t k = 0; k < a.size(); ++k) if (a[i] >> k & 1) r[i] |= b[k];
	return r;
}
inline Spans spanId(size_t n) { Spans r(n, 0); for (size_t i = 0; i < n; ++i) r[i] = 1u << i; return r; }
inline Spans spans(const Node& n, bool utf8, const Word& w) {
	size_t m = w.size() + 1;
	Spans r(m, 0);
	// a structurally well-formed character at position i: its length, 0 if none; cp is its code, shortest tells if it is the standard form
	auto decode = [&](size_t i, uint32_t& cp, bool& shortest) -> size_t {
		if (i >= w.size() || w[i] > 255) return 0;
		unsigned b = w[i]; size_t len;
		if (!utf8) { cp = b; shortest = b < 0x80; return 1; }
		if (b < 0x80) { cp = b; shortest = true; return 1; }
		else if (b >= 0xC0 && b < 0xE0) { len = 2; cp = b & 31; }
		else if (b >= 0xE0 && b < 0xF0) { len = 3; cp = b & 15; }
		else if (b >= 0xF0 && b < 0xF8) { len = 4; cp = b & 7; }
		else return 0;
		for (size_t k = 1; k < len; ++k) { if (i + k >= w.size() || w[i + k] > 255 || (w[i + k] & 0xC0) != 0x80) return 0; cp = cp << 6 | (w[i + k] & 63); }
		static const uint32_t low[] = {0, 0, 0x80, 0x800, 0x10000};
		shortest = cp >= low[len];
		return len;
	};
	switch (n.kind) {
	case Node::Empty: return spanId(m);
	case Node::Bol: for (size_t i = 0; i + 1 < m; ++i) if (w[i] == ref::BM) r[i] |= 1u << (i + 1); return r;
	case Node::Eol: for (size_t i = 0; i + 1 < m; ++i) if (w[i] == ref::EM) r[i] |= 1u << (i + 1); return r;
	case Node::Dot: case Node::Set:
		for (size_t i = 0; i + 1 < m; ++i) {
			uint32_t cp = 0; bool sh = false;
			size_t len = decode(i, cp, sh);
			if (!len) continue;
			bool in = n.kind == Node::Dot;
			if (n.kind == Node::Set) {
				bool listed = false;
				if (sh) for (auto& q : n.ranges) if (cp >= q.first && cp <= q.second) listed = true;
				in = listed != n.negated;
			}
			if (in) r[i] |= 1u << (i + len);
		}
		return r;
	case Node::Cat: { r = spanId(m); for (auto& k : n.kids) r = spanMul(r, spans(k, utf8, w)); return r; }
	case Node::Alt: for (auto& k : n.kids) { Spans x = spans(k, utf8, w); for (size_t i = 0; i < m; ++i) r[i] |= x[i]; } return r;
	case Node::And: { r = spans(n.kids[0], utf8, w); for (auto& k : n.kids) { Spans x = spans(k, utf8, w); for (size_t i = 0; i < m; ++i) r[i] &= x[i]; } return r; }
	case Node::Not: {
		Spans x = spans(n.kids[0], utf8, w);
		for (size_t i = 0; i < m; ++i) for (size_t j = i; j < m; ++j) if (!(x[i] >> j & 1)) r[i] |= 1u << j;
		return r;
	}
	case Node::Repeat: {
		Spans x = spans(n.kids[0], utf8, w);
		Spans cur = spanId(m);
		for (int i = 0; i < n.lo; ++i) cur = spanMul(cur, x);
		r = cur;
		int more = n.hi < 0 ? (int)m + 1 : n.hi - n.lo;
		for (int i = 0; i < more; ++i) { cur = spanMul(cur, x); for (size_t k = 0; k < m; ++k) r[k] |= cur[k]; }
		return r;
	}
	}
	return r;
}
inline bool matches(const Node& n, bool utf8, const Word& w) { return spans(n, utf8, w)[0] >> w.size() & 1; }

// ---- generation ----
struct Gen {
	pbt::Src& s; const Options& o; size_t terms = 0;
	std::map<std::string, uint64_t>* labels = nullptr;
	Gen(pbt::Src& s_, const Options& o_): s(s_), o(o_) {}
	void label(const char* l) { if (labels) ++(*labels)[l]; }

	uint32_t codePoint() {
		if (!o.letters.empty()) return (unsigned char)o.letters[s.below(o.letters.size())];
		if (o.utf8 && s.chance(1, 2)) {
			static const uint32_t cps[] = {0xE9, 0x44F, 0x42F, 0x80, 0xFF, 0x100, 0x7FF, 0x800, 0x2028, 0xD7FF, 0xD800, 0xDFFF, 0xE000, 0xF000, 0xF05B, 0xF05D, 0xF064, 0xF0FF, 0xF100, 0xFEFF, 0xFFFD, 0xFFFF, 0x10000, 0x1F600, 0x10FFFF, 0x15B, 0x17C, 0x12A, 0x128, 0x24};
			if (s.chance(3, 4)) return cps[s.below(sizeof(cps) / sizeof(*cps))];
			return s.below(0x110000);
		}
		switch (s.below(6)) {
		case 0: case 1: case 2: return "abc"[s.below(3)];
		case 3: return (unsigned char)"|().*+?^$\\[]{}&~-x,019dwDz /\n\t"[s.below(31)];
		case 4: return s.below(0x80);
		default: return s.chance(1, 3) ? s.range(0x80, 0x17F) : s.range('a', 'f');
		}
	}
	std::string raw(uint32_t c) { return c < 0x80 ? std::string(1, (char)c) : ref::utf8(c); }
	std::string hex(uint32_t c, bool braces) {
		char b[32];
		if (braces) { snprintf(b, sizeof b, s.coin() ? "%x" : "%X", c); return "\\x{" + std::string(s.chance(1, 4) ? s.below(5) : 0, '0') + b + "}"; }
		snprintf(b, sizeof b, s.coin() ? "%02x" : "%02X", c); return std::string("\\x") + b;
	}
	/// the character may be written as it is (and the encoding can spell it)
	bool rawable(uint32_t c) { return c < 0x80 || (o.utf8); }
	std::string spellHex(uint32_t c) { return c < 0x100 && s.coin() ? hex(c, false) : hex(c, true); }
	std::string spellChar(uint32_t c) {
		bool special = c < 0x80 && c && strchr("|().*+?^$\\[{", (int)c);
		bool escapable = special || c == ']' || c == '}' || (o.andnot && (c == '&' || c == '~'));
		if (o.andnot && (c == '&' || c == '~')) special = true;
		if (s.chance(1, 8) || !rawable(c)) { label("hex code"); return spellHex(c); }
		if (special) { label("escape"); return std::string("\\") + (char)c; }
		if (escapable && s.coin()) { label("escape"); return std::string("\\") + (char)c; }
		return raw(c);
	}
	std::string spellInSet(uint32_t c, bool first, bool endpoint = false) {
		bool must = c == ']' || c == '\\' || c == '-' || (c == '^' && (first || endpoint)) || (c == '[' && endpoint);
		bool may = c < 0x80 && c && strchr(endpoint ? "^[]-\\" : "^[]-\\*+{}()$?.&~", (int)c);
		if (s.chance(1, 8) || !rawable(c)) { label("hex code in set"); return spellHex(c); }
		if (must || (may && s.coin())) { label("escape in set"); return std::string("\\") + (char)c; }
		return raw(c);
	}
	static void addClass(char k, std::vector<std::pair<uint32_t, uint32_t>>& r) {
		auto add = [&](uint32_t a, uint32_t b) { r.push_back({a, b}); };
		switch (k) {
		case 'l': add('A', 'Z'); add('a', 'z'); break;
		case 'c': add(0x410, 0x44F); add(0x401, 0x401); add(0x451, 0x451); break;
		case 'w': addClass('l', r); addClass('c', r); break;
		case 'd': add('0', '9'); break;
		case 's': add(' ', ' '); add('\t', '\t'); add('\r', '\r'); add('\n', '\n'); add(0xA0, 0xA0); break;
		case 'n': add('\n', '\n'); break;
		case 'r': add('\r', '\r'); break;
		case 't': add('\t', '\t'); break;
		}
	}
	Pattern term(int depth) {
		++terms;
		Pattern p;
		unsigned k = s.weighted({40, 10, 14, (unsigned)(o.classes ? 6 : 0), (unsigned)(o.marks ? 8 : 0), (unsigned)(depth > 0 && o.groups ? 24 : 0)});
		switch (k) {
		case 0: {
			uint32_t c = codePoint();
			p.tree.kind = Node::Set; p.tree.ranges = {{c, c}}; p.text = spellChar(c);
			label("character");
			break; }
		case 1: p.tree.kind = Node::Dot; p.text = "."; label("dot"); break;
		case 2: {
			p.tree.kind = Node::Set; p.text = "["; label("set");
			if (o.negated && s.chance(1, 3)) { p.tree.negated = true; p.text += "^"; label("negated set"); }
			size_t items = s.len(s.chance(1, 10) ? 0 : 1, 4);
			bool bound = false; // a '-' here would make a range
			for (size_t i = 0; i < items; ++i) {
				switch (s.below(o.classes ? 8 : 7)) {
				case 0: case 1: case 2: case 3: { uint32_t c = codePoint(); p.text += spellInSet(c, i == 0); p.tree.ranges.push_back({c, c}); bound = true; break; }
				case 4: case 5: case 6: {
					uint32_t a = codePoint(), b;
					if (s.chance(1, 8)) { b = codePoint(); if (b < a && b + 1 != a && !s.chance(1, 3)) std::swap(a, b); if (b > a + 3000) b = a + 3000; }
					else b = a + s.below(o.utf8 ? 200 : 20);
					if (!o.letters.empty()) b = std::max<uint32_t>(a, b % 2 ? a + 1 : a);
					if (b > 0x10FFFF) b = 0x10FFFF;
					p.text += spellInSet(a, i == 0, true) + "-" + spellInSet(b, false, true);
					if (a <= b) p.tree.ranges.push_back({a, b}); else label("reversed range");
					label("range");
					bound = false;
					break; }
				default: { char c = "lcwdsnrt"[s.below(8)]; p.text += std::string("\\") + c; addClass(c, p.tree.ranges); label("class in set"); bound = false; }
				}
			}
			if (!bound && items && o.letters.empty() && s.chance(1, 6)) { p.text += "-"; p.tree.ranges.push_back({'-', '-'}); label("literal minus"); }
			p.text += "]";
			break; }
		case 3: {
			char c = "lcwdsnrt"[s.below(8)];
			p.tree.kind = Node::Set; addClass(c, p.tree.ranges);
			bool neg = o.negated && strchr("lcwds", c) && s.chance(1, 3);
			p.tree.negated = neg;
			std::string e = std::string("\\") + (char)(neg ? toupper(c) : c);
			p.text = s.chance(1, 4) ? "[" + e + "]" : e;
			label(neg ? "negated class" : "class");
			break; }
		case 4: if (s.coin()) { p.tree.kind = Node::Eol; p.text = "$"; } else { p.tree.kind = Node::Bol; p.text = "^"; } label("mark"); break;
		default: { Pattern q = alternative(depth - 1); p.tree = q.tree; p.text = "(" + q.text + ")"; label("group"); }
		}
		return p;
	}
	Pattern iteration(int depth) {
		Pattern p = term(depth);
		if (o.counts && s.chance(1, 3)) {
			int lo, hi; std::string t;
			switch (s.below(6)) {
			case 0: lo = 0; hi = 1; t = "?"; break;
			case 1: lo = 0; hi = -1; t = "*"; break;
			case 2: lo = 1; hi = -1; t = "+"; break;
			case 3: lo = hi = (int)s.below(o.maxCount + 1); t = pbt::str("{", lo, "}"); break;
			case 4: lo = (int)s.below(o.maxCount + 1); hi = -1; t = pbt::str("{", lo, ",}"); break;
			default: lo = (int)s.below(o.maxCount + 1); hi = lo + (int)s.below(3); t = pbt::str("{", lo, ",", hi, "}"); break;
			}
			label("count");
			Pattern r; r.tree.kind = Node::Repeat; r.tree.lo = lo; r.tree.hi = hi; r.tree.kids.push_back(p.tree); r.text = p.text + t;
			return r;
		}
		return p;
	}
	Pattern concatenation(int depth) {
		Pattern p; p.tree.kind = Node::Cat;
		size_t n = s.len(s.chance(1, 10) ? 0 : 1, 4);
		for (size_t i = 0; i < n && terms < o.maxTerms; ++i) { Pattern q = iteration(depth); p.text += q.text; p.tree.kids.push_back(q.tree); }
		if (p.tree.kids.empty()) p.tree.kind = Node::Empty;
		return p;
	}
	Pattern negation(int depth) {
		if (o.andnot && s.chance(1, 5)) {
			label("not");
			Pattern q = concatenation(depth), p; p.tree.kind = Node::Not; p.tree.kids.push_back(q.tree); p.text = "~" + q.text; return p;
		}
		return concatenation(depth);
	}
	Pattern conjunction(int depth) {
		Pattern p = negation(depth);
		if (o.andnot && s.chance(1, 4)) {
			Pattern r; r.tree.kind = Node::And; r.tree.kids.push_back(p.tree); r.text = p.text;
			size_t n = 1 + s.below(2);
			for (size_t i = 0; i < n; ++i) { Pattern q = negation(depth); r.tree.kids.push_back(q.tree); r.text += "&" + q.text; }
			label("and");
			return r;
		}
		return p;
	}
	Pattern alternative(int depth) {
		Pattern p = conjunction(depth);
		if (s.chance(1, 3)) {
			Pattern r; r.tree.kind = Node::Alt; r.tree.kids.push_back(p.tree); r.text = p.text;
			size_t n = 1 + s.below(2);
			for (size_t i = 0; i < n; ++i) { Pattern q = conjunction(depth); r.tree.kids.push_back(q.tree); r.text += "|" + q.text; }
			label("alternative");
			return r;
		}
		return p;
	}
};

inline Pattern generate(pbt::Src& s, const Options& o, std::map<std::string, uint64_t>* labels = nullptr) {
	Gen g(s, o); g.labels = labels;
	return g.alternative(o.depth);
}

}
