// A reference parser of the documented pattern syntax: decides whether a sequence of characters is a pattern and what it means.
#pragma once
#include "pattern.h"

namespace refparse {
using pat::Node;

struct Syntax { bool utf8 = false, andnot = false, capture = false; };
struct Refused { std::string why; };
/// constructs for which no outcome is documented: any is fine, except for crashes
struct Open {};

struct Result { enum { Accepted, Refused, Open } verdict; Node tree; bool known = true; size_t cost = 0; std::string why; };

class Parser {
public:
	Parser(const std::vector<uint32_t>& t, const Syntax& s): t(t), syn(s) {}
	bool known = true;      // the meaning is documented
	Node parse() { Node n = alternative(); if (i < t.size()) no("unbalanced"); return n; }
private:
	const std::vector<uint32_t>& t; Syntax syn; size_t i = 0;

	[[noreturn]] void no(const char* why) { throw Refused{why}; }
	bool at(uint32_t c) const { return i < t.size() && t[i] == c; }
	bool any() const { return i < t.size(); }
	static bool in(uint32_t c, const char* s) { return c && c < 0x80 && strchr(s, (int)c); }

	Node alternative() {
		Node n = conjunction();
		if (!at('|')) return n;
		Node r; r.kind = Node::Alt; r.kids.push_back(n);
		while (at('|')) { ++i; r.kids.push_back(conjunction()); }
		return r;
	}
	Node conjunction() {
		Node n = negation();
		if (!syn.andnot || !at('&')) return n;
		Node r; r.kind = Node::And; r.kids.push_back(n);
		while (at('&')) { ++i; r.kids.push_back(negation()); }
		return r;
	}
	Node negation() {
		if (syn.andnot && at('~')) { ++i; Node r; r.kind = Node::Not; r.kids.push_back(concatenation()); return r; }
		return concatenation();
	}
	Node concatenation() {
		Node n; n.kind = Node::Cat;
		while (any() && !at('|') && !at(')') && !(syn.andnot && at('&'))) {
			if (syn.andnot && at('~')) no("misplaced ~");
			n.kids.push_back(iteration());
		}
		return n;
	}
	Node iteration() {
		if (at('*') || at('+') || at('?') || at('{')) no("a count without anything to repeat");
		Node n = term();
		Node r; r.kind = Node::Repeat; r.kids.push_back(n);
		if (at('*')) { r.lo = 0; r.hi = -1; ++i; }
		else if (at('+')) { r.lo = 1; r.hi = -1; ++i; }
		else if (at('?')) { r.lo = 0; r.hi = 1; ++i; }
		else if (at('{')) {
			++i;
			if (syn.capture && at('?')) throw Open();
			r.lo = number();
			if (at('}')) r.hi = r.lo;
			else if (at(',')) { ++i; if (at('}')) r.hi = -1; else { r.hi = number(); if (!at('}') || r.hi < r.lo) no("wrong count"); } }
			else no("wrong count");
			++i;
			if (at('*') || at('+') || at('?') || at('{')) no("two counts");
			return r;
		}
		else return n;
		if (syn.capture && at('?')) ++i;
		if (at('*') || at('+') || at('?') || at('{')) no("two counts");
		return r;
	}
	int number() {
		if (!any() || t[i] < '0' || t[i] > '9') no("wrong count");
		unsigned long long v = 0;
		for (; any() && t[i] >= '0' && t[i] <= '9'; ++i) { v = v * 10 + (t[i] - '0'); if (v > 0x7FFFFFFFull) no("count too large"); }
		return (int)v;
	}
	static bool hexDigit(uint32_t c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
	uint32_t hex() {     // after \x
		unsigned long long v = 0; size_t n = 0;
		auto digit = [&]() { uint32_t c = t[i++]; v = std::min<unsigned long long>(v * 16 + (c <= '9' ? c - '0' : (c | 32) - 'a' + 10), 1ull << 40); ++n; };
		if (at('{')) {
			++i;
			while (any() && !(n && at('}'))) { if (!hexDigit(t[i])) no("wrong hex code"); digit(); }
			if (!at('}')) no("unterminated hex code");
			++i;
		} else {
			while (n < 2) { if (!any() || !hexDigit(t[i])) no("wrong hex code"); digit(); }
		}
		if (v > 0x10FFFF) no("code too large");
		return (uint32_t)v;
	}
	static Node character(uint32_t c) { Node n; n.kind = Node::Set; n.ranges = {{c, c}}; return n; }
	Node term() {
		uint32_t c = t[i++];
		Node n;
		switch (c) {
		case '(': { n = alternative(); if (!at(')')) no("unbalanced"); ++i; return n; }
		case ')': no("unbalanced");
		case '.': n.kind = Node::Dot; return n;
		case '^': n.kind = Node::Bol; return n;
		case '$': n.kind = Node::Eol; return n;
		case '[': return set();
		case '\\': {
			if (!any()) no("dangling backslash");
			c = t[i++];
			if (c == 'x') return character(hex());
			if (in(c, "|().*+?^$\\[]{}") || (syn.andnot && in(c, "&~"))) return character(c);
			if (in(c, "lcwdsnrtLCWDS")) { n.kind = Node::Set; pat::Gen::addClass((char)(c | 32), n.ranges); n.negated = c < 'a'; return n; }
			if (in(c, "NRT") || c == 0) throw Open();
			no("unknown escape");
		}
		}
		return character(c);
	}
	Node set() {
		Node n; n.kind = Node::Set;
		if (at('^')) { ++i; n.negated = true; }
		bool pos = false, neg = false, plain = false;
		for (;;) {
			if (!any()) no("unterminated set");
			uint32_t c = t[i++];
			if (c == ']') break;
			bool endpoint = true;   // may begin a range
			if (c == '-') { n.ranges.push_back({c, c}); plain = true; if (at('-')) throw Open(); continue; }
			if (c == '[' || c == '^') endpoint = false;
			else if (c == '\\') {
				if (!any()) no("dangling backslash");
				c = t[i++];
				if (c == 'x') c = hex();
				else if (c == 0) throw Open();
				else if (in(c, "^[]-\\")) ;
				else if (in(c, "*+{}()$?.&~")) endpoint = false;
				else if (in(c, "lcwdsnrtLCWDS")) {
					(c >= 'a' ? pos : neg) = true; pat::Gen::addClass((char)(c | 32), n.ranges);
					if (at('-') && !(i + 1 < t.size() && t[i + 1] == ']')) throw Open();
					continue;
				}
				else if (in(c, "NRT")) throw Open();
				else no("unknown escape");
			}
			plain = true;
			if (at('-')) {
				if (!endpoint) { if (!(i + 1 < t.size() && t[i + 1] == ']')) throw Open(); n.ranges.push_back({c, c}); continue; }
				++i;
				if (!any()) no("unterminated set");
				uint32_t e = t[i++];
				if (in(e, "^[]-")) no("wrong range");
				if (e == '\\') {
					if (!any()) no("dangling backslash");
					e = t[i++];
					if (e == 'x') e = hex();
					else if (e == 0) throw Open();
					else if (!in(e, "^[]-\\")) no("wrong range");
				}
				if (c <= e) n.ranges.push_back({c, e});
			} else n.ranges.push_back({c, c});
		}
		if (neg) {
			if (pos || n.negated) no("positive and negative classes mixed");
			n.negated = true;
			if (plain) known = false;
		}
		return n;
	}
};

/// how large an automaton comes out, roughly; `hard` if something of that size has to be determinized
inline size_t cost(const Node& n, bool utf8, bool& hard) {
	size_t r = 1;
	switch (n.kind) {
	case Node::Set: { size_t w = 0; for (auto& q : n.ranges) w += q.second - q.first + 1; return utf8 ? 4 + w / 200 : 2; }
	case Node::Dot: return utf8 ? 5 : 2;
	case Node::Repeat: { size_t c = cost(n.kids[0], utf8, hard); unsigned long long m = std::max<long long>(1, std::max<long long>(n.lo, n.hi)); return (size_t)std::min<unsigned long long>(1u << 30, c * m + 2); }
	default: for (auto& k : n.kids) r = std::min<size_t>(1u << 30, r + cost(k, utf8, hard));
	}
	if ((n.kind == Node::And || n.kind == Node::Not) && r > 40) hard = true;
	return r;
}

inline Result parse(const std::vector<uint32_t>& t, const Syntax& s) {
	Result r; r.verdict = Result::Accepted;
	for (uint32_t c : t) if (c > 0x10FFFF) { r.verdict = Result::Refused; r.why = "not a character"; return r; }
	Parser p(t, s);
	try { r.tree = p.parse(); r.known = p.known; }
	catch (Refused& e) { r.verdict = Result::Refused; r.why = e.why; }
	catch (Open&) { r.verdict = Result::Open; }
	return r;
}

}
