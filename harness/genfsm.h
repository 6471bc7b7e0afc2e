// Random automata, in two flavours: raw ones built by the low-level interface together with their own copy of
// the structure, and ones made by the parser / building operations.
#pragma once
#include "pireutil.h"
#include "pattern.h"

namespace gen {

using ref::Lang; using ref::Word; using ref::CharSet;

struct Raw {
	Pire::Fsm fsm;
	ref::Nfa nfa;
	std::vector<unsigned long> tags;
	std::string text;
};

struct RawOptions {
	size_t maxStates = 8;
	bool eps = true, marks = true, tags = false, wide = true;
	unsigned long maxTag = 0;
};

inline Raw raw(pbt::Src& s, const RawOptions& o) {
	Raw r;
	size_t n = s.range(1, o.maxStates);
	r.fsm = Pire::Fsm::MakeFalse();
	r.fsm.Resize(n);
	for (size_t i = 0; i < n; ++i) { r.nfa.add(); r.tags.push_back(0); }
	size_t init = s.below(n);
	r.fsm.SetInitial(init);
	r.nfa.starts.push_back((int)init);
	r.text = pbt::str("states ", n, " initial ", init, " edges");
	size_t edges = s.below(3 * n + 1) + (n > 1);
	static const int letters[] = {'a', 'b', 'c', 0, 255, 128};
	for (size_t e = 0; e < edges; ++e) {
		size_t from = s.below(n), to = s.below(n);
		unsigned k = s.weighted({10, (unsigned)(o.eps ? 4 : 0), (unsigned)(o.marks ? 3 : 0), (unsigned)(o.wide ? 3 : 0)});
		if (k == 0) { int c = letters[s.below(6)]; r.fsm.Connect(from, to, (Pire::Char)c); r.nfa.edge((int)from, ref::one(c), (int)to); r.text += pbt::str(" ", from, "-", c, "->", to); }
		else if (k == 1) { r.fsm.Connect(from, to); r.nfa.eps((int)from, (int)to); r.text += pbt::str(" ", from, "-eps->", to); }
		else if (k == 2) { int c = s.coin() ? ref::EM : ref::BM; r.fsm.Connect(from, to, (Pire::Char)c); r.nfa.edge((int)from, ref::one(c), (int)to); r.text += pbt::str(" ", from, c == ref::EM ? "-$->" : "-^->", to); }
		else if (s.chance(1, 4)) { // every letter of the alphabet: makes terminal states likely
			for (unsigned c = 0; c < Pire::MaxChar; ++c) if (c != Pire::Epsilon) r.fsm.Connect(from, to, (Pire::Char)c);
			r.nfa.edge((int)from, ref::allSyms(), (int)to); r.text += pbt::str(" ", from, "-any->", to);
		} else {
			int a = s.below(256), b = s.range(a, 255);
			for (int c = a; c <= b; ++c) r.fsm.Connect(from, to, (Pire::Char)c);
			r.nfa.edge((int)from, ref::range(a, b), (int)to); r.text += pbt::str(" ", from, "-[", a, "-", b, "]->", to);
		}
	}
	r.text += " final";
	size_t finals = s.below(std::min<size_t>(n, 3) + 1) + (s.chance(1, 8) ? 0 : 1);
	for (size_t i = 0; i < finals; ++i) { size_t st = s.below(n); r.fsm.SetFinal(st, true); r.nfa.fin[st] = 1; r.text += pbt::str(" ", st); }
	if (o.tags) {
		size_t k = s.below(n + 1);
		for (size_t i = 0; i < k; ++i) { size_t st = s.below(n); unsigned long t = 1 + s.below(o.maxTag); r.fsm.SetTag(st, t); r.tags[st] = t; r.text += pbt::str(" tag ", st, "=", t); }
	}
	r.fsm.SetIsDetermined(false);
	return r;
}

/// An automaton made by the parser, sometimes mangled by further operations; its language is given too
inline Pire::Fsm parsed(pbt::Src& s, Lang& l, std::string& text, pat::Options o = pat::Options(), bool surround = false) {
	pat::Pattern p = pat::generate(s, o);
	l = pat::lang(p.tree, o.utf8);
	pu::ParseOpts po; po.andnot = o.andnot; po.utf8 = o.utf8;
	Pire::Fsm f;
	f = pu::parse(p.text, po);
	text = (o.andnot ? "andnot " : "") + pbt::show(p.text);
	if (surround) { f.Surround(); l = ref::surrounded(l); text += ".Surround()"; }
	return f;
}

/// any of the two flavours
inline Pire::Fsm any(pbt::Src& s, Lang& l, std::string& text, size_t maxStates = 7) {
	if (s.coin()) { RawOptions o; o.maxStates = maxStates; Raw r = raw(s, o); l = ref::determinize(r.nfa); text = r.text; return r.fsm; }
	pat::Options o; o.andnot = s.chance(1, 3); o.utf8 = s.chance(1, 6); o.depth = 2; o.maxTerms = 8;
	if (s.coin()) o.letters = "abc";
	return parsed(s, l, text, o, s.chance(1, 4));
}

}
