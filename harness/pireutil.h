// Bridges between pire's public interface and the reference model.
#pragma once
#include "ref.h"
#include <pire/pire.h>
#include <pire/stub/stl.h>
#include <pire/stub/lexical_cast.h>
#include <pire/stub/saveload.h>
#include <pire/stub/memstreams.h>
#include <sstream>

namespace pu {

using ref::Lang;
using ref::Word;
using ref::BM;
using ref::EM;

/// The automaton's structure as seen through its public queries
inline ref::Nfa nfaOf(const Pire::Fsm& f) {
	ref::Nfa n;
	for (size_t s = 0; s < f.Size(); ++s) n.add();
	for (size_t s = 0; s < f.Size(); ++s) {
		// letters with equal destinations form one edge label
		const Pire::Fsm::StatesSet* cur = nullptr;
		std::vector<std::pair<const Pire::Fsm::StatesSet*, ref::CharSet>> groups;
		size_t g = 0;
		for (int c = 0; c < ref::NSYM; ++c) {
			const Pire::Fsm::StatesSet& d = f.Destinations(s, (Pire::Char)c);
			if (c == 257) { for (size_t t : d) { if (t >= f.Size()) pbt::fail("transition to a non-existing state"); n.eps((int)s, (int)t); } continue; }
			if (d.empty()) continue;
			if (&d != cur && !(cur && *cur == d)) {
				for (g = 0; g < groups.size() && !(groups[g].first == &d || *groups[g].first == d); ++g) {}
				if (g == groups.size()) groups.push_back({&d, ref::CharSet()});
				cur = &d;
			}
			groups[g].second.set(c);
		}
		for (auto& gr : groups) for (size_t t : *gr.first) {
			if (t >= f.Size()) pbt::fail(pbt::str("the automaton has a transition from state ", s, " to the non-existing state ", t));
			n.edge((int)s, gr.second, (int)t);
		}
		n.fin[s] = f.IsFinal(s);
	}
	n.starts.push_back((int)f.Initial());
	return n;
}
inline Lang langOf(const Pire::Fsm& f, size_t limit = 6000) { return ref::determinize(nfaOf(f), limit); }

/// fails when the automaton's language differs
inline void expectFsm(const Pire::Fsm& f, const Lang& l, const std::string& what, pbt::Ctx* ctx = nullptr) {
	Lang got = langOf(f);
	Word w;
	if (ctx) ctx->count(got.size());
	if (ref::differ(got, l, &w))
		pbt::fail(pbt::str(what, ": the automaton ", got.accepts(w) ? "accepts " : "does not accept ", pbt::showWord(w), ", it should ", got.accepts(w) ? "not" : "accept it"));
}

template<class Sc> std::string stateKey(const Sc& sc, const typename Sc::State& st) { return std::to_string(sc.StateIndex(st)); }
inline std::string stateKey(const Pire::SlowScanner&, const Pire::SlowScanner::State& st) {
	std::vector<unsigned> v(st.states.begin(), st.states.end());
	std::sort(v.begin(), v.end());
	return std::string((const char*)v.data(), v.size() * sizeof(unsigned));
}

/// Follows the scanner and the language in lockstep through every reachable pair of states and every symbol.
/// `visit(state, langState, path)` is called for every pair.
template<class Sc, class F>
size_t explore(const Sc& sc, const Lang& l, F visit, size_t limit = 20000) {
	struct Node { typename Sc::State st; int ls; int parent; int sym; };
	std::vector<Node> nodes;
	std::unordered_map<std::string, char> seen;
	auto path = [&](size_t i) { Word w; while (nodes[i].parent >= 0) { w.push_back(nodes[i].sym); i = nodes[i].parent; } std::reverse(w.begin(), w.end()); return w; };
	auto push = [&](const typename Sc::State& st, int ls, int parent, int sym) {
		std::string k = stateKey(sc, st) + "/" + std::to_string(ls);
		if (!seen.emplace(k, 1).second) return;
		nodes.push_back(Node{st, ls, parent, sym});
	};
	typename Sc::State init;
	sc.Initialize(init);
	push(init, 0, -1, 0);
	for (size_t i = 0; i < nodes.size() && nodes.size() < limit; ++i) {
		visit(nodes[i].st, nodes[i].ls, [&]() { return path(i); });
		for (int c = 0; c < ref::NSYM; ++c) {
			if (c == 256 || c == 257) continue;
			typename Sc::State st = nodes[i].st;
			Pire::Step(sc, st, (Pire::Char)c);
			push(st, l.next(nodes[i].ls, c), (int)i, c);
		}
	}
	return nodes.size();
}

/// The scanner's verdict equals the language's after every word; `dead` also demands an exact Dead()
template<class Sc>
void expectScanner(const Sc& sc, const Lang& l, const std::string& what, pbt::Ctx* ctx = nullptr, bool dead = false) {
	std::vector<char> al = l.alive();
	size_t n = explore(sc, l, [&](const typename Sc::State& st, int ls, std::function<Word()> path) {
		bool f = sc.Final(st);
		if (f != (l.fin[ls] != 0))
			pbt::fail(pbt::str(what, f ? " accepts " : " does not accept ", pbt::showWord(path()), f ? ", it should not" : ", it should"));
		if (dead && sc.Dead(st) != !al[ls])
			pbt::fail(pbt::str(what, " after ", pbt::showWord(path()), " reports dead=", sc.Dead(st), ", but an accepting continuation ", al[ls] ? "exists" : "does not exist"));
		if (!dead && sc.Dead(st) && al[ls])
			pbt::fail(pbt::str(what, " after ", pbt::showWord(path()), " reports dead, but an accepting continuation exists"));
	});
	if (ctx) ctx->count(n * 258);
}

/// Half-final scanners tell their verdict by the list of matched expressions once the end mark was consumed:
/// checked for every word without end marks, followed by one.
template<class Sc>
void expectHalfFinal(const Sc& sc, const Lang& l, const std::string& what, pbt::Ctx* ctx = nullptr, size_t limit = 20000) {
	struct Node { typename Sc::State st; int ls; int parent; int sym; };
	std::vector<Node> nodes;
	std::set<std::tuple<size_t, bool, int>> seen;
	auto listed = [&](typename Sc::State st) { auto r = sc.AcceptedRegexps(st); size_t k = r.second - r.first; if (k > 1 || (k && *r.first != 0)) pbt::fail(what + " lists a wrong expression number"); return k != 0; };
	auto path = [&](size_t i) { Word w; while (nodes[i].parent >= 0) { w.push_back(nodes[i].sym); i = nodes[i].parent; } std::reverse(w.begin(), w.end()); return w; };
	auto push = [&](const typename Sc::State& st, int ls, int parent, int sym) {
		if (seen.insert(std::make_tuple((size_t)sc.StateIndex(st), listed(st), ls)).second) nodes.push_back(Node{st, ls, parent, sym});
	};
	typename Sc::State init;
	sc.Initialize(init);
	push(init, 0, -1, 0);
	for (size_t i = 0; i < nodes.size() && nodes.size() < limit; ++i) {
		{
			typename Sc::State st = nodes[i].st;
			Pire::Step(sc, st, Pire::EndMark);
			bool want = l.fin[l.next(nodes[i].ls, EM)] != 0, got = listed(st);
			if (want != got) pbt::fail(pbt::str(what, got ? " reports a match after " : " reports no match after ", pbt::showWord(path(i)), " and the end mark"));
		}
		for (int c = 0; c < ref::NSYM; ++c) {
			if (c == 256 || c == 257 || c == EM) continue;
			typename Sc::State st = nodes[i].st;
			Pire::Step(sc, st, (Pire::Char)c);
			push(st, l.next(nodes[i].ls, c), (int)i, c);
		}
	}
	if (ctx) ctx->count(nodes.size());
}
template<class Sc> bool halfVerdict(const Sc& sc, typename Sc::State st) { auto r = sc.AcceptedRegexps(st); return r.first != r.second; }

template<class Sc> bool acceptsWord(const Sc& sc, const Word& w) {
	typename Sc::State st; sc.Initialize(st);
	for (int c : w) Pire::Step(sc, st, (Pire::Char)c);
	return sc.Final(st);
}

/// A heap copy of a text placed so that reads outside of it are seen by the address sanitizer
class Text {
public:
	/// `shift`: offset of the first byte from a 16-byte boundary
	Text(const std::string& s, size_t shift = 0): m_size(s.size()) {
		// the block ends right after the text; its start is aligned by malloc
		m_block = (char*)malloc(shift + s.size() + 0 ? shift + s.size() : 1);
		m_begin = m_block + shift;
		memcpy(m_begin, s.data(), s.size());
	}
	~Text() { free(m_block); }
	Text(const Text&) = delete;
	const char* begin() const { return m_begin; }
	const char* end() const { return m_begin + m_size; }
private:
	char* m_block; char* m_begin; size_t m_size;
};

/// std::stringstream based save / load
template<class Sc> std::string save(const Sc& sc) { std::ostringstream o(std::ios::binary); sc.Save(&o); return o.str(); }

/// Parses; throws Pire::Error. `text` is decoded with the encoding.
struct ParseOpts { bool utf8 = false, ci = false, andnot = false; };
inline Pire::Fsm parse(const std::string& text, const ParseOpts& o = ParseOpts()) {
	std::vector<Pire::wchar32> ws;
	const Pire::Encoding& e = o.utf8 ? Pire::Encodings::Utf8() : Pire::Encodings::Latin1();
	e.FromLocal(text.data(), text.data() + text.size(), std::back_inserter(ws));
	Pire::Lexer lx(ws.begin(), ws.end());
	lx.SetEncoding(e);
	if (o.ci) lx.AddFeature(Pire::Features::CaseInsensitive());
	if (o.andnot) lx.AddFeature(Pire::Features::AndNotSupport());
	return lx.Parse();
}

}
