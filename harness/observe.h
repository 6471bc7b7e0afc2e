// What a user can see of a scanner's state, as a comparable string; constructors of every scanner kind.
#pragma once
#include "pireutil.h"
#include <pire/extra.h>
#include <sanitizer/asan_interface.h>

namespace obs {
namespace P = Pire;
using pbt::str;

template<class Sc> std::string accepted(const Sc& sc, typename Sc::State st) {
	auto r = sc.AcceptedRegexps(st);
	std::string s = " lists";
	for (auto i = r.first; i != r.second; ++i) s += str(" ", *i);
	return s;
}
template<class R, class S> std::string view(const P::Impl::Scanner<R, S>& sc, const typename P::Impl::Scanner<R, S>::State& st) {
	return str("state ", sc.StateIndex(st), sc.Final(st) ? " final" : "", sc.Dead(st) ? " dead" : "", accepted(sc, st));
}
template<class R, class S> std::string view(const P::Impl::HalfFinalScanner<R, S>& sc, const typename P::Impl::HalfFinalScanner<R, S>::State& st) {
	std::string s = str("state ", sc.StateIndex(st), sc.Final(st) ? " final" : "", sc.Dead(st) ? " dead" : "", accepted(sc, st), " counts");
	for (size_t i = 0; i < sc.RegexpsCount(); ++i) s += str(" ", st.Result(i));
	return s;
}
inline std::string view(const P::SimpleScanner& sc, const P::SimpleScanner::State& st) { return str("state ", sc.StateIndex(st), sc.Final(st) ? " final" : "", sc.Dead(st) ? " dead" : "", accepted(sc, st)); }
inline std::string view(const P::SlowScanner& sc, const P::SlowScanner::State& st) {
	std::vector<unsigned> v(st.states.begin(), st.states.end());
	std::sort(v.begin(), v.end());
	std::string s = "states";
	for (unsigned x : v) s += str(" ", x);
	return s + (sc.Final(st) ? " final" : "") + (sc.Dead(st) ? " dead" : "") + accepted(sc, st);
}
template<class Sc> std::string counts(const Sc& sc, const typename Sc::State& st) {
	std::string s = str("state ", sc.StateIndex(st), " counts");
	for (size_t i = 0; i < sc.RegexpsCount(); ++i) s += str(" ", st.Result((int)i));
	return s;
}
inline std::string view(const P::CountingScanner& sc, const P::CountingScanner::State& st) { return counts(sc, st); }
inline std::string view(const P::AdvancedCountingScanner& sc, const P::AdvancedCountingScanner::State& st) { return counts(sc, st); }
inline std::string view(const P::NoGlueLimitCountingScanner& sc, const P::NoGlueLimitCountingScanner::State& st) { return counts(sc, st); }
inline std::string view(const P::CapturingScanner& sc, const P::CapturingScanner::State& st) {
	return str("state ", sc.StateIndex(st), sc.Final(st) ? " final" : "") + (st.Captured() ? str(" capture ", st.Begin(), "..", st.End()) : " nothing captured");
}
inline std::string view(const P::SlowCapturingScanner& sc, const P::SlowCapturingScanner::State& st) {
	std::string s = str("at ", st.GetPos(), " threads");
	for (size_t i = 0; i < st.GetSize(); ++i) s += str(" ", st.GetState(i).GetNum(), ":", st.GetState(i).GetBegin(), ":", st.GetState(i).GetEnd());
	P::SlowCapturingScanner::SingleState f;
	if (sc.GetCapture(st, f)) s += str(" capture ", f.GetBegin(), "..", f.GetEnd()); else s += " nothing captured";
	return s;
}
template<class A, class B> std::string view(const P::ScannerPair<A, B>& sc, const typename P::ScannerPair<A, B>::State& st) { return view(sc.First(), st.first) + " / " + view(sc.Second(), st.second) + (sc.Final(st) ? " final" : "") + (sc.Dead(st) ? " dead" : ""); }

/// the state of a scanner after a word of bytes and marks, one symbol at a time
template<class Sc> std::string after(const Sc& sc, const ref::Word& w) {
	typename Sc::State st; sc.Initialize(st);
	for (int c : w) P::Step(sc, st, (P::Char)c);
	return view(sc, st);
}

/// A text in memory with every machine word not overlapping it made inaccessible, filled around with `fill`
class Fenced {
public:
	Fenced(const std::string& s, size_t shift, const std::string& fill) {
		m_size = 64 + ((shift + s.size() + 15) / 16) * 16 + 64;
		if (posix_memalign((void**)&m_block, 64, m_size)) abort();
		for (size_t i = 0; i < m_size; ++i) m_block[i] = fill.empty() ? 0 : fill[i % fill.size()];
		m_begin = m_block + 64 + shift;
		m_end = m_begin + s.size();
		memcpy(m_begin, s.data(), s.size());
		const size_t W = sizeof(size_t);
		m_lo = (char*)((size_t)m_begin / W * W);
		m_hi = (char*)(((size_t)m_end + W - 1) / W * W);
		if (s.empty()) m_lo = m_hi = m_begin; // nothing may be read at all
		if (!((size_t)m_lo % 8)) ASAN_POISON_MEMORY_REGION(m_block, m_lo - m_block);
		ASAN_POISON_MEMORY_REGION(m_hi, m_block + m_size - m_hi);
	}
	~Fenced() { ASAN_UNPOISON_MEMORY_REGION(m_block, m_size); free(m_block); }
	Fenced(const Fenced&) = delete;
	const char* begin() const { return m_begin; }
	const char* end() const { return m_end; }
private:
	char *m_block, *m_begin, *m_end, *m_lo, *m_hi; size_t m_size;
};

/// Texts that make fast paths run: long stretches of one byte between short words
/// a text which stays in a state of the language for long before it leaves it (what scanners fast-forward over)
inline std::string lingering(pbt::Src& s, const ref::Lang& l, size_t maxLen) {
	std::string t; int st = s.coin() ? 0 : l.next(0, ref::BM);
	size_t parts = 1 + s.below(5);
	for (size_t i = 0; i < parts && t.size() < maxLen; ++i) {
		std::string stay; std::map<int, std::string> leave;
		for (int c = 0; c < 256; ++c) { int q = l.next(st, c); if (q == st) stay += (char)c; else leave[q] += (char)c; }
		if (!stay.empty()) {
			size_t n = s.below(120); bool mixed = s.chance(1, 3); char c = stay[s.below(stay.size())];
			while (n--) { if (mixed) c = stay[s.below(stay.size())]; t += c; }
		}
		if (leave.empty()) break;
		auto it = leave.begin(); std::advance(it, s.below(leave.size()));
		const std::string& m = it->second;
		t += s.coin() ? m[s.coin() ? 0 : m.size() - 1] : m[s.below(m.size())];
		st = it->first;
	}
	if (t.size() > maxLen) t.resize(maxLen);
	return t;
}

inline std::string texture(pbt::Src& s, const ref::Lang* l, size_t maxLen, const std::string& pool = "abcx") {
	std::string t;
	size_t parts = s.below(6);
	for (size_t i = 0; i < parts && t.size() < maxLen; ++i) switch (s.below(l ? 4 : 3)) {
	case 0: t += std::string(s.below(70), s.coin() ? pool[s.below(pool.size())] : (char)s.oneOf<int>({'x', 'a', 0, 255, '\n', 128})); break;
	case 1: { size_t n = s.below(12); while (n--) t += pool[s.below(pool.size())]; break; }
	case 2: { size_t n = s.below(40); char c = pool[s.below(pool.size())], d = (char)s.below(256); while (n--) t += s.chance(1, 10) ? d : c; break; }
	default: if (s.coin()) t += ref::toBytes(ref::randomWord(s, *l, 20, false, true)); else t += lingering(s, *l, maxLen);
	}
	if (t.size() > maxLen) t.resize(maxLen);
	return t;
}

/// Expressions for counting: the expression and the separator
struct CountPair { std::string re, sep; };
inline CountPair countPair(pbt::Src& s) {
	static const char* res[] = {"a", "ab", "[a-z]+", "a+", "ab?", "(ab)+", "\\w+", "a|bc", "abc|b", "[ab]c*", "a.c", "x", "a+b", "aa"};
	static const char* seps[] = {" ", "\\s+", ".*", "", "x", "-+", "[^a]*", "b?", "\\s", "x|y", ",", "c*"};
	if (s.chance(2, 3)) return CountPair{res[s.below(sizeof(res) / sizeof(*res))], seps[s.below(sizeof(seps) / sizeof(*seps))]};
	pat::Options o; o.marks = false; o.negated = true; o.depth = 2; o.maxTerms = 4; o.letters = "abc"; o.maxCount = 2;
	CountPair c;
	c.re = pat::generate(s, o).text;
	c.sep = pat::generate(s, o).text;
	return c;
}
}
