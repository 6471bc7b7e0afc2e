// A small choice-sequence based property-testing engine.
//
// A property ("law") draws all its random decisions from a Src. The draws are recorded, so that a failing case
// is a vector of numbers which can be replayed and shrunk (delete blocks, lower values) without type-specific
// shrinkers. Laws run in forked shards; a crash, sanitizer report, failed assertion or runaway CPU time in a
// shard is a violation just like a failed expectation.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <sstream>
#include <functional>
#include <algorithm>
#include <stdexcept>

namespace pbt {

struct Fail { std::string msg; };
struct Discard {};

inline uint64_t mix(uint64_t x) { x += 0x9E3779B97F4A7C15ull; x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull; x = (x ^ (x >> 27)) * 0x94D049BB133111EBull; return x ^ (x >> 31); }
inline uint64_t hashBytes(const void* p, size_t n, uint64_t h = 1469598103934665603ull) {
	const unsigned char* c = (const unsigned char*)p;
	for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ull; }
	return mix(h);
}
inline uint64_t hashStr(const std::string& s, uint64_t h = 1469598103934665603ull) { return hashBytes(s.data(), s.size(), h); }

class Src {
public:
	explicit Src(uint64_t seed): m_state(seed) {}
	explicit Src(const std::vector<uint64_t>& r): m_state(0), m_replay(true), m_choices(r) {}
	Src(const uint8_t* p, size_t n): m_state(0), m_bytes(p), m_end(p + n) {}

	/// uniform in [0, n); 0 is the simplest choice
	uint64_t below(uint64_t n) {
		if (n <= 1) return 0;
		uint64_t v;
		if (m_replay) {
			v = m_pos < m_choices.size() ? m_choices[m_pos] : 0;
			++m_pos;
			if (v >= n) v = n - 1;
		} else if (m_bytes) {
			v = 0;
			uint64_t lim = n - 1;
			while (lim) { v = (v << 8) | (m_bytes < m_end ? *m_bytes++ : 0); lim >>= 8; }
			v %= n;
		} else {
			uint64_t x = next();
			v = (uint64_t)(((unsigned __int128)x * n) >> 64);
		}
		rec.push_back(v);
		if (drawLog && rec.size() < drawLogCap) { drawLog[rec.size()] = v; drawLog[0] = rec.size(); }
		return v;
	}
	/// draws are mirrored here (shared memory), so that they survive a crash of the case
	static uint64_t* drawLog;
	static const size_t drawLogCap = 1 << 20;
	/// uniform in [lo, hi]; lo is the simplest
	int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)below((uint64_t)(hi - lo) + 1); }
	/// true with probability num/den; false is simplest
	bool chance(unsigned num, unsigned den) { return below(den) >= den - num; }
	bool coin() { return below(2) != 0; }
	/// index with probability proportional to the weight; index 0 is the simplest
	size_t weighted(const std::vector<unsigned>& w) {
		uint64_t total = 0; for (unsigned x : w) total += x;
		uint64_t v = below(total);
		for (size_t i = 0; i < w.size(); ++i) { if (v < w[i]) return i; v -= w[i]; }
		return w.size() - 1;
	}
	template<class C> auto pick(const C& c) -> decltype(*c.begin()) { auto it = c.begin(); std::advance(it, below(c.size())); return *it; }
	template<class T> T oneOf(std::initializer_list<T> l) { auto it = l.begin(); std::advance(it, below(l.size())); return *it; }
	/// a length in [lo, hi], small ones more likely
	size_t len(size_t lo, size_t hi) {
		size_t span = hi - lo;
		size_t a = below(span + 1);
		size_t b = below(span + 1);
		return lo + std::min(a, b);
	}

	std::vector<uint64_t> rec;
private:
	uint64_t next() { m_state += 0x9E3779B97F4A7C15ull; uint64_t z = m_state; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
	uint64_t m_state;
	bool m_replay = false;
	std::vector<uint64_t> m_choices;
	size_t m_pos = 0;
	const uint8_t* m_bytes = nullptr;
	const uint8_t* m_end = nullptr;
};

class Ctx {
public:
	std::map<std::string, uint64_t> labels;
	uint64_t checks = 0;            // individual oracle comparisons
	std::string desc;               // human readable form of the current case
	bool interesting = false;
	uint64_t hash = 0;
	uint64_t index = 0;             // index of the case within its law
	bool thorough = false;
	bool replaying = false;

	void label(const std::string& l) { ++labels[l]; }
	void describe(const std::string& d) { desc = d; publish(d); }
	/// marks the current case non-trivial; distinctness is by this hash
	void nontrivial(uint64_t h) { interesting = true; hash = h; }
	void nontrivial(const std::string& s) { nontrivial(hashStr(s)); }
	void count(uint64_t n = 1) { checks += n; }
	void publish(const std::string& d);
	/// A defect of the code that is recorded, not repaired: a failure unless known-findings.txt lists `key` for this property
	void known(const std::string& key, const std::string& msg);
};

/// Bytes currently allocated on the heap (sanitizer builds; 0 elsewhere)
size_t liveBytes();

[[noreturn]] inline void fail(const std::string& m) { throw Fail{m}; }
[[noreturn]] inline void discard() { throw Discard(); }

template<class A> std::string str(const A& a) { std::ostringstream o; o << a; return o.str(); }
template<class A, class... R> std::string str(const A& a, const R&... r) { return str(a) + str(r...); }

/// Printable form of a byte string
std::string show(const std::string& s);
std::string showWord(const std::vector<int>& w);
std::string jsonStr(const std::string& s);

typedef std::function<void(Src&, Ctx&)> LawFn;
struct Law {
	std::string name;
	uint64_t quick;      // cases in the quick tier
	uint64_t thorough;   // cases in the thorough tier
	LawFn fn;
	bool enumerated = false;  // fixed list: same cases in both tiers
	bool leakCheck = false;
};

struct Suite {
	std::string id;
	std::string rule;                       // what makes a case non-trivial
	std::vector<std::string> assumptions;
	std::vector<Law> laws;
	unsigned caseCpuLimit = 40;             // seconds of CPU per case before it counts as a hang
	unsigned shards = 8;
};

/// a directory removed at the end of the run
std::string scratchDir();
int run(Suite& suite, int argc, char** argv);

}

#define PBT_EXPECT(cond, msg) do { if (!(cond)) ::pbt::fail(std::string(msg)); } while (0)
