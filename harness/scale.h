// Automata of tens of thousands of states whose language is known without computing it: one long word, or all
// texts that contain it.
#pragma once
#include "pireutil.h"

namespace scale {
namespace P = Pire;
using pbt::str;

struct Big {
	std::string word; bool around = false; P::Fsm fsm; std::string text;
	bool accepts(const std::string& t) const { return around ? t.find(word) != std::string::npos : t == word; }
};
inline std::string noise(pbt::Src& s, size_t n, const std::string& pool = "abc") {
	// long texts come from a generator of their own, started by one choice
	uint64_t r = s.below(1000000) * 7919 + 1; std::string t; t.reserve(n);
	while (n--) { r = r * 6364136223846793005ull + 1442695040888963407ull; t += pool[(r >> 33) % pool.size()]; }
	return t;
}
inline Big big(pbt::Src& s, size_t n, bool around) {
	Big b; b.word = noise(s, n); b.around = around;
	b.fsm.Append(b.word); if (around) b.fsm.Surround();
	b.text = str(around ? "texts with a word of " : "a word of ", n, " letters");
	return b;
}
/// texts about the word: itself, damaged in one place, cut, longer, twice, among other letters
inline std::vector<std::string> texts(pbt::Src& s, const Big& b, size_t count) {
	std::vector<std::string> v{b.word};
	static const size_t marks[] = {0, 126, 127, 128, 254, 255, 256, 257, 32766, 32767, 32768, 65534, 65535, 65536, 65537};
	while (v.size() < count) {
		std::string t = b.word; size_t at = s.coin() ? marks[s.below(15)] : s.below(t.size()); at = std::min(at, t.size() - 1); if (s.chance(1, 3)) at = t.size() - 1 - at;
		switch (s.below(6)) {
		case 0: t[at] = t[at] == 'a' ? 'b' : 'a'; break;
		case 1: t.resize(at); break;
		case 2: t += "abc"[s.below(3)]; break;
		case 3: t.erase(at, 1); break;
		case 4: t.insert(at, 1, "abc"[s.below(3)]); break;
		default: t = noise(s, s.below(200)) + t + noise(s, s.below(200)); if (s.coin()) t = b.word.substr(0, at) + t;
		}
		v.push_back(t);
	}
	return v;
}
}
