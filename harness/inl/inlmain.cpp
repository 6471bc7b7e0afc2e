// Compares what a source says after pire_inline with what it says when expressions are compiled at run time.
#include "inlrun.h"
#include <set>
namespace inl { void collect(Seen&); }
namespace run { void collect(Seen&); }
static std::string look(const Pire::Scanner& s, const Pire::Scanner::State& st) {
	std::string r = s.Final(st) ? "final" : ""; auto p = s.AcceptedRegexps(st); for (; p.first != p.second; ++p.first) r += " " + std::to_string(*p.first); return r;
}
static std::string compare(const Pire::Scanner& a, const Pire::Scanner& b) {
	if (a.Empty() != b.Empty()) return "one is empty";
	if (a.RegexpsCount() != b.RegexpsCount()) return "numbers of expressions";
	typedef Pire::Scanner::State S; std::vector<std::pair<S, S>> v; std::set<std::pair<size_t, size_t>> done;
	auto push = [&](S x, S y) { if (done.insert({a.StateIndex(x), b.StateIndex(y)}).second) v.push_back({x, y}); };
	S x, y; a.Initialize(x); b.Initialize(y); push(x, y);
	for (size_t i = 0; i < v.size() && i < 400; ++i) {
		if (look(a, v[i].first) != look(b, v[i].second)) return "states " + look(a, v[i].first) + " and " + look(b, v[i].second);
		for (unsigned c = 0; c < 260; ++c) if (c < 256 || c == Pire::BeginMark || c == Pire::EndMark) { x = v[i].first; y = v[i].second; Pire::Step(a, x, c); Pire::Step(b, y, c); push(x, y); }
	}
	return "";
}
int main() {
	try {
		Seen a, b; inl::collect(a); inl::collect(a); run::collect(b); run::collect(b);
		for (size_t i = 0; i < a.rest.size() || i < b.rest.size(); ++i) {
			std::string x = i < a.rest.size() ? a.rest[i] : "nothing", y = i < b.rest.size() ? b.rest[i] : "nothing";
			if (x != y) { std::cout << "item " << i << ": after pire_inline '" << x << "', without it '" << y << "'\n"; return 3; }
		}
		for (size_t i = 0; i < a.scanners.size(); ++i) { std::string d = compare(a.scanners[i], b.scanners[i]); if (!d.empty()) { std::cout << "expression " << i << ": " << d << "\n"; return 3; } }
		std::cout << a.scanners.size() << " expressions\n";
		return 0;
	} catch (std::exception& e) { std::cout << "error " << e.what() << "\n"; return 4; }
}
