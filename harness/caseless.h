// The tree of a pattern as matched without regard to case
#pragma once
#include "pattern.h"
#include "casetable.h"
namespace pat {
inline Node caseless(Node n) {
	typedef uint32_t U;
	static std::map<U, std::pair<U, U>> m; if (m.empty()) for (auto& r : caseTable) m[r[0]] = {r[1], r[2]};
	if (n.kind == Node::Set) {
		std::set<U> more;
		for (auto& r : n.ranges) { if (r.second >= 0x500 || (r.first <= 0x3FB && r.second >= 0x3F2)) pbt::discard(); for (U c = r.first; c <= r.second; ++c) { auto i = m.find(c); if (i != m.end()) { more.insert(i->second.first); more.insert(i->second.second); } } }
		for (U c : more) n.ranges.push_back({c, c});
	}
	for (auto& k : n.kids) k = caseless(k);
	return n;
}
}
