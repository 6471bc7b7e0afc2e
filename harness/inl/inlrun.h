// What generated sources of C19's "compiled" law see: the run-time counterpart of PIRE_REGEXP and a collector.
#pragma once
#include <pire/pire.h>
#include <pire/stub/lexical_cast.h>
#include <pire/stub/saveload.h>
#include <pire/stub/memstreams.h>
#include <initializer_list>
#include <iostream>
#include <map>
#include <string>
#include <vector>

struct Lit { std::string s; template<size_t N> Lit(const char (&a)[N]): s(a, N - 1) {} };

inline Pire::Fsm runtimeFsm(const std::string& pattern, const std::string& flags) {
	bool s = false, g = false, r = false; Pire::Lexer lx;
	for (char c : flags) switch (c) {
		case 'i': lx.AddFeature(Pire::Features::CaseInsensitive()); break;
		case 'u': lx.SetEncoding(Pire::Encodings::Utf8()); break;
		case 'a': lx.AddFeature(Pire::Features::AndNotSupport()); break;
		case 's': s = true; break; case 'g': g = true; break; case 'r': r = true; break;
		default: throw Pire::Error("flag");
	}
	std::vector<Pire::wchar32> ws; lx.Encoding().FromLocal(pattern.data(), pattern.data() + pattern.size(), std::back_inserter(ws));
	lx.Assign(ws.begin(), ws.end());
	Pire::Fsm f = lx.Parse();
	if (r) f.Reverse();
	if (g) { Pire::Fsm n = f; n.Surround(); n.Complement(); n += f; f = n; }
	if (s) f.Surround();
	return f;
}
inline Pire::Scanner runtime(std::initializer_list<Lit> l) {
	std::vector<std::string> a; for (auto& x : l) a.push_back(x.s);
	Pire::Scanner sc;
	for (size_t i = 0; i + 1 < a.size(); i += 2) {
		Pire::Fsm f = runtimeFsm(a[i], a[i + 1]); Pire::Scanner one(f);
		if (i) { sc = Pire::Scanner::Glue(sc, one); if (sc.Empty()) throw Pire::Error("glue"); } else sc.Swap(one);
	}
	return sc;
}

struct Seen {
	std::vector<Pire::Scanner> scanners; std::vector<std::string> rest;
	Seen& operator << (const Pire::Scanner& s) { scanners.push_back(s); rest.push_back("scanner"); return *this; }
	Seen& operator << (long n) { rest.push_back(std::to_string(n)); return *this; }
	Seen& operator << (const Lit& l) { rest.push_back("text " + l.s); return *this; }
};
