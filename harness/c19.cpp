// C19: sources pass through pire_inline; expressions are decoded from its output and compared with run-time ones
// and the reference, whole sources are compiled with and without it.
#include "pireutil.h"
#include "refparse.h"
#include "caseless.h"
#include "program.h"
#include "kinds.h"
#include "scale.h"
using namespace pbt;
using namespace pu;
typedef uint32_t U;

// ---- sources ----
static const std::string printable = "abcdefgxyzABC0189 +-*/=<>(){}[];:,.!%^&|~_#@$`?";
static std::string comment(Src& s, bool oneLine = false) {
	static const char* bits[] = {"a", "PIRE_REGEXP(\"x\", \"\")", "*", "**", "/", "\"", "'", "//", " ", "\\", "\\\"", "@", "\xD1\x8F", "\xFF", "PIRE_REGEXP(", ")", "#"};
	std::string r; size_t n = s.len(0, 6);
	if (oneLine) {
		while (n--) { r += bits[s.below(17)]; if (s.chance(1, 12)) r += s.chance(1, 3) ? "\\\r\n" : "\\\n"; }
		size_t e = r.find_last_not_of(' '); if (e != std::string::npos && r[e] == '\\') r += "x";     // compilers see a continued line there
		return "//" + r;
	}
	while (n--) r += s.chance(1, 5) ? "\n" : bits[s.below(17)];
	for (size_t p; (p = r.find("*/")) != std::string::npos; ) r.erase(p, 1);
	if (!r.empty() && r.back() == '/' && r.size() == 1 && s.coin()) r = "";
	return "/*" + r + s.oneOf({"*/", "*/", "**/"});
}
static std::string stringLit(Src& s, bool compile = false) {
	static const char* bits[] = {"a", "PIRE_REGEXP(\\\"x\\\", \\\"\\\")", "PIRE_REGEXP(", "\\\"", "\\\\", "\\n", "//", "/*", "*/", "'", " ", "\\x41", "\\101", "\\\n", "\\'", "%s", "\\0", "\xD1\x8F"};
	std::string r = "\""; size_t n = s.len(0, 6); while (n--) r += bits[s.below(compile ? 17 : 18)];
	return r + "\"";
}
static std::string charLit(Src& s) { return s.oneOf({"'a'", "'\"'", "'\\''", "'\\\\'", "'\\n'", "'\\x41'", "'\\0'", "'\\101'", "'/'", "'\\\"'", "' '"}); }
static std::string word(Src& s) {
	return s.oneOf({"x", "int", "PIRE_REGEXPS", "XPIRE_REGEXP", "PIRE_REGEXP_1", "_PIRE_REGEXP", "PIRE_REGEX", "PIRE_REGEXP2", "pire_regexp", "IRE_REGEXP", "P", "u8", "operator"}) + std::string(s.coin() ? "(" : s.coin() ? " (" : "");
}
// text without expressions; ends complete
static std::string text(Src& s, bool last) {
	std::string r; size_t n = s.len(0, 12);
	while (n--) {
		switch (s.below(11)) {
		case 0: r += " " + word(s) + " "; break;
		case 1: r += stringLit(s); break;
		case 2: r += " " + charLit(s); break;
		case 3: r += comment(s); break;
		case 4: r += comment(s, true) + "\n"; break;
		case 5: r += s.chance(1, 4) ? "\r\n" : "\n"; break;
		case 6: r += s.oneOf({"\\\n", "\\\"", "\\'", "\\x ", "#define A(x) \\\n x\n", " / ", " * / ", "1 / 2", "a*b", "#", "PIRE_REGEXP;", "PIRE_REGEXP)", "#undef PIRE_REGEXP\n;", "\t\v\f", "0x1Fu", "1.5e-3f"}); break;
		case 7: { size_t k = s.len(1, 8); while (k--) { char c = s.pick(printable); if (c != '/' && c != '*') r += c; } break; }
		case 8: r += "\xD1\x8F\x80\xFF"; break;
		case 9: if (s.chance(1, 6)) r += std::string(1, '\0'); break;
		default: r += ";"; break;
		}
	}
	if (!r.empty() && r.back() == '\\') r += ";";
	if (last && s.chance(1, 5)) r += comment(s, true);      // the file ends in a comment
	return r;
}
static std::string fileName(Src& s) { return s.oneOf({"in.cpp", "a b.cpp", "x", "caf\xC3\xA9.cc", "./in.cpp", "in.put.h"}); }

struct Processed { std::string out; prog::Result run; std::string name; };
static Processed process(Src& s, const prog::Scratch& d, const std::string& src, const std::string& what) {
	Processed p; unsigned mode = s.below(4); std::vector<std::string> args; std::string in;
	if (mode & 2) { args.push_back("-o"); args.push_back("out.cpp"); if (s.chance(1, 3)) d.write("out.cpp", std::string(20000, 'x')); }
	if (mode & 1) { p.name = "(stdin)"; in = src; } else { p.name = fileName(s); d.write(p.name, src); args.push_back(p.name); }
	p.run = prog::run(d, prog::here() + "/pire_inline", args, in);
	prog::expectSane(p.run, what);
	p.out = mode & 2 ? d.read("out.cpp") : p.run.out;
	if (mode & 2 && !p.run.out.empty()) fail(str(what, ": prints ", show(p.run.out.substr(0, 200)), " though -o is given"));
	if (!(mode & 1) && d.read(p.name) != src) fail(str(what, ": the input file was changed"));
	return p;
}
// the line in front of everything
static std::string body(const Processed& p, const std::string& what) {
	size_t e = p.out.find('\n');
	if (p.run.code) fail(str(what, ": exit status ", p.run.code, ", message ", show(p.run.err)));
	if (!p.run.err.empty()) fail(str(what, ": complains ", show(p.run.err)));
	if (e == std::string::npos || p.out.compare(0, e, "#line 1 \"" + p.name + "\"")) fail(str(what, ": the output begins with ", show(p.out.substr(0, 60))));
	return p.out.substr(e + 1);
}
static size_t linesOf(const std::string& t) { return std::count(t.begin(), t.end(), '\n'); }

// text of about the given size: blocks again and again, or one long token
static std::string filler(Src& s, size_t n) {
	std::string r;
	switch (s.below(5)) {
	case 0: r = "/*" + scale::noise(s, n, "abc *\n\"'") + "*/"; break;
	case 1: r = "//" + scale::noise(s, n, "abc /*\"'") + "\n"; break;
	case 2: r = "\"" + scale::noise(s, n, "abc /*'") + "\""; break;
	case 3: r = " " + scale::noise(s, n, "abcPI_xyz019") + " "; break;
	default: { std::string b = text(s, false) + "\n"; while (r.size() < n) r += b; }
	}
	return r;
}
static size_t fillSize(Src& s) { static const size_t marks[] = {1000, 4096, 8191, 8192, 16383, 16384, 16385, 20000, 32768, 65536, 100000}; return marks[s.below(11)] - s.below(40); }
static void copied(Src& src, Ctx& ctx) {
	std::string t = text(src, false); if (src.chance(1, 12)) { t += filler(src, fillSize(src)); ctx.label("large"); } t += text(src, true);
	std::string what = "source " + show(t); ctx.describe(what);
	prog::Scratch d; Processed p = process(src, d, t, what); std::string b = body(p, what);
	if (b != t) { size_t i = 0; while (i < b.size() && i < t.size() && b[i] == t[i]) ++i; fail(str(what, ": copied differently from byte ", i, " on: ", show(b.substr(i, 80)), " instead of ", show(t.substr(i, 80)))); }
	ctx.count(); if (t.size() > 10) ctx.nontrivial(t);
}

// ---- expressions ----
static std::string gap(Src& s) {
	std::string r; size_t n = s.len(0, 3);
	while (n--) switch (s.below(6)) { case 0: case 1: r += " "; break; case 2: r += s.oneOf({"\t", "\r\n", "\f"}); break; case 3: r += "\n"; break; case 4: r += comment(s); break; default: r += comment(s, true) + "\n"; }
	return r;
}
// one or more adjacent literals which mean the bytes
static std::string spell(Src& s, const std::string& bytes, Ctx& ctx, bool rawHigh) {
	std::string r = "\""; bool plain = s.coin();
	for (size_t i = 0; i < bytes.size(); ++i) {
		unsigned char c = bytes[i]; char next = i + 1 < bytes.size() ? bytes[i + 1] : 0; bool needBreak = false; char b[16];
		bool code = c < 0x20 || c == 0x7F || (c >= 0x80 && !rawHigh) || (c == '?' && i && bytes[i - 1] == '?') || (!plain && s.chance(1, 12));
		if (c == '"') r += s.chance(1, 6) ? "\\x22" : "\\\"", needBreak = r[r.size() - 2] != '\\' || r.back() != '"';
		else if (c == '\\') r += "\\\\";
		else if (c == '\'' && s.coin()) r += "\\'";
		else if (c == '\n' && s.chance(3, 4)) r += "\\n";
		else if (c == '\t' && s.chance(3, 4)) r += s.coin() ? "\\t" : "\t";
		else if (c == '\r' && s.chance(3, 4)) r += "\\r";
		else if (code) {
			ctx.label("coded byte");
			if (s.coin()) { snprintf(b, sizeof b, s.coin() ? "\\x%02x" : "\\x%X", c); r += b; needBreak = true; if (s.chance(1, 6)) { r.resize(r.size() - strlen(b)); snprintf(b, sizeof b, "\\x%04x", c); r += b; } }
			else { bool three = (next >= '0' && next <= '9') || s.coin(); snprintf(b, sizeof b, three ? "\\%03o" : "\\%o", c); r += b; }
		} else r += (char)c;
		if (needBreak && isxdigit((unsigned char)next)) { r += "\"" + gap(s) + "\""; ctx.label("adjacent literals"); }
		else if (!plain && s.chance(1, 12)) { r += "\"" + gap(s) + "\""; ctx.label("adjacent literals"); }
		else if (!plain && s.chance(1, 20)) { r += "\\\n"; ctx.label("continued literal"); }
	}
	if (s.chance(1, 20)) r += "\\\n";
	return r + "\"" + (s.chance(1, 10) ? gap(s) + "\"\"" : "");
}
struct One { std::string pattern, flags; bool u = false, i = false, a = false, s = false, g = false, r = false; pat::Node tree; ref::Lang lang; };
static One one(Src& s, bool simple, bool wantLang = true) {
	One o; pat::Options op; o.u = s.chance(1, 3); o.a = s.chance(1, 4); o.i = s.chance(1, 3); o.r = s.chance(1, 4); unsigned k = s.below(4); o.s = k == 1; o.g = k == 2 && s.coin();
	op.utf8 = o.u; op.andnot = o.a; op.depth = 2; op.maxTerms = simple ? 4 : 7; if (s.coin()) op.letters = "abAB\"\\'";
	pat::Pattern p = pat::generate(s, op); o.pattern = p.text; o.tree = p.tree;
	std::string f; if (o.u) f += 'u'; if (o.a) f += 'a'; if (o.i) f += 'i'; if (o.r) f += 'r'; if (o.s) f += 's'; if (o.g) f += 'g';
	if (!f.empty() && s.chance(1, 8)) f += s.pick(f);
	for (size_t i = f.size(); i > 1; --i) std::swap(f[i - 1], f[s.below(i)]);
	o.flags = f;
	if (wantLang) try {
		ref::Lang l = pat::lang(o.i ? pat::caseless(o.tree) : o.tree, o.u);
		if (o.r) l = ref::reversed(l);
		if (o.g) l = ref::cat(ref::inverse(ref::surrounded(l)), l);
		if (o.s) l = ref::surrounded(l);
		o.lang = l; if (l.size() > 300) discard();
	} catch (ref::TooBig&) { discard(); }
	return o;
}
static std::string expression(Src& s, const std::vector<One>& os, Ctx& ctx) {
	std::string r = std::string("PIRE_REGEXP") + s.oneOf({"", "", " ", "\t", "\n", " \n "}) + "(";
	for (size_t i = 0; i < os.size(); ++i) {
		r += (i ? "," : "") + gap(s) + spell(s, os[i].pattern, ctx, os[i].u) + gap(s) + "," + gap(s);
		if (os[i].flags.size() > 1 && s.chance(1, 8)) r += "\"" + os[i].flags.substr(0, 1) + "\"" + gap(s) + "\"" + os[i].flags.substr(1) + "\""; else r += spell(s, os[i].flags, ctx, false);
		r += gap(s);
	}
	return r + ")";
}
static std::string showAll(const std::vector<One>& os) { std::string r; for (auto& o : os) r += (r.empty() ? "" : ", ") + show(o.pattern) + " '" + o.flags + "'"; return r; }
static Pire::Scanner atRunTime(const std::vector<One>& os) {
	Pire::Scanner sc;
	for (size_t i = 0; i < os.size(); ++i) {
		const One& o = os[i]; pu::ParseOpts po; po.utf8 = o.u; po.ci = o.i; po.andnot = o.a;
		Pire::Fsm f = pu::parse(o.pattern, po);
		if (o.r) f.Reverse();
		if (o.g) { Pire::Fsm n(f); n.Surround(); n.Complement(); n += f; f = n; }
		if (o.s) f.Surround();
		Pire::Scanner one(f);
		if (i) { sc = Pire::Scanner::Glue(sc, one); if (sc.Empty()) throw Pire::Error("glue"); } else sc.Swap(one);
	}
	return sc;
}
// The replaced text read as C++: the bytes of its string literals and the logical line and file at its end
struct Decoded { bool ok = false; std::string bytes; size_t line = 0; std::string file; };
static Decoded decode(const std::string& t, size_t line) {
	Decoded d; d.line = line; bool start = false;
	for (size_t i = 0; i < t.size(); ) {
		if (t[i] == '\n') { ++d.line; start = true; ++i; continue; }
		if (start && !t.compare(i, 6, "#line ")) {
			size_t e = t.find('\n', i); if (e == std::string::npos) return d;
			std::string l = t.substr(i + 6, e - i - 6); size_t q = l.find('"');
			d.line = strtoul(l.c_str(), 0, 10); if (q != std::string::npos) d.file = l.substr(q + 1, l.rfind('"') - q - 1);
			i = e + 1; continue;       // the line after has this number
		}
		start = false;
		if (!t.compare(i, 2, "//")) { i = t.find('\n', i); if (i == std::string::npos) return d; continue; }
		if (t[i] == '"') {
			for (++i; i < t.size() && t[i] != '"'; ) {
				if (t[i] == '\n') return d;
				if (t[i] != '\\') { d.bytes += t[i++]; continue; }
				++i; size_t n;
				if (t[i] == 'x') { d.bytes += (char)std::stoul(t.substr(i + 1, 8), &n, 16); i += 1 + n; if (n > 2) return d; }
				else if (t[i] >= '0' && t[i] <= '7') { int v = 0, k = 0; while (k < 3 && t[i] >= '0' && t[i] <= '7') { v = v * 8 + t[i++] - '0'; ++k; } d.bytes += (char)v; }
				else if (t[i] == '\n') { ++i; ++d.line; }
				else { char c = t[i++]; d.bytes += c == 'n' ? '\n' : c == 't' ? '\t' : c == 'r' ? '\r' : c; }
			}
			if (i >= t.size()) return d;
			++i; continue;
		}
		++i;
	}
	d.ok = !d.bytes.empty();
	return d;
}
static void expectNumbers(Src& src, const Pire::Scanner& sc, const std::vector<One>& os, const std::string& what) {
	for (int k = 0; k < 6; ++k) {
		ref::Word w = ref::randomWord(src, os[src.below(os.size())].lang, 12), all; if (src.coin()) { all.push_back(ref::BM); for (int c : w) if (c < 256) all.push_back(c); all.push_back(ref::EM); } else for (int c : w) if (c != 257) all.push_back(c);
		Pire::Scanner::State st; sc.Initialize(st); for (int c : all) Pire::Step(sc, st, (Pire::Char)c);
		std::set<size_t> want, got; auto p = sc.AcceptedRegexps(st); got.insert(p.first, p.second); for (size_t i = 0; i < os.size(); ++i) if (os[i].lang.accepts(all)) want.insert(i);
		if (want != got) { std::string a, b; for (size_t i : want) a += " " + std::to_string(i); for (size_t i : got) b += " " + std::to_string(i); fail(str(what, ": after ", showWord(all), " reports expressions", b, ", expected", a)); }
	}
}

static void expressions(Src& src, Ctx& ctx) {
	size_t n = 1 + src.weighted({5, 2, 1}); std::vector<std::vector<One>> all; std::vector<Pire::Scanner> want; std::string t; std::vector<std::string> texts; std::vector<size_t> lineAt;
	std::string desc;
	for (size_t k = 0; k < n; ++k) {
		size_t m = 1 + src.weighted({6, 2, 1, 1}); std::vector<One> os; for (size_t i = 0; i < m; ++i) os.push_back(one(src, m > 2));
		try { want.push_back(atRunTime(os)); if (want.back().Size() > 600) discard(); } catch (Pire::Error&) { discard(); }
		desc += "[" + showAll(os) + "] "; ctx.describe("compiling " + desc);
		std::string before = text(src, false) + (src.chance(1, 20) ? (ctx.label("large"), filler(src, fillSize(src))) : std::string()) + str("/*#<", k, ">#*/"); texts.push_back(before); t += before;
		t += expression(src, os, ctx); lineAt.push_back(1 + linesOf(t)); t += str("/*@<", k, ">@*/");
		all.push_back(os);
	}
	std::string tail = text(src, true); t += tail;
	std::string what = desc + "in " + show(t); ctx.describe(what);
	prog::Scratch d; Processed p = process(src, d, t, what); std::string b = body(p, what);
	size_t at = 0;
	for (size_t k = 0; k < n; ++k) {
		if (b.compare(at, texts[k].size(), texts[k])) fail(str(what, ": text before expression ", k, " is ", show(b.substr(at, texts[k].size())), " instead of ", show(texts[k])));
		at += texts[k].size();
		std::string m = str("/*@<", k, ">@*/"); size_t e = b.find(m, at);
		if (e == std::string::npos) fail(str(what, ": text after expression ", k, " is lost"));
		Decoded x; try { x = decode(b.substr(at, e - at), 0); } catch (std::exception&) { x.ok = false; }
		if (x.ok) {
			if (x.line != lineAt[k] || x.file != p.name) fail(str(what, ": expression ", k, " ends at line ", lineAt[k], " of ", p.name, ", the output says line ", x.line, " of ", show(x.file)));
			char* mem = (char*)aligned_alloc(64, (x.bytes.size() + 63) / 64 * 64 + 64); memcpy(mem, x.bytes.data(), x.bytes.size());
			std::unique_ptr<char, void(*)(void*)> hold(mem, free);
			Pire::Scanner sc; try { sc = Pire::MmappedScanner<Pire::Scanner>(mem, x.bytes.size()); } catch (Pire::Error& er) { fail(str(what, ": the data of expression ", k, " are refused: ", er.what())); }
			std::string w = str("expression ", k, " (", showAll(all[k]), ") of ", show(t));
			std::string diff = kinds::compare(sc, want[k], 300); if (!diff.empty()) fail(str(w, ": inline and run-time scanners differ ", diff));
			if (all[k].size() == 1) pu::expectScanner(sc, all[k][0].lang, w, &ctx); else expectNumbers(src, sc, all[k], w);
			ctx.count(); ctx.label("decoded");
		}
		at = e + m.size();
	}
	if (b.substr(at) != tail) fail(str(what, ": text after the last expression is ", show(b.substr(at)), " instead of ", show(tail)));
	ctx.nontrivial(what);
}

// ---- whole programs ----
static void compiled(Src& src, Ctx& ctx) {
	std::string t = src.coin() ? "// PIRE_REGEXP(\"nothing\", \"\")\n" : ""; t += "#define TWICE(x) \\\n  x + \\\n  x\nnamespace NS {\n"; std::string desc; size_t exprs = 0;
	auto expr = [&] { std::vector<One> os; size_t m = 1 + src.weighted({6, 2, 1}); for (size_t i = 0; i < m; ++i) os.push_back(one(src, true, false)); try { Pire::Scanner x = atRunTime(os); if (x.Size() > 400) discard(); } catch (Pire::Error&) { discard(); } desc += "[" + showAll(os) + "] "; ++exprs; return expression(src, os, ctx); };
	bool global = src.chance(1, 3); if (global) t += "static const Pire::Scanner g = " + expr() + ";\n";
	if (src.coin()) t += "template<class T> T pass(const T& x, " + std::string(src.coin() ? "\n" : "") + "long) { return x; }\n"; else t += "template<class T> const T& pass(const T& x, long) { return x; }";
	t += "void collect(::Seen& o) {\n"; if (global) t += "o << g;\n";
	size_t n = 2 + src.below(7);
	for (size_t i = 0; i < n || !exprs; ++i) {
		switch (src.below(i < n ? 9 : 4)) {
		case 0: t += "o << " + expr() + ";"; break;
		case 1: t += "o << " + expr() + " << __LINE__ << " + expr() + " << __LINE__;"; break;
		case 2: t += "{ static const Pire::Scanner s = " + expr() + "; Pire::Scanner c(s); o << s << c; }"; break;
		case 3: t += "o << pass(" + expr() + ", __LINE__) << __LINE__ << TWICE(__LINE__);"; break;
		case 4: t += "o << " + stringLit(src, true) + ";"; break;
		case 5: t += "o << long(" + charLit(src) + ");"; break;
		case 6: t += comment(src); break;
		case 7: t += comment(src, true) + "\n"; break;
		default: t += "o << __LINE__;" + std::string(src.below(3), '\n'); break;
		}
		if (src.coin()) t += "\n";
	}
	t += "\no << __LINE__; }\n}\n"; if (src.chance(1, 4)) t += "// PIRE_REGEXP(";
	std::string what = desc + "in " + show(t); ctx.describe(what);
	prog::Scratch d; d.write("case.cpp", t);
	prog::Result r = prog::run(d, prog::here() + "/pire_inline", {"-o", "inl.cpp", "case.cpp"}, ""); prog::expectSane(r, what);
	if (r.code || !r.err.empty()) fail(str(what, ": exit status ", r.code, ", message ", show(r.err)));
	r = prog::run(d, "/bin/sh", {prog::here() + "/gen/inl.sh", "case.cpp", "inl.cpp"}, "");
	if (r.code) {
		if (access(d.path("run.o").c_str(), F_OK)) { if (getenv("PBT_VERBOSE")) fprintf(stderr, "NOCOMPILE %s\n%s\n", t.c_str(), r.err.c_str()); ctx.label("does not compile by itself"); discard(); }
		fail(str(what, ": the output of pire_inline does not compile:\n", r.err.substr(0, 1500)));
	}
	r = prog::run(d, d.path("case"), {}, ""); prog::expectSane(r, what);
	if (r.code) fail(str(what, ": ", r.out));
	ctx.count(exprs); ctx.nontrivial(what);
}

// ---- misuse ----
static void malformed(Src& src, Ctx& ctx) {
	std::string t = text(src, false); t += "\n"; size_t first = 1 + linesOf(t); std::string e, how; bool closed = true; std::string g1 = gap(src), g2 = gap(src);
	One ok = one(src, true, false); std::string good = spell(src, ok.pattern, ctx, ok.u), flags = "\"" + ok.flags + "\"";
	{ try { atRunTime({ok}); } catch (Pire::Error&) { discard(); } }
	std::string more = src.coin() ? ", " + good + g1 + "," + flags : "", pre = src.coin() ? good + "," + g1 + flags + ", " : "";   // a good pair around the bad one
	switch (src.below(13)) {
	case 0: { // a pattern which is none
		static const char* bad[] = {"(", ")", "a)", "[a", "*", "a|*", "{2}", "a{2", "\\\\x{", "\\\\q", "(a", "[b-", "\\\\", "a{,2}", "+a"};
		std::string p = bad[src.below(15)]; how = "pattern " + p; std::string by = p; for (size_t q; (q = by.find("\\\\")) != std::string::npos; ) by.erase(q, 1);
		std::vector<U> cs(by.begin(), by.end()); refparse::Syntax syn; if (refparse::parse(cs, syn).verdict != refparse::Result::Refused) discard();
		e = pre + "\"" + p + "\"," + g1 + "\"\"" + more; break; }
	case 1: { std::string bytes = src.oneOf({"\xFF", "a\x80z", "\xD1", "\xD1z", "\xF8\x88\x80\x80\x80", "\xE2\x82", "\xC3("}); how = "text not in UTF-8"; e = pre + spell(src, bytes, ctx, src.coin()) + ", \"u\"" + more; break; }
	case 2: how = "non-ASCII text without u"; e = pre + spell(src, "\xD1\x8F", ctx, true) + ", \"\"" + more; break;
	case 3: { std::string x(1, "xzbUISAGR0 ,"[src.below(12)]); how = "flag " + x; e = pre + good + ", \"" + (src.coin() ? ok.flags : "") + x + "\"" + more; break; }
	case 4: how = "no flags"; e = pre + good; break;
	case 5: how = "no arguments"; e = g1; break;
	case 6: { std::string x = src.oneOf({"x", "1", "NULL", "+", ";", "a(", "{", "'a'", "L", "u8", "\\", "R"}); how = "argument " + x; e = src.coin() ? pre + x + ", " + flags + more : pre + good + ", " + x + more; break; }
	case 7: { std::string x = src.oneOf({"a", "b", "f", "v", "e", "q", "?", "8", "9", "N", "u0041", "U00000041", "(", " ", "."}); how = "escape \\" + x; e = pre + "\"a\\" + x + "b\", \"\"" + more; break; }
	case 8: { std::string x = src.oneOf({"x", "xg", "x100", "x1234", "400", "777", "xFFFFFFFFFFFFFFFFFFF1"}); how = "escape \\" + x; e = pre + "\"\\" + x + "\", \"\"" + more; break; }
	case 9: how = "g and s"; e = pre + "\"a\", \"" + (src.coin() ? "gs" : "sig") + "\"" + more; break;
	case 10: how = "end of file in the expression"; closed = false; e = src.oneOf({"", "\"a", "\"a\"", "\"a\",", "\"a\", \"", "\"a\", \"\"", "/* c", "\"a\" // ) ", "\"a\", \"\" /* ) */"}); if (e == "\"a\" // ) " && src.coin()) e += "\n"; break;
	case 11: { how = "a line end in a string"; e = pre + "\"a\nb\", \"\"" + more; break; }
	default: how = "missing comma"; e = pre + good + " " + gap(src) + ":" + flags + more; break;
	}
	e = "PIRE_REGEXP(" + e + (closed ? ")" : ""); t += e; size_t last = 1 + linesOf(t); if (closed) t += "\n;" + text(src, true);
	std::string what = str(how, " in ", show(t)); ctx.describe(what);
	prog::Scratch d; Processed p = process(src, d, t, what);
	if (!p.run.code) fail(str(what, " is accepted"));
	bool said = false; for (size_t l = first; l <= last && !said; ++l) { std::string m = str(p.name, ":", l, ":"); said = !p.run.err.compare(0, m.size(), m) && p.run.err.size() > m.size() + 3; }
	if (!said) fail(str(what, ": the message is ", show(p.run.err), ", expected ", p.name, " and a line from ", first, " to ", last));
	if (p.out.find("MmappedScanner") != std::string::npos) fail(str(what, ": code is made"));
	ctx.count(); ctx.label(how.substr(0, how.find(' '))); ctx.nontrivial(what);
}
// errors outside of expressions, and wrong usage
static void usage(Src& src, Ctx& ctx) {
	struct Case { std::vector<std::string> args; std::string in; std::string err; };
	static const std::vector<Case> list = {
		{{"a", "b"}, "", "usage"}, {{"-o", "x", "a", "b"}, "", "usage"}, {{"missing.cpp"}, "", "missing.cpp"}, {{"-o", "no/where", "-"}, "", "no/where"}, {{"-o", "no/where"}, "x", "no/where"},
		{{}, "int x;\n/* no end", "(stdin):2:"}, {{}, "\n\n/* no end\n*", "(stdin):4:"}, {{}, "/*", "(stdin):1:"}, {{}, "/* a */ /* b", "(stdin):1:"}, {{}, "\nPIRE_REGEXP(\"a.{8}b\", \"s\", \"c.{8}d\", \"s\", \"e.{5}f\", \"s\")", "(stdin):2:"},
	};
	(void)src; const Case& c = list[ctx.index]; std::string what = str("arguments"); for (auto& a : c.args) what += " " + a; what += " input " + show(c.in); ctx.describe(what);
	prog::Scratch d; prog::Result r = prog::run(d, prog::here() + "/pire_inline", c.args, c.in); prog::expectSane(r, what);
	if (!r.code) fail(what + " is accepted");
	if (r.err.find(c.err) == std::string::npos) fail(str(what, ": the message is ", show(r.err)));
	ctx.count(); ctx.nontrivial(what);
}

// ---- the sample ----
static bool mail(const std::string& t) {   // ^[a-z0-9\.\-_]+@([a-z0-9\-]+\.)+[a-z]{2,}$
	auto low = [](char c) { return c >= 'a' && c <= 'z'; }; auto dig = [](char c) { return c >= '0' && c <= '9'; };
	size_t at = t.find('@'); if (at == std::string::npos || !at) return false;
	for (size_t i = 0; i < at; ++i) if (!low(t[i]) && !dig(t[i]) && !strchr(".-_", t[i])) return false;
	std::string h = t.substr(at + 1); size_t dot = h.rfind('.'); if (dot == std::string::npos || h.size() - dot < 3) return false;
	for (size_t i = dot + 1; i < h.size(); ++i) if (!low(h[i])) return false;
	bool any = false; for (size_t i = 0; i <= dot; ++i) { if (h[i] == '.') { if (!any) return false; any = false; } else if (low(h[i]) || dig(h[i]) || h[i] == '-') any = true; else return false; }
	return true;
}
static void validator(Src& src, Ctx& ctx) {
	prog::Scratch d; std::ifstream f(prog::here() + "/gen/validator.cpp", std::ios::binary); std::ostringstream o; o << f.rdbuf(); d.write("validator.cpp", o.str()); ctx.describe("the validator sample");
	prog::Result r = prog::run(d, prog::here() + "/pire_inline", {"-o", "v.cpp", "validator.cpp"}, ""); prog::expectSane(r, "the validator sample");
	if (r.code) fail("the validator sample: " + r.err);
	r = prog::run(d, "/bin/sh", {prog::here() + "/gen/validator.sh", "v.cpp"}, ""); if (r.code) fail("the validator sample does not compile: " + r.err.substr(0, 1500));
	std::vector<std::string> list; std::string in; size_t yes = 0;
	for (int i = 0; i < 3000; ++i) {
		std::string t; auto run = [&](const std::string& set, size_t lo, size_t hi) { size_t n = src.len(lo, hi); while (n--) t += src.pick(set); };
		run("ab09.-_", src.chance(1, 10) ? 0 : 1, 4); if (!src.chance(1, 12)) t += '@'; size_t k = 1 + src.below(2); while (k--) { run("ab0-", src.chance(1, 12) ? 0 : 1, 3); if (!src.chance(1, 12)) t += '.'; } run("abz", src.chance(1, 10) ? 0 : 2, 4);
		if (src.chance(1, 5) && !t.empty()) t[src.below(t.size())] = src.pick(std::string("@.-_aA0+\xFF/"));
		if (t.empty()) t = "@";
		list.push_back(t); in += t + (src.coin() ? "\n" : " "); yes += mail(t);
	}
	r = prog::run(d, d.path("validator"), {}, in); prog::expectSane(r, "the validator");
	std::string want; for (auto& t : list) { want += "Enter email: "; if (!mail(t)) want += "Invalid email, try once more\n"; } want += "Enter email: \n";
	if (r.code || r.out != want) {
		std::string part; for (auto& t : list) { part += "Enter email: "; if (!mail(t)) part += "Invalid email, try once more\n"; if (r.out.compare(0, part.size(), part)) fail(str("the validator about ", show(t), ": printed ", show(r.out.substr(part.size() > 60 ? part.size() - 60 : 0, 120)), ", the address is ", mail(t) ? "valid" : "not valid")); }
		fail(str("the validator: exit status ", r.code, ", end of its output ", show(r.out.substr(r.out.size() > 60 ? r.out.size() - 60 : 0))));
	}
	ctx.count(list.size()); ctx.label("valid addresses"); if (yes > 300) ctx.nontrivial("validator");
}

int main(int argc, char** argv) {
	Suite s;
	s.id = "C19";
	s.rule = "a source with an expression, a text longer than 10 bytes copied, a misuse reported; distinct by source";
	s.assumptions = {"sources contain no raw string literals, trigraphs or character literals of more than one character; expressions contain no universal character names (pire_inline refuses these)",
		"only blanks stand between PIRE_REGEXP and its parenthesis", "the names of files contain no quotes and backslashes",
		"the data of an expression are read from the string literals of the output; should its form not be understood, the law 'compiled' remains"};
	s.laws = {
		{"copied", 900, 60000, copied},
		{"expressions", 800, 50000, expressions},
		{"compiled", 56, 2000, compiled},
		{"malformed", 700, 40000, malformed},
		{"usage", 10, 10, usage, true},
		{"validator", 1, 40, validator},
	};
	return run(s, argc, argv);
}
