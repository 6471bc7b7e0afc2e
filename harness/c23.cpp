// C23: the grep and blacklist samples, run as programs, against reference matching.
#include "pireutil.h"
#include "pattern.h"
#include "refparse.h"
#include "caseless.h"
#include "program.h"
#include "observe.h"
#include "scale.h"
using namespace pbt;
using namespace pu;
typedef uint32_t U;

static std::string joined(const std::vector<std::string>& a) { std::string r; for (auto& x : a) r += " " + show(x); return r; }
static bool hasNul(const std::string& s) { return s.find('\0') != std::string::npos; }

static std::string bytes(const ref::Word& w) { std::string t; for (int c : w) if (c < 256) t += (char)c; return t; }
static bool matches(const ref::Lang& l, const std::string& t) { ref::Word w; w.push_back(ref::BM); for (unsigned char c : t) w.push_back(c); w.push_back(ref::EM); return l.accepts(w); }

static std::string content(Src& s, const ref::Lang& l, std::vector<std::string>& lines) {
	std::string r; size_t n = s.len(0, 6);
	int big = s.chance(1, 15) ? 1 + (int)s.below(2) : 0;   // many lines, or long ones
	if (big == 1) n = s.oneOf<size_t>({100, 255, 256, 257, 1000, 3000});
	for (size_t i = 0; i < n; ++i) {
		std::string t;
		if (big == 1 && i > 40) { std::string again = lines[(i * 7 + i / 40) % 40]; lines.push_back(again); r += again + "\n"; continue; }
		if (big == 2 && s.coin()) {
			static const size_t sizes[] = {120, 254, 255, 256, 257, 511, 512, 1022, 1023, 1024, 1025, 4094, 4095, 4096, 4097, 8191, 8192, 10000, 20000};
			size_t k = sizes[s.below(19)]; t = scale::noise(s, k, "abcABC xyz01");
			if (s.coin()) { std::string w = bytes(ref::randomWord(s, l, 12)); size_t at = s.coin() ? t.size() : s.below(t.size()); t.insert(at, w); }
		} else switch (s.below(4)) {
		case 0: case 1: t = bytes(ref::randomWord(s, l, 12)); if (s.chance(1, 3) && !t.empty()) t[s.below(t.size())] ^= (char)(1 << s.below(8)); break;
		case 2: { size_t k = s.len(0, 10); while (k--) t += s.chance(1, 8) ? (char)s.below(256) : s.pick(std::string("abcABC xyz01")); break; }
		default: break;
		}
		std::string u; for (char c : t) if (c != '\n') u += c;
		if (s.chance(1, 12)) u += "\r";
		lines.push_back(u); r += u + "\n";
	}
	if (!r.empty() && s.chance(1, 4)) { r.resize(r.size() - 1); if (lines.back().empty()) lines.pop_back(); }   // no end of line at the end
	return r;
}

static void grep(Src& src, Ctx& ctx) {
	pat::Options o; o.utf8 = src.chance(1, 3); o.andnot = src.chance(1, 3); o.depth = 2; o.maxTerms = 6; bool ci = src.chance(1, 3); if (src.coin()) o.letters = "abAB";
	std::vector<std::string> before, files, after; std::vector<std::vector<std::string>> lines; std::string input;
	pat::Pattern p = pat::generate(src, o);
	if (hasNul(p.text)) discard();
	ref::Lang l; std::vector<std::string> inputLines;
	try { l = ref::surrounded(pat::lang(ci ? pat::caseless(p.tree) : p.tree, o.utf8)); } catch (ref::TooBig&) { discard(); }
	if (l.size() > 200) discard();
	input = content(src, l, inputLines);
	prog::Scratch d;
	// switches in any order, also behind the pattern and twice
	std::vector<std::string> sw; if (ci) sw.push_back("-i"); if (o.utf8) sw.push_back("-u"); if (o.andnot) sw.push_back("-x");
	if (!sw.empty() && src.chance(1, 6)) { std::string again = src.pick(sw); sw.push_back(again); }
	for (size_t i = sw.size(); i > 1; --i) std::swap(sw[i - 1], sw[src.below(i)]);
	bool e = src.chance(1, 3) || (!p.text.empty() && p.text[0] == '-');
	size_t at = src.below(sw.size() + 1);
	std::vector<std::string> args(sw.begin(), sw.begin() + at); if (e) args.push_back("-e"); args.push_back(p.text); args.insert(args.end(), sw.begin() + at, sw.end());
	size_t n = src.weighted({3, 3, 3, 1}); size_t missing = n && src.chance(1, 8) ? src.below(n) : n;
	static const char* names[] = {"f1", "second file", "x.txt", "a:b"};
	bool stdinRead = false; std::string want; int code = 0; std::string say;
	if (!n) for (auto& x : inputLines) if (matches(l, x)) want += x + "\n";
	for (size_t i = 0; i < n; ++i) {
		if (i == missing) { args.push_back("missing"); if (!code) { code = 1; say = "missing"; } continue; }
		if (src.chance(1, 5)) { args.push_back("-"); if (!code) { if (!stdinRead) for (auto& x : inputLines) if (matches(l, x)) want += (n > 1 ? "(stdin): " : "") + x + "\n"; stdinRead = true; } continue; }
		std::string name = names[src.below(4)] + std::to_string(i); std::vector<std::string> ls; d.write(name, content(src, l, ls)); args.push_back(name);
		if (!code) for (auto& x : ls) if (matches(l, x)) want += (n > 1 ? name + ": " : "") + x + "\n";
	}
	std::string what = "pigrep" + joined(args) + " < " + show(input); ctx.describe(what);
	prog::Result r = prog::run(d, prog::here() + "/pigrep", args, input);
	prog::expectSane(r, what);
	if (r.code == 1 && r.err.find("complicated") != std::string::npos) discard();
	if (r.code != code) fail(str(what, ": exit status ", r.code, ", expected ", code, "\n", r.err));
	if (r.out != want) fail(str(what, ": printed ", show(r.out), ", expected ", show(want)));
	if (code && (r.err.compare(0, 8, "pigrep: ") || r.err.find(say) == std::string::npos)) fail(str(what, ": the error message is ", show(r.err)));
	if (!code && !r.err.empty()) fail(str(what, ": complains ", show(r.err)));
	ctx.count(); ctx.label(n ? n > 1 ? "many files" : "one file" : "stdin"); if (code) ctx.label("missing file");
	if (!want.empty()) ctx.nontrivial(what);
}
// patterns which are no patterns, and wrong usage
static void refused(Src& src, Ctx& ctx) {
	static const char* tokens[] = {"a", "b", "(", ")", "[", "]", "{", "}", "*", "+", "?", "|", "1", "2", ",", "\\", "^", "$", ".", "-", "\\d", "&", "~", "\xD1\x8F", "\xC0", "\\x", "\\q", "[^", "{2,1}"};
	std::string p; size_t n = src.len(1, 6); while (n--) p += tokens[src.below(29)];
	refparse::Syntax syn; syn.utf8 = src.chance(1, 3); syn.andnot = src.chance(1, 3);
	std::vector<std::string> args; if (syn.utf8) args.push_back("-u"); if (syn.andnot) args.push_back("-x"); args.push_back("-e"); args.push_back(p);
	std::string what = "pigrep" + joined(args); ctx.describe(what);
	// decoded by hand
	std::vector<U> cs; bool bad = false;
	for (size_t i = 0; i < p.size() && !bad; ) {
		unsigned char b = p[i];
		if (b < 0x80) { cs.push_back(b); ++i; }
		else if (!syn.utf8) bad = true;
		else if (b >= 0xC0 && b < 0xE0 && i + 1 < p.size() && ((unsigned char)p[i + 1] & 0xC0) == 0x80) { cs.push_back((b & 31) << 6 | ((unsigned char)p[i + 1] & 63)); i += 2; }
		else bad = true;
	}
	refparse::Result v; if (!bad) { v = refparse::parse(cs, syn); if (v.verdict == refparse::Result::Open) discard(); bad = v.verdict == refparse::Result::Refused; bool hard = false; if (!bad && (refparse::cost(v.tree, syn.utf8, hard) > 500 || hard)) discard(); }
	prog::Scratch d; prog::Result r = prog::run(d, prog::here() + "/pigrep", args, "some text\n\na\n");
	prog::expectSane(r, what);
	if (bad != (r.code == 1)) fail(str(what, bad ? " is accepted" : " is refused", ", exit status ", r.code, ", message ", show(r.err)));
	if (bad && (r.err.compare(0, 8, "pigrep: ") || r.err.size() < 12 || !r.out.empty())) fail(str(what, ": message ", show(r.err), ", output ", show(r.out)));
	if (!bad && !r.err.empty()) fail(str(what, ": complains ", show(r.err)));
	ctx.count(); ctx.label(bad ? "malformed" : "well-formed"); if (bad) ctx.nontrivial(what);
}
static void usage(Src&, Ctx& ctx) {
	struct Case { std::vector<std::string> args; int code; const char* out; const char* err; bool black; };
	static const std::vector<Case> list = {
		{{}, 1, "", "Usage", false}, {{"-i"}, 1, "", "Usage", false}, {{"-e"}, 1, "", "Usage", false}, {{"-z", "a"}, 1, "", "Usage", false}, {{""}, 0, "abc\n\nxyz\n", "", false}, {{"-e", ""}, 0, "abc\n\nxyz\n", "", false},
		{{"a", "-"}, 0, "abc\n", "", false}, {{"^$"}, 0, "\n", "", false}, {{"-e", "-i"}, 0, "", "", false}, {{"B"}, 0, "", "", false}, {{"B", "-i"}, 0, "abc\n", "", false}, {{"-u", "b.$"}, 0, "abc\n", "", false}, {{"a", "nowhere"}, 1, "", "nowhere", false}, {{"a", "-", "nowhere"}, 1, "(stdin): abc\n", "nowhere", false},
		{{"("}, 1, "", "pigrep: ", false},
		{{}, 1, "", "Usage", true}, {{"-g"}, 1, "", "Usage", true}, {{"-d", "x"}, 1, "", "Usage", true}, {{"-q", "-d", "x"}, 1, "", "Usage", true}, {{"-u", "-d", "nowhere"}, 1, "", "blacklist: ", true}, {{"-g", "-d", "no/where"}, 1, "", "blacklist: ", true}, {{"-g", "-d", "/dev/full"}, 1, "", "blacklist: ", true},
	};
	const Case& c = list[ctx.index]; std::string name = c.black ? "blacklist" : "pigrep", what = name + joined(c.args); ctx.describe(what);
	prog::Scratch d; prog::Result r = prog::run(d, prog::here() + "/" + name, c.args, "abc\n\nxyz\n");
	prog::expectSane(r, what);
	if (r.code != c.code || r.out != c.out || (*c.err ? r.err.find(c.err) == std::string::npos : !r.err.empty())) fail(str(what, ": exit status ", r.code, ", output ", show(r.out), ", message ", show(r.err)));
	ctx.count(); ctx.nontrivial(what);
}

// the documented expression: ^([a-z]+://)?([A-Za-z0-9\-]+\.)*(domains)(/.*)?$
static bool listed(const std::set<std::string>& domains, const std::string& url) {
	auto labelsThen = [&](size_t i) {
		for (;;) {
			for (auto& x : domains) if (!url.compare(i, x.size(), x) && (i + x.size() == url.size() || url[i + x.size()] == '/')) return true;
			size_t k = i; while (k < url.size() && (isalnum((unsigned char)url[k]) || url[k] == '-') && (unsigned char)url[k] < 128) ++k;
			if (k == i || k == url.size() || url[k] != '.') return false;
			i = k + 1;
		}
	};
	if (labelsThen(0)) return true;
	size_t k = 0; while (k < url.size() && url[k] >= 'a' && url[k] <= 'z') ++k;
	return k && !url.compare(k, 3, "://") && labelsThen(k + 3);
}
static std::string label(Src& s) { std::string r; size_t n = s.len(1, 4); while (n--) r += s.pick(std::string("aabbcxyz01-A")); return r; }
static void blacklist(Src& src, Ctx& ctx) {
	prog::Scratch d; std::string text; std::set<std::string> domains; std::string what;
	int lists = 1 + (int)src.chance(1, 4);    // a dictionary may be made anew over an older one
	while (lists--) {
		std::string in; domains.clear(); size_t n = src.len(0, src.chance(1, 6) ? 40 : 6); if (src.chance(1, 25)) n = src.oneOf<size_t>({100, 127, 128, 129, 200, 255, 256, 257});
		while (n--) {
			std::string x; size_t k = 1 + src.below(3); while (k--) x += (x.empty() ? "" : ".") + label(src);
			if (src.chance(1, 12)) x += src.oneOf({"*", ".", "/a", "\xD1\x8F", "+b", "(", "$", "[a]", "\\d"});
			if (src.chance(1, 8) && !domains.empty()) x = *domains.begin() + (src.coin() ? "" : "b");
			domains.insert(x); in += x + src.oneOf({"\n", "\n", " ", "\t\n\n"});
		}
		prog::Result r = prog::run(d, prog::here() + "/blacklist", src.coin() ? std::vector<std::string>{"-g", "-d", "dict"} : std::vector<std::string>{"-d", "dict", "-g"}, in);
		what = "list " + show(in); ctx.describe(what); prog::expectSane(r, what);
		if (r.code || !r.out.empty() || !r.err.empty()) fail(str(what, ": exit status ", r.code, ", output ", show(r.out), " ", show(r.err)));
	}
	bool some = false;
	for (int round = 0; round < 2; ++round) {
		std::string in, want; size_t n = src.len(0, 10); if (src.chance(1, 20)) n = 300 + src.below(700); std::vector<std::string> ds(domains.begin(), domains.end());
		while (n--) {
			std::string u; if (src.chance(1, 2)) u = src.oneOf({"http://", "ftp://", "a://", "HTTP://", "h2://", "://", "http:/"});
			size_t k = src.below(3); while (k--) u += label(src) + (src.chance(1, 10) ? src.oneOf({"", "..", "_.", "/"}) : ".");
			if (!ds.empty() && src.chance(3, 4)) u += src.pick(ds); else u += label(src);
			if (src.chance(1, 8) && !u.empty()) u[src.below(u.size())] = src.pick(std::string("ab.-/x:"));
			if (src.chance(1, 3)) u += src.oneOf({"/", "/x/y?z", "/a.b", ":80", "?q", ".", "/\xFF", "x"});
			bool yes = listed(domains, u); if (!u.empty()) { in += u + src.oneOf({"\n", " ", "\n\n"}); if (yes) want += u + "\n"; }
		}
		if (in.size() && src.chance(1, 5)) in.resize(in.size() - 1 - 0);
		std::string w = what + ", urls " + show(in); ctx.describe(w);
		prog::Result r = prog::run(d, prog::here() + "/blacklist", {"-u", "-d", "dict"}, in); prog::expectSane(r, w);
		if (r.code || !r.err.empty()) fail(str(w, ": exit status ", r.code, ", ", show(r.err)));
		if (r.out != want) fail(str(w, ": passed ", show(r.out), ", expected ", show(want)));
		some |= !want.empty(); ctx.count();
	}
	if (some) ctx.nontrivial(what);
}
// dictionaries which are none
static void dictionaries(Src& src, Ctx& ctx) {
	prog::Scratch d; prog::Result r = prog::run(d, prog::here() + "/blacklist", {"-g", "-d", "dict"}, src.coin() ? "a.b\nc.d\n" : "abc.de");
	std::string s = d.read("dict"); std::string how;
	switch (src.below(3)) { case 0: s.resize(src.below(s.size())); how = str("cut to ", s.size()); break; case 1: { size_t i = src.below(12); int b = 1 << src.below(8); if (i == 4 && b == 1) b = 2;   // an older version is still read
			s[i] ^= b; how = str("byte ", i, " xor ", b); break; } default: s = obs::texture(src, nullptr, 60, "abc\n"); how = "text " + show(s); }
	d.write("dict", s); ctx.describe(how);
	r = prog::run(d, prog::here() + "/blacklist", {"-u", "-d", "dict"}, "a.b\nz.z\nhttp://abc.de/\n"); prog::expectSane(r, how);
	if (r.code != 1 || r.err.compare(0, 11, "blacklist: ") || !r.out.empty()) fail(str("dictionary ", how, ": exit status ", r.code, ", output ", show(r.out), ", message ", show(r.err)));
	ctx.count(); ctx.nontrivial(how);
}

int main(int argc, char** argv) {
	Suite s;
	s.id = "C23";
	s.rule = "a run which prints something, or refuses a malformed pattern or dictionary; distinct by arguments and input";
	s.assumptions = {"a URL is what the documented expression of the sample describes: optional scheme, labels, a listed domain, optional path (no ports or user names)",
		"patterns too complicated to compile are left out"};
	s.laws = {
		{"grep", 1300, 200000, grep},
		{"refused", 800, 100000, refused},
		{"usage", 22, 22, usage, true},
		{"blacklist", 450, 60000, blacklist},
		{"dictionaries", 250, 20000, dictionaries},
	};
	return run(s, argc, argv);
}
