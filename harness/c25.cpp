// C25: one scanner shared by many threads. Every case runs in a process of its own under ThreadSanitizer.
#include "kinds.h"
#include <pire/easy.h>
#include <pire/extra.h>
#include <pire/approx_matching.h>
#include <thread>
#include <atomic>
#include <sys/wait.h>
#include <unistd.h>
using namespace pbt;
using namespace pu;
namespace P = Pire;

// Runs f in a child which has not used the library yet (apart from what runs before main).
template<class F> static void inChild(const std::string& what, Ctx& ctx, uint64_t seed, F f) {
	int fd[2]; if (pipe(fd)) fail("pipe");
	fflush(stdout); fflush(stderr);
	pid_t pid = fork();
	if (pid < 0) fail("fork");
	if (pid == 0) {
		close(fd[0]); dup2(fd[1], 2);
		int code = 0; std::string msg;
		try { Src s(seed); msg = f(s); }
		catch (Fail& e) { code = 1; msg = e.msg; } catch (Discard&) { code = 77; }
		catch (std::exception& e) { code = 1; msg = str("exception: ", e.what()); }
		size_t done = 0; while (done < msg.size()) { ssize_t n = write(fd[1], msg.data() + done, msg.size() - done); if (n <= 0) break; done += n; }
		_exit(code);
	}
	close(fd[1]);
	std::string msg; char buf[4096]; ssize_t n;
	while ((n = read(fd[0], buf, sizeof buf)) > 0) msg.append(buf, n);
	close(fd[0]);
	int st = 0; waitpid(pid, &st, 0);
	if (WIFEXITED(st) && WEXITSTATUS(st) == 77) discard();
	if (WIFEXITED(st) && WEXITSTATUS(st) == 86) fail(str(what, ": data race reported by ThreadSanitizer\n", msg.substr(0, 3000)));
	if (!WIFEXITED(st)) fail(str(what, ": died by signal ", WTERMSIG(st), "\n", msg.substr(0, 3000)));
	if (WEXITSTATUS(st)) fail(str(what, ": ", msg));
	ctx.describe(what + (msg.empty() ? "" : ", " + msg));
}
// Starts the threads at once; the first message wins.
template<class F> static void inThreads(size_t n, F f) {
	std::vector<std::string> err(n); std::vector<std::thread> t;
	std::atomic<int> ready(0);
	for (size_t i = 0; i < n; ++i) t.emplace_back([&, i] {
		ready.fetch_add(1, std::memory_order_relaxed); while (ready.load(std::memory_order_relaxed) < (int)n) std::this_thread::yield();
		try { f(i); } catch (Fail& e) { err[i] = e.msg; } catch (Discard&) {} catch (std::exception& e) { err[i] = str("exception: ", e.what()); }
	});
	for (auto& x : t) x.join();
	for (size_t i = 0; i < n; ++i) if (!err[i].empty()) fail(str("thread ", i, ": ", err[i]));
}

template<class Sc, bool Glue> struct Joined { static std::string of(const Sc&, const Sc&, const std::vector<Word>&) { return ""; } };
template<class Sc> struct Joined<Sc, true> { static std::string of(const Sc& a, const Sc& b, const std::vector<Word>& p) { return kinds::behaviour(Sc::Glue(a, b, 500), p); } };
template<class Sc, bool M> struct Mapped { static std::unique_ptr<Sc> of(const std::vector<size_t>& image) { std::unique_ptr<Sc> r(new Sc()); r->Mmap(image.data(), image.size() * sizeof(size_t)); return r; } };
template<class Sc> struct Mapped<Sc, false> { static std::unique_ptr<Sc> of(const std::vector<size_t>&) { return nullptr; } };

static const char* origins[] = {"compiled", "loaded", "mapped", "copied"};
struct SharedCase {
	Src& s; size_t threads; int origin; bool before; std::string text;
	template<class Sc> void run() {
		typedef kinds::Info<Sc> I;
		kinds::Made<Sc> m = kinds::make<Sc>(s);
		std::unique_ptr<Sc> sc; std::vector<size_t> image;
		if (origin == 0) { sc.reset(new Sc()); sc->Swap(m.sc); }
		else if (origin == 3) sc.reset(new Sc(m.sc));
		else {
			std::ostringstream o(std::ios::binary); m.sc.Save(&o); std::string b = o.str();
			image.assign(b.size() / sizeof(size_t) + 2, 0); memcpy(image.data(), b.data(), b.size());
			if (origin == 2) sc = Mapped<Sc, I::mmap>::of(image);
			if (!sc) { std::istringstream i(b, std::ios::binary); sc.reset(new Sc()); sc->Load(&i); }
		}
		text = m.text;
		const Sc& c = *sc; const auto& probes = m.probes;
		// alone, before or after the threads: whatever is prepared lazily happens in the threads every other time
		std::string alone, joined;
		if (before) { alone = kinds::behaviour(c, probes); }
		std::vector<std::vector<std::string>> got(threads), glued(threads);
		std::vector<uint64_t> plan(threads); for (auto& p : plan) p = s.below(1u << 30);
		inThreads(threads, [&](size_t i) {
			uint64_t p = plan[i];
			for (int round = 0; round < 3; ++round, p /= 16) switch (p % 8) {
			case 0: case 1: case 2: got[i].push_back(kinds::behaviour(c, probes)); break;
			case 3: { Sc x(c); got[i].push_back(kinds::behaviour(x, probes)); break; }
			case 4: { Sc x; x = c; Sc y; y.Swap(x); got[i].push_back(kinds::behaviour(y, probes)); got[i].push_back(kinds::behaviour(c, probes)); break; }
			case 5: { std::ostringstream o(std::ios::binary); c.Save(&o); std::istringstream in(o.str(), std::ios::binary); Sc x; x.Load(&in); got[i].push_back(kinds::behaviour(x, probes)); break; }
			case 6: if (I::glue) glued[i].push_back(Joined<Sc, I::glue>::of(c, c, probes)); else got[i].push_back(kinds::behaviour(c, probes)); break;
			default: { Sc none; Sc x(none); typename Sc::State st; x.Initialize(st); static const char abc[] = "abc"; P::Run(x, st, abc, abc + 3); got[i].push_back(kinds::behaviour(c, probes)); }
			}
		});
		if (!before) alone = kinds::behaviour(c, probes);
		if (I::glue) joined = Joined<Sc, I::glue>::of(c, c, probes);
		for (size_t i = 0; i < threads; ++i) {
			for (auto& g : got[i]) if (g != alone) fail(str(m.text, ": thread ", i, " saw '", g, "', alone it is '", alone, "'"));
			for (auto& g : glued[i]) if (g != joined) fail(str(m.text, ": the scanner glued in thread ", i, " behaves differently"));
		}
	}
};
static void shared(Src& src, Ctx& ctx) {
	size_t threads = 2 + src.below(5), kind = src.below(kinds::count); int origin = (int)src.below(4); bool before = src.coin(); uint64_t seed = src.below(1ull << 40);
	std::string d = str(threads, " threads, kind ", kind, " ", origins[origin], ", sequence ", seed); ctx.describe(d);
	inChild(d, ctx, seed, [&](Src& s) { SharedCase c{s, threads, origin, before}; kinds::dispatch(kind, c); return c.text; });
	ctx.count(threads * 3); ctx.label(origins[origin]); ctx.nontrivial(d);
}

// everything one does with a text, through the Runner interface and the functions
template<class Sc> static std::string texts(const Sc& sc, const std::vector<std::string>& ts) {
	std::string r;
	for (auto& t : ts) {
		const char* b = t.data(); const char* e = b + t.size();
		r += bool(P::Runner(sc).Begin().Run(t).End()) ? "1" : "0";
		r += bool(P::Runner(sc).Run(b, e)) ? "1" : "0";
		r += P::Matches(sc, b, e) ? "1" : "0";
		const char* x = P::LongestPrefix(sc, b, e); r += x ? std::to_string(x - b) : "-";
		x = P::ShortestPrefix(sc, b, e, true); r += x ? std::to_string(x - b) : "-"; r += ",";
		x = P::LongestSuffix(sc, e - 1, b - 1); r += x ? std::to_string(e - x) : "-"; r += ";";
	}
	return r;
}
struct TextCase {
	Src& s; size_t threads; std::string text;
	template<class Sc> void go() {
		ref::Lang l; P::Fsm f = kinds::smallFsm(s, l, text, 25); const Sc sc(f);
		std::vector<std::string> ts; for (int i = 0; i < 4; ++i) { std::string t; for (int c : ref::randomWord(s, l, 30, true)) t += (char)c; ts.push_back(t + "x"); }
		std::vector<std::string> got(threads);
		inThreads(threads, [&](size_t i) { got[i] = texts(sc, ts); });
		std::string alone = texts(sc, ts);
		for (auto& g : got) if (g != alone) fail(str(text, ": ", g, ", alone ", alone));
	}
};
static void running(Src& src, Ctx& ctx) {
	size_t threads = 2 + src.below(5), kind = src.below(4); uint64_t seed = src.below(1ull << 40);
	std::string d = str(threads, " threads, kind ", kind, ", sequence ", seed); ctx.describe(d);
	inChild(d, ctx, seed, [&](Src& s) { TextCase c{s, threads}; switch (kind) { case 0: c.go<P::Scanner>(); break; case 1: c.go<P::ScannerNoMask>(); break; case 2: c.go<P::SimpleScanner>(); break; default: c.go<P::NonrelocScanner>(); } return c.text; });
	ctx.count(threads * 4); ctx.nontrivial(d);
}

static const char* patterns[] = {"a\\wb", "\\d+|\\s", "[^a-c]x*", "(a|b)*c$", "^abc", "e[ox]p", "\\W\\D", "x{2,4}(yz)?", "\\x{41}.", "привет|\\cа", "a.b", "(a(b)c)", "[aeo]+\\n"};
static std::string compiled(size_t which) {
	std::string p = patterns[which % 13]; bool utf8 = which % 13 == 9 || which % 2; std::vector<P::wchar32> w;
	P::Encodings::Utf8().FromLocal(p.data(), p.data() + p.size(), std::back_inserter(w));
	P::Lexer lx(w.begin(), w.end()); lx.SetEncoding(utf8 ? P::Encodings::Utf8() : P::Encodings::Latin1());
	if (which & 4) lx.AddFeature(P::Features::CaseInsensitive());
	if (which & 8) lx.AddFeature(P::Features::GlueSimilarGlyphs());
	if (which & 16) lx.AddFeature(P::Features::AndNotSupport());
	bool capture = (which & 96) == 96; if (capture) lx.AddFeature(P::Features::Capture(1));
	P::Fsm f = lx.Parse();
	switch (which / 128 % 6) {
	case 0: return save(P::Scanner(f.Surround()));
	case 1: return save(P::SimpleScanner(f));
	case 2: return save(P::SlowScanner(f));
	case 3: return capture ? save(P::CapturingScanner(f)) : save(P::HalfFinalScanner(f));
	case 4: { P::Lexer sep(".*"); P::Fsm y = sep.Parse(); return f.Size() > 40 ? "" : save(P::CountingScanner(f, y)); }
	default: return f.Size() > 6 ? save(P::ScannerNoMask(f)) : save(P::Scanner(f, 1));
	}
}
// patterns compiled by every thread for itself, with nothing compiled before
static void compiling(Src& src, Ctx& ctx) {
	size_t threads = 2 + src.below(5); uint64_t seed = src.below(1ull << 40);
	std::string d = str(threads, " threads compile, sequence ", seed); ctx.describe(d);
	inChild(d, ctx, seed, [&](Src& s) {
		std::vector<std::vector<size_t>> todo(threads); std::vector<std::vector<std::string>> got(threads);
		for (auto& t : todo) for (int i = 0; i < 2; ++i) t.push_back(s.below(13 * 128 * 6));
		inThreads(threads, [&](size_t i) { for (size_t w : todo[i]) got[i].push_back(compiled(w)); });
		for (size_t i = 0; i < threads; ++i) for (size_t k = 0; k < todo[i].size(); ++k) if (got[i][k] != compiled(todo[i][k])) fail(str("pattern ", patterns[todo[i][k] % 13], " (", todo[i][k], ") compiled differently in thread ", i));
		return std::string();
	});
	ctx.count(threads * 2); ctx.nontrivial(d);
}
// a Regexp and an automaton shared for reading
static void shares(Src& src, Ctx& ctx) {
	size_t threads = 2 + src.below(4), which = src.below(13); uint64_t seed = src.below(1ull << 40); int opts = (int)src.below(3);
	std::string d = str(threads, " threads share ", patterns[which], ", sequence ", seed); ctx.describe(d);
	inChild(d, ctx, seed, [&](Src& s) {
		const P::Regexp re = opts == 0 ? P::Regexp(patterns[which], P::UTF8) : opts == 1 ? P::Regexp(patterns[which], P::UTF8 | P::I) : P::Regexp(std::string(patterns[which]), P::I | P::UTF8 | P::ANDNOT);
		const P::Fsm f = parse(patterns[which], ParseOpts{true, false, false});
		std::vector<std::string> ts; for (int i = 0; i < 6; ++i) ts.push_back(obs::texture(s, nullptr, 20, "abcxyzeo 12-"));
		auto job = [&] {
			std::string r; for (auto& t : ts) { r += re.Matches(t) ? "1" : "0"; r += (t ==~ re) ? "1" : "0"; }
			for (size_t i = 0; i < f.Size(); ++i) r += str(f.IsFinal(i), " ", f.Tag(i), " ", f.Destinations(i, 'a').size(), f.Destinations(i, 0x7F).size(), f.OutgoingLetters(i).size(), " ");
			P::Fsm g(f); g.Surround(); g.Canonize(); r += save(g.Compile<P::Scanner>()); P::Fsm h = f + f; r += str(h.Size());
			return r;
		};
		std::vector<std::string> got(threads);
		inThreads(threads, [&](size_t i) { got[i] = job(); });
		std::string alone = job(); for (size_t i = 0; i < threads; ++i) if (got[i] != alone) fail(str("thread ", i, " gets something else than it gets alone"));
		return std::string();
	});
	ctx.count(threads); ctx.nontrivial(d);
}

int main(int argc, char** argv) {
	Suite s;
	s.id = "C25";
	s.rule = "at least two threads use the same scanner (or compile patterns of their own at the same time); distinct by kind, origin and contents";
	s.assumptions = {"ThreadSanitizer sees a race when the two accesses happen unordered in one run, whatever the actual schedule; schedules themselves are not controlled",
		"every case runs in a fresh process, so first uses happen in threads in half of the cases"};
	s.laws = {
		{"shared", 900, 60000, shared},
		{"running", 250, 20000, running},
		{"compiling", 250, 20000, compiling},
		{"shares", 200, 15000, shares},
	};
	return run(s, argc, argv);
}
