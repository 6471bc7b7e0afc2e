// C10: damaged or foreign scanner images are refused without harm.
#include "kinds.h"
#include "scale.h"
using namespace pbt;
using namespace kinds;

/// exactly these bytes at an aligned address; anything past them is seen by the address sanitizer
class Exact {
public:
	Exact(const std::string& s, size_t shift = 0): m_size(s.size()) {
		m_block = (char*)malloc(shift + s.size() ? shift + s.size() : 1);
		memcpy(m_block + shift, s.data(), s.size());
		m_begin = m_block + shift;
		if (!(shift + s.size())) ASAN_POISON_MEMORY_REGION(m_block, 1);
	}
	~Exact() { ASAN_UNPOISON_MEMORY_REGION(m_block, 1); free(m_block); }
	Exact(const Exact&) = delete;
	const char* begin() const { return m_begin; }
	size_t size() const { return m_size; }
private:
	char *m_block, *m_begin; size_t m_size;
};

template<class Sc, bool M> struct Map { static bool map(Sc&, const void*, size_t) { return false; } };
template<class Sc> struct Map<Sc, true> { static bool map(Sc& sc, const void* p, size_t n) { sc.Mmap(p, n); return true; } };

// the object after the failure: usable, holding what it held before or nothing; then assigned, loaded, copied
template<class Sc> static void survives(Sc& sc, const Made<Sc>& old, const std::string& oldView, const std::string& what, bool deep) {
	std::string now = behaviour(sc, old.probes);
	if (now != oldView && now != behaviour(Sc(), old.probes)) fail(what + ": afterwards the object behaves like nothing it was given:\n" + now + "\nit was\n" + oldView);
	if (!deep) return;
	{ Sc c(sc); Sc d; d = c; if (behaviour(d, old.probes) != now) fail(what + ": a copy of the object behaves differently"); }
	sc = old.sc;
	if (behaviour(sc, old.probes) != oldView) fail(what + ": the object assigned to afterwards behaves differently");
}

// refused: every way of reading fails
template<class Sc> static void refused(const std::string& img, const Made<Sc>& old, const std::string& oldView, const std::string& what, Ctx& ctx, bool deep, int ways = 7, size_t shift = 0) {
	for (int way = 0; way < 3; ++way) {
		if (!(ways >> way & 1)) continue;
		Sc sc(old.sc);
		bool thrown = false;
		static const char* names[] = {" mapped", " loaded from a stream", " loaded from a memory stream"};
		{
			Exact mem(img, shift);
			try {
				if (way == 0) { if (!Map<Sc, Info<Sc>::mmap>::map(sc, mem.begin(), mem.size())) continue; }
				else if (way == 1) { std::istringstream in(img); sc.Load(&in); }
				else { P::MemoryInput in(mem.begin(), mem.size()); sc.Load(&in); }
			} catch (std::exception&) { thrown = true; }
			if (!thrown) fail(what + names[way] + " is accepted");
		}
		survives(sc, old, oldView, what + names[way], deep);
		ctx.count();
	}
}

static std::vector<size_t> points(Src& src, size_t n, size_t k) {
	std::vector<size_t> v;
	for (size_t i = 0; i < std::min<size_t>(n, 66); ++i) v.push_back(i);                       // the header and the sizes
	for (size_t i = 66; i + 1 < n && i < 66 + 264 * 8 + 80; i += 1 + src.below(90)) v.push_back(i);
	for (size_t i = 1; i < 26 && i <= n; ++i) v.push_back(n - i);                               // the end
	for (size_t i = 0; i < k && n; ++i) v.push_back(src.below(n));
	std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end());
	return v;
}

struct Truncation {
	Src& src; Ctx& ctx;
	template<class Sc> void run() {
		Made<Sc> m = make<Sc>(src), old = make<Sc>(src);
		if (m.sc.Size() > 30) discard();
		std::string img = pu::save(m.sc), view = behaviour(old.sc, old.probes);
		std::string d = str(m.text, " (", img.size(), " bytes) over ", old.text);
		ctx.describe(d); ctx.label(Info<Sc>::name());
		for (size_t n : points(src, img.size(), 20)) {
			// all the words which are there may be legitimately enough only if nothing was cut
			refused(img.substr(0, n), old, view, str(d, " truncated to ", n), ctx, n % 16 == 0);
		}
		if (!m.empty) ctx.nontrivial(d);
	}
};
static void truncated(Src& src, Ctx& ctx) { Truncation t{src, ctx}; dispatch(src.below(kinds::count), t); }

struct Headers {
	Src& src; Ctx& ctx;
	template<class Sc> void run() {
		Made<Sc> m = make<Sc>(src), old = make<Sc>(src);
		std::string img = pu::save(m.sc), view = behaviour(old.sc, old.probes);
		std::string d = str(m.text, " over ", old.text);
		ctx.describe(d); ctx.label(Info<Sc>::name());
		static const char* fields[] = {"magic number", "version", "pointer size", "word size", "type", "header size"};
		for (int f = 0; f < 6; ++f) for (int i = 0; i < 4; ++i) {
			uint32_t was, v; memcpy(&was, &img[f * 4], 4);
			switch (src.below(4)) { case 0: v = was ^ (1u << src.below(32)); break; case 1: v = (uint32_t)src.below(20); break; case 2: v = __builtin_bswap32(was); break; default: v = (uint32_t)src.below(0x100000000ull); }
			if (v == was) continue;
			if (f == 1 && (v == 6 || v == 7)) continue;   // 6 is the previous version, documented to be read
			if (f == 4 && Info<Sc>::family == NoGlue && v == 4) continue; // reads the other format as well
			if (f == 5 && v == 0) continue;
			if (f == 4 && m.empty && Info<Sc>::family == Loaded && v == 5) continue; // an empty scanner without glue limit
			std::string bad = img; memcpy(&bad[f * 4], &v, 4);
			refused(bad, old, view, str(d, " with ", fields[f], " ", v, " instead of ", was), ctx, i == 0);
		}
		// at an odd address
		if (Info<Sc>::mmap) for (size_t shift = 1; shift < 8; ++shift) refused(img, old, view, str(d, " at an address misaligned by ", shift), ctx, shift == 4, 1, shift);
		// no image at all
		for (int i = 0; i < 4; ++i) {
			std::string r; size_t n = src.below(3) ? src.below(400) : src.below(30); while (n--) r += (char)(src.chance(1, 3) ? 0 : src.below(256));
			if (r.size() > 4 && !memcmp(&r[0], "ERIP", 4)) continue;
			refused(r, old, view, str("random bytes ", show(r.substr(0, 40)), " over ", old.text), ctx, false);
		}
		if (!m.empty) ctx.nontrivial(d);
	}
};
static void headers(Src& src, Ctx& ctx) { Headers t{src, ctx}; dispatch(src.below(kinds::count), t); }

struct Other { std::string img, text; Family family; bool empty; };
struct MakeOther { Src& src; Other& o; template<class Sc> void run() { Made<Sc> m = make<Sc>(src); o.img = pu::save(m.sc); o.text = m.text; o.family = Info<Sc>::family; o.empty = m.empty; } };
struct Foreign {
	Src& src; Ctx& ctx;
	template<class Sc> void run() {
		Made<Sc> old = make<Sc>(src);
		std::string view = behaviour(old.sc, old.probes);
		for (int i = 0; i < 6; ++i) {
			Other o; MakeOther mo{src, o}; dispatch(src.below(kinds::count), mo);
			bool fits = o.family == Info<Sc>::family || (Info<Sc>::family == NoGlue && o.family == Loaded);
			if (o.empty && Info<Sc>::family == Loaded && o.family == NoGlue) continue; // holds no actions to be misunderstood; used to be read
			std::string d = str(o.text, " as ", old.text);
			ctx.describe(d);
			if (fits) {
				// some kinds share a format; a capturing slow scanner needs more than an ordinary one has written
				if (std::is_same<Sc, P::SlowCapturingScanner>::value && o.text.compare(0, 11, "SlowScanner") == 0 && o.text.find("of empty") == std::string::npos) {
					Sc sc(old.sc); Exact mem(o.img); bool thrown = false;
					try { Map<Sc, Info<Sc>::mmap>::map(sc, mem.begin(), mem.size()); } catch (std::exception&) { thrown = true; }
					if (thrown) survives(sc, old, view, d + " mapped", true);
					ctx.label("slow as capturing");
				}
				continue;
			}
			refused(o.img, old, view, d, ctx, true);
			refused(o.img + std::string(5000, 0), old, view, d + " with zeros after it", ctx, false);
			ctx.label("foreign"); ctx.nontrivial(d);
		}
	}
};
static void foreign(Src& src, Ctx& ctx) { Foreign t{src, ctx}; dispatch(src.below(kinds::count), t); }

// images of hundreds of kilobytes, cut
struct Cut {
	Src& src; Ctx& ctx;
	template<class Sc> void operator()() {
		Made<Sc> old = make<Sc>(src); std::string view = behaviour(old.sc, old.probes);
		scale::Big b = scale::big(src, 1000 + src.below(Info<Sc>::family == Slow ? 300 : 4000), src.coin());
		std::string img; { P::Fsm f(b.fsm); Sc sc(f.Compile<Sc>()); img = pu::save(sc); }
		std::string d = str(Info<Sc>::name(), " of ", b.text, " (", img.size(), " bytes) over ", old.text); ctx.describe(d); ctx.label(Info<Sc>::name());
		for (int i = 0; i < 12; ++i) {
			size_t n = src.below(3) ? src.below(img.size()) : img.size() - 1 - src.below(64); if (src.chance(1, 3)) n &= ~(size_t)0xFFF; if (src.chance(1, 4)) n &= ~(size_t)7;
			refused(img.substr(0, n), old, view, str(d, " truncated to ", n), ctx, i == 0);
		}
		ctx.nontrivial(d);
	}
};
static void large(Src& src, Ctx& ctx) {
	Cut c{src, ctx};
	switch (src.below(6)) { case 0: c.operator()<P::Scanner>(); break; case 1: c.operator()<P::NonrelocScanner>(); break; case 2: c.operator()<P::SimpleScanner>(); break; case 3: c.operator()<P::ScannerNoMask>(); break; case 4: c.operator()<P::HalfFinalScanner>(); break; default: c.operator()<P::SlowScanner>(); }
}

int main(int argc, char** argv) {
	Suite s;
	s.id = "C10";
	s.rule = "images of non-empty scanners (truncated, headers); a format that does not fit (foreign)";
	s.assumptions = {"truncation at every byte of the first 66 and the last 25, every 1..90 bytes between, and 20 random points; header fields replaced one at a time; the image is in a heap block of exactly its size under AddressSanitizer, so any read past it is a violation", "contents behind an intact header are not altered: a damaged transition table cannot be recognized by the format"};
	s.laws = {
		{"truncated", 400, 30000, truncated},
		{"headers", 500, 40000, headers},
		{"foreign", 400, 40000, foreign},
		{"large", 60, 4000, large},
	};
	return run(s, argc, argv);
}
