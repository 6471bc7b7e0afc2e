// C09: saved scanners load back equivalent, in sequence and by memory mapping.
#include "kinds.h"
#include "scale.h"
using namespace pbt;
using namespace kinds;

// A stream of bytes followed by something else; only the image may be consumed
struct Target { std::string before; };

static std::string junk(Src& s) { std::string t; size_t n = s.below(40); while (n--) t += (char)s.below(256); return t; }

/// bytes at an address which is `shift` bytes past a 16-byte boundary, fenced at the end
class Image {
public:
	Image(const std::string& s, size_t shift): m_size(s.size()) {
		if (posix_memalign((void**)&m_block, 16, 16 + s.size() + 64)) abort();
		m_begin = m_block + shift;
		memcpy(m_begin, s.data(), s.size());
		m_fence = (char*)(((size_t)m_begin + s.size() + 7) / 8 * 8);
		ASAN_POISON_MEMORY_REGION(m_fence, m_block + 16 + m_size + 64 - m_fence);
	}
	~Image() { ASAN_UNPOISON_MEMORY_REGION(m_fence, m_block + 16 + m_size + 64 - m_fence); free(m_block); }
	Image(const Image&) = delete;
	const char* begin() const { return m_begin; }
	size_t size() const { return m_size; }
	bool intact(const std::string& s) const { return !memcmp(m_begin, s.data(), m_size); }
private:
	char *m_block, *m_begin, *m_fence; size_t m_size;
};

template<class Sc> static void expectSame(const Sc& want, const Sc& got, const std::vector<Word>& probes, const std::string& what, Ctx& ctx) {
	std::string a = behaviour(want, probes), b = behaviour(got, probes);
	if (a != b) fail(str(what, " behaves differently:\n", b, "\ninstead of\n", a));
	std::string d = compare(want, got);
	if (!d.empty()) fail(what + " differs: " + d);
	ctx.count(2);
}

template<class Sc, bool Mapped> struct Mapping {
	static void check(Src&, const Made<Sc>&, const std::string&, Sc, Ctx&) {}
	static const void* map(Sc&, const void*, size_t) { abort(); }
};
template<class Sc> struct Mapping<Sc, true> {
	static const void* map(Sc& sc, const void* p, size_t n) { return sc.Mmap(p, n); }
	static void check(Src& src, const Made<Sc>& m, const std::string& img, Sc target, Ctx& ctx) {
		std::string rest = src.coin() ? junk(src) : std::string();
		Image mem(img + rest, src.coin() ? 8 : 0);
		std::string d = m.text + " mapped";
		const void* end = target.Mmap(mem.begin(), mem.size());
		if ((const char*)end != mem.begin() + img.size()) fail(str(d, " consumed ", (const char*)end - mem.begin(), " bytes of ", img.size()));
		expectSame(m.sc, target, m.probes, d, ctx);
		{ Sc copy(target); expectSame(m.sc, copy, m.probes, d + " and copied", ctx); }
		if (pu::save(target) != img) fail(d + " and saved again gives other bytes");
		if (!mem.intact(img + rest)) fail(d + ": the image was modified");
		Sc assigned; assigned = target; expectSame(m.sc, assigned, m.probes, d + " and assigned", ctx);
	}
};

struct RoundTrip {
	Src& src; Ctx& ctx;
	template<class Sc> void run() {
		Made<Sc> m = make<Sc>(src);
		Made<Sc> old = make<Sc>(src);
		std::string d = m.text + " over " + old.text;
		ctx.describe(d); ctx.label(Info<Sc>::name());
		std::string img = pu::save(m.sc);
		if (Info<Sc>::family != NoGlue && img.size() % sizeof(size_t)) fail(str(m.text, ": the image has ", img.size(), " bytes"));
		if (pu::save(m.sc) != img) fail(d + ": saving twice gives different bytes");
		{ Sc copy(m.sc); if (pu::save(copy) != img) fail(d + ": saving a copy gives different bytes"); }
		std::string rest = junk(src);
		std::istringstream in(img + rest);
		Sc target(old.sc);
		target.Load(&in);
		if (in.fail() || (size_t)in.tellg() != img.size()) fail(str(d, ": loading consumed ", (long)in.tellg(), " bytes of ", img.size()));
		expectSame(m.sc, target, m.probes, d + " loaded", ctx);
		if (pu::save(target) != img) fail(d + ": loaded and saved again gives other bytes");
		{ Sc copy(target); expectSame(m.sc, copy, m.probes, d + " loaded and copied", ctx); }
		// the library's own memory stream, which throws when it reaches the end
		{ P::MemoryInput mi(img.data(), img.size()); Sc t2; t2.Load(&mi); expectSame(m.sc, t2, m.probes, d + " loaded from memory", ctx); }
		Mapping<Sc, Info<Sc>::mmap>::check(src, m, img, old.sc, ctx);
		// again with the mapped object as the target of a load, and the loaded one as the target of a mapping
		if (src.coin()) {
			std::string o = pu::save(old.sc);
			std::istringstream i2(o);
			target.Load(&i2);
			expectSame(old.sc, target, old.probes, d + ": the old scanner loaded into the new one", ctx);
			Mapping<Sc, Info<Sc>::mmap>::check(src, m, img, target, ctx);
		}
		if (m.empty) ctx.label("empty");
		if (!m.empty || !old.empty) ctx.nontrivial(d);
	}
};
static void roundtrip(Src& src, Ctx& ctx) { RoundTrip r{src, ctx}; dispatch(src.below(kinds::count), r); }

// several images after each other
struct Item { std::string text, img; bool aligned; std::function<void(std::istream&)> load; std::function<const void*(const void*, size_t)> map; };
struct MakeItem {
	Src& src; Ctx& ctx; std::vector<Item>& items;
	template<class Sc> void run() {
		auto m = std::make_shared<Made<Sc> >(make<Sc>(src));
		auto t = std::make_shared<Sc>();
		Item it; it.text = m->text; it.img = pu::save(m->sc); it.aligned = Info<Sc>::family != NoGlue;
		Ctx& c = ctx;
		it.load = [m, t, &c](std::istream& in) { t->Load(&in); expectSame(m->sc, *t, m->probes, m->text + " loaded in sequence", c); };
		if (Info<Sc>::mmap) it.map = [m, t, &c](const void* p, size_t n) { const void* e = Mapping<Sc, Info<Sc>::mmap>::map(*t, p, n); expectSame(m->sc, *t, m->probes, m->text + " mapped in sequence", c); return e; };
		items.push_back(it);
	}
};
static void sequence(Src& src, Ctx& ctx) {
	std::vector<Item> items;
	size_t n = 2 + src.below(4);
	MakeItem mk{src, ctx, items};
	for (size_t i = 0; i < n; ++i) dispatch(src.below(kinds::count), mk);
	std::string d; for (auto& i : items) d += i.text + "; ";
	ctx.describe(d);
	std::string all; for (auto& i : items) all += i.img;
	std::istringstream in(all);
	for (auto& i : items) i.load(in);
	if ((size_t)in.tellg() != all.size()) fail(d + ": the stream is not at its end");
	std::string words; std::vector<Item*> mapped;
	for (auto& i : items) if (i.map) { words += i.img; words.resize((words.size() + 7) / 8 * 8); mapped.push_back(&i); }
	Image mem(words, src.coin() ? 8 : 0);
	const char* p = mem.begin(); const char* end = mem.begin() + words.size();
	for (Item* i : mapped) {
		const char* q = (const char*)i->map(p, end - p);
		if (q != p + i->img.size()) fail(str(d, " mapping ", i->text, " consumed ", q - p, " bytes of ", i->img.size()));
		p = (const char*)(((size_t)q + 7) / 8 * 8);
	}
	ctx.nontrivial(d);
}

// images written by one kind and read by another one of the same format
template<class From, class To> static void cross(Src& src, Ctx& ctx) {
	Made<From> m = make<From>(src);
	std::string d = str(m.text, " loaded as ", Info<To>::name());
	ctx.describe(d);
	std::istringstream in(pu::save(m.sc));
	To t; t.Load(&in);
	std::string diff = compare(m.sc, t);
	if (!diff.empty()) fail(d + " differs: " + diff);
	if (pu::save(t) != in.str()) fail(d + " and saved again gives other bytes");
	ctx.count();
	if (!m.empty) ctx.nontrivial(d);
}
static void advanced(Src& src, Ctx& ctx) {
	// NoGlueLimitCountingScanner reads what AdvancedCountingScanner wrote, whatever it held before
	Made<P::AdvancedCountingScanner> m = make<P::AdvancedCountingScanner>(src);
	Made<P::NoGlueLimitCountingScanner> old = make<P::NoGlueLimitCountingScanner>(src);
	std::string d = m.text + " loaded as NoGlueLimitCountingScanner over " + old.text;
	ctx.describe(d);
	std::string img = pu::save(m.sc), oldImg = pu::save(old.sc);
	P::NoGlueLimitCountingScanner t(old.sc), u(old.sc);
	std::istringstream in(img);
	t.Load(&in);
	std::string diff = compare(m.sc, t);
	if (!diff.empty()) fail(d + " differs: " + diff);
	{ P::NoGlueLimitCountingScanner c(t); diff = compare(m.sc, c); if (!diff.empty()) fail(d + ", copied, differs: " + diff); }
	Image mem(img, src.coin() ? 8 : 0);
	u.Mmap(mem.begin(), mem.size());
	diff = compare(m.sc, u);
	if (!diff.empty()) fail(d + ", mapped, differs: " + diff);
	{
		std::string again = pu::save(t);
		if (again != img) fail(d + " and saved again gives other bytes");
		if (pu::save(u) != img) fail(d + ", mapped and saved again gives other bytes");
		// glued with another one it still counts the same
		P::NoGlueLimitCountingScanner g = src.coin() ? P::NoGlueLimitCountingScanner::Glue(t, old.sc, 1500) : P::NoGlueLimitCountingScanner::Glue(u, old.sc, 1500);
		if (!g.Empty()) for (const Word& w : old.probes.size() > 1 ? m.probes : old.probes) {
			P::AdvancedCountingScanner::State a; m.sc.Initialize(a); P::NoGlueLimitCountingScanner::State b, c; old.sc.Initialize(b); g.Initialize(c);
			for (int ch : w) {
				P::Step(m.sc, a, (P::Char)ch); P::Step(old.sc, b, (P::Char)ch); P::Step(g, c, (P::Char)ch);
				for (size_t i = 0; i < m.sc.RegexpsCount(); ++i) if (c.Result((int)i) != a.Result((int)i)) fail(str(d, " glued: counts ", c.Result((int)i), " instead of ", a.Result((int)i), " in ", showWord(w)));
				for (size_t i = 0; i < old.sc.RegexpsCount(); ++i) if (c.Result((int)(i + m.sc.RegexpsCount())) != b.Result((int)i)) fail(str(d, " glued: counts ", c.Result((int)(i + m.sc.RegexpsCount())), " of the second instead of ", b.Result((int)i), " in ", showWord(w)));
			}
		}
	}
	// and back to its own format
	std::istringstream in2(oldImg);
	t.Load(&in2);
	expectSame(old.sc, t, old.probes, d + ", then loaded with the old image", ctx);
	Image mem2(oldImg, 0);
	u.Mmap(mem2.begin(), mem2.size());
	expectSame(old.sc, u, old.probes, d + ", then mapped with the old image", ctx);
	if (!m.empty || !old.empty) ctx.nontrivial(d);
}
// images of the previous version carry an additional table, which is skipped
template<class Sc> static void previous(Src& src, Ctx& ctx) {
	Made<Sc> m = make<Sc>(src);
	std::string d = m.text + " in the format of version 6";
	ctx.describe(d);
	std::string img = pu::save(m.sc);
	uint32_t states, letters; memcpy(&states, &img[24], 4); memcpy(&letters, &img[28], 4);
	size_t jumpsEnd = 24 + 24 + P::MaxChar + (size_t)states * letters * 8;
	if (jumpsEnd + (states + 7) / 8 * 8 > img.size()) fail("unexpected layout");
	std::string table((size_t)states * letters * 4, '\x55'); table.resize((table.size() + 7) / 8 * 8);
	std::string v6 = img; v6[4] = 6; v6.insert(jumpsEnd, table);
	std::istringstream in(v6 + "tail");
	Sc t; t.Load(&in);
	if ((size_t)in.tellg() != v6.size()) fail(d + ": wrong number of bytes consumed");
	expectSame(m.sc, t, m.probes, d + " loaded", ctx);
	Image mem(v6, 0);
	Sc u; const char* e = (const char*)u.Mmap(mem.begin(), mem.size());
	if (e != mem.begin() + v6.size()) fail(d + ": wrong number of bytes mapped");
	expectSame(m.sc, u, m.probes, d + " mapped", ctx);
	if (!m.empty) ctx.nontrivial(d);
}
static void across(Src& src, Ctx& ctx) {
	switch (src.below(12)) {
	case 0: cross<P::Scanner, P::NonrelocScanner>(src, ctx); break;
	case 1: cross<P::NonrelocScanner, P::Scanner>(src, ctx); break;
	case 2: cross<P::NonrelocScannerNoMask, P::ScannerNoMask>(src, ctx); break;
	case 3: cross<P::ScannerNoMask, P::NonrelocScannerNoMask>(src, ctx); break;
	case 4: cross<P::HalfFinalScanner, P::NonrelocHalfFinalScanner>(src, ctx); break;
	case 5: cross<P::NonrelocHalfFinalScannerNoMask, P::HalfFinalScannerNoMask>(src, ctx); break;
	case 6: previous<P::CountingScanner>(src, ctx); break;
	case 7: previous<P::CapturingScanner>(src, ctx); break;
	case 8: previous<P::AdvancedCountingScanner>(src, ctx); break;
	default: advanced(src, ctx);
	}
}

// images among other data, positioned with AlignedOutput / AlignedInput
static void aligned(Src& src, Ctx& ctx) {
	std::vector<Item> items;
	size_t n = 1 + src.below(3);
	MakeItem mk{src, ctx, items};
	for (size_t i = 0; i < n; ++i) dispatch(src.below(kinds::count), mk);
	std::vector<std::string> data; std::vector<size_t> div;
	for (size_t i = 0; i <= n; ++i) { std::string t; size_t k = src.below(20); while (k--) t += (char)src.below(256); data.push_back(t); div.push_back(src.coin() ? 8 : (size_t)1 << src.below(6)); }
	std::string d; for (size_t i = 0; i < n; ++i) d += str(data[i].size(), " bytes, aligned to ", div[i], ", ", items[i].text, "; ");
	ctx.describe(d);
	std::ostringstream out;
	std::vector<size_t> at;
	{
		P::AlignedOutput a(&out);
		for (size_t i = 0; i < n; ++i) {
			for (char c : data[i]) if (src.coin()) a.put(c); else a.write(&c, 1);
			a.Align(div[i]);
			a.flush();
			at.push_back(out.str().size());
			if (out.str().size() % div[i]) fail(str(d, "position ", out.str().size(), " is not aligned"));
			a.write(items[i].img.data(), items[i].img.size());
		}
		a << data[n];
	}
	size_t total = 0;
	for (size_t i = 0; i < n; ++i) { total = (total + data[i].size() + div[i] - 1) / div[i] * div[i]; if (at[i] != total) fail(str(d, "image at ", at[i], " instead of ", total)); total += items[i].img.size(); }
	std::istringstream in(out.str());
	P::AlignedInput a(&in);
	for (size_t i = 0; i <= n; ++i) {
		std::string got;
		while (got.size() < data[i].size()) {
			if (src.coin()) { if (src.coin() && a.peek() != (unsigned char)data[i][got.size()]) fail(d + "peek() differs"); got += (char)a.get(); }
			else { size_t k = 1 + src.below(data[i].size() - got.size()); std::string b(k, 0); a.read(&b[0], k); got += b; }
		}
		if (!a || got != data[i]) fail(str(d, "data ", i, " read back as ", show(got), " instead of ", show(data[i])));
		if (i < n) {
			if (src.coin() && (data[i].size() || i)) a.peek();
			a.Align(div[i]); items[i].load(a);
		}
	}
	if (a.get() != EOF) fail(d + "something is left");
	ctx.nontrivial(d);
}

// images of megabytes, read through a stream which hands out the bytes in portions
class Portions: public std::streambuf {
public:
	Portions(const std::string& s, size_t n): m_s(s), m_n(n) {}
	size_t consumed() const { return m_at - (egptr() - gptr()); }
protected:
	int_type underflow() override {
		if (gptr() < egptr()) return traits_type::to_int_type(*gptr());
		size_t k = std::min(m_n, m_s.size() - m_at);
		if (!k) return traits_type::eof();
		char* p = const_cast<char*>(m_s.data()) + m_at; m_at += k;
		setg(p, p, p + k);
		return traits_type::to_int_type(*p);
	}
private:
	const std::string& m_s; size_t m_n, m_at = 0;
};
template<class Sc> static std::string ends(const Sc& sc, const std::vector<std::string>& ts) {
	std::string r;
	for (auto& t : ts) { typename Sc::State st; sc.Initialize(st); P::Step(sc, st, P::BeginMark); P::Run(sc, st, t.data(), t.data() + t.size()); r += seen(sc, st); P::Step(sc, st, P::EndMark); r += " " + seen(sc, st) + "; "; }
	return r;
}
template<class Sc> struct LargeMap { static const void* map(Sc& sc, const void* p, size_t n) { return Mapping<Sc, Info<Sc>::mmap>::map(sc, p, n); } };
template<class Sc> static void largeOne(Src& src, Sc&& sc0, const std::vector<std::string>& ts, const std::string& d, Ctx& ctx) {
	typedef typename std::decay<Sc>::type S;
	const S& sc = sc0;
	std::string img = pu::save(sc), want = ends(sc, ts);
	if (Info<S>::family != NoGlue && img.size() % 8) fail(str(d, ": the image has ", img.size(), " bytes"));
	ctx.label(img.size() > 1000000 ? "image of more than 1 MB" : img.size() > 65536 ? "image of more than 64 KB" : "smaller image");
	size_t portion = src.oneOf<size_t>({1, 7, 512, 4096, 65536});
	std::string all = img + img + "tail";
	Portions buf(all, portion); std::istream in(&buf);
	for (int i = 0; i < 2; ++i) {
		S t; t.Load(&in);
		if (!in || buf.consumed() != img.size() * (i + 1)) fail(str(d, ": image ", i, " read in portions of ", portion, ": ", buf.consumed(), " bytes consumed, an image has ", img.size()));
		if (ends(t, ts) != want) fail(str(d, ": loaded in portions of ", portion, " it behaves differently"));
		if (t.Size() != sc.Size() || t.RegexpsCount() != sc.RegexpsCount()) fail(d + ": loaded with other sizes");
		if (pu::save(t) != img) fail(d + ": loaded and saved again gives other bytes");
	}
	std::string rest; rest.resize(3); in.read(&rest[0], 3); if (rest != "tai") fail(d + ": what follows the images is not intact");
	if (Info<S>::mmap) {
		Image mem(img, src.coin() ? 8 : 0);
		S t; const char* e = (const char*)LargeMap<S>::map(t, mem.begin(), mem.size());
		if (e != mem.begin() + img.size()) fail(d + ": mapping consumed a wrong number of bytes");
		if (ends(t, ts) != want) fail(d + ": mapped it behaves differently");
		if (pu::save(t) != img) fail(d + ": mapped and saved again gives other bytes");
	}
	ctx.count(4);
}
static void larges(Src& src, Ctx& ctx) {
	size_t kind = src.below(11), n = src.oneOf<size_t>({300, 1000, 5000, 33000, 66000}) + src.below(20);
	if (kind == 5) n = std::min<size_t>(n, 1000); if (kind == 6 || kind == 7) n = std::min<size_t>(n, 5000); if (kind > 7) n = std::min<size_t>(n, 600);
	scale::Big b = scale::big(src, n, src.coin());
	std::string d = str(b.text, ", kind ", kind);
	ctx.describe(d);
	auto ts = scale::texts(src, b, 8);
	P::Fsm f(b.fsm), sep = pu::parse(".*");
	if (kind > 7) { f = P::Fsm(); f.Append(b.word); }
	switch (kind) {
	case 0: largeOne(src, P::Scanner(f), ts, d + " Scanner", ctx); break;
	case 1: largeOne(src, P::ScannerNoMask(f), ts, d + " ScannerNoMask", ctx); break;
	case 2: largeOne(src, P::NonrelocScanner(f), ts, d + " NonrelocScanner", ctx); break;
	case 3: largeOne(src, P::NonrelocScannerNoMask(f), ts, d + " NonrelocScannerNoMask", ctx); break;
	case 4: largeOne(src, P::SimpleScanner(f), ts, d + " SimpleScanner", ctx); break;
	case 5: largeOne(src, P::SlowScanner(f), ts, d + " SlowScanner", ctx); break;
	case 6: largeOne(src, P::HalfFinalScanner(f), ts, d + " HalfFinalScanner", ctx); break;
	case 7: largeOne(src, P::NonrelocHalfFinalScannerNoMask(f), ts, d + " NonrelocHalfFinalScannerNoMask", ctx); break;
	case 8: largeOne(src, P::CountingScanner(f, sep), ts, d + " CountingScanner", ctx); break;
	case 9: largeOne(src, P::AdvancedCountingScanner(f, sep), ts, d + " AdvancedCountingScanner", ctx); break;
	default: largeOne(src, P::NoGlueLimitCountingScanner(f, sep), ts, d + " NoGlueLimitCountingScanner", ctx); break;
	}
	ctx.nontrivial(d);
}

int main(int argc, char** argv) {
	Suite s;
	s.id = "C09";
	s.rule = "the image or the overwritten scanner is not empty; any sequence of two or more images";
	s.assumptions = {"scanners of up to about 60 states of all 15 kinds, also glued; behaviour compared on random texts and through up to 150 reachable pairs of states; mapped at both word alignments within 16 bytes; images of NoGlueLimitCountingScanner need not be a whole number of words (documented in count.cpp)"};
	s.laws = {
		{"roundtrip", 2500, 200000, roundtrip},
		{"sequence", 500, 50000, sequence},
		{"across", 900, 80000, across},
		{"aligned", 250, 25000, aligned},
		{"large", 22, 1200, larges},
	};
	return run(s, argc, argv);
}
