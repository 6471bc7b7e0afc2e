// C11: scanner objects behave as independent values through any history.
#include "kinds.h"
#include <memory>
#include <list>
using namespace pbt;
using namespace kinds;

/// the kind a scanner is converted to and from
template<class Sc> struct Partner { typedef Sc T; static const bool exists = false; };
#define PAIR(A, B) template<> struct Partner<P::A> { typedef P::B T; static const bool exists = true; }; template<> struct Partner<P::B> { typedef P::A T; static const bool exists = true; };
PAIR(Scanner, NonrelocScanner) PAIR(ScannerNoMask, NonrelocScannerNoMask) PAIR(HalfFinalScanner, NonrelocHalfFinalScanner) PAIR(HalfFinalScannerNoMask, NonrelocHalfFinalScannerNoMask)
#undef PAIR

template<class Sc, bool M> struct Map { static void map(Sc&, const void*, size_t) { abort(); } };
template<class Sc> struct Map<Sc, true> { static void map(Sc& sc, const void* p, size_t n) { sc.Mmap(p, n); } };
template<class Sc, bool G> struct Glue { static Sc glue(const Sc&, const Sc&, size_t) { abort(); } };
template<class Sc> struct Glue<Sc, true> { static Sc glue(const Sc& a, const Sc& b, size_t n) { return Sc::Glue(a, b, n); } };
template<class Sc> auto memberSwap(Sc& a, Sc& b, int) -> decltype(a.Swap(b), void()) { a.Swap(b); }
template<class Sc> void memberSwap(Sc& a, Sc& b, long) { using std::swap; swap(a, b); }

/// bytes which stay in place and are not changed, fenced at the end
struct Block {
	char* p; size_t n; std::string was;
	explicit Block(const std::string& s): p((char*)malloc(s.size())), n(s.size()), was(s) { memcpy(p, s.data(), n); }
	~Block() { free(p); }
	Block(const Block&) = delete;
};

template<class Sc> struct Value { Sc master; std::string text, view; };
template<class Sc> struct Slot {
	std::unique_ptr<Sc> sc;
	std::shared_ptr<Value<Sc> > value;      // null: moved from or failed, any usable value
	std::shared_ptr<Block> memory;          // what it was mapped to
	std::unique_ptr<typename Sc::State> st; // a state in the middle of a text
	Word walked;
};

template<class Sc> struct Pool {
	Src& src; Ctx& ctx;
	typedef typename Partner<Sc>::T Alt;
	std::vector<Slot<Sc> > slots;
	std::vector<std::shared_ptr<Value<Sc> > > values;
	std::vector<Word> probes;
	std::string log;

	void say(const std::string& s) { log += (log.empty() ? "" : "; ") + s; ctx.describe(std::string(Info<Sc>::name()) + ": " + log); }
	void bad(size_t i, const std::string& s) { fail(str(Info<Sc>::name(), ": ", log, ": #", i, " ", s)); }

	std::shared_ptr<Value<Sc> > add(const Sc& sc, const std::string& text) {
		auto v = std::make_shared<Value<Sc> >();
		v->master = sc; v->text = text; v->view = behaviour(v->master, probes);
		values.push_back(v);
		return v;
	}
	std::string seenAfter(const Sc& sc, const Word& w) { typename Sc::State s; sc.Initialize(s); for (int c : w) P::Step(sc, s, (P::Char)c); return seen(sc, s); }

	void check(size_t i) {
		Slot<Sc>& s = slots[i];
		if (!s.sc) return;
		std::string b = behaviour(*s.sc, probes);   // must not crash even when moved from
		ctx.count();
		if (!s.value) return;
		if (b != s.value->view) bad(i, str("does not behave like ", s.value->text, ":\n", b, "\ninstead of\n", s.value->view));
		if (s.sc->Empty() != s.value->master.Empty()) bad(i, "is empty or not unexpectedly");
		if (s.memory && memcmp(s.memory->p, s.memory->was.data(), s.memory->n)) bad(i, "altered the memory it is mapped to");
		if (s.st) {
			// a state stays valid as long as the object does
			std::string v = seen(*s.sc, *s.st), w = seenAfter(s.value->master, s.walked);
			if (v != w) bad(i, str("running state after ", showWord(s.walked), " shows '", v, "' instead of '", w, "'"));
			if (s.walked.size() < 40) {
				int c = src.pick(std::vector<int>{'a', 'b', 'c', 'x', ' ', '-'});
				P::Step(*s.sc, *s.st, (P::Char)c); s.walked.push_back(c);
			}
		} else if (src.coin()) { s.st.reset(new typename Sc::State); s.sc->Initialize(*s.st); s.walked.clear(); }
	}
	void touch(size_t i) { slots[i].st.reset(); }
	size_t live() { std::vector<size_t> v; for (size_t i = 0; i < slots.size(); ++i) if (slots[i].sc) v.push_back(i); return v.empty() ? (size_t)-1 : src.pick(v); }
	void set(size_t i, std::shared_ptr<Value<Sc> > v, std::shared_ptr<Block> m) { slots[i].value = v; slots[i].memory = m; touch(i); }

	void convert(size_t i, size_t j, std::true_type) {
		std::unique_ptr<Alt> a(new Alt(*slots[j].sc));
		auto v = slots[j].value; 
		Alt b; b = *slots[j].sc;
		if (src.coin()) { std::unique_ptr<Alt> c(new Alt(*a)); a.swap(c); }
		if (v) { std::string x = behaviour(*a, probes); if (x != v->view) bad(j, "converted behaves differently:\n" + x + "\ninstead of\n" + v->view); if (behaviour(b, probes) != v->view) bad(j, "assigned to the other form behaves differently"); }
		if (slots[i].sc && src.coin()) *slots[i].sc = Sc(*a); else slots[i].sc.reset(new Sc(*a));
		// a converted empty one need not be the same, but it is empty; a converted mapped one owns its data
		set(i, v, nullptr);
		a.reset();
	}
	void convert(size_t, size_t, std::false_type) { discard(); }

	void step() {
		enum { Default, CopyNew, Assign, SelfAssign, MoveNew, MoveAssign, SelfMove, Swap, StdSwap, Convert, GlueOp, Load, Mmap, Destroy, Fresh, Vector, BadLoad, ops };
		size_t i = src.below(slots.size());
		size_t j = live();
		Slot<Sc>& t = slots[i];
		size_t op = src.below(ops);
		if (j == (size_t)-1) op = Fresh;
		switch (op) {
		case Default: say(str("#", i, " = default")); t.sc.reset(new Sc); set(i, values[0], nullptr); break;
		case CopyNew: {
			say(str("#", i, " = copy of #", j));
			std::unique_ptr<Sc> n(new Sc(*slots[j].sc)); auto v = slots[j].value; auto m = slots[j].memory;
			t.sc.swap(n); set(i, v, m); break;
		}
		case Assign:
			if (!t.sc) t.sc.reset(new Sc);
			say(str("#", i, " assigned #", j));
			{ auto v = slots[j].value; auto m = slots[j].memory; *t.sc = *slots[j].sc; set(i, v, m); }
			break;
		case SelfAssign: { say(str("#", j, " assigned itself")); Sc& a = *slots[j].sc; Sc& b = *slots[j].sc; a = b; touch(j); break; }
		case MoveNew: {
			say(str("#", i, " = moved #", j));
			std::unique_ptr<Sc> n(new Sc(std::move(*slots[j].sc))); auto v = slots[j].value; auto m = slots[j].memory;
			set(j, nullptr, m);        // may still refer to it
			if (src.coin() && i != j) slots[j].sc.reset();
			t.sc.swap(n); set(i, v, m); break;
		}
		case MoveAssign: {
			if (i == j) return;
			if (!t.sc) t.sc.reset(new Sc);
			say(str("#", i, " move-assigned #", j));
			auto v = slots[j].value; auto m = slots[j].memory, old = t.memory;
			*t.sc = std::move(*slots[j].sc);
			keep.push_back(old); keep.push_back(m);
			set(j, nullptr, m); set(i, v, m); break;
		}
		case SelfMove: { say(str("#", j, " move-assigned itself")); Sc& a = *slots[j].sc; Sc& b = *slots[j].sc; a = std::move(b); auto m = slots[j].memory; set(j, nullptr, m); break; }
		case Swap: case StdSwap: {
			if (!t.sc) t.sc.reset(new Sc), set(i, values[0], nullptr);
			say(str(op == Swap ? "Swap #" : "swap #", i, " and #", j));
			auto v = slots[j].value, w = t.value; auto m = slots[j].memory, k = t.memory;
			if (op == Swap) memberSwap(*t.sc, *slots[j].sc, 0); else { using std::swap; swap(*t.sc, *slots[j].sc); }
			set(i, v, m); set(j, w, k); break;
		}
		case Convert:
			if (!Partner<Sc>::exists) return;
			say(str("#", i, " = #", j, " converted there and back"));
			convert(i, j, std::integral_constant<bool, Partner<Sc>::exists>());
			break;
		case GlueOp: {
			if (!Info<Sc>::glue) return;
			size_t k = live();
			if (!slots[j].value || !slots[k].value || slots[j].sc->RegexpsCount() + slots[k].sc->RegexpsCount() > 5 || slots[j].sc->Size() * slots[k].sc->Size() > 400) return;
			say(str("#", i, " = #", j, " glued with #", k));
			auto v = add(Glue<Sc, Info<Sc>::glue>::glue(slots[j].value->master, slots[k].value->master, 500), "(" + slots[j].value->text + ") glued with (" + slots[k].value->text + ")");
			Sc g = Glue<Sc, Info<Sc>::glue>::glue(*slots[j].sc, *slots[k].sc, 500);
			if (src.coin() && t.sc) *t.sc = std::move(g); else if (src.coin() && t.sc) *t.sc = g; else t.sc.reset(new Sc(g));
			keep.push_back(slots[j].memory); keep.push_back(slots[k].memory); // glued with an empty one it is a copy of the other
			set(i, v, nullptr); break;
		}
		case Load: {
			say(str("#", i, " loaded from #", j, " saved"));
			std::stringstream s; slots[j].sc->Save(&s);
			auto v = slots[j].value;
			if (!t.sc) t.sc.reset(new Sc);
			t.sc->Load(&s); set(i, v, nullptr); break;
		}
		case Mmap: {
			if (!Info<Sc>::mmap) return;
			say(str("#", i, " mapped to #", j, " saved"));
			auto v = slots[j].value;
			auto m = std::make_shared<Block>(pu::save(*slots[j].sc));
			if (!t.sc) t.sc.reset(new Sc);
			Map<Sc, Info<Sc>::mmap>::map(*t.sc, m->p, m->n);
			set(i, v, m); break;
		}
		case Destroy: say(str("#", j, " destroyed")); slots[j].sc.reset(); set(j, nullptr, nullptr); break;
		case Fresh: { auto v = src.pick(values); say(str("#", i, " = ", v->text)); t.sc.reset(new Sc(v->master)); set(i, v, nullptr); break; }
		case Vector: {
			// through a growing vector and a list
			say(str("#", i, " = #", j, " by way of containers"));
			std::vector<Sc> c; std::vector<std::shared_ptr<Value<Sc> > > w; std::vector<std::shared_ptr<Block> > mem;
			auto push = [&](size_t k) { if (slots[k].sc) { c.push_back(*slots[k].sc); w.push_back(slots[k].value); mem.push_back(slots[k].memory); } };
			for (size_t k = 0; k < slots.size(); ++k) push(k);
			push(j);
			if (src.coin()) { c.erase(c.begin()); w.erase(w.begin()); mem.erase(mem.begin()); }
			if (src.coin()) { c.insert(c.begin(), *slots[j].sc); w.insert(w.begin(), slots[j].value); mem.insert(mem.begin(), slots[j].memory); }
			if (src.coin()) { std::reverse(c.begin(), c.end()); std::reverse(w.begin(), w.end()); std::reverse(mem.begin(), mem.end()); }
			if (src.coin()) { std::list<Sc> l(c.begin(), c.end()); c.assign(l.begin(), l.end()); }
			for (size_t k = 0; k < c.size(); ++k) if (w[k] && behaviour(c[k], probes) != w[k]->view) fail(str(Info<Sc>::name(), ": ", log, ": element ", k, " of the vector does not behave like ", w[k]->text));
			size_t k = src.below(c.size() ? c.size() : 1);
			if (c.empty()) return;
			if (!t.sc) t.sc.reset(new Sc);
			*t.sc = c[k]; set(i, w[k], mem[k]); break;
		}
		case BadLoad: {
			if (!t.sc) return;
			say(str("#", i, " loaded from a truncated image of #", j));
			std::string img = pu::save(*slots[j].sc); img.resize(src.below(img.size()));
			std::istringstream s(img);
			try { t.sc->Load(&s); return; } catch (std::exception&) {}
			auto m = t.memory; keep.push_back(m);
			std::string b = behaviour(*t.sc, probes);
			if (t.value && b == t.value->view) touch(i);
			else if (b == values[0]->view) set(i, values[0], nullptr);
			else if (t.value) bad(i, "is neither what it was nor empty after a failed load");
			touch(i);
			break;
		}
		}
		check(i);
		if (j != (size_t)-1 && j < slots.size()) check(j);
		check(src.below(slots.size()));
	}
	std::vector<std::shared_ptr<Block> > keep;

	void run() {
		std::vector<Made<Sc> > made;
		size_t n = 1 + src.below(3);
		for (size_t i = 0; i < n; ++i) { made.push_back(make<Sc>(src)); if (made.back().sc.Size() > 40) discard(); probes.insert(probes.end(), made.back().probes.begin(), made.back().probes.begin() + std::min<size_t>(2, made.back().probes.size())); }
		add(Sc(), "empty");
		for (auto& m : made) add(m.sc, m.text);
		std::string first;
		for (size_t i = 1; i < values.size(); ++i) first += str(i > 1 ? ", " : "values ", values[i]->text);
		say(first);
		slots.resize(2 + src.below(4));
		for (size_t i = 0; i < slots.size(); ++i) if (src.coin()) { auto v = src.pick(values); slots[i].sc.reset(new Sc(v->master)); set(i, v, nullptr); }
		size_t steps = 1 + src.len(0, ctx.thorough ? 60 : 30);
		for (size_t i = 0; i < steps; ++i) step();
		for (size_t i = 0; i < slots.size(); ++i) check(i);
		for (auto& v : values) if (behaviour(v->master, probes) != v->view) fail(str(Info<Sc>::name(), ": ", log, ": the original ", v->text, " has changed"));
		// in any order of destruction
		while (slots.size()) { size_t i = src.below(slots.size()); slots.erase(slots.begin() + i); size_t j = slots.size(); if (j) check(src.below(j)); }
		ctx.label(Info<Sc>::name());
		if (steps >= 5) ctx.nontrivial(log);
	}
};
struct History { Src& src; Ctx& ctx; template<class Sc> void run() { Pool<Sc> p{src, ctx}; p.run(); } };
static void histories(Src& src, Ctx& ctx) { History h{src, ctx}; dispatch(src.below(kinds::count), h); }

// cases which used to fail
static void regressions(Src&, Ctx& ctx) {
	P::Fsm f = pu::parse("a(b)*");
	ctx.nontrivial(str("regression ", ctx.index));
	switch (ctx.index) {
	case 0: { P::Fsm g(f); P::SlowCapturingScanner a(g), b; b = a; P::SlowCapturingScanner c; c = std::move(a); break; }
	case 1: { P::SlowScanner a, b(a); P::Runner(b).Run("abc").State(); P::SlowScanner c; c = b; if (!c.Empty()) fail("a copy of an empty SlowScanner is not empty"); P::SlowScanner::State st; c.Initialize(st); P::Step(c, st, 'a'); break; }
	case 2: { P::SlowCapturingScanner a, b(a), c; c = b; P::SlowCapturingScanner::State st; c.Initialize(st); P::Step(c, st, 'a'); P::SlowCapturingScanner::State s2; b.Initialize(s2); P::Step(b, s2, 'a'); break; }
	case 3: { P::CountingScanner a, b; if (!P::CountingScanner::Glue(a, b).Empty()) fail("two empty counting scanners glued are not empty"); break; }
	case 4: { P::NoGlueLimitCountingScanner a, b; if (!P::NoGlueLimitCountingScanner::Glue(a, b).Empty()) fail("two empty counting scanners glued are not empty"); break; }
	}
}

int main(int argc, char** argv) {
	Suite s;
	s.id = "C11";
	s.rule = "histories of at least 5 operations (distinct by the whole history)";
	s.assumptions = {"2 to 5 objects of one kind, up to 31 operations (61 in the thorough tier) of 17 sorts, values of up to 40 states", "an object which was moved from may hold any value, but must be usable", "memory an image is mapped to stays in place while the objects referring to it are used"};
	s.laws = {
		{"histories", 1500, 60000, histories, false, true},
		{"regressions", 5, 5, regressions, true, true},
	};
	return run(s, argc, argv);
}
