#include "engine.h"
#include <filesystem>
#include <unistd.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <fcntl.h>
#include <dirent.h>
#include <time.h>
#include <fstream>
#include <iostream>
#include <unordered_set>

extern "C" const char* __asan_default_options() {
	return "exitcode=86:detect_leaks=1:leak_check_at_exit=0:allocator_may_return_null=0:max_allocation_size_mb=3000:hard_rss_limit_mb=4000:"
	       "abort_on_error=0:handle_abort=1:detect_stack_use_after_return=0:symbolize=1:quarantine_size_mb=16:malloc_context_size=3:detect_container_overflow=0";
}
extern "C" const char* __ubsan_default_options() { return "print_stacktrace=1:exitcode=86"; }
extern "C" const char* __tsan_default_options() { return "exitcode=86:halt_on_error=1:second_deadlock_stack=1:history_size=4"; }
extern "C" size_t __sanitizer_get_current_allocated_bytes() __attribute__((weak));

namespace pbt {

static const size_t DescMax = 1 << 16;
struct Shared {
	volatile uint64_t law, index, done;
	volatile uint64_t inCase;
	char desc[DescMax];
};
static Shared* g_shared = nullptr;
uint64_t* Src::drawLog = nullptr;
static const size_t DrawLogBytes = Src::drawLogCap * sizeof(uint64_t);

size_t liveBytes() { return __sanitizer_get_current_allocated_bytes ? __sanitizer_get_current_allocated_bytes() : 0; }

void Ctx::publish(const std::string& d) {
	if (!g_shared) return;
	size_t n = std::min(d.size(), DescMax - 1);
	memcpy(g_shared->desc, d.data(), n);
	g_shared->desc[n] = 0;
}

std::string show(const std::string& s) {
	std::string r = "\"";
	char buf[8];
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
		else if (c >= 32 && c < 127) r += (char)c;
		else { snprintf(buf, sizeof buf, "\\x%02x", c); r += buf; }
	}
	return r + "\"";
}
std::string showWord(const std::vector<int>& w) {
	std::string r = "<";
	char buf[16];
	for (int c : w) {
		if (c == 258) r += "[B]"; else if (c == 259) r += "[E]";
		else if (c > 32 && c < 127) r += (char)c;
		else { snprintf(buf, sizeof buf, "\\x%02x", c); r += buf; }
	}
	return r + ">";
}
std::string jsonStr(const std::string& s) {
	std::string r = "\"";
	char buf[8];
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
		else if (c == '\n') r += "\\n";
		else if (c >= 32 && c < 127) r += (char)c;
		else { snprintf(buf, sizeof buf, "\\u%04x", c); r += buf; }
	}
	return r + "\"";
}

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// A tick of consumed CPU time: ends a case that runs away in time or memory.
static volatile unsigned g_ticks, g_tickLimit;
static const size_t MemLimitMb = 3400;
static void onTick(int) {
	if (!g_tickLimit) return;
	g_ticks = g_ticks + 1;
	const char* m = nullptr;
	int code = 0;
	if (g_ticks > g_tickLimit) { m = "\nPBT: CPU time limit of one case exceeded (runaway computation)\n"; code = 87; }
	else {
		int fd = open("/proc/self/statm", O_RDONLY);
		if (fd >= 0) {
			char b[128];
			ssize_t n = read(fd, b, sizeof(b) - 1);
			close(fd);
			if (n > 0) {
				b[n] = 0;
				char* p = b;
				while (*p && *p != ' ') ++p;
				unsigned long pages = 0;
				for (++p; *p >= '0' && *p <= '9'; ++p) pages = pages * 10 + (*p - '0');
				if (pages * 4096 / (1 << 20) > MemLimitMb) { m = "\nPBT: memory limit of one case exceeded (runaway allocation)\n"; code = 88; }
			}
		}
	}
	if (m) {
		ssize_t r = write(2, m, strlen(m)); (void)r;
		_exit(code);
	}
}
static void armCpu(unsigned sec) { g_ticks = 0; g_tickLimit = sec * 5; }
static void startTicks() {
	struct sigaction sa; memset(&sa, 0, sizeof sa);
	sa.sa_handler = onTick; sa.sa_flags = SA_RESTART;
	sigaction(SIGPROF, &sa, nullptr);
	itimerval it; memset(&it, 0, sizeof it);
	it.it_value.tv_usec = it.it_interval.tv_usec = 200000;
	setitimer(ITIMER_PROF, &it, nullptr);
}

// Executes one case. Returns 0 ok, 1 discarded; throws Fail.
static int execCase(const Suite& suite, const Law& law, Src& src, Ctx& ctx) {
	ctx.interesting = false; ctx.desc.clear();
	armCpu(suite.caseCpuLimit);
	try {
		law.fn(src, ctx);
	} catch (Discard&) {
		armCpu(0);
		return 1;
	} catch (Fail&) {
		armCpu(0);
		throw;
	} catch (std::exception& e) {
		armCpu(0);
		throw Fail{std::string("unexpected exception: ") + e.what()};
	}
	armCpu(0);
	if (law.leakCheck && __sanitizer_get_current_allocated_bytes) {
		// the same case again (static tables are warm by now): it must give back all it took
		size_t grew[2];
		for (size_t& g : grew) {
			size_t before = liveBytes();
			{ Ctx c2; c2.index = ctx.index; c2.thorough = ctx.thorough; Src s2(src.rec); law.fn(s2, c2); }
			g = liveBytes() - before;
		}
		if (grew[0] && grew[1]) throw Fail{str("memory leaked: repeating the case leaves ", grew[1], " more bytes allocated each time")};
	}
	return 0;
}

static uint64_t caseSeed(uint64_t seed, size_t law, uint64_t index) {
	return mix(mix(seed * 1000003ull + law * 7919ull + 17) ^ mix(index + 0xABCDEF));
}

struct Outcome { int kind = 0; /*0 pass,1 fail,2 crash*/ std::string msg, desc; std::vector<uint64_t> rec; };

static std::string tmpDir() {
	static std::string d;
	if (d.empty()) {
		const char* t = getenv("TMPDIR");
		std::string tpl = std::string(t ? t : "/tmp") + "/pbt.XXXXXX";
		std::vector<char> b(tpl.begin(), tpl.end()); b.push_back(0);
		if (!mkdtemp(b.data())) { perror("mkdtemp"); exit(2); }
		d = b.data();
	}
	return d;
}

static std::string tail(const std::string& file, size_t max = 3000) {
	std::ifstream f(file, std::ios::binary);
	std::string s((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
	size_t p = s.find("ERROR: ");
	size_t q = s.find("runtime error");
	size_t a = s.find("Assertion");
	size_t st = std::min(p, std::min(q, a));
	if (st != std::string::npos) { st = st > 120 ? st - 120 : 0; return s.substr(st, max); }
	return s.size() > max ? s.substr(s.size() - max) : s;
}

std::string scratchDir() { return tmpDir(); }

// Runs a single case in a child process.
static Outcome isolated(const Suite& suite, size_t lawIdx, uint64_t index, uint64_t seed, const std::vector<uint64_t>* choices, bool thorough) {
	Outcome o;
	std::string res = tmpDir() + "/iso.res", err = tmpDir() + "/iso.err";
	unlink(res.c_str());
	g_shared->desc[0] = 0;
	fflush(stdout); fflush(stderr);
	pid_t pid = fork();
	if (pid == 0) {
		int fd = open(err.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
		dup2(fd, 2); dup2(fd, 1);
		startTicks();
		Ctx ctx; ctx.index = index; ctx.thorough = thorough; ctx.replaying = true;
		Src::drawLog[0] = 0;
		Src src = choices ? Src(*choices) : Src(caseSeed(seed, lawIdx, index));
		int kind = 0; std::string msg;
		try { execCase(suite, suite.laws[lawIdx], src, ctx); }
		catch (Fail& f) { kind = 1; msg = f.msg; }
		std::ofstream f(res, std::ios::binary);
		f << kind << "\n" << src.rec.size();
		for (uint64_t v : src.rec) f << " " << v;
		f << "\n" << msg.size() << "\n" << msg << ctx.desc.size() << "\n" << ctx.desc;
		f.close();
		_exit(0);
	}
	int st = 0;
	while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
	if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
		std::ifstream f(res, std::ios::binary);
		size_t n = 0, m = 0;
		f >> o.kind >> n;
		o.rec.resize(n);
		for (auto& v : o.rec) f >> v;
		f >> m; f.get();
		o.msg.resize(m); f.read(&o.msg[0], m);
		f >> m; f.get();
		o.desc.resize(m); f.read(&o.desc[0], m);
	} else {
		o.kind = 2;
		o.msg = WIFSIGNALED(st) ? str("process died of signal ", WTERMSIG(st)) :
			WEXITSTATUS(st) == 87 ? std::string("CPU time limit of a single case exceeded") : WEXITSTATUS(st) == 88 ? std::string("memory limit of a single case exceeded") : str("process died, exit status ", WEXITSTATUS(st), " (sanitizer report or assertion)");
		o.msg += "\n" + tail(err);
		o.desc = g_shared->desc;
		uint64_t n = std::min<uint64_t>(Src::drawLog[0], Src::drawLogCap - 1);
		o.rec.assign(Src::drawLog + 1, Src::drawLog + 1 + n);
	}
	return o;
}

static std::vector<uint64_t> shrink(const Suite& suite, size_t lawIdx, uint64_t index, std::vector<uint64_t> best, bool thorough, Outcome& bestOut) {
	double deadline = now() + (thorough ? 120 : 45);
	size_t runs = 0;
	auto tryIt = [&](const std::vector<uint64_t>& c) {
		if (now() > deadline || runs > 4000) return false;
		++runs;
		Outcome o = isolated(suite, lawIdx, index, 0, &c, thorough);
		if (o.kind == 0) return false;
		std::vector<uint64_t>& norm = o.rec;
		// accept only real progress
		if (norm.size() > best.size()) return false;
		if (norm.size() == best.size() && !(norm < best)) return false;
		best = norm; bestOut = o; bestOut.rec = best;
		return true;
	};
	bool progress = true;
	while (progress && now() < deadline && runs <= 4000) {
		progress = false;
		for (size_t blk = std::max<size_t>(1, best.size() / 2); blk >= 1; blk /= 2) {
			for (size_t i = 0; i + blk <= best.size();) {
				std::vector<uint64_t> c(best.begin(), best.begin() + i);
				c.insert(c.end(), best.begin() + i + blk, best.end());
				if (tryIt(c)) progress = true; else i += std::max<size_t>(1, blk / 2);
				if (now() > deadline) break;
			}
			if (blk == 1) break;
		}
		for (size_t i = 0; i < best.size() && now() < deadline; ++i) {
			if (!best[i]) continue;
			std::vector<uint64_t> c = best;
			c[i] = 0;
			if (tryIt(c)) { progress = true; continue; }
			uint64_t lo = 0, hi = best[i];
			while (lo + 1 < hi && i < best.size() && now() < deadline) {
				uint64_t mid = lo + (hi - lo) / 2;
				c = best; c[i] = mid;
				if (tryIt(c)) { progress = true; if (i >= best.size()) break; hi = std::min(hi, std::max<uint64_t>(best[i], 1)); if (best[i] == 0) break; } else lo = mid;
			}
		}
	}
	return best;
}

struct LawStats { uint64_t cases = 0, discards = 0, nontrivial = 0; double maxCase = 0; };

static int runShard(const Suite& suite, unsigned shard, uint64_t seed, bool thorough, double deadline, const std::string& outFile, const std::string& failFile, const std::vector<uint64_t>& from) {
	Ctx ctx; ctx.thorough = thorough;
	std::unordered_set<uint64_t> hashes;
	std::vector<std::string> samples;
	std::vector<LawStats> st(suite.laws.size());
	bool budgetHit = false;
	int rc = 0;
	// Interleave the laws so that a budget stop cuts all of them evenly
	std::vector<uint64_t> next(suite.laws.size()), total(suite.laws.size());
	for (size_t l = 0; l < suite.laws.size(); ++l) {
		total[l] = (thorough && !suite.laws[l].enumerated) ? suite.laws[l].thorough : suite.laws[l].quick;
		next[l] = from.empty() ? shard : from[l];
	}
	const unsigned rounds = 64;
	for (unsigned r = 1; r <= rounds && !budgetHit; ++r) {
		for (size_t l = 0; l < suite.laws.size() && !budgetHit; ++l) {
			uint64_t until = r == rounds ? total[l] : total[l] * r / rounds;
			for (; next[l] < until; next[l] += suite.shards) {
				if (now() > deadline) { budgetHit = true; break; }
				uint64_t i = next[l];
				g_shared->law = l; g_shared->index = i; g_shared->desc[0] = 0; g_shared->inCase = 1;
				ctx.index = i;
				Src src(caseSeed(seed, l, i));
				double t0 = now();
				try {
					int d = execCase(suite, suite.laws[l], src, ctx);
					++st[l].cases;
					if (d) ++st[l].discards;
					else if (ctx.interesting) {
						++st[l].nontrivial;
						if (hashes.size() < 4000000) hashes.insert(ctx.hash ^ mix(l));
						uint64_t k = st[l].nontrivial;
						if ((k == 1 || k == 40) && !ctx.desc.empty()) samples.push_back(suite.laws[l].name + ": " + ctx.desc.substr(0, 600));
					}
				} catch (Fail& f) {
					std::ofstream o(failFile, std::ios::binary);
					o << l << " " << i << "\n" << f.msg;
					rc = 3;
				}
				g_shared->inCase = 0;
				g_shared->done = g_shared->done + 1;
				double dt = now() - t0;
				if (dt > st[l].maxCase) st[l].maxCase = dt;
				if (rc) goto out;
			}
		}
	}
out:
	std::ofstream o(outFile, std::ios::binary);
	o << "checks " << ctx.checks << "\n" << "budget " << budgetHit << "\n";
	for (size_t l = 0; l < st.size(); ++l) o << "law " << l << " " << st[l].cases << " " << st[l].discards << " " << st[l].nontrivial << " " << st[l].maxCase << "\n";
	for (auto& kv : ctx.labels) o << "label " << kv.second << " " << kv.first << "\n";
	for (auto& s : samples) { std::string e = jsonStr(s); o << "sample " << e << "\n"; }
	for (uint64_t h : hashes) o << "h " << h << "\n";
	o.close();
	return rc;
}

static std::string readFile(const std::string& p) {
	std::ifstream f(p, std::ios::binary);
	return std::string((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
}

static void cleanup() {
	std::string d = tmpDir();
	std::error_code e; std::filesystem::remove_all(d, e);   // made by mkdtemp
}

struct Replay { std::string law; uint64_t index = 0; bool haveChoices = false; std::vector<uint64_t> choices; uint64_t seed = 0; bool prefix = false; bool thorough = false; };

static void writeReplay(const std::string& path, const Suite& s, const Replay& r, const std::string& msg, const std::string& desc) {
	std::ofstream f(path, std::ios::binary);
	f << "{\n \"property\": " << jsonStr(s.id) << ",\n \"law\": " << jsonStr(r.law) << ",\n \"index\": " << r.index << ",\n \"seed\": " << r.seed
	  << ",\n \"prefix\": " << (r.prefix ? 1 : 0) << ",\n \"thorough\": " << (r.thorough ? 1 : 0) << ",\n \"have_choices\": " << (r.haveChoices ? 1 : 0) << ",\n \"choices\": [";
	for (size_t i = 0; i < r.choices.size(); ++i) f << (i ? ", " : "") << r.choices[i];
	f << "],\n \"case\": " << jsonStr(desc) << ",\n \"message\": " << jsonStr(msg) << "\n}\n";
}
static Replay readReplay(const std::string& path) {
	std::string s = readFile(path);
	Replay r;
	auto num = [&](const char* k) -> uint64_t { size_t p = s.find(std::string("\"") + k + "\": "); return p == std::string::npos ? 0 : strtoull(s.c_str() + p + strlen(k) + 4, nullptr, 10); };
	size_t p = s.find("\"law\": \"");
	if (p == std::string::npos) { fprintf(stderr, "bad replay file\n"); exit(2); }
	p += 8;
	r.law = s.substr(p, s.find('"', p) - p);
	r.index = num("index"); r.seed = num("seed"); r.prefix = num("prefix"); r.thorough = num("thorough"); r.haveChoices = num("have_choices");
	p = s.find("\"choices\": [");
	if (p != std::string::npos) {
		p += 12;
		while (s[p] != ']') {
			if (isdigit((unsigned char)s[p])) { char* e; r.choices.push_back(strtoull(s.c_str() + p, &e, 10)); p = e - s.c_str(); }
			else ++p;
		}
	}
	return r;
}

// lines "known: property=C14 key=<key> <what fails>"
static std::map<std::string, std::string> g_known;
static void readKnown(const std::string& id) {
	const char* p = getenv("VERIF_KNOWN");
	std::istringstream f(readFile(p ? p : "/verif/known-findings.txt"));
	std::string line, start = "known: property=" + id + " key=";
	while (std::getline(f, line)) if (line.compare(0, start.size(), start) == 0) {
		size_t e = line.find(' ', start.size());
		g_known[line.substr(start.size(), e - start.size())] = e == std::string::npos ? "" : line.substr(e + 1);
	}
}
void Ctx::known(const std::string& key, const std::string& msg) {
	if (!g_known.count(key)) fail(msg);
	label("known-finding " + key);
}

int run(Suite& suite, int argc, char** argv) {
	readKnown(suite.id);
	uint64_t seed = 1; bool thorough = false; std::string evidence, replayDir = "/verif/evidence/replays", replayFile;
	double budget = 0; double scale = 1; std::string only;
	if (const char* s = getenv("VERIF_SEED")) seed = strtoull(s, nullptr, 10);
	if (const char* t = getenv("VERIF_TIER")) thorough = !strcmp(t, "thorough");
	for (int i = 1; i < argc; ++i) {
		std::string a = argv[i];
		auto val = [&]() -> std::string { if (i + 1 >= argc) { fprintf(stderr, "missing value for %s\n", a.c_str()); exit(2); } return argv[++i]; };
		if (a == "--seed") seed = strtoull(val().c_str(), nullptr, 10);
		else if (a == "--tier") thorough = val() == "thorough";
		else if (a == "--evidence") evidence = val();
		else if (a == "--replay") replayFile = val();
		else if (a == "--replay-dir") replayDir = val();
		else if (a == "--budget") budget = atof(val().c_str());
		else if (a == "--scale") scale = atof(val().c_str());
		else if (a == "--law") only = val();
		else if (a == "--shards") suite.shards = atoi(val().c_str());
		else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 2; }
	}
	double t0 = now();
	if (!budget) budget = thorough ? 3 * 3600 : 420;
	for (auto& l : suite.laws) {
		if (!only.empty() && l.name != only) l.quick = l.thorough = 0;
		if (!l.enumerated) { l.quick = (uint64_t)(l.quick * scale); l.thorough = (uint64_t)(l.thorough * scale); }
	}
	g_shared = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	Src::drawLog = (uint64_t*)mmap(nullptr, DrawLogBytes, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	tmpDir();

	auto lawIndex = [&](const std::string& n) -> size_t { for (size_t i = 0; i < suite.laws.size(); ++i) if (suite.laws[i].name == n) return i; fprintf(stderr, "no law %s\n", n.c_str()); exit(2); };

	if (!replayFile.empty()) {
		Replay r = readReplay(replayFile);
		size_t l = lawIndex(r.law);
		if (r.prefix) {
			// deterministic re-run of the shard's prefix in this process
			g_shared = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
			std::string ff = tmpDir() + "/fail";
			pid_t pid = fork();
			if (pid == 0) { startTicks(); _exit(runShard(suite, r.index % suite.shards, r.seed, r.thorough, now() + budget, tmpDir() + "/out", ff, {})); }
			int st; waitpid(pid, &st, 0);
			bool bad = !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
			printf("replay of the shard: %s\n%s\n", bad ? "FAILS" : "passes", readFile(ff).c_str());
			cleanup();
			return bad;
		}
		Outcome o = isolated(suite, l, r.index, r.seed, r.haveChoices ? &r.choices : nullptr, r.thorough);
		printf("law: %s\ncase: %s\nresult: %s\n%s\n", r.law.c_str(), o.desc.c_str(), o.kind ? "FAILS" : "passes", o.msg.c_str());
		cleanup();
		return o.kind ? 1 : 0;
	}

	// --- run the shards
	std::vector<Shared*> sh(suite.shards);
	std::vector<pid_t> pids(suite.shards);
	fflush(stdout); fflush(stderr);
	for (unsigned k = 0; k < suite.shards; ++k) {
		sh[k] = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
		sh[k]->done = 0; sh[k]->inCase = 0;
		pid_t pid = fork();
		if (pid == 0) {
			g_shared = sh[k];
			Src::drawLog = nullptr;
			std::string d = tmpDir();
			int fd = open(str(d, "/err", k).c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
			dup2(fd, 2);
			startTicks();
			_exit(runShard(suite, k, seed, thorough, t0 + budget, str(d, "/out", k), str(d, "/fail", k), {}));
		}
		pids[k] = pid;
	}
	struct Bad { unsigned shard; size_t law; uint64_t index; std::string msg; bool crash; };
	std::vector<Bad> bad;
	unsigned left = suite.shards;
	std::vector<bool> alive(suite.shards, true);
	while (left) {
		int st = 0;
		pid_t p = waitpid(-1, &st, 0);
		if (p < 0) break;
		for (unsigned k = 0; k < suite.shards; ++k) if (pids[k] == p) {
			--left; alive[k] = false;
			if (WIFEXITED(st) && WEXITSTATUS(st) == 0) break;
			if (WIFEXITED(st) && WEXITSTATUS(st) == 3) {
				std::ifstream f(str(tmpDir(), "/fail", k), std::ios::binary);
				Bad b; b.shard = k; b.crash = false; f >> b.law >> b.index; f.get();
				b.msg = std::string((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
				bad.push_back(b);
			} else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) {
				fprintf(stderr, "PBT: shard %u was killed (out of memory?)\n", k);
				Bad b{k, (size_t)sh[k]->law, sh[k]->index, "killed", true}; bad.push_back(b);
			} else {
				Bad b{k, (size_t)sh[k]->law, sh[k]->index, "crash", true}; bad.push_back(b);
			}
			// one confirmed finding is enough: stop the rest
			for (unsigned j = 0; j < suite.shards; ++j) if (alive[j]) kill(pids[j], SIGKILL);
		}
		if (!bad.empty()) break;
	}
	while (waitpid(-1, nullptr, 0) > 0) {}

	// --- collect statistics
	uint64_t checks = 0; bool budgetHit = false;
	std::vector<LawStats> st(suite.laws.size());
	std::map<std::string, uint64_t> labels; std::vector<std::string> samples; std::unordered_set<uint64_t> hashes;
	for (unsigned k = 0; k < suite.shards; ++k) {
		std::ifstream f(str(tmpDir(), "/out", k), std::ios::binary);
		std::string line;
		while (std::getline(f, line)) {
			std::istringstream i(line); std::string w; i >> w;
			if (w == "checks") { uint64_t c; i >> c; checks += c; }
			else if (w == "budget") { bool b; i >> b; budgetHit |= b; }
			else if (w == "law") { size_t l; uint64_t c, d, n; double m; i >> l >> c >> d >> n >> m; st[l].cases += c; st[l].discards += d; st[l].nontrivial += n; st[l].maxCase = std::max(st[l].maxCase, m); }
			else if (w == "label") { uint64_t c; i >> c; i.get(); std::string rest; std::getline(i, rest); labels[rest] += c; }
			else if (w == "sample") { if (k < 3) samples.push_back(line.substr(7)); }
			else if (w == "h") { uint64_t h; i >> h; hashes.insert(h); }
		}
	}
	int violations = 0;
	std::string violLine;
	if (!bad.empty()) {
		Bad b = bad[0];
		for (auto& x : bad) if (!x.crash) { b = x; break; }
		mkdir(replayDir.c_str(), 0755);
		std::string path = replayDir + "/" + suite.id + ".json";
		Outcome o = isolated(suite, b.law, b.index, seed, nullptr, thorough);
		Replay r; r.law = suite.laws[b.law].name; r.index = b.index; r.seed = seed; r.thorough = thorough;
		bool confirmed = false;
		if (o.kind) {
			Outcome bo = o;
			r.haveChoices = true;
			r.choices = shrink(suite, b.law, b.index, o.rec, thorough, bo);
			int again = 0;
			for (int t = 0; t < 3; ++t) { Outcome x = isolated(suite, b.law, b.index, seed, &r.choices, thorough); again += x.kind != 0; if (x.kind) bo = x; }
			if (again == 3) { confirmed = true; o = bo; }
			else {
				r.haveChoices = false; r.choices.clear(); again = 0;
				for (int t = 0; t < 3; ++t) { Outcome x = isolated(suite, b.law, b.index, seed, nullptr, thorough); again += x.kind != 0; if (x.kind) o = x; }
				confirmed = again == 3;
			}
		}
		if (!confirmed) {
			// depends on what ran before it in the same process: re-run the shard's deterministic prefix
			int again = 0;
			for (int t = 0; t < 3; ++t) {
				fflush(stdout);
				pid_t pid = fork();
				if (pid == 0) {
					startTicks();
					int fd = open(str(tmpDir(), "/prefix.err").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); dup2(fd, 2);
					_exit(runShard(suite, b.shard, seed, thorough, now() + budget, str(tmpDir(), "/prefix.out"), str(tmpDir(), "/prefix.fail"), {}));
				}
				int s2; waitpid(pid, &s2, 0);
				again += !(WIFEXITED(s2) && WEXITSTATUS(s2) == 0);
				if (again <= t) break;
			}
			if (again == 3) { confirmed = true; r.prefix = true; r.haveChoices = false; r.choices.clear(); o.msg = b.msg + "\n" + tail(str(tmpDir(), "/err", b.shard)); o.desc = "(fails only after the preceding cases of its shard)"; }
		}
		if (confirmed) {
			violations = 1;
			writeReplay(path, suite, r, o.msg, o.desc);
			printf("law: %s\ncase: %s\n%s\n", r.law.c_str(), o.desc.c_str(), o.msg.c_str());
			violLine = "VIOLATION property=" + suite.id + " replay=" + path;
		} else {
			fprintf(stderr, "PBT: a failure in law %s case %llu did not reproduce: %s\n%s\n", r.law.c_str(), (unsigned long long)b.index, b.msg.c_str(), tail(str(tmpDir(), "/err", b.shard)).c_str());
			cleanup();
			return 2;
		}
	}
	double wall = now() - t0;
	uint64_t evals = 0, nontrivial = 0, disc = 0;
	for (auto& s : st) { evals += s.cases; nontrivial += s.nontrivial; disc += s.discards; }
	if (!evidence.empty()) {
		std::ofstream f(evidence, std::ios::binary);
		f << "{\n \"property\": " << jsonStr(suite.id) << ",\n \"tier\": \"" << (thorough ? "thorough" : "quick") << "\",\n \"seed\": " << seed << ",\n \"level\": \"exploration\",\n \"coverage\": {\n"
		  << "  \"evaluations\": " << evals << ",\n  \"distinct_nontrivial\": " << hashes.size() << ",\n  \"rule\": " << jsonStr(suite.rule) << ",\n  \"oracle_comparisons\": " << checks
		  << ",\n  \"discarded\": " << disc << ",\n  \"budget_hit\": " << (budgetHit ? "true" : "false") << ",\n  \"laws\": {";
		for (size_t l = 0; l < st.size(); ++l) f << (l ? ",\n   " : "\n   ") << jsonStr(suite.laws[l].name) << ": {\"cases\": " << st[l].cases << ", \"nontrivial\": " << st[l].nontrivial << ", \"discarded\": " << st[l].discards << ", \"slowest_case_s\": " << st[l].maxCase << "}";
		f << "\n  },\n  \"distribution\": {";
		bool first = true;
		for (auto& kv : labels) { f << (first ? "\n   " : ",\n   ") << jsonStr(kv.first) << ": " << kv.second; first = false; }
		f << "\n  },\n  \"samples\": [";
		for (size_t i = 0; i < samples.size() && i < 40; ++i) f << (i ? ",\n   " : "\n   ") << samples[i];
		f << "\n  ]\n },\n \"assumptions\": [";
		for (size_t i = 0; i < suite.assumptions.size(); ++i) f << (i ? ", " : "") << jsonStr(suite.assumptions[i]);
		f << "],\n \"wall_s\": " << wall << ",\n \"violations\": " << violations << "\n}\n";
	}
	printf("%s %s seed=%llu: %llu cases (%llu distinct non-trivial, %llu discarded), %llu comparisons, %.1f s%s\n", suite.id.c_str(), thorough ? "thorough" : "quick", (unsigned long long)seed,
		(unsigned long long)evals, (unsigned long long)hashes.size(), (unsigned long long)disc, (unsigned long long)checks, wall, budgetHit ? " [budget hit]" : "");
	if (getenv("PBT_VERBOSE")) {
		for (size_t l = 0; l < st.size(); ++l) printf("  law %-32s cases %llu nontrivial %llu discarded %llu slowest %.3f\n", suite.laws[l].name.c_str(), (unsigned long long)st[l].cases, (unsigned long long)st[l].nontrivial, (unsigned long long)st[l].discards, st[l].maxCase);
		for (auto& kv : labels) printf("  label %-40s %llu\n", kv.first.c_str(), (unsigned long long)kv.second);
	}
	for (auto& k : g_known) if (labels.count("known-finding " + k.first)) printf("KNOWN-FINDING: property=%s %s\n", suite.id.c_str(), k.second.c_str());
	if (violations) puts(violLine.c_str());
	cleanup();
	return violations ? 1 : 0;
}

}
