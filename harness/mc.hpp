// mc.hpp - stateless explicit exploration of all choice sequences of a scenario
// on the real code.
//
// A scenario is a function that draws all its nondeterminism from mc::choose.
// The explorer enumerates *every* sequence of choice results, running the
// scenario once per sequence (depth-first, sharded over worker processes).
// Nothing is sampled. A failed MC_CHECK, a crash, a sanitizer report, an
// unexpected exception or a hang of any execution is a violation; it is
// replayed in a fresh process before it is reported.
#pragma once

#include <atomic>
#include <chrono>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <iostream>
#include <new>
#include <sstream>
#include <string>
#include <type_traits>
#include <vector>

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace mc {

using u64 = std::uint64_t;
using u32 = std::uint32_t;

constexpr u32 maxChoices = 1u << 12;
constexpr u32 maxSamples = 3;

// ---------------------------------------------------------------- shared
struct Slot {
	std::atomic<u64> execs {};
	std::atomic<u64> steps {};
	std::atomic<u64> evals {}; // explicitly counted inner evaluations
	std::atomic<u64> heart {};
	std::atomic<u32> n {}; // number of choices of the current execution
	u32 choice[maxChoices];
	u32 arity[maxChoices];
	u32 maxDepth {};
	u32 done {}; // 1: explored everything, 2: time limit
	u32 failed {};
	char msg[4096];
	u32 sampleCount {};
	u32 sampleLen[maxSamples];
	u32 sample[maxSamples][maxChoices];
};

struct HashSet { // lock-free insert only
	u64 mask {};
	std::atomic<u64>* data {};
	std::atomic<u64>* count {};
	std::atomic<u64>* dropped {};

	static HashSet create(unsigned bits) {
		HashSet s;
		s.mask = (u64(1) << bits) - 1;
		auto bytes = ((s.mask + 1) + 2) * sizeof(u64);
		auto p = mmap(nullptr, bytes, PROT_READ | PROT_WRITE,
			MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if(p == MAP_FAILED) { perror("mmap"); std::exit(2); }
		s.data = static_cast<std::atomic<u64>*>(p);
		s.count = s.data + s.mask + 1;
		s.dropped = s.count + 1;
		return s;
	}

	void destroy() { munmap(data, ((mask + 1) + 2) * sizeof(u64)); data = {}; }

	void insert(u64 h) {
		if(h == 0) h = 1;
		if(*count > mask / 2) { // full: exact counting stops here
			++*dropped;
			return;
		}
		u64 i = h & mask;
		while(true) {
			u64 cur = data[i].load(std::memory_order_relaxed);
			if(cur == h) return;
			if(cur == 0) {
				if(data[i].compare_exchange_strong(cur, h)) { ++*count; return; }
				if(cur == h) return;
			}
			i = (i + 1) & mask;
		}
	}
};

struct Ctx {
	Slot* slot {};
	u32 pos {};
	u32 prefix {};
	u32 devs {};
	bool record {}; // keep notes
	std::string notes;
	HashSet* states {};
	HashSet* outcomes {};
	const char* tier {"quick"};
	bool thorough {};
	u64 seed {};
	bool counted {true};
};

inline Ctx& ctx() { static Ctx c; return c; }
inline bool thorough() { return ctx().thorough; }
template<typename A, typename B> auto tier(A quick, B deep) {
	return ctx().thorough ? static_cast<std::common_type_t<A, B>>(deep) :
		static_cast<std::common_type_t<A, B>>(quick);
}

// Bound depending on the tier and on whether the (slower) build with sanitizers runs.
inline int bound(int quickSan, int quickFast, int deepSan, int deepFast) {
#ifdef MC_SAN
	return thorough() ? deepSan : quickSan;
#else
	return thorough() ? deepFast : quickFast;
#endif
}

// ---------------------------------------------------------------- hashing
inline u64 mix(u64 x) {
	x += 0x9e3779b97f4a7c15ull;
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
	x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
	return x ^ (x >> 31);
}
inline u64 comb(u64 h, u64 v) { return mix(h ^ mix(v + 0x1234567)); }
inline u64 hashBytes(const void* p, std::size_t n, u64 h = 7) {
	auto b = static_cast<const unsigned char*>(p);
	for(std::size_t i = 0; i < n; ++i) h = (h ^ b[i]) * 1099511628211ull;
	return mix(h);
}
inline u64 hashStr(const std::string& s) { return hashBytes(s.data(), s.size()); }

// ---------------------------------------------------------------- failing
[[noreturn]] inline void failStr(const char* msg) {
	auto& s = *ctx().slot;
	std::strncpy(s.msg, msg, sizeof(s.msg) - 1);
	s.msg[sizeof(s.msg) - 1] = 0;
	s.failed = 1;
	if(ctx().record) {
		std::fwrite(ctx().notes.data(), 1, ctx().notes.size(), stdout);
		std::fprintf(stdout, "FAILED: %s\n", s.msg);
		std::fflush(stdout);
	}
	_exit(42);
}

[[noreturn]] inline void fail(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] inline void fail(const char* fmt, ...) {
	char buf[4000];
	va_list l;
	va_start(l, fmt);
	std::vsnprintf(buf, sizeof(buf), fmt, l);
	va_end(l);
	failStr(buf);
}

#define MC_CHECK(cond, ...) do { \
		::mc::tick(); \
		if(!(cond)) ::mc::failAt(__FILE__, __LINE__, #cond, __VA_ARGS__); \
	} while(0)

[[noreturn]] inline void failAt(const char* file, int line, const char* cond,
		const char* fmt, ...) __attribute__((format(printf, 4, 5)));
[[noreturn]] inline void failAt(const char* file, int line, const char* cond,
		const char* fmt, ...) {
	char buf[3000], buf2[4000];
	va_list l;
	va_start(l, fmt);
	std::vsnprintf(buf, sizeof(buf), fmt, l);
	va_end(l);
	auto base = std::strrchr(file, '/');
	std::snprintf(buf2, sizeof(buf2), "%s:%d: %s [%s]", base ? base + 1 : file, line, buf, cond);
	failStr(buf2);
}

// ---------------------------------------------------------------- choices
inline u32 choose(u32 n) {
	if(n <= 1) return 0;
	auto& c = ctx();
	auto& s = *c.slot;
	if(c.pos >= maxChoices) fail("explorer: choice sequence too long");
	auto p = c.pos++;
	if(p < c.prefix) {
		if(s.arity[p] != n) {
			fail("explorer: divergence while replaying, %u instead of %u choices at %u",
				n, s.arity[p], p);
		}
	} else {
		s.choice[p] = 0;
		s.arity[p] = n;
	}
	s.n.store(c.pos, std::memory_order_relaxed);
	return s.choice[p];
}

// Boolean choice.
inline bool flip() { return choose(2) == 1; }

// Choice in which everything but 0 is a deviation; at most 'bound' per execution.
inline u32 deviate(u32 n, u32 bound) {
	if(n <= 1 || ctx().devs >= bound) return 0;
	auto c = choose(n);
	if(c) ++ctx().devs;
	return c;
}

template<typename T, std::size_t N> const T& pick(const T (&arr)[N]) { return arr[choose(N)]; }
template<typename T> const T& pick(const std::vector<T>& v) { return v[choose(v.size())]; }

// ---------------------------------------------------------------- accounting
inline void tick() { // every comparison with the oracle keeps the watchdog calm
	auto& s = *ctx().slot;
	s.heart.store(s.heart.load(std::memory_order_relaxed) + 1, std::memory_order_relaxed);
}
inline void step(u64 n = 1) { // one operation of the real code performed
	if(!ctx().counted) return;
	auto& s = *ctx().slot;
	s.steps.store(s.steps.load(std::memory_order_relaxed) + n, std::memory_order_relaxed);
}
inline void eval(u64 n = 1) { // inner evaluations (inputs) beyond one per execution
	if(!ctx().counted) { tick(); return; }
	auto& s = *ctx().slot;
	s.evals.store(s.evals.load(std::memory_order_relaxed) + n, std::memory_order_relaxed);
	tick();
}
inline void state(u64 h) { ctx().states->insert(mix(h)); }
inline void outcome(u64 h) { ctx().outcomes->insert(mix(h)); }

inline void note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
inline void note(const char* fmt, ...) {
	if(!ctx().record) return;
	char buf[600];
	va_list l;
	va_start(l, fmt);
	std::vsnprintf(buf, sizeof(buf), fmt, l);
	va_end(l);
	if(ctx().notes.size() < 20000) {
		ctx().notes += buf;
		ctx().notes += "\n";
	}
}
inline bool recording() { return ctx().record; }

// ---------------------------------------------------------------- scenarios
struct Scenario {
	std::string name;
	std::string bounds; // what is enumerated, for the evidence
	std::function<void()> body;
	u32 split; // number of leading choices that form one unit of work
	bool thoroughOnly;
};

inline std::vector<Scenario>& scenarios() { static std::vector<Scenario> s; return s; }

struct Reg {
	Reg(const char* name, const char* bounds, std::function<void()> f, u32 split = 2,
			bool thoroughOnly = false) {
		scenarios().push_back({name, bounds, std::move(f), split, thoroughOnly});
	}
};

// Scenarios of harnesses that are built in parts (option "parts" of checks.py). 0: everything.
#ifndef MC_PART
#define MC_PART 0
#endif
#define MC_IN_PART(k) (MC_PART == 0 || MC_PART == (k))

#define MC_CAT2(a, b) a##b
#define MC_CAT(a, b) MC_CAT2(a, b)
#define MC_SCENARIO(name, bounds, split) \
	static void MC_CAT(mcBody, __LINE__)(); \
	static ::mc::Reg MC_CAT(mcReg, __LINE__)(name, bounds, MC_CAT(mcBody, __LINE__), split); \
	static void MC_CAT(mcBody, __LINE__)()

// ---------------------------------------------------------------- explorer
inline double now() {
	timespec ts;
	clock_gettime(CLOCK_MONOTONIC, &ts);
	return ts.tv_sec + ts.tv_nsec * 1e-9;
}

inline void runBody(const Scenario& sc) {
	auto& c = ctx();
	c.pos = 0;
	c.devs = 0;
	c.slot->n = 0;
	try {
		sc.body();
	} catch(const std::exception& e) {
		fail("unexpected exception left the scenario: %s", e.what());
	} catch(...) {
		fail("unexpected exception left the scenario");
	}
	tick();
}

struct NullBuf : public std::streambuf {
	int overflow(int c) override { return c; }
	std::streamsize xsputn(const char*, std::streamsize n) override { return n; }
};

inline void childSetup(const char* errFile) {
	static NullBuf nb;
	std::cerr.rdbuf(&nb);
	auto fd = ::open(errFile, O_CREAT | O_TRUNC | O_WRONLY, 0644);
	if(fd >= 0) { dup2(fd, 2); close(fd); }
	std::set_terminate([]{
		const char* what = "std::terminate was called";
		static char buf[500];
		try {
			if(std::current_exception()) std::rethrow_exception(std::current_exception());
		} catch(const std::exception& e) {
			std::snprintf(buf, sizeof(buf), "std::terminate was called with exception: %s", e.what());
			what = buf;
		} catch(...) {}
		failStr(what);
	});
}

inline void work(const Scenario& sc, Slot& s, u32 w, u32 workers, double deadline) {
	auto& c = ctx();
	c.slot = &s;
	u64 prefixId = 0;
	bool owned = false;
	u32 changed = 0; // position that was advanced
	c.prefix = 0;
	bool first = true;
	u64 execs = 0, nextSample = 1;
	while(true) {
		auto newPrefix = first || changed < sc.split;
		if(newPrefix) owned = (mix(prefixId++) % workers) == w;
		first = false;
		c.counted = owned;
		runBody(sc);
		auto total = c.pos;
		if(owned) {
			s.execs.store(++execs, std::memory_order_relaxed);
			if(total > s.maxDepth) s.maxDepth = total;
			if(execs == nextSample) {
				nextSample *= 37;
				auto i = s.sampleCount % maxSamples;
				s.sampleLen[i] = total;
				std::memcpy(s.sample[i], s.choice, total * sizeof(u32));
				++s.sampleCount;
			}
		}

		auto p = owned ? total : (total < sc.split ? total : sc.split);
		while(p > 0 && s.choice[p - 1] + 1 >= s.arity[p - 1]) --p;
		if(p == 0) { s.done = 1; return; }
		++s.choice[p - 1];
		c.prefix = p;
		changed = p - 1;
		if((execs & 63) == 0 && now() > deadline) { s.done = 2; return; }
	}
}

inline std::string jstr(const std::string& s) {
	std::string r = "\"";
	for(unsigned char ch : s) {
		char b[8];
		switch(ch) {
			case '"': r += "\\\""; break;
			case '\\': r += "\\\\"; break;
			case '\n': r += "\\n"; break;
			case '\t': r += "\\t"; break;
			default:
				if(ch < 0x20 || ch >= 0x7f) { std::snprintf(b, sizeof(b), "\\u%04x", ch); r += b; }
				else r += char(ch);
		}
	}
	return r + "\"";
}

inline std::string slurp(const std::string& f, std::size_t max = 3000) {
	std::string r;
	if(auto fp = std::fopen(f.c_str(), "r")) {
		char buf[4096];
		std::size_t n;
		while((n = std::fread(buf, 1, sizeof(buf), fp)) > 0 && r.size() < max) r.append(buf, n);
		std::fclose(fp);
	}
	if(r.size() > max) r.resize(max);
	return r;
}

inline Slot* newSlots(u32 n) {
	auto p = mmap(nullptr, sizeof(Slot) * n, PROT_READ | PROT_WRITE,
		MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if(p == MAP_FAILED) { perror("mmap"); std::exit(2); }
	return static_cast<Slot*>(p);
}

enum class Res { ok, failed, crashed, hang };

// Runs one recorded choice sequence in a fresh process, notes go to outFile.
inline Res replayOnce(const Scenario& sc, const std::vector<u32>& ch, const std::vector<u32>* ar,
		double limit, const std::string& outFile, const std::string& errFile, std::string& msg) {
	auto s = newSlots(1);
	std::fflush(nullptr);
	auto pid = fork();
	if(pid == 0) {
		auto fd = ::open(outFile.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
		if(fd >= 0) { dup2(fd, 1); close(fd); }
		childSetup(errFile.c_str());
		auto& c = ctx();
		c.slot = s;
		c.record = true;
		c.prefix = ch.size();
		for(auto i = 0u; i < ch.size(); ++i) {
			s->choice[i] = ch[i];
			s->arity[i] = ar ? (*ar)[i] : 0;
		}
		if(!ar) { // arity unknown: accept whatever it is
			c.prefix = 0;
		}
		runBody(sc);
		std::fwrite(c.notes.data(), 1, c.notes.size(), stdout);
		std::fflush(stdout);
		_exit(0);
	}
	auto end = now() + limit;
	int st = 0;
	while(true) {
		auto r = waitpid(pid, &st, WNOHANG);
		if(r == pid) break;
		if(now() > end) {
			kill(pid, SIGKILL);
			waitpid(pid, &st, 0);
			msg = "execution does not terminate";
			munmap(s, sizeof(Slot));
			return Res::hang;
		}
		usleep(1000);
	}
	Res ret = Res::ok;
	if(s->failed) {
		msg = s->msg;
		ret = Res::failed;
	} else if(!WIFEXITED(st) || WEXITSTATUS(st) != 0) {
		msg = WIFSIGNALED(st) ? std::string("killed by signal ") + strsignal(WTERMSIG(st)) :
			"exited with code " + std::to_string(WEXITSTATUS(st));
		auto err = slurp(errFile);
		auto p = err.find("ERROR: AddressSanitizer");
		if(p == err.npos) p = err.find("runtime error");
		if(p == err.npos) p = err.find("Assertion");
		if(p != err.npos) {
			auto b = err.rfind('\n', p);
			b = (b == err.npos) ? 0 : b + 1;
			auto e = err.find('\n', p);
			msg += ": " + err.substr(b, e == err.npos ? err.npos : e - b);
		}
		ret = Res::crashed;
	}
	munmap(s, sizeof(Slot));
	return ret;
}

inline int main(int argc, char** argv) {
	std::string out, replay, dir = "/tmp", only;
	u32 workers = 8;
	double limit = 1e9, hang = 45;
	for(int i = 1; i < argc; ++i) {
		std::string a = argv[i];
		auto next = [&]{ return std::string(argv[++i]); };
		if(a == "--out") out = next();
		else if(a == "--replay") replay = next();
		else if(a == "--dir") dir = next();
		else if(a == "--workers") workers = std::stoi(next());
		else if(a == "--time") limit = std::stod(next());
		else if(a == "--hang") hang = std::stod(next());
		else if(a == "--only") only = next();
		else if(a == "--tier") { if(next() == "thorough") { ctx().thorough = true; ctx().tier = "thorough"; } }
		else if(a == "--seed") ctx().seed = std::stoull(next());
		else { std::fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
	}

	auto errBase = dir + "/err";

	// replay mode: <scenario>\n<n>\n<choice arity>...
	if(!replay.empty()) {
		auto fp = std::fopen(replay.c_str(), "r");
		if(!fp) { perror("replay"); return 2; }
		char name[256]; unsigned n = 0, th = 0;
		if(std::fscanf(fp, "%255s %u %u", name, &th, &n) != 3) return 2;
		ctx().thorough = th;
		std::vector<u32> ch(n), ar(n);
		for(auto i = 0u; i < n; ++i) if(std::fscanf(fp, "%u %u", &ch[i], &ar[i]) != 2) return 2;
		std::fclose(fp);
		static HashSet a = HashSet::create(20), b = HashSet::create(20);
		ctx().states = &a; ctx().outcomes = &b;
		for(auto& sc : scenarios()) {
			if(sc.name != name) continue;
			std::string msg;
			auto o = dir + "/replay.out", e = dir + "/replay.err";
			auto r = replayOnce(sc, ch, &ar, hang * 4, o, e, msg);
			std::printf("%s\nresult: %s %s\n%s\n", slurp(o, 100000).c_str(),
				r == Res::ok ? "passed" : "FAILED", msg.c_str(), slurp(e, 100000).c_str());
			return r == Res::ok ? 0 : 1;
		}
		std::fprintf(stderr, "no scenario %s\n", name);
		return 2;
	}

	std::ostringstream js;
	js << "{\"scenarios\": [";
	bool firstSc = true;
	bool violated = false, toolError = false;
	std::string viol;
	auto start = now();
	for(auto& sc : scenarios()) {
		if(!only.empty() && sc.name != only) continue;
		if(sc.thoroughOnly && !ctx().thorough) continue;
		auto t0 = now();
		auto slots = newSlots(workers);
		auto states = HashSet::create(25), outcomes = HashSet::create(22);
		ctx().states = &states;
		ctx().outcomes = &outcomes;
		std::vector<pid_t> pids(workers);
		std::fflush(nullptr);
		auto spawn = [&](u32 w) {
			auto pid = fork();
			if(pid == 0) {
				childSetup((errBase + std::to_string(w)).c_str());
				work(sc, slots[w], w, workers, start + limit);
				_exit(0);
			}
			if(pid < 0) { perror("fork"); std::exit(2); }
			return pid;
		};
		for(auto w = 0u; w < workers; ++w) pids[w] = spawn(w);

		std::vector<u64> lastHeart(workers, ~u64(0));
		std::vector<double> lastTime(workers, now());
		auto left = workers;
		int bad = -1; // worker that failed
		int badStatus = 0;
		bool wasHang = false;
		while(left && bad < 0) {
			int st = 0;
			auto pid = waitpid(-1, &st, WNOHANG);
			if(pid > 0) {
				for(auto w = 0u; w < workers; ++w) {
					if(pids[w] != pid) continue;
					pids[w] = -1;
					--left;
					if(!slots[w].done || !WIFEXITED(st) || WEXITSTATUS(st) != 0) {
						bad = w;
						badStatus = st;
					}
				}
				continue;
			}
			usleep(2000);
			auto t = now();
			for(auto w = 0u; w < workers && bad < 0; ++w) {
				if(pids[w] < 0) continue;
				u64 h = slots[w].heart + slots[w].execs;
				if(h != lastHeart[w]) { lastHeart[w] = h; lastTime[w] = t; }
				else if(t - lastTime[w] > hang) {
					kill(pids[w], SIGKILL);
					waitpid(pids[w], &st, 0);
					pids[w] = -1;
					--left;
					bad = w;
					wasHang = true;
				}
			}
		}
		for(auto w = 0u; w < workers; ++w) {
			if(pids[w] > 0) { kill(pids[w], SIGKILL); int st; waitpid(pids[w], &st, 0); }
		}

		std::string msg;
		if(bad >= 0) {
			auto& s = slots[bad];
			auto n = s.n.load();
			std::vector<u32> ch(s.choice, s.choice + n), ar(s.arity, s.arity + n);
			auto o = dir + "/v.out", e = dir + "/v.err";
			auto r = replayOnce(sc, ch, &ar, hang * 3, o, e, msg);
			std::string how = "the recorded choices, in a fresh process";
			if(r == Res::ok && !wasHang) {
				// depends on earlier executions in the same process (e.g. reads of
				// uninitialized memory): repeat the deterministic exploration
				Slot org;
				std::memcpy(static_cast<void*>(&org), &s, sizeof(Slot));
				std::memset(static_cast<void*>(&s), 0, sizeof(Slot));
				pids[bad] = spawn(bad);
				int st = 0;
				auto end = now() + 240;
				while(waitpid(pids[bad], &st, WNOHANG) == 0) {
					if(now() > end) { kill(pids[bad], SIGKILL); waitpid(pids[bad], &st, 0); break; }
					usleep(2000);
				}
				if(!s.done && (s.failed || org.failed == 0)) {
					r = Res::failed;
					msg = org.failed ? org.msg : "worker crashed";
					how = "the whole exploration of this worker (depends on earlier executions)";
				}
			}
			if(r == Res::ok) {
				std::fprintf(stderr, "%s: failure could not be reproduced (%s, status %d)\n",
					sc.name.c_str(), s.msg, badStatus);
				toolError = true;
			} else {
				violated = true;
				std::ostringstream v;
				v << "{\"scenario\": " << jstr(sc.name) << ", \"message\": " << jstr(msg)
					<< ", \"reproduced_by\": " << jstr(how)
					<< ", \"thorough\": " << (ctx().thorough ? 1 : 0)
					<< ", \"choices\": [";
				for(auto i = 0u; i < n; ++i) v << (i ? "," : "") << ch[i];
				v << "], \"arities\": [";
				for(auto i = 0u; i < n; ++i) v << (i ? "," : "") << ar[i];
				v << "], \"trace\": " << jstr(slurp(o, 20000)) << ", \"stderr\": " << jstr(slurp(e, 6000)) << "}";
				viol = v.str();
			}
		}

		u64 execs = 0, steps = 0, evals = 0;
		u32 depth = 0;
		bool exhaustive = bad < 0;
		for(auto w = 0u; w < workers; ++w) {
			execs += slots[w].execs;
			steps += slots[w].steps;
			evals += slots[w].evals;
			depth = std::max(depth, slots[w].maxDepth);
			if(slots[w].done != 1) exhaustive = false;
		}
		std::ostringstream samples;
		u32 nsamples = 0;
		for(auto w = 0u; w < workers && nsamples < 2 && bad < 0; ++w) {
			auto cnt = slots[w].sampleCount < maxSamples ? slots[w].sampleCount : maxSamples;
			if(!cnt) continue;
			auto i = (slots[w].sampleCount - 1) % maxSamples;
			std::vector<u32> ch(slots[w].sample[i], slots[w].sample[i] + slots[w].sampleLen[i]);
			// arities: found while running, so replay with a free prefix
			std::vector<u32> ar;
			auto o = dir + "/s.out", e = dir + "/s.err";
			// sample replays accept any arity
			auto sl = newSlots(1);
			std::fflush(nullptr);
			auto pid = fork();
			if(pid == 0) {
				auto fd = ::open(o.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
				if(fd >= 0) { dup2(fd, 1); close(fd); }
				childSetup(e.c_str());
				// first find the arities: run with a growing prefix
				auto& c = ctx();
				c.slot = sl;
				c.record = false;
				// choose() compares arities of the prefix; grow it one by one
				for(u32 k = 0; k <= ch.size(); ++k) {
					for(u32 j = 0; j < k; ++j) sl->choice[j] = ch[j];
					c.prefix = k;
					if(k == ch.size()) { c.record = true; }
					c.notes.clear();
					runBody(sc);
				}
				std::fwrite(c.notes.data(), 1, c.notes.size(), stdout);
				std::fflush(stdout);
				_exit(0);
			}
			int st = 0;
			auto end = now() + 20;
			bool ok = true;
			while(waitpid(pid, &st, WNOHANG) == 0) {
				if(now() > end) { kill(pid, SIGKILL); waitpid(pid, &st, 0); ok = false; break; }
				usleep(500);
			}
			munmap(sl, sizeof(Slot));
			if(!ok || st != 0) continue;
			samples << (nsamples++ ? ", " : "") << "{\"choices\": [";
			for(auto j = 0u; j < ch.size() && j < 64; ++j) samples << (j ? "," : "") << ch[j];
			samples << "], \"trace\": " << jstr(slurp(o, 1500)) << "}";
		}

		js << (firstSc ? "" : ", ") << "{\"name\": " << jstr(sc.name)
			<< ", \"bounds\": " << jstr(sc.bounds)
			<< ", \"executions\": " << execs << ", \"steps\": " << steps
			<< ", \"evaluations\": " << evals
			<< ", \"states\": " << states.count->load()
			<< ", \"states_dropped\": " << states.dropped->load()
			<< ", \"outcomes\": " << outcomes.count->load()
			<< ", \"max_choices\": " << depth
			<< ", \"exhaustive\": " << (exhaustive ? "true" : "false")
			<< ", \"wall_s\": " << now() - t0
			<< ", \"samples\": [" << samples.str() << "]}";
		firstSc = false;
		states.destroy();
		outcomes.destroy();
		munmap(slots, sizeof(Slot) * workers);
		if(violated || toolError) break;
	}

	js << "], \"wall_s\": " << now() - start;
	if(violated) js << ", \"violation\": " << viol;
	js << "}\n";
	if(out.empty()) {
		std::fputs(js.str().c_str(), stdout);
	} else {
		auto fp = std::fopen(out.c_str(), "w");
		if(!fp) { perror("out"); return 2; }
		std::fputs(js.str().c_str(), fp);
		std::fclose(fp);
	}
	return violated ? 1 : toolError ? 3 : 0;
}

} // namespace mc

#ifndef MC_NO_MAIN
int main(int argc, char** argv) { return mc::main(argc, argv); }
#endif
