// Exploration support shared by all harnesses: deterministic case counter (the replay key), exact state /
// transition / trace counts, failure reporting, crash + hang attribution. No repository code in here.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <csignal>
#include <unistd.h>
#include <sys/time.h>

namespace vx
{
using std::size_t;
typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef int32_t i32;

struct GroupStat { u64 cases = 0, trans = 0, traces = 0, states = 0; std::unordered_set<u64> outcomes; };

struct State
{
	const char* tier = "quick"; int shard = 0, nshards = 1;
	std::string replayGroup; u64 replayIndex = 0; bool replaying = false;
	std::map<std::string, GroupStat> groups;
	std::vector<std::string> samples; std::map<std::string, int> sampleCount;
	std::vector<std::string> bounds;
	std::map<std::string, u64> failCount; u64 fails = 0;
	int groupNo = 0;
};
inline State& S() { static State s; return s; }
inline GroupStat* g = nullptr;                 // current group
inline char gname[128] = "(start)";
inline volatile u64 idx = 0;                   // case index inside the current group: the replay key
inline volatile u64 beat = 0;                  // heartbeat for the hang detector
inline char what[512] = "";                    // optional description of the operation in progress (for crashes)

inline bool thorough() { return !strcmp(S().tier, "thorough"); }

inline void wr(const char* s) { ssize_t r = write(1, s, strlen(s)); (void)r; }
inline void wrn(u64 n) { char b[24]; int i = 23; b[i] = 0; do { b[--i] = char('0' + n % 10); n /= 10; } while (n); wr(b + i); }
inline void dead(const char* kind)
{
	wr("\nDEAD\t"); wr(gname); wr("\t"); wrn(idx); wr("\t"); wr(kind); wr("\t"); wr(what); wr("\n"); _exit(99);
}
inline void onSignal(int s)
{
	dead(s == SIGSEGV ? "SIGSEGV" : s == SIGFPE ? "SIGFPE" : s == SIGABRT ? "SIGABRT" : s == SIGBUS ? "SIGBUS" :
		s == SIGILL ? "SIGILL" : "signal");
}
inline u64 lastBeat = 0; inline int still = 0;
inline void onTimer(int)
{
	if (beat != lastBeat) { lastBeat = beat; still = 0; return; }
	if (++still >= 7) dead("HANG: 30 s of CPU time inside one case");
}
// ASan/UBSan call this hook just before dying, so that the report carries the case.
extern "C" inline void vx_on_sanitizer() { dead("SANITIZER"); }

// Starts a group. whole=false: the whole group runs in one shard only. whole=true: the body splits itself with mine().
inline bool begin(const char* name, bool split = false)
{
	State& s = S(); int no = s.groupNo++;
	if (s.replaying && s.replayGroup != name) return false;
	if (!split && no % s.nshards != s.shard) return false;
	snprintf(gname, sizeof gname, "%s", name); g = &s.groups[name]; idx = 0; what[0] = 0; beat = beat + 1;
	return true;
}
inline bool mine(u64 i) { return i % (u64)S().nshards == (u64)S().shard; }
// One case = one complete trace of the transition system under exploration.
inline void next() { idx = idx + 1; beat = beat + 1; g->cases++; }
inline void trans(u64 n = 1) { g->trans += n; }
inline void trace(u64 n = 1) { g->traces += n; }
inline void states(u64 n = 1) { g->states += n; }
inline void out(u64 h) { if (g->outcomes.size() < 65536) g->outcomes.insert(h); }

inline std::string clean(const char* b) { std::string r(b); for (auto& c : r) if (c == '\t' || c == '\n') c = ' '; return r; }
// A property violation. key identifies the kind of failure (matched against the known-findings file).
inline void fail(const char* key, const char* fmt, ...)
{
	State& s = S();
	if (s.replaying && idx != s.replayIndex) return;
	s.fails++;
	if (s.fails > 300000) return;
	std::string k = std::string(gname) + "\t" + key;
	if (++s.failCount[k] > 3) return;
	char b[3000]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
	printf("FAIL\t%s\t%llu\t%s\t%s\n", gname, (unsigned long long)idx, key, clean(b).c_str()); fflush(stdout);
}
inline void sample(const char* fmt, ...)
{
	State& s = S(); if (s.sampleCount[gname] >= 1 || s.samples.size() > 60) return; s.sampleCount[gname]++;
	char b[1500]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
	s.samples.push_back(std::string(gname) + ": " + clean(b));
}
inline void bound(const char* fmt, ...)
{
	char b[1500]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
	S().bounds.push_back(clean(b));
}
inline std::string js(const std::string& v)
{
	std::string r = "\"";
	for (unsigned char c : v) { if (c == '"' || c == '\\') { r += '\\'; r += (char)c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += (char)c; }
	return r + "\"";
}
inline u64 mix(u64 h, u64 v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 33; return h; }
inline u32 fbits(float f) { u32 u; memcpy(&u, &f, 4); return u; }
inline float bitsf(u32 u) { float f; memcpy(&f, &u, 4); return f; }
// Same value for the user: equal bits up to the sign of NaN/payload; +0 and -0 distinguished only on request.
inline bool same(float a, float b) { return a == b || (a != a && b != b); }
inline bool sameBits(float a, float b) { return fbits(a) == fbits(b) || (a != a && b != b); }

inline void run(int argc, char** argv, void (*body)())
{
	State& s = S();
	for (int i = 1; i < argc; i++)
	{
		std::string a = argv[i];
		if (a == "--tier") s.tier = argv[++i];
		else if (a == "--shard") s.shard = atoi(argv[++i]);
		else if (a == "--nshards") s.nshards = atoi(argv[++i]);
		else if (a == "--replay") { s.replaying = true; s.replayGroup = argv[++i]; s.replayIndex = strtoull(argv[++i], 0, 10); }
	}
	static char alt[65536]; stack_t st{}; st.ss_sp = alt; st.ss_size = sizeof alt; sigaltstack(&st, 0);
	struct sigaction sa{}; sa.sa_handler = onSignal; sa.sa_flags = SA_ONSTACK;
	int sigs[] = { SIGFPE, SIGABRT, SIGILL, SIGBUS, SIGSEGV };
	for (int x : sigs) sigaction(x, &sa, 0);
	sa.sa_handler = onTimer; sigaction(SIGPROF, &sa, 0);
	struct itimerval tv{}; tv.it_interval.tv_sec = 5; tv.it_value.tv_sec = 5; setitimer(ITIMER_PROF, &tv, 0);
	body();
	if (const char* of = getenv("VX_OUT")) // the distinct observed outcomes of every group, merged over the workers by ./check
		if (FILE* f = fopen(of, "wb"))
		{
			for (auto& e : s.groups) { fprintf(f, "%s\n%zu\n", e.first.c_str(), e.second.outcomes.size()); for (u64 h : e.second.outcomes) fwrite(&h, 8, 1, f); }
			fclose(f);
		}
	printf("STAT\t{\"fails\":%llu,\"groups\":{", (unsigned long long)s.fails);
	bool first = true;
	for (auto& e : s.groups)
	{
		printf("%s%s:{\"cases\":%llu,\"transitions\":%llu,\"traces\":%llu,\"states\":%llu,\"distinct_outcomes\":%zu}", first ? "" : ",", js(e.first).c_str(),
			(unsigned long long)e.second.cases, (unsigned long long)e.second.trans, (unsigned long long)e.second.traces,
			(unsigned long long)e.second.states, e.second.outcomes.size());
		first = false;
	}
	printf("},\"samples\":["); first = true;
	for (auto& e : s.samples) { printf("%s%s", first ? "" : ",", js(e).c_str()); first = false; }
	printf("],\"bounds\":["); first = true;
	for (auto& e : s.bounds) { printf("%s%s", first ? "" : ",", js(e).c_str()); first = false; }
	printf("]}\n"); fflush(stdout);
	_exit(0);
}
} // namespace vx

#define VX_MAIN(body) int main(int argc, char** argv) { vx::run(argc, argv, body); }
