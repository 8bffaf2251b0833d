// Controlled scheduler for C10 and C12: operations run as fibers, every switch is the scheduler's. In the mem build it records every memory access.
#pragma once
#include "vx.hpp"
#include <stack>
#include <functional>
#include <ucontext.h>
#include <sys/mman.h>
#include <new>
#include <link.h>
#include <pthread.h>
#include <sys/wait.h>
// Memory of the tree under test comes from an arena that can be made read-only.
static char* arena = nullptr; static size_t used = 0; static bool inArena = false; enum { ARENA = 1 << 20 };
#ifdef VX_MEM
#define RAW __attribute__((no_sanitize("thread"), noinline))
// Every operation allocates from a pool of its own, so that memory recycled by the heap is no shared memory.
static int poolNow = 3; static char* poolBase[4]; static size_t poolUsed[4]; enum : size_t { POOL = size_t(1) << 26 }; struct FreeNode { FreeNode* next; }; static FreeNode* freeList[4][32];
RAW static int classOf(size_t n) { int c = 6; while ((size_t(1) << c) < n + 64) c++; return c; }
RAW static void* poolTake(size_t n)
{
	if (!poolBase[0]) for (int i = 0; i < 4; i++) poolBase[i] = (char*)mmap(nullptr, POOL, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	int c = classOf(n), w = poolNow; if (c > 25) abort(); char* p; if (freeList[w][c]) { p = (char*)freeList[w][c]; freeList[w][c] = freeList[w][c]->next; } else { poolUsed[w] = (poolUsed[w] + 63) & ~size_t(63); p = poolBase[w] + poolUsed[w]; poolUsed[w] += size_t(1) << c; if (poolUsed[w] > POOL) abort(); } *(int*)p = c; return p + 64;
}
RAW static bool poolGive(void* q) { for (int w = 0; w < 4; w++) if (poolBase[w] && (char*)q >= poolBase[w] && (char*)q < poolBase[w] + POOL) { FreeNode* p = (FreeNode*)((char*)q - 64); int c = *(int*)p; p->next = freeList[w][c]; freeList[w][c] = p; return true; } return false; }
#else
#define RAW __attribute__((no_instrument_function))
static void* poolTake(size_t n) { void* p = malloc(n ? n : 1); if (!p) abort(); return p; }
static bool poolGive(void*) { return false; }
#endif
RAW static void* take(size_t n) { if (!inArena) return poolTake(n); used = (used + 63) & ~size_t(63); void* p = arena + used; used += n; if (used > ARENA) abort(); return p; }
RAW static void give(void* p) { if (((char*)p < arena || (char*)p >= arena + ARENA) && !poolGive(p)) free(p); }
void* operator new(size_t n) { return take(n); } void* operator new[](size_t n) { return take(n); } void* operator new(size_t n, std::align_val_t) {
#ifdef VX_MEM
	return take(n);
#endif
	if (inArena) return take(n); void* p = aligned_alloc(64, (n + 63) / 64 * 64); if (!p) abort(); return p; }
void operator delete(void* p) noexcept { give(p); } void operator delete[](void* p) noexcept { give(p); } void operator delete(void* p, size_t) noexcept { give(p); } void operator delete[](void* p, size_t) noexcept { give(p); } void operator delete(void* p, std::align_val_t) noexcept { give(p); } void operator delete(void* p, size_t, std::align_val_t) noexcept { give(p); }
namespace vx
{
struct Fiber { ucontext_t ctx; std::function<void()> body; bool done; u64 steps; char* stack; };
enum { MAXF = 3, STACK = 256 * 1024 };
static Fiber fb[MAXF]; static ucontext_t mainCtx; static int nf = 0, cur = -1; static bool active = false;
// The schedule: run fiber first, then at the k-th scheduling point overall equal to at[k] switch to fiber to[k].
struct Sched { int first, n; u64 at[4]; int to[4]; }; static Sched sc; static u64 point; static int nextPre;
// Distinct states visited: how far each operation has come (operations are deterministic, so this is the state as long as they do not interfere).
static std::vector<unsigned char> vis; static u64 visStride[MAXF], visAt, visNew, visEnd; static bool visOver;
// Variables of thread storage duration: each operation stands for a thread of its own and gets its own image.
static char *tlsBase = nullptr, *tlsImg[MAXF + 1], *tlsFresh = nullptr; static size_t tlsSize = 0;
static int findTls(struct dl_phdr_info* i, size_t, void*) { for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_TLS && i->dlpi_tls_data) { tlsBase = (char*)i->dlpi_tls_data; tlsSize = i->dlpi_phdr[k].p_memsz; } return 1; }
static void initTls() { dl_iterate_phdr(findTls, nullptr); if (!tlsSize) return; for (auto& t : tlsImg) t = (char*)malloc(tlsSize); tlsFresh = (char*)malloc(tlsSize); memcpy(tlsFresh, tlsBase, tlsSize); }
RAW static void tlsSwap(int from, int to) { if (!tlsSize) return; __builtin_memcpy(tlsImg[from], tlsBase, tlsSize); __builtin_memcpy(tlsBase, tlsImg[to], tlsSize); }
RAW static void act(bool a) { active = a; }
RAW static void pool(int w) {
#ifdef VX_MEM
	poolNow = w;
#endif
}
RAW static void switchTo(int me, int t) { active = false; tlsSwap(me, t); pool(t); cur = t; active = true; swapcontext(&fb[me].ctx, &fb[t].ctx); }
RAW static void point1(int me) { if (nextPre < sc.n && point++ == sc.at[nextPre]) { int t = sc.to[nextPre++]; if (t != me && !fb[t].done) switchTo(me, t); } else if (nextPre >= sc.n) point++; }
// An operation that has to wait for another (initialisation of a static, a mutex) lets the next one run.
RAW static void waitForOther() { if (!active || cur < 0) return; int me = cur; for (int k = 1; k < nf; k++) if (!fb[(me + k) % nf].done) { switchTo(me, (me + k) % nf); return; } }
extern "C" {
__attribute__((no_instrument_function)) RAW int __cxa_guard_acquire(u64* g) { unsigned char* b = (unsigned char*)g; while (true) { if (b[0]) return 0; if (!b[1]) { b[1] = 1; return 1; } if (!active || cur < 0) abort(); waitForOther(); } }
__attribute__((no_instrument_function)) RAW void __cxa_guard_release(u64* g) { unsigned char* b = (unsigned char*)g; b[1] = 0; b[0] = 1; }
__attribute__((no_instrument_function)) RAW void __cxa_guard_abort(u64* g) { ((unsigned char*)g)[1] = 0; }
__attribute__((no_instrument_function)) RAW int pthread_mutex_lock(pthread_mutex_t* m) { while (true) { int r = pthread_mutex_trylock(m); if (r != 16 /* EBUSY */) return r; waitForOther(); } }
__attribute__((no_instrument_function)) RAW int pthread_once(pthread_once_t* o, void (*f)(void)) { volatile int* v = (volatile int*)o; while (*v == 1) waitForOther(); if (*v == 2) return 0; *v = 1; try { f(); } catch (...) { *v = 0; throw; } *v = 2; return 0; }
__attribute__((no_instrument_function)) RAW int pthread_rwlock_rdlock(pthread_rwlock_t* m) { while (true) { int r = pthread_rwlock_tryrdlock(m); if (r != 16) return r; waitForOther(); } }
__attribute__((no_instrument_function)) RAW int pthread_rwlock_wrlock(pthread_rwlock_t* m) { while (true) { int r = pthread_rwlock_trywrlock(m); if (r != 16) return r; waitForOther(); } }
__attribute__((no_instrument_function)) RAW int sched_yield(void) noexcept { waitForOther(); return 0; }
__attribute__((no_instrument_function)) RAW int __cxa_thread_atexit(void (*)(void*), void*, void*) { return 0; }
#ifdef VX_MEM
// Memory accesses. Recording: the bytes an operation reads (1) and writes (2). Exploring: a scheduling point at every access to a byte in conflict.
enum { TAB = 1 << 17 }; struct Tab { u64 n; u64 a[TAB]; unsigned char f[TAB]; u32 used[TAB / 2 + 1]; }; static Tab *rec = nullptr, *hot = nullptr; static bool recording = false;
RAW static u64 slot(Tab* t, u64 a) { u64 h = (a * 0x9E3779B97F4A7C15ull) >> 47; while (t->a[h & (TAB - 1)] && t->a[h & (TAB - 1)] != a) h++; return h & (TAB - 1); }
RAW static void mem(void* p, size_t n, int w)
{
	if (!active || cur < 0) return; char* c = (char*)p; int me = cur; if ((c >= fb[me].stack && c < fb[me].stack + STACK) || (c >= tlsBase && c < tlsBase + tlsSize)) return;
	if (recording) { for (size_t i = 0; i < n; i++) { u64 k = slot(rec, (u64)c + i); if (!rec->a[k]) { rec->a[k] = (u64)c + i; rec->used[rec->n] = k; if (++rec->n > TAB / 2) abort(); } rec->f[k] |= w; } fb[me].steps++; return; }
	if (!hot || !hot->n) { fb[me].steps++; return; } bool h = false; for (size_t i = 0; i < n && !h; i++) h = hot->a[slot(hot, (u64)c + i)] != 0; if (!h) return; fb[me].steps++; point1(me);
}
#define ACC(s) RAW void __tsan_read##s(void* p) { mem(p, s, 1); } RAW void __tsan_write##s(void* p) { mem(p, s, 2); } RAW void __tsan_unaligned_read##s(void* p) { mem(p, s, 1); } RAW void __tsan_unaligned_write##s(void* p) { mem(p, s, 2); } RAW void __tsan_volatile_read##s(void* p) { mem(p, s, 1); } RAW void __tsan_volatile_write##s(void* p) { mem(p, s, 2); } RAW void __tsan_unaligned_volatile_read##s(void* p) { mem(p, s, 1); } RAW void __tsan_unaligned_volatile_write##s(void* p) { mem(p, s, 2); } RAW void __tsan_read_write##s(void* p) { mem(p, s, 3); } RAW void __tsan_unaligned_read_write##s(void* p) { mem(p, s, 3); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
RAW void __tsan_init() { } RAW void __tsan_func_entry(void*) { } RAW void __tsan_func_exit() { } RAW void __tsan_ignore_thread_begin() { } RAW void __tsan_ignore_thread_end() { } RAW void __tsan_vptr_update(void** p, void*) { mem(p, 8, 2); } RAW void __tsan_vptr_read(void** p) { mem(p, 8, 1); } RAW void __tsan_read_range(void* p, unsigned long n) { mem(p, n, 1); } RAW void __tsan_write_range(void* p, unsigned long n) { mem(p, n, 2); }
RAW void* __tsan_memcpy(void* d, const void* s, size_t n) { mem((void*)s, n, 1); mem(d, n, 2); return __builtin_memmove(d, s, n); } RAW void* __tsan_memmove(void* d, const void* s, size_t n) { mem((void*)s, n, 1); mem(d, n, 2); return __builtin_memmove(d, s, n); } RAW void* __tsan_memset(void* d, int v, size_t n) { mem(d, n, 2); return __builtin_memset(d, v, n); }
// A loop that waits for an atomic variable to change lets the other run.
RAW static void spin(const volatile void* p) { static const volatile void* last = nullptr; static int count = 0; if (p != last) { last = p; count = 0; } else if (++count > 64) { count = 0; waitForOther(); } }
#define ATO(b, T) RAW T __tsan_atomic##b##_load(const volatile T* p, int) { spin(p); mem((void*)p, b / 8, 1); return *p; } RAW void __tsan_atomic##b##_store(volatile T* p, T v, int) { mem((void*)p, b / 8, 2); *p = v; } RAW T __tsan_atomic##b##_exchange(volatile T* p, T v, int) { spin(p); mem((void*)p, b / 8, 2); T o = *p; *p = v; return o; } \
	RAW T __tsan_atomic##b##_fetch_add(volatile T* p, T v, int) { mem((void*)p, b / 8, 2); T o = *p; *p = o + v; return o; } RAW T __tsan_atomic##b##_fetch_sub(volatile T* p, T v, int) { mem((void*)p, b / 8, 2); T o = *p; *p = o - v; return o; } RAW T __tsan_atomic##b##_fetch_and(volatile T* p, T v, int) { mem((void*)p, b / 8, 2); T o = *p; *p = o & v; return o; } RAW T __tsan_atomic##b##_fetch_or(volatile T* p, T v, int) { mem((void*)p, b / 8, 2); T o = *p; *p = o | v; return o; } RAW T __tsan_atomic##b##_fetch_xor(volatile T* p, T v, int) { mem((void*)p, b / 8, 2); T o = *p; *p = o ^ v; return o; } RAW T __tsan_atomic##b##_fetch_nand(volatile T* p, T v, int) { mem((void*)p, b / 8, 2); T o = *p; *p = ~(o & v); return o; } \
	RAW int __tsan_atomic##b##_compare_exchange_strong(volatile T* p, T* e, T v, int, int) { spin(p); mem((void*)p, b / 8, 2); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } RAW int __tsan_atomic##b##_compare_exchange_weak(volatile T* p, T* e, T v, int, int) { spin(p); mem((void*)p, b / 8, 2); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } RAW T __tsan_atomic##b##_compare_exchange_val(volatile T* p, T e, T v, int, int) { spin(p); mem((void*)p, b / 8, 2); T o = *p; if (o == e) *p = v; return o; }
ATO(8, uint8_t) ATO(16, uint16_t) ATO(32, uint32_t) ATO(64, uint64_t)
RAW void __tsan_atomic_thread_fence(int) { } RAW void __tsan_atomic_signal_fence(int) { }
#else
__attribute__((no_instrument_function)) void __cyg_profile_func_enter(void*, void*)
{
	if (!active || cur < 0) return; int me = cur; fb[me].steps++; visAt += visStride[me]; if (visAt < visEnd) { unsigned char& v = vis[visAt]; visNew += !v; v = 1; } else visOver = true; point1(me);
}
__attribute__((no_instrument_function)) void __cyg_profile_func_exit(void*, void*) { }
#endif
}
RAW static void entry(int i) { fb[i].body(); active = false; fb[i].done = true; int t = -1; for (int k = 1; k <= nf; k++) if (!fb[(i + k) % nf].done) { t = (i + k) % nf; break; } if (t < 0) { tlsSwap(i, MAXF); pool(3); cur = -1; setcontext(&mainCtx); } tlsSwap(i, t); pool(t); cur = t; active = true; setcontext(&fb[t].ctx); }
static u64 runAll(const Sched& s, const std::vector<std::function<void()>>& f) // returns the number of scheduling points passed
{
	sc = s; nf = f.size(); point = 0; nextPre = 0; visAt = 0; for (int i = 0; i < nf && tlsSize; i++) memcpy(tlsImg[i], tlsFresh, tlsSize);
	for (int i = 0; i < nf; i++) { if (!fb[i].stack) fb[i].stack = (char*)malloc(STACK); getcontext(&fb[i].ctx); fb[i].ctx.uc_stack.ss_sp = fb[i].stack; fb[i].ctx.uc_stack.ss_size = STACK; fb[i].ctx.uc_link = nullptr; fb[i].done = false; fb[i].steps = 0; fb[i].body = f[i]; makecontext(&fb[i].ctx, (void (*)())entry, 1, i); }
	tlsSwap(MAXF, s.first); pool(s.first); cur = s.first; active = true; swapcontext(&mainCtx, &fb[s.first].ctx); active = false; cur = -1; pool(3); u64 t = 0; for (int i = 0; i < nf; i++) t += fb[i].steps; return t;
}
typedef std::vector<u64> Res;
#ifndef VX_MEM
static Res solo(int, std::function<Res()> f) { return f(); }
// Explores every schedule with at most P preemptions; body lists fresh operations, check looks at their results.
static u64 explore(int P, std::function<std::vector<std::function<void()>>()> ops, std::function<u64(const std::string&)> check)
{
	u64 runs = 0; auto one = [&](const Sched& s) { next(); trace(); auto f = ops(); u64 n = runAll(s, f); trans(n); runs++; char d[160]; int k = snprintf(d, sizeof d, "schedule: start %d", s.first); for (int i = 0; i < s.n; i++) k += snprintf(d + k, sizeof d - k, ", at point %llu to %d", (unsigned long long)s.at[i], s.to[i]); vx::out(check(d)); return n; };
	int N = ops().size(); visEnd = visNew = 0; { auto f = ops(); runAll(Sched{}, f); visEnd = 1; for (int i = 0; i < N; i++) { visStride[i] = visEnd; visEnd *= fb[i].steps + 2; } vis.assign(visEnd, 0); visOver = false; }
	for (int first = 0; first < N; first++)
	{
		Sched s{}; s.first = first; u64 total = one(s); std::function<void(int, u64)> rec = [&](int k, u64 from) { for (u64 a = from; a < total; a++) for (int t = 0; t < N; t++) if (t != (k ? s.to[k - 1] : first)) { s.n = k + 1; s.at[k] = a; s.to[k] = t; one(s); if (k + 1 < P) rec(k + 1, a + 1); s.n = k; } };
		if (P > 0) rec(0, 0);
	}
	states(visNew); if (visOver) bound("an operation took more steps than alone: some states not counted");
	return runs;
}
#else
// Memory-access granularity. Each operation first runs alone, twice, in a child process that has not run it before (cold and warm statics), and
// every byte it reads and writes is recorded. Operations without a conflicting byte commute, so that all their interleavings are one
// (Mazurkiewicz) trace and the serial orders decide; otherwise every schedule with switches at the conflicting accesses is run, each in a fresh child.
static bool fewer = false; static Tab* recs[MAXF]; static bool haveRec[MAXF];
static Tab* newTab() { Tab* t = (Tab*)mmap(nullptr, sizeof(Tab), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (t == MAP_FAILED) abort(); return t; }
static void clearTab(Tab* t) { for (u64 i = 0; i < t->n; i++) { t->a[t->used[i]] = 0; t->f[t->used[i]] = 0; } t->n = 0; }
static void childTimer() { struct itimerval tv{}; tv.it_interval.tv_sec = 5; tv.it_value.tv_sec = 5; setitimer(ITIMER_PROF, &tv, 0); }
static Res solo(int i, std::function<Res()> f)
{
	if (!recs[i]) recs[i] = newTab(); clearTab(recs[i]); haveRec[i] = true; static u64* share = nullptr; enum { CAP = 1 << 16 }; if (!share) share = (u64*)mmap(nullptr, CAP * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); share[0] = 0; fflush(stdout);
	int pid = fork(); if (pid < 0) abort(); if (!pid) { childTimer(); rec = recs[i]; recording = true; Res x, y; int n = 0; std::vector<std::function<void()>> ops; for (int k = 0; k < MAXF; k++) ops.push_back([] { }); ops[i] = [&] { Res q = f(); act(false); (n++ ? y : x).swap(q); act(true); }; Sched s{}; s.first = i; runAll(s, ops); runAll(s, ops); recording = false; if (x != y) { next(); fail("alone", "%s: operation %d run alone gives another result the second time", what, i); } share[0] = x.size(); for (size_t k = 0; k < x.size() && k + 1 < CAP; k++) share[k + 1] = x[k]; fflush(stdout); _exit(0); }
	int st; waitpid(pid, &st, 0); Res r; if (share[0] < CAP) r.assign(share + 1, share + 1 + share[0]); return r;
}
static u64 explore(int, std::function<std::vector<std::function<void()>>()> ops, std::function<u64(const std::string&)> check)
{
	auto f = ops(); int N = f.size(); if (!hot) hot = newTab(); clearTab(hot); for (int i = 0; i < N; i++) for (int k = 0; k < N; k++) if (i != k) { Tab* t = recs[i]; for (u64 e = 0; e < t->n; e++) if (u64 q = t->used[e]; t->f[q] & 2) { u64 o = slot(recs[k], t->a[q]); if (recs[k]->a[o]) { u64 h = slot(hot, t->a[q]); if (!hot->a[h]) { hot->a[h] = t->a[q]; hot->used[hot->n++] = h; } } } }
	u64 runs = 0; static u64* steps = nullptr; if (!steps) steps = (u64*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); for (int i = 0; i < N; i++) trans(recs[i]->n);
	auto one = [&](const Sched& s) { next(); trace(); states(); runs++; fflush(stdout); steps[0] = 0; int pid = fork(); if (pid < 0) abort(); if (!pid) { childTimer(); char d[160]; int k = snprintf(d, sizeof d, "schedule: start %d", s.first); for (int i = 0; i < s.n; i++) k += snprintf(d + k, sizeof d - k, ", at shared access %llu to %d", (unsigned long long)s.at[i], s.to[i]); steps[0] = runAll(s, f); steps[1] = check(d); auto f2 = ops(); runAll(s, f2); check(std::string(d) + ", second time"); fflush(stdout); _exit(0); } int st; waitpid(pid, &st, 0); trans(steps[0]); vx::out(steps[1]); return hot->n ? steps[0] : 0; };
	u64 total = 0; for (int first = 0; first < N; first++) { Sched s{}; s.first = first; total = std::max(total, one(s)); } int P = !hot->n ? 0 : total <= 16 ? 3 : total <= 50 ? 2 : 1; if (fewer && P > 1) P--; if (total > 1500) total = 1500;
	for (int first = 0; first < N && P; first++) { Sched s{}; s.first = first; std::function<void(int, u64)> rec1 = [&](int k, u64 from) { for (u64 a = from; a < total; a++) for (int t = 0; t < N; t++) if (t != (k ? s.to[k - 1] : first)) { s.n = k + 1; s.at[k] = a; s.to[k] = t; one(s); if (k + 1 < P) rec1(k + 1, a + 1); s.n = k; } }; rec1(0, 0); }
	return runs;
}
#endif
}
