// Replays a schedule found by the executor on the real build: harness and sources are compiled with -fsanitize=thread (calls before
// every memory access and atomic operation) but linked with this file instead of the TSan runtime. One thread runs at a time; at every
// synchronisation operation the next thread is taken from the recorded schedule. Unsynchronised accesses are found with vector clocks.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <pthread.h>
#include <semaphore.h>
#include <string>
#include <unistd.h>
#include <vector>
#include <dlfcn.h>
#include <time.h>
namespace {
enum Kind { NONE, LOCK, JOIN, WAIT, OTHER };
struct T { sem_t go; bool done = false, notified = false; Kind k = NONE; const void *a = nullptr, *b = nullptr; std::map<int, int> vc; pthread_t real{}; void *ret = nullptr; void *(*fn)(void *) = nullptr; void *arg = nullptr; };
T *th[64]; int nth = 0, cur = 0; size_t pos = 0; std::vector<int> plan; int off = 0;   // off: inside this file
std::map<const void *, int> owner; std::map<const void *, std::map<int, int>> mvc, avc;
struct Cell { int w = -1, wc = 0; std::map<int, int> rd; };
std::map<uintptr_t, Cell> *shadow;
thread_local int self = 0;
bool multi() { return nth > 1; }
void init() { if (!nth) { th[0] = new T; sem_init(&th[0]->go, 0, 0); th[0]->vc[0] = 1; nth = 1; shadow = new std::map<uintptr_t, Cell>; } }
void die(const char *w, int rc) { printf("FAIL %s\n", w); fflush(stdout); _exit(rc); }
bool enabled(int k) { T &t = *th[k]; if (t.done) return false; switch (t.k) { case LOCK: return !owner.count(t.a); case JOIN: return th[(intptr_t)t.a]->done; case WAIT: return t.notified && !owner.count(t.b); default: return true; } }
void schedule(bool mine = true) { // hand the turn to the next thread of the schedule
    std::vector<int> en; for (int k = 0; k < nth; k++) if (enabled(k)) en.push_back(k);
    if (en.empty()) die("deadlock: no thread can make progress", 5);
    int pick = -1; while (pick < 0 && pos < plan.size()) { int p = plan[pos++]; for (int e : en) if (e == p) pick = p; if (pick < 0) break; }
    static const char *rs = getenv("SCHED_RANDOM"); static uint64_t rng = rs ? strtoull(rs, nullptr, 10) * 2654435761u + 1 : 0;
    if (pick < 0 && rs) { rng = rng * 6364136223846793005ull + 1442695040888963407ull; pick = en[(rng >> 33) % en.size()]; }
    if (pick < 0) { pick = en[0]; for (int e : en) if (e == cur) pick = e; }
    int me = self; cur = pick; if (pick == me) return;
    sem_post(&th[pick]->go); if (mine) sem_wait(&th[me]->go);
}
void acq(std::map<int, int> &m) { auto &v = th[self]->vc; for (auto &p : m) if (v[p.first] < p.second) v[p.first] = p.second; }
void rel(std::map<int, int> &m) { auto &v = th[self]->vc; for (auto &p : v) if (m[p.first] < p.second) m[p.first] = p.second; v[self]++; }
void point(Kind k, const void *a = nullptr, const void *b = nullptr) { if (!multi()) return; T &t = *th[self]; t.k = k; t.a = a; t.b = b; schedule(); t.k = NONE; }
void access(uintptr_t a, size_t n, bool wr) {
    if (off || !nth || !multi()) return; char here; uintptr_t sp = (uintptr_t)&here; if (a > sp - 65536 && a < sp + 65536) return;  // own stack
    off++; auto &vc = th[self]->vc;
    for (uintptr_t x = a; x < a + n; x++) { Cell &c = (*shadow)[x];
        if (c.w >= 0 && c.w != self && c.wc > vc[c.w]) die("data race", 66);
        if (wr) { for (auto &r : c.rd) if (r.first != self && r.second > vc[r.first]) die("data race", 66); c.w = self; c.wc = vc[self]; c.rd.clear(); } else c.rd[self] = vc[self]; }
    off--;
}
void *entry(void *p) { T *t = (T *)p; for (int k = 0; k < nth; k++) if (th[k] == t) self = k; sem_wait(&t->go); t->ret = t->fn(t->arg); t->done = true; t->vc[self]++; schedule(false); return t->ret; }
}
void sched_plan(const char *s) { while (*s) { plan.push_back((int)strtol(s, (char **)&s, 10)); if (*s == ',') s++; } }
void sched_release(void *p, size_t n) { if (shadow) { off++; auto i = shadow->lower_bound((uintptr_t)p); while (i != shadow->end() && i->first < (uintptr_t)p + n) i = shadow->erase(i); off--; } }
void *operator new(size_t n) { void *p = malloc(n ? n : 1); if (multi() && !off) sched_release(p, n); return p; }
void *operator new[](size_t n) { return operator new(n); }
void operator delete(void *p) noexcept { free(p); } void operator delete(void *p, size_t) noexcept { free(p); } void operator delete[](void *p) noexcept { free(p); } void operator delete[](void *p, size_t) noexcept { free(p); }
extern "C" {
int pthread_mutex_lock(pthread_mutex_t *m) { init(); off++; if (multi()) point(LOCK, m); else if (owner.count(m)) die("deadlock: mutex locked twice", 5); owner[m] = self; acq(mvc[m]); off--; return 0; }
int pthread_mutex_trylock(pthread_mutex_t *m) { init(); off++; point(OTHER, m); int r = 16; if (!owner.count(m)) { owner[m] = self; acq(mvc[m]); r = 0; } off--; return r; }
int pthread_mutex_unlock(pthread_mutex_t *m) { init(); off++; if (!owner.count(m) || owner[m] != self) die("unlock of a mutex not held", 1); owner.erase(m); rel(mvc[m]); off--; return 0; }
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { init(); off++; if (!multi()) die("deadlock: wait with no other thread", 5); point(OTHER, c); owner.erase(m); rel(mvc[m]); th[self]->notified = false; point(WAIT, c, m); owner[m] = self; acq(mvc[m]); off--; return 0; }
static int notify(pthread_cond_t *c, bool all) { init(); off++; point(OTHER, c); for (int k = 0; k < nth; k++) if (th[k]->k == WAIT && th[k]->a == c && !th[k]->notified) { th[k]->notified = true; if (!all) break; } off--; return 0; }
int pthread_cond_broadcast(pthread_cond_t *c) { return notify(c, true); }
int pthread_cond_signal(pthread_cond_t *c) { return notify(c, false); }
int pthread_cond_destroy(pthread_cond_t *) { return 0; }
int pthread_create(pthread_t *out, const pthread_attr_t *a, void *(*fn)(void *), void *arg) {
    static auto real = (int (*)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *))dlsym(RTLD_NEXT, "pthread_create");
    init(); off++; T *t = new T; sem_init(&t->go, 0, 0); t->fn = fn; t->arg = arg; t->vc = th[self]->vc; t->vc[nth] = 1; th[self]->vc[self]++; th[nth] = t; nth++; int r = real(&t->real, a, entry, t); *out = t->real; schedule(); off--; return r;
}
int pthread_join(pthread_t p, void **r) { init(); off++; int k = -1; for (int i = 0; i < nth; i++) if (i && pthread_equal(th[i]->real, p)) k = i; if (k < 0) die("join of an unknown thread", 1); if (k == self) die("thread joins itself", 5); point(JOIN, (void *)(intptr_t)k); acq(th[k]->vc); if (r) *r = th[k]->ret; off--; return 0; }
int pthread_detach(pthread_t) { return 0; }
int sched_yield() { init(); off++; point(OTHER); off--; return 0; }
int nanosleep(const struct timespec *, struct timespec *) { return sched_yield(); }
int clock_nanosleep(clockid_t, int, const struct timespec *, struct timespec *) { return sched_yield(); }
void __tsan_init() {} void __tsan_func_entry(void *) {} void __tsan_func_exit() {}
void __tsan_vptr_update(void **p, void *) { access((uintptr_t)p, 8, true); } void __tsan_vptr_read(void **p) { access((uintptr_t)p, 8, false); }
void __tsan_read_range(void *p, size_t n) { access((uintptr_t)p, n, false); } void __tsan_write_range(void *p, size_t n) { access((uintptr_t)p, n, true); }
#define RW(n) void __tsan_read##n(void *p) { access((uintptr_t)p, n, false); } void __tsan_write##n(void *p) { access((uintptr_t)p, n, true); } void __tsan_unaligned_read##n(void *p) { access((uintptr_t)p, n, false); } void __tsan_unaligned_write##n(void *p) { access((uintptr_t)p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_atomic_thread_fence(int) {} void __tsan_atomic_signal_fence(int) {}
}
template <class V, class F> static V atomic(volatile V *p, bool a, bool r, F f) { init(); off++; point(OTHER, (const void *)p); V v = f(); if (a) acq(avc[(const void *)p]); if (r) rel(avc[(const void *)p]); off--; return v; }
#define AT(b, V) extern "C" V __tsan_atomic##b##_load(const volatile V *p, int) { return atomic<V>((volatile V *)p, true, false, [&] { return *p; }); } \
    extern "C" void __tsan_atomic##b##_store(volatile V *p, V v, int) { atomic<V>(p, false, true, [&] { return *p = v; }); } \
    extern "C" V __tsan_atomic##b##_exchange(volatile V *p, V v, int) { return atomic<V>(p, true, true, [&] { V o = *p; *p = v; return o; }); } \
    extern "C" V __tsan_atomic##b##_fetch_add(volatile V *p, V v, int) { return atomic<V>(p, true, true, [&] { V o = *p; *p = (V)(o + v); return o; }); } \
    extern "C" V __tsan_atomic##b##_fetch_sub(volatile V *p, V v, int) { return atomic<V>(p, true, true, [&] { V o = *p; *p = (V)(o - v); return o; }); } \
    extern "C" V __tsan_atomic##b##_fetch_and(volatile V *p, V v, int) { return atomic<V>(p, true, true, [&] { V o = *p; *p = (V)(o & v); return o; }); } \
    extern "C" V __tsan_atomic##b##_fetch_or(volatile V *p, V v, int) { return atomic<V>(p, true, true, [&] { V o = *p; *p = (V)(o | v); return o; }); } \
    extern "C" V __tsan_atomic##b##_compare_exchange_val(volatile V *p, V e, V v, int, int) { return atomic<V>(p, true, true, [&] { V o = *p; if (o == e) *p = v; return o; }); } \
    extern "C" int __tsan_atomic##b##_compare_exchange_strong(volatile V *p, V *e, V v, int, int) { return (int)atomic<V>(p, true, true, [&]() -> V { if (*p == *e) { *p = v; return 1; } *e = *p; return 0; }); } \
    extern "C" int __tsan_atomic##b##_compare_exchange_weak(volatile V *p, V *e, V v, int a, int c) { return __tsan_atomic##b##_compare_exchange_strong(p, e, v, a, c); }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
