// A controlled scheduler below the library.  The library is compiled with -fsanitize=thread and linked
// against the callbacks below instead of the sanitizer's runtime, so that every memory access of the
// library is observed.  Threads are real threads (errno and thread_local are what they are), but only
// the one holding the baton runs; it may be exchanged at every access to memory that is shared and
// written.  Shared memory is restored before every execution.
#pragma once
#include "engine.hpp"
#include <condition_variable>
#include <map>
#include <mutex>
#include <pthread.h>
#include <semaphore.h>
#include <set>

extern "C" { extern char __data_start[], _end[]; }
namespace rt {
using namespace ve;
struct Granule { u8 init[8]; };
inline std::map<uintptr_t, Granule> g_written;        // shared granules ever written, with their initial content
inline thread_local int me = -1;                      // thread number inside an execution, -1 otherwise
inline thread_local bool inside = false;              // in a callback or in the harness
inline thread_local uintptr_t stk_lo, stk_hi;
inline bool g_shared_heap = false;                    // the heap of one thread was accessed by another one
inline bool g_new_written = false;                    // a granule was added during this execution
inline std::set<uintptr_t> *g_touched = nullptr;      // written granules accessed (trigger detection)
inline bool g_wrote = false;
// private heaps
struct Heap { u8 *base; size_t used; };
static const size_t HEAP = 1 << 22; inline Heap heaps[3]; inline u8 *hbase;
inline void init() { hbase = (u8 *)mmap(nullptr, HEAP * 3, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); for (int i = 0; i < 3; i++) heaps[i] = {hbase + i * HEAP, 0}; }
inline void *halloc(size_t n) { Heap &h = heaps[me]; size_t need = ((n + 15) & ~(size_t)15) + 16; if (h.used + need > HEAP) return nullptr; u8 *p = h.base + h.used; *(size_t *)p = n; h.used += need; return p + 16; }
inline bool mine(void *p) { return hbase && (u8 *)p >= hbase && (u8 *)p < hbase + 3 * HEAP; }

// ------------------------------------------------------------------ scheduling
// A schedule is a list of (point number, thread to continue with); point numbers count the scheduling
// points of the whole execution.
struct Switch { u64 at; int to; };
struct Sched {
    std::vector<Switch> plan; size_t next = 0; u64 points = 0; int nthr = 0; bool alive[3]; int cur = 0; sem_t sem[3]; sem_t done;
    std::vector<int> who;       // which thread was at each point
    u64 spin = 0;
};
inline Sched S;
inline void hand(int to) { if (to == S.cur) return; int self = me; S.cur = to; sem_post(&S.sem[to]); if (self >= 0) while (sem_wait(&S.sem[self]) == -1) {} }
inline int other(int t) { for (int k = 1; k <= S.nthr; k++) { int o = (t + k) % S.nthr; if (o != t && S.alive[o]) return o; } return t; }
inline void point() {
    u64 p = S.points++; if (S.who.size() < 200000) S.who.push_back(me);
    if (S.next < S.plan.size() && S.plan[S.next].at == p) { int to = S.plan[S.next].to; S.next++; S.spin = 0; if (S.alive[to]) hand(to); return; }
    if (++S.spin > 20000) { S.spin = 0; hand(other(me)); }      // fairness for busy waiting
}
inline void yield() { S.spin = 0; hand(other(me)); }            // blocked: let another thread go on

inline void access(const void *a, size_t n, bool w) {
    if (me < 0 || inside) return; uintptr_t p = (uintptr_t)a;
    if (p >= stk_lo && p < stk_hi) return;
    bool glob = a >= (void *)__data_start && a < (void *)_end, heap = mine((void *)a);
    if (!glob && !heap) return;
    bool foreign = heap && ((u8 *)a - hbase) / HEAP != (size_t)me; if (foreign && !g_shared_heap) { g_shared_heap = true; g_new_written = true; }
    inside = true; bool hot = false;
    for (uintptr_t g = p & ~7ul; g < p + n; g += 8) {
        auto it = g_written.find(g);
        if (it == g_written.end() && w && glob) { Granule x; memcpy(x.init, (void *)g, 8); it = g_written.emplace(g, x).first; g_new_written = true; }
        if (it != g_written.end()) { hot = true; if (g_touched) { g_touched->insert(g); g_wrote |= w; } }
    }
    if (heap && g_shared_heap) hot = true;
    if (hot && S.nthr > 1) point();
    inside = false;
}
inline void restore() { for (auto &g : g_written) memcpy((void *)g.first, g.second.init, 8); for (auto &h : heaps) h.used = 0; }

// ------------------------------------------------------------------ threads
typedef std::function<void()> Body;
inline Body g_body[3]; inline bool g_started = false;
inline void *thread_main(void *v) {
    int id = (int)(long)v; pthread_attr_t at; pthread_getattr_np(pthread_self(), &at); void *sa; size_t sz; pthread_attr_getstack(&at, &sa, &sz); stk_lo = (uintptr_t)sa; stk_hi = stk_lo + sz;
    for (;;) { me = -1; while (sem_wait(&S.sem[id]) == -1) {} me = id; g_body[id](); me = -1; S.alive[id] = false; int o = other(id); if (o == id) sem_post(&S.done); else { S.cur = o; S.spin = 0; sem_post(&S.sem[o]); } }
    return nullptr;
}
inline void start() { if (g_started) return; g_started = true; sem_init(&S.done, 0, 0); for (int i = 0; i < 3; i++) sem_init(&S.sem[i], 0, 0); sigset_t all, old; sigfillset(&all); for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGTRAP}) sigdelset(&all, s); pthread_sigmask(SIG_BLOCK, &all, &old); for (long i = 0; i < 3; i++) { pthread_t t; if (pthread_create(&t, nullptr, thread_main, (void *)i)) { perror("thread"); _exit(3); } pthread_detach(t); } pthread_sigmask(SIG_SETMASK, &old, nullptr); }
// runs the bodies under a schedule from the initial shared state
inline void execute(const std::vector<Body> &b, const std::vector<Switch> &plan) {
    start(); restore(); S.plan = plan; S.next = 0; S.points = 0; S.spin = 0; S.who.clear(); S.nthr = b.size(); for (size_t i = 0; i < b.size(); i++) { g_body[i] = b[i]; S.alive[i] = true; }
    S.cur = 0; g_lib_flag = true; sem_post(&S.sem[0]); while (sem_wait(&S.done) == -1) {} g_lib_flag = false;
}
struct Quiet { bool o; Quiet() : o(inside) { inside = true; } ~Quiet() { inside = o; } };
}  // namespace rt

#define TS_RW(n) \
    void __tsan_read##n(void *a) { rt::access(a, n, false); } void __tsan_write##n(void *a) { rt::access(a, n, true); } \
    void __tsan_read_write##n(void *a) { rt::access(a, n, true); } void __tsan_volatile_read##n(void *a) { rt::access(a, n, false); } void __tsan_volatile_write##n(void *a) { rt::access(a, n, true); } \
    void __tsan_unaligned_read##n(void *a) { rt::access(a, n, false); } void __tsan_unaligned_write##n(void *a) { rt::access(a, n, true); } void __tsan_unaligned_read_write##n(void *a) { rt::access(a, n, true); } \
    void __tsan_unaligned_volatile_read##n(void *a) { rt::access(a, n, false); } void __tsan_unaligned_volatile_write##n(void *a) { rt::access(a, n, true); }
#define TS_AT(b, T) \
    T __tsan_atomic##b##_load(const volatile T *a, int) { rt::access((void *)a, b / 8, false); return *a; } \
    void __tsan_atomic##b##_store(volatile T *a, T v, int) { rt::access((void *)a, b / 8, true); *a = v; } \
    T __tsan_atomic##b##_exchange(volatile T *a, T v, int) { rt::access((void *)a, b / 8, true); T o = *a; *a = v; return o; } \
    T __tsan_atomic##b##_fetch_add(volatile T *a, T v, int) { rt::access((void *)a, b / 8, true); T o = *a; *a = o + v; return o; } \
    T __tsan_atomic##b##_fetch_sub(volatile T *a, T v, int) { rt::access((void *)a, b / 8, true); T o = *a; *a = o - v; return o; } \
    T __tsan_atomic##b##_fetch_and(volatile T *a, T v, int) { rt::access((void *)a, b / 8, true); T o = *a; *a = o & v; return o; } \
    T __tsan_atomic##b##_fetch_or(volatile T *a, T v, int) { rt::access((void *)a, b / 8, true); T o = *a; *a = o | v; return o; } \
    T __tsan_atomic##b##_fetch_xor(volatile T *a, T v, int) { rt::access((void *)a, b / 8, true); T o = *a; *a = o ^ v; return o; } \
    T __tsan_atomic##b##_fetch_nand(volatile T *a, T v, int) { rt::access((void *)a, b / 8, true); T o = *a; *a = ~(o & v); return o; } \
    int __tsan_atomic##b##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { rt::access((void *)a, b / 8, true); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
    int __tsan_atomic##b##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) { rt::access((void *)a, b / 8, true); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
    T __tsan_atomic##b##_compare_exchange_val(volatile T *a, T c, T v, int, int) { rt::access((void *)a, b / 8, true); T o = *a; if (o == c) *a = v; return o; }
extern "C" {
void __tsan_init() {} void __tsan_func_entry(void *) {} void __tsan_func_exit() {} void __tsan_ignore_thread_begin() {} void __tsan_ignore_thread_end() {}
TS_RW(1) TS_RW(2) TS_RW(4) TS_RW(8) TS_RW(16)
void __tsan_vptr_update(void **a, void *) { rt::access(a, 8, true); } void __tsan_vptr_read(void **) {}
void __tsan_read_range(void *a, unsigned long n) { rt::access(a, n, false); } void __tsan_write_range(void *a, unsigned long n) { rt::access(a, n, true); }
void *__tsan_memcpy(void *d, const void *s, size_t n) { rt::access(s, n, false); rt::access(d, n, true); return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { rt::access(s, n, false); rt::access(d, n, true); return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { rt::access(d, n, true); return memset(d, c, n); }
TS_AT(8, unsigned char) TS_AT(16, unsigned short) TS_AT(32, unsigned int) TS_AT(64, unsigned long)
void __tsan_atomic_thread_fence(int) {} void __tsan_atomic_signal_fence(int) {}
// library functions that take pointers
int __real_memcmp(const void *, const void *, size_t); int __wrap_memcmp(const void *a, const void *b, size_t n) { rt::access(a, n, false); rt::access(b, n, false); return __real_memcmp(a, b, n); }
int __real_strcmp(const char *, const char *); int __wrap_strcmp(const char *a, const char *b) { if (rt::me >= 0) { rt::access(a, strlen(a) + 1, false); rt::access(b, strlen(b) + 1, false); } return __real_strcmp(a, b); }
int __real_strncmp(const char *, const char *, size_t); int __wrap_strncmp(const char *a, const char *b, size_t n) { if (rt::me >= 0) { rt::access(a, strnlen(a, n), false); rt::access(b, strnlen(b, n), false); } return __real_strncmp(a, b, n); }
size_t __real_strlen(const char *); size_t __wrap_strlen(const char *a) { if (rt::me >= 0 && !rt::inside) rt::access(a, __real_strlen(a) + 1, false); return __real_strlen(a); }
char *__real_strcpy(char *, const char *); char *__wrap_strcpy(char *d, const char *s) { if (rt::me >= 0) { size_t n = __real_strlen(s) + 1; rt::access(s, n, false); rt::access(d, n, true); } return __real_strcpy(d, s); }
char *__real_strncpy(char *, const char *, size_t); char *__wrap_strncpy(char *d, const char *s, size_t n) { if (rt::me >= 0) { rt::access(s, strnlen(s, n), false); rt::access(d, n, true); } return __real_strncpy(d, s, n); }
// locks
int __real_pthread_mutex_lock(pthread_mutex_t *); int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { if (rt::me < 0) return __real_pthread_mutex_lock(m); if (rt::S.nthr > 1) { rt::Quiet q; rt::point(); } int r; while ((r = pthread_mutex_trylock(m)) == EBUSY) rt::yield(); return r; }
int __real_pthread_mutex_unlock(pthread_mutex_t *); int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { int r = __real_pthread_mutex_unlock(m); if (rt::me >= 0 && rt::S.nthr > 1) { rt::Quiet q; rt::point(); } return r; }
int __real_pthread_once(pthread_once_t *, void (*)(void)); int __wrap_pthread_once(pthread_once_t *o, void (*f)(void)) {
    if (rt::me < 0) return __real_pthread_once(o, f); rt::access(o, sizeof *o, true); volatile int *st = (volatile int *)o; for (;;) { if (*st == 77) return 0; if (*st == 76) { rt::yield(); continue; } *st = 76; f(); rt::access(o, sizeof *o, true); *st = 77; return 0; } }
void __real_call_once(int *, void (*)(void)); void __wrap_call_once(int *o, void (*f)(void)) { __wrap_pthread_once((pthread_once_t *)o, f); }
int __real___cxa_guard_acquire(char *); int __wrap___cxa_guard_acquire(char *g) { if (rt::me < 0) return __real___cxa_guard_acquire(g); rt::access(g, 8, true); for (;;) { if (g[0]) return 0; if (g[1] == 7) { rt::yield(); continue; } g[1] = 7; return 1; } }
void __real___cxa_guard_release(char *); void __wrap___cxa_guard_release(char *g) { if (rt::me < 0) { __real___cxa_guard_release(g); return; } rt::access(g, 8, true); g[1] = 0; g[0] = 1; }
void __real___cxa_guard_abort(char *); void __wrap___cxa_guard_abort(char *g) { if (rt::me < 0) { __real___cxa_guard_abort(g); return; } rt::access(g, 8, true); g[1] = 0; }
// heap
void *__wrap_malloc(size_t n) { return rt::me >= 0 && !rt::inside ? rt::halloc(n) : ve::g_arena ? ve::arena_alloc(n) : __real_malloc(n); }
void *__wrap_calloc(size_t a, size_t b) { if ((rt::me < 0 || rt::inside) && !ve::g_arena) return __real_calloc(a, b); void *p = __wrap_malloc(a * b); if (p) memset(p, 0, a * b); return p; }
void __wrap_free(void *p) { if (rt::mine(p) || ve::in_arena(p)) return; __real_free(p); }
void *__wrap_realloc(void *p, size_t n) { if (!rt::mine(p) && !ve::in_arena(p) && (rt::me < 0 || rt::inside) && !ve::g_arena) return __real_realloc(p, n); void *q = __wrap_malloc(n); if (q && p) { size_t o = rt::mine(p) || ve::in_arena(p) ? *(size_t *)((char *)p - 16) : n; memcpy(q, p, o < n ? o : n); __wrap_free(p); } return q; }
}
void *operator new(size_t n) { void *p = __wrap_malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n) { void *p = __wrap_malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void *p) noexcept { __wrap_free(p); }
void operator delete[](void *p) noexcept { __wrap_free(p); }
void operator delete(void *p, size_t) noexcept { __wrap_free(p); }
void operator delete[](void *p, size_t) noexcept { __wrap_free(p); }
