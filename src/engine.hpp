// Exploration engine: runs the real library under a controlled allocator so that a descriptor's
// complete state can be saved, compared and restored, with guarded buffers around every call,
// a crash/hang monitor, and a pool of worker processes.
#pragma once
#include <array>
#include <atomic>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdarg>
#include <functional>
#include <new>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <tuple>
#include <unistd.h>
#include "model.hpp"
#include <cppp/reiconv.h>

namespace ve {
using namespace vm;

// ---------------------------------------------------------------- controlled allocator
struct Arena { u8 *base = nullptr; size_t used = 0; };
static const size_t ARENA_CAP = 1 << 18;
inline thread_local Arena *g_arena = nullptr;
inline u8 *g_region = nullptr; inline size_t g_region_n = 0; inline const size_t REGION_MAX = 64;
inline bool in_arena(void *p) { return g_region && (u8 *)p >= g_region && (u8 *)p < g_region + REGION_MAX * ARENA_CAP; }
inline const size_t LIVE = 0x4c495645;      // second word of a block's header: not freed
inline void *arena_alloc(size_t n) {
    size_t need = ((n + 15) & ~(size_t)15) + 16;
    if (g_arena->used + need > ARENA_CAP) return nullptr;
    u8 *p = g_arena->base + g_arena->used; ((size_t *)p)[0] = n; ((size_t *)p)[1] = LIVE; g_arena->used += need; return p + 16;
}
}  // namespace ve
extern "C" {
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
#ifndef VE_OWN_ALLOC
void *__wrap_malloc(size_t n) { return ve::g_arena ? ve::arena_alloc(n) : __real_malloc(n); }
void *__wrap_calloc(size_t a, size_t b) { if (!ve::g_arena) return __real_calloc(a, b); void *p = ve::arena_alloc(a * b); if (p) memset(p, 0, a * b); return p; }
void __wrap_free(void *p) {
    if (!ve::in_arena(p)) { __real_free(p); return; }
    unsigned char *b = (unsigned char *)p - 16; ((size_t *)b)[1] = 0; size_t need = ((*(size_t *)b + 15) & ~(size_t)15) + 16;
    if (ve::g_arena && b + need == ve::g_arena->base + ve::g_arena->used) { ve::g_arena->used -= need; memset(b, 0xCB, need); }
}
void *__wrap_realloc(void *p, size_t n) {
    if (!ve::g_arena && !ve::in_arena(p)) return __real_realloc(p, n);
    void *q = __wrap_malloc(n); if (q && p) { size_t o = ve::in_arena(p) ? *(size_t *)((unsigned char *)p - 16) : n; memcpy(q, p, o < n ? o : n); __wrap_free(p); } return q;
}
#endif
}
#ifndef VE_OWN_ALLOC
void *operator new(size_t n) { void *p = __wrap_malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n) { void *p = __wrap_malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void *p) noexcept { __wrap_free(p); }
void operator delete[](void *p) noexcept { __wrap_free(p); }
void operator delete(void *p, size_t) noexcept { __wrap_free(p); }
void operator delete[](void *p, size_t) noexcept { __wrap_free(p); }
#endif

namespace ve {
// ---------------------------------------------------------------- options, shared results
struct Opt { std::string specdir, tier = "quick"; double deadline = 600; int jobs = 8; bool thorough = false; std::string only; };
inline Opt opt;
inline double now() { using namespace std::chrono; return duration<double>(steady_clock::now().time_since_epoch()).count(); }
inline double t0 = now();
inline bool selected(const std::string &n) { return opt.only.empty() || ("," + opt.only + ",").find("," + n + ",") != std::string::npos; }
inline bool late() { return now() - t0 > opt.deadline; }

struct Shared {
    std::atomic<u64> next, states, transitions, evals, nontrivial, calls, truncated, unconfirmed;
    std::atomic<int> nviol, nsamp;
    char viol[64][4096]; char samp[64][512]; std::atomic<int> known_hit[256];
};
inline std::vector<std::string> g_known;    // keys of recorded findings
inline Shared *sh = nullptr;
inline u64 c_states, c_trans, c_evals, c_nontriv;     // local counters
inline volatile u64 g_calls;
inline void publish() { sh->states += c_states; sh->transitions += c_trans; sh->evals += c_evals; sh->nontrivial += c_nontriv; sh->calls += g_calls; c_states = c_trans = c_evals = c_nontriv = 0; g_calls = 0; }

inline std::string hex(const void *p, size_t n) { std::string s; char b[4]; for (size_t i = 0; i < n; i++) { snprintf(b, 4, "%02x", ((const u8 *)p)[i]); s += b; } return s; }
inline std::string hex(const std::string &s) { return hex(s.data(), s.size()); }
inline std::string cps(const Cps &v, size_t max = 40) { std::string s; char b[16]; for (size_t i = 0; i < v.size() && i < max; i++) { snprintf(b, 16, "%sU+%04X", s.empty() ? "" : " ", v[i]); s += b; } if (v.size() > max) s += " ..."; return s; }
inline std::string esc(const std::string &s) { std::string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; }
inline std::string fmt(const char *f, ...) { char b[3000]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }

inline void violation(const std::string &key, const std::string &what) {
    for (size_t k = 0; k < g_known.size() && k < 256; k++) if (g_known[k] == key) { sh->known_hit[k] = 1; return; }
    int i = sh->nviol.fetch_add(1); if (i >= 64) return;
    snprintf(sh->viol[i], sizeof sh->viol[i], "{\"key\": \"%s\", \"what\": \"%s\"}", esc(key).substr(0, 300).c_str(), esc(what.substr(0, 1200)).c_str());
}
inline bool enough() { return sh->nviol.load(std::memory_order_relaxed) >= 12; }
inline void sample(const std::string &s) { int i = sh->nsamp.fetch_add(1); if (i < 64) snprintf(sh->samp[i], sizeof sh->samp[i], "%s", s.substr(0, 400).c_str()); }

// ---------------------------------------------------------------- guarded buffers
static const size_t BUF = 1 << 19;
struct Guarded { u8 *rw = nullptr, *ro = nullptr; };   // BUF bytes each, followed and preceded by an inaccessible page
inline Guarded g_in, g_out;
inline void map_buffers() {
    long pg = sysconf(_SC_PAGESIZE);
    auto mk = [&](Guarded &g, bool alias) {
        int fd = memfd_create("buf", 0); if (fd < 0 || ftruncate(fd, BUF)) { perror("memfd"); exit(3); }
        auto one = [&](int prot) { u8 *b = (u8 *)mmap(nullptr, BUF + 2 * pg, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); void *m = mmap(b + pg, BUF, prot, MAP_SHARED | MAP_FIXED, fd, 0); if (m == MAP_FAILED) { perror("mmap"); exit(3); } return (u8 *)m; };
        g.rw = one(PROT_READ | PROT_WRITE); g.ro = alias ? one(PROT_READ) : g.rw; close(fd); };
    mk(g_in, true); mk(g_out, false);
}

// ---------------------------------------------------------------- descriptors
struct Res { bool ok; int err; size_t ret, used, outn; u8 *out; bool acct; };
struct Snap { std::string mem; size_t xn = 0; bool operator<(const Snap &o) const { return mem < o.mem; } bool operator==(const Snap &o) const { return mem == o.mem; } };
inline std::vector<int> g_free_slots, g_held_slots;      // held: the library still keeps a closed descriptor's memory
#include "conv_size.inc"
inline bool g_plain = false;   // use the real allocator (no snapshots): for confirming a failure
struct Crumb { const char *from, *to; int flags; size_t in, cap; const char *what; std::string path; };
inline Crumb g_crumb{"", "", 0, 0, 0, "", ""};
// errno before a call: whatever earlier calls left there must not matter (a function of the call, so replays agree)
// alignment of input (low 3 bits) and output (next 3 bits) of a call, a function of the input so that replays agree; one third of the calls keep the exact ends
inline unsigned shift(const u8 *in, size_t n) { if (!n) return 0; unsigned h = (unsigned)n * 37 + in[0] * 11 + in[n - 1] * 23 + in[n / 2] * 3; return h % 3 ? (h / 3) & 63 : 0; }
inline int stale(size_t k) { static const int e[] = {0, ENOENT, E2BIG, 0, EILSEQ, EINVAL, ENOMEM}; return e[k % 7]; }
struct Desc {
    reiconv_t cd = (reiconv_t)-1; Arena a; int slot = -1; std::string from, to; int flags = 0; bool isopen = false;
    u8 *xb = nullptr; size_t xn = 0;     // the descriptor itself, where the library did not allocate it in this call (a pool, a cache of closed ones)
    Desc() {}
    Desc(const std::string &f, const std::string &t, int fl = 0) { if (!open(f, t, fl)) violation("open:" + f + ":" + t, "cannot open " + f + " -> " + t); }
    Desc(const Desc &) = delete;
    ~Desc() { close(); }
    bool open(const std::string &f, const std::string &t, int fl = 0) {
        close();
        take();
        from = f; to = t; flags = fl;
        g_crumb = {from.c_str(), to.c_str(), fl, 0, 0, "open", ""};
        g_arena = g_plain ? nullptr : &a; g_calls = g_calls + 1; cd = reiconv_open_from_name(f.c_str(), t.c_str(), (ConvertFlag)fl); g_arena = nullptr;
        isopen = cd != (reiconv_t)-1; adopt();
        return isopen;
    }
    void take() {
        if (slot < 0) { if (g_free_slots.empty() && !g_held_slots.empty()) { g_free_slots.push_back(g_held_slots.front()); g_held_slots.erase(g_held_slots.begin()); } if (g_free_slots.empty()) { fprintf(stderr, "out of arenas\n"); exit(3); } slot = g_free_slots.back(); g_free_slots.pop_back(); a.base = g_region + slot * ARENA_CAP; memset(a.base, 0xCB, 4096); }
        else memset(a.base, 0xCB, a.used);
        a.used = 0; xn = 0;
    }
    void adopt() {
        xn = 0; if (!isopen || g_plain || ((u8 *)cd >= a.base && (u8 *)cd < a.base + ARENA_CAP)) return;
        xb = (u8 *)cd; xn = in_arena(cd) ? ((size_t *)cd)[-2] : VE_CONV_SIZE; if (xn == 0 || xn > 4096) { fprintf(stderr, "descriptor of unknown size\n"); exit(3); }
    }
    bool at(const Snap &s) const { return a.used + xn == s.mem.size() && memcmp(a.base, s.mem.data(), a.used) == 0 && (!xn || memcmp(xb, s.mem.data() + a.used, xn) == 0); }
    void close() {
        bool own = isopen && !g_plain && xn == 0; if (isopen) { g_arena = g_plain ? nullptr : &a; reiconv_handle_close(cd); g_arena = nullptr; isopen = false; }
        if (slot >= 0) { if (own && ((size_t *)cd)[-1] == LIVE) g_held_slots.push_back(slot); else { memset(a.base, 0xCB, a.used); g_free_slots.push_back(slot); } a.used = 0; slot = -1; }
        xn = 0;
    }
    Snap save() const { Snap s{std::string((const char *)a.base, a.used)}; if (xn) { s.mem.append((const char *)xb, xn); s.xn = xn; } return s; }
    void load(const Snap &s) {
        if (s.xn != xn) {   // from a descriptor that was kept elsewhere: only the descriptor itself
            if (xn) { a.used = 0; memcpy(xb, s.mem.data() + 16, std::min(xn, s.mem.size() - 16)); } else memcpy(cd, s.mem.data() + s.mem.size() - s.xn, s.xn);
            return;
        }
        a.used = s.mem.size() - xn; memcpy(a.base, s.mem.data(), a.used); if (xn) memcpy(xb, s.mem.data() + a.used, xn); }
    Res conv(const u8 *in, size_t n, size_t cap) {
        size_t sh = n + 8 <= BUF ? shift(in, n) & 7 : 0; u8 *w = g_in.rw + BUF - n - sh; memmove(w, in, n); return conv_at(g_in.ro + BUF - n - sh, n, cap);
    }
    Res conv(const std::string &s, size_t cap) { return conv((const u8 *)s.data(), s.size(), cap); }
    Res conv_at(const u8 *in, size_t n, size_t cap) {
        Res r; char *ip = (char *)in; size_t il = n; u8 *ob = g_out.rw + BUF - cap - (cap >= 64 && cap + 8 <= BUF ? shift(in, n) >> 3 : 0); char *op = (char *)ob; size_t ol = cap;
        g_crumb.from = from.c_str(); g_crumb.to = to.c_str(); g_crumb.flags = flags; g_crumb.in = n; g_crumb.cap = cap; g_crumb.what = "convert";
        g_calls = g_calls + 1; g_arena = g_plain ? nullptr : &a; errno = stale(n + cap);
        r.ret = reiconv_iconv(cd, &ip, &il, &op, &ol);
        r.err = r.ret == (size_t)-1 ? errno : 0; g_arena = nullptr; r.ok = r.ret != (size_t)-1;
        r.used = ip - (char *)in; r.outn = op - (char *)ob; r.out = ob;
        r.acct = r.used <= n && r.outn <= cap && il == n - r.used && ol == cap - r.outn;
        if (r.used > n || r.outn > cap) { violation("acct", fmt("%s -> %s: pointers out of range: consumed %zd of %zu, wrote %zd of %zu; input %s", from.c_str(), to.c_str(), r.used, n, r.outn, cap, hex(in, n).c_str())); r.used = std::min(r.used, n); r.outn = std::min(r.outn, cap); }
        return r;
    }
    Res flush(size_t cap, int form = 0) {   // form 1: a pointer to a null pointer instead of no input pointer
        Res r; u8 *ob = g_out.rw + BUF - cap; char *op = (char *)ob; size_t ol = cap;
        g_crumb.from = from.c_str(); g_crumb.to = to.c_str(); g_crumb.flags = flags; g_crumb.in = 0; g_crumb.cap = cap; g_crumb.what = "flush";
        g_calls = g_calls + 1; g_arena = g_plain ? nullptr : &a; errno = stale(cap);
        char *no = nullptr; size_t left = 7; r.ret = reiconv_iconv(cd, form ? &no : nullptr, form ? &left : nullptr, &op, &ol);
        r.err = r.ret == (size_t)-1 ? errno : 0; g_arena = nullptr; r.ok = r.ret != (size_t)-1; r.used = 0; r.outn = op - (char *)ob; r.out = ob;
        r.acct = r.outn <= cap && ol == cap - r.outn;
        if (r.outn > cap) { violation("acct", fmt("%s -> %s: flush wrote %zd of %zu", from.c_str(), to.c_str(), r.outn, cap)); r.outn = 0; }
        return r;
    }
    size_t reset(int form = 0) { g_crumb.from = from.c_str(); g_crumb.to = to.c_str(); g_crumb.what = "reset"; g_calls = g_calls + 1; g_arena = g_plain ? nullptr : &a; char *no = nullptr, *non = nullptr; size_t left = 0, room = 9; size_t r = reiconv_iconv(cd, form & 1 ? &no : nullptr, form & 1 ? &left : nullptr, form & 2 ? &non : nullptr, form & 2 ? &room : nullptr); g_arena = nullptr; return r; }
};
// an error is reported again when the rest of the input is presented again, and nothing moves
inline std::string again(Desc &d, const u8 *in, size_t n, const Res &r) { if (r.ok || (r.err != EILSEQ && r.err != EINVAL) || r.used > n) return ""; int err = r.err; size_t used = r.used; Res q = d.conv(in + used, n - used, 256); if (q.err == err && q.used == 0 && q.outn == 0) return ""; return fmt("the error at %zu is not reported again when the rest is presented again: %s, %zu consumed, %zu written", used, q.ok ? "accepted" : "another error", q.used, q.outn); }
inline std::string str(const Res &r) { return std::string((const char *)r.out, r.outn); }
inline void cps_of(const Res &r, Cps &v) { for (size_t i = 0; i + 4 <= r.outn; i += 4) v.push_back(r.out[i] | r.out[i + 1] << 8 | r.out[i + 2] << 16 | (u32)r.out[i + 3] << 24); if (r.outn % 4) v.push_back(0xDEADBEEF); }
inline std::string u32s(const Cps &v) { std::string s; for (u32 c : v) for (int i = 0; i < 4; i++) s += (char)(c >> (8 * i)); return s; }
inline const char *ename(int e) { return e == 0 ? "ok" : e == EILSEQ ? "EILSEQ" : e == EINVAL ? "EINVAL" : e == E2BIG ? "E2BIG" : e == ENOMEM ? "ENOMEM" : "other"; }
inline std::string show(const Res &r) { return fmt("%s ret=%zd used=%zu out=%zu:%s", ename(r.err), r.ret, r.used, r.outn, hex(r.out, std::min<size_t>(r.outn, 64)).c_str()); }
inline const char *UCS4 = "UCS-4LE";

// ---------------------------------------------------------------- monitor
inline u64 g_last_calls = ~0ull; inline int g_stuck = 0;
inline volatile bool g_lib_flag = false;
inline bool g_in_lib() { return g_arena != nullptr || g_lib_flag; }
inline void fatal(const char *what) {
    size_t n = std::min<size_t>(g_crumb.in, 64);
    violation(std::string("crash:") + g_crumb.from + ":" + g_crumb.to, fmt("%s in %s of %s -> %s flags=%d, output capacity %zu, input(%zu) %s%s%s", what, g_crumb.what, g_crumb.from, g_crumb.to, g_crumb.flags, g_crumb.cap, g_crumb.in, hex(g_in.ro + BUF - g_crumb.in, n).c_str(), g_crumb.path.empty() ? "" : " after ", g_crumb.path.c_str()));
    publish(); _exit(0);
}
inline void on_sig(int s) {
    if (s == SIGALRM) { if (g_in_lib() && g_calls == g_last_calls) { if (++g_stuck >= 8) fatal("endless loop"); } else g_stuck = 0; g_last_calls = g_calls; return; }
    if (!g_in_lib()) { static bool again = false; if (again) _exit(4); again = true; fatal("memory was damaged, the process crashed behind the call:"); }
    fatal(s == SIGSEGV ? "invalid memory access (SIGSEGV)" : s == SIGABRT ? "abort" : s == SIGFPE ? "arithmetic trap" : s == SIGBUS ? "invalid memory access (SIGBUS)" : "fatal signal");
}
inline void monitor() {
    static u8 stk[1 << 16]; stack_t ss{}; ss.ss_sp = stk; ss.ss_size = sizeof stk; sigaltstack(&ss, nullptr);
    struct sigaction sa{}; sa.sa_handler = on_sig; sa.sa_flags = SA_ONSTACK;
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGTRAP}) sigaction(s, &sa, nullptr);
    sa.sa_flags |= SA_RESTART; sigaction(SIGALRM, &sa, nullptr);
    itimerval it{{5, 0}, {5, 0}}; setitimer(ITIMER_REAL, &it, nullptr);
}

// Runs f(i) for i in [0,n) in a pool of processes.
inline void pool(size_t n, const std::function<void(size_t)> &f) {
    sh->next = 0; publish(); fflush(stdout);
    std::vector<pid_t> kids;
    for (int j = 0; j < opt.jobs; j++) {
        pid_t p = fork();
        if (p == 0) {
            map_buffers(); monitor();
            for (;;) { size_t i = sh->next.fetch_add(1); if (i >= n || enough()) break; if (late()) { sh->truncated++; continue; } f(i); publish(); }
            _exit(0);
        }
        kids.push_back(p);
    }
    for (pid_t p : kids) { int st; waitpid(p, &st, 0); if (WIFSIGNALED(st) || WEXITSTATUS(st) != 0) { fprintf(stderr, "worker ended with status %x\n", st); if (WIFSIGNALED(st) || WEXITSTATUS(st) == 4) violation("worker", "worker process died"); else if (!sh->nviol) exit(3); } }
}
// Runs f in a child with real malloc; true if it reports a mismatch (or dies).
inline bool in_child(const std::function<bool()> &f) {
    pid_t p = fork(); if (p == 0) { for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) signal(s, SIG_DFL); signal(SIGALRM, SIG_DFL); alarm(60); g_plain = true; _exit(f() ? 1 : 0); }
    int st; waitpid(p, &st, 0); return !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
}

inline int ve_main(int argc, char **argv, const std::function<void()> &body) {
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i]; auto nxt = [&] { return std::string(argv[++i]); };
        if (a == "--spec") opt.specdir = nxt(); else if (a == "--tier") opt.tier = nxt(); else if (a == "--deadline") opt.deadline = atof(nxt().c_str()); else if (a == "--jobs") opt.jobs = atoi(nxt().c_str()); else if (a == "--only") opt.only = nxt(); else if (a == "--known") g_known.push_back(nxt());
    }
    opt.thorough = opt.tier == "thorough";
    g_region = (u8 *)mmap(nullptr, REGION_MAX * ARENA_CAP, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    for (int i = REGION_MAX - 1; i >= 0; i--) g_free_slots.push_back(i);
    sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    load_spec(opt.specdir); map_buffers();
    body(); publish();
    printf("{\"states\": %lu, \"transitions\": %lu, \"evaluations\": %lu, \"nontrivial\": %lu, \"calls\": %lu, \"truncated\": %lu, \"violations\": [", (u64)sh->states, (u64)sh->transitions, (u64)sh->evals, (u64)sh->nontrivial, (u64)sh->calls, (u64)sh->truncated);
    for (int i = 0; i < sh->nviol && i < 64; i++) printf("%s%s", i ? ", " : "", sh->viol[i]);
    printf("], \"known\": [");
    { bool f = true; for (size_t k = 0; k < g_known.size() && k < 256; k++) if (sh->known_hit[k]) { printf("%s\"%s\"", f ? "" : ", ", esc(g_known[k]).c_str()); f = false; } }
    printf("], \"samples\": [");
    for (int i = 0; i < sh->nsamp && i < 12; i++) printf("%s\"%s\"", i ? ", " : "", esc(sh->samp[i]).c_str());
    printf("]}\n");
    return 0;
}
// Periodic texts: every single item and every ordered pair of items (up to a limit) repeated, and all items in
// turn; calls f(indices).  Long enough that 8- and 16-bit counters inside a call or a descriptor wrap.
inline void periodic(size_t items, size_t big, const std::function<void(const std::vector<size_t> &)> &f) {
    if (!items) return; std::vector<size_t> v;
    auto rep = [&](std::vector<size_t> p, size_t n) { v.clear(); while (v.size() < n) v.push_back(p[v.size() % p.size()]); f(v); };
    std::vector<size_t> all; for (size_t i = 0; i < items; i++) all.push_back(i);
    for (size_t i = 0; i < items && !enough(); i++) { rep({i}, 300); for (size_t j = 0; j < items && items <= 24; j++) if (j != i) rep({i, j}, opt.thorough ? 530 : 270); if (opt.thorough || i < 3) rep({i}, big); }
    rep(all, 700); rep(all, big); rep({items - 1}, big); rep({items - 1, 0}, big);
    // one item at every distance in a run of another one (block-wise fast paths): the run goes on behind it, or not
    for (size_t b = 0; b < std::min<size_t>(items, 2); b++) for (size_t j = 0; j < items && !enough(); j++) if (j != b)
        for (size_t l = 0; l <= 300; l += b ? 5 : l < 72 || (l > 120 && l < 136) || (l > 248 && l < 264) ? 1 : 7) for (size_t t : {0, 72}) { v.assign(l, b); v.push_back(j); v.insert(v.end(), t, b); f(v); }
}
inline std::vector<std::string> encodings() {
    std::vector<std::string> v; for (auto &n : spec().names.order) if (selected(n)) v.push_back(n); return v;
}
// a huge text that is quickly read: one token again and again, then another
struct HugeText {
    static constexpr size_t B = 12 << 20; u8 *p = nullptr; size_t all = 0, n = 0; bool ok = false;   // B: a multiple of 2, 3, 4 and the page size
    HugeText(const std::string &tok, const std::string &fin, size_t atleast) {
        size_t L = tok.size(), blocks = atleast / B + 2; if (B % L) return; all = B * blocks; n = all - B + fin.size();
        int f1 = memfd_create("big", 0), f2 = memfd_create("end", 0); if (f1 < 0 || f2 < 0 || ftruncate(f1, B) || ftruncate(f2, B)) return; p = (u8 *)mmap(nullptr, all, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) { p = nullptr; return; }
        for (int f : {f1, f2}) { u8 *w = (u8 *)mmap(nullptr, B, PROT_READ | PROT_WRITE, MAP_SHARED, f, 0); if (w == MAP_FAILED) return; if (f == f1) for (size_t i = 0; i < B; i += L) memcpy(w + i, tok.data(), L); else memcpy(w, fin.data(), fin.size()); munmap(w, B); }
        for (size_t k = 0; k < blocks; k++) if (mmap(p + k * B, B, PROT_READ, MAP_SHARED | MAP_FIXED, k + 1 < blocks ? f1 : f2, 0) == MAP_FAILED) return; close(f1); close(f2); ok = true; itimerval off{}; setitimer(ITIMER_REAL, &off, nullptr);
    }
    ~HugeText() { if (p) munmap(p, all); }
    static HugeText marks() { return HugeText(std::string("\0\0\xfe\xff", 4), std::string("\0\0\0A", 4), 1ull << 32); }   // UTF-32
};
// streaming: consumes everything and writes exactly this
inline void huge_stream(const std::string &f, const std::string &t, const std::string &tok, const std::string &fin, size_t atleast, const std::string &want) {
    HugeText h(tok, fin, atleast); if (!h.ok) { sh->truncated++; return; } static std::string F, T; F = f; T = t; g_crumb = {F.c_str(), T.c_str(), 0, 0, 64, "conversion of a huge text", ""}; bool pl = g_plain; g_plain = true; g_lib_flag = true;
    reiconv_t cd = reiconv_open_from_name(f.c_str(), t.c_str(), REICONV_NO_FLAGS); if (cd == (reiconv_t)-1) { g_lib_flag = false; g_plain = pl; return; } char o[64]; char *ip = (char *)h.p, *op = o; size_t il = h.n, ol = sizeof o; errno = 0; size_t r = reiconv_iconv(cd, &ip, &il, &op, &ol); int e = errno; reiconv_handle_close(cd); g_lib_flag = false; g_plain = pl; c_trans++; c_states++; g_calls = g_calls + 1;
    if (r != 0 || il || std::string(o, op - o) != want) violation("huge:" + f, fmt("%s -> %s: %s repeated over %zu bytes and then %s: returns %zd (errno %d), %zu bytes not consumed, writes %s, expected %s", f.c_str(), t.c_str(), hex(tok).c_str(), h.n, hex(fin).c_str(), r, e, il, hex(o, op - o).c_str(), hex(want).c_str())); else sample(fmt("%s: %s repeated over %zu bytes", f.c_str(), hex(tok).c_str(), h.n));
}
}  // namespace ve
