// C19: allocation failures.  All sequences of API operations up to a depth; every single allocation,
// every pair and every "from here on" set of allocations made to fail.
#define VE_OWN_ALLOC
#include "words.hpp"
#include <cppp/reiconv.hpp>
#include <stdexcept>
#include <system_error>
using namespace ve;
static bool g_track = false; static u64 g_n = 0, g_failed = 0; static u64 f1, f2, ffrom; static const char *g_misuse = nullptr;
static struct { void *p; size_t n; } live[256]; static int nlive = 0;
static bool fails() { g_n++; bool f = g_n == f1 || g_n == f2 || g_n >= ffrom; if (f) g_failed++; return f; }
static void note(void *p, size_t n) { if (p) { if (nlive == 256) { fprintf(stderr, "too many blocks\n"); _exit(3); } live[nlive++] = {p, n}; } }
static int find(void *p) { for (int i = 0; i < nlive; i++) if (live[i].p == p) return i; return -1; }
static void *t_malloc(size_t n) { if (fails()) { errno = ENOMEM; return nullptr; } void *p = __real_malloc(n ? n : 1); memset(p, 0xCB, n); note(p, n); return p; }
static void t_free(void *p) { if (!p) return; int i = find(p); if (i < 0) { g_misuse = "a block is released that is not allocated"; return; } memset(p, 0xDD, live[i].n); live[i] = live[--nlive]; __real_free(p); }
extern "C" {
void *__wrap_malloc(size_t n) { return g_track ? t_malloc(n) : __real_malloc(n); }
void *__wrap_calloc(size_t a, size_t b) { if (!g_track) return __real_calloc(a, b); void *p = t_malloc(a * b); if (p) memset(p, 0, a * b); return p; }
void __wrap_free(void *p) { if (g_track || find(p) >= 0) t_free(p); else __real_free(p); }
void *__wrap_realloc(void *p, size_t n) {
    if (!g_track) return __real_realloc(p, n); if (!p) return t_malloc(n); int i = find(p); if (i < 0) { g_misuse = "a block is resized that is not allocated"; return nullptr; }
    if (n == 0) { t_free(p); return nullptr; } size_t o = live[i].n; void *q = t_malloc(n); if (!q) return nullptr; memcpy(q, p, std::min(o, n)); t_free(p); return q;    // always moves
}
}
void *operator new(size_t n) { void *p = __wrap_malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n) { void *p = __wrap_malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void *p) noexcept { __wrap_free(p); }
void operator delete[](void *p) noexcept { __wrap_free(p); }
void operator delete(void *p, size_t) noexcept { __wrap_free(p); }
void operator delete[](void *p, size_t) noexcept { __wrap_free(p); }

struct Track { Track() { g_track = true; g_lib_flag = true; } ~Track() { g_track = false; g_lib_flag = false; } };
struct Cfg { std::string S, T, text; int fl, is, it, cs, ct; };
enum Op { O_NAME, O_INDEX, O_CP, O_ICONV, O_BAD, R_SIZE, R_STATIC, R_CONVERT, R_STREAM, R_CLOSE, P_CONVERT, P_NAME, P_BADNAME, P_BADCP, NOPS };
static const char *ON[] = {"open_from_name", "open_from_index", "open_from_codepage", "reiconv_open", "open unknown name", "result_size", "convert_static_size", "convert", "iconv", "close", "C++ convert", "C++ Encoding(name)", "C++ Encoding(unknown name)", "C++ Encoding(unknown code page)"};
struct World { reiconv_t cd = (reiconv_t)-1; char *buf = nullptr; size_t len = 0; };
struct Out { int kind = 0; int err = 0; char val[64] = ""; u64 h = 0; size_t n = 0; bool operator==(const Out &o) const { return kind == o.kind && err == o.err && h == o.h && n == o.n; } };   // kind: 0 ok, 1 error code, 2 bad_alloc, 3 system_error, 4 invalid_argument, 5 other exception
static u64 fnv(const char *p, size_t n) { u64 h = 1469598103934665603ull; for (size_t i = 0; i < n; i++) h = (h ^ (u8)p[i]) * 1099511628211ull; return h; }
static char g_obuf[200000];
static Out perform(World &w, Op op, const Cfg &c) {
    Out o; char *in = (char *)c.text.data(); size_t n = c.text.size(); g_crumb.what = ON[op]; g_calls = g_calls + 1; Track t; errno = 0;
    auto opened = [&](reiconv_t r) { if (r == (reiconv_t)-1) { o.kind = 1; o.err = errno; } else w.cd = r; };
    try {
        switch (op) {
        case O_NAME: opened(reiconv_open_from_name(c.S.c_str(), c.T.c_str(), (ConvertFlag)c.fl)); break;
        case O_INDEX: opened(reiconv_open_from_index(c.is, c.it, (ConvertFlag)c.fl)); break;
        case O_CP: opened(reiconv_open_from_codepage(c.cs, c.ct, (ConvertFlag)c.fl)); break;
        case O_ICONV: opened(reiconv_open(c.T.c_str(), c.S.c_str())); break;
        case O_BAD: { reiconv_t r = reiconv_open_from_name("no such", c.T.c_str(), REICONV_NO_FLAGS); if (r == (reiconv_t)-1) { o.kind = 1; o.err = errno; } else reiconv_handle_close(r); break; }
        case R_SIZE: { size_t r = reiconv_result_size(w.cd, in, n); if (r == (size_t)-1) { o.kind = 1; o.err = errno; } o.n = r; break; }
        case R_STATIC: { memset(g_obuf, 0, 64); int r = reiconv_convert_static_size(w.cd, in, n, g_obuf, sizeof g_obuf / 2); if (r) { o.kind = 1; o.err = errno; } else o.h = fnv(g_obuf, 64); break; }
        case R_CONVERT: { size_t l = w.len; int r = reiconv_convert(w.cd, in, n, &w.buf, &l); if (r) { o.kind = 1; o.err = errno; } else { w.len = l; o.n = l; o.h = fnv(w.buf, l); } break; }
        case R_STREAM: { char *ip = in, *op2 = g_obuf; size_t il = n, ol = sizeof g_obuf / 2; size_t r = reiconv_iconv(w.cd, &ip, &il, &op2, &ol); if (r == (size_t)-1) { o.kind = 1; o.err = errno; } o.n = op2 - g_obuf; r = reiconv_iconv(w.cd, nullptr, nullptr, &op2, &ol); o.h = fnv(g_obuf, op2 - g_obuf); reiconv_iconv(w.cd, nullptr, nullptr, nullptr, nullptr); break; }
        case R_CLOSE: { int r = reiconv_handle_close(w.cd); w.cd = (reiconv_t)-1; if (r) { o.kind = 1; o.err = errno; } break; }
        case P_CONVERT: { std::string s = reiconv::convert(reiconv::Encoding(c.S.c_str()), reiconv::Encoding(c.T.c_str()), std::string_view(in, n), (reiconv::ConvertFlag)c.fl); o.n = s.size(); o.h = fnv(s.data(), s.size()); break; }
        case P_NAME: { reiconv::Encoding e(c.S.c_str()); o.n = (int)e; break; }
        case P_BADNAME: { reiconv::Encoding e("no such encoding"); o.n = (int)e; break; }
        case P_BADCP: { reiconv::Encoding e(-77); o.n = (int)e; break; }
        default: break;
        }
    } catch (const std::bad_alloc &) { o.kind = 2; } catch (const std::system_error &e) { o.kind = 3; o.err = e.code().value(); } catch (const std::invalid_argument &) { o.kind = 4; } catch (...) { o.kind = 5; }
    return o;
}
static bool needs_cd(Op o) { return o >= R_SIZE && o <= R_CLOSE; }
static bool opens(Op o) { return o <= O_ICONV; }
// runs the script; returns a complaint
static std::string script(const std::vector<Op> &s, const Cfg &c, u64 a, u64 b, u64 from, std::vector<Out> *expect, bool record, u64 *total) {
    World w; f1 = a; f2 = b; ffrom = from; g_n = 0; g_misuse = nullptr; std::string bad; int base = nlive;
    for (size_t i = 0; i < s.size() && bad.empty(); i++) {
        char save[256]; size_t sl = std::min<size_t>(w.len, 256); if (w.buf) memcpy(save, w.buf, sl); char *p0 = w.buf; size_t l0 = w.len; g_failed = 0; int before = nlive;
        Out o = perform(w, s[i], c); u64 failed = g_failed;
        if (g_misuse) { bad = fmt("%s: %s", ON[s[i]], g_misuse); break; }
        if (record) { expect->push_back(o); continue; }
        const Out &x = (*expect)[i];
        if (o == x) continue;      // same as without failure (also fine if an allocation failed: the call coped)
        if (!failed) { bad = fmt("step %zu (%s) differs from the run without failures: kind %d errno %d, expected kind %d errno %d", i + 1, ON[s[i]], o.kind, o.err, x.kind, x.err); break; }
        bool cpp = s[i] >= P_CONVERT;
        if (cpp ? !(o.kind == 2 || (o.kind == 3 && o.err == ENOMEM)) : !(o.kind == 1 && o.err == ENOMEM)) { bad = fmt("step %zu (%s): an allocation failed, but the call reports kind %d errno %d", i + 1, ON[s[i]], o.kind, o.err); break; }
        if (s[i] == R_CONVERT && p0 && (w.buf != p0 || find(p0) < 0 || memcmp(save, p0, sl))) { bad = fmt("step %zu (%s): the caller's buffer is lost or changed after the failure", i + 1, ON[s[i]]); w.buf = nullptr; break; }
        if (s[i] == R_CONVERT && !p0 && w.buf && find(w.buf) < 0) { bad = "the caller is given a dangling buffer after the failure"; w.buf = nullptr; break; }
        if (nlive > before + (s[i] == R_CONVERT && w.buf && !p0 ? 1 : 0)) { bad = fmt("step %zu (%s): %d block(s) leaked by the failing call", i + 1, ON[s[i]], nlive - before); break; }
        // and again, now with memory
        u64 sa = f1, sb = f2, sf = ffrom; f1 = f2 = 0; ffrom = ~0ull; Out r = perform(w, s[i], c); f1 = sa; f2 = sb; ffrom = sf;
        if (!(r == x)) { bad = fmt("step %zu (%s): repeated after the failure it gives kind %d errno %d, expected kind %d errno %d", i + 1, ON[s[i]], r.kind, r.err, x.kind, x.err); break; }
    }
    f1 = f2 = 0; ffrom = ~0ull; if (total) *total = g_n;
    { Track t; if (bad.empty() && w.cd != (reiconv_t)-1) reiconv_handle_close(w.cd); if (bad.empty()) free(w.buf); }
    if (bad.empty() && g_misuse) bad = g_misuse; if (bad.empty() && nlive != base) bad = fmt("%d block(s) never released", nlive - base);
    while (nlive > base) { __real_free(live[--nlive].p); } return bad;
}
int main(int argc, char **argv) {
    return ve_main(argc, argv, [] {
        auto e = encodings(); auto &N = spec().names; std::map<std::string, int> cp; for (auto &k : N.codepage) if (!cp.count(k.second)) cp[k.second] = k.first;
        std::vector<Cfg> cfgs; std::vector<int> deep;
        auto add = [&](const std::string &S, const std::string &T, const std::string &text, int fl, bool dp) { Cfg c{S, T, text, fl, reiconv_lookup_from_name(S.c_str()), reiconv_lookup_from_name(T.c_str()), -1, -1}; auto cs = cp.find(N.of[canon(S)]), ct = cp.find(N.of[canon(T)]); if (cs != cp.end() && ct != cp.end()) { c.cs = cs->second; c.ct = ct->second; } if (c.is < 0 || c.it < 0) return; cfgs.push_back(c); deep.push_back(dp); };
        std::string lng(4300, 'x');
        for (int fl = 0; fl < 2; fl++) { add("UTF-8", "UTF-16", "hello, world: \xe2\x82\xac and more", fl, true); add("UTF-8", "ISO-2022-JP", lng, fl, true); add("UTF-8", "ASCII", "bad \xff\xff and \xe2\x82\xac unencodable, long", fl, true); add("CP1255", "UTF-8", "", fl, true); add("UTF-8", "UTF-7", "\xe2\x82", fl, true); }
        for (auto &n : e) { auto d = make_dec(n); std::string t; auto tk = dec_tokens(*d, true); for (auto &x : tk) t += x; t += t.substr(0, 8); add(n, "UTF-8", t, 0, false); add(n, "UTF-16", t, 1, false); std::string u; for (u32 ch : enc_chars(n, 1, false)) for (int k = 0; k < 4; k++) u += u32s({ch}); add("UCS-4LE", n, u, 0, false); u += u32s({0xd800, 0x1f600}); add("UCS-4LE", n, u, 1, false); add(n, n, t, 0, false); }
        pool(cfgs.size(), [&](size_t i) {
            const Cfg &c = cfgs[i]; size_t depth = opt.thorough ? (deep[i] ? 5 : 4) : deep[i] ? 4 : 3; std::vector<Op> s; g_crumb.from = c.S.c_str(); g_crumb.to = c.T.c_str(); g_crumb.flags = c.fl; g_crumb.in = 0;
            std::function<void(bool, size_t)> go = [&](bool open, size_t left) {
                if (enough()) return; if (late()) { sh->truncated++; return; }
                if (!s.empty()) {
                    std::vector<Out> ex; u64 n; std::string bad = script(s, c, 0, 0, ~0ull, &ex, true, &n); c_states++; c_trans++;
                    auto tell = [&](const std::string &b, const std::string &f) { std::string q; for (Op o : s) q += std::string(ON[o]) + "; "; violation("alloc:" + std::string(ON[s.back()]), fmt("%s -> %s flags=%d text %s: [%s] with %s: %s", c.S.c_str(), c.T.c_str(), c.fl, hex(c.text.substr(0, 30)).c_str(), q.c_str(), f.c_str(), b.c_str())); };
                    if (!bad.empty()) { tell(bad, "no failure"); return; }
                    // (fault points beyond n can appear when a call is repeated; they are reached through the longer scripts)
                    for (u64 a = 1; a <= n && !enough(); a++) { bad = script(s, c, a, 0, ~0ull, &ex, false, nullptr); c_trans++; c_nontriv++; if (!bad.empty()) tell(bad, fmt("allocation %lu failing", a)); bad = script(s, c, 0, 0, a, &ex, false, nullptr); c_trans++; if (!bad.empty()) tell(bad, fmt("all allocations from %lu on failing", a)); for (u64 b = a + 1; b <= n + 1 && !enough(); b++) { bad = script(s, c, a, b, ~0ull, &ex, false, nullptr); c_trans++; if (!bad.empty()) tell(bad, fmt("allocations %lu and %lu failing", a, b)); } }
                }
                if (!left) return;
                for (int k = 0; k < NOPS; k++) { Op o = (Op)k; if (opens(o) == open && (opens(o) || needs_cd(o))) continue; if (opens(o) && open) continue; if (o == O_CP && c.cs < 0) continue; s.push_back(o); go(opens(o) ? true : o == R_CLOSE ? false : open, left - 1); s.pop_back(); }
            };
            go(false, depth); if (i < 6) sample(fmt("%s -> %s flags=%d: all operation sequences up to depth %zu, every single, pair and tail of failing allocations", c.S.c_str(), c.T.c_str(), c.fl, depth));
        });
    });
}
