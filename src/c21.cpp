// C21: the C++ interface against the C interface.
#define VE_OWN_ALLOC
#include "words.hpp"
#include <cppp/reiconv.hpp>
#include <malloc.h>
#include <stdexcept>
#include <system_error>
using namespace ve;
static bool g_track = false; static std::set<void *> *live; static const char *g_misuse = nullptr;
struct Quiet { bool o; Quiet() : o(g_track) { g_track = false; } ~Quiet() { g_track = o; } };
static void *t_malloc(size_t n) { void *p = __real_malloc(n ? n : 1); Quiet q; live->insert(p); return p; }
static void t_free(void *p) { if (!p) return; Quiet q; if (!live->erase(p)) { g_misuse = "a block is released that was not allocated"; return; } __real_free(p); }
extern "C" {
void *__wrap_malloc(size_t n) { return g_track ? t_malloc(n) : __real_malloc(n); }
void *__wrap_calloc(size_t a, size_t b) { if (!g_track) return __real_calloc(a, b); void *p = t_malloc(a * b); memset(p, 0, a * b); return p; }
void __wrap_free(void *p) { if (g_track) t_free(p); else __real_free(p); }
void *__wrap_realloc(void *p, size_t n) { if (!g_track) return __real_realloc(p, n); void *q = t_malloc(n); if (p) { memcpy(q, p, std::min(n, malloc_usable_size(p))); t_free(p); } return q; }
}
void *operator new(size_t n) { return __wrap_malloc(n ? n : 1); }
void *operator new[](size_t n) { return __wrap_malloc(n ? n : 1); }
void operator delete(void *p) noexcept { __wrap_free(p); }
void operator delete[](void *p) noexcept { __wrap_free(p); }
void operator delete(void *p, size_t) noexcept { __wrap_free(p); }
void operator delete[](void *p, size_t) noexcept { __wrap_free(p); }
struct KV { const char *n; int v; };
static const KV consts_cpp[] = {
#include "consts_hpp.inc"
};
struct Track { Track() { g_lib_flag = true; g_track = true; } ~Track() { g_track = false; g_lib_flag = false; } };

// C result: bytes or errno
static bool by_c(reiconv_t cd, const char *in, size_t n, std::string &out, int &err) {
    char *p = nullptr; size_t len = 0; g_lib_flag = true; errno = stale(n + 1); int r = reiconv_convert(cd, in, n, &p, &len); err = errno; g_lib_flag = false; g_calls = g_calls + 1; if (r) return false; out.assign(p ? p : "", len); __real_free(p); return true;
}
static void compare(reiconv_t cd, const reiconv::Encoding &ef, const reiconv::Encoding &et, const std::string &S, const std::string &T, int fl, const std::string &w, bool nonnull = false) {
    size_t n = w.size(); size_t al = n + 8 <= BUF ? shift((const u8 *)w.data(), n) & 7 : 0; memcpy(g_in.rw + BUF - n - al, w.data(), n); const char *in = (const char *)g_in.ro + BUF - n - al; if (n == 0 && !nonnull) in = nullptr;   // an empty view
    std::string want; int err; g_crumb.from = S.c_str(); g_crumb.to = T.c_str(); g_crumb.flags = fl; g_crumb.in = n; g_crumb.what = "reiconv_convert"; bool ok = by_c(cd, in ? in : (const char *)g_in.ro, n, want, err);
    g_crumb.what = "reiconv::convert"; c_trans++; if (!ok || want.find('\0') != std::string::npos) c_nontriv++;
    std::string got; int kind = 0, code = 0; bool syscat = true; size_t before = live->size(); g_misuse = nullptr;
    { Track t; errno = stale(n + 2); try { std::string s = reiconv::convert(ef, et, std::string_view(in, n), (reiconv::ConvertFlag)fl); Quiet q; got = s; } catch (const std::system_error &e) { kind = 1; code = e.code().value(); syscat = e.code().category() == std::system_category() || e.code().category() == std::generic_category(); } catch (const std::exception &e) { kind = 2; } catch (...) { kind = 3; } }
    std::string bad;
    if (g_misuse) bad = g_misuse; else if (live->size() != before) bad = fmt("%zd block(s) leaked", live->size() - before);
    else if (kind >= 2) bad = "an undocumented exception is thrown"; else if (ok && kind) bad = fmt("throws error %d, the C function succeeds", code); else if (!ok && !kind) bad = "returns " + hex(got) + fmt(", the C function fails with errno %d", err); else if (!ok && (code != err || !syscat)) bad = fmt("throws error %d, the C error is %d", code, err); else if (ok && got != want) bad = "returns " + hex(got.substr(0, 100)) + fmt(" (%zu bytes), the C function ", got.size()) + hex(want.substr(0, 100)) + fmt(" (%zu bytes)", want.size());
    live->clear(); if (!bad.empty()) violation("cpp:" + S + ":" + T, fmt("reiconv::convert %s -> %s flags=%d input(%zu) %s: %s", S.c_str(), T.c_str(), fl, n, hex(w.substr(0, 60)).c_str(), bad.c_str()));
}
// kind: 0 built, 1 invalid_argument, 2 other
template <class A> static int make(const A &a, int &idx) { int k = 0; Track t; try { reiconv::Encoding e(a); idx = (int)e; } catch (const std::invalid_argument &) { k = 1; } catch (...) { k = 2; } return k; }
template <class A> static void ctor(const A &a, int want, const std::string &what) {
    int idx = -5; g_misuse = nullptr; live->clear(); g_calls = g_calls + 1; static std::string crumb; crumb = what; g_crumb = {"", "", 0, 0, 0, crumb.c_str(), ""}; int k = make(a, idx); c_trans++;
    if (want >= 0 ? (k != 0 || idx != want) : k != 1) violation("ctor:" + what.substr(0, 60), fmt("%s: %s (index %d), the C lookup gives %d", what.c_str(), k == 0 ? "is built" : k == 1 ? "throws std::invalid_argument" : "throws something else", idx, want));
    if (g_misuse || live->size()) violation("leak:" + what.substr(0, 60), what + ": memory leaked or misused"); live->clear();
}
int main(int argc, char **argv) {
    live = new std::set<void *>;
    return ve_main(argc, argv, [] {
        auto e = encodings(); auto &N = spec().names; size_t budget = opt.thorough ? 20000 : 1200;
        std::vector<std::string> found; for (auto &n : e) if (reiconv_lookup_from_name(n.c_str()) >= 0) found.push_back(n); else violation("open:" + n, "cannot find " + n); e = found;
        pool(e.size() * 3 + 1, [&](size_t i) {
            if (i == 0) {   // a text of more than 2^32 bytes
                if (!selected("UTF32")) return; HugeText h = HugeText::marks(); if (!h.ok) { sh->truncated++; return; } g_plain = true; g_crumb = {"UTF-32", "UTF-8", 0, 0, 0, "reiconv::convert on more than 4 GB", ""}; std::string got; g_lib_flag = true; try { got = reiconv::convert(reiconv::Encoding("UTF-32"), reiconv::Encoding("UTF-8"), std::string_view((char *)h.p, h.n)); } catch (const std::exception &x) { got = x.what(); } g_lib_flag = false; c_trans++; c_states++;
                if (got != "A") violation("cpp:hugein", fmt("reiconv::convert UTF-32 -> UTF-8, marks and one letter in %zu bytes: %s, expected A", h.n, got.substr(0, 100).c_str())); else sample(fmt("reiconv::convert on a text of %zu bytes", h.n)); return; }
            i--; const std::string &n = e[i / 3]; auto d = make_dec(n); reiconv::Encoding en(n); c_states++;
            auto go = [&](const std::string &S, const std::string &T, const std::vector<std::string> &ws) {
                reiconv::Encoding f(S), t(T); for (int fl = 0; fl < 2; fl++) { reiconv_t cd0 = reiconv_open_from_name(S.c_str(), T.c_str(), (ConvertFlag)fl); if (cd0 == (reiconv_t)-1) return; reiconv_handle_close(cd0);
                    for (auto &w : ws) { if (enough() || late()) return; reiconv_t cd = reiconv_open_from_name(S.c_str(), T.c_str(), (ConvertFlag)fl); compare(cd, f, t, S, T, fl, w); if (w.empty()) compare(cd, f, t, S, T, fl, w, true); reiconv_handle_close(cd); } } };
            if (i % 3 == 0) { auto tk = dec_tokens(*d); tk.push_back(std::string(1, 0)); uniq(tk); std::vector<std::string> ws{""}; words(tk, fit_depth(tk.size(), budget, 3), [&](const std::vector<std::string> &w) { ws.push_back(cat(w)); }); std::string lg; for (int k = 0; k < 800; k++) lg += tk[k % tk.size()]; ws.push_back(lg); for (size_t len : {4095, 4096, 4097, 8192, 20000}) { std::string z; while (z.size() < len) z += tk[0]; ws.push_back(z); }
                for (const char *to : {"UCS-4LE", "UTF-8", "ASCII", "ISO-2022-JP", "UTF-16"}) { auto v = ws; if (strcmp(to, "UCS-4LE") && !opt.thorough && v.size() > 250) v.erase(v.begin() + 200, v.end() - 10); go(n, to, v); } for (auto &to : std::set<std::string>{n, "UTF-8", "ISO-8859-1"}) { std::vector<std::string> v{""}; run_texts(*d, [&](const std::string &x) { v.push_back(x); }); go(n, to, v); } sample(fmt("%s: %zu inputs through both interfaces", n.c_str(), ws.size())); }
            else if (i % 3 == 1) { auto t = enc_chars(n); t.push_back(0); std::vector<std::string> ws{""}; words(t, fit_depth(t.size(), budget, 3), [&](const std::vector<u32> &w) { ws.push_back(u32s(w)); }); for (size_t len : {1020, 1024, 1025, 2050, 5000}) ws.push_back(u32s(Cps(len, 'A'))); go("UCS-4LE", n, ws); }
            else { auto tk = dec_tokens(*d); std::vector<std::string> ws; std::string all; for (auto &x : tk) all += x; ws.push_back(tk[0]); ws.push_back(all); for (auto &T : N.order) go(n, T, ws); }
        });
        // constructors
        std::vector<std::string> names; for (auto &kv : N.of) names.push_back(kv.first); size_t ch = 64;
        pool(ch, [&](size_t c) {
            for (size_t i = c; i < names.size(); i += ch) { const std::string &n = names[i]; for (auto s : {n, n + "x", "x" + n, n.substr(1), n.substr(0, n.size() - 1), "-" + n + "_"}) { for (auto &v : {s, [&] { std::string l = s; for (auto &x : l) if (x >= 'A' && x <= 'Z') x += 32; return l; }()}) { int w = reiconv_lookup_from_name(v.c_str()); ctor(v.c_str(), w, "Encoding(\"" + v + "\")"); ctor(v, w, "Encoding(std::string \"" + v + "\")"); } } }
            for (int p = -70000 + (int)c; p < 200000; p += ch) ctor(p, reiconv_lookup_from_codepage(p), fmt("Encoding(%d)", p)); c_states++;
            if (c == 0) {
                for (int p : {(int)0x80000000, 0x7fffffff, 1 << 20, -(1 << 20)}) ctor(p, reiconv_lookup_from_codepage(p), fmt("Encoding(%d)", p));
                for (auto &k : consts_cpp) { std::string want = N.constant[k.n]; int w = reiconv_lookup_from_name(want.c_str()); if (k.v == -2) continue; int idx = -5; int kd = make((reiconv::encoding::Encodings)k.v, idx); if (kd || idx != w) violation(std::string("const:") + k.n, fmt("Encoding(Encodings::%s) is %d, %s is %d", k.n, idx, want.c_str(), w)); live->clear(); c_trans++; }
            }
            // equality, over all ways of naming two encodings
            for (size_t a = c; a < N.order.size(); a += ch) for (auto &bn : N.order) { if (reiconv_lookup_from_name(N.order[a].c_str()) < 0 || reiconv_lookup_from_name(bn.c_str()) < 0) continue; reiconv::Encoding x(N.order[a]), y(bn); bool eq = N.order[a] == bn; c_trans++; if ((x == y) != eq || (x != y) == eq) violation("eq:" + N.order[a], N.order[a] + (eq ? " is not equal to itself" : " equals " + bn)); for (auto &cpp : N.codepage) if (cpp.second == bn && a % 8 == 0 && reiconv_lookup_from_codepage(cpp.first) >= 0) { reiconv::Encoding z(cpp.first); if ((x == z) != eq) violation("eq:" + N.order[a], fmt("%s == code page %d is wrong", N.order[a].c_str(), cpp.first)); } }
        });
        sample("constructors from every documented name and its neighbours, every code page from -70000 to 200000, every constant; equality of all pairs");
    });
}
