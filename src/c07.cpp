// C07: memory safety and accounting.  The library is built with AddressSanitizer and bounds checks;
// input and output are exact ranges surrounded by poisoned memory.
#define VE_OWN_ALLOC
#include "words.hpp"
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>
using namespace ve;
static const size_t MEM = 1 << 17, PAD = 64;
alignas(64) static u8 ibuf[MEM], obuf[MEM]; static size_t ilast, olast;
static u8 *IN = ibuf + 4096, *OUT = obuf + 4096;
static void place(const std::string &s) { unsigned h = shift((const u8 *)s.data(), s.size()); IN = ibuf + 4096 + (h & 7); OUT = obuf + 4096 + (h >> 3); }   // alignment varies
static std::string lo(std::string s) { for (auto &c : s) if (c >= 65 && c <= 90) c += 32; return s; }
static std::string g_hist; static std::string g_input;
static void death() {
    g_crumb.path = g_hist; static bool once = false; if (once) _exit(0); once = true;
    violation(std::string("memory:") + g_crumb.from + ":" + g_crumb.to, fmt("invalid memory access or undefined behaviour in %s of %s -> %s flags=%d, room %zu, input(%zu) %s after [%s]", g_crumb.what, g_crumb.from, g_crumb.to, g_crumb.flags, g_crumb.cap, g_crumb.in, hex(IN, std::min<size_t>(g_crumb.in, 64)).c_str(), g_hist.c_str()));
    publish(); _exit(0);
}
static void expose(u8 *base, size_t n, size_t &last) {   // exactly [base, base+n) is accessible
    size_t m = std::max(n, last); __asan_poison_memory_region(base - PAD, m + 2 * PAD); if (n) __asan_unpoison_memory_region(base, n); last = n;
}
struct MD {
    reiconv_t cd = (reiconv_t)-1; std::string f, t; int fl;
    MD(const std::string &a, const std::string &b, int x = 0) : f(a), t(b), fl(x) { g_crumb = {f.c_str(), t.c_str(), fl, 0, 0, "open", ""}; cd = reiconv_open_from_name(f.c_str(), t.c_str(), (ConvertFlag)fl); if (!ok()) violation("open:" + f, "cannot open " + f + " -> " + t); }
    ~MD() { if (ok()) reiconv_handle_close(cd); }
    bool ok() const { return cd != (reiconv_t)-1; }
    void bad(const std::string &what) { violation("acct:" + f + ":" + t, fmt("%s -> %s flags=%d room %zu input %s after [%s]: %s", f.c_str(), t.c_str(), fl, g_crumb.cap, hex(g_input.substr(0, 60)).c_str(), g_hist.c_str(), what.c_str())); }
    size_t used, outn; int err;
    void conv(const std::string &s, size_t cap) {
        g_crumb.from = f.c_str(); g_crumb.to = t.c_str(); g_crumb.flags = fl; g_crumb.what = "convert"; place(s); size_t n = s.size(); g_crumb.in = n; g_crumb.cap = cap; __asan_unpoison_memory_region(IN, n); memcpy(IN, s.data(), n); expose(IN, n, ilast); expose(OUT, cap, olast); c_trans++; g_calls = g_calls + 1;
        char *ip = (char *)IN, *op = (char *)OUT; size_t il = n, ol = cap; errno = stale(n + cap); size_t r = reiconv_iconv(cd, &ip, &il, &op, &ol); err = r == (size_t)-1 ? errno : 0;
        used = ip - (char *)IN; outn = op - (char *)OUT; g_input = s;
        if (used > n || outn > cap) { bad(fmt("pointers out of range: consumed %zd of %zu, wrote %zd of %zu", used, n, outn, cap)); used = outn = 0; }
        else if (il != n - used || ol != cap - outn) bad(fmt("counts and pointers disagree: consumed %zu, %zu of %zu left; wrote %zu, %zu of %zu left", used, il, n, outn, ol, cap));
        else if (memcmp(IN, s.data(), n)) bad("the input was modified");
        else if (err && err != EILSEQ && err != EINVAL && err != E2BIG) bad(fmt("errno %d", err));
    }
    void flush(size_t cap) { g_crumb.from = f.c_str(); g_crumb.to = t.c_str(); g_crumb.flags = fl; g_crumb.what = "flush"; g_crumb.in = 0; g_crumb.cap = cap; expose(OUT, cap, olast); c_trans++; g_calls = g_calls + 1; char *op = (char *)OUT; size_t ol = cap; errno = 0; size_t r = reiconv_iconv(cd, nullptr, nullptr, &op, &ol); err = r == (size_t)-1 ? errno : 0; outn = op - (char *)OUT; g_input = "(flush)"; if (outn > cap) bad(fmt("flush wrote %zd of %zu", outn, cap)); else if (ol != cap - outn) bad("flush: count and pointer disagree"); }
    void reset() { reiconv_iconv(cd, nullptr, nullptr, nullptr, nullptr); }
    void whole(const std::string &s) {   // the whole-string functions on the same memory
        g_crumb.what = "reiconv_result_size"; place(s); size_t n = s.size(); g_crumb.in = n; __asan_unpoison_memory_region(IN, n); memcpy(IN, s.data(), n); expose(IN, n, ilast); c_trans++; g_calls = g_calls + 1; size_t r = reiconv_result_size(cd, (char *)IN, n); if (r == (size_t)-1) r = 4; if (r > 60000) { bad("absurd size"); return; }
        g_crumb.what = "reiconv_convert_static_size"; for (size_t c : {r, r ? r - 1 : 0, (size_t)0, (size_t)1, r / 2}) { g_crumb.cap = c; expose(OUT, c, olast); reiconv_convert_static_size(cd, (char *)IN, n, (char *)OUT, c); }
        g_crumb.what = "reiconv_convert"; char *p = nullptr; size_t l; reiconv_convert(cd, (char *)IN, n, &p, &l); free(p);
    }
};
int main(int argc, char **argv) {
    g_plain = true;
    return ve_main(argc, argv, [] {
        expose(IN, 13, ilast); if (!__asan_address_is_poisoned(IN + 13) || !__asan_address_is_poisoned(IN - 1) || __asan_address_is_poisoned(IN + 12)) { fprintf(stderr, "poisoning does not work\n"); _exit(3); }
        auto e = encodings(); auto wt = [](const std::string &n) { auto c = spec().set(n); return is_stateful(n) ? 1000000 : is_unicode(n) || is_escape(n) ? 500000 : c ? (int)c->ents.size() : 0; };
        std::stable_sort(e.begin(), e.end(), [&](auto &a, auto &b) { return wt(a) > wt(b); });
        pool(e.size() * 4, [&](size_t i) {
            __sanitizer_set_death_callback(death); g_lib_flag = true; g_hist = "";
            const std::string &n = e[i / 4]; auto d = make_dec(n); c_states++;
            if (i % 4 == 0) {   // every token from every shift state, output exactly fitting, too small, discarded
                std::vector<std::string> pre{""}; auto sft = d->shifts(); for (auto &x : sft) pre.push_back(x); if (is_stateful(n)) for (auto &x : sft) for (auto &y : sft) pre.push_back(x + y); if (n == "UTF7") pre = {"", "+", "+AG", "+AOkA", "+2D0"}; if (d->comp) { for (auto &t : dec_tokens(*d)) pre.push_back(t); }
                std::set<std::pair<u64, u32>> done; Gen g(*d, false); u64 tot = 0;
                for (auto &p : pre) {
                    DState st; Cps o; Run r = run(*d, st, (const u8 *)p.data(), p.size(), o); if (r.end != DONE && r.end != INC) continue; if (!done.insert({r.s.st, r.s.pend}).second) continue; g_hist = hex(p);
                    MD m(n, UCS4), q(n, UCS4, 1), v(n, "UTF-16"); if (!m.ok() || !q.ok() || !v.ok()) return; u64 cnt = 0; c_states++;
                    g.gen(r.s.st, [&](const std::string &x, K k) {
                        if (enough() || late()) return; cnt++; tot++; bool heavy = cnt > 60000; 
                        auto start = [&](MD &z) { z.reset(); if (!p.empty()) { std::string h = g_hist; z.conv(p, 400); } };
                        start(m); m.conv(x, 64); m.flush(16);
                        if (!heavy || cnt % 32 == 0) { start(m); m.conv(x, 4); m.flush(0); if (cnt % 4 == 0) { start(m); m.conv(x, 0); m.flush(3); start(m); m.conv(x, 3); m.flush(4); start(v); v.conv(x, 2); v.flush(1); start(v); v.conv(x, 4); } start(q); q.conv(x, 64); if (x.size() < 6) { q.conv(x + "\xff", 3); q.flush(8); } }
                    });
                }
                sample(fmt("%s: %lu inputs from %zu states on poisoned memory", n.c_str(), tot, done.size()));
            } else if (i % 4 == 1) {  // every code point, out-of-range values, after each kind of character
                auto t = enc_chars(n); std::vector<Cps> hist{{}}; for (u32 c : t) hist.push_back({c}); if (is_stateful(n)) for (u32 a : t) for (u32 b : t) if (hist.size() < (opt.thorough ? 300 : 60)) hist.push_back({a, b});
                bool first = true;
                for (auto &h : hist) {
                    if (enough()) return; if (late()) { sh->truncated++; return; } MD m(UCS4, n), q(UCS4, n, 1); if (!m.ok() || !q.ok()) return; std::string hs = u32s(h); g_hist = cps(h);
                    auto one = [&](u32 c) { std::string s = u32s({c}); auto start = [&](MD &z) { z.reset(); if (!hs.empty()) z.conv(hs, 200); }; start(m); m.conv(s, 64); size_t w = m.outn; m.flush(16); if (w > 0 || c < 0x100) { start(m); m.conv(s, w ? w - 1 : 0); m.conv(s, 1); m.flush(m.outn & 3); start(m); m.conv(s, w); m.flush(0); m.flush(2); if (first || c % 16 == 0) for (size_t k = 0; k + 1 < w; k++) { start(m); m.conv(s, k); m.flush(k); } } if (first || (c & 31) == 3) { start(q); q.conv(s + s, 5); q.flush(1); } };
                    for (u32 c = 0; c < 0x110000; c++) { if (!first && c >= 0x3000 && c % (opt.thorough ? 7 : 53)) continue; if (c >= 0x30000 && c % (first && opt.thorough ? 1 : 61) && (c < 0xe0000 || c > 0xe0100)) continue; one(c); }
                    for (u32 c = 0; c < 32; c++) for (u32 b : {0u, 0x41u, 0x4e00u, 0xd800u, 0xfffdu}) { one(b | 1u << c); one(b | 0xffffffffu << c); } one(0x7fffffff); one(0xffffffff);
                    first = false;
                }
            } else if (i % 4 == 2) {  // words of any tokens, all room sizes, several targets, whole-string functions
                auto t = dec_tokens(*d); size_t dep = fit_depth(t.size(), opt.thorough ? 30000 : 1200, 3);
                for (const char *to : {"UCS-4LE", "UTF-8", "ISO-2022-JP-2", "EUC-JISX0213", "UTF-7", "JAVA", "GB18030"}) for (int fl = 0; fl < 2; fl++) { MD m(n, to, fl); if (!m.ok()) return;
                    words(t, strcmp(to, "UCS-4LE") ? std::min<size_t>(dep, 2) : dep, [&](const std::vector<std::string> &w) { if (enough()) return; std::string s = cat(w); if (s.size() > 80) return; m.reset(); g_hist = ""; m.conv(s, 600); size_t o = m.outn; m.flush(64); for (size_t c = 0; c <= o && c < 24; c++) { m.reset(); m.conv(s, c); if (m.err == E2BIG) { std::string rest = s.substr(m.used); g_hist = fmt("room %zu: ", c) + hex(s); m.conv(rest, c); g_hist = ""; } m.flush(c % 5); } m.reset(); m.whole(s); m.reset(); }); }
                // runs (blocks handled at once): an item at every distance in a run of another, with ample, exact and less room
                std::string A = "A"; if (!is_stateful(n)) { A = ""; EncModel em(n); EState es; es.first = false; em.one(es, 'A', A); } auto tv = dec_tokens(*d, true); std::vector<std::string> base; if (!A.empty()) base.push_back(A); for (auto &x : tv) if (base.size() < (opt.thorough ? 12 : 5)) base.push_back(x);
                std::set<std::string> tos{UCS4, "UTF-8", "ISO-8859-1", "UTF-16LE", n};
                for (auto &to : tos) for (int fl = 0; fl < 2; fl++) { MD m(n, to, fl); if (!m.ok()) return; g_hist = "";
                    for (auto &a : base) for (size_t q = 0; q <= t.size(); q++) for (size_t p = 0; p < 140; p += p < 36 ? 1 : 13) { if (enough()) return; if (late()) { sh->truncated++; return; } if (q < t.size() && !opt.thorough && (p + q) % 3 && p > 8) continue; std::string s; for (size_t k = 0; k < p; k++) s += a; if (q < t.size()) s += t[q]; if ((p + q) & 1) for (size_t k = 0; k < 17; k++) s += a;
                        m.reset(); m.conv(s, 2000); size_t o = m.outn; for (size_t c : {o, o ? o - 1 : 0, o / 2}) { m.reset(); m.conv(s, c); } if (q == t.size() && to != n) { m.reset(); m.whole(s); m.reset(); } } }
                { auto ec = enc_chars(n); std::vector<u32> eb{'A'}; for (u32 c : enc_chars(n, 1, false)) if (eb.size() < 5) eb.push_back(c); for (const char *from : {"UCS-4LE", "UTF-8", "UTF-16BE", "ISO-8859-1"}) { EncModel em(from == UCS4 ? "UCS4LE" : from[4] == '8' ? "UTF8" : from[0] == 'U' && from[4] == '1' ? "UTF16BE" : from[0] == 'U' ? "UCS4LE" : "ISO88591"); MD m(from, n); if (!m.ok()) return;
                    for (u32 a : eb) for (size_t q = 0; q <= ec.size(); q++) for (size_t p = 0; p < 140; p += p < 36 ? 1 : 13) { if (enough() || late()) return; if (q < ec.size() && !opt.thorough && (p + q) % 3 && p > 8) continue; std::string s; EState es; es.first = false; for (size_t k = 0; k < p; k++) em.one(es, a, s); if (q < ec.size()) em.one(es, ec[q], s); if ((p + q) & 1) for (size_t k = 0; k < 17; k++) em.one(es, a, s);
                        m.reset(); m.conv(s, 3000); size_t o = m.outn; for (size_t c : {o, o ? o - 1 : 0, o / 2}) { m.reset(); m.conv(s, c); } } } }
            } else {                  // to every other encoding
                auto t = dec_tokens(*d); std::string all; for (auto &x : t) all += x; if (t.size() > 10) t.resize(10); t.push_back(all);
                for (auto &T : spec().names.order) for (int fl = 0; fl < 2; fl++) { if (enough()) return; MD m(n, T, fl); if (!m.ok()) return; for (auto &s : t) { m.reset(); m.conv(s, 600); size_t o = m.outn; m.flush(64); for (size_t c : {(size_t)0, (size_t)1, (size_t)2, (size_t)3, o ? o - 1 : 0, o}) { m.reset(); m.conv(s, c); m.flush(c); } } m.reset(); m.whole(all); }
            }
        });
        // counts of 2^31 bytes and more: the call stops early, so only the counts are huge; same result as with ordinary counts
        pool(e.size(), [&](size_t i) {
            __sanitizer_set_death_callback(death); g_lib_flag = true; g_hist = "huge counts"; const size_t G = (1ull << 32) + (1 << 20); u8 *in = (u8 *)mmap(nullptr, G, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0), *out = (u8 *)mmap(nullptr, G, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            if (in == MAP_FAILED || out == MAP_FAILED) { sh->truncated++; return; } auto d = make_dec(e[i]); c_states++;
            auto run1 = [&](const std::string &f, const std::string &t, const std::string &w, size_t il0, size_t ol0, bool flush) {   // fresh descriptor, one call
                g_crumb = {f.c_str(), t.c_str(), 0, 0, ol0, "convert", ""}; reiconv_t cd = reiconv_open_from_name(f.c_str(), t.c_str(), REICONV_NO_FLAGS); std::string r; if (cd == (reiconv_t)-1) return r; memset(in, 0, 4096); memcpy(in, w.data(), w.size()); memset(out, 0xA5, 4096);
                char *ip = (char *)in, *op = (char *)out; size_t il = il0, ol = ol0; errno = 0; c_trans++; g_calls = g_calls + 1; size_t q = reiconv_iconv(cd, &ip, &il, &op, &ol); int er = q == (size_t)-1 ? errno : 0; size_t u = ip - (char *)in, o = op - (char *)out;
                r = fmt("%s ret=%zd consumed %zu wrote %zu:%s%s", ename(er), q, u, o, hex(out, std::min<size_t>(o, 512)).c_str(), il == il0 - u && ol == ol0 - o ? "" : " COUNTS AND POINTERS DISAGREE");
                if (flush) { op = (char *)out; ol = ol0; q = reiconv_iconv(cd, nullptr, nullptr, &op, &ol); o = op - (char *)out; r += fmt("; flush ret=%zd wrote %zu:%s%s", q, o, hex(out, std::min<size_t>(o, 64)).c_str(), ol == ol0 - o ? "" : " COUNT AND POINTER DISAGREE"); }
                reiconv_handle_close(cd); return r; };
            auto cmp = [&](const std::string &f, const std::string &t, const std::string &w, size_t small_in, size_t small_out, bool hugein, bool hugeout) {
                std::string a = run1(f, t, w, small_in, small_out, hugeout); for (size_t base : {1ull << 31, 1ull << 32}) for (size_t k : {0, 1, 2, 3, 5}) { if (enough()) return; std::string b = run1(f, t, w, hugein ? base + k : small_in, hugeout ? base + k : small_out, hugeout); if (a != b) { violation("acct:" + f + ":" + t, fmt("%s -> %s: input %s... with counts %zu and %zu: %s; with ordinary counts: %s", f.c_str(), t.c_str(), hex(w.substr(0, 40)).c_str(), hugein ? base + k : small_in, hugeout ? base + k : small_out, b.substr(0, 300).c_str(), a.substr(0, 300).c_str())); return; } } };
            std::string v; auto tv = dec_tokens(*d, true); for (int k = 0; k < 3; k++) for (auto &x : tv) v += x;
            for (auto &x : tv) { std::string s; for (int k = 0; k < 60; k++) s += x; cmp(e[i], UCS4, s, 4000, 14, true, false); cmp(e[i], UCS4, s, s.size(), 2000, false, true); } cmp(e[i], UCS4, v, v.size(), 2000, false, true); 
            for (u32 c : enc_chars(e[i], 1, false)) { Cps s(40, c); cmp(UCS4, e[i], u32s(s), 4000, 13, true, false); cmp(UCS4, e[i], u32s(s), 160, 2000, false, true); }
            munmap(in, G); munmap(out, G);
        });
        // names, code pages and sizes on poisoned memory
        pool(1, [&](size_t) {
            __sanitizer_set_death_callback(death); g_lib_flag = true; g_crumb = {"", "", 0, 0, 0, "name lookup", ""};
            auto put = [&](const std::string &s, u8 *base, size_t &last) { __asan_unpoison_memory_region(base, s.size() + 1); memcpy(base, s.c_str(), s.size() + 1); expose(base, s.size() + 1, last); return (char *)base; };
            auto look = [&](const std::string &s) { if (enough()) return; c_trans++; g_calls = g_calls + 1; g_hist = hex(s.substr(0, 40)); char *a = put(s, IN, ilast); reiconv_lookup_from_name(a); char *b = put(s, OUT, olast); reiconv_t r = reiconv_open(b, a); if (r != (reiconv_t)-1) reiconv_handle_close(r); r = reiconv_open_from_name(a, b, REICONV_NO_FLAGS); if (r != (reiconv_t)-1) reiconv_handle_close(r); expose(OUT, s.size() + 1, olast); reiconv_name_canonicalize(a, (char *)OUT); };
            for (auto &kv : spec().names.of) for (const char *s : {"", "//IGNORE", "//ignore", "//TRANSLIT", "/", "//", "//IGNOR", "//IGNOREX", "--------", "A"}) { look(kv.first + s); look(lo(kv.first) + s); }
            for (size_t k = 0; k < 300; k++) for (char c : {'A', '/', '-', '\xff', '0', '1'}) { look(std::string(k, c)); look("//IGNORE" + std::string(k, c)); look(std::string(k, c) + "//IGNORE"); } for (size_t k : {1000, 4096, 10000, 60000}) for (char c : {'A', '/', '-'}) look(std::string(k, c));
            for (long p = -100000; p < 200000; p++) { reiconv_lookup_from_codepage(p); reiconv_open_from_codepage(65001, p > 65535 ? p : -1, REICONV_NO_FLAGS); } for (int k = 0; k < 32; k++) for (int o = -2; o <= 2; o++) { reiconv_lookup_from_codepage((int)((1u << k) + o)); reiconv_lookup_from_codepage((int)(~0u << k) + o); }
        });
    });
}
