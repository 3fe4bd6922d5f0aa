// C18: reiconv_result_size, reiconv_convert_static_size, reiconv_convert.  Reference: streaming
// conversion plus flush from the same descriptor state.
#include "words.hpp"
using namespace ve;
struct Ref { std::string out; bool bad; };
static Ref ref(Desc &d, const std::string &w) { Ref r; Res a = d.conv(w, 100000); r.out = str(a); r.bad = !a.ok; Res f = d.flush(1000); r.out += str(f); r.bad |= !f.ok; return r; }
struct InLib { Desc &d; InLib(Desc &x, const char *w, size_t n, size_t cap) : d(x) { g_crumb.from = d.from.c_str(); g_crumb.to = d.to.c_str(); g_crumb.flags = d.flags; g_crumb.what = w; g_crumb.in = n; g_crumb.cap = cap; g_calls = g_calls + 1; g_lib_flag = true; g_arena = g_plain ? nullptr : &d.a; errno = stale(n + cap); } ~InLib() { g_arena = nullptr; g_lib_flag = false; } };
enum { SIZE, STATIC, CONVERT, CONVERT_SMALL, CONVERT_BIG, CONVERT_NULLOUT, CONVERT_NULLLEN };
static const char *FN[] = {"reiconv_result_size", "reiconv_convert_static_size", "reiconv_convert", "reiconv_convert (reusing a small buffer)", "reiconv_convert (reusing a big buffer)", "reiconv_convert (no output pointer)", "reiconv_convert (no length pointer)"};
static std::string call(Desc &d, int fn, const std::string &w, size_t cap, const Ref &r) {
    size_t n = w.size(); size_t al = n + 8 <= BUF ? shift((const u8 *)w.data(), n) & 7 : 0; memcpy(g_in.rw + BUF - n - al, w.data(), n); const char *in = (const char *)g_in.ro + BUF - n - al; int e = 0; size_t need = r.out.size();
    if (fn == SIZE) {
        size_t s; { InLib l(d, FN[fn], n, 0); s = reiconv_result_size(d.cd, in, n); e = errno; }
        if (r.bad) return s != (size_t)-1 ? fmt("reports %zu for text that cannot be converted", s) : e != EILSEQ ? fmt("fails with errno %d instead of EILSEQ", e) : "";
        return s == (size_t)-1 ? fmt("fails with errno %d", e) : s != need ? fmt("reports %zu, the result has %zu bytes", s, need) : "";
    }
    if (fn == STATIC) {
        u8 *o = g_out.rw + BUF - cap; memset(o - 64, 0xA5, cap + 64); int s; { InLib l(d, FN[fn], n, cap); s = reiconv_convert_static_size(d.cd, in, n, (char *)o, cap); e = errno; }
        for (int i = 1; i <= 64; i++) if (o[-i] != 0xA5) return "writes before the buffer";
        if (r.bad) return s != -1 ? fmt("returns %d for text that cannot be converted", s) : e != EILSEQ && !(e == E2BIG && cap < need) ? fmt("fails with errno %d instead of EILSEQ (capacity %zu)", e, cap) : "";
        if (cap < need) return s != -1 ? fmt("returns %d with %zu bytes of room, %zu needed", s, cap, need) : e != E2BIG ? fmt("too small buffer: errno %d", e) : "";
        if (s != 0) return fmt("fails with errno %d with %zu bytes of room, %zu needed", e, cap, need);
        if (memcmp(o, r.out.data(), need)) return "writes " + hex(o, std::min<size_t>(need, 64)) + ", expected " + hex(r.out.substr(0, 64));
        for (size_t i = need; i < cap; i++) if (o[i] != 0xA5) return "changes the buffer behind the result"; return "";
    }
    char *p = nullptr, *p0 = nullptr; size_t len = 0xABCDEF; int s;
    { InLib l(d, FN[fn], n, 0); if (fn == CONVERT_SMALL) p = (char *)malloc(1); if (fn == CONVERT_BIG) p = (char *)malloc(need + 300); if (p && fn == CONVERT_BIG) memset(p, 0xA5, need + 300); p0 = p; s = reiconv_convert(d.cd, in, n, fn == CONVERT_NULLOUT ? nullptr : &p, fn == CONVERT_NULLLEN ? nullptr : &len); e = errno; }
    std::string bad;
    if (fn == CONVERT_NULLOUT || fn == CONVERT_NULLLEN) { if (s != -1) bad = fmt("returns %d", s); }
    else if (r.bad) { if (s != -1) bad = fmt("returns %d for text that cannot be converted", s); else if (e != EILSEQ) bad = fmt("fails with errno %d instead of EILSEQ", e); else if (p != p0 && p) bad = "fails but has replaced the caller's buffer"; }
    else if (s != 0) bad = fmt("fails with errno %d", e); else if (len != need) bad = fmt("reports length %zu, the result has %zu bytes", len, need); else if (need && !p) bad = "no buffer"; else if (need && memcmp(p, r.out.data(), need)) bad = "gives " + hex(p, std::min<size_t>(need, 64)) + ", expected " + hex(r.out.substr(0, 64));
    { InLib l(d, "free", n, 0); free(p); } return bad;
}
struct X {
    Desc d, rd; std::vector<Snap> nodes; std::vector<std::string> hist; Snap s0, r0; std::vector<std::string> words_; std::vector<Ref> first; bool bom;
    std::vector<Snap> allowed;
    X(const std::string &f, const std::string &t, int fl) : d(f, t, fl), rd(f, t, fl) { if (!ok()) return; s0 = d.save(); r0 = rd.save(); bom = has_bom(canon(f)); }
    bool ok() { return d.isopen && rd.isopen; }
    Snap state() { Snap s = d.save(); if (s.xn) s.mem = s.mem.substr(s.mem.size() - s.xn); else s.mem.resize(std::min(s.mem.size(), s0.mem.size())); return s; }
    // ws: follow-up texts for the behavioural comparison
    std::string clean(const std::vector<std::string> &ws) {
        Snap s = state(); if (s == s0) return ""; for (auto &a : allowed) if (a == s) return "";
        // not the same memory: does it behave like a fresh descriptor (or, for sources with a byte order, like one with another order)?
        std::vector<std::vector<Ref>> cand; cand.emplace_back(); for (auto &w : ws) { d.load(s0); cand[0].push_back(ref(d, w)); }
        if (bom) { auto dd = make_dec(canon(d.from)); Gen g(*dd, false); cand.emplace_back(); std::string m = is_u32(canon(d.from)) ? g.units(0, {0xFFFE0000u}) : g.units(0, {0xFFFE}); for (auto &w : ws) { d.load(s0); d.conv(m, 100); d.reset(); cand[1].push_back(ref(d, w)); } }
        std::string why; bool any = false;
        for (auto &c : cand) { bool eq = true; for (size_t i = 0; i < ws.size() && eq; i++) { d.load(s); Ref r = ref(d, ws[i]); if (r.out != c[i].out || r.bad != c[i].bad) { eq = false; why = "afterwards the descriptor converts " + hex(ws[i]) + " to " + hex(r.out) + ", a fresh one to " + hex(c[i].out); } } any |= eq; }
        if (any) { if (allowed.size() < 8) allowed.push_back(s); return ""; } return why;
    }
    std::vector<std::string> follow;
    void one(size_t ni, int fn, const std::string &w, size_t cap, const Ref &r) {
        if (enough()) return; d.load(nodes[ni]); c_trans++; std::string bad = call(d, fn, w, cap, r); if (bad.empty()) bad = clean(follow); else { }
        if (bad.empty()) { for (auto &a : allowed) { bool have = false; for (auto &n : nodes) have |= n == a; if (!have && nodes.size() < 6) { nodes.push_back(a); hist.push_back(hist[ni] + fmt("%s(%s); ", FN[fn], hex(w.substr(0, 40)).c_str())); c_states++; } } return; }
        violation("whole:" + d.from + ":" + d.to, fmt("%s -> %s flags=%d: %s%s of %zu bytes %s (room %zu): %s", d.from.c_str(), d.to.c_str(), d.flags, hist[ni].c_str(), FN[fn], w.size(), hex(w.substr(0, 40)).c_str(), cap, bad.c_str()));
    }
    void all(size_t ni, const std::string &w, int level) {
        rd.load(nodes[ni]); Ref r; { // the reference runs on the same descriptor memory
            d.load(nodes[ni]); r = ref(d, w); }
        size_t n = r.out.size(); c_evals++; if (r.bad || n != w.size()) c_nontriv++;
        one(ni, SIZE, w, 0, r);
        if (level >= 2) for (size_t c = 0; c <= n + 2; c++) one(ni, STATIC, w, c, r); else { for (size_t c : {n - 1, n, n + 1}) if (c != (size_t)-1) one(ni, STATIC, w, c, r); if (n > 6) one(ni, STATIC, w, n / 2, r); }
        one(ni, CONVERT, w, 0, r); if (level >= 1) { one(ni, CONVERT_SMALL, w, 0, r); one(ni, CONVERT_BIG, w, 0, r); one(ni, CONVERT_NULLOUT, w, 0, r); one(ni, CONVERT_NULLLEN, w, 0, r); }
    }
    void run(const std::vector<std::string> &ws, size_t fullup) { follow = ws; if (follow.size() > 60) follow.resize(60); if (nodes.empty()) { nodes.push_back(s0); hist.push_back(""); c_states++; } for (size_t ni = 0; ni < nodes.size() && !enough(); ni++) for (size_t i = 0; i < ws.size() && !enough(); i++) { if (late()) { sh->truncated++; return; } all(ni, ws[i], i < fullup ? 2 : ws[i].size() < 64 ? 1 : 0); } }
};
int main(int argc, char **argv) {
    return ve_main(argc, argv, [] {
        auto e = encodings(); auto wt = [](const std::string &n) { auto c = spec().set(n); return is_stateful(n) ? 1000000 : is_unicode(n) || is_escape(n) ? 500000 : c ? (int)c->ents.size() : 0; };
        std::stable_sort(e.begin(), e.end(), [&](auto &a, auto &b) { return wt(a) > wt(b); }); size_t budget = opt.thorough ? 30000 : 1500;
        pool(e.size() * 4 + 1, [&](size_t i) {
            if (i == 0) {   // a text of more than 2^32 bytes
                if (!selected("UTF32")) return; HugeText h = HugeText::marks(); if (!h.ok) { sh->truncated++; return; } reiconv_t cd = reiconv_open_from_name("UTF-32", "UTF-8", REICONV_NO_FLAGS); if (cd == (reiconv_t)-1) return; g_plain = true; g_crumb = {"UTF-32", "UTF-8", 0, 0, 0, "whole-string functions on more than 4 GB", ""}; g_lib_flag = true;
                size_t r = reiconv_result_size(cd, (char *)h.p, h.n); char o[4] = {0}; int s = reiconv_convert_static_size(cd, (char *)h.p, h.n, o, 1), s0 = reiconv_convert_static_size(cd, (char *)h.p, h.n, o + 2, 0); char *q = nullptr; size_t l = 0; int c = reiconv_convert(cd, (char *)h.p, h.n, &q, &l); size_t t = reiconv_result_size(cd, (char *)h.p, h.n - 1); g_lib_flag = false; c_trans += 5; c_states++; reiconv_handle_close(cd);
                std::string want = "1 0 A -1 0 1 A -1", got = fmt("%zd %d %s %d %d %zu %s %zd", r, s, s ? "" : std::string(o, 1).c_str(), s0, c, l, c || !q || l != 1 ? "" : std::string(q, 1).c_str(), t);
                if (want != got) violation("whole:hugein", fmt("UTF-32 -> UTF-8, marks and one letter in %zu bytes: size, fixed buffer of 1, of 0, allocating, truncated: %s, expected %s", h.n, got.c_str(), want.c_str())); else sample(fmt("whole-string functions on a text of %zu bytes", h.n)); return; }
            i--; const std::string &n = e[i / 4]; auto d = make_dec(n);
            if (i % 4 == 0) {
                auto t = dec_tokens(*d); std::vector<std::string> ws{""}; words(t, fit_depth(t.size(), budget, 3), [&](const std::vector<std::string> &w) { ws.push_back(cat(w)); }); std::stable_sort(ws.begin(), ws.end(), [](auto &a, auto &b) { return a.size() < b.size(); });
                for (const char *to : {"UCS-4LE", "UTF-8", "ASCII", "UTF-16", "ISO-2022-KR", "EUC-JISX0213", "UTF-7"}) for (int fl = 0; fl < 2; fl++) { X x(n, to, fl); if (!x.ok()) return; bool full = !strcmp(to, "UCS-4LE") || opt.thorough; auto v = ws; if (!full && v.size() > 300) v.resize(300); x.run(v, full ? 200 : 40); }
                for (auto &to : std::set<std::string>{n, "ISO-8859-1", "UTF-16LE"}) { X x(n, to, 0); if (!x.ok()) return; auto v = ws; if (v.size() > 300) v.resize(300); run_texts(*d, [&](const std::string &w) { v.push_back(w); }); x.run(v, 6); }
                sample(fmt("%s: %zu texts, 7 targets, every buffer size", n.c_str(), ws.size()));
            } else if (i % 4 == 1) {
                auto t = enc_chars(n); std::vector<std::string> ws{""}; words(t, fit_depth(t.size(), budget * 2, 3), [&](const std::vector<u32> &w) { ws.push_back(u32s(w)); }); ws.push_back(std::string("A", 1)); ws.push_back(u32s({'A'}) + "A"); std::stable_sort(ws.begin(), ws.end(), [](auto &a, auto &b) { return a.size() < b.size(); });
                for (int fl = 0; fl < 2; fl++) { X x(UCS4, n, fl); if (!x.ok()) return; x.run(ws, 400); }
            } else if (i % 4 == 2) {   // results around the internal block size, as target
                auto t = enc_chars(n); for (int fl = 0; fl < 2; fl++) { X x(UCS4, n, fl); if (!x.ok()) return; std::vector<std::string> ws;
                    x.d.load(x.s0); size_t unit = x.d.conv(u32s({'A', 'A'}), 100).outn / 2; if (unit == 0) unit = 1; if (n == "UTF16" || n == "UTF32") unit = n == "UTF16" ? 2 : 4;
                    for (size_t blk : {4096, 8192}) for (u32 c : t) for (size_t k = blk / unit - (fl || blk > 4096 ? 5 : 11); k <= blk / unit + 2; k++) { if (fl && (c & 1)) continue; Cps s(k, 'A'); s.push_back(c); s.push_back(t.back() == c ? 'A' : t.size() > 3 ? t[3] : 'A'); s.push_back(c); ws.push_back(u32s(s)); }
                    // other sizes a block might have
                    std::vector<u32> few; for (u32 c : {t[t.size() > 2 ? 2 : 0], t[t.size() / 2], t.back()}) few.push_back(c);
                    for (size_t blk : {16, 32, 64, 128, 256, 512, 1000, 1024, 2048, 16384, 32768, 65536}) for (u32 c : few) for (size_t k = blk / unit - 3; k <= blk / unit + 1; k++) { if (blk > 10000 && (fl || c != few[0])) continue; Cps s(k, 'A'); s.push_back(c); s.push_back(c); ws.push_back(u32s(s)); }
                    x.run(ws, 0); }
            } else {
                auto t = dec_tokens(*d); for (const char *to : {"UCS-4LE", "UTF-8"}) { X x(n, to, 0); if (!x.ok()) return; std::vector<std::string> ws; std::string A = is_unicode(n) && n != "UTF8" ? Gen(*d, false).units(0, {0x41}) : "A"; if (is_table(n)) for (auto &en : spec().set(n)->ents) if (en.cp == 'A' && en.len == 1) A = std::string(1, (char)en.bytes);
                    size_t unit = to[0] == 'U' && to[1] == 'C' ? 4 : 1;
                    for (size_t blk : {4096, 8192}) for (auto &c : t) for (size_t k = blk / unit - 4; k <= blk / unit + 1; k++) { std::string s; for (size_t j = 0; j < k; j++) s += A; s += c; s += t[0]; s += c; ws.push_back(s); }
                    x.run(ws, 0); }
            }
        });
        // a result of more than 2^32 bytes: the input is one block of memory mapped again and again
        if (selected("JAVA")) pool(1, [&](size_t) {
            const size_t B = 1 << 24, blocks = 90; int fd = memfd_create("big", 0); if (fd < 0 || ftruncate(fd, B)) return; u8 *r = (u8 *)mmap(nullptr, B * blocks, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (r == MAP_FAILED) { sh->truncated++; return; }
            u8 *w = (u8 *)mmap(nullptr, B, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); for (size_t i = 0; i < B; i += 4) { u32 c = 0x1f600 + (i / 4) % 64; memcpy(w + i, &c, 4); }
            for (size_t k = 0; k < blocks; k++) if (mmap(r + k * B, B, PROT_READ, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) { sh->truncated++; return; }
            reiconv_t cd = reiconv_open_from_name("UCS-4LE", "JAVA", REICONV_NO_FLAGS); if (cd == (reiconv_t)-1) return; size_t want = B * blocks / 4 * 12;
            g_plain = true; g_crumb = {"UCS-4LE", "JAVA", 0, 0, 0, "reiconv_result_size of 1.5 GB", ""}; size_t got = 0; itimerval off{}; setitimer(ITIMER_REAL, &off, nullptr); g_lib_flag = true; got = reiconv_result_size(cd, (const char *)r, B * blocks); g_lib_flag = false; c_trans++; reiconv_handle_close(cd);
            if (got != want) violation("whole:huge", fmt("UCS-4LE -> JAVA: reiconv_result_size of a text of %zu bytes reports %zu, the result has %zu bytes", B * blocks, got, want)); else sample(fmt("reiconv_result_size of %zu bytes: %zu", B * blocks, got));
            munmap(r, B * blocks); close(fd);
        });
    });
}
