// C06: full output buffers.  Reference: the same input in one call with ample room, then a flush with ample room.
#include "words.hpp"
using namespace ve;

static size_t g_room = 4096;
struct Ref { std::string out, fl; int err; size_t used; int ferr; };
struct Hist { std::vector<std::string> calls; };
static Ref ref(Desc &d, const std::string &w) { Ref r; Res a = d.conv(w, g_room); r.out = str(a); r.err = a.err; r.used = a.used; Res f = d.flush(256); r.fl = str(f); r.ferr = f.err; return r; }
// converts with the given capacities, then with ample room; then flushes with capacities and then ample room
static std::string limited(Desc &d, const std::string &w, const Ref &r, const std::vector<size_t> &caps, const std::vector<size_t> &fcaps) {
    std::string out; size_t pos = 0; int err = 0; bool done = false;
    for (size_t k = 0; k <= caps.size() && !done; k++) {
        size_t cap = k < caps.size() ? caps[k] : g_room; Res a = d.conv((const u8 *)w.data() + pos, w.size() - pos, cap); out += str(a); pos += a.used; err = a.err;
        if (a.err != E2BIG) done = true;
        else if (k == caps.size()) return "E2BIG with ample room";
        else if (cap >= r.out.size() && k == 0) return fmt("E2BIG although the buffer had the %zu bytes needed", r.out.size());
        else if (pos > r.used) return fmt("consumed %zu bytes, one call consumes %zu", pos, r.used);
    }
    if (err != r.err || pos != r.used) return fmt("ends with %s at %zu, expected %s at %zu", ename(err), pos, ename(r.err), r.used);
    // the implementation may hold back or deliver early, but only between conversion and flush
    std::string fl; bool fdone = false;
    for (size_t k = 0; k <= fcaps.size() && !fdone; k++) {
        size_t cap = k < fcaps.size() ? fcaps[k] : 256; Res a = d.flush(cap); fl += str(a);
        if (a.ok) { fdone = true; if (r.ferr) return "flush succeeds that fails with ample room"; } else if (a.err != E2BIG) { if (a.err != r.ferr) return fmt("flush failed with %s", ename(a.err)); fdone = true; } else if (k == fcaps.size()) return "flush: E2BIG with ample room"; else if (cap >= r.fl.size() && k == 0 && out == r.out) return fmt("flush: E2BIG although the buffer had the %zu bytes needed", r.fl.size());
    }
    if (out + fl != r.out + r.fl) return "output " + hex(out.substr(0, 200)) + "|" + hex(fl) + ", expected " + hex(r.out.substr(0, 200)) + "|" + hex(r.fl);
    return "";
}
static void one(Desc &ds, const Snap &s, const std::vector<std::string> &hist, const std::string &w, const Ref &r, const std::vector<size_t> &c, const std::vector<size_t> &fc) {
    ds.load(s); std::string bad = limited(ds, w, r, c, fc); c_trans++; if (bad.empty()) return;
    std::string f = ds.from, t = ds.to; int fl = ds.flags;
    if (in_child([&] { Desc x(f, t, fl); for (auto &h : hist) x.conv(h, 4096); Ref q = ref(x, w); Desc y(f, t, fl); for (auto &h : hist) y.conv(h, 4096); return !limited(y, w, q, c, fc).empty(); })) {
        std::string cs, hs; for (size_t k : c) if (cs.size() < 60) cs += fmt("%zu ", k); cs += "/ flush "; for (size_t k : fc) cs += fmt("%zu ", k); for (auto &h : hist) hs += hex(h) + " ";
        violation("full:" + f + ":" + t, fmt("%s -> %s flags=%d: input %s with capacities [%s] after calls [%s]: %s", f.c_str(), t.c_str(), fl, hex(w.substr(0, 200)).c_str(), cs.c_str(), hs.c_str(), bad.c_str()));
    } else sh->unconfirmed++;
}
static void check(Desc &ds, const Snap &s, const std::vector<std::string> &hist, const std::string &w, int level) {
    ds.load(s); Ref r = ref(ds, w); c_evals++; size_t n = r.out.size(), m = r.fl.size();
    for (size_t k = 0; k <= n; k++) one(ds, s, hist, w, r, {k}, {});
    for (size_t k = 0; k <= m; k++) { one(ds, s, hist, w, r, {}, {k}); if (m) one(ds, s, hist, w, r, {n}, {k, 0, k}); }
    if (level >= 1) for (size_t k = 0; k <= n; k++) for (size_t j = 0; j <= n - k; j++) { one(ds, s, hist, w, r, {k, j}, {}); if (level >= 2) for (size_t l = 0; l <= n - k - j; l++) one(ds, s, hist, w, r, {k, j, l}, {}); }
    if (n > 1) { std::vector<size_t> g; for (size_t k = 0; k <= 16; k++) g.push_back(k); one(ds, s, hist, w, r, g, {}); std::vector<size_t> z(n + 8, 0); for (size_t k = 0; k < z.size(); k++) z[k] = k % 9; one(ds, s, hist, w, r, z, {0, 1, 2, 3, 4, 5, 6, 7}); }
}
static void longs(Desc &ds, const Snap &s, const std::vector<std::string> &t, size_t big) {
    periodic(t.size(), big, [&](const std::vector<size_t> &v) {
        std::string x; for (size_t k : v) { if (x.size() > 120000) break; x += t[k]; } if (late()) return; g_room = BUF; ds.load(s); Ref r = ref(ds, x); c_evals++; size_t n = r.out.size();
        if (n > 1) for (size_t st : {5, 9, 64, 256, 4096, 65536}) if (st < n && (n < 20000 || st > 9)) { std::vector<size_t> z; for (size_t k = 0; k < n + 64; k += st > 16 ? st - 16 : 1) z.push_back(st > 16 ? st : (k * 3) % st); one(ds, s, {}, x, r, z, {0}); }
        for (size_t c : {n, n ? n - 1 : 0, n / 2}) one(ds, s, {}, x, r, {c}, {}); g_room = 4096; });
}
int main(int argc, char **argv) {
    return ve_main(argc, argv, [] {
        auto e = encodings();
        auto wt = [](const std::string &n) { auto c = spec().set(n); return is_stateful(n) ? 1000000 : is_unicode(n) || is_escape(n) ? 500000 : c ? (int)c->ents.size() : 0; };
        std::stable_sort(e.begin(), e.end(), [&](auto &a, auto &b) { return wt(a) > wt(b); });
        size_t budget = opt.thorough ? 60000 : 3500;
        pool(e.size() * 4, [&](size_t i) {
            const std::string &n = e[i / 4]; auto d = make_dec(n);
            if (i % 4 == 0) {   // every token from every decoder state
                DecCfg c; c.suffixes = false; DecX x(*d, c); if (!x.ds.open(n, UCS4)) return; x.add(x.ds.save(), DState{}, {}, -1, "");
                for (size_t k = 0; k < x.nodes.size() && !enough(); k++) {
                    if (late()) { sh->truncated++; break; }
                    auto h = x.path(k); Snap s = x.nodes[k].snap; u64 cnt = 0;
                    x.g.gen(x.nodes[k].ms.st, [&](const std::string &w, K kd) {
                        if (enough()) return; cnt++;
                        { DNode &nd = x.nodes[k]; x.ds.load(nd.snap); Res r = x.ds.conv(w, 512); Cps o; Run mr = run(*d, nd.ms, (const u8 *)w.data(), w.size(), o); if (mr.end != UNSPEC) { Snap s1 = x.ds.save(); if (!(s1 == nd.snap) || !(mr.s == nd.ms)) x.add(s1, mr.s, {}, k, w); } }
                        if (kd == CHARS || kd == SHIFT || x.nodes[k].ms.haspend) if (cnt < 100000 || cnt % 16 == 0) check(x.ds, s, h, w, 0);
                    });
                }
                sample(fmt("%s: every token from %zu states, every output capacity", n.c_str(), x.nodes.size()));
            } else if (i % 4 == 1) {
                auto t = dec_tokens(*d); size_t dep = fit_depth(t.size(), budget, 4);
                for (const char *to : {"UCS-4LE", "UTF-16", "UTF-8", "ISO-2022-KR", "ISO-2022-JP-3"}) for (int fl = 0; fl < 2; fl++) { Desc ds(n, to, fl); if (!ds.isopen) return; Snap s = ds.save();
                    words(t, fl ? 1 : std::string(to) == "UCS-4LE" ? dep : 2, [&](const std::vector<std::string> &w) { if (enough()) return; std::string x = cat(w); if (x.size() > 64) return; check(ds, s, {}, x, w.size() <= 2 ? 1 : 0); c_nontriv++; }); if (!fl && (!strcmp(to, "UCS-4LE") || !strcmp(to, "UTF-16"))) longs(ds, s, dec_tokens(*d, true), 30000); }
                // blocks: runs with exactly the room needed, less, and in steps
                for (auto &to : std::set<std::string>{n, UCS4, "UTF-8", "ISO-8859-1", "UTF-16LE"}) for (int fl = 0; fl < 2; fl++) { Desc ds(n, to, fl); if (!ds.isopen) return; Snap s = ds.save();
                    run_texts(*d, [&](const std::string &x) { ds.load(s); Ref r = ref(ds, x); c_evals++; size_t k = r.out.size(); for (size_t c : {k, k ? k - 1 : 0, k / 2, k / 3}) one(ds, s, {}, x, r, {c}, {}); if (k > 8) { std::vector<size_t> z; for (size_t q = 0; q < k + 8; q++) z.push_back(q % 11); one(ds, s, {}, x, r, z, {}); one(ds, s, {}, x, r, {k - 9, 8, 1}, {}); } }); }
            } else if (i % 4 == 2) {
                auto t = enc_chars(n); size_t dep = fit_depth(t.size(), budget, 4);
                for (int fl = 0; fl < 2; fl++) { Desc ds(UCS4, n, fl); if (!ds.isopen) return; Snap s = ds.save();
                words(t, dep, [&](const std::vector<u32> &w) { if (enough()) return; check(ds, s, {}, u32s(w), w.size() == 1 ? 2 : w.size() == 2 ? 1 : 0); c_nontriv++; });
                    std::vector<std::string> ct; for (u32 c : enc_chars(n, 1, fl)) ct.push_back(u32s({c})); longs(ds, s, ct, 25000); }
            } else {   // every encodable character, alone and after a character that may be pending or shifted
                Desc ds(UCS4, n); if (!ds.isopen) return; Snap s = ds.save(); std::unordered_map<u32, Cps> rep; std::vector<u32> cs;
                if (is_stateful(n)) { repertoire(n, rep); for (auto &k : rep) cs.push_back(k.first); } else { Enc en = Enc::make(n); std::string o; for (u32 c = 0; c < 0x110000; c++) { o.clear(); if (en.enc(c, false, o)) cs.push_back(c); } }
                std::sort(cs.begin(), cs.end());
                auto t = enc_chars(n); u64 cnt = 0;
                for (u32 c : cs) { if (enough() || late()) break; cnt++; if (cs.size() > 100000 && c > 0x3000 && c % 61 > 1) continue; check(ds, s, {}, u32s({c}), 1); if (is_stateful(n) || (c & 7) == 0) for (u32 p : t) check(ds, s, {u32s({p})}, u32s({c}), 0); }
            }
        });
    });
}
