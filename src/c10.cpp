// C10: the discard flag.  Reference: an unflagged descriptor driven by hand (skip one code unit at
// each malformed sequence), and unencodable characters filtered out before encoding.
#include "words.hpp"
using namespace ve;
static size_t g_room = 4096;
struct Exp { std::string out; int err = 0; size_t used = 0; u64 count = 0; bool flok = true; };
struct Ref {   // S -> UCS-4LE -> T without flags, by hand
    Desc a, b; Snap a0, b0; int unit; std::map<u32, int> enc;   // 0 encodable, 1 dropped, 2 not encodable
    std::string T; bool utarget;
    Ref(const std::string &s, const std::string &t) : a(s, UCS4), b(UCS4, t), T(t) { if (!a.isopen || !b.isopen) return; a0 = a.save(); b0 = b.save(); unit = unit_of(canon(s)); }
    bool good() { return a.isopen && b.isopen; }
    Desc *probe = nullptr;
    // decode by hand; with flush
    Cps decode(const std::string &w, int &err, size_t &pos, size_t &skipped) {
        Cps t; a.load(a0); pos = 0; err = 0; skipped = 0;
        while (pos < w.size()) { Res r = a.conv((const u8 *)w.data() + pos, w.size() - pos, g_room); cps_of(r, t); pos += r.used; if (r.ok) break; if (r.err == E2BIG && r.used) continue; if (r.err == EILSEQ) { if (w.size() - pos < (size_t)unit) { err = EILSEQ; break; } pos += unit; skipped++; continue; } err = r.err; break; }
        Res f = a.flush(256); cps_of(f, t); return t;
    }
    Exp run(const std::string &w, size_t &skipped) {
        Exp e; Cps t = decode(w, e.err, e.used, skipped); b.load(b0);
        for (u32 c : t) {   // encode one by one: an unencodable character must leave no trace
            Snap s = b.save(); Res r = b.conv(u32s({c}), 256);
            if (r.ok && r.ret == 0) { e.out += str(r); continue; }
            b.load(s); if (!is_tag(c)) e.count++;
        }
        Res f = b.flush(256); e.out += str(f); e.flok = f.ok; return e;
    }
};
static void check(Desc &ds, const Snap &s0, Ref &rf, const std::string &w) {
    size_t sk; Exp e = rf.run(w, sk); c_trans++; if (sk || e.count) c_nontriv++;
    auto go = [&](Desc &d) -> std::string {
        Res r = d.conv(w, g_room * 2); std::string o = str(r); Res f = d.flush(256); o += str(f); u64 cnt = (r.ok ? r.ret : 0) + (f.ok ? f.ret : 0);
        if (r.err == EILSEQ || f.err == EILSEQ) return "reported EILSEQ although discarding";
        if (r.err != e.err || r.used != e.used) return fmt("ends with %s at %zu, expected %s at %zu", ename(r.err), r.used, ename(e.err), e.used);
        if (o != e.out) return "output " + hex(o.substr(0, 200)) + ", expected " + hex(e.out.substr(0, 200));
        if (r.ok && f.ok && cnt != e.count) return fmt("count %lu, expected %lu", cnt, e.count);
        return "";
    };
    if (e.err == EILSEQ || e.out.size() + 64 > g_room * 2) return;
    ds.load(s0); std::string bad = go(ds); if (bad.empty()) return;
    std::string f = ds.from, t = ds.to;
    if (in_child([&] { Desc x(f, t, 1); return !go(x).empty(); })) violation("discard:" + f + ":" + t, fmt("%s -> %s discarding: input %s (%zu sequences to skip): %s", f.c_str(), t.c_str(), hex(w.substr(0, 200)).c_str(), sk, bad.c_str())); else sh->unconfirmed++;
}
static void longs(Desc &ds, const Snap &s0, Ref &rf, const std::vector<std::string> &t, size_t big) {
    periodic(t.size(), big, [&](const std::vector<size_t> &v) { std::string x; for (size_t k : v) { if (x.size() > 260000) break; x += t[k]; } if (late()) return; g_room = BUF / 2; check(ds, s0, rf, x); g_room = 4096; });
}
int main(int argc, char **argv) {
    return ve_main(argc, argv, [] {
        auto e = encodings();
        auto wt = [](const std::string &n) { auto c = spec().set(n); return is_stateful(n) ? 1000000 : is_unicode(n) || is_escape(n) ? 500000 : c ? (int)c->ents.size() : 0; };
        std::stable_sort(e.begin(), e.end(), [&](auto &a, auto &b) { return wt(a) > wt(b); });
        size_t budget = opt.thorough ? 100000 : 5000;
        pool(e.size() * 3, [&](size_t i) {
            const std::string &n = e[i / 3]; auto d = make_dec(n);
            if (i % 3 == 0) {    // every token of every shift state, alone and followed by others
                std::vector<std::string> pre{""}; auto sft = d->shifts(); for (auto &x : sft) pre.push_back(x); for (auto &x : sft) for (auto &y : sft) if (is_stateful(n)) pre.push_back(x + y); if (n == "UTF7") pre = {"", "+", "+AG", "+AOkA"};
                Ref rf(n, UCS4); Desc ds(n, UCS4, 1); if (!rf.good() || !ds.isopen) return; Snap s0 = ds.save(); Gen g(*d, false); std::set<u64> done;
                for (auto &p : pre) {
                    DState st; Cps o; Run r = run(*d, st, (const u8 *)p.data(), p.size(), o); if (r.end != DONE && r.end != INC) continue; if (!done.insert(r.s.st).second && !p.empty()) continue; u64 cnt = 0;
                    g.gen(r.s.st, [&](const std::string &x, K k) { if (enough() || late()) return; cnt++; if (cnt > 60000 && cnt % 8) return; check(ds, s0, rf, p + x); if (k == BAD || k == CHARS) { check(ds, s0, rf, p + x + "AAAA"); if (cnt < 60000) { check(ds, s0, rf, p + x + "\xff\xa1\x41\x30"); check(ds, s0, rf, p + x + x); } } });
                }
                c_states += done.size(); sample(fmt("%s: malformed and valid tokens from %zu shift states, with discarding", n.c_str(), done.size()));
            } else if (i % 3 == 1) {
                auto t = dec_tokens(*d); size_t dep = fit_depth(t.size(), budget, 5);
                for (const char *to : {"UCS-4LE", "ASCII", "ISO-2022-JP-3", "UTF-8", "UTF-16", "EUC-JISX0213", "CP1258", "ISO-2022-KR", "UTF-7"}) { Ref rf(n, to); Desc ds(n, to, 1); if (!rf.good() || !ds.isopen) return; Snap s0 = ds.save();
                    words(t, std::string(to) == "UCS-4LE" ? dep : std::min<size_t>(dep, 3), [&](const std::vector<std::string> &w) { if (enough()) return; check(ds, s0, rf, cat(w)); }); if (!strcmp(to, "UCS-4LE") || !strcmp(to, "ASCII")) longs(ds, s0, rf, t, 66000); }
                for (auto &to : std::set<std::string>{n, "UTF-8", "ISO-8859-1", "UTF-16LE"}) { Ref rf(n, to); Desc ds(n, to, 1); if (!rf.good() || !ds.isopen) return; Snap s0 = ds.save(); words(t, std::min<size_t>(dep, 2), [&](const std::vector<std::string> &w) { if (enough()) return; check(ds, s0, rf, cat(w)); }); run_texts(*d, [&](const std::string &x) { check(ds, s0, rf, x); }); }
            } else {
                auto t = enc_chars(n); size_t dep = fit_depth(t.size(), budget, 4); Ref rf(UCS4, n); Desc ds(UCS4, n, 1); if (!rf.good() || !ds.isopen) return; Snap s0 = ds.save();
                words(t, dep, [&](const std::vector<u32> &w) { if (enough()) return; check(ds, s0, rf, u32s(w)); });
                { std::vector<std::string> ct; for (u32 c : t) ct.push_back(u32s({c})); longs(ds, s0, rf, ct, 66000); }
                for (u32 c = 0; c < 0x110000 && !enough(); c++) if (c < 0x30000 || c % 97 == 0 || (c >= 0xE0000 && c < 0xE0100)) { check(ds, s0, rf, u32s({c})); if (c < 0x3000 || c % 64 == 0) check(ds, s0, rf, u32s({c, 'A', c})); }
            }
        });
    });
}
