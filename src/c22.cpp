// C22: characters composed of, or split into, several code points.  Full product exploration of the
// decoders and encoders of the encodings concerned, plus all words over combining-relevant tokens,
// converted in one call, one call per token, and with every output capacity, against the model.
#include "words.hpp"
#include "sencx.hpp"
using namespace ve;
static const char *SETS[] = {"CP1255", "CP1258", "TCVN", "BIG5HKSCS:1999", "BIG5HKSCS:2001", "BIG5HKSCS:2004", "BIG5HKSCS:2008", "EUCJISX0213", "SHIFTJISX0213", "ISO2022JP3"};

struct Want { std::string out; bool derr = false, eerr = false; K end = DONE; };
// feeds w into d as the pieces given; every call gets capacity cap until E2BIG, then more room
static std::string drive(Desc &d, const std::vector<std::string> &w, size_t cap, bool split, std::string &out, std::string &pre, bool &err, bool &flok) {
    std::vector<std::string> pc; if (split) pc = w; else pc.push_back(cat(w)); std::string rest; err = false;
    for (auto &p : pc) {
        std::string in = rest + p; size_t pos = 0; bool stop = false;
        for (int k = 0;; k++) { Res r = d.conv((const u8 *)in.data() + pos, in.size() - pos, cap == (size_t)-1 ? 4096 : k == 0 ? cap : k == 1 ? 0 : k < 24 ? k - 1 : 4096); out += str(r); pos += r.used; if (r.ok) break; if (r.err == E2BIG) { if (k > 26) return "E2BIG with ample room"; continue; } stop = r.err; if (r.err == EILSEQ || &p == &pc.back()) err = true; break; }
        rest = in.substr(pos); if (stop && err) break;
    }
    pre = out; for (int k = 0;; k++) { Res f = d.flush(cap == (size_t)-1 ? 256 : k < 12 ? k : 256); out += str(f); if (f.err == E2BIG) { if (k > 13) return "flush: E2BIG with ample room"; continue; } flok = f.ok; break; }
    return "";
}
static std::string judge(Desc &d, const Want &wt, const std::vector<std::string> &w, size_t cap, bool split) {
    std::string out, pre; bool err, flok; std::string b = drive(d, w, cap, split, out, pre, err, flok); if (!b.empty()) return b;
    if (wt.eerr) { // stops at a character that cannot be encoded: what has been written is a prefix of the text's codes
        if (!err && flok) return "an unencodable character is not reported"; if (pre != wt.out.substr(0, std::min(pre.size(), wt.out.size()))) return "wrote " + hex(pre) + " before an unencodable character, expected a prefix of " + hex(wt.out); return ""; }
    if (out != wt.out) return "result " + hex(out) + ", expected " + hex(wt.out);
    if (err != wt.derr) return err ? "valid input rejected" : "malformed or truncated input accepted";
    if (!flok) return "flush failed"; return "";
}
int main(int argc, char **argv) {
    return ve_main(argc, argv, [] {
        std::vector<std::string> e; for (auto s : SETS) { auto i = spec().names.of.find(canon(s)); if (i == spec().names.of.end()) { fprintf(stderr, "no %s\n", s); exit(3); } if (selected(i->second)) e.push_back(i->second); }
        size_t N = e.size();
        pool(N * 7, [&](size_t i) {
            const std::string &n = e[i % N]; auto d = make_dec(n);
            if (i / N == 0) { if (is_stateful(n)) { SEncX x(n, SEncCfg{}); x.explore(); x.longs(enc_chars(n)); } else for (int fl = 0; fl < 2; fl++) { EncCfg c; c.flags = fl; c.counts = true; c.precise = true; c.cap = 600; c.maxnodes = opt.thorough ? 2000 : 120; EncX x(n, c); x.explore(); x.longs(enc_chars(n)); near_enc(x); } }
            else if (i / N == 1) { DecCfg c; c.precise = true; c.cap = 20; c.pairs1 = d->look == 1; DecX x(*d, c); x.explore(); x.longs(dec_tokens(*d, true)); if (!is_stateful(n)) near_dec(x); }
            else if (i / N == 5) { if (is_stateful(n)) TwinX x(n); else partners_enc(n); }   // other partners than UCS-4
            else if (i / N == 6) partners_dec(n, true);
            else if (i / N == 2 && !is_stateful(n)) {
                auto t = dec_tokens(*d, false, 2);
                if (d->comp) { auto &cs = *spec().set(n); std::vector<std::string> x; std::set<u32> ms; for (auto &r : cs.comps) ms.insert(r.mark); for (auto &en : cs.ents) if (en.len == 1 && en.d && (ms.count(en.cp))) t.push_back(std::string(1, (char)en.bytes)); if (d->comp->chain) for (u32 c : {0x5e9u, 0x5d5u, 0x5bcu, 0x5c1u, 0x5b9u, 0x5d9u, 0x5b4u}) for (auto &en : cs.ents) if (en.len == 1 && en.d && en.cp == c) t.push_back(std::string(1, (char)en.bytes)); uniq(t); }
                std::vector<std::string> tos{"UCS-4LE", "UTF-16LE", "ASCII", "UTF-8"}; for (auto &m : e) if (!is_stateful(m) && (m == n || opt.thorough)) tos.push_back(m);
                for (auto &to : tos) for (int fl = 0; fl < 2; fl++) {
                    EncModel em(spec().names.of[canon(to)]); Desc ds(n, to, fl); if (!ds.isopen) return; Snap s0 = ds.save(); int unit = 1;
                    size_t dep = fit_depth(t.size(), opt.thorough ? 400000 : to == "UCS-4LE" && !fl ? 30000 : 4000, 4);
                    words(t, dep, [&](const std::vector<std::string> &w) {
                        if (enough()) return; std::string x = cat(w); Want wt; Cps text; DState st; size_t pos = 0;
                        for (;;) { Run r = run(*d, st, (const u8 *)x.data() + pos, x.size() - pos, text); st = r.s; pos += r.pos; if (r.end == UNSPEC) return; if (r.end == HOPELESS && fl) return; if (r.end == BAD && fl) { pos += unit; continue; } wt.end = r.end; wt.derr = r.end != DONE; break; }
                        flush(st, text); EState es; ERun er = em.run(es, text.data(), text.size(), fl, wt.out); wt.eerr = er.ilseq; em.flush(er.s, wt.out);
                        auto one = [&](size_t cap, bool split) {
                            ds.load(s0); c_trans++; std::string bad = judge(ds, wt, w, cap, split); if (bad.empty()) return;
                            if (in_child([&] { Desc y(n, to, fl); return !judge(y, wt, w, cap, split).empty(); })) violation("pair:" + n, fmt("%s -> %s flags=%d input %s%s first capacity %zd: %s", n.c_str(), to.c_str(), fl, hex(x).c_str(), split ? " token by token" : "", cap, bad.c_str())); else sh->unconfirmed++; };
                        one(-1, false); if (w.size() > 1) one(-1, true); if (w.size() <= 3) for (size_t c = 0; c <= wt.out.size() && c < 16; c++) { one(c, false); if (w.size() == 2) one(c, true); }
                        if (text.size() != w.size()) c_nontriv++;
                    });
                }
                sample(fmt("%s: words over %zu combining-relevant tokens into %zu targets", n.c_str(), t.size(), tos.size()));
            } else if (i / N == 3 && !is_stateful(n)) {   // encoder words over pair parts, unencodable characters, tags
                EncModel em(n); auto t = enc_chars(n, 2);
                { size_t k = 0; std::set<u32> seen(t.begin(), t.end()); for (auto &p : em.e.pairs) { if (k++ > 12) break; for (u32 c : {p.first.first, p.first.second}) if (seen.insert(c).second) t.push_back(c); } }
                for (int fl = 0; fl < 2; fl++) { Desc ds(UCS4, n, fl); if (!ds.isopen) return; Snap s0 = ds.save(); size_t dep = fit_depth(t.size(), opt.thorough ? 3000000 : 60000, 5);
                    words(t, dep, [&](const std::vector<u32> &cw) {
                        if (enough()) return; Want wt; EState es; ERun er = em.run(es, cw.data(), cw.size(), fl, wt.out); wt.eerr = er.ilseq; em.flush(er.s, wt.out); std::vector<std::string> w; for (u32 c : cw) w.push_back(u32s({c}));
                        auto one = [&](size_t cap, bool split) { ds.load(s0); c_trans++; std::string bad = judge(ds, wt, w, cap, split); if (bad.empty()) return; if (in_child([&] { Desc y(UCS4, n, fl); return !judge(y, wt, w, cap, split).empty(); })) violation("pair:" + n, fmt("%s -> %s flags=%d text %s%s first capacity %zd: %s", UCS4, n.c_str(), fl, cps(cw).c_str(), split ? " character by character" : "", cap, bad.c_str())); else sh->unconfirmed++; };
                        one(-1, false); if (cw.size() > 1) one(-1, true); if (cw.size() <= 3) for (size_t c = 0; c <= wt.out.size() && c < 16; c++) one(c, cw.size() == 2);
                    }); }
            } else if (i / N == 4 && !is_stateful(n)) {   // every pair base x every pair mark x a third character
                EncModel em(n); if (em.e.pairs.empty()) return; std::set<u32> mk; for (auto &p : em.e.pairs) mk.insert(p.first.second); std::vector<u32> th{'A', 0xD800, 0xE0041}; for (u32 m : mk) th.push_back(m); for (u32 b : em.e.pairbase) th.push_back(b);
                Desc ds(UCS4, n, 1); if (!ds.isopen) return; Snap s0 = ds.save();
                for (u32 b : em.e.pairbase) for (u32 m : th) for (u32 c : th) { if (enough()) return; Cps cw{b, m, c}; Want wt; EState es; ERun er = em.run(es, cw.data(), 3, true, wt.out); em.flush(er.s, wt.out); std::vector<std::string> w{u32s(cw)};
                    ds.load(s0); c_trans++; std::string bad = judge(ds, wt, w, -1, false); if (!bad.empty() && in_child([&] { Desc y(UCS4, n, 1); return !judge(y, wt, w, -1, false).empty(); })) violation("pair:" + n, fmt("text %s to %s discarding: %s", cps(cw).c_str(), n.c_str(), bad.c_str())); }
            }
        });
    });
}
