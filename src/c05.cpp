// C05: splitting the input.  Reference: the same bytes in one call, on the same descriptor state.
#include "words.hpp"
using namespace ve;

static size_t g_room = 4096;
struct Out { std::string out; int err; size_t used; size_t ret; bool counted; std::string fl; };
struct Split {
    Desc &ds; const Snap *from; std::function<void(Desc &)> start;   // start: used when confirming (no snapshots)
    static void finish(Desc &d, Out &o) { Res f = d.flush(256); o.fl = str(f) + (f.ok ? "" : "!"); }
    static Out whole(Desc &d, const std::string &w) { Out o; Res r = d.conv(w, g_room); o.out = str(r); o.err = r.err; o.used = r.used; o.ret = r.ok ? r.ret : 0; o.counted = r.ok; finish(d, o); return o; }
    static Out pieces(Desc &d, const std::string &w, const std::vector<size_t> &cuts, bool empties) {
        Out o{"", 0, 0, 0, true, ""}; size_t pos = 0;
        for (size_t k = 0; k <= cuts.size(); k++) {
            size_t end = k < cuts.size() ? cuts[k] : w.size();
            if (empties) { Res e = d.conv((const u8 *)"", 0, 64); if (!e.ok || e.ret || e.outn) { o.err = -7; return o; } Res z = d.conv((const u8 *)"", 0, 0); if (!z.ok || z.ret || z.outn) { o.err = -7; return o; } }
            if (end == pos && k < cuts.size()) continue;
            Res r = d.conv((const u8 *)w.data() + pos, end - pos, g_room); o.out += str(r); pos += r.used;
            if (!r.ok) { o.counted = false; if (r.err != EINVAL || k == cuts.size()) { o.err = r.err; break; } } else { o.ret += r.ret; if (pos != end) { o.err = -8; break; } }
        }
        o.used = pos; finish(d, o); return o;
    }
    // shift sequences directly before a character that cannot be encoded may or may not count as consumed
    static bool samepos(const Dec *d, const std::string &w, size_t p, size_t q) { if (p == q) return true; if (!d || (!is_stateful(d->name) && !has_bom(d->name))) return false; Cps x, y; DState s; run(*d, s, (const u8 *)w.data(), p, x); run(*d, s, (const u8 *)w.data(), q, y); return x.size() == y.size(); }
    static std::string diff(const Dec *d, const std::string &w, const Out &a, const Out &b) {
        if (b.err == -7) return "a call with empty input did something";
        if (b.err == -8) return "a successful call left input unconverted";
        if (a.out + a.fl != b.out + b.fl) return "output differs: " + hex((a.out + "|" + a.fl).substr(0, 200)) + " in one call, " + hex((b.out + "|" + b.fl).substr(0, 200)) + " in pieces";
        if (a.err != b.err || (a.used != b.used && !(a.err == EILSEQ && samepos(d, w, a.used, b.used)))) return fmt("ends with %s at %zu in one call, %s at %zu in pieces", ename(a.err), a.used, ename(b.err), b.used);
        if (a.counted && b.counted && a.ret != b.ret) return fmt("counts %zu in one call, %zu in pieces", a.ret, b.ret);
        return "";
    }
};
static const Dec *g_dec;
static void check(Desc &ds, const Snap &s, const std::vector<std::string> &hist, const std::string &w, const std::vector<std::vector<size_t>> &cutsets) {
    ds.load(s); Out a = Split::whole(ds, w); c_evals++;
    for (auto &c : cutsets) for (int e = 0; e < 2; e++) {
        ds.load(s); Out b = Split::pieces(ds, w, c, e); c_trans++;
        std::string bad = Split::diff(g_dec, w, a, b);
        if (bad.empty()) continue;
        std::string f = ds.from, t = ds.to;
        if (in_child([&] { Desc x(f, t); for (auto &h : hist) x.conv(h, 4096); Out p = Split::whole(x, w); Desc y(f, t); for (auto &h : hist) y.conv(h, 4096); return !Split::diff(g_dec, w, p, Split::pieces(y, w, c, e)).empty(); })) {
            std::string cs, hs; for (size_t k : c) if (cs.size() < 60) cs += fmt("%zu ", k); for (auto &h : hist) hs += hex(h) + " ";
            violation("split:" + f, fmt("%s -> %s: input %s cut at [%s]%s after calls [%s]: %s", f.c_str(), t.c_str(), hex(w.substr(0, 200)).c_str(), cs.c_str(), e ? " with empty calls" : "", hs.c_str(), bad.c_str()));
        } else sh->unconfirmed++;
        if (enough()) return;
    }
}
static void cuts_of(size_t n, bool two, std::vector<std::vector<size_t>> &v) {
    v.clear(); if (n < 2) return;
    for (size_t i = 1; i < n; i++) v.push_back({i});
    std::vector<size_t> all; for (size_t i = 1; i < n; i++) all.push_back(i); if (n > 2) v.push_back(all);
    if (two) for (size_t i = 1; i < n; i++) for (size_t j = i + 1; j < n; j++) v.push_back({i, j});
}
// long texts: cut in the middle, at every byte, and in pieces of several sizes
static void longs(Desc &ds, const Snap &s, const std::vector<std::string> &t, size_t big) {
    periodic(t.size(), big, [&](const std::vector<size_t> &v) {
        std::string x; for (size_t k : v) { if (x.size() > 120000) break; x += t[k]; } if (late() || x.size() < 2) return; std::vector<std::vector<size_t>> cs; size_t n = x.size();
        cs.push_back({n / 2}); cs.push_back({n - 1}); for (size_t st : {1, 7, 64, 256, 4096, 32768, 65536}) if (st < n && (st > 1 || n < 40000)) { cs.emplace_back(); for (size_t k = st; k < n; k += st) cs.back().push_back(k); }
        g_room = BUF; check(ds, s, {}, x, cs); g_room = 4096; });
}
int main(int argc, char **argv) {
    return ve_main(argc, argv, [] {
        auto e = encodings();
        auto wt = [](const std::string &n) { auto c = spec().set(n); return is_stateful(n) ? 1000000 : is_unicode(n) || is_escape(n) ? 500000 : c ? (int)c->ents.size() : 0; };
        std::stable_sort(e.begin(), e.end(), [&](auto &a, auto &b) { return wt(a) > wt(b); });
        size_t budget = opt.thorough ? 200000 : 6000;
        pool(e.size() * 3, [&](size_t i) {
            const std::string &n = e[i / 3]; auto d = make_dec(n); std::vector<std::vector<size_t>> cuts;
            if (i % 3 == 0) {   // every token from every reachable decoder state, every cut
                g_dec = nullptr; DecCfg c; c.suffixes = false; DecX x(*d, c);
                if (!x.ds.open(n, UCS4)) return; x.add(x.ds.save(), DState{}, {}, -1, "");
                std::vector<std::vector<std::vector<size_t>>> cs(40); for (size_t k = 0; k < 40; k++) cuts_of(k, k <= 6, cs[k]);
                for (size_t k = 0; k < x.nodes.size() && !enough(); k++) {
                    if (late()) { sh->truncated++; break; }
                    auto h = x.path(k); Snap s = x.nodes[k].snap; u64 cnt = 0;
                    x.g.gen(x.nodes[k].ms.st, [&](const std::string &w, K kd) {
                        if (enough()) return;
                        // grow the set of states (judged by other checks)
                        { DNode &nd = x.nodes[k]; x.ds.load(nd.snap); Res r = x.ds.conv(w, 512); Cps o; Run mr = run(*d, nd.ms, (const u8 *)w.data(), w.size(), o); if (mr.end != UNSPEC) { Snap s1 = x.ds.save(); if (!(s1 == nd.snap) || !(mr.s == nd.ms)) x.add(s1, mr.s, {}, k, w); } }
                        if (w.size() < 2) return; cnt++;
                        if (w.size() < 40 && (cnt < 400000 || cnt % 16 == 0)) check(x.ds, s, h, w, cs[w.size()]);
                        if ((kd == CHARS || kd == SHIFT) && cnt % 8 == 0 && w.size() < 36) { std::string y = w + "A"; check(x.ds, s, h, y, cs[y.size()]); }
                    });
                }
                sample(fmt("%s: every token from %zu states, cut at every byte", n.c_str(), x.nodes.size()));
            } else if (i % 3 == 1) {   // all words of tokens
                g_dec = d.get();
                auto t = dec_tokens(*d); size_t dep = fit_depth(t.size(), budget, 5);
                for (const char *to : {"UCS-4LE", "UTF-16", "ISO-2022-KR", "ASCII"}) { Desc ds(n, to); if (!ds.isopen) return; Snap s = ds.save();
                    words(t, std::string(to) == "UCS-4LE" ? dep : std::min<size_t>(dep, 2), [&](const std::vector<std::string> &w) { if (enough()) return; std::string x = cat(w); if (x.size() < 2 || x.size() > 64) return; cuts_of(x.size(), x.size() <= 16, cuts); check(ds, s, {}, x, cuts); c_nontriv++; }); if (!strcmp(to, "UCS-4LE") || !strcmp(to, "UTF-16")) longs(ds, s, dec_tokens(*d, true), 30000); }
                for (auto &to : std::set<std::string>{n, UCS4, "UTF-8", "ISO-8859-1", "UTF-16LE"}) { Desc ds(n, to); if (!ds.isopen) return; Snap s = ds.save();   // blocks: runs cut at several places
                    run_texts(*d, [&](const std::string &x) { size_t k = x.size(); if (k < 2) return; std::vector<std::vector<size_t>> cs{{k - 1}, {1}, {k / 2}}; if (k > 20) { cs.push_back({8, 16}); cs.push_back({k / 3, k - 9}); cs.push_back({15}); } check(ds, s, {}, x, cs); }); }
            } else {   // all words of characters
                g_dec = nullptr;
                auto t = enc_chars(n); size_t dep = fit_depth(t.size(), budget, 4);
                Desc ds(UCS4, n); if (!ds.isopen) return; Snap s = ds.save();
                words(t, dep, [&](const std::vector<u32> &w) { if (enough()) return; std::string x = u32s(w); cuts_of(x.size(), x.size() <= 12, cuts); check(ds, s, {}, x, cuts); c_nontriv++; });
                std::vector<std::string> ct; for (u32 c : enc_chars(n, 1, false)) ct.push_back(u32s({c})); longs(ds, s, ct, 25000);
            }
        });
    });
}
