// C11: what happens to characters the target cannot represent, and the returned count.
#include "words.hpp"
#include "sencx.hpp"
using namespace ve;
// stateful targets: classify by repertoire; reference output = encoding of the text with substitutions made by hand
struct St {
    SEncX x; Desc ds, rf; Snap s0, r0; std::string n;
    St(const std::string &nm) : x(nm, {}), ds(UCS4, nm), rf(UCS4, nm), n(nm) { if (good()) { s0 = ds.save(); r0 = rf.save(); } }
    bool good() { return ds.isopen && rf.isopen; }
    std::string judge(Desc &d, Desc &r, const Cps &t) {
        Cps sub; size_t pos = 0; u64 count = 0; bool il = false; u32 prev = 0;
        for (u32 c : t) {
            const Cps *a; int o = x.outcome(c, a);
            if (o == 3 && prev && x.pairs.count({prev, c})) o = 0;
            if (o == 3) { il = true; break; }
            pos += 4; if (o == 0) { sub.push_back(c); prev = c; } else if (o == 1) { if (n == "ISO2022JP2") sub.push_back(c); } else { sub.push_back(0xFFFD); count++; prev = 0xFFFD; }
        }
        Res w = r.conv(u32s(sub), 4096); std::string want = str(w); if (!w.ok || w.ret) return "text of representable characters not converted cleanly: " + show(w); Res wf = r.flush(256); want += str(wf);
        std::string in = u32s(t); Res g = d.conv(in, 4096); std::string got = str(g); std::string gs = show(g), ag = again(d, (const u8 *)in.data(), in.size(), g); if (!ag.empty()) return ag; Res gf = d.flush(256); got += str(gf);
        if (il && (g.err != EILSEQ || g.used != pos)) return fmt("expected EILSEQ at %zu, got %s", pos, gs.c_str());
        if (!il && (!g.ok || g.ret != count)) return fmt("expected count %lu, got %s", count, gs.c_str());
        if (got != want) return "wrote " + hex(got) + ", expected " + hex(want);
        return "";
    }
    void check(const Cps &t) {
        for (u32 c : t) if (x.own(c)) return;
        ds.load(s0); rf.load(r0); c_trans++; std::string bad = judge(ds, rf, t); if (bad.empty()) return;
        if (in_child([&] { Desc p(UCS4, n), q(UCS4, n); return !judge(p, q, t).empty(); })) violation("sub:" + n, fmt("UCS-4LE -> %s: %s: %s", n.c_str(), cps(t).c_str(), bad.c_str())); else sh->unconfirmed++;
    }
};
// other sources: count and position seen through a decoder
static void decoded(const std::string &s, const std::string &t, bool twos) {
    auto d = make_dec(s); EncModel m(t); Desc ds(s, t); if (!ds.isopen) return; Snap s0 = ds.save(); auto tok = dec_tokens(*d, true);
    words(tok, fit_depth(tok.size(), 1500, 3), [&](const std::vector<std::string> &w) {
        if (enough()) return; std::string x = cat(w); Cps o; std::vector<size_t> at; DState st; size_t p = 0; 
        while (p < x.size()) { Step q = d->step(st.st, (const u8 *)x.data() + p, x.size() - p); if (q.k != CHARS && q.k != SHIFT) return; for (u32 i = 0; i < q.n; i++) { size_t k = o.size(); emit(*d, st, q.ch[i], o); at.resize(o.size(), p); (void)k; } p += q.used; st.st = q.st; }
        flush(st, o); at.resize(o.size(), p); bool late = twos;   // a character may come out only at the flush
        std::string want; ERun er = m.run(EState{}, o.data(), o.size(), false, want); { EState e2 = er.s; m.flush(e2, want); }
        size_t pos = er.ilseq ? at[er.pos / 4] : x.size();
        auto go = [&](Desc &q) -> std::string { Res r = q.conv(x, 4096); std::string got = str(r); std::string rs = show(r), ag = again(q, (const u8 *)x.data(), x.size(), r); if (!ag.empty()) return ag; Res f = q.flush(256); got += str(f); if (er.ilseq ? (r.err != EILSEQ && !(late && r.ok && f.err == EILSEQ)) : !r.ok || !f.ok) return "got " + rs + " and " + show(f) + " from the flush"; if (late && er.ilseq) return r.ok || got.compare(0, want.size(), want) == 0 || !d->comp ? "" : "wrote " + hex(got) + ", expected " + hex(want); if (late && r.ret + f.ret != er.count) return fmt("count %zu and %zu in the flush, expected %lu", r.ret, f.ret, er.count); if (!late && !is_stateful(s) && !has_bom(s) && r.used != pos) return fmt("stopped at %zu, expected %zu", r.used, pos); if (!late && r.ok && r.ret != er.count) return fmt("count %zu, expected %lu", r.ret, er.count); if (got != want) return "wrote " + hex(got) + ", expected " + hex(want); return ""; };
        ds.load(s0); c_trans++; std::string bad = go(ds); if (!bad.empty() && in_child([&] { Desc y(s, t); return !go(y).empty(); })) violation("sub:" + s + ":" + t, fmt("%s -> %s: input %s: %s", s.c_str(), t.c_str(), hex(x).c_str(), bad.c_str()));
    });
}
int main(int argc, char **argv) {
    return ve_main(argc, argv, [] {
        auto e = encodings(); std::vector<std::string> plain, st; for (auto &n : e) (is_stateful(n) ? st : plain).push_back(n);
        std::vector<std::pair<std::string, std::string>> pr; auto twos = [](const std::string &n) { if (n == "ISO2022JP3") return true; auto c = spec().set(n); if (c) for (auto &x : c->ents) if (x.cp2) return true; return c && !c->comps.empty(); };
        for (auto &n : e) for (const char *t : {"USASCII", "ISO88591", "UTF8", "UTF16", "KOI8R", "JAVA"}) pr.push_back({n, t});
        size_t budget = opt.thorough ? 60000 : 4000;
        pool(plain.size() + st.size() + pr.size(), [&](size_t i) {
            if (i < st.size()) {
                St s(st[i]); if (!s.good()) return; c_states++;
                for (u32 c = 0; c < 0x110000 && !enough(); c++) { s.check({c}); if (c < 0x30000 ? c % 4 == 0 : c % 256 == 0) { s.check({'A', c, 'B'}); s.check({c, c}); } }
                auto t = enc_chars(st[i]); words(t, fit_depth(t.size(), budget, 4), [&](const std::vector<u32> &w) { if (!enough()) s.check(w); }); c_nontriv++;
            } else if (i < st.size() + plain.size()) {
                const std::string &n = plain[i - st.size()];
                for (int fl = 0; fl < 2; fl++) {
                    EncCfg c; c.counts = c.precise = true; c.flags = fl; c.reps = opt.thorough && fl == 0; EncX x(n, c); x.explore(); x.longs(enc_chars(n)); if (is_unicode(n)) x.longs({0xd800, 0x41});
                    if (x.nodes.empty()) return; auto t = enc_chars(n); words(t, fit_depth(t.size(), budget, 4), [&](const std::vector<u32> &w) { if (!enough()) x.eval(0, w, false); });
                }
                for (const char *f : {"UTF8", "UTF16LE", "UTF16BE", "UTF16", "UTF32LE", "UCS2LE", "UCS2INTERNAL"}) { if (enough() || late()) break; PairX x(f, n, false); in_runs(f, opt.thorough ? 3 : 61, [&](const std::string &w) { x.check(w); }); }
            } else { auto &p = pr[i - st.size() - plain.size()]; decoded(p.first, p.second, twos(p.first)); }
        });
    });
}
