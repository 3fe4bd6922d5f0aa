// Exploration of the encoders of encodings without shift states: (specification state, complete
// state of the real descriptor) x every code point, comparing exact bytes.
#pragma once
#include "engine.hpp"

namespace ve {
inline bool is_tag(u32 c) { return c >= 0xE0000 && c < 0xE0080; }
struct EState { u32 pend = 0; bool first = true; bool operator<(const EState &o) const { return std::tie(pend, first) < std::tie(o.pend, o.first); } bool operator==(const EState &o) const { return pend == o.pend && first == o.first; } };
struct ERun { bool ilseq = false; size_t pos = 0; u64 count = 0; EState s; };
struct EncModel {
    Enc e; bool fffd; std::string name;
    EncModel(const std::string &n) : e(Enc::make(n)), name(n) { std::string t; fffd = e.enc(0xFFFD, false, t); }
    void flush(EState &s, std::string &o) const { if (s.pend) { e.enc(s.pend, s.first, o); s.pend = 0; s.first = false; } s.first = true; }
    bool one(EState &s, u32 c, std::string &o) const {
        if (s.pend) {
            auto i = e.pairs.find({s.pend, c});
            if (i != e.pairs.end()) { Enc::put(o, i->second & 0xffffffff, i->second >> 32); s.pend = 0; s.first = false; return true; }
        }
        std::string t; bool f = s.first && !s.pend;
        if (!e.enc(c, f, t)) return false;
        if (s.pend) { e.enc(s.pend, s.first, o); s.pend = 0; s.first = false; }
        if (e.pairbase.count(c)) { s.pend = c; return true; }
        o += t; s.first = false; return true;
    }
    // as documented: unencodable -> tags dropped, else dropped (discard) or U+FFFD or EILSEQ
    ERun run(EState s, const u32 *t, size_t n, bool discard, std::string &o) const {
        ERun r;
        for (size_t i = 0; i < n; i++) {
            if (!one(s, t[i], o)) {
                if (is_tag(t[i])) {}
                else if (discard) r.count++;
                else if (fffd && one(s, 0xFFFD, o)) r.count++;
                else { r.ilseq = true; r.pos = i * 4; r.s = s; return r; }
            }
        }
        r.pos = n * 4; r.s = s; return r;
    }
};
struct ENode { Snap snap; EState ms; std::string owed; int parent; Cps via; };
struct EncCfg { size_t cap = 6, maxnodes = 300; bool counts = false; bool precise = false; int flags = 0; u32 maxcp = 0x110000; bool reps = true; };
struct EncX {
    EncModel m; EncCfg cfg; Desc ds; std::vector<ENode> nodes; std::set<std::tuple<EState, std::string, std::string>> seen; std::map<EState, size_t> count; u64 overflow = 0;
    std::string name;
    EncX(const std::string &n, EncCfg c) : m(n), cfg(c), name(n) {}
    std::vector<Cps> path(int n) const { std::vector<Cps> v; for (; n >= 0 && nodes[n].parent >= 0; n = nodes[n].parent) v.push_back(nodes[n].via); std::reverse(v.begin(), v.end()); return v; }
    void add(const Snap &s, const EState &ms, const std::string &owed, int parent, const Cps &via) {
        auto k = std::make_tuple(ms, s.mem, owed); if (seen.count(k)) return;
        if (count[ms] >= cfg.cap || nodes.size() >= cfg.maxnodes) { overflow++; return; }
        seen.insert(k); count[ms]++; nodes.push_back({s, ms, owed, parent, via}); c_states++;
    }
    std::string judge(const EState &ms, const std::string &owed, const Cps &t, const Res &r, const std::string &got, ERun &er, std::string &mo) {
        mo.clear(); er = m.run(ms, t.data(), t.size(), cfg.flags & 1, mo);
        std::string want = owed + mo; EState s2 = er.s; m.flush(s2, want);
        if (want != got) return "bytes: expected " + hex(want.substr(0, 300)) + " got " + hex(got.substr(0, 300));
        if (er.ilseq == r.ok) return er.ilseq ? "unencodable character accepted" : fmt("rejected with %s at %zu", ename(r.err), r.used);
        if (er.ilseq && r.err != EILSEQ) return fmt("expected EILSEQ, got %s", ename(r.err));
        if (cfg.precise && r.used != er.pos) return fmt("expected to stop at %zu, stopped at %zu", er.pos, r.used);
        if (cfg.counts && r.ok && r.ret != er.count) return fmt("expected count %lu, got %zu", er.count, r.ret);
        return "";
    }
    bool confirm(int ni, const Cps &t) {
        auto p = path(ni);
        return in_child([&] {
            Desc f; if (!f.open(UCS4, name, cfg.flags)) return true; std::string got, want; EState ms;
            for (auto &s : p) { got += str(f.conv(u32s(s), 4096)); std::string o; ms = m.run(ms, s.data(), s.size(), cfg.flags & 1, o).s; want += o; }
            Res r = f.conv(u32s(t), std::max<size_t>(4096, t.size() * 16)); std::string o1 = str(r), ag = cfg.precise ? again(f, (const u8 *)t.data(), t.size() * 4, r) : ""; if (!ag.empty()) return true; Res fl = f.flush(256); got += o1 + str(fl); ERun er; std::string mo;
            return !judge(ms, want, t, r, got, er, mo).empty();
        });
    }
    std::string got, mo;
    void eval(int ni, const Cps &t, bool newnodes) {
        ENode &n = nodes[ni]; ds.load(n.snap); c_trans++;
        Res r = ds.conv((const u8 *)t.data(), 4 * t.size(), std::min(BUF, std::max<size_t>(256, t.size() * 16))); got.assign((const char *)r.out, r.outn); size_t nc = got.size();
        bool same = ds.at(n.snap);
        Snap s1; if (newnodes && !same) s1 = ds.save();
        std::string ag; if (cfg.precise && !r.ok) ag = again(ds, (const u8 *)t.data(), t.size() * 4, r);
        Res fl = ds.flush(256); got.append((const char *)fl.out, fl.outn); ERun er;
        std::string bad = judge(n.ms, n.owed, t, r, got, er, mo);
        if (bad.empty() && !fl.ok) bad = "flush failed"; if (bad.empty()) bad = ag;
        if (!bad.empty()) {
            if (confirm(ni, t)) { std::string p; for (auto &s : path(ni)) p += "[" + cps(s) + "] "; violation("enc:" + name, fmt("encoding %s to %s flags=%d after calls %s: %s", cps(t).c_str(), name.c_str(), cfg.flags, p.c_str(), bad.c_str())); } else sh->unconfirmed++;
            return;
        }
        if (!er.ilseq && !er.count) c_nontriv++;
        if (newnodes && (!same || !(er.s == n.ms))) { std::string tot = n.owed + mo; if (nc <= tot.size()) add(same ? n.snap : s1, er.s, tot.substr(nc), ni, t); }
    }
    void longs(const std::vector<u32> &ch) {
        if (nodes.empty()) return;
        periodic(ch.size(), 66000, [&](const std::vector<size_t> &v) { Cps t; for (size_t k : v) t.push_back(ch[k]); std::string o; m.run(EState{}, t.data(), t.size(), cfg.flags & 1, o); if (o.size() + 64 > BUF) return; eval(0, t, false); });
    }
    void explore() {
        if (!ds.open(UCS4, name, cfg.flags)) { violation("open:" + name, "cannot open " + name); return; }
        add(ds.save(), EState{}, "", -1, {});
        std::vector<u32> reps; { std::set<std::pair<size_t, int>> shapes; for (u32 c = 0x20; c < 0x30000 && reps.size() < 6; c++) { std::string o; EState s; bool ok = m.one(s, c, o); int cls = ok ? 1 : (m.fffd ? 2 : 0); if (cls == 0 || (c >= 0xD800 && c < 0xE000)) continue; if (shapes.insert({o.size(), cls + (s.pend ? 4 : 0)}).second) reps.push_back(c); } }
        Cps t;
        for (size_t i = 0; i < nodes.size() && !enough(); i++) {
            if (late()) { sh->truncated++; break; }
            for (u32 c = 0; c < cfg.maxcp && !enough(); c++) {
                if (!opt.thorough && (i > 0 || cfg.flags) && c >= 0x30000 && !(c >= 0xE0000 && c < 0xE0100) && c % 257 && (c & 0xffff) > 1) continue;
                t = {c}; eval(i, t, true);
                if (cfg.reps && (c < 0x10000 || i == 0)) { std::string o; EState s; if (c < 0x3000 || m.e.enc(c, false, o)) for (u32 p : reps) { t = {p, c}; eval(i, t, false); if (c < 0x30000) { t = {c, p}; eval(i, t, false); } } }
            }
            if (name != "C99") for (u32 c : {0x110000u, 0x110041u, 0x200000u, 0x1000041u, 0x10000041u, 0x7fffff41u, 0x7fffffffu, 0x7fffd800u}) { t = {c}; eval(i, t, true); }
        }
        if (overflow) sh->truncated++;
        sample(fmt("encode to %s: %zu states x all code points", name.c_str(), nodes.size()));
    }
};
}  // namespace ve
