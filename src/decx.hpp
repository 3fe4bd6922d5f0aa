// Product exploration of a source encoding's decoder: (specification state, complete state of the
// real descriptor), explored breadth first.  From every node every generated byte string is run
// through the real reiconv_iconv() (to UCS-4LE) and through the specification automaton.
#pragma once
#include "engine.hpp"

namespace ve {
typedef std::function<void(const std::string &, K)> StrCb;

// ---------------------------------------------------------------- input generators
struct Gen {
    const Dec &d; std::string name; bool deep;
    Gen(const Dec &dd, bool dp) : d(dd), name(dd.name), deep(dp) {}
    static const std::vector<u8> &all() { static std::vector<u8> v = [] { std::vector<u8> x; for (int i = 0; i < 256; i++) x.push_back(i); return x; }(); return v; }
    static const std::vector<u8> &few() { static std::vector<u8> v{0x00, 0x0a, 0x1b, 0x21, 0x30, 0x39, 0x41, 0x7e, 0x80, 0x81, 0xa1, 0xbf, 0xfe, 0xff}; return v; }
    std::vector<u8> b64set, hexset;
    K kind(u64 st, const std::string &x) const { return d.step(st, (const u8 *)x.data(), x.size()).k; }

    void tree(u64 st, std::string &pre, K prek, const StrCb &cb, size_t maxd) const {
        size_t depth = pre.size() + 1;
        const std::vector<u8> *al = &all(); std::vector<u8> tmp;
        if (prek == HOPELESS && depth >= 3) al = &few();
        if (name == "UTF7") {
            if (depth >= 3 && !deep) { tmp = b64set; tmp.insert(tmp.end(), {'-', ' ', '.', 0x80, 0x0a, '~'}); al = &tmp; }
            if (depth >= 4) { tmp = {'A', 'D', 'N', 'P', 'Z', 'c', 'd', 'x', '2', '3', '/', '-', ' '}; al = &tmp; }
            if (prek == HOPELESS && depth >= 4) { tmp = {'A', '3', '-', ' '}; al = &tmp; }
        }
        if (is_escape(name) && depth >= 3) {
            tmp = hexset;
            if (pre[1] == 'U' || depth > 6) tmp = {'0', '1', 'd', 'D', 'g', '\\', 'u'};   // values are generated separately
            if (pre[1] == 'U' && depth > 5) tmp = {'0', '\\'};
            al = &tmp;
        }
        for (u8 b : *al) {
            pre.push_back((char)b); K k = kind(st, pre); cb(pre, k);
            if ((k == INC || k == HOPELESS) && pre.size() < maxd) tree(st, pre, k, cb, maxd);
            pre.pop_back();
        }
    }
    // 16/32-bit units, given most significant byte first; order follows the state
    std::string units(u64 st, std::initializer_list<u32> w) const {
        bool le; int sz;
        if (auto *p = dynamic_cast<const Utf16Dec *>(&d)) { le = p->bom ? st : p->le0; sz = 2; } else { auto *q = dynamic_cast<const Utf32Dec *>(&d); le = q->bom ? st : q->le0; sz = 4; }
        std::string s; for (u32 x : w) for (int i = 0; i < sz; i++) s += (char)(x >> (le ? 8 * i : 8 * (sz - 1 - i))); return s;
    }
    void cut(u64 st, const std::string &s, const StrCb &cb) const { for (size_t i = 1; i < s.size(); i++) { std::string x = s.substr(0, i); cb(x, kind(st, x)); } }
    void put(u64 st, const std::string &s, const StrCb &cb) const { cb(s, kind(st, s)); }
    void gen(u64 st, const StrCb &cb) {
        std::string pre;
        if (is_u16(name)) {
            for (u32 w = 0; w < 0x10000; w++) {
                std::string s = units(st, {w}); put(st, s, cb); if ((w & 0xff) == 0 || (w & 0xff) == 0xfe || (w & 0xff) == 0xff) cut(st, s, cb);
                if (w >= 0xD800 && w < 0xDC00) {
                    if (deep) { for (u32 x = 0; x < 0x10000; x++) put(st, units(st, {w, x}), cb); }
                    else { for (u32 x = 0xDC00; x < 0xE000; x++) put(st, units(st, {w, x}), cb);
                        for (u32 x : {0u, 0x41u, 0x20DCu, 0x00DCu, 0xD7FFu, 0xD800u, 0xDBFFu, 0xE000u, 0xFEFFu, 0xFFFEu, 0xFFFFu, 0x5C00u}) put(st, units(st, {w, x}), cb);
                        if (w == 0xD800 || w == 0xDBFF || w == 0xD9AB) for (u32 x = 0; x < 0x10000; x++) put(st, units(st, {w, x}), cb); }
                    cut(st, units(st, {w, 0xDC00}), cb); cut(st, units(st, {w, 0x4142}), cb); cut(st, units(st, {w, 0xDFFF}), cb);
                }
            }
        } else if (is_u32(name)) {
            for (u32 w = 0; w < 0x120000; w++) put(st, units(st, {w}), cb);
            for (u32 h = 0x12; h < 0x10000; h++) for (u32 l : {0u, 0x41u, 0xFEFFu, 0xD800u, 0xFFFFu}) put(st, units(st, {h << 16 | l}), cb);
            for (u32 w : {0u, 0x41u, 0xD800u, 0xDFFFu, 0xFEFFu, 0xFFFEu, 0x10FFFFu, 0x110000u, 0x7FFFFFFFu, 0x80000000u, 0xFFFE0000u, 0xFFFF0000u, 0x00FE0000u, 0xFF000000u, 0xFFFEFF00u}) cut(st, units(st, {w}), cb);
        } else if (name == "UTF7") {
            if (b64set.empty()) for (int c = 0; c < 256; c++) if (Utf7Dec::b64(c) >= 0) b64set.push_back(c);
            tree(st, pre, INC, cb, st ? 5 : 2);
            if (st) {   // surrogates at this bit offset
                static const char *A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
                unsigned nb = ((st >> 1) & 3) * 2; u32 acc = (st >> 3) & 15;
                auto mk = [&](std::vector<u32> us, u32 pad, const char *tail) {
                    std::vector<int> bits; for (u32 u : us) for (int i = 15; i >= 0; i--) bits.push_back(u >> i & 1);
                    for (unsigned i = 0; i < nb; i++) if (bits[i] != (int)(acc >> (nb - 1 - i) & 1)) return;
                    std::string s; size_t i = nb; for (; i < bits.size();) { int v = 0; for (int j = 0; j < 6; j++, i++) v = v << 1 | (i < bits.size() ? bits[i] : (int)pad); s += A[v]; }
                    s += tail; put(st, s, cb); };
                for (u32 h = 0xD700; h < 0xE000; h++) for (u32 l : {0x41u, 0xDBFFu, 0xDC00u, 0xDC01u, 0xDDEFu, 0xDFFEu, 0xDFFFu, 0xE000u, 0xD800u, 0xFFFFu}) { mk({h, l}, 0, "-"); if ((h & 15) == 0) { mk({h, l}, 0, ""); mk({h, l}, 1, "-"); mk({h, l}, 0, "A"); mk({h, l, 0x41}, 0, "-"); mk({h}, 0, "-"); mk({h}, 0, " "); } }
                for (u32 l = 0xDC00; l < 0xE000; l++) { mk({0xD800, l}, 0, "-"); mk({0xDBFF, l}, 0, "-."); }
            }
        } else if (is_escape(name)) {
            if (hexset.empty()) { for (const char *q = "0123456789abcdefABCDEF"; *q; q++) hexset.push_back(*q); for (int c : {(int)'g', (int)'G', (int)'@', (int)'/', (int)':', (int)'`', (int)'\\', (int)'u', 0xff, 0x00, (int)' '}) hexset.push_back(c); }
            tree(st, pre, INC, cb, 12);
            char b[64];
            auto both = [&](const char *f, u32 a, u32 c = 0) { snprintf(b, 64, f, a, c); put(st, b, cb); };
            for (u32 v = 0; v < 0x120000; v++) both(v % 3 ? "\\U%08x" : "\\U%08X", v);
            for (u32 v = 0; v < 32; v++) { both("\\U%08x", 1u << v); both("\\U%08x", 0xffffffffu << v); both("\\U%08x", 0x41u | 1u << v); }
            for (u32 h = 0xD700; h < 0xE100; h++) for (u32 l : {0x41u, 0xD7FFu, 0xD800u, 0xDBFFu, 0xDC00u, 0xDC01u, 0xDCABu, 0xDFFEu, 0xDFFFu, 0xE000u, 0xFFFFu}) both(h & 1 ? "\\u%04x\\u%04X" : "\\u%04X\\u%04x", h, l);
            for (u32 l = deep ? 0 : 0xD700; l < (deep ? 0x10000u : 0xE100u); l++) { both("\\uD800\\u%04x", l); both("\\uDBFF\\u%04X", l); }
            for (const char *base : {"\\ud83d\\ude00", "\\U0001f600", "\\u00e9", "\\U00000041", "\\u0024", "\\uDBFF\\uDFFF", "\\U0010ffff", "\\\\u0041", "\\u\\u00e9", "\\ud83d\\U0000de00", "\\ud83dx", "\\ud83d\\"}) {
                std::string s = base; cut(st, s, cb);
                for (size_t i = 0; i < s.size(); i++) for (int c = 0; c < 256; c++) { std::string t = s; t[i] = (char)c; put(st, t, cb); t += "AAAAAAAA"; put(st, t, cb); }
            }
        } else tree(st, pre, INC, cb, std::max<size_t>(d.look, name.rfind("ISO2022", 0) == 0 ? 4 : 1));
    }
};

// ---------------------------------------------------------------- explorer
struct DNode { Snap snap; DState ms; Cps owed; int parent; std::string via; };
struct DecCfg { bool precise = false; bool suffixes = true; size_t cap = 6; size_t maxnodes = 4000; bool deep = false; bool pairs1 = false; std::string to = "UCS-4LE"; };
struct DecX {
    const Dec &d; DecCfg cfg; Desc ds; std::vector<DNode> nodes; std::set<std::tuple<DState, std::string, Cps>> seen; std::map<DState, size_t> count; Gen g;
    std::vector<std::string> reps;  u64 overflow = 0;
    DecX(const Dec &dd, DecCfg c) : d(dd), cfg(c), g(dd, c.deep) {}
    std::vector<std::string> path(int n) const { std::vector<std::string> v; for (; n >= 0 && nodes[n].parent >= 0; n = nodes[n].parent) v.push_back(nodes[n].via); std::reverse(v.begin(), v.end()); return v; }
    int add(const Snap &s, const DState &ms, const Cps &owed, int parent, const std::string &via) {
        auto key = std::make_tuple(ms, s.mem, owed);
        if (seen.count(key)) return -1;
        if (count[ms] >= cfg.cap || nodes.size() >= cfg.maxnodes) { overflow++; return -1; }
        seen.insert(key); count[ms]++; nodes.push_back({s, ms, owed, parent, via}); c_states++; return nodes.size() - 1;
    }
    // expected vs actual for x from a state; returns "" if fine
    std::string judge(const DState &ms, const Cps &owed, const std::string &x, const Res &r, const Cps &impl_all, Run &mr, Cps &mout) {
        mout.clear(); mr = run(d, ms, (const u8 *)x.data(), x.size(), mout);
        if (mr.end == UNSPEC) return "";
        Cps want = owed; want.insert(want.end(), mout.begin(), mout.end()); DState s2 = mr.s; flush(s2, want);
        std::string bad;
        if (want != impl_all) bad = "text: expected " + cps(want) + " got " + cps(impl_all);
        else if (mr.end == DONE && !r.ok) bad = fmt("valid input rejected with %s at %zu", ename(r.err), r.used);
        else if (mr.end != DONE && r.ok) bad = fmt("%s input accepted (bad sequence at %zu)", mr.end == INC ? "truncated" : "malformed", mr.pos);
        else if (cfg.precise) {
            if (mr.end == BAD && (r.err != EILSEQ || r.used != mr.pos)) bad = fmt("expected EILSEQ at %zu, got %s at %zu", mr.pos, ename(r.err), r.used);
            if (mr.end == INC && (r.err != EINVAL || r.used != mr.pos)) bad = fmt("expected EINVAL at %zu, got %s at %zu", mr.pos, ename(r.err), r.used);
            if (mr.end == HOPELESS && ((r.err != EINVAL && r.err != EILSEQ) || r.used != mr.pos)) bad = fmt("expected an error at %zu, got %s at %zu", mr.pos, ename(r.err), r.used);
            if (mr.end == DONE && r.used != x.size()) bad = fmt("only %zu of %zu bytes consumed", r.used, x.size());
        }
        return bad;
    }
    bool confirm(int node, const std::string &x) {
        auto p = path(node);
        return in_child([&] {
            Desc f; if (!f.open(d.name, cfg.to)) return true; Cps got; DState ms; Cps want;
            for (auto &s : p) { Res r = f.conv(s, 4096); cps_of(r, got); Run m = run(d, ms, (const u8 *)s.data(), s.size(), want); ms = m.s; }
            Res r = f.conv(x, room(x, 4096)); cps_of(r, got); std::string ag = cfg.precise ? again(f, (const u8 *)x.data(), x.size(), r) : ""; Res fl = f.flush(256); cps_of(fl, got); Run mr; Cps mo; if (!ag.empty()) return true;
            return !judge(ms, want, x, r, got, mr, mo).empty();
        });
    }
    static size_t room(const std::string &x, size_t least) { return std::min(BUF, std::max(least, x.size() * 16)); }
    Cps all, mout;
    void eval(int ni, const std::string &x, bool newnodes) {
        DNode &n = nodes[ni]; ds.load(n.snap); c_trans++;
        Res r = ds.conv((const u8 *)x.data(), x.size(), room(x, 512)); all.clear(); cps_of(r, all); size_t ncall = all.size();
        bool same = ds.at(n.snap);
        Snap s1; if (newnodes && !same) s1 = ds.save();
        std::string ag; if (cfg.precise && !r.ok) ag = again(ds, (const u8 *)x.data(), x.size(), r);
        Res fl = ds.flush(256); cps_of(fl, all); Run mr;
        std::string bad = judge(n.ms, n.owed, x, r, all, mr, mout);
        if (!fl.ok && bad.empty()) bad = "flush failed"; if (bad.empty() && mr.end != UNSPEC) bad = ag;
        if (!bad.empty()) {
            if (confirm(ni, x)) { std::string p; for (auto &s : path(ni)) p += hex(s) + " "; violation("dec:" + d.name, fmt("%s: input %s after calls [%s]: %s", d.name.c_str(), x.size() > 400 ? fmt("%s... (%zu bytes)", hex(x.substr(0, 200)).c_str(), x.size()).c_str() : hex(x).c_str(), p.c_str(), bad.c_str())); }
            else sh->unconfirmed++;
            return;
        }
        if (mr.end == UNSPEC) return;
        if (mr.end != DONE || mout.size() != 1) c_nontriv++;
        if (newnodes && (!same || !(mr.s == n.ms))) {
            // what the specification has delivered but the implementation still holds
            Cps tot = n.owed; tot.insert(tot.end(), mout.begin(), mout.end());
            if (ncall > tot.size()) return;
            Cps owed(tot.begin() + ncall, tot.end());
            add(same ? n.snap : s1, mr.s, owed, ni, x);
        }
    }
    // long texts from the initial state
    void longs(const std::vector<std::string> &tok) {
        if (nodes.empty()) return;
        periodic(tok.size(), 66000, [&](const std::vector<size_t> &v) { std::string x; for (size_t k : v) { if (x.size() + tok[k].size() > 300000) break; x += tok[k]; } if (x.size() > BUF / 4) { Cps o; Run r = run(d, DState{}, (const u8 *)x.data(), x.size(), o); if (o.size() * 4 + 64 > BUF) return; } eval(0, x, false); });
    }
    void explore() {
        if (!ds.open(d.name, cfg.to)) { violation("open:" + d.name, "cannot open " + d.name); return; }
        add(ds.save(), DState{}, {}, -1, "");
        // representative tokens, one per shape
        { std::set<std::tuple<int, size_t, u32>> shapes; DState s0; Gen g0(d, false);
          g0.gen(0, [&](const std::string &x, K k) { if (reps.size() >= 8 || (k != CHARS && k != SHIFT)) return; Step t = d.step(0, (const u8 *)x.data(), x.size()); if (t.used != x.size()) return; if (shapes.insert({k, x.size(), t.n * 4 + (t.n && t.ch[0] > 0xffff)}).second) reps.push_back(x); }); }
        static const char *SUF[] = {"AAAA", "!~!~", "\xA1\xA1\xA1\xA1", "\xFF\xFF\xFF\xFF"};
        for (size_t i = 0; i < nodes.size() && !enough(); i++) {
            if (late()) { sh->truncated++; break; }
            u64 cnt = 0; std::string y; u64 st = nodes[i].ms.st;
            g.gen(st, [&](const std::string &x, K k) {
                if (enough()) return;
                eval(i, x, true); cnt++;
                if (cfg.suffixes && (k == CHARS || k == BAD || k == SHIFT)) {
                    bool heavy = cnt > 300000;   // long enumerations: one suffix each, rotating
                    for (int s = 0; s < 4; s++) if (!heavy || (int)(cnt % 4) == s) { y = x; y += SUF[s]; eval(i, y, false); }
                    if (!heavy) for (auto &p : reps) { y = p; y += x; eval(i, y, false); }
                }
            });
            if (i == 0) sample(fmt("%s: %lu inputs from the initial state, e.g. representative tokens %s", d.name.c_str(), cnt, reps.empty() ? "" : hex(reps.back()).c_str()));
        }
        if (cfg.pairs1) for (size_t i = 0; i < nodes.size() && !enough(); i++) for (int a = 0; a < 256; a++) for (int b = 0; b < 256; b++) eval(i, std::string{(char)a, (char)b}, false);
        if (overflow) sh->truncated++;
    }
};
}  // namespace ve
