// Exploration of encoders with shift states: node = (complete state of the real encoder, state of a
// specification decoder reading everything written so far, text accepted but not yet written).
// From every node every code point is encoded; the bytes are read by the specification decoder.
#pragma once
#include "words.hpp"

namespace ve {
struct SNode { Snap snap; DState ms; Cps owed; std::string tail; int parent; std::string via; };   // via: "F" flush, else UCS-4LE text
struct SEncCfg { size_t cap = 400, maxnodes = 3000; bool fullall = false; };
struct SEncX {
    std::unique_ptr<Dec> d; std::string name; SEncCfg cfg; Desc ds; std::vector<SNode> nodes; std::set<std::tuple<DState, std::string, Cps, std::string>> seen; std::map<DState, size_t> count; u64 overflow = 0;
    std::unordered_map<u32, Cps> rep; bool fffd; std::set<std::pair<u32, u32>> pairs; std::map<std::pair<DState, std::string>, int> persnap;
    SEncX(const std::string &n, SEncCfg c) : d(make_dec(n)), name(n), cfg(c) { repertoire(n, rep); fffd = rep.count(0xFFFD); if (n == "ISO2022JP3") for (const char *z : {"@JISX0213-1", "@JISX0213-2"}) for (auto &e : spec().set(z)->ents) if (e.cp2) pairs.insert({e.cp, e.cp2}); }
    std::vector<std::string> path(int n) const { std::vector<std::string> v; for (; n >= 0 && nodes[n].parent >= 0; n = nodes[n].parent) v.push_back(nodes[n].via); std::reverse(v.begin(), v.end()); return v; }
    void add(const Snap &s, const DState &ms, const Cps &owed, const std::string &tail, int parent, const std::string &via) {
        auto k = std::make_tuple(ms, s.mem, owed, tail); if (seen.count(k)) return;
        // text still owed by an encoder in the same state: two examples stand for all
        if (!tail.empty() && persnap[{ms, s.mem}] >= 2) return;
        persnap[{ms, s.mem}]++;
        if (count[ms] >= cfg.cap || nodes.size() >= cfg.maxnodes) { overflow++; return; }
        seen.insert(k); count[ms]++; nodes.push_back({s, ms, owed, tail, parent, via}); c_states++;
    }
    // the control characters that are the encoding's own escape and shift codes: passed through, not covered
    bool own(u32 c) const { if (name.rfind("ISO2022", 0)) return false; bool so = name.rfind("ISO2022JP", 0) || name == "ISO2022JPMS"; return (name == "ISO2022JP2" && c >= 0x80 && c < 0xA0) /* C1 through a 96-character set: not specified */ || c == 0x1b || (so && (c == 0xe || c == 0xf)); }
    // what char c may read back as; outcome: 0 encodable, 1 dropped, 2 substituted, 3 EILSEQ
    int outcome(u32 c, const Cps *&alts) const {
        static const Cps sub{0xFFFD};
        auto i = rep.find(c); if (i != rep.end()) { alts = &i->second; return 0; }
        if (is_tag(c)) return 1; if (fffd) { alts = &sub; return 2; } return 3;
    }
    // got: text decoded from everything written (call + flush)
    std::string judge(const Cps &owed, const Cps &t, const Res &r, const Cps &got, const Run &mr, const Run &mf, bool flok, size_t &accepted) {
        if (mr.end != DONE && mr.end != INC) return "the bytes written are not valid text of the encoding";
        if (mf.end != DONE) return "the bytes written and then flushed are not valid text of the encoding";
        if (!d->base(mf.s.st)) return "the flush does not return to the initial shift state";
        if (!flok) return "flush failed";
        size_t g = 0; bool il = false; accepted = 0;
        u32 prev = owed.empty() ? 0 : owed.back();
        for (u32 c : owed) { if (g >= got.size() || got[g] != c) return "pending text lost or changed: got " + cps(got); g++; }
        for (u32 c : t) {
            const Cps *a = nullptr; int o = outcome(c, a); Cps self{c};
            if (o == 3 && prev && pairs.count({prev, c})) { o = 0; a = &self; }
            if (o == 3) { il = true; break; }
            accepted++;
            if (o == 1) continue;
            if (g >= got.size() || std::find(a->begin(), a->end(), got[g]) == a->end()) return "reads back as " + cps(got);
            g++; prev = c;
        }
        if (g != got.size()) return "reads back as " + cps(got);
        if (il && (r.ok || r.err != EILSEQ)) return fmt("unencodable character: expected EILSEQ, got %s", ename(r.err));
        if (!il && !r.ok) return fmt("rejected with %s", ename(r.err));
        return "";
    }
    bool confirm(int ni, const Cps &t) {
        auto p = path(ni);
        return in_child([&] {
            Desc f; if (!f.open(UCS4, name)) return true; std::string all; Cps text, owed; DState ms;
            for (auto &s : p) { if (s == "F") { std::string b = str(f.flush(256)); all += b; } else all += str(f.conv(s, 4096)); }
            // judged relative to the node: decode the history first
            Cps hist; Run h = run(*d, ms, (const u8 *)all.data(), all.size(), hist); if (h.end != DONE && h.end != INC) return true;
            Res r = f.conv(u32s(t), std::max<size_t>(4096, std::min(BUF, t.size() * 16))); std::string b = nodes[ni].tail + str(r); Res fl = f.flush(256); Cps got; Run m1 = run(*d, nodes[ni].ms, (const u8 *)b.data(), b.size(), got); std::string fb = b.substr(m1.pos) + str(fl); Run m2 = run(*d, m1.s, (const u8 *)fb.data(), fb.size(), got); size_t acc;
            return !judge(nodes[ni].owed, t, r, got, m1, m2, fl.ok, acc).empty();
        });
    }
    Cps got; std::string buf, buf2;
    void eval(int ni, const Cps &t, bool newnodes) {
        SNode &n = nodes[ni]; ds.load(n.snap); c_trans++;
        Res r = ds.conv((const u8 *)t.data(), 4 * t.size(), std::min(BUF, std::max<size_t>(256, t.size() * 16))); got.clear();
        buf = n.tail; buf.append((const char *)r.out, r.outn);
        Run m1 = run(*d, n.ms, (const u8 *)buf.data(), buf.size(), got); size_t ncall = got.size();
        bool same = ds.at(n.snap);
        Snap s1; if (newnodes && !same) s1 = ds.save();
        Res fl = ds.flush(256); buf2.assign(buf, m1.pos); buf2.append((const char *)fl.out, fl.outn);
        Run m2 = run(*d, m1.s, (const u8 *)buf2.data(), buf2.size(), got); size_t acc = 0;
        std::string bad = judge(n.owed, t, r, got, m1, m2, fl.ok, acc);
        if (!bad.empty()) {
            if (confirm(ni, t)) { std::string p; for (auto &s : path(ni)) p += s == "F" ? "flush " : "[" + hex(s) + "] "; violation("enc:" + name, fmt("encoding %s to %s after calls %s(UCS-4LE): %s", cps(t).c_str(), name.c_str(), p.c_str(), bad.c_str())); } else sh->unconfirmed++;
            return;
        }
        if (acc == t.size()) c_nontriv++;
        if (!newnodes) return;
        if (!same || !(m1.s == n.ms)) add(same ? n.snap : s1, m1.s, Cps(got.begin() + ncall, got.end()), buf.substr(m1.pos), ni, u32s(t));
    }
    void longs(const std::vector<u32> &chars) {
        if (nodes.empty()) return; std::vector<u32> ch; for (u32 c : chars) if (!own(c)) ch.push_back(c);
        periodic(ch.size(), 32000, [&](const std::vector<size_t> &v) { Cps t; for (size_t k : v) t.push_back(ch[k]); eval(0, t, false); });
    }
    void flushnode(int ni) {
        ds.load(nodes[ni].snap); c_trans++; DState ms = nodes[ni].ms; Res fl = ds.flush(256); Cps g; std::string b = nodes[ni].tail + str(fl); Run m = run(*d, ms, (const u8 *)b.data(), b.size(), g); if (m.end != DONE) return; Snap s = ds.save();
        add(s, m.s, {}, "", ni, "F");           // the reader goes on (concatenated outputs)
        add(s, DState{}, {}, "", ni, "F");      // a new reader starts here
    }
    // a call and a flush that run out of room, with every room up to what is needed, then continued with ample room
    void rooms(int ni, const Cps &t) {
        std::string in = u32s(t), all; size_t cn = 0, fn = 0;
        auto go = [&](Desc &q, size_t rc, size_t rf, std::string &o, size_t &cn_, size_t &fn_) -> bool {   // false: some step failed otherwise than for lack of room
            size_t pos = 0; cn_ = fn_ = 0;
            for (int k = 0;; k++) { Res r = q.conv((const u8 *)in.data() + pos, in.size() - pos, k ? 256 : rc); o += str(r); cn_ += r.outn; pos += r.used; if (r.ok) break; if (r.err != E2BIG || k > 1) return false; }
            for (int k = 0;; k++) { Res r = q.flush(k ? 256 : rf); o += str(r); fn_ += r.outn; if (r.ok) return true; if (r.err != E2BIG || k > 1) return false; }
        };
        ds.load(nodes[ni].snap); if (!go(ds, 256, 256, all, cn, fn)) return;   // not encodable
        auto one = [&](size_t rc, size_t rf) {
            ds.load(nodes[ni].snap); c_trans++; std::string o = nodes[ni].tail; size_t a, b; Cps g; bool ok = go(ds, rc, rf, o, a, b); Run m = run(*d, nodes[ni].ms, (const u8 *)o.data(), o.size(), g);
            if (ok && m.end == DONE && d->base(m.s.st) && o == nodes[ni].tail + all) return;
            auto p = path(ni); if (in_child([&] { Desc f; if (!f.open(UCS4, name)) return true; for (auto &s : p) if (s == "F") f.flush(256); else f.conv(s, 4096); std::string o2; size_t x, y; bool k = go(f, rc, rf, o2, x, y); return !k || o2 != all; })) { std::string h; for (auto &s : p) h += s == "F" ? "flush " : "[" + hex(s) + "] "; violation("enc:" + name, fmt("encoding %s to %s after calls %s(UCS-4LE) with room %zu, then more, and a flush with room %zu, then more: %s written, %s with ample room", cps(t).c_str(), name.c_str(), h.c_str(), rc, rf, hex(o).c_str(), hex(all).c_str())); } else sh->unconfirmed++;
        };
        for (size_t rc = 0; rc < cn && !enough(); rc++) one(rc, 256);
        for (size_t rf = 0; rf < fn && !enough(); rf++) one(256, rf);
    }
    void explore() {
        if (!ds.open(UCS4, name)) { violation("open:" + name, "cannot open " + name); return; }
        add(ds.save(), DState{}, {}, "", -1, "");
        Cps t; std::vector<u32> reps;
        for (size_t i = 0; i < nodes.size() && !enough(); i++) {
            if (late()) { sh->truncated++; break; }
            bool full = i == 0 || cfg.fullall;
            size_t before = nodes.size();
            for (u32 c = 0; c < 0x110000 && !enough(); c++) {
                if (!full && c >= 0x30000 && !(c >= 0xE0000 && c < 0xE0100) && (c & 0xfff) > 2) continue;
                if (!full && name == "UTF7" && c >= 0x3000 && (c & 0xff) > 3 && !(c >= 0xD700 && c < 0xE100)) continue;
                if (own(c)) continue;
                t = {c}; eval(i, t, true);
            }
            if (i == 0) { for (size_t k = before; k < nodes.size() && reps.size() < 12; k++) { u32 c; memcpy(&c, nodes[k].via.data(), 4); reps.push_back(c); } reps.push_back('A'); reps.push_back('\n'); reps.push_back('\r'); reps.push_back(0xE0041); reps.push_back(0xD800);
                for (auto &kv : rep) if (!own(kv.first) && !enough()) for (u32 p : reps) { t = {p, kv.first}; eval(0, t, false); t = {kv.first, p}; eval(0, t, false); if (name != "UTF7") { t = {p, kv.first, p}; eval(0, t, false); } } }
            for (u32 c : {0x110000u, 0x110041u, 0x7fffffffu}) { t = {c}; eval(i, t, true); }
            for (u32 c : enc_chars(name)) if (!own(c)) rooms(i, {c}); rooms(i, {});
            flushnode(i);
        }
        if (overflow) sh->truncated++;
        sample(fmt("encode to %s: %zu product states x code points", name.c_str(), nodes.size()));
    }
};
}  // namespace ve
