// C12: round trips.  Text -> T -> text and bytes of T -> text -> T -> text, through the real library.
#include "words.hpp"
#include "sencx.hpp"
using namespace ve;
struct RT {
    std::string n; std::unique_ptr<Dec> d; Desc e, f; Snap e0, f0; std::unordered_map<u32, Cps> alias; std::vector<u32> rep; std::set<std::pair<u32, u32>> pairs; bool ok = false;
    RT(const std::string &nm) : n(nm), d(make_dec(nm)), e(UCS4, nm), f(nm, UCS4) {
        if (!e.isopen || !f.isopen) return; e0 = e.save(); f0 = f.save(); ok = true;
        if (is_stateful(n)) { SEncX x(n, {}); for (auto &k : x.rep) if (!x.own(k.first)) { rep.push_back(k.first); alias[k.first] = k.second; } pairs = x.pairs; }
        else { Enc en = Enc::make(n); std::string o; for (u32 c = 0; c < 0x110000; c++) { if (is_escape(n) && c == '\\') continue; o.clear(); if (!en.enc(c, false, o)) continue; rep.push_back(c);
                Cps back; DState s; if (is_table(n)) { Run r = vm::run(*d, s, (const u8 *)o.data(), o.size(), back); vm::flush(r.s, back); if (back.size() == 1) alias[c] = back; else if (back.empty()) alias[c] = {c}; else alias[c] = {c}; } else alias[c] = {c}; } }
        std::sort(rep.begin(), rep.end());
    }
    // is `back` what `t` may read back as?
    bool same(const Cps &t, const Cps &back) const {
        Cps w; DState s; if (d->comp) { for (u32 c : t) { std::string o; static thread_local std::unordered_map<std::string, Enc> ens; auto it = ens.find(n); if (it == ens.end()) it = ens.emplace(n, Enc::make(n)).first; it->second.enc(c, false, o); Run r = vm::run(*d, s, (const u8 *)o.data(), o.size(), w); s = r.s; } vm::flush(s, w); return w == back; }
        size_t g = 0; for (u32 c : t) { if (has_bom(n) && c == 0xFEFF) continue; if (g >= back.size()) return false; auto i = alias.find(c); if (back[g] != c && (i == alias.end() || std::find(i->second.begin(), i->second.end(), back[g]) == i->second.end())) return false; g++; }
        return g == back.size();
    }
    std::string go(Desc &a, Desc &b, const Cps &t) const {
        Res r = a.conv(u32s(t), BUF / 2); if (!r.ok || r.ret) return r.ok ? fmt("count %zu for text within the repertoire", r.ret) : fmt("text within the repertoire rejected: %s at %zu", ename(r.err), r.used);
        std::string o = str(r); Res fl = a.flush(256); if (!fl.ok) return "flush failed"; o += str(fl);
        Res q = b.conv(o, BUF - 4096); Cps back; cps_of(q, back); if (!q.ok) return fmt("own output rejected: %s at %zu of %s", ename(q.err), q.used, o.size() < 64 ? hex(o).c_str() : "..."); Res qf = b.flush(256); cps_of(qf, back);
        if (!same(t, back)) return "reads back as " + cps(back) + " through " + (o.size() < 64 ? hex(o) : "..."); return "";
    }
    // the same with UTF-8 as the text form
    Desc e8, f8; Snap e80, f80; bool ok8 = false; std::unique_ptr<EncModel> u8m; std::unique_ptr<Dec> u8d;
    std::string go8(Desc &a, Desc &b, const Cps &t) const {
        std::string w; EState es; es.first = false; for (u32 c : t) if (!u8m->one(es, c, w)) return "";
        Res r = a.conv(w, BUF / 2); if (!r.ok || r.ret) return r.ok ? fmt("count %zu for text within the repertoire", r.ret) : fmt("text within the repertoire rejected: %s at %zu", ename(r.err), r.used);
        std::string o = str(r); Res fl = a.flush(256); if (!fl.ok) return "flush failed"; o += str(fl);
        Res q = b.conv(o, BUF - 4096); std::string y = str(q); if (!q.ok) return fmt("own output rejected: %s at %zu", ename(q.err), q.used); Res qf = b.flush(256); y += str(qf);
        Cps back; DState s; Run rr = vm::run(*u8d, s, (const u8 *)y.data(), y.size(), back); if (rr.end != DONE) return "reads back as malformed UTF-8 " + hex(y.substr(0, 60));
        if (!same(t, back)) return "reads back as " + cps(back) + " through " + (o.size() < 64 ? hex(o) : "..."); return "";
    }
    void check8(const Cps &t) {
        if (enough()) return; if (!u8m) { u8m = std::make_unique<EncModel>("UTF8"); u8d = make_dec("UTF8"); ok8 = e8.open("UTF8", n) && f8.open(n, "UTF8"); if (!ok8) violation("open:" + n, "cannot open UTF-8 <-> " + n); else { e80 = e8.save(); f80 = f8.save(); } }
        if (!ok8) return; c_trans++; e8.load(e80); f8.load(f80); std::string bad = go8(e8, f8, t); if (bad.empty()) return;
        if (in_child([&] { Desc a("UTF8", n), b(n, "UTF8"); return !go8(a, b, t).empty(); })) violation("rt8:" + n, fmt("UTF-8 text %s (%zu characters) -> %s -> UTF-8: %s", cps(Cps(t.begin(), t.begin() + std::min<size_t>(t.size(), 24))).c_str(), t.size(), n.c_str(), bad.substr(0, 300).c_str())); else sh->unconfirmed++;
    }
    void check(const Cps &t) {
        if (t.size() > 6) check8(t); e.load(e0); f.load(f0); c_trans++; std::string bad = go(e, f, t); if (bad.empty()) return;
        // shrink
        Cps s = t; auto fails = [&](const Cps &x) { if (x.empty()) return false; e.load(e0); f.load(f0); return !go(e, f, x).empty(); };
        for (size_t len = s.size() / 2; len >= 1; len /= 2) for (size_t i = 0; i + len <= s.size();) { Cps y(s.begin(), s.begin() + i); y.insert(y.end(), s.begin() + i + len, s.end()); if (fails(y)) s = y; else i += len; }
        e.load(e0); f.load(f0); bad = go(e, f, s);
        if (in_child([&] { Desc a(UCS4, n), b(n, UCS4); return !go(a, b, s).empty(); })) violation("rt:" + n, fmt("text %s -> %s: %s", cps(s).c_str(), n.c_str(), bad.c_str())); else sh->unconfirmed++;
    }
    Cps acc; void push(std::initializer_list<u32> l) { acc.insert(acc.end(), l); if (acc.size() > 3000) done(); }
    void done() { if (!acc.empty() && !enough()) check(acc); acc.clear(); }
    // bytes -> text -> bytes -> text
    std::string goB(Desc &a, Desc &b, Desc &c, const std::string &w) {
        Res r = a.conv(w, 8192); if (!r.ok) return ""; Cps t; cps_of(r, t); Res f1 = a.flush(256); cps_of(f1, t);
        for (u32 x : t) if (is_escape(n) && x == '\\') return "";
        Res q = b.conv(u32s(t), 8192); if (!q.ok || q.ret) return ""; std::string o = str(q); Res f2 = b.flush(256); o += str(f2);
        Res z = c.conv(o, 8192); Cps u; cps_of(z, u); Res f3 = c.flush(256); cps_of(f3, u);
        if (!z.ok) return "own output " + hex(o) + " rejected";
        if (t == u || same(t, u)) return "";
        return "reads as " + cps(t) + ", encodes as " + hex(o) + " which reads as " + cps(u);
    }
    void checkB(const std::string &w) {
        f.load(f0); e.load(e0); c_trans++; Desc *g = &f2(); g->load(f0s); std::string bad = goB(f, e, *g, w); if (bad.empty()) return;
        if (in_child([&] { Desc a(n, UCS4), b(UCS4, n), c(n, UCS4); return !goB(a, b, c, w).empty(); })) violation("rtb:" + n, fmt("bytes %s of %s: %s", hex(w).c_str(), n.c_str(), bad.c_str())); else sh->unconfirmed++;
    }
    std::unique_ptr<Desc> f2p; Snap f0s; Desc &f2() { if (!f2p) { f2p = std::make_unique<Desc>(n, UCS4); f0s = f2p->save(); } return *f2p; }
};
int main(int argc, char **argv) {
    return ve_main(argc, argv, [] {
        auto e = encodings();
        auto wt = [](const std::string &n) { auto c = spec().set(n); return is_stateful(n) ? 1000000 : is_unicode(n) || is_escape(n) ? 500000 : c ? (int)c->ents.size() : 0; };
        std::stable_sort(e.begin(), e.end(), [&](auto &a, auto &b) { return wt(a) > wt(b); });
        pool(e.size() * 2, [&](size_t i) {
            const std::string &n = e[i / 2]; RT x(n); if (!x.ok) return; c_states++;
            if (i % 2 == 0) {
                for (u32 c : x.rep) { if (enough()) return; x.check({c}); }
                auto rp = enc_chars(n, 2, false); rp.erase(std::remove_if(rp.begin(), rp.end(), [&](u32 c) { return !x.alias.count(c); }), rp.end());
                if (x.rep.size() <= 700 || (opt.thorough && x.rep.size() < 40000)) { for (u32 a : x.rep) { if (enough()) return; if (late()) { sh->truncated++; break; } for (u32 b : x.rep) x.push({a, b}); } x.done(); }
                for (u32 c : x.rep) { if (enough()) return; for (u32 p : rp) x.push({p, c, p, p, c, c}); } x.done();
                for (u32 c : x.rep) x.push({c}); x.done();                                   // in order of code point
                for (size_t k = 0; k < x.rep.size(); k++) x.push({x.rep[k * 7919ull % x.rep.size()]}); x.done();
                words(rp, fit_depth(rp.size(), opt.thorough ? 100000 : 4000, 4), [&](const std::vector<u32> &w) { if (!enough()) { x.check(w); x.check8(w); } c_nontriv++; });
                periodic(rp.size(), 5000, [&](const std::vector<size_t> &v) { if (late() || enough()) return; Cps t; for (size_t k : v) t.push_back(rp[k]); if (t.size() < 12000) x.check(t); });
                { u64 k = 0; for (u32 c : x.rep) { if (k++ % (1 + x.rep.size() / (opt.thorough ? 200000 : 20000)) || enough()) continue; Cps t(1 + c % 13, 'A'); t.push_back(c); t.insert(t.end(), 9, 'A'); if (x.alias.count('A')) x.check8(t); } }
                // combining pairs that share one code
                for (auto &p : Enc::make(n).pairs) { x.pairs.insert(p.first); } for (auto &p : x.pairs) for (u32 q : rp) { u32 a = p.first, b = p.second; Cps t{q, a, b, q}; x.check(t); t = {a, b, a, b}; x.check(t); t = {a, a, b}; x.check(t); if (x.alias.count(b)) { t = {b, a, b, b}; x.check(t); } }
            } else {
                Gen g(*x.d, false); u64 cnt = 0;
                std::vector<std::string> pre{""}; auto sft = x.d->shifts(); for (auto &s : sft) pre.push_back(s); if (is_stateful(n)) for (auto &s : sft) for (auto &q : sft) pre.push_back(s + q); std::set<u64> done;
                auto rp = dec_tokens(*x.d, true, 1);
                for (auto &p : pre) { DState st; Cps o; Run r = run(*x.d, st, (const u8 *)p.data(), p.size(), o); if (r.end != DONE || (!done.insert(r.s.st).second && !p.empty())) continue;
                    g.gen(r.s.st, [&](const std::string &y, K k) { if (k != CHARS || enough()) return; cnt++; if (cnt > 60000 && cnt % 16) return; x.checkB(p + y); if (cnt % 4 == 0 || cnt < 3000) for (auto &q : rp) { x.checkB(p + y + q); if (p.empty()) x.checkB(q + y); } }); }
                if (x.d->look == 1) for (int a = 0; a < 256; a++) for (int b = 0; b < 256; b++) x.checkB({(char)a, (char)b});
            }
            if (i % 20 == 0) sample(fmt("%s: %zu characters, alone, in pairs and in words, to the encoding and back", n.c_str(), x.rep.size()));
        });
    });
}
