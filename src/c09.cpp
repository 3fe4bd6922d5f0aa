// C09: after any history, reset and flush make the descriptor behave like a new one.
#include "words.hpp"
using namespace ve;
struct Call { std::string in; size_t cap; };
typedef std::vector<Call> H;
static std::string hstr(const H &h) { std::string s; for (auto &c : h) s += hex(c.in) + (c.cap < 4096 ? fmt("(cap %zu) ", c.cap) : " "); return s; }
static bool le_after(const Dec *d, const H &h, bool &known) {   // byte order learned by the history
    known = true; DState s; if (!d || !has_bom(d->name)) return false;
    for (auto &c : h) { if (c.cap < 4096) known = false; Cps o; Run r = run(*d, s, (const u8 *)c.in.data(), c.in.size(), o); if (r.end == UNSPEC) known = false; s = r.s; } return s.st;
}
struct Obs { std::string out; int err; size_t used, ret; std::string fl; int ferr; bool operator==(const Obs &o) const { return out == o.out && err == o.err && used == o.used && ret == o.ret && fl == o.fl && ferr == o.ferr; } };
static Obs observe(Desc &d, const std::string &w) { Res r = d.conv(w, 4096); Obs o{str(r), r.err, r.used, r.ret, "", 0}; Res f = d.flush(256); o.fl = str(f); o.ferr = f.err; return o; }
static std::string sobs(const Obs &o) { return fmt("%s at %zu, ret %zd, ", ename(o.err), o.used, o.ret) + hex(o.out) + "|" + hex(o.fl); }

struct Ck {
    std::string from, to; int flags; const Dec *d; std::vector<std::string> probes; Desc ds, rf; Snap fresh, freshle; std::string swapbom; std::map<std::string, bool> okstate[2];
    Ck(const std::string &f, const std::string &t, int fl, const Dec *dd, std::vector<std::string> p) : from(f), to(t), flags(fl), d(dd), probes(p), ds(f, t, fl), rf(f, t, fl) {
        if (!ds.isopen || !rf.isopen) return; fresh = ds.save(); freshle = fresh;
        if (d && has_bom(d->name)) { swapbom = Gen(*d, false).units(1, {0xFEFF}); rf.conv(swapbom, 64); freshle = rf.save(); }
    }
    bool le = false, either = false;
    std::string like(bool) { Snap now = ds.save(); std::string a = like_state(now, le); if (!a.empty() && either) { std::string b = like_state(now, !le); if (b.empty()) return b; } return a; }
    bool good() { return ds.isopen && rf.isopen; }
    // does the state now in `ds` behave like a new descriptor (byte order le kept)?
    std::string like_new(bool le) { return like_state(ds.save(), le); }
    std::string like_state(Snap now, bool le) {
        c_trans++; auto &memo = okstate[le]; if (memo.count(now.mem)) return "";
        for (auto &w : probes) { ds.load(now); Obs a = observe(ds, w); rf.load(fresh); if (le) rf.conv(swapbom, 64); Obs b = observe(rf, w); c_evals++; if (!(a == b)) return "then " + hex(w) + " gives " + sobs(a) + " but on a new descriptor " + sobs(b); }
        memo[now.mem] = true; c_states++; return "";
    }
    void replay(const H &h, Desc &x) { for (auto &c : h) x.conv(c.in, c.cap); }
    void fail(const H &h, const char *how, const std::string &bad) { violation("reset:" + from + ":" + to, fmt("%s -> %s flags=%d: after calls [%s] and %s: %s", from.c_str(), to.c_str(), flags, hstr(h).c_str(), how, bad.c_str())); }
    void check(const H &h) {
        bool known; le = le_after(d, h, known);
        // a call that may have stopped early: either byte order can be the one learned
        either = d && has_bom(d->name) && (!known || to != UCS4 || flags);
        ds.load(fresh); replay(h, ds); Snap s = ds.save(); std::string bad;
        // byte order after a truncated run: find it out by the reference
        auto conf = [&](int kind) { return either || in_child([&] {
            auto after = [&](Desc &x) { replay(h, x); if (kind == 0) x.reset(); else { if (kind >= 10) x.flush(kind - 10); if (!x.flush(256).ok) x.reset(); } };
            for (auto &w : probes) { Desc x(from, to, flags); after(x); Obs a = observe(x, w); Desc y(from, to, flags); if (le) y.conv(swapbom, 64); if (!(a == observe(y, w))) return true; } return false; }); };
        if (ds.reset() != 0) bad = "reset failed"; else bad = like(le);
        if (!bad.empty() && conf(0)) fail(h, "a reset", bad);
        // the other forms of the same call: a pointer to a null pointer instead of no pointer
        Snap after = ds.save(); for (int form = 1; form < 4; form++) { ds.load(s); if (ds.reset(form) != 0) fail(h, "a reset", fmt("reset failed (form %d)", form)); else if (!ds.at(after)) { bad = like(le); if (!bad.empty()) fail(h, fmt("a reset with %s", form == 1 ? "a null input" : form == 2 ? "a null output" : "null input and output").c_str(), bad); } }
        ds.load(s); Res f = ds.flush(256); std::string full = str(f);
        Snap fafter = ds.save(); { ds.load(s); Res f1 = ds.flush(256, 1); if (f1.ok != f.ok || f1.ret != f.ret || f1.err != f.err || str(f1) != full) fail(h, "a flush with a null input", "delivers " + show(f1) + " instead of " + hex(full)); else if (f.ok && !ds.at(fafter)) { bad = like(le); if (!bad.empty()) fail(h, "a flush with a null input", bad); } ds.load(fafter); }
        if (f.ok) {
            bad = like(le); if (!bad.empty() && conf(1)) fail(h, "a flush", bad);
            ds.load(s); ds.flush(256); Res g = ds.flush(256); if (!g.ok || g.outn || g.ret) fail(h, "a flush", "a second flush delivers " + show(g));
            ds.load(s); ds.flush(256); Res z = ds.flush(0); if (!z.ok || z.outn) fail(h, "a flush", "a second flush without room fails");
        } else { ds.reset(); bad = like(le); if (!bad.empty() && conf(1)) fail(h, "a failed flush and a reset", bad); }
        for (size_t k = 0; k < full.size() && k < 12; k++) {   // a flush that lacks room, then a reset or another flush
            ds.load(s); Res a = ds.flush(k); std::string got = str(a); if (a.ok) { fail(h, "a short flush", "succeeded without room"); continue; }
            if (a.err != E2BIG) { fail(h, "a short flush", std::string("failed with ") + ename(a.err)); continue; }
            Snap m = ds.save(); Res b = ds.flush(256); got += str(b);
            if (!b.ok || got != full) fail(h, "a short flush and another flush", "delivered " + hex(got) + " instead of " + hex(full));
            else { bad = like(le); if (!bad.empty() && conf(10 + k)) fail(h, "a short flush and another flush", bad); }
            ds.load(m); ds.reset(); bad = like(le); if (!bad.empty()) fail(h, "a short flush and a reset", bad);
        }
    }
};
int main(int argc, char **argv) {
    return ve_main(argc, argv, [] {
        auto e = encodings(); std::vector<std::tuple<std::string, std::string, int>> items;
        std::vector<std::string> ss, tt; 
        for (auto &n : e) { auto c = spec().set(n); bool comp = c && !c->comps.empty(); bool pair = false; if (c) for (auto &x : c->ents) if (x.cp2) pair = true; if (is_stateful(n) || comp || pair || has_bom(n)) ss.push_back(n); if (is_stateful(n) || pair || n == "UTF16" || n == "UTF32") tt.push_back(n); }
        for (int fl = 0; fl < 2; fl++) { for (auto &n : e) { items.push_back({n, UCS4, fl}); items.push_back({UCS4, n, fl}); } }
        for (auto &a : ss) for (auto &b : tt) { items.push_back({a, b, 0}); if (a == b || opt.thorough) items.push_back({a, b, 1}); }
        for (auto &n : e) if (std::find(tt.begin(), tt.end(), n) == tt.end()) for (int fl = 0; fl < 2; fl++) items.push_back({n, n, fl});
        std::stable_sort(items.begin(), items.end(), [](auto &a, auto &b) { return is_stateful(std::get<0>(a)) + is_stateful(std::get<1>(a)) > is_stateful(std::get<0>(b)) + is_stateful(std::get<1>(b)); });
        size_t budget = opt.thorough ? 60000 : 8000;
        pool(items.size(), [&](size_t i) {
            auto [f, t, fl] = items[i]; std::unique_ptr<Dec> d; std::vector<std::string> tok, probes;
            if (f == UCS4) { for (u32 c : enc_chars(t)) tok.push_back(u32s({c})); tok.push_back(std::string("\x41", 1)); } else { d = make_dec(f); tok = dec_tokens(*d); }
            probes = tok; if (tok.size() <= 24) for (auto &a : tok) for (auto &b : tok) probes.push_back(a + b);
            Ck ck(f, t, fl, d.get(), probes); if (!ck.good()) return;
            size_t dep = fit_depth(tok.size(), f != UCS4 && t != UCS4 ? budget / 6 : fl ? budget / 3 : budget, 4);
            words(tok, dep, [&](const std::vector<std::string> &w) {
                if (enough()) return; H h; for (auto &x : w) h.push_back({x, 4096}); ck.check(h); c_nontriv++;
                H g{{cat(w), 4096}}; if (w.size() > 1) ck.check(g);
                for (size_t cap : {0, 1, 2, 3, 4, 6}) { g[0].cap = cap; ck.check(g); if (w.size() > 1) { h.back().cap = cap; ck.check(h); } }
            });
            // longer calls: an item behind a run of another, or a run of it, with ample and with little room
            for (auto &a : tok) for (auto &b : tok) { if (enough() || late()) return; if (tok.size() > 14 && !opt.thorough && (&a - &b) % 3 && &a != &b) continue; for (size_t p : {9, 40}) { std::string x; for (size_t k = 0; k < p; k++) x += a; x += b; for (size_t cap : {(size_t)4096, (size_t)(p + 1), (size_t)(4 * p + 1)}) ck.check(H{{x, cap}}); } }
            if (i % 40 == 0) sample(fmt("%s -> %s flags=%d: all histories of up to %zu calls over %zu inputs, then reset/flush", f.c_str(), t.c_str(), fl, dep, tok.size()));
        });
    });
}
