// C13: direct conversion S -> T against S -> Unicode -> T, for all pairs of encodings.
#include "words.hpp"
using namespace ve;
struct Src { std::string name; size_t base = ~(size_t)0; std::vector<std::string> words; struct R { Cps text; int err; size_t used; std::vector<size_t> pos; Cps flushed; }; std::vector<R> res; };
// one character at a time: pos[k] = input position at which the decoder stops once k characters are out
static void prepare(Src &s, const std::string &n, bool thorough) {
    s.name = n; auto d = make_dec(n); auto t = dec_tokens(*d); s.words = {""};
    words(t, fit_depth(t.size(), thorough ? 5000 : 500, 3), [&](const std::vector<std::string> &w) { s.words.push_back(cat(w)); });
    s.base = s.words.size() + 1000; Gen g(*d, false); u64 c = 0; std::set<std::string> have(s.words.begin(), s.words.end());
    // all tokens, thinned: every one of them meets some target
    if (!is_unicode(n) && !is_escape(n) && n != "UTF7") { u64 tot = 0; g.gen(0, [&](const std::string &, K) { tot++; }); s.base = s.words.size(); u64 step = std::max<u64>(1, tot / (thorough ? 200000 : 20000)); if (step > 1) step |= 1; g.gen(0, [&](const std::string &x, K k) { if (c++ % step == 0 && have.insert(x).second) s.words.push_back(x); }); }
    else for (u32 cp : {0x7fu, 0x80u, 0xa5u, 0xffu, 0x100u, 0x152u, 0x391u, 0x410u, 0x5d0u, 0x5d1u, 0x5bcu, 0x627u, 0xe01u, 0x1ea0u, 0x300u, 0x303u, 0x2014u, 0x2225u, 0x203eu, 0x3000u, 0x3042u, 0x304bu, 0x309au, 0xcau, 0x304u, 0x4e00u, 0x4e02u, 0x5203u, 0xac00u, 0xe000u, 0xe5e5u, 0xf8f0u, 0xff21u, 0xff5eu, 0xffe3u, 0xfffdu, 0x20000u, 0x2a6d6u, 0x10ffffu, 0xd7ffu}) { if (is_escape(n) || n == "UTF7") { Desc e(UCS4, n); Res r = e.conv(u32s({cp, 0x41}), 256); std::string o = str(r); o += str(e.flush(64)); s.words.push_back(o); } else { std::string o; Enc e = Enc::make(n); if (e.enc(cp, false, o)) { s.words.push_back(o); o += o; s.words.push_back(o); } } }
    // one token at every distance in a run of another (block-wise fast paths)
    if (s.base > s.words.size()) s.base = s.words.size();
    { std::string r0 = t[0]; for (auto &x : t) if (x == "A") r0 = x; for (auto &x : t) if (x != r0) for (size_t l = 3; l < 140; l += l < 40 ? 1 : 11) for (size_t k : {0, 40}) { std::string w; for (size_t q = 0; q < l; q++) w += r0; w += x; for (size_t q = 0; q < k; q++) w += r0; s.words.push_back(w); } }
    if (is_unicode(n)) in_runs(n, thorough ? 7 : 61, [&](const std::string &w) { s.words.push_back(w); });
    else if (is_table(n) && c < 1000) for (int b = 0; b < 256; b++) { std::string w(1 + b % 7, t[0][0]); for (auto &x : t) if (x == "A") w.assign(w.size(), 'A'); char l = w[0]; w += (char)b; w += std::string(9, l); s.words.push_back(w); }
    Desc a(n, UCS4); if (!a.isopen) return; Snap a0 = a.save();
    for (auto &w : s.words) {
        Src::R r; a.load(a0); Res q = a.conv(w, 8192); cps_of(q, r.text); r.err = q.err; r.used = q.used; Res f = a.flush(256); cps_of(f, r.flushed);
        for (size_t k = 0; k < r.text.size(); k++) { a.load(a0); Res p = a.conv(w, 4 * k); r.pos.push_back(p.used); }
        s.res.push_back(r);
    }
}
// texts of source n that contain all of its characters (Unicode forms: the BMP and a thinned rest), a few hundred per chunk
static std::vector<std::string> chunks(const std::string &n, size_t per) {
    std::vector<std::string> v; std::string cur; size_t k = 0;
    if (is_table(n)) { auto *cs = spec().set(n); for (auto &e : cs->ents) { if (!e.d) continue; for (int i = e.len - 1; i >= 0; i--) cur += (char)(e.bytes >> (8 * i)); if (++k >= per) { v.push_back(cur); cur.clear(); k = 0; } } if (k) v.push_back(cur); return v; }
    std::vector<u32> cp; if (is_stateful(n)) { std::unordered_map<u32, Cps> rep; repertoire(n, rep); for (auto &r : rep) if (r.first != 0x1b && r.first != 0xe && r.first != 0xf) cp.push_back(r.first); std::sort(cp.begin(), cp.end()); if (n == "UTF7") { std::vector<u32> q; for (u32 c : cp) if (c < 0x10000 || c % 64 == 1) q.push_back(c); cp = q; } } else for (u32 c = 0; c < 0x110000; c++) if ((c < 0xd800 || c >= 0xe000) && c != '\\' && (c < 0x10000 || c % 64 == 1)) cp.push_back(c);
    Desc e(UCS4, n); if (!e.isopen) return v; Snap e0 = e.save(); Cps t;
    auto put = [&] { e.load(e0); Res r = e.conv(u32s(t), BUF); cur = str(r); cur += str(e.flush(256)); v.push_back(cur); t.clear(); };
    for (u32 c : cp) { t.push_back(c); if (t.size() >= per) put(); } if (!t.empty()) put(); return v;
}
static void everything(const std::string &S, const std::vector<std::string> &targets, size_t per) {
    auto ch = chunks(S, per); Desc a(S, UCS4); if (!a.isopen) return; Snap a0 = a.save(); std::vector<Cps> text(ch.size()); std::vector<int> err(ch.size()); std::vector<size_t> used(ch.size());
    for (size_t k = 0; k < ch.size(); k++) { a.load(a0); Res r = a.conv(ch[k], BUF); cps_of(r, text[k]); err[k] = r.err; used[k] = r.used; if (r.ok) cps_of(a.flush(256), text[k]); }
    for (auto &T : targets) for (int fl = 0; fl < 2; fl++) {
        if (enough()) return; if (late()) { sh->truncated++; return; } Desc ds(S, T, fl), b(UCS4, T, fl); if (!ds.isopen || !b.isopen) return; Snap s0 = ds.save(), b0 = b.save();
        for (size_t k = 0; k < ch.size(); k++) {
            if (fl && err[k] == EILSEQ) continue; c_trans++; c_evals += text[k].size();
            auto go = [&](Desc &d, Desc &t) -> std::string {
                Res q = t.conv(u32s(text[k]), BUF); std::string want = str(q); bool stop = !q.ok; size_t ret = q.ret; if (!stop) want += str(t.flush(256));
                Res r = d.conv(ch[k], BUF); std::string got = str(r), rs = show(r); size_t cnt = r.ok ? r.ret : 0; bool fs = false; if (r.ok) { Res f = d.flush(256); got += str(f); if (f.ok) cnt += f.ret; else fs = true; }
                if (got.compare(0, std::min(got.size(), want.size()), want, 0, std::min(got.size(), want.size())) || (!stop && got.size() != want.size())) { size_t p = 0; while (p < got.size() && p < want.size() && got[p] == want[p]) p++; return fmt("output differs at byte %zu: %s directly, %s through Unicode", p, hex(got.substr(p, 16)).c_str(), hex(want.substr(p, 16)).c_str()); }
                if (stop) { if (r.ok && !fs) return "an unencodable character is accepted directly"; if (!r.ok && r.err != EILSEQ) return rs + " directly, EILSEQ through Unicode"; if (got.size() != want.size() && !fs) return "less output directly"; return ""; }
                if (r.err != err[k] || r.used != used[k]) return rs + fmt(" directly, %s at %zu through Unicode", ename(err[k]), used[k]);
                if (r.ok && cnt != ret) return fmt("counts %zu directly, %zu through Unicode", cnt, ret);
                return "";
            };
            ds.load(s0); b.load(b0); std::string bad = go(ds, b); if (bad.empty()) continue;
            if (in_child([&] { Desc x(S, T, fl), y(UCS4, T, fl); return !go(x, y).empty(); })) violation("pair:" + S + ":" + T, fmt("%s -> %s flags=%d: text of %zu characters from %s: %s", S.c_str(), T.c_str(), fl, text[k].size(), cps(text[k], 3).c_str(), bad.c_str())); else sh->unconfirmed++;
            if (enough()) return;
        }
    }
}
int main(int argc, char **argv) {
    return ve_main(argc, argv, [] {
        auto e = spec().names.order; size_t N = e.size();
        pool(N, [&](size_t i) {
            Src s; prepare(s, e[i], opt.thorough); if (!selected(e[i])) return; c_states += N;
            for (size_t j = 0; j < N && !enough(); j++) {
                if (late()) { sh->truncated++; break; }
                for (int fl = 0; fl < 2; fl++) {
                Desc ds(e[i], e[j], fl), b(UCS4, e[j], fl); if (!ds.isopen || !b.isopen) { return; } Snap s0 = ds.save(), b0 = b.save();
                for (size_t k = 0; k < s.words.size() && !enough(); k++) {
                    if (k >= s.base && i != j && (k + j) % (opt.thorough ? 2 : 7)) continue;   // every token meets several targets, every target several tokens
                    const auto &r = s.res[k]; const std::string &w = s.words[k]; c_trans++;
                    if (fl && r.err == EILSEQ) continue;   // discarding malformed input: C10
                    if (fl && k % 5 && i != j) continue;
                    auto go = [&](Desc &d, Desc &t) -> std::string {
                        // through Unicode
                        std::string want; int err = r.err; size_t used = r.used; size_t cnt = 0; bool counted = err == 0; int ferr = 0;
                        Res q = t.conv(u32s(r.text), 8192); want = str(q); if (q.ok) cnt = q.ret; else { if (q.err != EILSEQ) return std::string("intermediate: ") + ename(q.err); size_t ci = q.used / 4; err = EILSEQ; used = r.pos[ci]; counted = false; }
                        bool stopped = !q.ok;
                        if (!stopped) { for (u32 c : r.flushed) { Res z = t.conv(u32s({c}), 256); want += str(z); if (!z.ok) ferr = z.err; } }
                        if (!stopped && !ferr) { Res z = t.flush(256); want += str(z); ferr = z.err; }
                        // direct
                        Res a = d.conv(w, 8192); std::string got = str(a); std::string as = show(a); Res f; f.err = 0; if (!stopped) { f = d.flush(256); got += str(f); }
                        if (a.err != err) return fmt("%s directly, %s through Unicode (at %zu)", as.c_str(), ename(err), used);
                        if (a.used != used) return fmt("stops at %zu directly, at %zu through Unicode", a.used, used);
                        if (got != want) return "writes " + hex(got) + " directly, " + hex(want) + " through Unicode";
                        if (counted && a.ret != cnt) return fmt("counts %zu directly, %zu through Unicode", a.ret, cnt);
                        if (f.err != ferr) return fmt("flush: %s directly, %s through Unicode", ename(f.err), ename(ferr));
                        return "";
                    };
                    ds.load(s0); b.load(b0); std::string bad = go(ds, b);
                    if (r.text.size() > 1 || r.err) c_nontriv++;
                    if (!bad.empty() && in_child([&] { Desc x(e[i], e[j], fl), y(UCS4, e[j], fl); return !go(x, y).empty(); })) violation("pair:" + e[i] + ":" + e[j], fmt("%s -> %s flags=%d: input %s: %s", e[i].c_str(), e[j].c_str(), fl, hex(w).c_str(), bad.c_str()));
                }
                }
            }
            if (i % 20 == 0) sample(fmt("%s -> each of %zu encodings: %zu inputs", e[i].c_str(), N, s.words.size()));
        });
        auto big = e; std::stable_sort(big.begin(), big.end(), [](auto &x, auto &y) { auto w = [](const std::string &n) { auto c = spec().set(n); return !is_table(n) ? 100000 : (int)c->ents.size(); }; return w(x) > w(y); });
        std::vector<std::vector<std::string>> part(4); for (size_t j = 0; j < N; j++) part[j % 4].push_back(e[j]);
        pool(N * 4, [&](size_t i) { if (selected(big[i / 4])) for (size_t per : {opt.thorough ? 40 : 256, 20000}) everything(big[i / 4], part[i % 4], per); });
        sample("every character of every encoding to every other encoding, in texts of 256 characters, with and without discarding");
    });
}
