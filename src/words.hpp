// Small alphabets of tokens (byte strings of a source encoding) and characters (for a target
// encoding), one or more per behavioural class, from which all words up to a depth are built.
#pragma once
#include "decx.hpp"
#include "encx.hpp"

namespace ve {
inline std::vector<const char *> component_sets(const std::string &n) {
    if (n == "HZ") return {"USASCII", "GB231280"};
    if (n == "ISO2022KR") return {"USASCII", "KSC5601"};
    if (n == "ISO2022CN") return {"USASCII", "GB231280", "@CNS11643-1", "@CNS11643-2"};
    if (n == "ISO2022CNEXT") return {"USASCII", "GB231280", "@CNS11643-1", "@CNS11643-2", "ISOIR165", "@CNS11643-3", "@CNS11643-4", "@CNS11643-5", "@CNS11643-6", "@CNS11643-7"};
    if (n == "ISO2022JPMS") return {"USASCII", "JISX0201", "@JISX0208-MS", "@JISX0212-MS"};
    if (n == "ISO2022JP1") return {"USASCII", "JISX0201", "JISX0208", "JISX0212"};
    if (n == "ISO2022JP2") return {"USASCII", "JISX0201", "JISX0208", "JISX0212", "GB231280", "KSC5601", "ISO88591", "ISO88597"};
    if (n == "ISO2022JP3") return {"USASCII", "JISX0201", "JISX0208", "@JISX0213-1", "@JISX0213-2"};
    if (n == "ISO2022JP") return {"USASCII", "JISX0201", "JISX0208"};
    return {};
}
inline void uniq(std::vector<std::string> &v) { std::vector<std::string> o; std::set<std::string> s; for (auto &x : v) if (s.insert(x).second) o.push_back(x); v = o; }

// valid: only tokens that can occur in valid text
inline std::vector<std::string> dec_tokens(const Dec &d, bool valid = false, size_t per = 1) {
    const std::string &n = d.name; std::vector<std::string> v; typedef std::string S;
    auto B = [](std::initializer_list<int> l) { S s; for (int x : l) s += (char)x; return s; };
    if (n == "UTF8") { v = {"A", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\xef\xbb\xbf", "\n", "\xf4\x8f\xbf\xbf", "\xf3\xa0\x81\x81"}; if (!valid) { v.push_back("\xff"); v.push_back("\xe2\x82"); v.push_back("\xed\xa0\x80"); v.push_back("\x80"); } return v; }
    if (is_u16(n)) { Gen g(d, false); for (u32 w : {0x41u, 0x20acu, 0xfeffu, 0xfffeu, 0xau, 0x4100u}) v.push_back(g.units(0, {w})); if (n[1] == 'T') { v.push_back(g.units(0, {0xd83d, 0xde00})); v.push_back(g.units(0, {0xdb40, 0xdc41})); } if (!valid) { v.push_back(g.units(0, {0xdc00})); v.push_back(g.units(0, {0xd800, 0x41})); v.push_back(B({0x41})); v.push_back(B({0xd8})); } return v; }
    if (is_u32(n)) { Gen g(d, false); for (u32 w : {0x41u, 0x20acu, 0xfeffu, 0xfffe0000u, 0x1f600u, 0xau, 0x41000000u, 0xe0041u}) if (valid ? w < 0x110000 : true) v.push_back(g.units(0, {w})); if (!valid) { v.push_back(g.units(0, {0xd800})); v.push_back(g.units(0, {0x110000})); v.push_back(B({0})); v.push_back(B({0, 0, 0})); } return v; }
    if (n == "UTF7") { v = {"A", "+AOk", "+AOk-", "+", "-", "+-", "AGE", "IKw", "+2D3eAA-", "\n", " ", "2D3eAA", "Z"}; if (!valid) { v.push_back("~"); v.push_back("\x80"); v.push_back("+3gA-"); v.push_back("+2D0-"); } return v; }
    if (is_escape(n)) { v = {"A", "\\u00e9", "\\", "u", "\n", "\\u20AC", "0", "\\u0024"}; if (n == "C99") v.push_back("\\U0001f600"); else v.push_back("\\ud83d\\ude00"); if (!valid) { v.push_back("\\u00"); v.push_back("\\ud83d"); v.push_back("\xff"); v.push_back("\\U00110000"); v.push_back("\\u0041"); } return v; }
    if (is_stateful(n)) {
        v = d.shifts(); v.push_back("A"); v.push_back("\n"); v.push_back("!!"); v.push_back("0!"); v.push_back("\r");
        if (n == "HZ") { v.push_back("~"); v.push_back("~~"); }
        if (n == "ISO2022JP2") { v.push_back("\x1bNi"); v.push_back("\x1bNA"); }
        if (n == "ISO2022JP3") { v.push_back("$w"); v.push_back("$+"); }
        if (n.rfind("ISO2022CN", 0) == 0) v.push_back("\x1bN!!"); if (n == "ISO2022CNEXT") v.push_back("\x1bO!!");
        if (!valid) { v.push_back("\x80"); v.push_back("\x1b$"); v.push_back("\x1b(K"); v.push_back("\x1b"); v.push_back("~x"); v.push_back("!"); }
        uniq(v); return v;
    }
    const Charset &cs = *spec().set(n); std::map<std::tuple<int, bool, bool, bool>, size_t> shapes;
    auto *td = dynamic_cast<const TableDec *>(&d); std::set<u32> bases, marks; for (auto &r : cs.comps) { bases.insert(r.base); marks.insert(r.mark); }
    auto take = [&](const Entry &e, bool hi) { if (!e.d || (d.comp && e.len > 1)) return; auto &k = shapes[{e.len * 8 + (e.cp2 ? 1 : 0) + (hi ? 2 : 0) + (e.cp > 0xffff ? 4 : 0), e.e, bases.count(e.cp) > 0, marks.count(e.cp) > 0}]; if (k >= per + (bases.count(e.cp) || marks.count(e.cp) ? 1 : 0)) return; k++; S s; for (int i = e.len - 1; i >= 0; i--) s += (char)(e.bytes >> (8 * i)); v.push_back(s); };
    for (auto &e : cs.ents) if (e.len > 1 || e.bytes >= 0x41) take(e, e.bytes >= 0x80 && e.len == 1);
    for (auto &e : cs.ents) if (e.cp == 0x41 || e.cp == 10) { S s; for (int i = e.len - 1; i >= 0; i--) s += (char)(e.bytes >> (8 * i)); if (e.d && e.len == 1) v.push_back(s); }
    // chars whose code is a pair base (buffered when encoded), and composition chains
    if (d.comp) for (auto &r : cs.comps) if (v.size() < 16) { for (auto &e : cs.ents) if (e.len == 1 && e.d && (e.cp == r.base || e.cp == r.mark)) v.push_back(S(1, (char)e.bytes)); if (shapes.size() && v.size() > 10) break; }
    if (td && td->t.gb) v.push_back(B({0x90, 0x30, 0x81, 0x30}));
    if (!valid) { int nbad = 0, ninc = 0; for (int b = 255; b >= 0 && (nbad < 1 || ninc < 1); b--) { u8 c = b; K k = d.step(0, &c, 1).k; if (k == BAD && !nbad) { nbad++; v.push_back(S(1, (char)b)); } if (k == HOPELESS && nbad < 2) { nbad++; v.push_back(S(1, (char)b)); } if (k == INC && ninc < 1) { ninc++; v.push_back(S(1, (char)b)); v.push_back(S(1, (char)b) + "\x01"); v.push_back(S(1, (char)b) + "\xff"); } } }
    uniq(v); return v;
}

inline std::vector<u32> enc_chars(const std::string &n, size_t per = 1, bool unenc = true) {
    std::vector<u32> v{'A', '\n'}; std::set<u32> have{'A', '\n'}; auto add = [&](u32 c) { if (have.insert(c).second) v.push_back(c); };
    if (is_unicode(n)) { for (u32 c : {0xe9u, 0x20acu, 0x1f600u, 0xfeffu, 0xfffdu}) add(c); if (unenc) for (u32 c : {0xd800u, 0x110000u, 0xe0041u, 0xfffeu}) add(c); return v; }
    if (n == "UTF7") { for (u32 c : {0xe9u, 0x20acu, 0x1f600u, (u32)'+', (u32)'-', (u32)'~', (u32)' ', (u32)'z', 0u}) add(c); if (unenc) for (u32 c : {0xd800u, 0x110000u, 0xe0041u}) add(c); return v; }
    if (is_escape(n)) { for (u32 c : {0xe9u, 0x20acu, 0x1f600u, (u32)'u', 0x80u, 0x9fu}) add(c); if (unenc) for (u32 c : {0xd800u, 0xe0041u}) add(c); if (unenc && n == "JAVA") add(0x110000); return v; }
    if (is_stateful(n)) {
        auto cn = component_sets(n); std::map<u32, u32> sig; for (size_t i = 0; i < cn.size(); i++) for (auto &e : spec().set(cn[i])->ents) if (e.e && !e.cp2 && e.cp >= 0x20) sig[e.cp] |= 1u << (2 * i + ((std::string(cn[i]) == "JISX0201" || std::string(cn[i]).rfind("ISO8859", 0) == 0) && e.bytes >= 0x80));
        std::unordered_map<u32, Cps> rep; repertoire(n, rep); std::map<u32, size_t> cnt; for (auto &kv : sig) if (rep.count(kv.first) && cnt[kv.second]++ < per) add(kv.first);
        add('~'); if (n == "ISO2022JP3") { add(0x304b); add(0x309a); add(0x2e9); add(0x2e5); add(0xe6); add(0x300); } if (unenc) { add(0xe0001); add(0xe006a); add(0xe0061); add(0xd800); add(0xfffd); add(0x110000); if (n != "ISO2022JP2") add(0xe9); }
        if (n == "ISO2022JP2") for (u32 c : {0xe006bu, 0xe006fu, 0xe007au, 0xe0068u, 0xe007fu}) if (unenc) add(c);
        return v;
    }
    EncModel m(n); std::map<std::tuple<size_t, bool, bool>, size_t> shapes;
    for (u32 c = 0x20; c < 0x30000; c++) { if (c >= 0xd800 && c < 0xe000) continue; std::string o; if (!m.e.enc(c, false, o)) continue; if (shapes[{o.size(), m.e.pairbase.count(c) > 0, c > 0xffff}]++ < per) add(c); }
    size_t np = 0; for (auto &p : m.e.pairs) { add(p.first.first); add(p.first.second); if (++np >= 3) break; }
    if (!m.e.cs->comps.empty()) { size_t k = 0; for (auto &r : m.e.cs->comps) { add(r.base); add(r.mark); add(r.res); if (++k >= 2) break; } }
    if (unenc) { add(0xe0041); add(0xd800); add(0xfffd); add(0x110000); std::string o; for (u32 c : {0xe9u, 0x4e00u, 0xac00u, 0x5d0u, 0x1f600u}) { o.clear(); if (!m.e.enc(c, false, o)) { add(c); break; } } }
    return v;
}

// all words of 1..depth tokens
template <class T, class F> void words(const std::vector<T> &al, size_t depth, const F &f) {
    std::vector<size_t> idx; std::function<void(const T &)> rec;
    std::vector<T> cur;
    std::function<void(size_t)> go = [&](size_t k) { if (k) f(cur); if (k == depth) return; for (auto &a : al) { cur.push_back(a); go(k + 1); cur.pop_back(); } };
    go(0);
}
inline std::string cat(const std::vector<std::string> &w) { std::string s; for (auto &x : w) s += x; return s; }
inline size_t ipow(size_t a, size_t b) { size_t r = 1; while (b--) r *= a; return r; }
inline size_t fit_depth(size_t n, size_t budget, size_t maxd) { size_t d = 1; while (d < maxd && ipow(n, d + 1) <= budget) d++; return d; }
// S -> T on whole texts, both ends by specification (T without shift states)
struct PairX {
    std::unique_ptr<Dec> d; EncModel m; std::string S, T; bool precise; Desc ds; Snap s0; bool ok;
    PairX(const std::string &s, const std::string &t, bool pr) : d(make_dec(s)), m(t), S(s), T(t), precise(pr) { ok = ds.open(S, T); if (ok) s0 = ds.save(); else violation("open:" + S + ":" + T, "cannot open " + S + " -> " + T); }
    std::string judge(Desc &x, const std::string &w) {
        Cps t; Run r = run(*d, DState{}, (const u8 *)w.data(), w.size(), t); if (r.end == UNSPEC) return ""; Cps fl = t; DState q = r.s; flush(q, fl); for (u32 c : fl) if (c >= 0x110000) return "";
        std::string want; ERun e = m.run(EState{}, fl.data(), fl.size(), false, want); EState es = e.s; if (want.size() + 64 > BUF) return ""; m.flush(es, want);
        Res a = x.conv(w, std::min(BUF, want.size() + 64)); std::string got = str(a), as = show(a); Res f; f.ok = true; if (e.ilseq && !a.ok) { if (want.compare(0, got.size(), got) == 0) want.resize(got.size()); /* the rest may be pending */ } else { f = x.flush(256); got += str(f); }
        if (got != want) { size_t p = 0; while (p < got.size() && p < want.size() && got[p] == want[p]) p++; return fmt("writes %s instead of %s at byte %zu of the output", hex(got.substr(p, 16)).c_str(), hex(want.substr(p, 16)).c_str(), p); }
        if (e.ilseq) { if (a.ok && f.ok) return "an unencodable character is accepted"; return a.ok || a.err == EILSEQ ? "" : as + " instead of EILSEQ"; }
        if ((r.end == DONE) != a.ok) return as + (a.ok ? ", malformed or truncated input accepted" : ", valid input rejected");
        if (a.ok && a.used != w.size()) return as + ", input left over"; if (a.ok && a.ret != e.count) return fmt("counts %zu instead of %lu", a.ret, e.count);
        if (precise && !a.ok) { if (a.used != r.pos) return as + fmt(", expected to stop at %zu", r.pos); if (r.end == BAD && a.err != EILSEQ) return as + " instead of EILSEQ"; if (r.end == INC && a.err != EINVAL) return as + " instead of EINVAL"; }
        return "";
    }
    void check(const std::string &w) {
        if (enough() || !ok) return; c_trans++; ds.load(s0); std::string bad = judge(ds, w); if (bad.empty()) return;
        if (in_child([&] { Desc y; if (!y.open(S, T)) return true; return !judge(y, w).empty(); })) violation("pair:" + S + ":" + T, fmt("%s -> %s: input %s: %s", S.c_str(), T.c_str(), w.size() > 400 ? fmt("%s... (%zu bytes)", hex(w.substr(0, 200)).c_str(), w.size()).c_str() : hex(w).c_str(), bad.c_str())); else sh->unconfirmed++;
    }
    void texts(const std::vector<std::string> &t, size_t budget, size_t big) {
        if (!ok) return; words(t, fit_depth(t.size(), budget, 3), [&](const std::vector<std::string> &w) { check(cat(w)); });
        periodic(t.size(), big, [&](const std::vector<size_t> &v) { if (late()) return; std::string x; for (size_t k : v) { if (x.size() > 100000) break; x += t[k]; } check(x); });
    }
};
// one character in a run of letters, at varying places: all of 0..7FF and a thinned rest (phase)
inline void in_runs(const std::string &s, size_t step, const std::function<void(const std::string &)> &f) {
    EncModel em(s); std::string A; { EState e; e.first = false; em.one(e, 'A', A); }
    for (u32 c = 0x80; c < 0x110000; c++) { if (c >= 0x800 && (c < 0x10000 ? c % step : c % (step * 67))) continue; std::string o; EState e; e.first = false; if (!em.one(e, c, o)) continue;
        for (size_t p : {(size_t)(1 + c % 3), (size_t)(4 + c % 13)}) { std::string w; for (size_t k = 0; k < p; k++) w += A; w += o; for (size_t k = 0; k < 9; k++) w += A; f(w); } }
}
// other partners than UCS-4: the encoding itself and the usual ones
inline void partners_dec(const std::string &n, bool precise) {
    std::set<std::string> T{"UTF8", "ISO88591", "USASCII", "UTF16LE", "WINDOWS1252"}; if (!is_stateful(n)) T.insert(n); for (auto &t : T) { if (enough() || late()) return; PairX x(n, t, precise); auto tok = dec_tokens(*x.d); x.texts(tok, opt.thorough ? 20000 : 1500, 5000); c_states++;
        if (!is_unicode(n) && !is_escape(n) && n != "UTF7" && (t == "UTF8" || t == "ISO88591" || t == n)) { Gen g(*x.d, false); u64 tot = 0, c = 0; g.gen(0, [&](const std::string &, K) { tot++; }); u64 step = std::max<u64>(1, tot / (opt.thorough ? 100000 : 3000)) | 1; std::string A; for (auto &y : tok) if (y == "A") A = y; if (A.empty()) A = tok[0]; g.gen(0, [&](const std::string &y, K k) { if (c++ % step || enough()) return; std::string w; for (size_t q = 0; q < 1 + c % 11; q++) w += A; w += y; for (size_t q = 0; q < 9; q++) w += A; x.check(w); }); }
        if (is_unicode(n)) in_runs(n, opt.thorough ? 3 : 61, [&](const std::string &w) { x.check(w); }); }
}
inline void partners_enc(const std::string &n) {
    std::set<std::string> S{"UTF8", "UTF16LE", "ISO88591", "USASCII", "WINDOWS1252"}; S.erase(n); for (auto &s : S) { if (enough() || late()) return; PairX x(s, n, false); EncModel em(s); std::vector<std::string> tok; auto cs = enc_chars(n); if (s[0] != 'U' || s == "USASCII") for (u32 c : {0xe9u, 0xa5u, 0xffu, 0x20acu, 0x7eu, 0x5cu, 0x7fu, 0u}) cs.push_back(c); for (u32 c : cs) { std::string o; EState e; e.first = false; if (em.one(e, c, o)) tok.push_back(o); } uniq(tok); x.texts(tok, opt.thorough ? 20000 : 1500, 5000); c_states++; if (s[0] == 'U' && s != "USASCII") in_runs(s, opt.thorough ? 3 : 61, [&](const std::string &w) { x.check(w); }); }
}
// pairs of characters whose codes are alike (caches with shortened keys): a power of two apart, or sharing a byte of their codes
inline void near_pairs(const std::string &n, const std::function<void(u32, u32)> &f) {
    std::vector<u32> r; if (is_table(n)) { for (auto &e : spec().set(n)->ents) if (e.e && !e.cp2) r.push_back(e.cp); std::sort(r.begin(), r.end()); r.erase(std::unique(r.begin(), r.end()), r.end()); } else for (u32 c = 0x20; c < 0x110000; c += c < 0x3000 || opt.thorough ? 1 : c < 0x10000 ? 13 : 1021) if (c < 0xd800 || c >= 0xe000) r.push_back(c);
    size_t st = !opt.thorough && r.size() > 30000 ? 3 : 1; for (size_t k = 0; k < r.size(); k += st) for (int b = 3; b <= 20 && !enough(); b++) { u32 c2 = r[k] ^ (1u << b); if (c2 < 0x110000 && (c2 < 0xd800 || c2 >= 0xe000)) f(r[k], c2); }
}
inline void near_dec(DecX &x) {
    const std::string &n = x.d.name; if (x.nodes.empty()) return; EncModel em(n); Cps dummy;
    if (is_table(n)) {
        auto &E = spec().set(n)->ents; std::map<u32, std::vector<const Entry *>> lead, trail; auto B = [](const Entry &e) { std::string s; for (int i = e.len - 1; i >= 0; i--) s += (char)(e.bytes >> (8 * i)); return s; };
        for (auto &e : E) if (e.d && e.len >= 2) { lead[e.bytes >> 8].push_back(&e); trail[(e.len << 8) | (e.bytes & 255)].push_back(&e); }
        size_t st = opt.thorough ? 1 : 3, c = 0; for (auto *m : {&lead, &trail}) for (auto &kv : *m) for (auto *a : kv.second) { if (enough() || late()) return; c++; std::string sa = B(*a); for (size_t k = c % st; k < kv.second.size(); k += m == &lead ? st : 3 * st) x.eval(0, sa + B(*kv.second[k]), false); }
    }
    near_pairs(n, [&](u32 a, u32 b) { std::string o; EState s; s.first = false; if (!em.one(s, a, o) || !em.one(s, b, o)) return; em.flush(s, o); x.eval(0, o, false); });
}
inline void near_enc(EncX &x) { if (x.nodes.empty()) return; Cps t(2); near_pairs(x.name, [&](u32 a, u32 b) { t[0] = a; t[1] = b; x.eval(0, t, false); }); }
// targets with shift states: the same text from UTF-8, UTF-16 and UCS-4 gives the same result
struct TwinX {
    std::string n; std::vector<std::string> S{"UTF8", "UTF16LE"};
    struct O { std::string out; bool err; size_t ret; bool operator!=(const O &o) const { return out != o.out || err != o.err || (!err && ret != o.ret); } };
    static O go(Desc &x, const std::string &w) { Res r = x.conv(w, BUF); O o{str(r), !r.ok, r.ret}; Res f = x.flush(256); o.out += str(f); return o; }
    TwinX(const std::string &t) : n(t) {
        Desc ref; if (!ref.open(UCS4, n)) { violation("open:" + n, "cannot open UCS-4LE -> " + n); return; } Snap r0 = ref.save(); auto cs = enc_chars(n); cs.erase(std::remove_if(cs.begin(), cs.end(), [](u32 c) { return c == 0xfeff || c >= 0x110000 || (c >= 0xd800 && c < 0xe000); }), cs.end());
        for (auto &s : S) { Desc ds; if (!ds.open(s, n)) { violation("open:" + s + ":" + n, "cannot open " + s + " -> " + n); return; } Snap s0 = ds.save(); EncModel em(s);
            auto one = [&](const Cps &t) { if (enough() || late()) return; c_trans++; std::string w; EState e; e.first = false; for (u32 c : t) if (!em.one(e, c, w)) return; std::string u = u32s(t); if (w.size() > 100000 || t.size() * 8 + 64 > BUF) return; ds.load(s0); ref.load(r0); if (go(ds, w) != go(ref, u)) { if (in_child([&] { Desc a, b; if (!a.open(s, n) || !b.open(UCS4, n)) return true; return go(a, w) != go(b, u); })) violation("twin:" + s + ":" + n, fmt("text %s to %s differs when it comes from %s", t.size() > 60 ? fmt("%s... (%zu characters)", cps(Cps(t.begin(), t.begin() + 40)).c_str(), t.size()).c_str() : cps(t).c_str(), n.c_str(), s.c_str())); else sh->unconfirmed++; } };
            words(cs, fit_depth(cs.size(), opt.thorough ? 300000 : 8000, 4), one); periodic(cs.size(), 5000, [&](const std::vector<size_t> &v) { Cps t; for (size_t k : v) t.push_back(cs[k]); one(t); }); c_states++; }
    }
};
// texts with runs of letters or other items, as blocks handled at once are made of: p x a, then b, then maybe more of a
inline void run_texts(const Dec &d, const std::function<void(const std::string &)> &f) {
    const std::string &n = d.name; std::string A = "A"; if (!is_stateful(n)) { A = ""; EncModel em(n); EState es; es.first = false; em.one(es, 'A', A); }
    auto t = dec_tokens(d); std::vector<std::string> base; if (!A.empty()) base.push_back(A); for (auto &x : dec_tokens(d, true)) if (base.size() < (opt.thorough ? 10u : 3u)) base.push_back(x);
    for (auto &a : base) for (size_t q = 0; q <= t.size(); q++) for (size_t p = 1; p < 70; p += p < 34 ? 1 : 5) { if (enough() || late()) return; if (q < t.size() && !opt.thorough && (p + q) % 5) continue; std::string s; for (size_t k = 0; k < p; k++) s += a; if (q < t.size()) s += t[q]; if ((p + q) & 1) for (size_t k = 0; k < 17; k++) s += a; if (s.size() < 1000) f(s); }
}
}  // namespace ve
