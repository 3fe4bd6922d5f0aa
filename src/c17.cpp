// C17: opening descriptors.  Every pair of encodings through every opening function; suffixes; unknown arguments.
#include "ident.hpp"
using namespace ve;
extern "C" { reiconv_t ic_open(const char *, const char *); size_t ic_conv(reiconv_t, char **, size_t *, char **, size_t *); int ic_close(reiconv_t); }
// where the argument strings lie: at the end of their buffers, or at the start in either order, so that different names lie at the same place one after the other
static unsigned g_layout;
static char *strbuf(int k, const std::string &s) { if (unsigned l = g_layout % 3) { if (l == 2) k = 1 - k; u8 *w = g_in.rw + k * 8192; memcpy(w, s.c_str(), s.size() + 1); return (char *)w; } u8 *w = g_in.rw + (k + 1) * 8192 - s.size() - 1; memcpy(w, s.c_str(), s.size() + 1); return (char *)w; }
static void scribble() { memset(g_in.rw, 'Z', 3 * 8192); }
enum How { NAME, CODEPAGE, INDEX, ICONV, ICONVH };
static const char *HOW[] = {"reiconv_open_from_name", "reiconv_open_from_codepage", "reiconv_open_from_index", "reiconv_open", "iconv_open"};
// opens into d's arena; the argument strings are destroyed right after the call
static bool open_as(Desc &d, How how, const std::string &f, const std::string &t, int a, int b, int fl, int *err = nullptr) {
    d.close(); d.take();
    d.from = f; d.to = t; d.flags = fl; static std::string where; where = fmt("%s(%s,%s,%d,%d)", HOW[how], f.c_str(), t.c_str(), a, b); g_crumb = {d.from.c_str(), d.to.c_str(), fl, 0, 0, where.c_str(), ""};
    g_layout++; char *x = strbuf(0, f), *y = strbuf(1, t); g_calls = g_calls + 1; g_lib_flag = true; g_arena = g_plain ? nullptr : &d.a; errno = 0;
    d.cd = how == NAME ? reiconv_open_from_name(x, y, (ConvertFlag)fl) : how == CODEPAGE ? reiconv_open_from_codepage(a, b, (ConvertFlag)fl) : how == INDEX ? reiconv_open_from_index(a, b, (ConvertFlag)fl) : how == ICONV ? reiconv_open(y, x) : ic_open(y, x);
    int e = errno; g_arena = nullptr; g_lib_flag = false; scribble(); if (err) *err = e; d.isopen = d.cd != (reiconv_t)-1; d.adopt(); return d.isopen;
}
struct Beh { std::vector<std::string> probes; std::vector<std::tuple<std::string, int, size_t>> want[2]; };
static std::tuple<std::string, int, size_t> probe(Desc &d, const std::string &x) { Res r = d.conv(x, 4096); std::string o = str(r); Res f = d.flush(256); return {o + str(f), r.err + 1000 * f.err, r.used}; }
int main(int argc, char **argv) {
    return ve_main(argc, argv, [] {
        auto e = encodings(); auto &N = spec().names; std::map<std::string, int> idx, cp; for (auto &n : N.order) idx[n] = reiconv_lookup_from_name(n.c_str()); for (auto &k : N.codepage) if (!cp.count(k.second)) cp[k.second] = k.first;
        for (auto &n : N.order) if (idx[n] < 0) { violation("open:" + n, "cannot find " + n); return; }
        auto found = [&](const std::string &n) { for (auto &a : N.alias[n]) if (a != n && reiconv_lookup_from_name(a.c_str()) == idx[n]) return a; return n; };
        std::map<std::string, std::string> alias; for (auto &n : N.order) alias[n] = found(n);
        auto style = [](std::string s, int k) { if (k & 1) s = lower(s); if (k & 2) { s.insert(s.size() / 2, "-"); s.insert(1, "_"); } return s; };
        pool(e.size(), [&](size_t i) {
            const std::string &S = e[i]; auto d = make_dec(S); std::vector<std::string> tk = dec_tokens(*d); std::vector<std::string> pr; { std::vector<std::string> bad, good; for (auto &t : tk) { Cps o; Run r = run(*d, DState{}, (const u8 *)t.data(), t.size(), o); (r.end == DONE ? good : bad).push_back(t); } for (size_t k = 0; k < good.size() && k < 6; k++) pr.push_back(good[k]); for (size_t k = 0; k < bad.size() && k < 3; k++) pr.push_back(bad[k]); if (bad.size() && good.size()) pr.push_back(good[0] + bad[0] + good.back() + good[0]); }
            Desc pa(S, UCS4); if (!pa.isopen) return; Snap a0 = pa.save();
            for (auto &T : N.order) {
                if (enough()) return; if (late()) { sh->truncated++; return; }
                // base case: by name, without flag, equals decode then encode; with the flag malformed input is skipped
                Desc ref[2]; Snap rs[2]; bool ok = true; for (int fl = 0; fl < 2; fl++) { if (!open_as(ref[fl], NAME, S, T, 0, 0, fl)) { violation("open:" + S + ":" + T, fmt("cannot open %s -> %s flags=%d", S.c_str(), T.c_str(), fl)); ok = false; break; } rs[fl] = ref[fl].save(); } if (!ok) continue;
                Desc pb(UCS4, T); Snap b0 = pb.save(); c_states++;
                for (auto &x : pr) {
                    pa.load(a0); pb.load(b0); Res r = pa.conv(x, 4096); std::string u = str(r); Res f = pa.flush(256); u += str(f); Res q = pb.conv(u, 4096); std::string o = str(q); Res g = pb.flush(256); o += str(g); c_trans++;
                    ref[0].load(rs[0]); auto [o1, e1, u1] = probe(ref[0], x); bool fail = !r.ok || !q.ok || !g.ok;
                    // a substitute or an unencodable character in front of an error: only the text before it counts
                    if (q.ok && (o1 != o || (e1 != 0) != fail)) violation("pair:" + S + ":" + T, fmt("%s -> %s: input %s gives %s error %d, via Unicode %s error %d", S.c_str(), T.c_str(), hex(x).c_str(), hex(o1).c_str(), e1, hex(o).c_str(), (int)fail));
                    if (!q.ok && e1 == 0) violation("pair:" + S + ":" + T, fmt("%s -> %s: input %s is accepted without the flag", S.c_str(), T.c_str(), hex(x).c_str()));
                    ref[1].load(rs[1]); auto [o2, e2, u2] = probe(ref[1], x); if (e2 % 1000 == EILSEQ || e2 / 1000 == EILSEQ) violation("flag:" + S + ":" + T, fmt("%s -> %s: the discard flag has no effect on %s", S.c_str(), T.c_str(), hex(x).c_str()));
                    if (!fail && q.ret == 0 && g.ret == 0 && (o2 != o || e2)) violation("flag:" + S + ":" + T, fmt("%s -> %s: the discard flag changes valid input %s", S.c_str(), T.c_str(), hex(x).c_str()));
                }
                auto same = [&](Desc &y, int fl) -> std::string { if (y.save() == rs[fl]) return ""; Snap ys = y.save(); for (auto &x : pr) { y.load(ys); ref[fl].load(rs[fl]); auto p = probe(y, x), q = probe(ref[fl], x); if (p != q) return "input " + hex(x) + " gives " + hex(std::get<0>(p)) + fmt(" error %d", std::get<1>(p)) + ", expected " + hex(std::get<0>(q)) + fmt(" error %d", std::get<1>(q)); } return ""; };
                auto via = [&](How h, const std::string &f, const std::string &t, int a, int b, int fl, int expectfl) { Desc y; int er; c_trans++; c_nontriv++; if (!open_as(y, h, f, t, a, b, fl, &er)) { violation("open:" + S + ":" + T, fmt("%s(%s, %s, %d, %d) fails with errno %d", HOW[h], f.c_str(), t.c_str(), a, b, er)); return; } std::string bad = same(y, expectfl); if (!bad.empty()) violation("open:" + S + ":" + T, fmt("%s(from %s, to %s, %d, %d, flags %d) is not the conversion %s -> %s with discard=%d: %s", HOW[h], f.c_str(), t.c_str(), a, b, fl, S.c_str(), T.c_str(), expectfl, bad.c_str())); };
                for (int fl = 0; fl < 2; fl++) {
                    via(INDEX, "", "", idx[S], idx[T], fl, fl); if (cp.count(S) && cp.count(T)) via(CODEPAGE, "", "", cp[S], cp[T], fl, fl);
                    for (int k = 0; k < 4; k++) via(NAME, style(alias[S], k), style(alias[T], 3 - k), 0, 0, fl, fl);
                    for (int k = 0; k < 4; k++) { std::string ig = k & 1 ? "//ignore" : "//IGNORE"; std::string f = style(k & 2 ? S : alias[S], k), t = style(k & 2 ? alias[T] : T, k); if (!fl) { via(ICONV, f, t, 0, 0, 0, 0); via(ICONVH, f, t, 0, 0, 0, 0); } else { via(ICONVH, f, t + ig, 0, 0, 0, 1); via(ICONV, f, t + ig, 0, 0, 0, 1); via(ICONV, f + ig, t, 0, 0, 0, 1); via(ICONV, f + ig, t + ig, 0, 0, 0, 1); } }
                }
            }
            sample(fmt("%s to every encoding through 4 opening functions, with and without discarding", S.c_str()));
        });
        // all documented names and spellings, with and without suffix
        std::vector<std::string> all; for (auto &kv : N.of) if (reiconv_lookup_from_name(kv.first.c_str()) == idx[kv.second]) all.push_back(kv.first);
        static const char SA[] = "/IGNORE-iX T"; const size_t A = 9;
        std::vector<std::string> sufs; { std::string s; std::set<std::string> z; std::function<void(size_t)> go = [&](size_t D) { z.insert(s); if (s.size() == D) return; for (size_t k = 0; k < A; k++) { s.push_back(SA[k]); go(D); s.pop_back(); } }; go(opt.thorough ? 6 : 5);
            std::string ig = "//IGNORE"; for (size_t a = 0; a <= ig.size(); a++) for (int b = 1; b < 256; b++) { std::string t = ig; t.insert(a, 1, (char)b); z.insert(t); if (a < ig.size()) { t = ig; t[a] = (char)b; z.insert(t); } } for (size_t a = 0; a < ig.size(); a++) { std::string t = ig; t.erase(a, 1); z.insert(t); for (size_t b = 0; b < t.size(); b++) { std::string v = t; v.erase(b, 1); z.insert(v); } z.insert(ig.substr(0, a)); z.insert(ig.substr(a)); if (a) { t = ig; std::swap(t[a], t[a - 1]); z.insert(t); } }
            for (int m = 0; m < 64; m++) { std::string t = ig; for (int k = 0; k < 6; k++) if (m >> k & 1) t[2 + k] += 32; z.insert(t); } for (const char *x : {"//TRANSLIT", "//translit", "//TRANSLIT//IGNORE", "//IGNORE//TRANSLIT", "//NON_IDENTICAL_DISCARD", "//IGNOREX", "//IGNORE/", "/", "//", "///", "///IGNORE", "//IGNORE//IGNORE", "//I-G_NORE"}) z.insert(x);
            for (size_t k : {1, 5, 10, 20, 30, 40, 50, 60, 64, 100, 128, 256, 300, 1000, 4000}) { z.insert(std::string(k, '/')); z.insert(std::string(k, 'A')); z.insert("/" + std::string(k, 'A')); z.insert("//" + std::string(k, 'A')); z.insert(std::string(k, '-') + "//IGNORE"); z.insert("//IGNORE" + std::string(k, 'A')); z.insert(std::string(k, '/') + "IGNORE"); }
            sufs.assign(z.begin(), z.end()); }
        std::vector<std::string> few{"UTF8", "WINDOWS1252", "UCS4LE", "ISO2022JP", "BIG5HKSCS:1999", all[7]}; { std::string lg; for (auto &n : all) if (n.size() > lg.size()) lg = n; few.push_back(lg); for (auto &f : few) if (!N.of.count(f)) f = "UTF8"; }
        pool(all.size() + few.size() * 64, [&](size_t i) {
            auto chk = [&](const std::string &from, const std::string &to) {
                // expectation for reiconv_open
                auto part = [&](const std::string &s, std::string &nm, int &fl) { std::string c = canon(s); size_t p = c.find('/'); nm = c.substr(0, p); std::string suf = p == std::string::npos ? "" : c.substr(p); fl = suf.empty() ? 0 : suf == "//IGNORE" ? 1 : suf.find("//IGNORE") == std::string::npos ? 2 /* not on, or refused */ : 3 /* unspecified */; };
                std::string fn, tn; int ff, tf; part(from, fn, ff); part(to, tn, tf); bool kf = N.of.count(fn) && reiconv_lookup_from_name(fn.c_str()) >= 0, kt = N.of.count(tn) && reiconv_lookup_from_name(tn.c_str()) >= 0;
                Desc y; int er; c_trans++; bool op = open_as(y, ICONV, from, to, 0, 0, 0, &er); std::string what = fmt("reiconv_open(to \"%s\", from \"%s\")", to.substr(0, 60).c_str(), from.substr(0, 60).c_str()), key = "suffix:" + from.substr(0, 40) + ":" + to.substr(0, 40);
                if (!kf || !kt) { if (op) violation(key, what + " succeeds although a name is unknown"); else if (er != EINVAL) violation(key, fmt("%s fails with errno %d", what.c_str(), er)); return; }
                bool may = ff >= 2 || tf >= 2; if (!op) { if (er != EINVAL) violation(key, fmt("%s fails with errno %d", what.c_str(), er)); else if (!may) violation(key, what + " is refused"); return; }
                if (ff == 3 || tf == 3) return;
                int fl = ff == 1 || tf == 1; c_nontriv++; Desc r[2]; for (int k = 0; k < 2; k++) if (!r[k].open(N.of[fn], N.of[tn], k)) return;
                if (y.save() == r[fl].save()) return;
                auto d = make_dec(N.of[fn]); Snap s = y.save(), t = r[fl].save(); for (auto &x : dec_tokens(*d)) { y.load(s); r[fl].load(t); if (probe(y, x) != probe(r[fl], x)) { violation(key, fmt("%s: expected discarding %s; input %s differs", what.c_str(), fl ? "on" : "off", hex(x).c_str())); return; } }
            };
            if (i < all.size()) { const std::string &n = all[i]; for (const char *s : {"", "//IGNORE", "//ignore", "//iGnOrE", "//TRANSLIT", "/", "//", "//IGNOR"}) { chk(n + s, "UTF-8"); chk("UTF-8", n + s); chk(lower(n) + s, n + s); } for (auto &m : all) if (m.size() % 7 == i % 7) { chk(n, m); chk(m + "//IGNORE", n); } c_states++; }
            else { const std::string &n = few[(i - all.size()) / 64]; size_t part = (i - all.size()) % 64; for (size_t k = part; k < sufs.size(); k += 64) { if (enough()) return; chk(n + sufs[k], "UTF8"); chk("UTF8", n + sufs[k]); if (sufs[k].size() <= 3 || sufs[k].find("//I") == 0) { chk(n + sufs[k], n + sufs[k]); chk(n + "//IGNORE", n + sufs[k]); chk(n + sufs[k], n + "//IGNORE"); } } c_states++; }
        });
        sample(fmt("%zu suffixes on either side, %zu names with suffixes", sufs.size(), all.size()));
        // unknown arguments on either side of every function
        std::vector<std::string> unk{"", " ", "X", "UTF-9", "UTF-8 ", "UTF8x", "CP99999", "-", "__", "0", std::string(50, 'A'), std::string(5000, 'B'), "\xff", "UTF-8\n", "//IGNORE", "/UTF-8", "UCS", "ISO-8859-99", "LATIN11"};
        pool(e.size() + 1, [&](size_t i) {
            auto fails = [&](How h, const std::string &f, const std::string &t, int a, int b) { Desc y; int er; c_trans++; if (open_as(y, h, f, t, a, b, 0, &er) || er != EINVAL || y.a.used) violation("unknown:" + f.substr(0, 40) + ":" + t.substr(0, 40), fmt("%s(%s, %s, %d, %d) with an unknown argument: %s, errno %d, %zu bytes kept", HOW[h], f.substr(0, 60).c_str(), t.substr(0, 60).c_str(), a, b, y.isopen ? "succeeds" : "fails", er, y.a.used)); };
            if (i < e.size()) {   // the three calls of <iconv.h> are those of the library
                for (auto &x : dec_tokens(*make_dec(e[i]))) { reiconv_t a = ic_open("UTF-8", e[i].c_str()), b = reiconv_open_from_name(e[i].c_str(), "UTF-8", REICONV_NO_FLAGS); if (a == (reiconv_t)-1 || b == (reiconv_t)-1) break;
                    char oa[256], ob[256]; char *ia = (char *)x.data(), *ib = ia, *pa = oa, *pb = ob; size_t la = x.size(), lb = la, ma = 256, mb = 256; errno = 0; size_t ra = ic_conv(a, &ia, &la, &pa, &ma); int ea = errno; errno = 0; size_t rb = reiconv_iconv(b, &ib, &lb, &pb, &mb); int eb = errno;
                    ic_conv(a, nullptr, nullptr, &pa, &ma); reiconv_iconv(b, nullptr, nullptr, &pb, &mb); c_trans++; g_calls = g_calls + 6;
                    if (ra != rb || ea != eb || la != lb || ma != mb || memcmp(oa, ob, 256 - ma)) violation("iconv.h:" + e[i], fmt("iconv() of <iconv.h> differs from reiconv_iconv() for %s, input %s", e[i].c_str(), hex(x).c_str()));
                    if (ic_close(a) != 0 || reiconv_handle_close(b) != 0) violation("iconv.h:close", "iconv_close() or reiconv_handle_close() does not return 0"); }
            }
            if (i == e.size()) { for (auto &u : unk) for (auto &v : unk) { fails(NAME, u, v, 0, 0); fails(ICONV, u, v, 0, 0); } for (int u : {-1, 0, 3, 65536, 1000000, -65001, (int)0x80000000, 0x7fffffff}) for (int v : {-1, 0, 3, 65536, 1000000, 0x7fffffff}) fails(CODEPAGE, "", "", u, v); return; }
            const std::string &n = e[i]; for (auto &u : unk) { fails(NAME, n, u, 0, 0); fails(NAME, u, n, 0, 0); fails(ICONV, n, u, 0, 0); fails(ICONV, u, n, 0, 0); fails(ICONV, n + "//IGNORE", u, 0, 0); fails(ICONV, u + "//IGNORE", n, 0, 0); }
            if (cp.count(n)) for (int u : {-1, 0, 3, 65536, 1000000, -65001, (int)0x80000000, 0x7fffffff}) { fails(CODEPAGE, "", "", u, cp[n]); fails(CODEPAGE, "", "", cp[n], u); }
        });
    });
}
