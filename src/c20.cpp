// C20: independence of descriptors.
//  A  all interleavings, call by call, of two (three) descriptors' scripts in one thread.
//  B  the library under a controlled scheduler: every shared location that any call writes is found by
//     running every operation; scripts that touch one are then explored under all schedules with up to
//     a bounded number of preemptions at the accesses to such locations.  Executions without writes to
//     shared memory are all equivalent, so one schedule decides them.
#define VE_OWN_ALLOC
#include "words.hpp"
#include "tsanrt.hpp"
#include <cppp/reiconv.hpp>
#include <system_error>
using namespace ve;
extern "C" { int toy_racy(int); int toy_scratch(int); int toy_locked(int); int toy_tls(int); int toy_counter(int); }

// ---------------------------------------------------------------- A
struct Script { std::string f, t; int fl; std::vector<std::string> p; };       // open, one conversion per piece, flush, close
static std::string step(std::unique_ptr<Desc> &d, const Script &s, size_t k) {
    if (k == 0) { d = std::make_unique<Desc>(s.f, s.t, s.fl); return d->isopen ? "open" : "fail"; }
    if (!d || !d->isopen) return "";
    if (k <= s.p.size()) return show(d->conv(s.p[k - 1], 1500));
    Res r = d->flush(100); std::string x = show(r); d->close(); return x;
}
static std::vector<std::string> solo(const Script &s) { std::unique_ptr<Desc> d; std::vector<std::string> r; for (size_t k = 0; k < s.p.size() + 2; k++) r.push_back(step(d, s, k)); return r; }
// what each script gives in a process that has done nothing else
struct Alone { int n; u64 h[6]; char txt[6][240]; }; static Alone *alone;
static u64 hash(const std::string &s) { u64 h = 1469598103934665603ull; for (unsigned char c : s) h = (h ^ c) * 1099511628211ull; return h; }
static u64 calls_interleaved_alone(const std::vector<Script> &ss, const std::vector<const Alone *> &want) {
    size_t n = ss.size(); std::vector<int> order; for (size_t i = 0; i < n; i++) order.insert(order.end(), ss[i].p.size() + 2, i); u64 cnt = 0;
    do {
        if (enough()) return cnt; cnt++; c_trans++; std::vector<std::unique_ptr<Desc>> d(n); std::vector<size_t> pos(n, 0);
        for (size_t q = 0; q < order.size(); q++) { int i = order[q]; std::string got = step(d[i], ss[i], pos[i]); if (hash(got) != want[i]->h[pos[i]]) { std::string o; for (int x : order) o += '1' + x; std::string in; for (auto &s : ss) { in += fmt(" [%s -> %s flags %d:", s.f.c_str(), s.t.c_str(), s.fl); for (auto &p : s.p) in += " " + hex(p.substr(0, 60)); in += "]"; } violation("calls:" + ss[i].f + ":" + ss[i].t, fmt("descriptors%s used in the order %s: call %zu of descriptor %d gives %s, in a process of its own %s", in.c_str(), o.c_str(), pos[i] + 1, i + 1, got.substr(0, 200).c_str(), want[i]->txt[pos[i]])); return cnt; } pos[i]++; }
    } while (std::next_permutation(order.begin(), order.end()));
    return cnt;
}
static u64 calls_interleaved(const std::vector<Script> &ss) {
    std::vector<std::vector<std::string>> want; for (auto &s : ss) want.push_back(solo(s));
    size_t n = ss.size(); std::vector<size_t> len; std::vector<int> order; for (size_t i = 0; i < n; i++) { len.push_back(ss[i].p.size() + 2); order.insert(order.end(), len[i], i); }
    u64 cnt = 0;
    do {
        if (enough()) return cnt; cnt++; c_trans++; std::vector<std::unique_ptr<Desc>> d(n); std::vector<size_t> pos(n, 0);
        for (size_t q = 0; q < order.size(); q++) { int i = order[q]; std::string got = step(d[i], ss[i], pos[i]); if (got != want[i][pos[i]]) { std::string o; for (int x : order) o += '1' + x; std::string in; for (auto &s : ss) { in += fmt(" [%s -> %s flags %d:", s.f.c_str(), s.t.c_str(), s.fl); for (auto &p : s.p) in += " " + hex(p); in += "]"; } violation("calls:" + ss[i].f + ":" + ss[i].t, fmt("descriptors%s used in the order %s: call %zu of descriptor %d gives %s, alone it gives %s", in.c_str(), o.c_str(), pos[i] + 1, i + 1, got.c_str(), want[i][pos[i]].c_str())); return cnt; } pos[i]++; }
    } while (std::next_permutation(order.begin(), order.end()));
    return cnt;
}

// ---------------------------------------------------------------- B
enum { DEC, ENC, WHOLE, CPP, NAMES, DECS, ENCS, PAIR, KINDS };   // DECS, ENCS: with little room at first
struct Trig { int kind, enc, fl, n; char in[240]; u64 sig; int ng; uintptr_t g[16]; };
struct TrigTab { std::atomic<int> n; Trig t[2000]; };
static TrigTab *tab;
static const char *KN[] = {"decode", "encode", "whole-string functions", "C++ convert", "name and code page lookup", "decode with little room", "encode with little room", "conversion between two charsets"};
static const char *PARTNER[] = {"ISO-8859-1", "CP1252", "ISO-8859-2", "KOI8-R", "EUC-KR", "SJIS", "UTF-16", "UTF-8"};
static std::string once(int kind, const std::string &enc, int fl, const char *in, size_t n, int rep) {     // runs in a controlled thread
    char out[4096]; char buf[256]; memcpy(buf, in, n); std::string *res; { rt::Quiet q; res = new std::string; } auto add = [&](const char *p, size_t k, long a, long b) { rt::Quiet q; res->append(hex(p, std::min<size_t>(k, 256))).append(fmt(":%ld,%ld;", a, b)); };
    g_calls = g_calls + 1;
    if (kind == DEC || kind == ENC || kind == WHOLE || kind >= DECS) {
        reiconv_t cd = kind == PAIR ? reiconv_open_from_name(enc.c_str(), fl >> 1 < 8 ? PARTNER[fl >> 1] : enc.c_str(), (ConvertFlag)(fl & 1)) : kind == DEC || kind == DECS ? reiconv_open_from_name(enc.c_str(), "UCS-4LE", (ConvertFlag)fl) : kind == ENC || kind == ENCS ? reiconv_open_from_name("UCS-4LE", enc.c_str(), (ConvertFlag)fl) : reiconv_open_from_name(enc.c_str(), "UTF-8", (ConvertFlag)fl); if (cd == (reiconv_t)-1) { add("", 0, -1, errno); rt::Quiet q; std::string r = *res; delete res; return r; }
        for (int k = 0; k < rep; k++) {
            if (kind == DECS || kind == ENCS) { char *ip = buf; size_t il = n; for (size_t room = 0; room < 12; room++) { char *op = out; size_t ol = room; errno = 0; size_t r = reiconv_iconv(cd, &ip, &il, &op, &ol); add(out, op - out, r, r == (size_t)-1 ? errno : (long)il); if (r != (size_t)-1 || errno != E2BIG) break; } }
            else if (kind != WHOLE) { char *ip = buf, *op = out; size_t il = n, ol = sizeof out; errno = 0; size_t r = reiconv_iconv(cd, &ip, &il, &op, &ol); add(out, op - out, r, r == (size_t)-1 ? errno : (long)il); }
            else { size_t r = reiconv_result_size(cd, buf, n); add("", 0, r, 0); int s = reiconv_convert_static_size(cd, buf, n, out, sizeof out); add(out, s ? 0 : std::min<size_t>(r, sizeof out), s, s ? errno : 0); char *p = nullptr; size_t l = 0; s = reiconv_convert(cd, buf, n, &p, &l); add(p, s ? 0 : l, s, s ? errno : (long)l); }
        }
        if (kind != WHOLE) { char *op = out; size_t ol = sizeof out; size_t r = reiconv_iconv(cd, nullptr, nullptr, &op, &ol); add(out, op - out, r, 0); }
        reiconv_handle_close(cd);
    } else if (kind == CPP) { try { for (int k = 0; k < rep; k++) { std::string s = reiconv::convert(reiconv::Encoding(enc.c_str()), reiconv::Encoding("UTF-8"), std::string_view(buf, n), (reiconv::ConvertFlag)fl); add(s.data(), s.size(), 0, s.size()); } } catch (const std::system_error &e) { add("", 0, -2, e.code().value()); } catch (const std::exception &e) { add("", 0, -3, 0); } }
    else for (int k = 0; k < rep; k++) {
        buf[n] = 0; add("", 0, reiconv_lookup_from_name(buf), reiconv_lookup_from_codepage(1200 + n)); size_t l = reiconv_name_canonicalize(buf, out); add(out, l, l, 0); char to[300]; snprintf(to, sizeof to, "%s//IGNORE", buf); reiconv_t cd = reiconv_open(to, buf); add("", 0, cd == (reiconv_t)-1 ? -1 : 0, 0);
        if (cd != (reiconv_t)-1) { char *ip = (char *)"A\x80\xa1\xa4", *op = out; size_t il = 4, ol = sizeof out; size_t r = reiconv_iconv(cd, &ip, &il, &op, &ol); add(out, op - out, r, il); reiconv_handle_close(cd); }
    }
    rt::Quiet q; std::string r = *res; delete res; return r;
}
struct Act { int kind, fl; std::string enc, in; int rep; };
static std::string desc(const Act &a) { return fmt("%s of %s flags %d input %s, %d times", KN[a.kind], a.enc.c_str(), a.fl, a.kind == NAMES ? a.in.c_str() : hex(a.in).c_str(), a.rep); }
static std::string plan_str(const std::vector<rt::Switch> &p) { std::string s; for (auto &x : p) s += fmt(" at point %lu to thread %d", x.at, x.to + 1); return s.empty() ? " one after the other" : s; }
// All schedules of the bodies up to the bound; returns a description of a failing one.
static std::string explore(const std::function<std::string(int, std::string &)> &body, int nthr, const std::vector<std::string> &want, int bound, u64 cap, u64 &execs, bool &cut) {
    std::vector<std::string> got(nthr); std::vector<rt::Body> b; for (int i = 0; i < nthr; i++) b.push_back([&, i] { std::string x = body(i, got[i]); rt::Quiet q; got[i] = x; });
    for (int round = 0; round < 30; round++) {
        rt::g_new_written = false; std::string bad; u64 n0 = 0; cut = false;
        for (int k = 0; k <= bound && bad.empty() && !rt::g_new_written; k++) {       // exactly k preemptions
            std::vector<rt::Switch> plan;
            std::function<void(u64, u64, std::vector<int>)> rec = [&](u64 from, u64 points, std::vector<int> who) {
                if (!bad.empty() || rt::g_new_written) return;
                if ((int)plan.size() == k) { if (n0++ > cap || late()) { cut = true; return; } rt::execute(b, plan); execs++; c_trans += rt::S.points; for (int i = 0; i < nthr; i++) if (got[i] != want[i]) { bad = fmt("thread %d gives %s, alone it gives %s; schedule:%s", i + 1, got[i].c_str(), want[i].c_str(), plan_str(plan).c_str()); return; } return; }
                // lengths of executions depend on the prefix: run it to learn the points after it
                if (n0++ > cap) { cut = true; return; } rt::execute(b, plan); execs++; u64 pts = rt::S.points; auto w = rt::S.who;
                for (u64 p = from; p < pts && p < w.size() && bad.empty() && !cut; p++) for (int t = 0; t < nthr; t++) if (t != w[p]) { plan.push_back({p, t}); rec(p + 1, 0, {}); plan.pop_back(); }
            };
            rec(0, 0, {});
        }
        if (!bad.empty()) return bad; if (!rt::g_new_written) return "";
    }
    cut = true; return "";
}
static std::string run_solo(const std::function<std::string()> &f) { std::string r; rt::execute({[&] { std::string x = f(); rt::Quiet q; r = x; }}, {}); return r; }

// ---------------------------------------------------------------- D: a descriptor handed from thread to thread
#include <unistd.h>
struct Worker { int in[2], out[2]; std::function<void()> f; pthread_t th; Worker() { if (pipe(in) || pipe(out)) _exit(3); if (pthread_create(&th, nullptr, [](void *p) -> void * { Worker *w = (Worker *)p; char c; while (read(w->in[0], &c, 1) == 1 && c == 'r') { w->f(); if (write(w->out[1], "d", 1) != 1) break; } return nullptr; }, this)) _exit(3); }
    void run(const std::function<void()> &g) { f = g; char c; if (write(in[1], "r", 1) != 1 || read(out[0], &c, 1) != 1) _exit(3); }
    ~Worker() { if (write(in[1], "q", 1) != 1) _exit(3); pthread_join(th, nullptr); for (int k : {in[0], in[1], out[0], out[1]}) close(k); } };
// bit k of mask: the thread that makes call k (open, pieces, flush, close)
static std::string handed(const Script &s, unsigned mask, Worker *w) {
    reiconv_t cd = (reiconv_t)-1; std::string res; unsigned k = 0; auto on = [&](const std::function<void()> &g) { g_lib_flag = true; w[mask >> k & 1].run(g); g_lib_flag = false; k++; };
    on([&] { cd = reiconv_open_from_name(s.f.c_str(), s.t.c_str(), (ConvertFlag)s.fl); }); g_calls = g_calls + 1; if (cd == (reiconv_t)-1) return "fail";
    for (size_t q = 0; q <= s.p.size(); q++) on([&] { char out[1024]; char *ip = q < s.p.size() ? (char *)s.p[q].data() : nullptr, *op = out; size_t il = q < s.p.size() ? s.p[q].size() : 0, ol = sizeof out; errno = 0; size_t r = reiconv_iconv(cd, q < s.p.size() ? &ip : nullptr, q < s.p.size() ? &il : nullptr, &op, &ol); int e = r == (size_t)-1 ? errno : 0; res += fmt("%s:%zd,%d,%zu;", hex(out, op - out).c_str(), r, e, il); });
    g_calls = g_calls + 1; on([&] { reiconv_handle_close(cd); }); return res;
}

int main(int argc, char **argv) {
    tab = (TrigTab *)mmap(nullptr, sizeof *tab, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    return ve_main(argc, argv, [] {
        rt::init();
        // the scheduler finds what it must find and nothing else
        pool(5, [&](size_t i) {
            int (*toy[])(int) = {toy_racy, toy_scratch, toy_locked, toy_tls, toy_counter}; bool racy[] = {true, true, false, false, false}; auto f = toy[i]; u64 ex = 0; bool cut;
            auto body = [&](int t, std::string &) { int a = f(t + 1), b = f(t + 1); rt::Quiet q; return fmt("%d %d", a, b); };
            std::vector<std::string> want; for (int t = 0; t < 2; t++) want.push_back(run_solo([&] { std::string d; return body(t, d); }));
            std::string bad = explore(body, 2, want, 2, 100000, ex, cut); if (bad.empty() == racy[i] || cut) { fprintf(stderr, "scheduler self-test %zu failed: %s\n", i, bad.c_str()); _exit(3); }
            c_states += rt::g_written.size(); sample(fmt("self-test %zu: %lu schedules, %s", i, ex, bad.empty() ? "no difference" : bad.c_str()));
        });
        auto e = encodings();
        // B, first pass: every operation; which shared locations are written?
        pool(e.size() * 2, [&](size_t i) {
            const std::string &n = e[i / 2]; auto d = make_dec(n); int ne = i / 2; std::map<std::tuple<int, int, u64>, int> seen; u64 ops = 0; c_states++;
            std::set<uintptr_t> touched;
            auto one = [&](int kind, int fl, const char *in, size_t len, int rep) {
                if (len > 239) return; { rt::Quiet q; if (!rt::g_written.empty()) rt::restore(); else rt::heaps[0].used = 0; touched.clear(); rt::g_touched = &touched; rt::g_wrote = false; }
                once(kind, n, fl, in, len, rep); ops++; c_trans++; rt::g_touched = nullptr; if (touched.empty()) return;
                rt::Quiet q; u64 sig = 1469598103934665603ull; for (auto g : touched) sig = (sig ^ g) * 1099511628211ull; if (seen[{kind, fl, sig}]++ >= 2) return; int k = tab->n.fetch_add(1); if (k >= 2000) return;
                Trig &t = tab->t[k]; t.kind = kind; t.enc = ne; t.fl = fl; t.n = len; memcpy(t.in, in, len); t.sig = sig; t.ng = 0; for (auto g : touched) if (t.ng < 16) t.g[t.ng++] = g;
            };
            auto toks = dec_tokens(*d); std::vector<std::string> longer, elonger;   // runs of one item, an item in a run of letters, all items
            { std::string all; for (auto &x : toks) { std::string r; while (r.size() + x.size() < 200) r += x; if (!x.empty()) longer.push_back(r); if (all.size() + x.size() < 230) all += x; } longer.push_back(all); std::string A = "A"; if (!is_stateful(n)) { A = ""; EncModel em(n); EState es; es.first = false; em.one(es, 'A', A); } if (!A.empty()) for (auto &x : toks) for (size_t p : {3, 8, 20}) { std::string r; for (size_t k = 0; k < p; k++) r += A; r += x; for (size_t k = 0; k < 20; k++) r += A; longer.push_back(r); }
              Cps ea; for (u32 c : enc_chars(n)) { elonger.push_back(u32s(Cps(50, c))); Cps r(10, 'A'); r.push_back(c); r.resize(40, 'A'); elonger.push_back(u32s(r)); if (ea.size() < 55) ea.push_back(c); } elonger.push_back(u32s(ea)); }
            rt::execute({[&] {
                if (i % 2 == 0) {
                    Gen g(*d, false); u64 c = 0; std::vector<std::string> in; { rt::Quiet q; g.gen(0, [&](const std::string &x, K) { c++; if (c < 4000 || c % (opt.thorough ? 3 : 29) == 0) in.push_back(x); }); words(toks, fit_depth(toks.size(), opt.thorough ? 20000 : 1000, 3), [&](const std::vector<std::string> &w) { in.push_back(cat(w)); }); }
                    u64 k = 0; for (auto &x : in) { k++; one(DEC, 0, x.data(), x.size(), 1); if (k % 8 == 0) one(DEC, 1, x.data(), x.size(), 1); }
                    for (auto &x : longer) for (int fl = 0; fl < 2; fl++) { one(DEC, fl, x.data(), x.size(), 1); one(WHOLE, fl, x.data(), x.size(), 1); for (int p = 0; p < 9; p++) one(PAIR, p * 2 + fl, x.data(), x.size(), 1); }
                    k = 0; for (auto &x : in) { k++; if (k % 5 == 0) one(DECS, 0, x.data(), x.size(), 1); if (k % 61 == 0) one(DECS, 1, x.data(), x.size(), 1); if (k % 7 == 0) one(PAIR, k / 7 % 18, x.data(), x.size(), 1); }
                    for (auto &x : toks) for (int fl = 0; fl < 2; fl++) { one(DECS, fl, x.data(), x.size(), 1); for (int p = 0; p < 9; p++) one(PAIR, p * 2 + fl, x.data(), x.size(), 1); one(WHOLE, fl, x.data(), x.size(), 1); one(CPP, fl, x.data(), x.size(), 1); }
                } else {
                    std::vector<std::string> in; { rt::Quiet q; auto al = enc_chars(n); words(al, fit_depth(al.size(), opt.thorough ? 20000 : 1000, 3), [&](const Cps &w) { in.push_back(u32s(w)); }); for (u32 c = 0; c < 0x110000; c++) { if (c >= 0x3000 && c % (opt.thorough ? 2 : 11)) continue; if (c >= 0x30000 && c % 101) continue; in.push_back(u32s({c})); } }
                    u64 k = 0; for (auto &x : in) { k++; one(ENC, 0, x.data(), x.size(), 1); if (k % 16 == 0) one(ENC, 1, x.data(), x.size(), 1); }
                    for (auto &x : elonger) for (int fl = 0; fl < 2; fl++) { one(ENC, fl, x.data(), x.size(), 1); one(ENCS, fl, x.data(), x.size(), 1); }
                    k = 0; for (auto &x : in) if (k++ % 5 == 0 || k < 600) { one(ENCS, 0, x.data(), x.size(), 1); if (k % 16 == 0) one(ENCS, 1, x.data(), x.size(), 1); }
                    for (auto &kv : spec().names.of) if (kv.second == n) { one(NAMES, 0, kv.first.data(), kv.first.size(), 1); }
                    one(NAMES, 0, "no such name", 12, 1);
                }
            }}, {});
            c_evals += ops; if (i % 40 == 0) sample(fmt("%s: %lu operations, %zu shared locations written", n.c_str(), ops, rt::g_written.size()));
        });
        // B, second pass: pairs of operations that touch a common location
        int nt = std::min<int>(tab->n, 2000); std::vector<std::pair<Act, Act>> prs;
        if (nt) {
            std::map<std::pair<u64, int>, int> per; std::vector<int> use; for (int k = 0; k < nt; k++) { if (per[{tab->t[k].sig, tab->t[k].kind}]++ < 6 || per[{0, tab->t[k].enc * KINDS + tab->t[k].kind}]++ < 2) use.push_back(k); }
            auto act = [&](const Trig &t, int rep) { return Act{t.kind, t.fl, e[t.enc], std::string(t.in, t.n), rep}; };
            std::set<std::pair<int, int>> had; auto pair = [&](int a, int b, int r) { if (prs.size() < (opt.thorough ? 20000u : 3000u)) prs.push_back({act(tab->t[a], r), act(tab->t[b], r)}); };
            auto common = [&](int a, int b) { for (int x = 0; x < tab->t[a].ng; x++) for (int y = 0; y < tab->t[b].ng; y++) if (tab->t[a].g[x] == tab->t[b].g[y]) return true; return false; };
            for (size_t gap = 0; gap < use.size(); gap++) for (size_t a = 0; a + gap < use.size(); a++) if (common(use[a], use[a + gap])) { pair(use[a], use[a + gap], 1); pair(use[a], use[a + gap], 2); }
            sample(fmt("%d operations touch shared written memory, %zu pairs explored", nt, prs.size()));
        }
        pool(prs.size(), [&](size_t i) {
            const Act a[2] = {prs[i].first, prs[i].second}; c_states++; auto body = [&](int t, std::string &) { return once(a[t].kind, a[t].enc, a[t].fl, a[t].in.data(), a[t].in.size(), a[t].rep); };
            std::vector<std::string> want; for (int t = 0; t < 2; t++) want.push_back(run_solo([&] { std::string d; return body(t, d); })); u64 ex = 0; bool cut = false;
            std::string bad = explore(body, 2, want, opt.thorough ? 3 : 2, opt.thorough ? 300000 : 6000, ex, cut); c_evals += ex; if (cut) sh->truncated++;
            if (!bad.empty()) violation("threads:" + a[0].enc + ":" + a[1].enc, "two threads, " + desc(a[0]) + " and " + desc(a[1]) + ": " + bad);
        });
        // A
        auto sc = [&](const std::string &n, int dir, int fl, size_t rot, size_t pieces) { Script s; s.fl = fl; if (dir == 0) { s.f = n; s.t = UCS4; auto t = dec_tokens(*make_dec(n)); for (size_t k = 0; k < pieces; k++) s.p.push_back(t[(rot + k) % t.size()] + t[(rot + 2 * k + 1) % t.size()]); } else { s.f = UCS4; s.t = n; auto t = enc_chars(n); for (size_t k = 0; k < pieces; k++) s.p.push_back(u32s({t[(rot + k) % t.size()], t[(rot + 3 * k + 2) % t.size()]})); } return s; };
        pool(e.size(), [&](size_t i) {
            std::vector<Script> mine; for (int dir = 0; dir < 2; dir++) for (size_t r = 0; r < 2; r++) mine.push_back(sc(e[i], dir, r, i + r, 2));
            u64 cnt = 0;
            for (size_t j = i; j < e.size(); j++) { c_states++; std::vector<Script> his; for (int dir = 0; dir < 2; dir++) his.push_back(sc(e[j], dir, 0, j, 2)); for (int a = 0; a < (opt.thorough ? 4 : 2); a++) for (int b = 0; b < 2; b++) { if (enough()) return; cnt += calls_interleaved({mine[opt.thorough ? a : 2 * a], his[b]}); } }
            // two and three descriptors of the same encoding, all choices of pieces
            for (int dir = 0; dir < 2; dir++) { auto base = sc(e[i], dir, 0, 0, 1); std::vector<std::string> al; if (dir == 0) al = dec_tokens(*make_dec(e[i])); else for (u32 c : enc_chars(e[i])) al.push_back(u32s({c})); size_t m = opt.thorough ? 10 : 4; std::vector<std::string> few; for (size_t k = 0; k < al.size() && few.size() < m; k += std::max<size_t>(1, al.size() / m)) few.push_back(al[k]);
                for (auto &p : few) for (auto &q : few) for (auto &x : few) for (auto &y : few) { if (enough()) return; Script s = base, t = base; s.p = {p, q}; t.p = {x, y}; cnt += calls_interleaved({s, t}); }
                if (!opt.thorough) few.resize(std::min<size_t>(few.size(), 3));
                for (auto &p : few) for (auto &q : few) for (auto &x : few) { if (enough()) return; Script s = base, t = base, u = base; s.p = {p}; t.p = {q}; u.p = {x}; cnt += calls_interleaved({s, t, u}); } }
            if (i % 50 == 0) sample(fmt("%s: %lu orders of calls of two and three descriptors", e[i].c_str(), cnt));
        });
        // conversions between charsets that share the source or the target, judged by what they give in a process of their own
        {
            struct Pr { size_t s, t; }; std::vector<Script> ps; std::vector<Pr> ends; size_t n = e.size(), lat = std::find(e.begin(), e.end(), "ISO88591") - e.begin(), u8i = std::find(e.begin(), e.end(), "UTF8") - e.begin();
            for (size_t i = 0; i < n; i++) { std::set<size_t> T{(i + 1) % n, (i + 2) % n, (i + n - 1) % n, lat % n, u8i % n, i}; for (size_t t : T) for (int fl = 0; fl < 2; fl++) { Script s; s.f = e[i]; s.t = e[t]; s.fl = fl; ps.push_back(s); ends.push_back({i, t}); } }
            alone = (Alone *)mmap(nullptr, sizeof(Alone) * ps.size(), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
            auto fill = [&](Script &s) {
                if (s.fl) { std::string a, b; for (int c = 0x20; c < 0xa0; c++) a += (char)c; for (int c = 0xa0; c < 0x100; c++) b += (char)c; s.p = {a, b + b}; return; }
                if (is_stateful(s.f)) { std::string x = "ABC", y; for (auto &k : dec_tokens(*make_dec(s.f), true)) if (x.size() < 60) x += k; else if (y.size() < 60) y += k; s.p = {x, y}; return; }
                bool any = is_stateful(s.t); EncModel f(s.f), t(any ? s.f : s.t); EState fs; fs.first = false; std::string x, y; size_t cnt = 0; for (u32 c = 0x20; c < 0x9000 && cnt < 90; c += c < 0x500 ? 1 : 37) { EState ts; std::string o; if (c < 0x80 ? c % 7 : false) continue; if (!t.one(ts, c, o)) continue; if (cnt < 40) { if (f.one(fs, c, x)) cnt++; } else if (f.one(fs, c, y)) cnt++; } f.flush(fs, y); s.p = {x, y}; };
            pool(ps.size(), [&](size_t i) { if (in_child([&] { Script s = ps[i]; fill(s); auto w = solo(s); alone[i].n = w.size(); for (size_t k = 0; k < w.size() && k < 6; k++) { alone[i].h[k] = hash(w[k]); snprintf(alone[i].txt[k], 240, "%s", w[k].c_str()); } return false; })) violation("calls:" + ps[i].f, ps[i].f + " -> " + ps[i].t + ": a conversion in a process of its own failed"); });
            pool(n, [&](size_t i) {
                g_plain = true; std::vector<size_t> mine; for (size_t k = 0; k < ps.size(); k++) if (ends[k].s == i || ends[k].t == i) { if (ends[k].t == i && ends[k].s != i && (i == lat || i == u8i) && !opt.thorough && (k + i) % 9) continue; mine.push_back(k); } u64 cnt = 0; c_states++;
                for (size_t a : mine) fill(ps[a]);
                for (size_t a = 0; a < mine.size(); a++) for (size_t b = 0; b < mine.size(); b++) { if (a == b || enough()) continue; if (late()) { sh->truncated++; return; } size_t x = mine[a], y = mine[b]; if (!opt.thorough && ps[x].fl != ps[y].fl && (a + b) % 4) continue; if (b > a || (a + b) % 3 == 0) cnt += calls_interleaved_alone({ps[x], ps[y]}, {&alone[x], &alone[y]}); }
                if (i % 60 == 0) sample(fmt("%s: %lu orders of calls of conversions between this and other charsets", e[i].c_str(), cnt));
            });
        }
        // D: every assignment of the calls to two threads
        pool(e.size() * 2, [&](size_t i) {
            const std::string &n = e[i / 2]; Script b = sc(n, i % 2, 0, 0, 1); std::vector<std::string> al; if (i % 2 == 0) al = dec_tokens(*make_dec(n)); else for (u32 c : enc_chars(n)) al.push_back(u32s({c})); std::vector<std::string> few; size_t m = opt.thorough ? 10 : 5; for (size_t k = 0; k < al.size() && few.size() < m; k++) few.push_back(al[k * al.size() / std::min(m, al.size()) % al.size()]);
            static Worker *w = nullptr; static pid_t owner = 0; if (owner != getpid()) { w = new Worker[2]; owner = getpid(); } g_plain = true; c_states++;
            for (auto &p : few) for (auto &q : few) for (int fl = 0; fl < 2; fl++) { if (enough()) return; b.p = {p, q}; b.fl = fl; std::string want = handed(b, 0, w); for (unsigned mask = 1; mask < 32; mask++) { c_trans++; std::string got = handed(b, mask, w); if (got != want) { violation("handed:" + b.f + ":" + b.t, fmt("%s -> %s flags %d, input %s then %s, calls made by threads (bits of) %x: gives %s, in one thread %s", b.f.c_str(), b.t.c_str(), fl, hex(p).c_str(), hex(q).c_str(), mask, got.c_str(), want.c_str())); return; } } }
            if (i == 0) sample("a descriptor handed from thread to thread between any two calls");
        });
        // a crowd: thousands of descriptors open at once, each used in turn; then the same with closed ones in between
        pool(3, [&](size_t round) {
            size_t N = round == 0 ? 5000 : round == 1 ? 1500 : 70000; std::vector<Script> ss; std::vector<std::vector<std::string>> want; g_plain = true; c_states++;
            size_t kinds = e.size() * 2; for (size_t k = 0; k < kinds; k++) ss.push_back(sc(e[k % e.size()], k / e.size(), 0, k, 2));
            auto raw = [](reiconv_t cd, const std::string *in) { static char out[4096]; char *ip = in ? (char *)in->data() : nullptr, *op = out; size_t il = in ? in->size() : 0, ol = sizeof out; g_calls = g_calls + 1; g_lib_flag = true; size_t r = reiconv_iconv(cd, in ? &ip : nullptr, in ? &il : nullptr, &op, &ol); int er = r == (size_t)-1 ? errno : 0; g_lib_flag = false; c_trans++; return fmt("%zd %s %zu left ", r, ename(er), il) + hex(out, op - out); };
            auto open = [](const Script &s) { g_lib_flag = true; reiconv_t r = reiconv_open_from_name(s.f.c_str(), s.t.c_str(), REICONV_NO_FLAGS); g_lib_flag = false; return r; };
            auto close = [](reiconv_t c) { g_lib_flag = true; reiconv_handle_close(c); g_lib_flag = false; };
            for (auto &s : ss) { reiconv_t c = open(s); if (c == (reiconv_t)-1) return; want.push_back({raw(c, &s.p[0]), raw(c, &s.p[1]), raw(c, nullptr)}); close(c); }
            auto bad = [&](size_t k, size_t n, const std::string &g, const std::string &w) { const Script &s = ss[k % kinds]; violation("crowd:" + s.f + ":" + s.t, fmt("%zu descriptors open, number %zu (%s -> %s, %s then %s): gives %s, alone it gives %s", n, k + 1, s.f.c_str(), s.t.c_str(), hex(s.p[0]).c_str(), hex(s.p[1]).c_str(), g.c_str(), w.c_str())); };
            if (round < 2) {
                std::vector<reiconv_t> cd; std::set<reiconv_t> dis; for (size_t k = 0; k < N; k++) { if (round == 1) { close(open(ss[(k * 7) % kinds])); } cd.push_back(open(ss[round ? (k / 750) * 97 % kinds : k % kinds])); if (cd.back() == (reiconv_t)-1) { bad(k, k, "no descriptor", "one"); return; } if (!dis.insert(cd.back()).second) { bad(k, k, "a descriptor that is in use already", "a new one"); return; } }
                auto of = [&](size_t k) { return round ? (k / 750) * 97 % kinds : k % kinds; };
                for (int st = 0; st < 3; st++) for (size_t q = 0; q < N; q++) { size_t k = st == 1 ? N - 1 - q : q; std::string g = raw(cd[k], st < 2 ? &ss[of(k)].p[st] : nullptr); if (g != want[of(k)][st]) { bad(of(k), N, g, want[of(k)][st]); return; } }
                for (auto c : cd) close(c);
            } else for (size_t k = 0; k < N; k++) { const Script &s = ss[k % kinds]; reiconv_t c = open(s); if (c == (reiconv_t)-1) { bad(k, k, "no descriptor", "one"); return; } for (int st = 0; st < 3; st++) { std::string g = raw(c, st < 2 ? &s.p[st] : nullptr); if (g != want[k % kinds][st]) { bad(k, 1, g, want[k % kinds][st]); return; } } close(c); }   // one after the other, so many that a 16-bit count wraps
            sample(fmt("%zu descriptors %s", N, round < 2 ? "open at once" : "one after the other"));
        });
    });
}
