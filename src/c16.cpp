// C16: code page numbers and public constants.  Reference: spec/names.txt.  All 2^32 integers.
#include "ident.hpp"
#include <cppp/reiconv.hpp>
using namespace ve;
struct KV { const char *n; int v; };
extern "C" const KV consts_c[]; extern "C" const int nconsts_c;
static const KV consts_cpp[] = {
#include "consts_hpp.inc"
};
int main(int argc, char **argv) {
    return ve_main(argc, argv, [] {
        auto &N = spec().names; Probes P; P.build(); std::map<std::string, int> idx; for (auto &n : N.order) idx[n] = reiconv_lookup_from_name(n.c_str());
        std::unordered_map<int, int> want; for (auto &kv : N.codepage) want[kv.first] = idx[kv.second];
        // the documented code pages open what they are documented for
        std::vector<std::pair<int, std::string>> cp(N.codepage.begin(), N.codepage.end());
        auto behaves = [&](int kind, int v, const std::string &n, const std::string &what) {
            Desc a, b; int u4 = reiconv_lookup_from_name(UCS4);
            auto openit = [&](Desc &d, bool dec) { d.open(dec ? n : UCS4, dec ? UCS4 : n); if (d.isopen) { d.close(); d.take(); g_arena = &d.a; g_crumb.what = "open"; d.cd = kind == 0 ? reiconv_open_from_codepage(dec ? v : 12000, dec ? 12000 : v, REICONV_NO_FLAGS) : reiconv_open_from_index(dec ? v : u4, dec ? u4 : v, REICONV_NO_FLAGS); g_arena = nullptr; d.isopen = d.cd != (reiconv_t)-1; d.adopt(); } return d.isopen; };
            c_trans++; if (!openit(a, true) || !openit(b, false)) { violation("open:" + what, what + " cannot be opened (expected " + n + ")"); return; }
            std::string e = P.decodes(a, a.save(), n); if (e.empty()) e = P.encodes(b, b.save(), n); if (!e.empty()) violation("wrong:" + what, what + " is not " + n + ": " + e);
        };
        if (N.codepage.count(12000) == 0 || canon(UCS4).empty()) { fprintf(stderr, "codepage 12000 expected in the spec\n"); exit(3); }
        size_t nc = nconsts_c, np = sizeof consts_cpp / sizeof *consts_cpp;
        pool(cp.size() + nc + np, [&](size_t i) {
            c_states++; c_nontriv++;
            if (i < cp.size()) { if (cp[i].first == 12000) return; behaves(0, cp[i].first, cp[i].second, fmt("code page %d", cp[i].first)); }
            else { bool c = i < cp.size() + nc; const KV &k = c ? consts_c[i - cp.size()] : consts_cpp[i - cp.size() - nc]; std::string nm = std::string(c ? "ENCODING_" : "Encodings::") + k.n; const std::string &n = N.constant[k.n];
                if (k.v == -2) { violation("missing:" + nm, "public constant " + nm + " no longer exists"); return; }
                if (k.v != idx[n]) { violation("wrong:" + nm, fmt("constant %s is %d, but the name %s denotes %d", nm.c_str(), k.v, n.c_str(), idx[n])); return; }
                behaves(1, k.v, n, nm); }
        });
        sample(fmt("%zu code pages, %zu C constants, %zu C++ constants, each opened as source and as target", cp.size(), nc, np));
        for (auto &n : N.order) if (idx[n] < 0 || idx[n] >= 4096) { violation("index:" + n, "no index for " + n); return; }
        // every integer
        pool(1 << 16, [&](size_t h) {
            g_crumb.what = "codepage lookup"; u32 base = (u32)h << 16; LibScope sc; g_crumb.in = 0; g_crumb.path = fmt("block %08x", base);
            static std::vector<int> tab; if (tab.empty()) { tab.assign(1 << 16, -1); for (auto &kv : want) if (kv.first >= 0 && kv.first < 65536) tab[kv.first] = kv.second; }
            for (u32 l = 0; l < 65536; l++) { int c = (int)(base | l); int got = reiconv_lookup_from_codepage(c); int w = h == 0 ? tab[l] : -1; if (__builtin_expect(got != w, 0)) { violation(fmt("cp:%d", c), fmt("code page %d: lookup gives %d, expected %d", c, got, w)); if (enough()) return; } }
            g_calls = g_calls + 65536; c_trans += 65536; c_states++;
        });
        for (auto &kv : want) if (kv.first < 0 || kv.first > 65535) { fprintf(stderr, "spec code page out of range\n"); exit(3); }
        sample("reiconv_lookup_from_codepage on all 2^32 integers");
        // one lookup after another
        pool(cp.size(), [&](size_t i) {
            g_crumb.what = "codepage lookup"; g_crumb.in = 0; g_crumb.path = fmt("after code page %d", cp[i].first); LibScope sc; int p = cp[i].first;
            auto two = [&](int q) { int a = reiconv_lookup_from_codepage(p), b = reiconv_lookup_from_codepage(q); c_trans++; auto w = [&](int x) { auto k = want.find(x); return k == want.end() ? -1 : k->second; }; if (a != w(p) || b != w(q)) violation(fmt("cp:%d:%d", p, q), fmt("code page %d gives %d, then code page %d gives %d, expected %d and %d", p, a, q, b, w(p), w(q))); };
            for (auto &k : cp) two(k.first); for (int b = 0; b < 32; b++) { two((int)((u32)p ^ (1u << b))); for (int c = 0; c < b; c++) two((int)((u32)p ^ (1u << b) ^ (1u << c))); } two(-p); two(~p); for (int q = p - 300; q < p + 300; q++) two(q);
        });
        // opening with unknown code pages, on either side
        pool(1, [&](size_t) {
            for (int bad : {-1, -2, 0, 1, 2, 99999, 65001 + 100000, 0x7fffffff, (int)0x80000000, 65536, 70000, 12345678, -65001}) if (!want.count(bad)) for (int side = 0; side < 3; side++) { LibScope sc; errno = 0; reiconv_t r = reiconv_open_from_codepage(side != 1 ? bad : 65001, side != 0 ? bad : 65001, REICONV_NO_FLAGS); c_trans++; if (r != (reiconv_t)-1 || errno != EINVAL) violation(fmt("openbad:%d", bad), fmt("opening with unknown code page %d (side %d) gives %p errno %d", bad, side, r, errno)); }
        });
    });
}
