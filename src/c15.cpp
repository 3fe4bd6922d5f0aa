// C15: encoding names.  Reference: the list of documented names (spec/names.txt).
#include "ident.hpp"
using namespace ve;
static std::map<std::string, int> index_of;   // canonical encoding -> index
static std::unordered_map<std::string, int> known;   // canonicalised documented name -> index

// the name is placed right before an inaccessible page, in read-only memory
static int look(const char *s, size_t n) {
    u8 *w = g_in.rw + BUF - n - 1; memcpy(w, s, n); w[n] = 0; g_crumb.in = n + 1; g_calls = g_calls + 1;
    LibScope sc; return reiconv_lookup_from_name((const char *)(g_in.ro + BUF - n - 1));
}
static void bad(const std::string &c, const std::string &s, int want, int got) {
    std::string k = want >= 0 && got == -1 ? "missing:" + c : want == -1 ? "extra:" + c : "wrong:" + c;
    static std::set<std::string> told; if (!told.insert(k).second) return;
    violation(k, fmt("name \"%s\"%s (%zu bytes): lookup gives %d, expected %d", s.substr(0, 80).c_str(), s.size() < 40 ? (" [" + hex(s) + "]").c_str() : "", s.size(), got, want));
}
static void one(const std::string &s) {
    int got = look(s.data(), s.size()); c_trans++; std::string c; int want = -1;
    if (got == -1 && s.size() > 0) { // fast path for the common case: not a name
        char b[64]; size_t k = 0; for (char x : s) { if (x == '-' || x == '_') continue; if (x >= 'a' && x <= 'z') x -= 32; if (k >= 60) { k = 61; break; } b[k++] = x; }
        if (k == 61) return; auto i = known.find(std::string(b, k)); if (i == known.end()) return; c = i->first; want = i->second;
    } else { c = canon(s); auto i = known.find(c); if (i != known.end()) want = i->second; }
    if (want >= 0) c_nontriv++;
    if (got != want) bad(c, s, want, got);
}
static void canonical(const std::string &s) {
    size_t n = s.size(); u8 *w = g_in.rw + BUF - n - 1; memcpy(w, s.data(), n); w[n] = 0; std::string want = canon(s); c_trans++; g_calls = g_calls + 1; g_crumb.in = n + 1; g_crumb.what = "canonicalize";
    u8 *o = g_out.rw + BUF - n - 1; memset(o - 16, 0xCB, n + 17); g_lib_flag = true; size_t r = reiconv_name_canonicalize((const char *)(g_in.ro + BUF - n - 1), (char *)o); g_lib_flag = false;
    if (r != want.size() || memcmp(o, want.c_str(), want.size() + 1) || std::string((char *)o - 16, 16) != std::string(16, '\xCB')) violation("canon:" + want, fmt("canonicalising \"%s\" [%s] gives \"%s\" length %zu", s.c_str(), hex(s).c_str(), std::string((char *)o, strnlen((char *)o, n + 1)).c_str(), r));
    g_crumb.what = "lookup"; one(s);
}
int main(int argc, char **argv) {
    return ve_main(argc, argv, [] {
        auto &N = spec().names; Probes P; P.build();
        // the indexes themselves: each canonical name must open the encoding it names
        pool(N.order.size(), [&](size_t i) {
            const std::string &n = N.order[i]; Desc a, b; c_states++;
            if (!a.open(n, UCS4) || !b.open(UCS4, n)) { violation("missing:" + n, "documented encoding name " + n + " is not found"); return; }
            std::string e = P.decodes(a, a.save(), n); if (!e.empty()) violation("wrong:" + n, "the name " + n + " opens something else: " + e);
            e = P.encodes(b, b.save(), n); if (!e.empty()) violation("wrong:" + n, "the name " + n + " opens something else: " + e);
        });
        for (auto &n : N.order) { int x = reiconv_lookup_from_name(n.c_str()); for (auto &kv : index_of) if (kv.second == x && x >= 0) violation("wrong:" + n, n + " and " + kv.first + " are the same encoding"); index_of[n] = x; }
        for (auto &kv : N.of) known[kv.first] = index_of[kv.second];
        std::vector<std::string> all; for (auto &kv : N.of) all.push_back(kv.first);
        sample(fmt("%zu documented names of %zu encodings", all.size(), N.order.size()));
        size_t chunks = all.size(); std::vector<std::string> PFX; { std::set<std::string> ps; for (auto &n : all) ps.insert(n.substr(0, n.find_first_of("0123456789"))); PFX.assign(ps.begin(), ps.end()); }
        static const char AL[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789:+.()/- "; const size_t A = sizeof AL - 1;
        pool(chunks + A * A + 256 + 1, [&](size_t i) {
            g_crumb = {"", "", 0, 0, 0, "lookup", ""};
            if (i < chunks) {
                const std::string &n = all[i]; size_t L = n.size(); one(n); canonical(n); canonical(lower(n));
                std::vector<size_t> let; for (size_t k = 0; k < L; k++) if (n[k] >= 'A' && n[k] <= 'Z') let.push_back(k);
                size_t lim = opt.thorough ? 18 : 12;    // case variants: all of them for up to lim letters, else all with up to 3 changes from either side
                if (let.size() <= lim) for (size_t m = 0; m < (1u << let.size()); m++) { std::string s = n; for (size_t k = 0; k < let.size(); k++) if (m >> k & 1) s[let[k]] += 32; one(s); }
                else for (int side = 0; side < 2; side++) { std::string s0 = side ? lower(n) : n; auto fl = [](std::string &s, size_t k) { s[k] ^= 32; }; for (size_t a : let) for (size_t b : let) for (size_t c : let) { std::string s = s0; fl(s, a); if (b != a) fl(s, b); if (c != b && c != a) fl(s, c); one(s); } }
                for (char s1 : {'-', '_'}) for (size_t a = 0; a <= L; a++) { std::string s = n; s.insert(a, 1, s1); one(s); canonical(s); for (char s2 : {'-', '_'}) for (size_t b = 0; b <= s.size(); b++) { std::string t = s; t.insert(b, 1, s2); one(t); one(lower(t)); } std::string t = n; t.insert(a, std::string(100, s1)); one(t); t = n; t.insert(a, std::string(5000, s1)); one(t); }
                { std::string s; for (char c : n) { s += '-'; s += c; s += '_'; } one(s); }
                // one edit away
                for (size_t a = 0; a <= L; a++) for (int b = 1; b < 256; b++) { std::string s = n; s.insert(a, 1, (char)b); one(s); if (a < L) { s = n; s[a] = (char)b; one(s); s = lower(n); s[a] = (char)b; one(s); } }
                for (size_t a = 0; a < L; a++) { std::string s = n; s.erase(a, 1); one(s); s = n; if (a + 1 < L) { std::swap(s[a], s[a + 1]); one(s); } one(n.substr(0, a)); one(n.substr(a)); one(n + n.substr(0, a + 1)); s = n; s.insert(a, 1, n[a]); one(s); }
                // two replacements
                if (opt.thorough || L <= 9) for (size_t a = 0; a < L; a++) for (size_t b = a + 1; b < L; b++) for (size_t x = 0; x < 36; x++) for (size_t y = 0; y < 36; y++) { std::string s = n; s[a] = AL[x]; s[b] = AL[y]; one(s); }
                for (size_t pad : {1, 8, 20, 40, 60, 100, 256, 1000, 4096, 60000}) for (char c : {'A', ' ', '\xff', '0', '/'}) { one(n + std::string(pad, c)); one(std::string(pad, c) + n); }
                for (auto &o : all) one(n + o);      // run-together names
                for (size_t x = 0; x < 37; x++) for (size_t y = 0; y < 36; y++) for (size_t z = 0; z < 36; z++) { std::string s{AL[x], AL[y], AL[z]}; if (x == 36) s.erase(0, 1); one(s + n); one(n + s); }   // affixes of two and three characters
                for (const char *a : {"IBM", "IBM-", "WINDOWS", "CODEPAGE", "ANSI", "DOS", "MAC", "APPLE", "ADOBE", "LATIN", "CHARSET=", "CODE", "OEM", "EBCDIC", "UNICODE", "JAVA", "MIME", "IANA", "ASCII", "STANDARD", "ENCODING", "CSIBM", "XMAC", "XWINDOWS", "//TRANSLIT", "//IGNORE", "//NON_IDENTICAL_DISCARD", "/NEXT", ",VERSION=1", ",SWAPLFNL", "@EURO", ".UTF8", ":1990", ":2000", ":2022", "BOM", "SIG", "NOBOM", "INTERNAL", "SWAPPED", "\r\n", "\t", "\n"}) { one(a + n); one(n + a); one(std::string("x-") + a + n); }
                // one lookup after another: every name after every name, every neighbour after its name and the name after it
                for (auto &o : all) { one(n); one(o); }
                for (size_t a = 0; a <= L; a++) { std::string s; if (a < L) { s = n; s.erase(a, 1); one(n); one(s); one(n); one(n.substr(0, a)); one(n); one(n.substr(a)); } for (char b : {'A', 'X', '0', '1', '5', ' ', ':', '/'}) { s = n; s.insert(a, 1, b); one(n); one(s); one(n); if (a < L) { s = n; s[a] = b; one(n); one(s); one(n); } } }
                for (size_t pad : {1, 20, 60, 100, 1000}) { one(n); one(n + std::string(pad, 'A')); one(n); }
                if (i < PFX.size()) for (int k = 0; k < 100000; k++) { one(PFX[i] + std::to_string(k)); if (k < 1000) one(fmt("%s%05d", PFX[i].c_str(), k)); }   // every number after every prefix in use
                c_states++;
            } else if (i < chunks + A * A) {   // all strings over the alphabet with these two first characters
                size_t a = (i - chunks) / A, b = (i - chunks) % A; std::string s; size_t D = opt.thorough ? 6 : 5;
                if (b == 0) one(std::string(1, AL[a]));
                std::function<void()> go = [&] { one(s); if (s.size() == D || enough()) return; for (size_t k = 0; k < A; k++) { s.push_back(AL[k]); go(); s.pop_back(); } };
                s = {AL[a], AL[b]}; go(); c_states++;
            } else if (i < chunks + A * A + 256) {   // all byte strings of up to three bytes
                int a = i - chunks - A * A; if (a == 0) { canonical(""); return; } std::string s(1, (char)a); canonical(s);
                for (int b = 1; b < 256; b++) { s.resize(1); s.push_back((char)b); canonical(s); for (int c = 1; c < 256; c++) { s.resize(2); s.push_back((char)c); one(s); } } c_states++;
            } else {
                for (size_t n = 0; n < 600; n++) for (int c = 1; c < 256; c++) one(std::string(n, (char)c));
                for (size_t n : {1000, 1024, 4095, 4096, 4097, 65535, 65536, 100000}) for (int c = 1; c < 256; c++) { one(std::string(n, (char)c)); canonical(std::string(n, (char)c)); }
                c_states++;
            }
        });
        sample("all strings of up to 5 characters (6 when thorough) over A-Z 0-9 : + . ( ) / - space; all byte strings of up to 3 bytes; all one-edit neighbours of every name");
    });
}
