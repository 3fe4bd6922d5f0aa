// Executable specification: per-encoding decoders (state machines over bytes) and repertoires,
// built from the frozen mapping data in spec/ and hand-written from the encodings' specifications.
// Nothing in here uses the code under test.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <string_view>
#include <unordered_map>
#include <vector>
#include <algorithm>
#include <array>
#include <tuple>

namespace vm {
using u8 = uint8_t; using u16 = uint16_t; using u32 = uint32_t; using u64 = uint64_t;
using Cps = std::vector<u32>;

// ---------------------------------------------------------------- frozen data
struct Entry { u32 bytes; u8 len; bool d, e; u32 cp, cp2; };
struct CompRule { u32 base, mark, res; };
struct Charset { std::string name; std::vector<Entry> ents; std::vector<CompRule> comps; bool gb_range = false; };

inline std::string canon(std::string_view s) {
    std::string r;
    for (char c : s) { if (c == '-' || c == '_') continue; if (c >= 'a' && c <= 'z') c -= 32; r += c; }
    return r;
}

struct Names {
    std::vector<std::string> order;                       // canonical names
    std::map<std::string, std::vector<std::string>> alias;  // canonical -> all names
    std::map<std::string, std::string> of;                // name -> canonical
    std::map<int, std::string> codepage;
    std::map<std::string, std::string> constant;
};

struct Spec {
    Names names;
    std::map<std::string, Charset> sets;      // canonical name or "@..."
    const Charset *set(const std::string &n) const { auto i = sets.find(n); return i == sets.end() ? nullptr : &i->second; }
};

inline Spec &spec() { static Spec s; return s; }

inline void load_spec(const std::string &dir) {
    Spec &S = spec();
    FILE *f = fopen((dir + "/names.txt").c_str(), "r");
    if (!f) { perror("names.txt"); exit(3); }
    static char line[1 << 16];
    while (fgets(line, sizeof line, f)) {
        std::vector<std::string> w; char *sv;
        for (char *t = strtok_r(line, " \n", &sv); t; t = strtok_r(nullptr, " \n", &sv)) w.push_back(t);
        if (w.empty()) continue;
        if (w[0] == "N") { S.names.order.push_back(w[1]); for (size_t i = 1; i < w.size(); i++) { S.names.alias[w[1]].push_back(w[i]); S.names.of[w[i]] = w[1]; } }
        else if (w[0] == "P") S.names.codepage[atoi(w[1].c_str())] = w[2];
        else if (w[0] == "X") S.names.constant[w[1]] = w[2];
    }
    fclose(f);
    f = fopen((dir + "/charsets.txt").c_str(), "r");
    if (!f) { perror("charsets.txt"); exit(3); }
    Charset *cur = nullptr;
    while (fgets(line, sizeof line, f)) {
        if (line[0] == 'E') {
            char nm[100]; sscanf(line, "E %99s", nm);
            std::string k = nm;
            if (k[0] != '@') { k = canon(k); auto i = S.names.of.find(k); if (i == S.names.of.end()) { fprintf(stderr, "unknown charset %s\n", nm); exit(3); } k = i->second; }
            cur = &S.sets[k]; cur->name = k;
        } else if (line[0] == 'M') {
            CompRule r; sscanf(line, "M %X %X %X", &r.base, &r.mark, &r.res); cur->comps.push_back(r);
        } else if (line[0] == 'R') {
            cur->gb_range = true;
        } else {
            char *p = line; Entry e{}; const char *b = p;
            e.bytes = strtoul(p, &p, 16); e.len = (p - b) / 2;
            e.cp = strtoul(p, &p, 16); if (*p == '+') e.cp2 = strtoul(p + 1, &p, 16);
            for (; *p; p++) { if (*p == 'D') e.d = true; if (*p == 'E') e.e = true; }
            cur->ents.push_back(e);
        }
    }
    fclose(f);
}

// ---------------------------------------------------------------- decoders
// CHARS: 'used' bytes make up n characters.  SHIFT: 'used' bytes change the state only.
// BAD: malformed.  INC: a proper prefix of something valid.  HOPELESS: not a prefix of anything
// valid, but shorter than the longest token, so that a decoder may still wait for more (EINVAL) or
// reject it (EILSEQ).  UNSPEC: the specification leaves it open; nothing is checked.
enum K : u8 { DONE, CHARS, SHIFT, BAD, INC, HOPELESS, UNSPEC };
struct Step { K k; u32 used = 0; u32 n = 0; u32 ch[2] = {0, 0}; u64 st = 0; };

struct Composer {  // base + mark -> composed, applied left to right
    std::unordered_map<u64, u32> m;
    std::set<u32> bases; bool chain = false;   // chain: a composed character may compose again (Hebrew points)
    void add(const CompRule &r) { m[(u64)r.base << 32 | r.mark] = r.res; bases.insert(r.base); }
};

struct Dec {
    std::string name;
    u32 look = 1;                 // longest token
    const Composer *comp = nullptr;
    virtual ~Dec() {}
    virtual Step step(u64 st, const u8 *p, size_t n) const = 0;
    virtual bool base(u64 st) const { return st == 0; }  // in the initial shift state (designations aside)
    // escape sequences and shift codes of the encoding
    virtual std::vector<std::string> shifts() const { return {}; }
};

struct DState { u64 st = 0; u32 pend = 0; bool haspend = false;
    auto tie() const { return std::make_tuple(st, pend, haspend); }
    bool operator<(const DState &o) const { return tie() < o.tie(); } bool operator==(const DState &o) const { return tie() == o.tie(); } };
struct Run { K end = DONE; size_t pos = 0; DState s; };

inline void emit(const Dec &d, DState &s, u32 c, Cps &out) {
    if (!d.comp) { out.push_back(c); return; }
    if (s.haspend) {
        auto i = d.comp->m.find((u64)s.pend << 32 | c);
        if (i != d.comp->m.end()) { s.pend = i->second; if (!d.comp->chain || !d.comp->bases.count(s.pend)) { out.push_back(s.pend); s.haspend = false; s.pend = 0; } return; }
        out.push_back(s.pend); s.haspend = false; s.pend = 0;
    }
    if (d.comp->bases.count(c)) { s.pend = c; s.haspend = true; } else out.push_back(c);
}
inline void flush(DState &s, Cps &out) { if (s.haspend) out.push_back(s.pend); s.pend = 0; s.haspend = false; }

inline Run run(const Dec &d, DState s, const u8 *p, size_t n, Cps &out) {
    Run r; size_t pos = 0;
    while (pos < n) {
        Step t = d.step(s.st, p + pos, n - pos);
        if (t.k == CHARS || t.k == SHIFT) { pos += t.used; s.st = t.st; for (u32 i = 0; i < t.n; i++) emit(d, s, t.ch[i], out); continue; }
        r.end = t.k; break;
    }
    r.pos = pos; r.s = s; return r;
}

// -- table-driven
struct Trie {
    std::vector<std::array<int32_t, 256>> nodes;   // 0: nothing, >0: node, <0: -(entry+1)
    std::vector<std::pair<u32, u32>> val;
    u32 maxlen = 1, lead[256] = {}; bool gb = false;
    // how many bytes must be there before a malformed sequence has to be recognised as such
    size_t need(const u8 *p, size_t n) const { if (gb && p[0] >= 0x81 && p[0] <= 0xFE && n >= 2) return p[1] >= 0x30 && p[1] <= 0x39 ? 4 : 2; return gb || !lead[p[0]] ? maxlen : lead[p[0]]; }
    Trie() { nodes.emplace_back(); nodes[0].fill(0); }
    void add(u32 bytes, int len, u32 a, u32 b) {
        int cur = 0; maxlen = std::max<u32>(maxlen, len);
        for (int i = 0; i < len; i++) {
            u8 c = bytes >> (8 * (len - 1 - i)); if (!i) lead[c] = std::max<u32>(lead[c], len);
            if (i == len - 1) { if (nodes[cur][c] != 0) { fprintf(stderr, "clash %08x\n", bytes); exit(3); } val.push_back({a, b}); nodes[cur][c] = -(int)val.size(); }
            else { int x = nodes[cur][c]; if (x < 0) { fprintf(stderr, "prefix clash %08x\n", bytes); exit(3); } if (!x) { nodes.emplace_back(); nodes.back().fill(0); x = nodes.size() - 1; nodes[cur][c] = x; } cur = x; }
        }
    }
    // returns kind; used, chars
    Step get(const u8 *p, size_t n) const {
        Step s; int cur = 0; size_t i = 0; bool dead = false;
        if (gb && n >= 1 && p[0] >= 0x90 && p[0] <= 0xE3 && n >= 2 && p[1] >= 0x30 && p[1] <= 0x39) {
            // four-byte linear range 90308130.. -> U+10000..
            bool ok = true; u32 lin = 0;
            static const u8 lo[4] = {0x90, 0x30, 0x81, 0x30}, hi[4] = {0xE3, 0x39, 0xFE, 0x39}; static const u32 mul[4] = {12600, 1260, 10, 1};
            for (size_t j = 0; j < 4 && j < n; j++) { if (p[j] < lo[j] || p[j] > hi[j]) { ok = false; break; } lin += (p[j] - lo[j]) * mul[j]; }
            if (ok && lin < 0x100000) { if (n < 4) { s.k = INC; return s; } s.k = CHARS; s.used = 4; s.n = 1; s.ch[0] = 0x10000 + lin; return s; }
            s.k = n < need(p, n) ? HOPELESS : BAD; return s;
        }
        for (; i < n; i++) {
            int x = nodes[cur][p[i]];
            if (x < 0) { s.k = CHARS; s.used = i + 1; s.n = 1; s.ch[0] = val[-x - 1].first; if (val[-x - 1].second) { s.n = 2; s.ch[1] = val[-x - 1].second; } return s; }
            if (x == 0) { if (gb && i == 1 && p[0] >= 0x81 && p[1] >= 0x30 && p[1] <= 0x39) {} dead = true; break; }
            cur = x;
        }
        if (!dead) { s.k = INC; return s; }
        s.k = n < need(p, n) ? HOPELESS : BAD; return s;
    }
};

struct TableDec : Dec {
    Trie t; Composer c;
    TableDec(const Charset &cs) {
        bool composing = !cs.comps.empty();
        for (auto &e : cs.ents) if (e.d && (!composing || e.len == 1)) t.add(e.bytes, e.len, e.cp, e.cp2);
        t.gb = cs.gb_range; if (t.gb) t.maxlen = 4;
        for (auto &r : cs.comps) c.add(r);
        c.chain = cs.name == spec().names.of["CP1255"];
        if (composing) comp = &c;
        look = t.maxlen;
    }
    Step step(u64 st, const u8 *p, size_t n) const override { Step s = t.get(p, n); s.st = st; return s; }
};

// -- Unicode forms
struct Utf8Dec : Dec {
    Utf8Dec() { look = 4; }
    Step step(u64 st, const u8 *p, size_t n) const override {
        Step s; s.st = st; u8 c = p[0];
        if (c < 0x80) { s.k = CHARS; s.used = 1; s.n = 1; s.ch[0] = c; return s; }
        if (c < 0xC2 || c > 0xF4) { s.k = (c >= 0xF5 && c <= 0xF7 && n < 4) ? HOPELESS : BAD; return s; }
        int len = c < 0xE0 ? 2 : c < 0xF0 ? 3 : 4;
        u32 v = c & (len == 2 ? 0x1f : len == 3 ? 0x0f : 7);
        for (int i = 1; i < len; i++) {
            if ((size_t)i >= n) { s.k = INC; return s; }
            u8 lo = 0x80, hi = 0xBF;
            if (i == 1) { if (c == 0xE0) lo = 0xA0; if (c == 0xED) hi = 0x9F; if (c == 0xF0) lo = 0x90; if (c == 0xF4) hi = 0x8F; }
            if (p[i] < lo || p[i] > hi) { s.k = n < (size_t)len ? HOPELESS : BAD; return s; }
            v = v << 6 | (p[i] & 0x3f);
        }
        s.k = CHARS; s.used = len; s.n = 1; s.ch[0] = v; return s;
    }
};
struct Utf16Dec : Dec {  // also UCS-2
    bool le0, bom, pairs;
    Utf16Dec(bool le, bool b, bool p) : le0(le), bom(b), pairs(p) { look = p ? 4 : 2; }
    Step step(u64 st, const u8 *p, size_t n) const override {
        Step s; s.st = st; bool le = bom ? st : le0;
        if (n < 2) { s.k = INC; return s; }
        u32 w = le ? p[0] | p[1] << 8 : p[0] << 8 | p[1];
        if (bom && w == 0xFEFF) { s.k = SHIFT; s.used = 2; return s; }
        if (bom && w == 0xFFFE) { s.k = SHIFT; s.used = 2; s.st = !st; return s; }
        if (w >= 0xD800 && w < 0xE000) {
            if (!pairs || w >= 0xDC00) { s.k = BAD; return s; }
            if (n < 4) { s.k = INC; if (n == 3) { u8 h = le ? 0xDC : p[2]; if (!le && (h < 0xDC || h > 0xDF)) s.k = HOPELESS; } return s; }
            u32 x = le ? p[2] | p[3] << 8 : p[2] << 8 | p[3];
            if (x < 0xDC00 || x > 0xDFFF) { s.k = BAD; return s; }
            s.k = CHARS; s.used = 4; s.n = 1; s.ch[0] = 0x10000 + ((w - 0xD800) << 10) + (x - 0xDC00); return s;
        }
        s.k = CHARS; s.used = 2; s.n = 1; s.ch[0] = w; return s;
    }
    bool base(u64) const override { return true; }
};
struct Utf32Dec : Dec {
    bool le0, bom, ucs4;
    Utf32Dec(bool le, bool b, bool u) : le0(le), bom(b), ucs4(u) { look = 4; }
    Step step(u64 st, const u8 *p, size_t n) const override {
        Step s; s.st = st; bool le = bom ? st : le0;
        if (n < 4) {  // cheap: may already be hopeless
            s.k = INC;
            if (!ucs4) { u8 hi = le ? 0 : p[0]; if (hi) s.k = HOPELESS; if (!le && n >= 2 && p[1] > 0x10) s.k = HOPELESS; if (!le && n >= 3 && p[0] == 0 && p[1] == 0 && p[2] >= 0xD8 && p[2] < 0xE0) s.k = HOPELESS; if (le && n >= 3 && p[2] > 0x10) s.k = HOPELESS; if (le && n == 3 && p[2] == 0 && p[1] >= 0xD8 && p[1] < 0xE0) s.k = HOPELESS;
                if (bom && s.k == HOPELESS) { static const u8 b1[4] = {0xFF, 0xFE, 0, 0}; /* reversed mark in big-endian mode is FF FE 00 00 */ static const u8 b2[4] = {0, 0, 0xFE, 0xFF}; if (!memcmp(p, le ? b2 : b1, n)) s.k = INC; } }
            else if (bom) { s.k = INC; if (!le && p[0] >= 0x80 && p[0] != 0xFF) s.k = HOPELESS; if (!le && p[0] == 0xFF && n >= 2 && (p[1] != 0xFE || (n >= 3 && p[2] != 0))) s.k = HOPELESS; }
            return s;
        }
        u32 w = le ? p[0] | p[1] << 8 | p[2] << 16 | (u32)p[3] << 24 : (u32)p[0] << 24 | p[1] << 16 | p[2] << 8 | p[3];
        if (bom && w == 0xFEFF) { s.k = SHIFT; s.used = 4; return s; }
        if (bom && w == 0xFFFE0000u) { s.k = SHIFT; s.used = 4; s.st = !st; return s; }
        if (ucs4) { if (w > 0x7fffffff) { s.k = bom ? BAD : UNSPEC; return s; } }
        else if (w > 0x10FFFF || (w >= 0xD800 && w < 0xE000)) { s.k = BAD; return s; }
        s.k = CHARS; s.used = 4; s.n = 1; s.ch[0] = w; return s;
    }
    bool base(u64) const override { return true; }
};

struct Utf7Dec : Dec {
    // state: 0 direct; otherwise bit0=1, bits 1..2: number of pending bit pairs (0, 1 (2 bits), 2 (4 bits)), bits 3..6 their value, bit 7: nothing read since '+'
    Utf7Dec() { look = 8; }
    static int b64(u8 c) { if (c >= 'A' && c <= 'Z') return c - 'A'; if (c >= 'a' && c <= 'z') return c - 'a' + 26; if (c >= '0' && c <= '9') return c - '0' + 52; if (c == '+') return 62; if (c == '/') return 63; return -1; }
    static bool direct(u8 c) { if (c >= 0x80) return false; if (c == ' ' || c == '\t' || c == '\r' || c == '\n') return true; return c > 0x20 && c < 0x7f && c != '\\' && c != '~' && c != '+'; }
    Step step(u64 st, const u8 *p, size_t n) const override {
        Step s; s.st = st;
        if (st == 0) {
            if (direct(p[0])) { s.k = CHARS; s.used = 1; s.n = 1; s.ch[0] = p[0]; return s; }
            if (p[0] == '+') {
                if (n < 2) { s.k = INC; return s; }
                if (p[1] == '-') { s.k = CHARS; s.used = 2; s.n = 1; s.ch[0] = '+'; return s; }
                if (b64(p[1]) < 0) { s.k = UNSPEC; return s; }   // RFC 2152: ill-formed; accepted as an empty shift here
                s.k = SHIFT; s.used = 1; s.st = 1 | 0x80; return s;
            }
            s.k = BAD; return s;
        }
        unsigned nb = ((st >> 1) & 3) * 2; u64 acc = (st >> 3) & 15; size_t i = 0; unsigned need = 16;
        for (;;) {
            while (nb < need) {
                if (i >= n) {  // ran out
                    s.k = INC;
                    // known top bits of the unit being assembled
                    if (need == 16 && nb >= 6) { u32 top = (acc >> (nb - 6)) & 63; if (top == 0x37) s.k = HOPELESS; }
                    if (need == 32 && nb >= 22) { u32 top = (acc >> (nb - 22)) & 63; if (top != 0x37) s.k = HOPELESS; }
                    return s;
                }
                int v = b64(p[i]);
                if (v < 0) {  // terminator
                    if (i > 0 || acc != 0) { s.k = BAD; return s; }
                    s.k = SHIFT; s.used = p[0] == '-'; s.st = 0; return s;
                }
                acc = acc << 6 | v; nb += 6; i++;
            }
            if (need == 16) { u32 u = (acc >> (nb - 16)) & 0xffff; if (u >= 0xDC00 && u < 0xE000) { s.k = BAD; return s; } if (u >= 0xD800 && u < 0xDC00) { need = 32; continue; } s.ch[0] = u; }
            else { u32 u = (acc >> (nb - 32)) & 0xffffffff; u32 lo = u & 0xffff; if (lo < 0xDC00 || lo > 0xDFFF) { s.k = BAD; return s; } s.ch[0] = 0x10000 + (((u >> 16) - 0xD800) << 10) + (lo - 0xDC00); }
            break;
        }
        unsigned rest = nb - need; u64 rv = acc & ((1u << rest) - 1);
        s.k = CHARS; s.used = i; s.n = 1; s.st = 1 | (rest / 2) << 1 | rv << 3; return s;
    }
    std::vector<std::string> shifts() const override { return {"+", "-"}; }
};

struct C99Dec : Dec {
    bool java;
    C99Dec(bool j) : java(j) { look = j ? 12 : 10; }
    static int hex(u8 c) { if (c >= '0' && c <= '9') return c - '0'; if (c >= 'a' && c <= 'f') return c - 'a' + 10; if (c >= 'A' && c <= 'F') return c - 'A' + 10; return -1; }
    static bool okrange(u64 lo, u64 hi) {  // does [lo,hi] contain a value C99 accepts?
        if (hi >= 0xA0 && !(lo >= 0xD800 && hi < 0xE000) && lo <= 0x10FFFF) return true;
        for (u32 v : {0x24u, 0x40u, 0x60u}) if (v >= lo && v <= hi) return true;
        return false;
    }
    Step step(u64 st, const u8 *p, size_t n) const override {
        Step s; s.st = st; auto lit = [&](u32 c) { s.k = CHARS; s.used = 1; s.n = 1; s.ch[0] = c; return s; };
        if (!java && p[0] >= 0xA0) { s.k = BAD; return s; }
        if (p[0] != '\\') return lit(p[0]);
        if (n < 2) { s.k = INC; return s; }
        int nd = p[1] == 'u' ? 4 : (p[1] == 'U' && !java) ? 8 : 0;
        if (!nd) return lit('\\');
        u64 v = 0;
        for (int i = 0; i < nd; i++) {
            if ((size_t)(2 + i) >= n) {
                s.k = INC;
                if (!java) { int sh = 4 * (nd - i); if (!okrange(v << sh, (v << sh) | ((1ull << sh) - 1))) s.k = HOPELESS; }
                return s;
            }
            int h = hex(p[2 + i]); if (h < 0) return lit('\\');
            v = v << 4 | h;
        }
        if (!java) {
            if (v > 0x10FFFF) { s.k = UNSPEC; return s; }
            if (!okrange(v, v)) { s.k = BAD; return s; }
            s.k = CHARS; s.used = 2 + nd; s.n = 1; s.ch[0] = v; return s;
        }
        if (v < 0xD800 || v >= 0xE000) { s.k = CHARS; s.used = 6; s.n = 1; s.ch[0] = v; return s; }
        if (v >= 0xDC00) return lit('\\');
        u64 w = 0;
        for (int i = 0; i < 6; i++) {
            if ((size_t)(6 + i) >= n) { s.k = INC; if (i >= 3) { int sh = 4 * (6 - i); u64 lo = w << sh, hi = lo | ((1ull << sh) - 1); if (hi < 0xDC00 || lo > 0xDFFF) s.k = HOPELESS; } return s; }
            u8 c = p[6 + i];
            if (i == 0) { if (c != '\\') return lit('\\'); continue; }
            if (i == 1) { if (c != 'u') return lit('\\'); continue; }
            int h = hex(c); if (h < 0) return lit('\\'); w = w << 4 | h;
        }
        if (w < 0xDC00 || w > 0xDFFF) return lit('\\');
        s.k = CHARS; s.used = 12; s.n = 1; s.ch[0] = 0x10000 + ((v - 0xD800) << 10) + (w - 0xDC00); return s;
    }
};

struct HzDec : Dec {
    Trie gb;
    HzDec(const Charset &g) { look = 2; for (auto &e : g.ents) if (e.d) gb.add(e.bytes, e.len, e.cp, 0); }
    Step step(u64 st, const u8 *p, size_t n) const override {
        Step s; s.st = st;
        if (p[0] == '~') {
            if (n < 2) { s.k = INC; return s; }
            if (st == 0) {
                if (p[1] == '~') { s.k = CHARS; s.used = 2; s.n = 1; s.ch[0] = '~'; return s; }
                if (p[1] == '{') { s.k = SHIFT; s.used = 2; s.st = 1; return s; }
                if (p[1] == '\n') { s.k = SHIFT; s.used = 2; return s; }
            } else if (p[1] == '}') { s.k = SHIFT; s.used = 2; s.st = 0; return s; }
            s.k = BAD; return s;
        }
        if (st == 0) { if (p[0] >= 0x80) { s.k = BAD; return s; } s.k = CHARS; s.used = 1; s.n = 1; s.ch[0] = p[0]; return s; }
        s = gb.get(p, n); s.st = st; return s;
    }
    std::vector<std::string> shifts() const override { return {"~{", "~}", "~\n", "~~"}; }
};

// -- ISO-2022 family
struct Iso2022Dec : Dec {
    enum { ASCII = 1, ROMAN, KANA, S2 };   // set ids; two-byte sets from S2 on; L1/L7 are one-byte high parts
    struct Desig { std::string esc; int slot; int set; };
    struct Cfg { std::vector<Desig> des; bool so = false, jpms = false, ss2 = false, ss3 = false, nlreset = false; int esclook = 3; } c;
    std::vector<std::unique_ptr<Trie>> sets;  // index by set id
    std::vector<int> width;
    // state: slot i in byte i (G0..G3), byte 4: SO active
    static u64 with(u64 st, int i, u64 v) { return (st & ~(0xffull << (8 * i))) | v << (8 * i); }
    static int at(u64 st, int i) { return (st >> (8 * i)) & 0xff; }
    int addset(const Charset *cs, int w, int hi) {  // hi: use entries with the high bit, stripped
        auto t = std::make_unique<Trie>();
        if (cs) for (auto &e : cs->ents) if (e.d && e.len == w) {
            if (w == 1) { if (hi ? e.bytes < 0x80 : e.bytes >= 0x80) continue; t->add(e.bytes & 0x7f, 1, e.cp, 0); }
            else t->add(e.bytes, w, e.cp, e.cp2);
        }
        t->maxlen = w; sets.push_back(std::move(t)); width.push_back(w); return sets.size() - 1;
    }
    bool base(u64 st) const override { return at(st, 0) == 0 && at(st, 4) == 0; }
    std::vector<std::string> shifts() const override {
        std::vector<std::string> v; for (auto &d : c.des) v.push_back(d.esc);
        if (c.so) { v.push_back("\x0e"); v.push_back("\x0f"); } return v;
    }
    Step step(u64 st, const u8 *p, size_t n) const override {
        Step s; s.st = st;
        if (p[0] == 0x1b) {
            bool prefix = false;
            for (auto &d : c.des) {
                size_t k = std::min(n, d.esc.size());
                if (memcmp(p, d.esc.data(), k) == 0) {
                    if (k == d.esc.size()) {
                        s.k = SHIFT; s.used = k; s.st = with(st, d.slot, d.set == ASCII ? 0 : d.set);
                        return s;
                    }
                    prefix = true;
                }
            }
            for (int g = 2; g <= 3; g++) if ((g == 2 ? c.ss2 : c.ss3) && at(st, g)) {
                if (n == 1) prefix = true;
                else if (p[1] == (g == 2 ? 'N' : 'O')) {
                    const Trie &t = *sets[at(st, g)]; int w = width[at(st, g)];
                    if (n == 2) { s.k = INC; return s; }
                    if (w == 1 && (p[2] & 0x7f) < 0x20 && p[2] < 0x80) { s.k = UNSPEC; return s; }
                    Step x = t.get(p + 2, n - 2);
                    if (x.k == CHARS) { x.used += 2; x.st = st; return x; }
                    if (x.k == INC) { s.k = INC; return s; }
                    s.k = n < 2 + (size_t)w ? HOPELESS : BAD; return s;
                }
            }
            // distinguish: could a longer escape still match?  (esclook bytes are looked at before deciding)
            if (prefix) { s.k = INC; return s; }
            s.k = n < (size_t)c.esclook ? HOPELESS : BAD;
            if (s.k == BAD && n < 4 && p[1] == '$' && c.esclook == 3 && n >= 3 && p[2] == '(') s.k = HOPELESS;
            return s;
        }
        if (c.jpms && (p[0] == 0x0e || p[0] == 0x0f)) {
            s.k = SHIFT; s.used = 1;
            if (p[0] == 0x0e && at(st, 0) == ROMAN) s.st = with(st, 0, KANA);
            if (p[0] == 0x0f && at(st, 0) == KANA) s.st = with(st, 0, ROMAN);
            return s;
        }
        if (c.so && !c.jpms && p[0] == 0x0e) { if (!at(st, 1)) { s.k = BAD; return s; } s.k = SHIFT; s.used = 1; s.st = with(st, 4, 1); return s; }
        if (c.so && !c.jpms && p[0] == 0x0f) { s.k = SHIFT; s.used = 1; s.st = with(st, 4, 0); return s; }
        int set = at(st, 4) ? at(st, 1) : (at(st, 0) ? at(st, 0) : (int)ASCII);
        s = sets[set]->get(p, n); s.st = st;
        if (s.k == CHARS && c.nlreset && s.n == 1 && width[set] == 1 && (s.ch[0] == 10 || s.ch[0] == 13)) s.st = st & 0xff000000ffull;
        return s;
    }
};

inline std::unique_ptr<Dec> make_iso2022(const std::string &nm) {
    auto d = std::make_unique<Iso2022Dec>(); Spec &S = spec();
    auto cs = [&](const char *n) { auto p = S.set(n); if (!p) { fprintf(stderr, "no set %s\n", n); exit(3); } return p; };
    d->addset(nullptr, 1, 0);
    d->addset(cs("USASCII"), 1, 0); d->addset(cs("JISX0201"), 1, 0); d->addset(cs("JISX0201"), 1, 1);
    auto &D = d->c.des; const int A = Iso2022Dec::ASCII, R = Iso2022Dec::ROMAN, Kn = Iso2022Dec::KANA;
    if (nm.rfind("ISO2022JP", 0) == 0) {
        bool ms = nm == "ISO2022JPMS", j3 = nm == "ISO2022JP3", j2 = nm == "ISO2022JP2", j1 = nm == "ISO2022JP1";
        D.push_back({"\x1b(B", 0, A}); D.push_back({"\x1b(J", 0, R});
        if (ms || j3 || j2) D.push_back({"\x1b(I", 0, Kn});
        int j208 = d->addset(cs(ms ? "@JISX0208-MS" : "JISX0208"), 2, 0);
        D.push_back({"\x1b$@", 0, j208}); D.push_back({"\x1b$B", 0, j208});
        if (ms || j1 || j2) D.push_back({"\x1b$(D", 0, d->addset(cs(ms ? "@JISX0212-MS" : "JISX0212"), 2, 0)});
        if (j2) {
            D.push_back({"\x1b$A", 0, d->addset(cs("GB231280"), 2, 0)}); D.push_back({"\x1b$(C", 0, d->addset(cs("KSC5601"), 2, 0)});
            D.push_back({"\x1b.A", 2, d->addset(cs("ISO88591"), 1, 1)}); D.push_back({"\x1b.F", 2, d->addset(cs("ISO88597"), 1, 1)});
            d->c.ss2 = true; d->c.nlreset = true;
        }
        if (j3) { int p1 = d->addset(cs("@JISX0213-1"), 2, 0); D.push_back({"\x1b$(O", 0, p1}); D.push_back({"\x1b$(Q", 0, p1}); D.push_back({"\x1b$(P", 0, d->addset(cs("@JISX0213-2"), 2, 0)}); }
        d->c.so = ms; d->c.jpms = ms; d->c.esclook = 3; d->look = 4;
    } else if (nm == "ISO2022KR") {
        D.push_back({"\x1b$)C", 1, d->addset(cs("KSC5601"), 2, 0)}); d->c.so = true; d->c.esclook = 4; d->look = 4;
    } else {
        bool ext = nm == "ISO2022CNEXT";
        D.push_back({"\x1b$)A", 1, d->addset(cs("GB231280"), 2, 0)}); D.push_back({"\x1b$)G", 1, d->addset(cs("@CNS11643-1"), 2, 0)});
        if (ext) D.push_back({"\x1b$)E", 1, d->addset(cs("ISOIR165"), 2, 0)});
        D.push_back({"\x1b$*H", 2, d->addset(cs("@CNS11643-2"), 2, 0)}); d->c.ss2 = true;
        if (ext) { for (int i = 3; i <= 7; i++) D.push_back({std::string("\x1b$+") + char('I' + i - 3), 3, d->addset(cs(("@CNS11643-" + std::to_string(i)).c_str()), 2, 0)}); d->c.ss3 = true; }
        d->c.so = true; d->c.nlreset = true; d->c.esclook = 4; d->look = 4;
    }
    return d;
}

// families
inline bool is_u16(const std::string &n) { return n.rfind("UTF16", 0) == 0 || n.rfind("UCS2", 0) == 0; }
inline bool is_u32(const std::string &n) { return n.rfind("UTF32", 0) == 0 || n.rfind("UCS4", 0) == 0; }
inline bool is_unicode(const std::string &n) { return n == "UTF8" || is_u16(n) || is_u32(n); }
inline bool is_stateful(const std::string &n) { return n.rfind("ISO2022", 0) == 0 || n == "HZ" || n == "UTF7"; }
inline bool is_escape(const std::string &n) { return n == "C99" || n == "JAVA"; }
inline bool is_table(const std::string &n) { return !is_unicode(n) && !is_stateful(n) && !is_escape(n); }
inline bool has_bom(const std::string &n) { return n == "UTF16" || n == "UTF32" || n == "UCS2" || n == "UCS4"; }
inline int unit_of(const std::string &n) { return is_u32(n) ? 4 : is_u16(n) ? 2 : 1; }

inline std::unique_ptr<Dec> make_dec(const std::string &n) {
    std::unique_ptr<Dec> d; const u16 one = 1; bool host_le = *(const u8 *)&one;
    auto le = [&](const char *fam) { std::string x = n.substr(strlen(fam)); return x == "LE" || (x == "INTERNAL" && host_le) || (x == "SWAPPED" && !host_le); };
    if (n == "UTF8") d = std::make_unique<Utf8Dec>();
    else if (n.rfind("UTF16", 0) == 0) d = std::make_unique<Utf16Dec>(le("UTF16"), n == "UTF16", true);
    else if (n.rfind("UCS2", 0) == 0) d = std::make_unique<Utf16Dec>(le("UCS2"), n == "UCS2", false);
    else if (n.rfind("UTF32", 0) == 0) d = std::make_unique<Utf32Dec>(le("UTF32"), n == "UTF32", false);
    else if (n.rfind("UCS4", 0) == 0) d = std::make_unique<Utf32Dec>(le("UCS4"), n == "UCS4", true);
    else if (n == "UTF7") d = std::make_unique<Utf7Dec>();
    else if (n == "C99" || n == "JAVA") d = std::make_unique<C99Dec>(n == "JAVA");
    else if (n == "HZ") d = std::make_unique<HzDec>(*spec().set("GB231280"));
    else if (n.rfind("ISO2022", 0) == 0) d = make_iso2022(n);
    else { auto cs = spec().set(n); if (!cs) { fprintf(stderr, "no model for %s\n", n.c_str()); exit(3); } d = std::make_unique<TableDec>(*cs); }
    d->name = n; return d;
}

// ---------------------------------------------------------------- encoders
// Exact bytes for encodings without shift states (empty optional = unencodable).
struct Enc {
    std::string name; const Charset *cs = nullptr; std::unordered_map<u32, u64> tab; bool gb = false;  // value: len<<32|bytes
    std::map<std::pair<u32, u32>, u64> pairs; std::set<u32> pairbase;
    static Enc make(const std::string &n) {
        Enc e; e.name = n; e.cs = spec().set(n);
        if (e.cs && is_table(n)) { e.gb = e.cs->gb_range; for (auto &x : e.cs->ents) { u64 v = (u64)x.len << 32 | x.bytes; if (x.e && !x.cp2) e.tab[x.cp] = v; if (x.cp2 && x.d) { e.pairs[{x.cp, x.cp2}] = v; e.pairbase.insert(x.cp); } } }
        return e;
    }
    static void put(std::string &o, u64 v, int len) { for (int i = len - 1; i >= 0; i--) o += (char)(v >> (8 * i)); }
    // first: nothing has been written since open/reset
    bool enc(u32 c, bool first, std::string &o) const {
        const u16 one = 1; bool hle = *(const u8 *)&one; bool sur = c >= 0xD800 && c < 0xE000;
        if (is_table(name)) {
            auto i = tab.find(c); if (i != tab.end()) { put(o, i->second & 0xffffffff, i->second >> 32); return true; }
            if (gb && c >= 0x10000 && c <= 0x10FFFF) { u32 l = c - 0x10000; u32 v = (0x90 + l / 12600) << 24 | (0x30 + l / 1260 % 10) << 16 | (0x81 + l / 10 % 126) << 8 | (0x30 + l % 10); put(o, v, 4); return true; }
            return false;
        }
        auto suffix = [&](size_t k) { std::string x = name.substr(k); return x == "LE" || (x == "INTERNAL" && hle) || (x == "SWAPPED" && !hle); };
        if (name == "UTF8") {
            if (sur || c > 0x10FFFF) return false;
            if (c < 0x80) o += (char)c; else if (c < 0x800) { o += (char)(0xC0 | c >> 6); o += (char)(0x80 | (c & 63)); }
            else if (c < 0x10000) { o += (char)(0xE0 | c >> 12); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); }
            else { o += (char)(0xF0 | c >> 18); o += (char)(0x80 | (c >> 12 & 63)); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); }
            return true;
        }
        auto p16 = [&](u32 w, bool l) { if (l) { o += (char)w; o += (char)(w >> 8); } else { o += (char)(w >> 8); o += (char)w; } };
        auto p32 = [&](u32 w, bool l) { for (int i = 0; i < 4; i++) o += (char)(w >> (l ? 8 * i : 24 - 8 * i)); };
        if (is_u16(name)) {
            bool utf = name[1] == 'T'; bool l = suffix(utf ? 5 : 4);
            if (sur || c > (utf ? 0x10FFFFu : 0xFFFFu) || (has_bom(name) && c == 0xFFFE)) return false;
            if (name == "UTF16" && first) p16(0xFEFF, false);
            if (c < 0x10000) p16(c, l); else { p16(0xD800 + ((c - 0x10000) >> 10), l); p16(0xDC00 + (c & 0x3ff), l); }
            return true;
        }
        if (is_u32(name)) {
            bool utf = name[1] == 'T'; bool l = suffix(utf ? 5 : 4);
            if (utf ? (sur || c > 0x10FFFF) : c > 0x7fffffff) return false;
            if (name == "UTF32" && first) p32(0xFEFF, false);
            p32(c, l); return true;
        }
        char b[32];
        if (name == "C99") { if (sur || c > 0x10FFFF) return false; if (c < 0xA0) o += (char)c; else { snprintf(b, 32, c < 0x10000 ? "\\u%04x" : "\\U%08x", c); o += b; } return true; }
        if (name == "JAVA") { if (sur || c > 0x10FFFF) return false; if (c < 0x80) o += (char)c; else if (c < 0x10000) { snprintf(b, 32, "\\u%04x", c); o += b; } else { snprintf(b, 32, "\\u%04x\\u%04x", 0xD800 + ((c - 0x10000) >> 10), 0xDC00 + (c & 0x3ff)); o += b; } return true; }
        fprintf(stderr, "Enc: %s\n", name.c_str()); exit(3);
    }
};

// Repertoire of the stateful encodings, with what each character may read back as
// (itself, or what the published one-way mapping turns it into).
inline void repertoire(const std::string &n, std::unordered_map<u32, Cps> &out) {
    Spec &S = spec();
    auto addset = [&](const char *s, int hi = -1) {
        const Charset *cs = S.set(s); if (!cs) { fprintf(stderr, "set %s\n", s); exit(3); }
        std::unordered_map<u32, u32> dec; for (auto &e : cs->ents) if (e.d && !e.cp2) dec[(u32)e.len << 30 ^ e.bytes] = e.cp;
        for (auto &e : cs->ents) if (e.e && !e.cp2) {
            if (hi >= 0 && (e.bytes >= 0x80) != hi) continue;
            auto i = dec.find((u32)e.len << 30 ^ e.bytes); auto &v = out[e.cp]; u32 r = i == dec.end() ? e.cp : i->second;
            if (std::find(v.begin(), v.end(), r) == v.end()) v.push_back(r);
        }
    };
    if (n == "UTF7") { for (u32 c = 0; c < 0x110000; c++) if (c < 0xD800 || c >= 0xE000) out[c] = {c}; return; }
    addset("USASCII");
    if (n == "HZ") { addset("GB231280"); return; }
    if (n == "ISO2022KR") { addset("KSC5601"); return; }
    if (n == "ISO2022CN" || n == "ISO2022CNEXT") { addset("GB231280"); addset("@CNS11643-1"); addset("@CNS11643-2"); if (n == "ISO2022CNEXT") { for (int i = 3; i <= 7; i++) addset(("@CNS11643-" + std::to_string(i)).c_str()); addset("ISOIR165"); } return; }
    if (n == "ISO2022JPMS") { addset("JISX0201", 1); addset("@JISX0208-MS"); addset("@JISX0212-MS"); return; }
    addset("JISX0201", 0); addset("JISX0208");
    if (n == "ISO2022JP1" || n == "ISO2022JP2") addset("JISX0212");
    if (n == "ISO2022JP2") { addset("GB231280"); addset("KSC5601"); addset("ISO88591", 1); addset("ISO88597", 1); addset("JISX0201", 1); }
    if (n == "ISO2022JP3") { addset("@JISX0213-1"); addset("@JISX0213-2"); addset("JISX0201", 1); }
}
}  // namespace vm
