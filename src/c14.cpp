// C14: byte order marks.  All sequences of operations (calls, resets, flushes, short buffers) up to a
// depth, on the decoders and encoders of the 16- and 32-bit forms, against the documented behaviour.
#include "words.hpp"
using namespace ve;
struct Op { int kind; std::string in; };   // 0 convert, 1 reset, 2 flush, 3 convert with a short buffer then the rest
static std::string opstr(const std::vector<Op> &v) { std::string s; for (auto &o : v) s += o.kind == 1 ? "reset " : o.kind == 2 ? "flush " : (o.kind == 3 ? "short:" : "") + hex(o.in) + " "; return s; }

static std::string dec_go(Desc &d, const Dec &m, const std::vector<Op> &ops) {
    DState s; Cps want, got;
    for (auto &o : ops) {
        if (o.kind == 1) { d.reset(); if (!has_bom(m.name)) s = DState{}; continue; }
        if (o.kind == 2) { Res r = d.flush(64); cps_of(r, got); if (!r.ok || r.outn) return "a flush delivers something"; if (!has_bom(m.name)) s = DState{}; continue; }
        size_t pos = 0; Run mr = run(m, s, (const u8 *)o.in.data(), o.in.size(), want); if (mr.end == UNSPEC) return ""; s = mr.s;
        bool err;
        for (int k = 0;; k++) { Res r = d.conv((const u8 *)o.in.data() + pos, o.in.size() - pos, o.kind == 3 && k < 3 ? k + 2 : 512); cps_of(r, got); pos += r.used; err = !r.ok; if (r.err != E2BIG) break; if (k > 8) return "E2BIG without end"; }
        if (got != want) return "reads " + cps(got) + ", expected " + cps(want);
        if (err != (mr.end != DONE)) return err ? "valid input rejected" : "malformed input accepted";
    }
    return "";
}
static std::string enc_go(Desc &d, const EncModel &m, const std::vector<Op> &ops) {
    EState s; std::string want, got;
    for (auto &o : ops) {
        if (o.kind == 1) { d.reset(); s = EState{}; continue; }
        if (o.kind == 2) { Res r = d.flush(64); got += str(r); if (!r.ok) return "flush failed"; m.flush(s, want); continue; }
        Cps t; for (size_t i = 0; i + 4 <= o.in.size(); i += 4) { u32 c; memcpy(&c, o.in.data() + i, 4); t.push_back(c); }
        ERun er = m.run(s, t.data(), t.size(), false, want); s = er.s; size_t pos = 0;
        for (int k = 0;; k++) { Res r = d.conv((const u8 *)o.in.data() + pos, o.in.size() - pos, o.kind == 3 && k < 8 ? k : 512); got += str(r); pos += r.used; if (r.err != E2BIG) break; if (k > 9) return "E2BIG without end"; }
        if (got != want) return "writes " + hex(got) + ", expected " + hex(want);
    }
    if (got != want) return "writes " + hex(got) + ", expected " + hex(want);
    return "";
}
int main(int argc, char **argv) {
    return ve_main(argc, argv, [] {
        std::vector<std::string> e; for (auto &n : encodings()) if (is_u16(n) || is_u32(n) || n == "UTF8" || n == "UTF7") e.push_back(n);
        pool(e.size() * 4 + 4, [&](size_t i) {
            if (i < 4) { const char *nm[] = {"UTF16", "UTF32", "UCS2", "UCS4"}; bool w = i % 2; if (selected(nm[i])) huge_stream(nm[i], "UTF-8", w ? std::string("\0\0\xfe\xff", 4) : "\xfe\xff", w ? std::string("\0\0\0A", 4) : std::string("\0A", 2), 1ull << 32, "A"); return; }   // more than 2^32 bytes of marks
            i -= 4; const std::string &n = e[i / 4]; auto d = make_dec(n);
            if (i % 4 == 3) {   // marks inside texts, between the Unicode forms and into others
                for (auto &t : {"UTF8", "UTF16", "UTF16LE", "UTF16BE", "UTF32", "UTF32LE", "UTF32BE", "UCS2", "UCS2LE", "UCS2BE", "UCS4", "UCS4LE", "UCS4BE", "UCS2INTERNAL", "UCS2SWAPPED", "UCS4INTERNAL", "UCS4SWAPPED", "GB18030:2005", "C99"}) { if (enough() || late()) break; PairX x(n, spec().names.of.at(canon(t)), true); x.texts(dec_tokens(*d), opt.thorough ? 20000 : 2500, 5000); if (n != "UTF7") in_runs(n, opt.thorough ? 5 : 211, [&](const std::string &w) { x.check(w); }); c_states++; }
            } else if (i % 4 == 0) {
                std::vector<Op> al; auto add = [&](const std::string &s) { al.push_back({0, s}); };
                if (n == "UTF8" || n == "UTF7") { for (auto &t : dec_tokens(*d)) add(t); }
                else { Gen g(*d, false); bool u32f = is_u32(n);
                    add(g.units(0, {0x41})); add(g.units(0, {0xFEFF})); add(u32f ? g.units(0, {0xFFFE0000u}) : g.units(0, {0xFFFE})); add(u32f ? g.units(0, {0x4100}) : g.units(0, {0x4100}));
                    add(g.units(0, {0x41, 0xFEFF, 0x42})); add(g.units(0, {u32f ? 0xFFFE0000u : 0xFFFEu, 0x4100})); if (u32f) add(g.units(0, {0x41000000u})); else add(g.units(0, {0xD83D, 0xDE00}));
                    add(u32f ? g.units(0, {0x110000}) : g.units(0, {0xDC00})); add(std::string(1, '\xfe')); add(u32f ? g.units(0, {0xFFFE}) : g.units(0, {0xFFFF}));
                    if (u32f) { add(g.units(0, {0xFEFF0000u})); add(g.units(0, {0xFFFE})); } }
                al.push_back({0, ""}); al.push_back({1, ""}); al.push_back({2, ""}); if (al.size() > 6) { al.push_back({3, al[4].in}); al.push_back({3, al[5].in}); }
                Desc ds(n, UCS4); if (!ds.isopen) return; Snap s0 = ds.save(); size_t dep = opt.thorough ? 6 : 5; if (n == "UTF8" || n == "UTF7") dep = 3;
                words(al, dep, [&](const std::vector<Op> &w) { if (enough()) return; ds.load(s0); c_trans++; std::string bad = dec_go(ds, *d, w); if (!bad.empty() && in_child([&] { Desc x(n, UCS4); return !dec_go(x, *d, w).empty(); })) violation("bom:" + n, fmt("decoding %s, operations [%s]: %s", n.c_str(), opstr(w).c_str(), bad.c_str())); c_nontriv++; });
                c_states++; sample(fmt("decode %s: all sequences of up to %zu operations out of %zu", n.c_str(), dep, al.size()));
            } else if (i % 4 == 1 && n != "UTF7") {
                EncModel m(n); std::vector<Op> al; for (auto t : std::vector<Cps>{{0x41}, {0x1F600}, {0xFEFF}, {0xD800}, {0x41, 0x20AC}, {0xE0041}, {0xFFFE}, {0x110000}, {}}) al.push_back({0, u32s(t)}); al.push_back({1, ""}); al.push_back({2, ""}); al.push_back({3, u32s({0x41, 0x42})}); al.push_back({3, u32s({0x1F600})}); al.push_back({0, std::string("\x41", 1)});
                Desc ds(UCS4, n); if (!ds.isopen) return; Snap s0 = ds.save(); size_t dep = opt.thorough ? 6 : 5;
                words(al, dep, [&](const std::vector<Op> &w) { if (enough()) return; ds.load(s0); c_trans++; std::string bad = enc_go(ds, m, w); if (!bad.empty() && in_child([&] { Desc x(UCS4, n); return !enc_go(x, m, w).empty(); })) violation("bom:" + n, fmt("encoding %s, operations [%s]: %s", n.c_str(), opstr(w).c_str(), bad.c_str())); c_nontriv++; });
                c_states++; sample(fmt("encode %s: all sequences of up to %zu operations out of %zu", n.c_str(), dep, al.size()));
            } else if (has_bom(n)) {   // every unit in both byte orders
                DecCfg c; c.cap = 8; DecX x(*d, c); x.explore();
            }
        });
    });
}
