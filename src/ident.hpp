// Decides whether an opened conversion is the one documented for a given encoding: its behaviour on a
// fixed set of probes (the tokens of all encodings) must be that of the specification.
#pragma once
#include "words.hpp"

namespace ve {
struct LibScope { LibScope() { g_lib_flag = true; } ~LibScope() { g_lib_flag = false; } };   // marks time spent in the library for the crash monitor
struct Probes {
    std::vector<std::string> dec; std::vector<u32> enc; std::map<std::string, std::unique_ptr<Dec>> decs; std::map<std::string, std::unique_ptr<EncModel>> encs;
    void build() {
        std::set<std::string> s; for (int b = 0; b < 256; b++) s.insert(std::string(1, (char)b)); std::set<u32> c;
        for (auto &n : spec().names.order) { auto &d = decs[n] = make_dec(n); for (auto &t : dec_tokens(*d)) { s.insert(t); s.insert(t + "A"); } if (is_stateful(n)) for (auto &x : d->shifts()) for (const char *y : {"!!", "A", "0!", "~}", "1"}) s.insert(x + y); for (u32 x : enc_chars(n)) c.insert(x); if (!is_stateful(n)) encs[n] = std::make_unique<EncModel>(n); }
        for (auto &z : {"CP943", "IBM943"}) (void)z;
        dec.assign(s.begin(), s.end()); enc.assign(c.begin(), c.end());
        // characters and bytes on which two encodings with otherwise equal answers differ
        refine();
    }
    std::string sig(const std::string &n) { std::string r; for (auto &x : dec) { Cps o; Run m = run(*decs[n], DState{}, (const u8 *)x.data(), x.size(), o); flush(m.s, o); r += cps(o) + (m.end == DONE ? ";" : "!"); } for (u32 c : enc) { std::string o; if (encs.count(n)) encs[n]->e.enc(c, true, o); r += hex(o) + ","; } return r; }
    void refine() {
        std::map<std::string, std::vector<std::string>> by; for (auto &n : spec().names.order) if (is_table(n)) by[sig(n)].push_back(n);
        for (auto &kv : by) for (size_t i = 1; i < kv.second.size(); i++) {
            const Charset *a = spec().set(kv.second[0]), *b = spec().set(kv.second[i]); auto key = [](const Entry &e) { return std::make_tuple(e.bytes, e.len, e.d, e.e, e.cp, e.cp2); }; std::set<std::tuple<u32, u8, bool, bool, u32, u32>> sa, sb; for (auto &e : a->ents) sa.insert(key(e)); for (auto &e : b->ents) sb.insert(key(e)); int k = 0;
            for (auto *p : {&sa, &sb}) for (auto &x : *p) if (!(p == &sa ? sb : sa).count(x) && k < 4) { k++; std::string s; for (int j = std::get<1>(x) - 1; j >= 0; j--) s += (char)(std::get<0>(x) >> (8 * j)); dec.push_back(s); enc.push_back(std::get<4>(x)); }
        }
    }
    // "" if a decoder (to UCS-4LE) behaves like encoding n
    std::string decodes(Desc &d, const Snap &s0, const std::string &n) {
        const Dec &m = *decs[n];
        for (auto &x : dec) { d.load(s0); Cps want, got; Run r = run(m, DState{}, (const u8 *)x.data(), x.size(), want); if (r.end == UNSPEC) continue; flush(r.s, want); Res a = d.conv(x, 512); cps_of(a, got); Res f = d.flush(64); cps_of(f, got); c_evals++; if (got != want || a.ok != (r.end == DONE)) return "input " + hex(x) + " reads as " + cps(got) + (a.ok ? "" : " and an error") + ", expected " + cps(want); }
        return "";
    }
    std::string encodes(Desc &d, const Snap &s0, const std::string &n) {
        if (!encs.count(n)) {   // stateful: what is written must read back
            static std::map<std::string, std::unordered_map<u32, Cps>> reps; auto &rep = reps[n]; if (rep.empty()) repertoire(n, rep);
            for (u32 c : enc) { if (c == 0x1b || c == 14 || c == 15 || (c >= 0x80 && c < 0xa0)) continue; d.load(s0); Res a = d.conv(u32s({c}), 512); std::string o = str(a); Res f = d.flush(64); o += str(f); c_evals++; auto i = rep.find(c); if (i == rep.end()) { if (!is_tag(c) && !rep.count(0xFFFD) && a.ok) return "U+" + fmt("%04X", c) + " accepted"; continue; } Cps t; Run r = run(*decs[n], DState{}, (const u8 *)o.data(), o.size(), t); if (!a.ok || r.end != DONE || t.size() != 1 || std::find(i->second.begin(), i->second.end(), t[0]) == i->second.end()) return "U+" + fmt("%04X", c) + " is written as " + hex(o); }
            return "";
        }
        EncModel &m = *encs[n];
        for (u32 c : enc) { if (n == "C99" && c > 0x10ffff) continue; d.load(s0); Res a = d.conv(u32s({c}), 512); std::string o = str(a); Res f = d.flush(64); o += str(f); c_evals++; std::string want; EState es; ERun er = m.run(es, &c, 1, false, want); m.flush(er.s, want); if (o != want || a.ok == er.ilseq) return "U+" + fmt("%04X", c) + " is written as " + hex(o) + ", expected " + hex(want); }
        return "";
    }
};
inline std::string lower(std::string s) { for (auto &c : s) if (c >= 'A' && c <= 'Z') c += 32; return s; }
}  // namespace ve
