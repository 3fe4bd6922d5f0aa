#include "words.hpp"
using namespace ve;
int main(int argc, char **argv) {
    return ve_main(argc, argv, [] {
        std::vector<std::string> e; for (auto &n : encodings()) if (is_stateful(n)) e.push_back(n);
        pool(e.size() * 2, [&](size_t j) { size_t i = j / 2;
            if (j % 2) {   // shift sequences over more than 2^31 bytes, and then a letter
                auto d = make_dec(e[i]); auto v = d->shifts(); if (e[i] == "HZ") v.push_back("~\n"); for (auto a : std::vector<std::string>(v)) for (auto b : std::vector<std::string>(v)) v.push_back(a + b);
                for (auto &t : v) { if (t.empty() || HugeText::B % t.size() || t.find('\r') != std::string::npos || (t.find('\n') != std::string::npos && e[i] != "HZ")) continue; Cps o; std::string w = t + t + t + "A"; Run r = run(*d, DState{}, (const u8 *)w.data(), w.size(), o); if (r.end != DONE || o != Cps{'A'}) continue; huge_stream(e[i], "UTF-8", t, "A", opt.thorough ? 1ull << 32 : 1ull << 31, "A"); break; }
                return; }
            auto d = make_dec(e[i]); DecCfg c; c.deep = opt.thorough; DecX x(*d, c); x.explore(); x.longs(dec_tokens(*d, true)); x.longs(dec_tokens(*d)); partners_dec(e[i], false); });
    });
}
