#include "words.hpp"
using namespace ve;
int main(int argc, char **argv) {
    return ve_main(argc, argv, [] {
        std::vector<std::string> e; for (auto &n : encodings()) if (is_table(n)) e.push_back(n);
        // larger charsets first
        std::stable_sort(e.begin(), e.end(), [](auto &a, auto &b) { return spec().set(a)->ents.size() > spec().set(b)->ents.size(); });
        pool(e.size() * 2, [&](size_t i) {
            const std::string &n = e[i / 2];
            if (i % 2 == 0) { auto d = make_dec(n); DecCfg c; c.pairs1 = true; c.deep = opt.thorough; DecX x(*d, c); x.explore(); x.longs(dec_tokens(*d, true)); x.longs(dec_tokens(*d)); near_dec(x); partners_dec(n, false); }
            else { EncCfg c; EncX x(n, c); x.explore(); x.longs(enc_chars(n)); x.longs(enc_chars(n, 2, false)); near_enc(x); partners_enc(n); }
        });
    });
}
