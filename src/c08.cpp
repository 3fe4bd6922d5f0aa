#include "words.hpp"
using namespace ve;
int main(int argc, char **argv) {
    return ve_main(argc, argv, [] {
        std::vector<std::string> e = encodings();
        auto w = [](const std::string &n) { auto c = spec().set(n); return is_stateful(n) ? 1000000 : is_unicode(n) || is_escape(n) ? 500000 : c ? (int)c->ents.size() : 0; };
        std::stable_sort(e.begin(), e.end(), [&](auto &a, auto &b) { return w(a) > w(b); });
        pool(e.size(), [&](size_t i) { auto d = make_dec(e[i]); DecCfg c; c.precise = true; c.pairs1 = true; c.deep = opt.thorough; DecX x(*d, c); x.explore(); x.longs(dec_tokens(*d, true)); x.longs(dec_tokens(*d)); partners_dec(e[i], true); });
    });
}
