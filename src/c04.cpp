#include "sencx.hpp"
using namespace ve;
int main(int argc, char **argv) {
    return ve_main(argc, argv, [] {
        std::vector<std::string> e; for (auto &n : encodings()) if (is_stateful(n)) e.push_back(n);
        pool(e.size() * 2, [&](size_t j) { size_t i = j / 2; if (j % 2) { TwinX t(e[i]); return; } SEncCfg c; c.fullall = opt.thorough; SEncX x(e[i], c); x.explore(); x.longs(enc_chars(e[i])); x.longs(enc_chars(e[i], 1, false)); });
    });
}
