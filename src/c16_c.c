#include <cppp/reiconv.h>
struct KV { const char *n; int v; };
const struct KV consts_c[] = {
#include "consts_h.inc"
};
const int nconsts_c = sizeof consts_c / sizeof *consts_c;
