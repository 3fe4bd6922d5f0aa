// Known-good and known-bad examples on which the scheduler proves itself in every run.
#include <pthread.h>
#include <string.h>
static int cache_key = -1, cache_val;
int toy_racy(int k) { if (cache_key != k) { cache_key = k; cache_val = 3 * k + 1; } return cache_val; }
static int scratch[4];
int toy_scratch(int k) { for (int i = 0; i < 4; i++) scratch[i] = k + i; int s = 0; for (int i = 0; i < 4; i++) s += scratch[i]; return s; }
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER; static int lkey = -1, lval;
int toy_locked(int k) { pthread_mutex_lock(&mu); if (lkey != k) { lkey = k; lval = 3 * k + 1; } int r = lval; pthread_mutex_unlock(&mu); return r; }
static __thread int tkey = -1, tval;
int toy_tls(int k) { if (tkey != k) { tkey = k; tval = 3 * k + 1; } return tval; }
static int hits; int toy_counter(int k) { hits++; return 3 * k + 1; }
