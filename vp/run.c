/* Runs one harness entry of the compiled code natively with inputs from a file. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <math.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static uint64_t *in;
static size_t n_in, pos;
/* search mode: inputs are made up and recorded in memory shared with the parent */
static bool search;
struct rec { size_t n; bool panic_ok; uint64_t v[4096]; };
static struct rec *rec;
static uint64_t rng;
static uint64_t rnd(void) { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng * 2685821657736338717ull; }
static uint64_t keep(uint64_t x) { if (rec->n >= 4096) _Exit(4); return rec->v[rec->n++] = x; }
static uint64_t next(void) {
    if (pos >= n_in) { printf("INPUTS-EXHAUSTED\n"); fflush(stdout); _Exit(5); }
    return in[pos++];
}
uint64_t vp_u64(void) { if (search) return keep(rnd() & 1 ? rnd() >> (rnd() % 64) : rnd() % 8); return next(); }
uint64_t vp_range(uint64_t lo, uint64_t hi) {
    if (search) {
        uint64_t n = hi - lo, r = rnd() % 8;
        return keep(r == 0 ? lo : r == 1 ? hi : r < 5 ? lo + (n < 8 ? rnd() % (n + 1) : rnd() % 8) : n == UINT64_MAX ? rnd() : lo + rnd() % (n + 1));
    }
    uint64_t x = next();
    if (x < lo || x > hi) { printf("ASSUME range\n"); fflush(stdout); _Exit(4); }
    return x;
}
bool vp_bool(void) { if (search) return keep(rnd() >> 9 & 1); return next() != 0; }
double vp_f64(double lo, double hi) {
    uint64_t x; double d;
    if (search) {
        uint64_t r = rnd() % 8;
        d = r < 4 ? lo + (hi - lo) * (rnd() % 25) / 24.0 : r == 4 ? (double)(rnd() % 7) - 3.0 : r == 5 ? lo + (hi - lo) * pow(0.1, rnd() % 12) : lo + (hi - lo) * (rnd() >> 11) / 9007199254740992.0;
        if (d < lo) d = lo;
        if (d > hi) d = hi;
        memcpy(&x, &d, 8);
        keep(x);
        return d;
    }
    x = next(); memcpy(&d, &x, 8);
    if (d < lo) d = lo;
    if (d > hi) d = hi;
    return d;
}
uint64_t vp_pick(uint64_t n) {
    if (search) return keep(rnd() % n);
    uint64_t x = next();
    if (x >= n) { printf("ASSUME pick\n"); fflush(stdout); _Exit(4); }
    return x;
}
uint64_t vp_conc(uint64_t x) { return x; }
void vp_assume(bool b) { if (!b) { printf("ASSUME\n"); fflush(stdout); _Exit(4); } }
void vp_assert(bool b, const char *m, size_t l) {
    if (!b) { printf("ASSERT %.*s\n", (int)l, m); fflush(stdout); _Exit(3); }
}
void vp_cover(bool b, const char *m, size_t l) { if (b) printf("COVER %.*s\n", (int)l, m); }
void vp_out(uint64_t x) { printf("OUT %llx\n", (unsigned long long)x); }
static bool panic_ok;
void vp_panic_ok(bool b) { panic_ok = b; if (search) { rec->panic_ok = b; return; } printf("PANIC-OK %d\n", b); fflush(stdout); }
static int run_search(void (*e)(void), long n, long seconds) {
    rec = mmap(0, sizeof *rec, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    search = true;
    alarm(seconds);
    for (long i = 1; i <= n; i++) {
        rec->n = 0;
        rec->panic_ok = false;
        rng = 0x9E3779B97F4A7C15ull * i;
        pid_t p = fork();
        if (!p) {
            int z = open("/dev/null", O_WRONLY);
            dup2(z, 1);
            dup2(z, 2);
            alarm(10);
            e();
            _Exit(0);
        }
        int st;
        waitpid(p, &st, 0);
        bool bad = (WIFEXITED(st) && WEXITSTATUS(st) == 3) || (WIFSIGNALED(st) && WTERMSIG(st) != 14 && WTERMSIG(st) != 9 && !rec->panic_ok);
        if (bad) {
            for (size_t k = 0; k < rec->n; k++) printf("%llx ", (unsigned long long)rec->v[k]);
            printf("\n");
            return 1;
        }
    }
    return 0;
}
int main(int argc, char **argv) {
    if (argc > 4 && !strcmp(argv[3], "--search")) {
        void *h = dlopen(argv[1], RTLD_NOW | RTLD_GLOBAL);
        void (*e)(void) = h ? (void (*)(void))dlsym(h, argv[2]) : 0;
        return e ? run_search(e, atol(argv[4]), 30) : 2;
    }
    FILE *f = fopen(argv[3], "r");
    unsigned long long x;
    in = malloc(sizeof(uint64_t) * 100000);
    while (f && n_in < 100000 && fscanf(f, "%llx", &x) == 1) in[n_in++] = x;
    void *h = dlopen(argv[1], RTLD_NOW | RTLD_GLOBAL);
    if (!h) { fprintf(stderr, "%s\n", dlerror()); return 2; }
    void (*e)(void) = (void (*)(void))dlsym(h, argv[2]);
    if (!e) { fprintf(stderr, "no entry %s\n", argv[2]); return 2; }
    e();
    printf("DONE\n");
    fflush(stdout);
    _Exit(0);
}
