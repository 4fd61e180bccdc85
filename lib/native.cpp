// Native twin of the executor's sym_* interface: values come from a file, assertions are checked for real.
#include "sym.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <random>
#include <string>
#include <dlfcn.h>
#include <unistd.h>
static std::map<std::string, std::string> vals;
static std::map<std::string, int> cnt;
static int failures = 0;
static bool quiet = false, rnd = false, logOn = false;
static std::mt19937_64 rng;
static FILE *dump = nullptr;
static std::string key(const char *n) { return std::string(n) + "#" + std::to_string(cnt[n]++); }
static double dval(const std::string &v) { if (v[0] == 'b') { uint64_t u = strtoull(v.c_str() + 2, nullptr, 16); double d; memcpy(&d, &u, 8); return d; } return strtod(v.c_str() + 2, nullptr); }
static void lg(const std::string &s) { if (logOn) { printf("LOG %s\n", s.c_str()); fflush(stdout); } }
static std::string ds(double d) { char b[64]; if (std::isnan(d)) return "nan"; snprintf(b, 64, "%a", d == 0 ? 0.0 : d); return b; }
static void dmp(const std::string &k, const std::string &v) { if (dump) { fprintf(dump, "%s %s\n", k.c_str(), v.c_str()); fflush(dump); } }
extern "C" {
long long sym_i64(const char *n, long long lo, long long hi) {
    std::string k = key(n); auto it = vals.find(k); long long v;
    if (it != vals.end()) v = strtoll(it->second.c_str() + 2, nullptr, 10);
    else if (rnd) { switch (rng() % 6) { case 0: v = lo; break; case 1: v = hi; break; default: v = (hi - lo == -1) ? (long long)rng() : lo + (long long)(rng() % ((unsigned long long)(hi - lo) + 1)); } }
    else v = lo;
    dmp(k, "i:" + std::to_string(v)); return v;
}
static double dbl(const char *n, double lo, double hi, bool isi) {
    std::string k = key(n); auto it = vals.find(k); double v;
    if (it != vals.end()) v = dval(it->second);
    else if (rnd) { v = lo + (hi - lo) * (double)(rng() >> 11) * 0x1p-53; if (rng() % 8 == 0) v = rng() % 2 ? lo : hi; if (isi) v = std::floor(v); }
    else v = lo;
    char b[40]; snprintf(b, 40, "d:%a", v); dmp(k, b); return v;
}
double sym_f64(const char *n, double lo, double hi) { return dbl(n, lo, hi, false); }
double sym_f64i(const char *n, long long lo, long long hi) { return dbl(n, (double)lo, (double)hi, true); }
double sym_fp(const char *n, double lo, double hi) { return dbl(n, lo, hi, false); }
long long sym_conc(long long v) { return v; }
void sym_assume(bool c) { if (!c) { if (!quiet) printf("ASSUME-FALSE\n"); fflush(stdout); _exit(9); } }
static void fail(const char *l) { failures++; printf("FAIL %s\n", l); fflush(stdout); }
void sym_assert(bool c, const char *l) { lg(std::string(l) + "=" + (c ? "1" : "0")); if (!c) fail(l); }
void sym_close(double a, double b, double t, const char *l) { lg(std::string(l) + "=" + ds(a) + "," + ds(b)); if (!(std::fabs(a - b) <= t) && !(a == b)) { if (!failures) printf("  %s: got %.17g, expected %.17g\n", l, a, b); fail(l); } }
void sym_bits(double a, double b, const char *l) { lg(std::string(l) + "=" + (a == b || memcmp(&a, &b, 8) == 0 ? "1" : "0")); if (memcmp(&a, &b, 8) && a != b) { if (!failures) printf("  %s: got %.17g, expected %.17g\n", l, a, b); fail(l); } }
void sym_reach(const char *l) { lg(std::string("reach ") + l); }
void sym_mode(int) {}
void sym_budget(long long s) { if (s) alarm(20); else alarm(0); }
size_t __sanitizer_get_current_allocated_bytes() __attribute__((weak));
long long sym_live() { return __sanitizer_get_current_allocated_bytes ? (long long)__sanitizer_get_current_allocated_bytes() : 0; }
int sym_native() { return 1; }
void sym_fail(const char *l) { fail(l); fflush(stdout); _exit(1); }
void sym_stop() { fflush(stdout); _exit(failures ? 1 : 0); }
void sym_out_d(const char *n, double v) { lg(std::string(n) + "=" + ds(v)); }
void sym_out_i(const char *n, long long v) { lg(std::string(n) + "=" + std::to_string(v)); }
}
// usage: replay ENTRY [inputs-file] [--log] [--random=SEED --dump=FILE]
int main(int argc, char **argv) {
    setvbuf(stdout, nullptr, _IOLBF, 0);
    for (int i = 2; i < argc; i++) {
        std::string a = argv[i];
        if (a == "--log") logOn = true;
        else if (a.rfind("--random=", 0) == 0) { rnd = true; rng.seed(strtoull(a.c_str() + 9, nullptr, 10)); }
        else if (a.rfind("--dump=", 0) == 0) dump = fopen(a.c_str() + 7, "w");
        else { FILE *f = fopen(a.c_str(), "r"); if (!f) return 3; char n[300]; static char v[200000]; while (fscanf(f, "%299s %199999s", n, v) == 2) { vals[n] = v; if (!strcmp(n, "sched")) if (auto p = (void (*)(const char *))dlsym(RTLD_DEFAULT, "_Z10sched_planPKc")) p(v); } fclose(f); }
    }
    void (*h)() = (void (*)())dlsym(RTLD_DEFAULT, argv[1]);
    if (!h) { fprintf(stderr, "no entry %s\n", argv[1]); return 3; }
    h();
    fflush(stdout);
    return failures ? 1 : 0;
}
