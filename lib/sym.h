// Interface between harnesses and the symbolic executor (engine/) or the native replay (lib/native.cpp).
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
long long sym_i64(const char *name, long long lo, long long hi);       // any integer in [lo,hi]
double sym_f64(const char *name, double lo, double hi);                // any real in [lo,hi] (exact-real model + rounding bound)
double sym_f64i(const char *name, long long lo, long long hi);         // any integer-valued double in [lo,hi]
double sym_fp(const char *name, double lo, double hi);                 // any IEEE double in [lo,hi]
long long sym_conc(long long v);                                       // take every feasible value on its own path
void sym_assume(bool c);
void sym_assert(bool c, const char *label);
void sym_close(double a, double b, double tol, const char *label);     // |a-b| <= tol, rounding included
void sym_bits(double a, double b, const char *label);                  // same value
void sym_reach(const char *label);                                     // reachability witness
void sym_mode(int m);       // int -> double: 0 enumerate, 1 IEEE, 2 exact real
void sym_budget(long long steps); // path must finish within this many IR steps (0: off)
long long sym_live();       // live heap blocks (executor only; 0 natively)
int sym_native();
void sym_fail(const char *label);
void sym_stop();            // end the path here
void sym_out_d(const char *name, double v);
void sym_out_i(const char *name, long long v);
}
static inline int sym_pick(const char *name, int n) { return (int)sym_conc(sym_i64(name, 0, n - 1)); }
static inline int sym_range(const char *name, int lo, int hi) { return (int)sym_conc(sym_i64(name, lo, hi)); }
#define HARNESS(n) extern "C" void n()
