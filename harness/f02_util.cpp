// F02: reordering and packing helpers.
#include "sym.h"
#include "dsp/util.hpp"
#include <cmath>
#include <vector>
typedef std::complex<double> C;
HARNESS(h_reverse) {
    int lg = sym_range("log2", 0, 6), n = 1 << lg; std::vector<double> v(n + 1); double x = sym_f64("x", -9, 9); int at = sym_range("at", 0, n - 1); for (int i = 0; i < n; i++) v[i] = 100 + i; v[at] = x; v[n] = 5;
    dsp::util::bit_reverse(n, v.begin());
    for (int i = 0; i < n; i++) { int r = 0; for (int b = 0; b < lg; b++) if (i >> b & 1) r |= 1 << (lg - 1 - b); sym_close(v[r], i == at ? x : 100 + i, 0, "every element moves to its bit-reversed position"); } sym_close(v[n], 5, 0, "nothing else moves");
    dsp::util::bit_reverse(n, v.begin()); for (int i = 0; i < n; i++) sym_close(v[i], i == at ? x : 100 + i, 0, "reversing twice restores the order"); sym_reach("reverse");
}
HARNESS(h_multiply) {
    int n = sym_range("n", 0, 4); std::vector<double> a(n), b(n), o(n + 1); for (int i = 0; i < n; i++) { a[i] = sym_f64("a", -9, 9); b[i] = sym_f64("b", -9, 9); } o[n] = 5; dsp::util::multiply_signals(n, a.begin(), b.begin(), o.begin()); for (int i = 0; i < n; i++) sym_close(o[i], a[i] * b[i], 1e-9, "pointwise product"); sym_close(o[n], 5, 0, "exactly n values");
    std::vector<C> c(n), d(n), e(n); for (int i = 0; i < n; i++) { double r = sym_f64("re", -9, 9), m = sym_f64("im", -9, 9); c[i] = C(r, m); r = sym_f64("re", -9, 9); m = sym_f64("im", -9, 9); d[i] = C(r, m); } dsp::util::multiply_signals(n, c.begin(), d.begin(), e.begin());
    for (int i = 0; i < n; i++) { sym_close(e[i].real(), c[i].real() * d[i].real() - c[i].imag() * d[i].imag(), 1e-9, "complex product"); sym_close(e[i].imag(), c[i].real() * d[i].imag() + c[i].imag() * d[i].real(), 1e-9, "complex product"); } sym_reach("multiply");
}
HARNESS(h_pack) {
    int n = sym_range("n", 0, 7); std::vector<double> a(n + 1); for (auto &x : a) x = sym_f64("a", -9, 9); std::vector<C> o(n + 1, C(5, 5)), p(n + 1, C(5, 5));
    dsp::util::real_complex_naive(a.begin(), n, o.begin()); for (int i = 0; i < n; i++) { sym_close(o[i].real(), a[i], 0, "real part is the sample"); sym_close(o[i].imag(), 0, 0, "imaginary part is zero"); } sym_close(o[n].real(), 5, 0, "exactly n values");
    dsp::util::real_eop_complex(a.begin(), n, p.begin()); for (int i = 0; i < n / 2; i++) { sym_close(p[i].real(), a[2 * i], 0, "even samples are real parts"); sym_close(p[i].imag(), a[2 * i + 1], 0, "odd samples are imaginary parts"); } sym_close(p[n / 2].real(), 5, 0, "exactly n/2 values"); sym_reach("pack");
}
HARNESS(h_sinc) { int k = sym_range("k", -40, 40); double x = k / 8.0; sym_close(dsp::util::sinc(x), k == 0 ? 1 : std::sin(x) / x, 1e-12, "sinc"); sym_reach("sinc"); }
HARNESS(h_big) { // large sizes
    int lg = sym_pick("log2", 2) ? 17 : 9, n = 1 << lg; std::vector<double> v(n); for (int i = 0; i < n; i++) v[i] = i; dsp::util::bit_reverse(n, v.begin()); bool ok = true; for (int i = 0; i < n; i++) { int r = 0; for (int b = 0; b < lg; b++) r |= (i >> b & 1) << (lg - 1 - b); ok &= v[i] == r; } sym_assert(ok, "every value is at its bit-reversed place"); std::vector<double> a(n, 2.0), b(n, 3.0), c(n + 1, 7.0); a[n - 2] = sym_f64("a", -9, 9); dsp::util::multiply_signals(n, a.begin(), b.begin(), c.begin()); for (int i = 0; i < n; i += 500) ok &= c[i] == 6.0; sym_assert(ok && c[n] == 7, "products"); sym_close(c[n - 2], 3 * a[n - 2], 1e-9, "products"); sym_reach("big");
}
HARNESS(h_mixed) { // sizes one after another
    for (int q = 0; q < 3; q++) { int lg = sym_range("log2", 0, 4), n = 1 << lg; std::vector<double> v(n), a(n), o(n); std::vector<C> p(n); for (int i = 0; i < n; i++) { v[i] = sym_f64("x", -9, 9); a[i] = v[i]; } dsp::util::bit_reverse(n, v.begin()); dsp::util::real_eop_complex(a.begin(), n, p.begin()); dsp::util::multiply_signals(n, a.begin(), a.begin(), o.begin()); for (int i = 0; i < n; i++) { int r = 0; for (int b = 0; b < lg; b++) if (i >> b & 1) r |= 1 << (lg - 1 - b); sym_close(v[r], a[i], 0, "every element moves to its bit-reversed position"); sym_close(o[i], a[i] * a[i], 1e-9, "pointwise product"); if (i < n / 2) sym_close(p[i].imag(), a[2 * i + 1], 0, "odd samples are imaginary parts"); } } sym_reach("mixed");
}
HARNESS(h_sizes) { // pairs and products of any length
    int n = sym_range("size", 0, 140); std::vector<double> a(n), b(n), o(n + 1, 7.0); std::vector<C> p(n / 2 + 1, C(7, 7)); for (int i = 0; i < n; i++) { a[i] = 3 * i + 1; b[i] = 5 - i; } double v = sym_f64("v", -9, 9); if (n) a[n - 1] = v; dsp::util::real_eop_complex(a.begin(), n, p.begin()); for (int i = 0; i < n / 2; i++) { sym_close(p[i].real(), a[2 * i], 0, "even samples are real parts"); sym_close(p[i].imag(), a[2 * i + 1], 0, "odd samples are imaginary parts"); } sym_assert(p[n / 2] == C(7, 7), "nothing is written past the pairs"); dsp::util::multiply_signals(n, a.begin(), b.begin(), o.begin()); for (int i = 0; i < n; i++) sym_close(o[i], a[i] * b[i], 1e-9, "pointwise product"); sym_assert(o[n] == 7, "nothing is written past the products"); sym_reach("sizes");
}
