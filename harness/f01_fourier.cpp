// F01: every transform equals its defining sum, and the inverses invert.
#include "sym.h"
#include "dsp/ft.hpp"
#include "dsp/util.hpp"
#include <cmath>
#include <vector>
typedef std::complex<double> C; typedef std::vector<C> VC; typedef std::vector<double> VD;
static const double PI = std::acos(-1.0), T = 1e-9;
static void same(C a, C b, const char *l) { sym_close(a.real(), b.real(), T, l); sym_close(a.imag(), b.imag(), T, l); }
static VC cin(int n) { VC v(n); for (auto &z : v) { double r = sym_f64("re", -1, 1), i = sym_f64("im", -1, 1); z = C(r, i); } return v; }
static VD rin(int n) { VD v(n); for (auto &x : v) x = sym_f64("x", -1, 1); return v; }
static C def(const VC &x, int k, int sign) { int n = (int)x.size(); double re = 0, im = 0; for (int i = 0; i < n; i++) { double a = 2 * PI * ((i * k) % n) / n, c = std::cos(a), s = sign * std::sin(a); re += x[i].real() * c - x[i].imag() * s; im += x[i].real() * s + x[i].imag() * c; } return C(re, im); }
static C defr(const VD &x, int k) { int n = (int)x.size(); double re = 0, im = 0; for (int i = 0; i < n; i++) { double a = 2 * PI * ((i * k) % n) / n; re += x[i] * std::cos(a); im -= x[i] * std::sin(a); } return C(re, im); }
#ifndef LOGN
#define LOGN 4
#endif
static int p2(int lo) { return 1 << sym_range("log2", lo, LOGN); }
HARNESS(h_dft) {
    int n = sym_range("n", 1, 14); VD x = rin(n); int m = (int)dsp::ft::length_ft(n); sym_assert(m == n / 2 + 1, "number of frequency components"); VC o(m + 1); o[m] = C(7, 7);
    dsp::ft::dft(x.begin(), (std::size_t)n, o.begin()); for (int k = 0; k < m; k++) same(o[k], defr(x, k), "real DFT is its defining sum"); same(o[m], C(7, 7), "only the components are written"); sym_reach("dft");
}
HARNESS(h_idft) {
    int h = sym_range("half", 1, 5), n = 2 * h; VD x = rin(n); VC o(h + 1); dsp::ft::dft(x.begin(), (std::size_t)n, o.begin());
    sym_assert((int)dsp::ft::length_ift(h + 1) == n, "inverse length"); VD y(n + 1, 0.0); y[n] = 7; dsp::ft::inv_dft(o.begin(), (std::size_t)(h + 1), y.begin());
    for (int i = 0; i < n; i++) sym_close(y[i], x[i], T, "inverse DFT inverts the DFT"); sym_close(y[n], 7, 0, "only the samples are written"); sym_reach("idft");
}
HARNESS(h_fft) { int n = p2(0); VC x = cin(n), o(n + 1), c = x; o[n] = C(7, 7); dsp::ft::fft_c_radix2(x.begin(), n, o.begin()); for (int k = 0; k < n; k++) { same(o[k], def(c, k, -1), "FFT is the DFT sum"); same(x[k], c[k], "input is unchanged"); } same(o[n], C(7, 7), "only the components are written"); sym_reach("fft"); }
HARNESS(h_ifft) { int n = p2(0); VC x = cin(n), o(n); dsp::ft::ifft_c_radix2(x.begin(), n, o.begin()); for (int k = 0; k < n; k++) same(o[k], def(x, k, 1) / (double)n, "inverse FFT is the normalised inverse sum"); VC b(n); dsp::ft::fft_c_radix2(o.begin(), n, b.begin()); for (int k = 0; k < n; k++) same(b[k], x[k], "FFT undoes the inverse FFT"); sym_reach("ifft"); }
HARNESS(h_inplace) {
    int n = p2(1); VC x = cin(n), c = x; dsp::ft::fft_c_radix2(x.begin(), n); dsp::util::bit_reverse(n, x.begin()); for (int k = 0; k < n; k++) same(x[k], def(c, k, -1), "in-place FFT is the DFT sum in bit-reversed order");
    dsp::ft::ifft_c_radix2(x.begin(), n); dsp::util::bit_reverse(n, x.begin()); for (int k = 0; k < n; k++) same(x[k], c[k], "in-place inverse inverts"); sym_reach("inplace");
}
HARNESS(h_real) {
    int n = p2(1); VD x = rin(n), c = x; int m = n / 2 + 1; VC o(m); dsp::ft::fft_r_radix2(x.begin(), n, o.begin()); for (int k = 0; k < m; k++) same(o[k], defr(c, k), "real FFT is the DFT sum"); for (int i = 0; i < n; i++) sym_close(x[i], c[i], 0, "input is unchanged");
    VD y(n, 0.0); dsp::ft::ifft_r_radix2(o.begin(), m, y.begin()); for (int i = 0; i < n; i++) sym_close(y[i], c[i], T, "real inverse FFT inverts the real FFT"); sym_reach("real");
}
HARNESS(h_basis) {
    int n = sym_range("total", 1, 9), p = sym_range("phase", 0, 9), f = sym_range("freq", 0, 5); double a = 2 * PI * f * p / n;
    sym_close(dsp::ft::cos_basis(p, n, f), std::cos(a), T, "cosine basis"); sym_close(dsp::ft::sin_basis(p, n, f), std::sin(a), T, "sine basis");
    double r = sym_f64("rate", 1, 192000); sym_close(dsp::ft::index_freq(p, n, r), p * r / n, 1e-6, "frequency of a component"); same(dsp::ft::twiddle<double>(p, n), C(std::cos(2 * PI * p / n), -std::sin(2 * PI * p / n)), "twiddle factor"); sym_reach("basis");
}
HARNESS(h_big) { // large transforms: linear, so a component at any position on top of a fixed signal
    int n = 1 << sym_range("log2", 6, 8), at[] = {0, 1, n / 2 - 1, n / 2, n - 1, n / 3}, p = at[sym_pick("position", 6)], real = sym_pick("real", 2); double u = sym_f64("u", -1, 1), v = real ? 0 : sym_f64("v", -1, 1);
    if (real) { VD x(n, 0.0); x[p] = u; x[7] += 0.5; VD c = x; int m = n / 2 + 1; VC o(m); dsp::ft::fft_r_radix2(x.begin(), n, o.begin()); for (int k = 0; k < m; k++) { double a = 2 * PI * ((k * p) % n) / n, b = 2 * PI * ((k * 7) % n) / n; same(o[k], C(u * std::cos(a) + 0.5 * std::cos(b), -u * std::sin(a) - 0.5 * std::sin(b)), "real FFT is the DFT sum"); } VD y(n, 0.0); dsp::ft::ifft_r_radix2(o.begin(), m, y.begin()); for (int i = 0; i < n; i++) sym_close(y[i], c[i], T, "real inverse FFT inverts the real FFT"); }
    else { VC x(n), o(n), b(n); x[p] = C(u, v); x[7] += 0.5; VC c = x; dsp::ft::fft_c_radix2(x.begin(), n, o.begin()); dsp::ft::fft_c_radix2(x.begin(), n); dsp::util::bit_reverse(n, x.begin()); for (int k = 0; k < n; k++) { double a = 2 * PI * ((k * p) % n) / n, e = 2 * PI * ((k * 7) % n) / n, ca = std::cos(a), sa = -std::sin(a); C w(u * ca - v * sa + 0.5 * std::cos(e), u * sa + v * ca - 0.5 * std::sin(e)); same(o[k], w, "FFT is the DFT sum"); same(x[k], w, "in-place FFT is the DFT sum in bit-reversed order"); } dsp::ft::ifft_c_radix2(o.begin(), n, b.begin()); for (int i = 0; i < n; i++) same(b[i], c[i], "inverse FFT inverts"); }
    sym_reach("big");
}
static void one(int op, int n) {
    if (op == 0) { VD x = rin(n); VC o(n / 2 + 1); dsp::ft::dft(x.begin(), (std::size_t)n, o.begin()); for (int k = 0; k <= n / 2; k++) same(o[k], defr(x, k), "real DFT is its defining sum"); VD y(n, 0.0); dsp::ft::inv_dft(o.begin(), (std::size_t)(n / 2 + 1), y.begin()); for (int i = 0; i < n; i++) sym_close(y[i], x[i], T, "inverse DFT inverts the DFT"); }
    else if (op == 1) { VC x = cin(n), o(n), b(n); dsp::ft::fft_c_radix2(x.begin(), n, o.begin()); for (int k = 0; k < n; k++) same(o[k], def(x, k, -1), "FFT is the DFT sum"); dsp::ft::ifft_c_radix2(o.begin(), n, b.begin()); for (int k = 0; k < n; k++) same(b[k], x[k], "inverse FFT inverts"); }
    else if (op == 2) { VC x = cin(n), c = x; dsp::ft::fft_c_radix2(x.begin(), n); dsp::util::bit_reverse(n, x.begin()); for (int k = 0; k < n; k++) same(x[k], def(c, k, -1), "in-place FFT is the DFT sum in bit-reversed order"); dsp::ft::ifft_c_radix2(x.begin(), n); dsp::util::bit_reverse(n, x.begin()); for (int k = 0; k < n; k++) same(x[k], c[k], "in-place inverse inverts"); }
    else { VD x = rin(n), y(n, 0.0); int m = n / 2 + 1; VC o(m); dsp::ft::fft_r_radix2(x.begin(), n, o.begin()); for (int k = 0; k < m; k++) same(o[k], defr(x, k), "real FFT is the DFT sum"); dsp::ft::ifft_r_radix2(o.begin(), m, y.begin()); for (int i = 0; i < n; i++) sym_close(y[i], x[i], T, "real inverse FFT inverts the real FFT"); }
}
HARNESS(h_mixed) { for (int k = 0; k < 2; k++) { int op = sym_pick("transform", 4); one(op, 1 << sym_range("log2", 1, 3)); } sym_reach("mixed"); } // transforms of any kind and size one after another
