// N01: windows and filter kernels.
#include "sym.h"
#include "dsp/kernel.hpp"
#include <cmath>
#include <vector>
static const double PI = std::acos(-1.0);
HARNESS(h_windows) {
    using namespace dsp::win; int n = sym_range("size", 2, 24), i = sym_range("i", 0, n - 1); double a = 2 * PI * i / (n - 1), c = std::cos(a), c2 = std::cos(2 * a), p = sym_f64("parameter", 0, 1);
    sym_close(window_rectangle(i, n), 1, 0, "rectangle"); sym_close(window_hann(i, n), 0.5 - 0.5 * c, 1e-9, "Hann"); sym_close(window_hann(i, n, p), p - (1 - p) * c, 1e-9, "generalised Hann"); sym_close(window_hamming(i, n), 0.54 - 0.46 * c, 1e-9, "Hamming"); sym_close(window_hamming(i, n, p), p - (1 - p) * c, 1e-9, "generalised Hamming");
    sym_close(window_blackman(i, n), 0.42 - 0.5 * c + 0.08 * c2, 1e-9, "Blackman"); sym_close(window_blackmanc(i, n, p), (1 - p) / 2 - 0.5 * c + p / 2 * c2, 1e-9, "generalised Blackman");
    typedef double (*W)(int, int); W all[] = {window_rectangle, +[](int i, int n) { return window_hann(i, n); }, +[](int i, int n) { return window_hamming(i, n); }, window_blackman};
    for (auto w : all) { sym_close(w(i, n), w(n - 1 - i, n), 1e-9, "windows are symmetric"); sym_assert(w(i, n) <= 1 + 1e-9 && w(i, n) >= -1e-9, "windows lie between 0 and 1"); } sym_reach("windows");
}
HARNESS(h_spectral) {
    int n = sym_range("size", 1, 8); std::vector<double> v(n + 1), x(n), r(n + 1); for (int i = 0; i < n; i++) r[i] = v[i] = x[i] = sym_f64("x", -4, 4); v[n] = r[n] = 5;
    dsp::kern::spectral_inversion(v.begin(), n); for (int i = 0; i < n; i++) sym_close(v[i], (i == n / 2 ? 1 : 0) - x[i], 1e-12, "spectral inversion is the centre impulse minus the kernel");
    dsp::kern::spectral_reversal(r.begin(), n); for (int i = 0; i < n; i++) sym_close(r[i], i % 2 == 0 ? -x[i] : x[i], 1e-12, "spectral reversal negates every other sample"); sym_close(v[n], 5, 0, "nothing else is written"); sym_close(r[n], 5, 0, "nothing else is written");
    if (n % 2) { dsp::kern::spectral_inversion(v.begin(), n); for (int i = 0; i < n; i++) sym_close(v[i], x[i], 1e-12, "inverting twice restores the kernel"); } sym_reach("spectral");
}
static double hann(int i, int n) { return dsp::win::window_hann(i, n); }
static void kernel(int n, double f, int w) {
    dsp::kern::window_functiont wf = w == 0 ? dsp::win::window_rectangle : w == 1 ? hann : dsp::win::window_blackman;
    std::vector<double> o(n + 1, 3.0); if (w == 2) dsp::kern::sinc_kernel(f, n, o.begin()); else dsp::kern::sinc_kernel(f, n, o.begin(), wf); sym_close(o[n], 3, 0, "exactly size values are written");
    double sum = 0; std::vector<double> e(n); int m = n / 2; for (int i = 0; i < n; i++) { double a = 2 * PI * f * (i - m); e[i] = (a == 0 ? 1 : std::sin(a) / a) * wf(i, n); sum += e[i]; }
    double tot = 0; for (int i = 0; i < n; i++) { sym_close(o[i], e[i] / sum, 1e-9, "the kernel is the windowed sinc, normalised"); sym_close(o[i], o[n - 1 - i], 1e-12, "the kernel is symmetric"); tot += o[i]; } sym_close(tot, 1, 1e-9, "the kernel passes a constant unchanged");
}
HARNESS(h_sinckernel) { int n = 2 * sym_range("half", 1, 8) + 1; double f = sym_range("freq", 0, 8) / 17.0; kernel(n, f, sym_pick("window", 3)); sym_reach("sinckernel"); }
HARNESS(h_mixed) { // kernels and windows of any parameters one after another
    for (int k = 0; k < 2; k++) { int n = 2 * sym_range("half", 1, 3) + 1, f = sym_range("freq", 0, 3); kernel(n, f / 7.0, sym_pick("window", 3)); int i = n / 3; double c = std::cos(2 * PI * i / (n - 1)), p = (f + 1) / 8.0; sym_close(dsp::win::window_hann(i, n, p), p - (1 - p) * c, 1e-9, "generalised Hann"); sym_close(dsp::win::window_hamming(i, n), 0.54 - 0.46 * c, 1e-9, "Hamming"); } sym_reach("mixed");
}
HARNESS(h_big) { // kernels and windows of the sizes filters use
    static const int ns[] = {51, 101, 255, 513, 1001}; int n = ns[sym_pick("size", 5)], w = sym_pick("window", 3); static const double fs[] = {0.01, 0.1, 0.25, 0.4999}; kernel(n, fs[sym_pick("freq", 4)], w);
    using namespace dsp::win; int ws[] = {512, 4096, 70001}, m = ws[sym_pick("length", 3)]; int at[] = {1, m / 3, m / 2, m - 2}; for (int i : at) { double a = 2 * PI * i / (m - 1), c = std::cos(a), c2 = std::cos(2 * a); sym_close(window_hann(i, m), 0.5 - 0.5 * c, 1e-9, "Hann"); sym_close(window_hamming(i, m), 0.54 - 0.46 * c, 1e-9, "Hamming"); sym_close(window_blackman(i, m), 0.42 - 0.5 * c + 0.08 * c2, 1e-9, "Blackman"); sym_close(window_blackmanc(i, m, 0.25), 0.375 - 0.5 * c + 0.125 * c2, 1e-9, "generalised Blackman"); } sym_reach("big");
}
