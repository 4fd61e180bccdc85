// I01: recursive filters follow their difference equation for any coefficients, input and block split.
#include "sym.h"
#include "dsp/iir.hpp"
#include <deque>
#ifndef IN
#define IN 5
#endif
static const double PI = std::acos(-1.0);
static double ref(const double *x, double *y, int n, const double *a, int na, const double *b, int nb) { double v = 0; for (int i = 0; i < na; i++) if (n - i >= 0) v += a[i] * x[n - i]; for (int i = 0; i < nb; i++) if (n - 1 - i >= 0) v += b[i] * y[n - 1 - i]; return y[n] = v; }
HARNESS(h_filter) {
    int na = sym_range("na", 0, 3), nb = sym_range("nb", 0, 3); dsp::iir::IIRFilter<double> f(na, nb); double a[3], b[3], x[IN], y[IN];
    sym_assert(f.get_asize() == na && f.get_bsize() == nb, "number of coefficients");
    for (int i = 0; i < na; i++) { a[i] = sym_f64i("a", -3, 3); f.set_a(i, a[i]); sym_close(f.get_a(i), a[i], 0, "coefficient"); } for (int i = 0; i < nb; i++) { b[i] = sym_f64i("b", -3, 3); f.set_b(i, b[i]); sym_close(f.get_b(i), b[i], 0, "coefficient"); }
    int k = 0; for (auto it = f.abegin(); it != f.aend(); ++it, k++) sym_close(*it, a[k], 0, "coefficient list"); sym_assert(k == na, "coefficient list"); k = 0; for (auto it = f.bbegin(); it != f.bend(); ++it, k++) sym_close(*it, b[k], 0, "coefficient list"); sym_assert(k == nb, "coefficient list");
    for (int i = 0; i < IN; i++) x[i] = sym_f64i("x", -3, 3); double io[IN], out[IN + 1]; out[IN] = 7; for (int i = 0; i < IN; i++) io[i] = x[i];
    int cut = sym_range("cut", 0, IN); bool first = sym_pick("inplace", 2); // any split into two blocks, in place or out of place
    if (first) { f.process(io, cut); for (int i = 0; i < cut; i++) out[i] = io[i]; } else f.process(io, cut, out);
    if (!first) { f.process(io + cut, IN - cut); for (int i = cut; i < IN; i++) out[i] = io[i]; } else f.process(io + cut, IN - cut, out + cut);
    for (int n = 0; n < IN; n++) { ref(x, y, n, a, na, b, nb); sym_close(out[n], y[n], 0, "output follows the difference equation"); }
    sym_close(out[IN], 7, 0, "nothing else is written"); if (first) for (int i = cut; i < IN; i++) sym_close(io[i], x[i], 0, "out of place leaves the input alone"); sym_reach("filter");
}
HARNESS(h_long) { // long runs: the histories wrap many times
    int na = sym_range("na", 1, 4), nb = sym_range("nb", 1, 4); dsp::iir::IIRFilter<double> f(na, nb); double a[4], b[4], x[24], y[24]; static const double A[] = {1, -2, 0.5, 3}, B[] = {0.5, -0.25, 0.125, -0.5};
    for (int i = 0; i < na; i++) f.set_a(i, a[i] = A[i]); for (int i = 0; i < nb; i++) f.set_b(i, b[i] = B[i]); for (int i = 0; i < 24; i++) x[i] = sym_f64("x", -1, 1);
    double out[24]; f.process(x, 24, out); for (int n = 0; n < 24; n++) { ref(x, y, n, a, na, b, nb); sym_close(out[n], y[n], 1e-9, "output follows the difference equation"); } sym_reach("long");
}
HARNESS(h_resize) { // sizes chosen after construction
    int na = sym_range("na", 1, 3), nb = sym_range("nb", 1, 3); dsp::iir::IIRFilter<double> f; f.set_asize(na); f.set_bsize(nb); f.reserve(); double a[3], b[3], x[4], y[4], out[4];
    for (int i = 0; i < na; i++) f.set_a(i, a[i] = sym_f64i("a", -3, 3)); for (int i = 0; i < nb; i++) f.set_b(i, b[i] = sym_f64i("b", -3, 3)); for (int i = 0; i < 4; i++) x[i] = sym_f64i("x", -3, 3);
    f.process(x, 4, out); for (int n = 0; n < 4; n++) { ref(x, y, n, a, na, b, nb); sym_close(out[n], y[n], 0, "output follows the difference equation"); } sym_reach("resize");
}
HARNESS(h_single) {
    int na = sym_range("na", 1, 3), nb = sym_range("nb", 1, 3); double a[3], b[3], x[4], y[4]; std::deque<double> in(na, 0.0), out(nb, 0.0); for (int i = 0; i < na; i++) a[i] = sym_f64i("a", -3, 3); for (int i = 0; i < nb; i++) b[i] = sym_f64i("b", -3, 3);
    for (int n = 0; n < 4; n++) { x[n] = sym_f64i("x", -3, 3); double v = dsp::iir::iir_recursive_single(x[n], in, out, a, b, na, nb); ref(x, y, n, a, na, b, nb); sym_close(v, y[n], 0, "single step follows the difference equation"); sym_assert((int)in.size() == na && (int)out.size() == nb, "histories keep their size"); } sym_reach("single");
}
HARNESS(h_pole) {
    dsp::iir::SinglePole<double> f; bool low = sym_pick("low", 2); int rate = 8000 * sym_range("rate", 1, 6); f.set_sample_rate(rate); f.set_type(low ? dsp::consts::FilterType::LowPass : dsp::consts::FilterType::HighPass); double fr = sym_range("freq", 0, 8) / 16.0;
    double other = sym_range("other", 0, 4) / 8.0; bool hz = sym_pick("hertz", 2);
    if (low) { if (hz) { f.set_freq_high(fr * rate); f.set_freq_low(other * rate); } else { f.set_frac_high(fr); f.set_frac_low(other); } } else { if (hz) { f.set_freq_low(fr * rate); f.set_freq_high(other * rate); } else { f.set_frac_low(fr); f.set_frac_high(other); } }
    sym_close(low ? f.get_frac_high() : f.get_frac_low(), fr, 1e-12, "cutoff as a fraction"); sym_close(low ? f.get_freq_high() : f.get_freq_low(), fr * rate, 1e-6, "cutoff in hertz"); sym_assert(f.get_sample_rate() == rate, "rate");
    f.generate_coefficients(); double e = std::exp(-2 * PI * fr); sym_close(f.frac_to_x(fr), e, 1e-12, "decay"); double x[5], y[5], out[5]; for (auto &v : x) v = sym_f64("x", -1, 1); f.process(x, 5, out);
    double a[2], b[1] = {e}; if (low) { a[0] = 1 - e; a[1] = 0; } else { a[0] = (1 + e) / 2; a[1] = -(1 + e) / 2; } for (int n = 0; n < 5; n++) { ref(x, y, n, a, 2, b, 1); sym_close(out[n], y[n], 1e-9, low ? "single pole low pass" : "single pole high pass"); } sym_reach("pole");
}
HARNESS(h_response) {
    int na = sym_range("na", 0, 3), nb = sym_range("nb", 1, 3); double r = sym_range("angle", 0, 8) * PI / 8; std::vector<double> a(na), b(nb); for (int i = 0; i < na; i++) a[i] = sym_range("a", -2, 2) / 8.0; for (auto &v : b) v = sym_f64("b", -2, 2);
    double nr = 0, ni = 0, dr = 1, di = 0; for (int j = 0; j < nb; j++) { nr += b[j] * std::cos(j * r); ni += b[j] * std::sin(j * r); } for (int j = 0; j < na; j++) { dr += a[j] * std::cos(j * r); di += a[j] * std::sin(j * r); }
    double q = dr * dr + di * di; if (q < 1e-3) sym_stop(); auto z = dsp::iir::freq_response(r, a, b); sym_close(z.real(), (nr * dr + ni * di) / q, 1e-7, "response is the ratio of the coefficient polynomials"); sym_close(z.imag(), (ni * dr - nr * di) / q, 1e-7, "response is the ratio of the coefficient polynomials");
    double f = sym_f64("f", 0, 24000); sym_close(dsp::iir::freq_map(f, 48000), 2 * PI * f / 48000, 1e-9, "frequency to angle"); sym_reach("response");
}
HARNESS(h_big) { // blocks longer than 16 bits can count
    int n = 70000; dsp::iir::IIRFilter<double> f(2, 1); f.set_a(0, 1); f.set_a(1, 2); f.set_b(0, -1); std::vector<double> x(n, 0.0), o(n, 0.0); x[0] = 1; double u = sym_f64i("u", -9, 9); x[69990] = u; f.process(x.begin(), n, o.begin()); bool ok = o[0] == 1; for (int i = 1; i < 69990; i++) ok &= o[i] == (i % 2 ? 1.0 : -1.0); sym_assert(ok, "output follows the difference equation"); sym_close(o[69990], u - 1, 0, "output follows the difference equation"); sym_close(o[69991], u + 1, 0, "output follows the difference equation"); sym_reach("big");
}
struct Pole { dsp::iir::SinglePole<double> f; double a[2], b[1], x[8], y[8]; int n = 0, rate = 0; Pole(int r) { rate = r; f.set_sample_rate(r); }
    void tune(bool low, double fr) { f.set_type(low ? dsp::consts::FilterType::LowPass : dsp::consts::FilterType::HighPass); if (low) f.set_frac_high(fr); else f.set_frac_low(fr); f.generate_coefficients(); double e = std::exp(-2 * PI * fr); b[0] = e; if (low) { a[0] = 1 - e; a[1] = 0; } else { a[0] = (1 + e) / 2; a[1] = -(1 + e) / 2; } }
    void play(int m) { double out[4]; for (int i = 0; i < m; i++) x[n + i] = sym_f64("x", -1, 1); f.process(x + n, m, out); for (int i = 0; i < m; i++, n++) { ref(x, y, n, a, 2, b, 1); sym_close(out[i], y[n], 1e-9, "single pole keeps to its latest settings"); } } };
HARNESS(h_retune) { // coefficients generated again before the signal, and filters side by side
    Pole p(8000), q(48000); p.tune(sym_pick("low", 2), sym_range("freq", 1, 3) / 16.0); q.tune(sym_pick("low", 2), sym_range("freq", 1, 3) / 16.0); q.play(1); p.tune(sym_pick("low", 2), sym_range("freq", 1, 3) / 16.0); p.play(3); q.play(3); sym_reach("retune");
}
HARNESS(h_two) { // filters side by side keep their own histories
    double a[2][2], b[2][2], x[2][6], y[2][6]; dsp::iir::IIRFilter<double> f[2] = {{2, 2}, {2, 2}}; for (int k = 0; k < 2; k++) for (int i = 0; i < 2; i++) { f[k].set_a(i, a[k][i] = sym_f64i("a", -3, 3)); f[k].set_b(i, b[k][i] = sym_f64i("b", -3, 3)); }
    for (int n = 0; n < 4; n += 2) for (int k = 0; k < 2; k++) { double out[2]; for (int i = 0; i < 2; i++) x[k][n + i] = sym_f64i("x", -3, 3); f[k].process(x[k] + n, 2, out); for (int i = 0; i < 2; i++) { ref(x[k], y[k], n + i, a[k], 2, b[k], 2); sym_close(out[i], y[k][n + i], 0, "output follows the difference equation"); } } sym_reach("two");
}
HARNESS(h_many) { // many coefficients
    int na = sym_range("na", 9, 12), nb = sym_range("nb", 9, 12), m = 26; double a[12], b[12], x[26], y[26], out[26]; dsp::iir::IIRFilter<double> f(na, nb); for (int i = 0; i < na; i++) f.set_a(i, a[i] = (i * 5 % 7 - 3) / 4.0); for (int i = 0; i < nb; i++) f.set_b(i, b[i] = (i * 3 % 5 - 2) / 8.0); for (int i = 0; i < m; i++) x[i] = sym_f64i("x", -3, 3); int cut = sym_range("cut", 0, 2) * 11; for (int i = 0; i < m;) { int k = i == 0 && cut ? cut : m - i; f.process(x + i, k, out + i); i += k; } for (int n = 0; n < m; n++) { ref(x, y, n, a, na, b, nb); sym_close(out[n], y[n], 1e-6, "output follows the difference equation"); } sym_reach("many");
}
HARNESS(h_wrap) { // the positions kept in the histories outlast 16 bits, whatever the number of coefficients
    int m = sym_pick("coefficients", 2) ? 7 : 3, n = 66000; dsp::iir::IIRFilter<double> f(m, m); for (int i = 0; i < m; i++) { f.set_a(i, i + 1); f.set_b(i, 0); } f.set_b(m - 1, -1); std::vector<double> x(n, 0.0), o(n, 0.0); for (int i = 0; i < n; i++) x[i] = i % 5; double u = sym_f64i("u", -9, 9); x[65534] += u; int cut = 65535 * sym_pick("cut", 2) + 1; f.process(x.begin(), cut, o.begin()); f.process(x.begin() + cut, n - cut, o.begin() + cut); std::vector<double> y(n, 0.0); bool ok = true;
    for (int i = 0; i < n; i++) { double v = 0; for (int j = 0; j < m && j <= i; j++) v += (j + 1) * ((i - j) % 5); if (i >= m) v -= y[i - m]; y[i] = v; } for (int i = 0; i < 65534; i++) ok &= o[i] == y[i]; sym_assert(ok, "output follows the difference equation"); for (int i = 65534; i < n; i++) { int d = i - 65534; double g = 0; for (int r = d, s = 1; r >= 0; r -= m, s = -s) if (r < m) g += s * (r + 1); sym_close(o[i], y[i] + g * u, 1e-6, "output follows the difference equation"); } sym_reach("wrap");
}
