// S01: streaming convolution filters give the same output however the signal is cut into blocks, per channel.
#include "sym.h"
#include "filter_module.hpp"
#include <cmath>
static const double PI = std::acos(-1.0);
template <class F> struct Probe : F { AudioBuffer run(AudioBuffer &&b) { this->set_buffer(std::move(b)); this->process(); return this->get_buffer(); } };
HARNESS(h_stream) {
    int ch = sym_range("channels", 1, 2), k = sym_range("kernel", 1, 4), n = 0; double rate = sym_f64("rate", 1, 192000), h[4], x[2][12]; Probe<BaseConvFilter<>> f; auto kb = create_buffer(k, 1); for (int i = 0; i < k; i++) kb->at(i) = h[i] = sym_f64i("h", -3, 3); f.set_kernel(std::move(kb)); f.start();
    int blocks = sym_range("blocks", 1, 3);
    for (int q = 0; q < blocks; q++) {
        int m = sym_range("frames", 1, 3); AudioBuffer b(m, ch, rate); for (int i = 0; i < m; i++) for (int c = 0; c < ch; c++) b.at(c, i) = x[c][n + i] = sym_f64i("x", -3, 3);
        AudioBuffer o = f.run(std::move(b)); sym_assert((int)o.size() == m * ch && (int)o.channels() == ch, "a block keeps its shape"); sym_close(o.get_samplerate(), rate, 0, "a block keeps its sample rate");
        for (int i = 0; i < m; i++) for (int c = 0; c < ch; c++) { double y = 0; for (int j = 0; j < k && n + i - j >= 0; j++) y += h[j] * x[c][n + i - j]; sym_close(o.at(c, i), y, 0, "output is the convolution of the whole signal"); }
        n += m;
    }
    sym_reach("stream");
}
HARNESS(h_restart) { // a restart forgets the past
    int k = sym_range("kernel", 1, 4); double h[4]; Probe<BaseConvFilter<>> f; auto kb = create_buffer(k, 1); for (int i = 0; i < k; i++) kb->at(i) = h[i] = sym_f64i("h", -3, 3); f.set_kernel(std::move(kb)); f.start();
    AudioBuffer b(3, 1); for (int i = 0; i < 3; i++) b.at(i) = sym_f64i("old", -3, 3); f.run(std::move(b)); f.start(); AudioBuffer c(3, 1); double x[3]; for (int i = 0; i < 3; i++) c.at(i) = x[i] = sym_f64i("x", -3, 3);
    AudioBuffer o = f.run(std::move(c)); for (int i = 0; i < 3; i++) { double y = 0; for (int j = 0; j < k && i - j >= 0; j++) y += h[j] * x[i - j]; sym_close(o.at(i), y, 0, "nothing of the earlier run remains"); }
    auto g = f.get_kernel(); sym_assert((int)g->size() == k, "kernel is handed back"); for (int i = 0; i < k; i++) sym_close(g->at(i), h[i], 0, "kernel is unchanged"); sym_reach("restart");
}
static double low(int i, int n, double f) { // windowed sinc, unit gain
    double s = 0, v = 0; for (int j = 0; j < n; j++) { double a = 2 * PI * f * (j - n / 2), w = 0.42 - 0.5 * std::cos(2 * PI * j / (n - 1)) + 0.08 * std::cos(4 * PI * j / (n - 1)), e = (a == 0 ? 1 : std::sin(a) / a) * w; s += e; if (j == i) v = e; } return v / s;
}
HARNESS(h_sinc) {
    typedef dsp::consts::FilterType FT; static const FT types[] = {FT::LowPass, FT::HighPass, FT::BandPass, FT::BandReject}; int t = sym_pick("type", 4), n = 2 * sym_range("half", 1, 5) + 1; double rate = 1000.0 * sym_range("rate", 1, 3), f1 = rate * sym_range("start", 1, 3) / 16, f2 = rate * sym_range("stop", 4, 6) / 16;
    Probe<SincFilter<>> f; f.set_type(types[t]); f.set_size(n); f.set_start_freq(f1); f.set_stop_freq(f2); f.get_info()->sample_rate = rate; sym_assert(f.get_type() == types[t] && f.get_size() == n, "settings"); sym_close(f.get_start_freq(), f1, 0, "settings"); sym_close(f.get_stop_freq(), f2, 0, "settings"); f.start();
    double x[12], h[12]; for (int i = 0; i < n; i++) { double d = i == n / 2, a = low(i, n, f1 / rate), b = low(i, n, f2 / rate); h[i] = t == 0 ? a : t == 1 ? d - a : t == 3 ? a + d - b : b - a; }
    int pos = 0; for (int q = 0; q < 2; q++) { int m = q ? 12 - pos : sym_range("cut", 1, 6); AudioBuffer b(m, 1); for (int i = 0; i < m; i++) b.at(i) = x[pos + i] = sym_f64("x", -1, 1); AudioBuffer o = f.run(std::move(b)); for (int i = 0; i < m; i++) { double y = 0; for (int j = 0; j < n && pos + i - j >= 0; j++) y += h[j] * x[pos + i - j]; sym_close(o.at(i), y, 1e-9, "output is the signal through the windowed-sinc filter of the chosen type"); } pos += m; }
    sym_reach("sinc");
}
HARNESS(h_long) { // long kernels and blocks of any proportion, one symbolic sample on top of a fixed signal
    static const int ks[] = {40, 7, 130}, ms[] = {64, 5, 33, 1, 39, 40, 150}; int k = ks[sym_pick("kernel", 3)], ch = sym_range("channels", 1, 2), n = 0, first = sym_pick("first", 7); std::vector<double> h(k), x[2]; Probe<BaseConvFilter<>> f; auto kb = create_buffer(k, 1); for (int i = 0; i < k; i++) kb->at(i) = h[i] = (i * 37 % 19 - 9) / 8.0; f.set_kernel(std::move(kb)); f.start();
    for (int q = 0; q < 4; q++) { int m = ms[(first + q) % 7]; AudioBuffer b(m, ch); for (int c = 0; c < ch; c++) for (int i = 0; i < m; i++) { x[c].push_back(q == 0 && i == 0 ? sym_f64i("x", -3, 3) : ((n + i) * (29 + c) % 23 - 11) / 8.0); b.at(c, i) = x[c].back(); } AudioBuffer o = f.run(std::move(b)); sym_assert((int)o.size() == m * ch && (int)o.channels() == ch, "a block keeps its shape");
        for (int i = 0; i < m; i++) for (int c = 0; c < ch; c++) { double y = 0; for (int j = 0; j < k && n + i - j >= 0; j++) y += h[j] * x[c][n + i - j]; sym_close(o.at(c, i), y, 1e-9, "output is the convolution of the whole signal"); } n += m; }
    sym_reach("long");
}
static int wide() { static const int c[] = {1, 2, 7}; return c[sym_pick("channels", 3)]; } // 7 divides 70000
HARNESS(h_big) { // blocks longer than 16 bits can count
    int ch = wide(); Probe<BaseConvFilter<>> f; auto kb = create_buffer(2, 1); kb->at(0) = 2; kb->at(1) = -1; f.set_kernel(std::move(kb)); f.start(); double last = 0; bool ok = true; for (int q = 0; q < 2; q++) { int m = 70000 / ch; AudioBuffer b(m, ch); for (int i = 0; i < m * ch; i++) b.at(i) = i % 89; AudioBuffer o = f.run(std::move(b)); sym_assert((int)o.size() == m * ch, "a block keeps its shape"); for (int i = 0; i < m; i++) for (int c = 0; c < ch; c++) { double p = i ? ((i - 1) * ch + c) % 89 : q ? ((m - 1) * ch + c) % 89 : 0; ok &= o.at(c, i) == 2.0 * ((i * ch + c) % 89) - p; } } (void)last; sym_assert(ok, "output is the convolution of the whole signal"); sym_reach("big");
}
HARNESS(h_settings) { // settings come back exactly
    Probe<SincFilter<>> f; double a = sym_f64("start", 0, 24000), b = sym_f64("stop", 0, 24000); int n = (int)sym_i64("size", 1, 1000000); f.set_start_freq(a); f.set_stop_freq(b); f.set_size(n); sym_close(f.get_start_freq(), a, 0, "settings"); sym_close(f.get_stop_freq(), b, 0, "settings"); sym_assert(f.get_size() == n, "settings"); Probe<SincFilter<>> g; g.set_type(dsp::consts::FilterType::LowPass); n = sym_range("length", 3, 40); g.set_size(n); g.set_start_freq(100); g.set_stop_freq(200); g.get_info()->sample_rate = 1000; g.start(); sym_assert((int)g.get_kernel()->size() == n, "the filter has the length asked for"); sym_reach("settings");
}
typedef dsp::consts::FilterType FT; static const FT TY[] = {FT::LowPass, FT::HighPass, FT::BandPass, FT::BandReject};
struct Set { int t, n; double rate, f1, f2, h[8], x[8]; int pos = 0; Probe<SincFilter<>> f; double in(double v) { x[pos] = v; return v; }
    void set(int type, int half, int r, int s) { t = type; n = 2 * half + 1; rate = 1000.0 * r; f1 = rate * s / 16; f2 = rate * (s + 3) / 16; f.set_type(TY[t]); f.set_size(n); f.set_start_freq(f1); f.set_stop_freq(f2); f.get_info()->sample_rate = rate; f.start(); pos = 0; for (int i = 0; i < n; i++) { double d = i == n / 2, a = low(i, n, f1 / rate), b = low(i, n, f2 / rate); h[i] = t == 0 ? a : t == 1 ? d - a : t == 3 ? a + d - b : b - a; } }
    void play(int m) { AudioBuffer b(m, 1); for (int i = 0; i < m; i++) b.at(i) = x[pos + i] = sym_f64("x", -1, 1); AudioBuffer o = f.run(std::move(b)); for (int i = 0; i < m; i++) { double y = 0; for (int j = 0; j < n && pos + i - j >= 0; j++) y += h[j] * x[pos + i - j]; sym_close(o.at(i), y, 1e-9, "output is the signal through the windowed-sinc filter of the chosen type"); } pos += m; } };
HARNESS(h_again) { // a restart takes the new settings
    Set s; s.set(sym_pick("type", 4), sym_range("half", 1, 2), 1, sym_range("start", 1, 2)); s.play(3); s.set(sym_pick("type", 4), sym_range("half", 1, 2), sym_range("rate", 1, 2), sym_range("start", 1, 2)); s.play(2); s.play(3); sym_reach("again");
}
HARNESS(h_two) { // filters side by side, each with settings of its own
    Set a, b; a.set(sym_pick("type", 4), sym_range("half", 1, 2), 1, sym_range("start", 1, 2)); b.set(sym_pick("type", 4), sym_range("half", 1, 2), 1, sym_range("start", 1, 2)); a.play(2); b.play(3); a.play(3); b.play(2); sym_reach("two");
}
HARNESS(h_wide) { // many channels, blocks without frames, a channel more from some block on
    int ch = sym_range("channels", 3, 5), k = sym_range("kernel", 1, 4), n = 0, grow = sym_pick("grow", 2), from[6] = {0, 0, 0, 0, 0, 0}; double h[4], x[6][12]; Probe<BaseConvFilter<>> f; auto kb = create_buffer(k, 1); for (int i = 0; i < k; i++) kb->at(i) = h[i] = (i * 5 % 7) - 3; f.set_kernel(std::move(kb)); f.start();
    for (int q = 0; q < 3; q++) { if (q == 2 && grow) from[ch++] = n; int m = sym_range("frames", 0, 2); AudioBuffer b(m, ch); for (int i = 0; i < m; i++) for (int c = 0; c < ch; c++) b.at(c, i) = x[c][n + i] = q ? (n + i) * 3 - c * 7 : sym_f64i("x", -3, 3); AudioBuffer o = f.run(std::move(b)); sym_assert((int)o.size() == m * ch && (int)o.channels() == ch, "a block keeps its shape"); for (int i = 0; i < m; i++) for (int c = 0; c < ch; c++) { double y = 0; for (int j = 0; j < k && n + i - j >= from[c]; j++) y += h[j] * x[c][n + i - j]; sym_close(o.at(c, i), y, 0, "output is the convolution of the whole signal"); } n += m; } sym_reach("wide");
}
HARNESS(h_forget) { // a restart forgets the past of every channel, and may bring another kernel
    int ch = sym_range("channels", 1, 3), before = sym_range("before", 1, 2), now = sym_range("now", 1, 3), k = 3; double h[3], x[3][6]; Probe<BaseConvFilter<>> f; auto kb = create_buffer(k, 1); for (int i = 0; i < k; i++) kb->at(i) = 5 + i; f.set_kernel(std::move(kb)); f.start(); for (int q = 0; q < before; q++) { AudioBuffer b(2, ch); for (int i = 0; i < 2 * ch; i++) b.at(i) = sym_f64("old", -3, 3); f.run(std::move(b)); }
    if (sym_pick("kernel", 2)) { k = sym_range("size", 1, 3); auto g = create_buffer(k, 1); for (int i = 0; i < k; i++) g->at(i) = h[i] = i * 2 - 3; f.set_kernel(std::move(g)); } else for (int i = 0; i < k; i++) h[i] = 5 + i; f.start(); int n = 0;
    for (int q = 0; q < 2; q++) { AudioBuffer b(now, ch); for (int c = 0; c < ch; c++) for (int i = 0; i < now; i++) b.at(c, i) = x[c][n + i] = sym_f64("x", -3, 3); AudioBuffer o = f.run(std::move(b)); for (int i = 0; i < now; i++) for (int c = 0; c < ch; c++) { double y = 0; for (int j = 0; j < k && n + i - j >= 0; j++) y += h[j] * x[c][n + i - j]; sym_close(o.at(c, i), y, 1e-9, "nothing of the earlier run remains"); } n += now; } sym_reach("forget");
}
