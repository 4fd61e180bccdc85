// O01: oscillators.
#include "sym.h"
#include "fund_oscillator.hpp"
#include <cmath>
static const double PI2 = 2 * 3.14159265358979323846;
static double wave(int kind, double t) { // value at t periods
    double r = t - std::floor(t); if (kind == 1) return r < 0.5 ? 1 : -1; if (kind == 2) { double s = t + 0.5; return 2 * (s - std::floor(s)) - 1; } return r < 0.25 ? 4 * r : r > 0.75 ? 4 * (r - 1) : 4 * (0.5 - r);
}
template <class O> static void conf(O &o, int f, int ch, double rate) { ModuleInfo *i = o.get_info(); i->out_buffer = i->in_buffer = f; i->channels = ch; i->sample_rate = rate; }
static AudioBuffer run(BaseModule &o) { o.meta_process(); return o.get_buffer(); }
template <class O> static void plain(int kind) { // frame n of every channel is the waveform at frequency * (phase + n) / rate, across blocks of any size
    int ch = sym_range("channels", 1, 3), n = 0, how = sym_pick("how", 2); double rate = how ? 44100 : 64, f = how && kind == 0 ? sym_f64("freq", 0, 20000) : (double)sym_range("freq", 0, 9) * (how ? 441 : 5), p = kind == 0 ? sym_f64i("phase", 0, 1000) : sym_pick("phase", 3) * 7; if (how && kind) rate = 1764 * 4; int ctor = sym_pick("ctor", 2); O o(f, p), o2; O &q = ctor ? o2 : o; if (ctor) { o2.set_frequency(f); o2.set_phase(p); } sym_close(q.get_frequency(), f, 0, "frequency"); sym_close(q.get_phase(), p, 0, "phase");
    for (int b = 0; b < 2; b++) { int m = sym_range("frames", 0, 4); conf(q, m, ch, rate); AudioBuffer x = run(q); sym_assert((int)x.size() == m * ch && (int)x.channels() == ch, "block shape"); sym_close(x.get_samplerate(), rate, 0, "block rate");
        for (int i = 0; i < m; i++) for (int c = 0; c < ch; c++) { double t = f * (p + n + i) / rate; sym_close(x.at(c, i), kind == 0 ? std::sin(PI2 * f * (p + n + i) / rate) : wave(kind, t), 1e-9, "the waveform at its frequency, the same on every channel"); } n += m; sym_close(q.get_phase(), p + n, 0, "phase advances by one per frame"); }
    sym_reach("plain");
}
HARNESS(h_sine) { plain<SineOscillator>(0); } HARNESS(h_square) { plain<SquareOscillator>(1); } HARNESS(h_saw) { plain<SawtoothOscillator>(2); } HARNESS(h_triangle) { plain<TriangleOscillator>(3); }
template <class O> static void same(O &a, O &b, double f) { // one block of n frames equals any split
    int ch = sym_range("channels", 1, 2), n = 6, k = sym_range("cut", 0, 6); double rate = 48000; conf(a, n, ch, rate); AudioBuffer x = run(a); conf(b, k, ch, rate); AudioBuffer y = run(b); conf(b, n - k, ch, rate); AudioBuffer z = run(b); for (int i = 0; i < n * ch; i++) { sym_close(x.at(i), i < k * ch ? y.at(i) : z.at(i - k * ch), 1e-9, "the signal does not depend on the block size"); sym_assert(x.at(i) >= -1.0000001 && x.at(i) <= 1.0000001, "the signal stays within [-1, 1]"); sym_close(x.at(i), x.at(i - i % ch), 1e-9, "all channels agree"); } (void)f; }
HARNESS(h_split) { int k = sym_pick("kind", 4); double f = k == 0 ? sym_f64("freq", 0, 20000) : 100.0 * sym_range("freq", 0, 200) + 0.37, p = k == 0 ? sym_f64("phase", 0, 100) : 0.25 * sym_pick("phase", 4); if (k == 0) { SineOscillator a(f, p), b(f, p); same(a, b, f); } else if (k == 1) { SquareOscillator a(f, p), b(f, p); same(a, b, f); } else if (k == 2) { SawtoothOscillator a(f, p), b(f, p); same(a, b, f); } else { TriangleOscillator a(f, p), b(f, p); same(a, b, f); } sym_reach("split"); }
struct Freq : SourceModule { double f[16]; int n = 0; void process() override { reserve(); int ch = (int)buff.channels(), m = ch ? (int)buff.size() / ch : 0; for (int i = 0; i < m; i++) for (int c = 0; c < ch; c++) buff.at(c, i) = f[n + i]; n += m; } };
template <class O> static void mod(int kind) { // phase accumulates the frequency parameter over the rate
    int ch = sym_range("channels", 1, 2), n = 0, src = sym_pick("modulated", 2); double rate = 16, t = 0; Freq s; for (double &v : s.f) v = 1; O o(3.0); if (src) { for (int i = 0; i < 4; i++) s.f[i] = kind ? 3.0 * sym_range("freq", 0, 2) + 1 : sym_f64i("freq", 0, 12); o.get_frequency()->link(&s); } else o.get_frequency()->set_constant(5.0); SinkModule<> k; k.link(&o); ChainInfo *c = k.get_chain_info(); c->channels = ch; c->sample_rate = rate;
    if (sym_pick("phase", 2)) { t = 0.375; o.set_phase(t); } 
    for (int b = 0; b < 2; b++) { int m = b ? 4 - n : sym_range("frames", 0, 3); c->buffer_size = m; k.meta_info_sync(); k.meta_process(); AudioBuffer x = k.get_buffer(); sym_assert((int)x.size() == m * ch && (int)x.channels() == ch, "block shape"); for (int i = 0; i < m; i++) { for (int q = 0; q < ch; q++) sym_close(x.at(q, i), kind ? wave(kind, t) : std::sin(PI2 * t), 1e-9, "the waveform at the accumulated phase, the same on every channel"); t += (src ? s.f[n + i] : 5.0) / rate; } n += m; sym_close(o.get_phase(), t, 1e-12, "phase accumulates frequency over rate"); }
    sym_reach("mod");
}
HARNESS(h_msine) { mod<ModSineOscillator>(0); } HARNESS(h_msquare) { mod<ModSquareOscillator>(1); } HARNESS(h_msaw) { mod<ModSawtoothOscillator>(2); } HARNESS(h_mtriangle) { mod<ModTriangleOscillator>(3); }
static int wide() { static const int c[] = {1, 2, 7}; return c[sym_pick("channels", 3)]; } // 7 divides 70000
HARNESS(h_big) { // blocks longer than 16 bits can count
    int kind = sym_pick("kind", 4), ch = wide(), n = 70000 / ch; double rate = 44100, f = 441; SineOscillator a(f, 0); SquareOscillator b(f, 0); SawtoothOscillator c(f, 0); TriangleOscillator d(f, 0); BaseOscillator *all[] = {&a, &b, &c, &d}; BaseOscillator &o = *all[kind]; conf(o, n, ch, rate); AudioBuffer x = run(o); sym_assert((int)x.size() == 70000, "block shape"); int skip = (int)sym_conc(sym_i64("skip", 0, 3)); bool ok = true; for (int i = skip * 25 + 7; i < n; i += 101) { double t = f * i / rate, w = kind == 0 ? std::sin(PI2 * f * i / rate) : wave(kind, t), r = t - std::floor(t); if (kind == 1 && (r < 1e-6 || r > 1 - 1e-6 || std::fabs(r - 0.5) < 1e-6) || kind == 2 && std::fabs(r - 0.5) < 1e-6) continue; for (int q = 0; q < ch; q++) ok &= std::fabs(x.at(q, i) - w) < 1e-6; } sym_assert(ok, "the waveform at its frequency, the same on every channel"); sym_close(o.get_phase(), n, 0, "phase advances by one per frame"); sym_reach("big");
}
HARNESS(h_two) { // oscillators side by side keep their own settings and phases
    SineOscillator a(0, 0), e(0, 0); SquareOscillator b(0, 0); SawtoothOscillator c(0, 0); TriangleOscillator d(0, 0); BaseOscillator *all[] = {&a, &b, &c, &d, &e}; int k[2] = {sym_pick("kind", 4), 4}; if (k[0] && sym_pick("other", 2)) k[1] = 0; double f[2], p[2]; int ch[2], n[2] = {0, 0}; double rate[2] = {64, 80}; for (int q = 0; q < 2; q++) { f[q] = 5.0 * sym_range("freq", 1, 3); all[k[q]]->set_frequency(f[q]); ch[q] = 1 + q; p[q] = 3 * q; all[k[q]]->set_phase(p[q]); }
    for (int r = 0; r < 2; r++) for (int q = 0; q < 2; q++) { int m = sym_range("frames", 1, 2), kind = k[q] % 4; conf(*all[k[q]], m, ch[q], rate[q]); AudioBuffer x = run(*all[k[q]]); sym_assert((int)x.size() == m * ch[q], "block shape"); for (int i = 0; i < m; i++) for (int c = 0; c < ch[q]; c++) { double t = f[q] * (p[q] + n[q] + i) / rate[q]; sym_close(x.at(c, i), kind == 0 ? std::sin(PI2 * t) : wave(kind, t), 1e-9, "the waveform at its frequency, the same on every channel"); } n[q] += m; } sym_reach("two");
}
HARNESS(h_sweep) { // frequency, phase, rate and channels may change between blocks
    int kind = sym_pick("kind", 4), ch; SineOscillator a(1, 0); SquareOscillator b(1, 0); SawtoothOscillator c(1, 0); TriangleOscillator d(1, 0); BaseOscillator *all[] = {&a, &b, &c, &d}; BaseOscillator &o = *all[kind]; double p = 0, f = 1, rate = 64; for (int r = 0; r < 3; r++) { int op = sym_pick("change", 4); if (op == 0) o.set_frequency(f = 5.0 + 2 * r); else if (op == 1) o.set_phase(p = 11 + r); else if (op == 2) rate = r == 0 ? 97 : r == 1 ? 101 : 103; ch = r % 2 + 1; conf(o, 2, ch, rate); AudioBuffer x = run(o); sym_assert((int)x.size() == 2 * ch && (int)x.channels() == ch, "block shape"); for (int i = 0; i < 2; i++) for (int q = 0; q < ch; q++) { double t = f * (p + i) / rate; sym_close(x.at(q, i), kind == 0 ? std::sin(PI2 * t) : wave(kind, t), 1e-9, "the waveform at its frequency, the same on every channel"); } p += 2; sym_close(o.get_phase(), p, 0, "phase advances by one per frame"); } sym_reach("sweep");
}
HARNESS(h_long) { // thousands of periods in, at any fraction of them
    int kind = sym_pick("kind", 4), ch = sym_range("channels", 1, 2), n = 1500, md = sym_pick("modulated", 2); double rate = 44100, fr[] = {523.3, 7040.77, 19.01}, f = fr[sym_pick("freq", 3)]; double p = md ? 1234.567 : 3000000; SineOscillator a(f, p); SquareOscillator b(f, p); SawtoothOscillator c(f, p); TriangleOscillator d(f, p); BaseOscillator *plain[] = {&a, &b, &c, &d}; ModSineOscillator ma(f, p); ModSquareOscillator mb(f, p); ModSawtoothOscillator mc(f, p); ModTriangleOscillator me(f, p); BaseModulatedOscillator *mods[] = {&ma, &mb, &mc, &me}; BaseModule &o = md ? (BaseModule &)*mods[kind] : (BaseModule &)*plain[kind]; SinkModule<> k; k.link(&o); ChainInfo *ci = k.get_chain_info(); ci->channels = ch; ci->sample_rate = rate; ci->buffer_size = n; k.meta_info_sync(); k.meta_process(); AudioBuffer x = k.get_buffer(); bool ok = (int)x.size() == n * ch; int off = (int)sym_conc(sym_i64("offset", 0, 3));
    for (int i = off; i < n; i += 7) { double t = md ? p + f / rate * i : f * (p + i) / rate, r = t - std::floor(t), w = kind == 0 ? std::sin(PI2 * r) : wave(kind, t); if (r < 1e-5 || r > 1 - 1e-5 || std::fabs(r - 0.5) < 1e-5) continue; for (int q = 0; q < ch; q++) ok &= std::fabs(x.at(q, i) - w) < 1e-6; } sym_assert(ok, "the waveform at its frequency, the same on every channel"); sym_reach("long");
}
