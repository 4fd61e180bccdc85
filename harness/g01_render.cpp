// G01: a whole chain renders the composition of its modules, whatever its block size, and a rendered file plays back as it was rendered.
#include "sym.h"
#include "amp_module.hpp"
#include "envelope.hpp"
#define ChainTimer ChainTimer2 // chrono.hpp has no include guard: the second copy belongs to LatencyModule, which is not used here
#include "meta_audio.hpp"
#undef ChainTimer
#include "filter_module.hpp"
#include "fund_oscillator.hpp"
#include "meta_audio.hpp"
#include "module_mixer.hpp"
#include "sink_module.hpp"
#include "io/wav.hpp"
#include <cmath>
typedef std::vector<double> D;
static double square(double t) { double r = t - std::floor(t); return r < 0.5 ? 1 : -1; }
static double saw(double t) { double s = t + 0.5; return 2 * (s - std::floor(s)) - 1; }
struct Ramp : SourceModule { const D *x = nullptr; int n = 0; void process() override { reserve(); int ch = (int)buff.channels(), m = (int)buff.size() / ch; for (int i = 0; i < m; i++, n++) for (int c = 0; c < ch; c++) buff.at(c, i) = n < (int)x->size() ? (*x)[n] : 0; } };
struct Set { double gain, bias, amp, rate; int ch; D h, x; };
static Set pick() { Set s; s.ch = sym_range("channels", 1, 3); s.rate = 64; s.gain = sym_f64("gain", -4, 4); s.bias = sym_f64i("bias", -4, 4); s.amp = sym_f64i("amp", -4, 4); s.h = {1, 2, -1}; s.x.resize(6); for (double &v : s.x) v = sym_f64("x", -9, 9); return s; }
static double want(const Set &s, int n, bool filtered) { // what the chain plays at frame n
    auto dry = [&](int k) { return k < 0 ? 0.0 : s.gain * square(9.0 * k / s.rate) + (s.amp * saw(5.0 * k / s.rate) + s.bias) + (k < (int)s.x.size() ? s.x[k] : 0.0); };
    if (!filtered) return dry(n); double y = 0; for (int j = 0; j < 3; j++) y += s.h[j] * dry(n - j); return y;
}
struct Rig { // sink <- [uniform <-] [filter <-] mixer <- { gain <- square, bias <- amp <- saw, ramp }
    SquareOscillator a{9.0}; SawtoothOscillator b{5.0}; Ramp r; AmplitudeScale<> g, p; AmplitudeAdd<> q; ModuleMixDown m; BaseConvFilter<> f; UniformBuffer u; SinkModule<> k;
    Rig(const Set &s, int block, int filtered, int uniform) {
        g.set_value(s.gain); p.set_value(s.amp); q.set_value(s.bias); r.x = &s.x; BaseModule *end = &k; if (uniform) end = end->link(&u); if (filtered) { auto kb = create_buffer(3, 1); for (int i = 0; i < 3; i++) kb->at(i) = s.h[i]; f.set_kernel(std::move(kb)); end = end->link(&f); } end->link(&m); m.link(&g)->link(&a); m.link(&q)->link(&p)->link(&b); m.link(&r);
        ChainInfo *c = k.get_chain_info(); c->buffer_size = block; c->channels = s.ch; c->sample_rate = s.rate; k.meta_info_sync(); k.meta_start();
    }
    AudioBuffer next() { k.meta_process(); return k.get_buffer(); }
    void resize(int block) { k.get_chain_info()->buffer_size = block; k.meta_info_sync(); }
};
HARNESS(h_render) { // any block size, changed while the chain runs
    Set s = pick(); int filtered = sym_pick("filter", 2), size = sym_range("block", 1, 4), n = 0; Rig r(s, size, filtered, 0);
    for (int b = 0; b < 3; b++) { if (b) r.resize(size = sym_range("next", 1, 3)); AudioBuffer o = r.next(); sym_assert((int)o.size() == size * s.ch && (int)o.channels() == s.ch, "block shape"); sym_close(o.get_samplerate(), s.rate, 0, "block rate"); for (int i = 0; i < size; i++) for (int c = 0; c < s.ch; c++) sym_close(o.at(c, i), want(s, n + i, filtered), 1e-9, "the composition of the modules, on every channel"); n += size; }
    r.k.meta_stop(); sym_assert(r.a.get_state() == BaseModule::State::Stopped && r.b.get_state() == BaseModule::State::Stopped && r.r.get_state() == BaseModule::State::Stopped, "stopping reaches every source"); sym_reach("render");
}
HARNESS(h_uniform) { // producer and consumer working in different block sizes
    Set s = pick(); int filtered = sym_pick("filter", 2), back = sym_range("produced", 1, 3), size = sym_range("block", 1, 4); Rig r(s, size, filtered, 1); 
    BaseModule *all[] = {&r.a, &r.b, &r.r, &r.g, &r.p, &r.q, &r.m, &r.f}; for (BaseModule *x : all) x->get_info()->out_buffer = x->get_info()->in_buffer = back;
    for (int b = 0, n = 0; b < 3; b++, n += size) { AudioBuffer o = r.next(); sym_assert((int)o.size() == size * s.ch && (int)o.channels() == s.ch, "block shape"); for (int i = 0; i < size; i++) for (int c = 0; c < s.ch; c++) sym_close(o.at(c, i), want(s, n + i, filtered), 1e-9, "the composition of the modules, on every channel"); }
    sym_reach("uniform");
}
HARNESS(h_file) { // rendered to a file and played back through another chain
    sym_mode(2); int ch = sym_range("channels", 1, 2), bits = sym_pick("bits", 2) ? 16 : 8, size = sym_range("block", 1, 3), n = 0; D x(6); for (int i = 0; i < 6; i++) x[i] = i < 2 ? sym_f64("x", -1, 1) : (i * 37 % 16 - 8) / 8.0;
    CharOStream out; WaveWriter w(&out); { Ramp r; r.x = &x; AmplitudeScale<> g(0.5); SinkModule<> k; k.link(&g)->link(&r); ChainInfo *c = k.get_chain_info(); c->buffer_size = size; c->channels = ch; c->sample_rate = 8000; k.meta_info_sync(); k.meta_start(); w.set_channels(ch); w.set_samplerate(8000); w.set_bits_per_sample(bits); w.start(); for (; n < 6; n += size) { k.meta_process(); w.write_data(std::make_unique<AudioBuffer>(k.get_buffer())); } w.stop(); }
    CharIStream in; in.get_array() = out.get_array(); WaveSource src(&in); AmplitudeScale<> g(2.0); SinkModule<> k; k.link(&g)->link(&src); int back = sym_range("read", 1, 4); k.get_chain_info()->buffer_size = back; k.get_chain_info()->channels = ch; k.get_chain_info()->sample_rate = 8000; k.meta_info_sync(); k.meta_start(); int got = 0;
    while (got < n + 2) { k.meta_process(); AudioBuffer o = k.get_buffer(); sym_assert((int)o.size() == back * ch && (int)o.channels() == ch, "block shape"); sym_close(o.get_samplerate(), 8000, 0, "block rate"); for (int i = 0; i < back; i++, got++) for (int c = 0; c < ch; c++) { double v = got < 6 ? x[got] * 0.5 : 0; double y = got < n ? 2.0 * (bits == 16 ? int16_mf(mf_int16(v)) : uchar_mf(mf_uchar(v))) : 0.0; sym_close(o.at(c, i), y, 1e-9, "the file plays back what was rendered"); } }
    sym_reach("file");
}
HARNESS(h_param) { // a frequency played by an envelope, mixed with a vibrato of its own chain, over several periods
    int ch = sym_range("channels", 1, 2), size = sym_range("block", 1, 3), per = sym_range("periods", 1, 2), n = 0, kind = sym_pick("kind", 3); double rate = 64, gain = sym_f64("gain", -4, 4), bias = sym_f64i("bias", -8, 8); int64_t npf = 15625000; ChainEnvelope e; SetValue s; LinearRamp l; s.set_start_value(4); s.set_stop_value(kind ? 8 : sym_f64i("step", 0, 12)); s.set_start_time(0); s.set_stop_time(2 * npf); l.set_start_value(16); l.set_stop_value(0); l.set_start_time(3 * npf); l.set_stop_time(7 * npf); e.add_envelope(&s); e.add_envelope(&l); e.get_timer()->set_npf(npf); e.get_timer()->set_channels(ch); e.start();
    SineOscillator v{8.0}; AmplitudeScale<> depth(kind ? 0.0 : 2.0); AmplitudeAdd<> off(kind ? 1.0 : bias); ModuleMixDown m; ModSineOscillator o1{1.0}; ModSawtoothOscillator o2{1.0}; ModSquareOscillator o3{1.0}; BaseModulatedOscillator *os[] = {&o1, &o2, &o3}; BaseModulatedOscillator &o = *os[kind]; o.get_frequency()->link(&off)->link(&m); m.link(&e); m.link(&depth)->link(&v); AmplitudeScale<> g(gain); Counter c; SinkModule<> k; PeriodSink p; p.set_period(per); p.link(&c)->link(&g)->link(&o); ChainInfo *i = p.get_chain_info(); i->channels = ch; i->sample_rate = rate; i->buffer_size = size; p.meta_info_sync(); p.meta_start(); double t = 0;
    for (int b = 0; b < 4; b++) { p.meta_process(); sym_assert(c.processed() == (b + 1) * per && c.samples() == (b + 1) * per * size * ch, "blocks and samples of every period are counted"); AudioBuffer x = p.get_buffer(); sym_assert((int)x.size() == size * ch && (int)x.channels() == ch, "block shape"); for (int q = 0; q < per * size; q++, n++) { double w = kind == 0 ? std::sin(2 * 3.14159265358979323846 * t) : kind == 1 ? saw(t) : square(t), ev = n < 2 ? 4 : n < 3 ? s.get_stop_value() : n < 7 ? 16 - 4 * (n - 3) : 0; if (q >= (per - 1) * size) for (int j = 0; j < ch; j++) sym_close(x.at(j, q - (per - 1) * size), gain * w, 1e-6, "the waveform at the accumulated frequency of its parameter, on every channel"); t += (ev + (kind ? 1.0 : bias + 2 * std::sin(2 * 3.14159265358979323846 * 8.0 * n / rate))) / rate; } }
    p.meta_stop(); sym_assert(e.get_state() == BaseModule::State::Stopped && v.get_state() == BaseModule::State::Stopped && m.get_state() == BaseModule::State::Stopped, "stopping reaches every module of the parameter"); (void)k; sym_reach("param");
}
