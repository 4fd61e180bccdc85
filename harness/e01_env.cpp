// E01: single envelopes - the value at every time, however the signal is cut.
#include "sym.h"
#include "envelope.hpp"
#include <cmath>
static void conf(BaseModule &o, int f, int ch) { ModuleInfo *i = o.get_info(); i->out_buffer = f; i->channels = ch; i->sample_rate = 1000; }
static AudioBuffer run(BaseModule &o, int f, int ch) { conf(o, f, ch); o.meta_process(); AudioBuffer b = o.get_buffer(); sym_assert((int)b.size() == f * ch && (int)b.channels() == ch, "block shape"); return b; }
static const int NPF = 1000;
template <class E> static int setup(E &e, int ch) { e.get_timer()->set_npf(NPF); e.get_timer()->set_channels(ch); static const int at[] = {0, 1, 3, 4999}; int s = at[sym_pick("position", 4)]; e.get_timer()->set_sample(s * ch); return s; }
HARNESS(h_constant) {
    ConstantEnvelope e; int ch = sym_range("channels", 1, 2), s = setup(e, ch); double v = sym_f64("value", -9, 9); e.set_start_value(v); e.set_stop_value(sym_f64("other", -9, 9)); e.set_start_time(sym_i64("t0", 0, 1000000)); e.set_stop_time(sym_i64("t1", -1, 1000000)); for (int b = 0, n = 0; b < 2; b++) { int f = sym_range("frames", 0, 3); AudioBuffer x = run(e, f, ch); for (int i = 0; i < f * ch; i++) sym_close(x.at(i), v, 0, "always the start value"); n += f; sym_assert(e.get_time() == (int64_t)(s + n) * NPF, "time advances with the frames"); } sym_reach("constant");
}
HARNESS(h_setvalue) { // start value for the frames that end by the stop time, stop value after
    SetValue e; int ch = sym_range("channels", 1, 3), s = sym_range("position", 0, 1) * 3; e.get_timer()->set_npf(NPF); e.get_timer()->set_channels(ch); e.get_timer()->set_sample(s * ch); double v = sym_f64("start", -9, 9), w = sym_f64("stop", -9, 9); e.set_start_value(v); e.set_stop_value(w); int64_t t1 = sym_i64("t1", 0, 9000); e.set_stop_time(t1);
    for (int b = 0, n = 0; b < 3; b++) { int f = sym_range("frames", b == 1, 2); AudioBuffer x = run(e, f, ch); for (int i = 0; i < f; i++) for (int c = 0; c < ch; c++) { int64_t end = (int64_t)(s + n + i + 1) * NPF; sym_close(x.at(c, i), end <= t1 ? v : w, 0, "start value until the stop time, stop value after it, on every channel"); } n += f; sym_assert(e.get_time() == (int64_t)(s + n) * NPF, "time advances with the frames"); } sym_reach("setvalue");
}
HARNESS(h_linear) {
    sym_mode(2); LinearRamp e; int ch = sym_range("channels", 1, 2), s = setup(e, ch); double v = sym_f64("start", -9, 9), w = sym_f64("stop", -9, 9); e.set_start_value(v); e.set_stop_value(w); int64_t t0 = 700 * sym_range("t0", -1, 2), t1 = t0 + 4096 * sym_range("length", 1, 3); e.set_start_time(t0); e.set_stop_time(t1); sym_assert(e.time_diff() == t1 - t0, "duration"); sym_close(e.val_diff(), w - v, 1e-12, "difference");
    for (int b = 0, n = 0; b < 2; b++) { int f = sym_range("frames", 0, 3); AudioBuffer x = run(e, f, ch); for (int i = 0; i < f; i++) for (int c = 0; c < ch; c++) sym_close(x.at(c, i), v + (w - v) * ((double)((int64_t)(s + n + i) * NPF - t0) / (double)(t1 - t0)), 1e-6, "linear in time from the start value to the stop value"); n += f; sym_assert(e.get_time() == (int64_t)(s + n) * NPF, "time advances with the frames"); } sym_reach("linear");
}
HARNESS(h_exponential) {
    static const double vs[] = {1, 0.5, 2, 0.001, 100}; ExponentialRamp e; int ch = sym_range("channels", 1, 2); double sign = 1 - 2 * sym_pick("negative", 2), v = sign * vs[sym_pick("start", 5)], w = sign * vs[sym_pick("stop", 5)]; e.set_start_value(v); e.set_stop_value(w); sym_close(e.val_divide(), w / v, 1e-9, "ratio"); int64_t t1 = 4096 * sym_range("length", 1, 3), t0 = 500 * sym_pick("t0", 2); t1 += t0; e.set_start_time(t0); e.set_stop_time(t1); e.get_timer()->set_npf(NPF); e.get_timer()->set_channels(ch); int s = sym_range("position", 0, 5); e.get_timer()->set_sample(s * ch);
    for (int b = 0, n = 0; b < 2; b++) { int f = sym_range("frames", 0, 2); AudioBuffer x = run(e, f, ch); for (int i = 0; i < f; i++) for (int c = 0; c < ch; c++) { double r = std::exp(std::log(w / v) * (double)((s + n + i) * NPF - t0) / (double)(t1 - t0)); sym_close(x.at(c, i) / (v * r), 1, 1e-9, "exponential in time from the start value to the stop value"); } n += f; } sym_reach("exponential");
}
HARNESS(h_duration) { // starts when it is started and lasts its duration
    sym_mode(2); DurationEnvelope d; int kind = sym_pick("kind", 2), ch = sym_range("channels", 1, 2); SetValue a; LinearRamp l; BaseEnvelope &e = kind ? (BaseEnvelope &)a : l; d.set_envelope(&e); sym_assert(d.get_envelope() == &e, "managed envelope"); int64_t len = kind ? sym_i64("duration", 1, 5000) : 2048; d.set_duration(len); sym_assert(d.get_duration() == len, "duration"); double v = sym_f64("start", -9, 9), w = sym_f64("stop", -9, 9); e.set_start_value(v); e.set_stop_value(w); int s = setup(d, ch); *e.get_timer() = *d.get_timer(); int64_t t0 = d.get_time(); d.start(); sym_assert(e.get_start_time() == t0 && e.get_stop_time() == t0 + len, "the envelope runs from now for its duration");
    for (int b = 0, n = 0; b < 2; b++) { int f = sym_range("frames", 0, 3); conf(e, f, ch); d.meta_process(); AudioBuffer x = d.get_buffer(); sym_assert((int)x.size() == f * ch, "block shape"); for (int i = 0; i < f * ch; i++) { int k = n + i / ch; sym_close(x.at(i), kind ? ((int64_t)(k + 1) * NPF <= len ? v : w) : v + (w - v) * (double)(k * NPF) / (double)len, 1e-6, "the managed envelope's values"); } n += f; } (void)s; sym_reach("duration");
}
HARNESS(h_base) { ConstantEnvelope e; int64_t npf = sym_i64("npf", 1, 100000), t1 = sym_i64("stop", 0, 1000000000); int s = (int)sym_i64("sample", 0, 5000); e.get_timer()->set_npf(npf); e.get_timer()->set_sample(s); e.set_stop_time(t1); int64_t t = e.get_time(); sym_assert(t == s * npf, "time"); if (t1 >= t) { npf = sym_conc(e.get_timer()->get_npf() % 3) + 20; e.get_timer()->set_npf(npf); t = s * npf; sym_assume(t1 >= t); int64_t r = e.remaining_samples(); sym_assert(r >= 0 && r * npf <= t1 - t && (r + 1) * npf > t1 - t, "samples that fit before the stop time"); } sym_assert(e.get_time_inc() == t && e.get_timer()->get_sample() == s + 1, "time is returned before it advances"); sym_reach("base"); }
HARNESS(h_big) { // more frames than 16 bits count
    sym_mode(2); int kind = sym_pick("kind", 4), ch = 1 + sym_pick("channels", 3) * 3, f = 70000, s = 3; ConstantEnvelope c; SetValue a; LinearRamp l; ExponentialRamp x; BaseEnvelope *all[] = {&c, &a, &l, &x}; BaseEnvelope &e = *all[kind]; e.get_timer()->set_npf(NPF); e.get_timer()->set_channels(ch); e.get_timer()->set_sample(s * ch); e.set_start_value(2); e.set_stop_value(10); int64_t t0 = 3000, t1 = 66000000 + 3000; e.set_start_time(t0); e.set_stop_time(t1); AudioBuffer o = run(e, f, ch); int i = sym_pick("frame", 4); i = i == 0 ? 65990 : i == 1 ? 40000 : i == 2 ? 69990 : 300; int cc = ch - 1 > 0 ? (ch - 1) * sym_pick("channel", 2) : 0; int64_t t = (int64_t)(s + i) * NPF; double q = (double)(t - t0) / (double)(t1 - t0), w = kind == 0 ? 2 : kind == 1 ? (t + NPF <= t1 ? 2 : 10) : kind == 2 ? 2 + 8 * q : 2 * std::exp(std::log(5.0) * q); sym_close(o.at(cc, i), w, 1e-6, "the value at a late frame"); sym_assert(e.get_time() == (int64_t)(s + f) * NPF, "time advances with the frames"); sym_reach("big");
}
HARNESS(h_two) { // envelopes side by side, and again after other values
    sym_mode(2); ConstantEnvelope c[2]; SetValue s[2]; LinearRamp l[2]; ExponentialRamp x[2]; int kind = sym_pick("kind", 4); double v[2], w[2]; int64_t t1[2]; int n[2] = {0, 0}; BaseEnvelope *e[2]; for (int k = 0; k < 2; k++) { e[k] = kind == 0 ? (BaseEnvelope *)&c[k] : kind == 1 ? (BaseEnvelope *)&s[k] : kind == 2 ? (BaseEnvelope *)&l[k] : (BaseEnvelope *)&x[k]; e[k]->get_timer()->set_npf(NPF); e[k]->get_timer()->set_channels(1 + k); }
    for (int r = 0; r < 3; r++) for (int k = 0; k < 2; k++) { if (r == 0 || sym_pick("change", 2)) { v[k] = kind == 3 ? 1.0 + r : sym_f64("start", 1, 9); w[k] = kind == 3 ? 4.0 - k : sym_f64("stop", 1, 9); t1[k] = 2048 * (1 + sym_pick("length", 2)); e[k]->set_start_value(v[k]); e[k]->set_stop_value(w[k]); e[k]->set_start_time(0); e[k]->set_stop_time(t1[k]); } AudioBuffer b = run(*e[k], 1 + k, 1 + k); for (int i = 0; i < 1 + k; i++) { int64_t t = (int64_t)(n[k] + i) * NPF; double q = (double)t / (double)t1[k], y = kind == 0 ? v[k] : kind == 1 ? (t + NPF <= t1[k] ? v[k] : w[k]) : kind == 2 ? v[k] + (w[k] - v[k]) * q : v[k] * std::exp(std::log(w[k] / v[k]) * q); for (int c = 0; c < 1 + k; c++) sym_close(b.at(c, i), y, 1e-6, "the value of its own settings"); } n[k] += 1 + k; } sym_reach("two");
}
HARNESS(h_late) { // minutes into the signal, at the usual rates
    sym_mode(2); static const int rates[] = {44100, 8000, 192000}; int64_t npf = 1000000000LL / rates[sym_pick("rate", 3)]; int kind = sym_pick("kind", 4), ch = sym_range("channels", 1, 2); static const int at[] = {130000, 2000000, 60000000}; int s = at[sym_pick("position", 3)]; SetValue a; LinearRamp l; ExponentialRamp x; ConstantEnvelope c; BaseEnvelope *all[] = {&c, &a, &l, &x}; BaseEnvelope &e = *all[kind]; e.get_timer()->set_npf(npf); e.get_timer()->set_channels(ch); e.get_timer()->set_sample(s * ch); double v = kind == 3 ? 2 : sym_f64("start", -9, 9), w = kind == 3 ? 10 : sym_f64("stop", -9, 9); e.set_start_value(v); e.set_stop_value(w); int64_t t0 = (int64_t)(s / 2) * npf, t1 = kind == 1 && sym_pick("near", 2) ? (int64_t)(s + 2) * npf : sym_pick("far", 2) ? ((int64_t)1 << 33) * npf + 1 : (int64_t)(s + s) * npf; e.set_start_time(t0); e.set_stop_time(t1); sym_assert(e.get_start_time() == t0 && e.get_stop_time() == t1 && e.time_diff() == t1 - t0 && e.get_time() == (int64_t)s * npf && e.remaining_samples() == (t1 - (int64_t)s * npf) / npf, "times");
    AudioBuffer o = run(e, 3, ch); for (int i = 0; i < 3; i++) for (int j = 0; j < ch; j++) { int64_t t = (int64_t)(s + i) * npf; double q = (double)(t - t0) / (double)(t1 - t0), y = kind == 0 ? v : kind == 1 ? (t + npf <= t1 ? v : w) : kind == 2 ? v + (w - v) * q : 2 * std::exp(std::log(5.0) * q); sym_close(o.at(j, i), y, 1e-6, "the value at a late time"); } sym_assert(e.get_time() == (int64_t)(s + 3) * npf, "time advances with the frames"); sym_reach("late");
}
HARNESS(h_wide) { // many channels
    sym_mode(2); static const int chs[] = {5, 8, 9, 16, 33}; int kind = sym_pick("kind", 4), ch = chs[sym_pick("channels", 5)], f = 4, s = sym_pick("position", 2) * 3; ConstantEnvelope c; SetValue a; LinearRamp l; ExponentialRamp x; BaseEnvelope *all[] = {&c, &a, &l, &x}; BaseEnvelope &e = *all[kind]; e.get_timer()->set_npf(NPF); e.get_timer()->set_channels(ch); e.get_timer()->set_sample(s * ch); double v = kind == 3 ? 2 : sym_f64("start", -9, 9), w = kind == 3 ? 10 : sym_f64("stop", -9, 9); e.set_start_value(v); e.set_stop_value(w); int64_t t1 = 4096; e.set_start_time(0); e.set_stop_time(t1);
    for (int b = 0; b < 2; b++) { AudioBuffer o = run(e, f, ch); for (int i = 0; i < f; i++) for (int k = 0; k < ch; k++) { int64_t t = (int64_t)(s + b * f + i) * NPF; double q = (double)t / 4096; sym_close(o.at(k, i), kind == 0 ? v : kind == 1 ? (t + NPF <= t1 ? v : w) : kind == 2 ? v + (w - v) * q : 2 * std::exp(std::log(5.0) * q), 1e-6, "the value at the time, on every channel"); } sym_assert(e.get_time() == (int64_t)(s + (b + 1) * f) * NPF, "time advances with the frames"); } sym_reach("wide");
}
