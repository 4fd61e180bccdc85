// E03: ADSR envelope - attack, decay, sustain, and the release from wherever the key is let go.
#include "sym.h"
#include "envelope.hpp"
#include "sink_module.hpp"
static const int NPF = 1024;
static SinkModule<> K;
struct Adsr : ADSREnvelope { int dones = 0; using ADSREnvelope::ADSREnvelope; void done() override { dones++; ADSREnvelope::done(); } };
static AudioBuffer run(BaseModule &o, int f, int ch) { ModuleInfo *i = o.get_info(); i->out_buffer = f; i->channels = ch; i->sample_rate = 1000; o.meta_process(); AudioBuffer b = o.get_buffer(); sym_assert((int)b.size() == f * ch && (int)b.channels() == ch, "block shape"); return b; }
__attribute__((noinline)) static double ramp(double v, double w, int64_t t, int64_t len) { return v + (w - v) * ((double)t / (double)len); }
static double held(int64_t T, int64_t a, int64_t d, double s) { if (T < a) return ramp(0, 1, T, a); if (T < a + d) return ramp(1, s, T - a, d); return s; }
static double at(int64_t T, int64_t F, int64_t a, int64_t d, double s, int64_t r) { if (F < 0 || T < F) return held(T, a, d, s); if (T < F + r) return ramp(held(F, a, d, s), 0, T - F, r); return 0; }
static const int64_t A[] = {0, 2048, 1500, 700}, D[] = {0, 1024, 2700}, R[] = {0, 2048, 1800};
static void play(Adsr &e, int ch, int &n, int t0, int frames, int F, int64_t a, int64_t d, double s, int64_t r) { while (frames > 0) { int f = frames > 3 ? 3 : frames; AudioBuffer b = run(e, f, ch); for (int i = 0; i < f; i++) { double v = at((int64_t)(n - t0 + i) * NPF, F < 0 ? -1 : (int64_t)(F - t0) * NPF, a, d, s, r); for (int c = 0; c < ch; c++) sym_close(b.at(c, i), v, 1e-9, F < 0 ? "attack, decay and sustain" : "release to zero from the value at that time"); } n += f; frames -= f; } sym_assert(e.get_time() == (int64_t)n * NPF, "time advances with the frames"); }
HARNESS(h_adsr) {
    sym_mode(2); int ch = sym_range("channels", 1, 2); int64_t a = A[sym_pick("attack", 4)], d = D[sym_pick("decay", 3)], r = R[sym_pick("release", 3)]; double s = sym_f64("sustain", 0, 1); Adsr e(a, d, s, r); sym_assert(e.get_attack() == a && e.get_decay() == d && e.get_release() == r, "stage times"); e.set_chain_info(K.get_chain_info()); e.get_timer()->set_npf(NPF); e.get_timer()->set_channels(ch); e.start(); int n = 0, F = sym_range("held", 0, 7); play(e, ch, n, 0, F, -1, a, d, s, r); sym_assert(e.dones == 0, "not done while the key is held"); e.finish(); sym_assert(e.dones == 0 || r == 0, "not done before the release was played"); int need = (int)((r + NPF - 1) / NPF); for (int k = 0; k < 4; k++) { play(e, ch, n, 0, 1, F, a, d, s, r); sym_assert(e.dones == (n - F >= need ? 1 : 0), "reported done once, when the release is complete"); } sym_reach("adsr");
}
HARNESS(h_later) { // a chain started when its timer already runs plays from then
    sym_mode(2); int ch = 2, t0 = sym_range("position", 0, 3); int64_t a = A[sym_pick("attack", 4)], d = D[sym_pick("decay", 3)], r = R[1]; double s = sym_f64("sustain", 0, 1); Adsr e; e.set_attack(a); e.set_decay(d); e.set_sustain(s); e.set_release(r); sym_close(e.get_sustain(), s, 0, "sustain"); e.set_chain_info(K.get_chain_info()); e.get_timer()->set_npf(NPF); e.get_timer()->set_channels(ch); e.get_timer()->set_sample(t0 * ch); e.start(); int n = t0, F = sym_range("held", 1, 5); play(e, ch, n, t0, F, -1, a, d, s, r); e.finish(); play(e, ch, n, t0, 3, t0 + F, a, d, s, r); sym_assert(e.dones == 1, "reported done once"); sym_reach("later");
}
HARNESS(h_again) { // pressed again: during the release, or after it
    sym_mode(2); int ch = 1; int64_t a = A[sym_pick("attack", 4)], d = D[sym_pick("decay", 3)], r = R[sym_pick("release", 3)]; double s = sym_f64("sustain", 0, 1); Adsr e(a, d, s, r); e.set_chain_info(K.get_chain_info()); e.get_timer()->set_npf(NPF); e.get_timer()->set_channels(ch); int n = 0; for (int k = 0; k < 2; k++) { int t0 = n; e.start(); int F = sym_range(k ? "held1" : "held0", 1, 4); play(e, ch, n, t0, F, -1, a, d, s, r); e.finish(); play(e, ch, n, t0, k ? 2 : sym_range("release0", 0, 3), t0 + F, a, d, s, r); } sym_reach("again");
}
HARNESS(h_twice) { // let go again during the release: it goes on from the value at that time
    sym_mode(2); int ch = 1; int64_t a = A[sym_pick("attack", 4)], d = D[sym_pick("decay", 3)], r = R[1 + sym_pick("release", 2)]; double s = sym_f64("sustain", 0, 1); Adsr e(a, d, s, r); e.set_chain_info(K.get_chain_info()); e.get_timer()->set_npf(NPF); e.get_timer()->set_channels(ch); e.start(); int n = 0, F = sym_range("held", 1, 4); play(e, ch, n, 0, F, -1, a, d, s, r); e.finish(); play(e, ch, n, 0, 1, F, a, d, s, r); double v = at((int64_t)n * NPF, (int64_t)F * NPF, a, d, s, r); e.finish(); AudioBuffer b = run(e, 3, ch); for (int i = 0; i < 3; i++) sym_close(b.at(i), i * NPF < r ? ramp(v, 0, i * NPF, r) : 0, 1e-9, "a release that is let go again goes on from its value"); sym_reach("twice");
}
HARNESS(h_side) { // envelopes side by side keep their own stages
    sym_mode(2); Adsr e[2]; int n[2] = {0, 0}; int64_t a[2], d[2]; double s[2]; for (int k = 0; k < 2; k++) { a[k] = A[sym_pick("attack", 4)]; d[k] = D[sym_pick("decay", 3)]; s[k] = sym_f64(k ? "sustain1" : "sustain0", 0, 1); e[k].set_attack(a[k]); e[k].set_decay(d[k]); e[k].set_sustain(s[k]); e[k].set_release(R[1]); e[k].set_chain_info(K.get_chain_info()); e[k].get_timer()->set_npf(NPF); e[k].get_timer()->set_channels(1); e[k].start(); play(e[k], 1, n[k], 0, 1, -1, a[k], d[k], s[k], R[1]); } for (int k = 0; k < 2; k++) play(e[k], 1, n[k], 0, 3, -1, a[k], d[k], s[k], R[1]); e[0].finish(); for (int k = 0; k < 2; k++) play(e[k], 1, n[k], 0, 2, k ? -1 : 4, a[k], d[k], s[k], R[1]); sym_reach("side");
}
HARNESS(h_rounds) { // pressed and let go many times, and hours into the signal
    sym_mode(2); int ch = sym_range("channels", 1, 2); int64_t a = A[sym_pick("attack", 4)], d = D[1 + sym_pick("decay", 2)], r = R[1]; double s = sym_f64("sustain", 0, 1); Adsr e(a, d, s, r); e.set_chain_info(K.get_chain_info()); e.get_timer()->set_npf(NPF); e.get_timer()->set_channels(ch); int n = sym_pick("hours", 2) ? 500000000 : 0; e.get_timer()->set_sample(n * ch); for (int k = 0; k < 6; k++) { int t0 = n, F = 1 + (k * 2 + 3) % 5; e.start(); play(e, ch, n, t0, F, -1, a, d, s, r); e.finish(); play(e, ch, n, t0, 1 + k % 3, t0 + F, a, d, s, r); } sym_reach("rounds");
}
