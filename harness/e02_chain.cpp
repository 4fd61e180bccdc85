// E02: chained envelopes - the value at every time, whichever envelope is due.
#include "sym.h"
#include "envelope.hpp"
static const int NPF = 1024;
static AudioBuffer run(BaseModule &o, int f, int ch) { ModuleInfo *i = o.get_info(); i->out_buffer = f; i->channels = ch; i->sample_rate = 1000; o.meta_process(); AudioBuffer b = o.get_buffer(); sym_assert((int)b.size() == f * ch && (int)b.channels() == ch, "block shape"); return b; }
struct Env { int kind; int64_t s, t; double v, w; BaseEnvelope *e; };   // kind 0: constant, 1: jump, 2: linear
static ConstantEnvelope C[4]; static SetValue S[4]; static LinearRamp L[4];
static void make(Env &x, int k) { x.e = x.kind == 0 ? (BaseEnvelope *)&C[k] : x.kind == 1 ? (BaseEnvelope *)&S[k] : &L[k]; x.e->set_start_time(x.s); x.e->set_stop_time(x.t); x.e->set_start_value(x.v); x.e->set_stop_value(x.w); }
static bool yes(bool c) { return sym_conc(c) != 0; }
// The value due at frame n: first envelope that is not over yet, the value held before it if it has not started, the last value after all.
template <bool LIN> static double due(const Env *x, int k, int64_t n, double first) {
    int64_t T = n * NPF; double held = first;
    for (int i = 0; i < k; i++) {
        if (yes(T < x[i].s) && (i == 0 || yes(x[i - 1].t < x[i].s))) return held;
        if (yes(x[i].t < 0) || yes(T < x[i].t)) { if constexpr (LIN) { if (x[i].kind == 2) return x[i].v + (x[i].w - x[i].v) * ((double)(T - x[i].s) / (double)(x[i].t - x[i].s)); } return x[i].kind == 0 || yes(T + NPF <= x[i].t) ? x[i].v : x[i].w; }
        held = x[i].w;
    } return held;
}
static void conf(ChainEnvelope &c, int ch, double first) { c.get_timer()->set_npf(NPF); c.get_timer()->set_channels(ch); c.set_start_value(first); }
template <bool LIN = false> static void blocks(ChainEnvelope &c, const Env *x, int k, double first, int ch, int &n, int total, int cut) {
    while (n < total) { int f = n == 0 ? cut : total - n < 3 ? total - n : 3; AudioBuffer b = run(c, f, ch); for (int i = 0; i < f; i++) { double d = due<LIN>(x, k, n + i, first); for (int j = 0; j < ch; j++) sym_close(b.at(j, i), d, 1e-6, "the value of the envelope that is due, on every channel"); } n += f; sym_assert(c.get_time() == (int64_t)n * NPF, "time advances with the frames"); }
}
HARNESS(h_one) { // any times
    ChainEnvelope c; int ch = sym_range("channels", 1, 2); double first = sym_f64("first", -9, 9); conf(c, ch, first); Env x{sym_pick("kind", 2), sym_i64("s", 0, 5000), 0, sym_f64("v", -9, 9), sym_f64("w", -9, 9), nullptr}; x.t = sym_pick("forever", 2) ? -1 : sym_i64("t", 0, 6000); if (x.t >= 0) sym_assume(x.t >= x.s); make(x, 0); c.add_envelope(x.e); c.start(); int n = 0; blocks(c, &x, 1, first, ch, n, 6, sym_range("cut", 1, 3)); sym_reach("one");
}
static void two(int kind) {
    ChainEnvelope c; int ch = sym_range("channels", 1, 2); double first = sym_f64("first", -9, 9); conf(c, ch, first); Env x[2]; x[0] = {1, 0, sym_i64("t0", 0, 2100), sym_f64("v0", -9, 9), sym_f64("w0", -9, 9), nullptr}; x[1] = {kind, sym_i64("s1", 0, 3100), sym_i64("t1", 0, 4100), sym_f64("v1", -9, 9), sym_f64("w1", -9, 9), nullptr}; sym_assume(x[1].t >= x[1].s && x[1].t >= x[0].t); for (int i = 0; i < 2; i++) { make(x[i], i); c.add_envelope(x[i].e); } c.start(); int n = 0; blocks(c, x, 2, first, ch, n, 5, sym_range("cut", 1, 3)); sym_reach("two");
}
HARNESS(h_two_held) { two(0); }
HARNESS(h_two_jump) { two(1); }
HARNESS(h_ramps) { // ramps of any values with gaps, at fixed sets of times
    sym_mode(2); static const int64_t at[][6] = {{0, 2000, 2000, 5000, 5000, 6000}, {500, 1700, 2300, 4100, 4100, 5500}, {1000, 1400, 1400, 1800, 4000, 6000}, {0, 3000, 3999, 4001, 4500, 4600}, {0, 700, 700, 1300, 1300, 2600}};
    ChainEnvelope c; int ch = sym_range("channels", 1, 2), p = sym_pick("times", 5); double first = sym_f64("first", -9, 9); conf(c, ch, first); Env x[3]; static const char *vn[] = {"v0", "v1", "v2"}, *wn[] = {"w0", "w1", "w2"}; for (int i = 0; i < 3; i++) { x[i] = {i == 1 ? sym_pick("kind", 3) : 2, at[p][2 * i], at[p][2 * i + 1], sym_f64(vn[i], -9, 9), sym_f64(wn[i], -9, 9), nullptr}; make(x[i], i); c.add_envelope(x[i].e); } c.start(); int n = 0; blocks<true>(c, x, 3, first, ch, n, 7, sym_range("cut", 1, 7)); sym_reach("ramps");
}
HARNESS(h_empty) { ChainEnvelope c; int ch = sym_range("channels", 1, 2); double first = sym_f64("first", -9, 9); conf(c, ch, first); c.start(); int n = 0; blocks(c, nullptr, 0, first, ch, n, 4, sym_range("cut", 1, 3)); sym_reach("empty"); }
static void later(int kind) { // an envelope added while the chain plays: held until it starts, then played
    ChainEnvelope c; int ch = sym_range("channels", 1, 2); double first = 0; conf(c, ch, first); Env x[2]; x[0] = {1, 0, sym_i64("t0", 0, 2100), sym_f64("v0", -9, 9), sym_f64("w0", -9, 9), nullptr}; make(x[0], 0); c.add_envelope(x[0].e); c.start(); int n = 0, a = sym_range("before", 1, 2); AudioBuffer b = run(c, a, ch); for (int i = 0; i < a; i++) sym_close(b.at(ch - 1, i), due<false>(x, 1, i, first), 1e-6, "the value before the addition"); n = a;
    x[1] = {kind, sym_i64("s1", 0, 4100), sym_i64("t1", 0, 5000), sym_f64("v1", -9, 9), sym_f64("w1", -9, 9), nullptr}; sym_assume(x[1].s >= (int64_t)n * NPF && x[1].s >= x[0].t && x[1].t >= x[1].s); make(x[1], 1); c.add_envelope(x[1].e); blocks(c, x, 2, first, ch, n, 5, 0); sym_reach("later");
}
HARNESS(h_later_held) { later(0); }
HARNESS(h_later_jump) { later(1); }
HARNESS(h_manual) { // an envelope without end plays until the user moves on
    ChainEnvelope c; int ch = sym_range("channels", 1, 2); double first = 0; conf(c, ch, first); Env x[2]; x[0] = {0, 0, -1, sym_f64("v0", -9, 9), sym_f64("w0", -9, 9), nullptr}; int a = sym_range("before", 1, 3); x[1] = {1, sym_i64("s1", 0, 2000), sym_i64("t1", 0, 6000), sym_f64("v1", -9, 9), sym_f64("w1", -9, 9), nullptr}; sym_assume(x[1].t >= x[1].s); for (int i = 0; i < 2; i++) { make(x[i], i); c.add_envelope(x[i].e); } c.start(); int n = 0; for (int k = 0; k < 2; k++) { AudioBuffer b = run(c, a, ch); for (int i = 0; i < a * ch; i++) sym_close(b.at(i), x[0].v, 0, "an envelope without end plays forever"); n += a; } sym_assert(c.get_current() == x[0].e, "current envelope"); c.next_envelope(); int steps = 0; while (c.get_current() != x[1].e && steps++ < 2) { sym_assert(c.get_current()->get_start_value() == x[0].w, "the value held between envelopes"); if (x[1].s > (int64_t)n * NPF) break; c.next_envelope(); }
    AudioBuffer b = run(c, 3, ch); for (int i = 0; i < 3; i++) { int64_t T = (int64_t)(n + i) * NPF; double d = yes(T < x[1].s) ? x[0].w : yes(T + NPF <= x[1].t) ? x[1].v : x[1].w; for (int j = 0; j < ch; j++) sym_close(b.at(j, i), d, 0, "the next envelope plays after the user moved on"); } sym_reach("manual");
}
HARNESS(h_restart) { // starting again with the timer reset plays the same values again
    ChainEnvelope c; int ch = sym_range("channels", 1, 2); double first = sym_f64("first", -9, 9); conf(c, ch, first); Env x[2]; x[0] = {1, sym_i64("s0", 0, 1500), sym_i64("t0", 0, 2500), sym_f64("v0", -9, 9), sym_f64("w0", -9, 9), nullptr}; x[1] = {0, 2500, 3500, sym_f64("v1", -9, 9), sym_f64("w1", -9, 9), nullptr}; sym_assume(x[0].t >= x[0].s); for (int i = 0; i < 2; i++) { make(x[i], i); c.add_envelope(x[i].e); } for (int r = 0; r < 2; r++) { c.get_timer()->set_sample(0); c.start(); int n = 0; blocks(c, x, 2, first, ch, n, sym_range(r ? "frames1" : "frames0", 1, 5), 1); } sym_reach("restart");
}
HARNESS(h_offset) { // started in the middle of its times, and beside another chain
    ChainEnvelope c, o; int ch = sym_range("channels", 1, 2), n = sym_range("position", 0, 4), m = 0; double first = sym_f64("first", -9, 9); conf(c, ch, first); conf(o, 1, -first); Env x[2], y{1, 0, 2048, sym_f64("v2", -9, 9), sym_f64("w2", -9, 9), nullptr}; x[0] = {1, sym_i64("s0", 0, 1500), sym_i64("t0", 0, 2500), sym_f64("v0", -9, 9), sym_f64("w0", -9, 9), nullptr}; x[1] = {0, 2500, 3500, sym_f64("v1", -9, 9), sym_f64("w1", -9, 9), nullptr}; sym_assume(x[0].t >= x[0].s); for (int i = 0; i < 2; i++) { make(x[i], i); c.add_envelope(x[i].e); } make(y, 2); o.add_envelope(y.e); c.get_timer()->set_sample(n * ch); c.start(); o.start(); blocks(o, &y, 1, -first, 1, m, 1, 1); blocks(c, x, 2, first, ch, n, n + 2, 1); blocks(o, &y, 1, -first, 1, m, 4, 1); blocks(c, x, 2, first, ch, n, n + 2, 1); sym_reach("offset");
}
HARNESS(h_many) { // long chains: back to back, with gaps, and with times long past
    sym_mode(2); ChainEnvelope c; int ch = 1, gap = sym_pick("gap", 3), len = sym_range("length", 1, 2), m = 40; double first = sym_f64("first", -9, 9); conf(c, ch, first); std::vector<SetValue> s(m); double v[4]; static const char *nm[] = {"v0", "v1", "v2", "v3"}; for (int i = 0; i < 4; i++) v[i] = sym_f64(nm[i], -9, 9); int step = len + gap; for (int i = 0; i < m; i++) { s[i].set_start_time((int64_t)i * step * NPF); s[i].set_stop_time((int64_t)(i * step + len) * NPF); s[i].set_start_value(v[i % 4] + i); s[i].set_stop_value(v[(i + 1) % 4] - i); c.add_envelope(&s[i]); } c.start(); int total = m * step + 3, cut = sym_range("cut", 1, 5);
    for (int n = 0; n < total;) { int f = total - n < cut ? total - n : cut; AudioBuffer b = run(c, f, ch); for (int i = 0; i < f; i++, n++) { int k = n / step, r = n % step; double d = k >= m ? v[m % 4] - (m - 1) : r < len ? v[k % 4] + k : v[(k + 1) % 4] - k; sym_close(b.at(i), d, 1e-6, "the value of the envelope that is due"); } } sym_reach("many");
}
HARNESS(h_midway) { // starting again while the chain plays, without a reset, changes nothing
    ChainEnvelope c; int ch = sym_range("channels", 1, 2); double first = sym_f64("first", -9, 9); conf(c, ch, first); Env x[2]; x[0] = {1, sym_i64("s0", 0, 1500), sym_i64("t0", 0, 4000), sym_f64("v0", -9, 9), sym_f64("w0", -9, 9), nullptr}; x[1] = {0, 4100, 5100, sym_f64("v1", -9, 9), sym_f64("w1", -9, 9), nullptr}; sym_assume(x[0].t >= x[0].s); for (int i = 0; i < 2; i++) { make(x[i], i); c.add_envelope(x[i].e); } c.start(); int n = 0, a = sym_range("before", 1, 4); blocks(c, x, 2, first, ch, n, a, 1); c.start(); blocks(c, x, 2, first, ch, n, a + 3, 1); sym_reach("midway");
}
HARNESS(h_early) { // envelopes added while the timer stands elsewhere
    ChainEnvelope c; int ch = sym_range("channels", 1, 2), at = sym_range("position", 0, 3), n = 0; double first = sym_f64("first", -9, 9); conf(c, ch, first); c.get_timer()->set_sample(at * ch); Env x[2]; x[0] = {1, sym_i64("s0", 0, 2500), sym_i64("t0", 0, 3500), sym_f64("v0", -9, 9), sym_f64("w0", -9, 9), nullptr}; x[1] = {0, 3600, 4600, sym_f64("v1", -9, 9), sym_f64("w1", -9, 9), nullptr}; sym_assume(x[0].t >= x[0].s); for (int i = 0; i < 2; i++) { make(x[i], i); c.add_envelope(x[i].e); } c.get_timer()->set_sample(0); c.start(); blocks(c, x, 2, first, ch, n, 4, 1); sym_reach("early");
}
