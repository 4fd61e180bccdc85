// T01: chain time, counters and latency, with a symbolic clock.
#include "sym.h"
#include "meta_audio.hpp"
#include <chrono>
static int64_t now_ = 0; static int64_t ticks[64]; static int nt = 0;
namespace std { namespace chrono { inline namespace _V2 { steady_clock::time_point steady_clock::now() noexcept { now_ += sym_i64("tick", 0, 1000000000000LL); if (nt < 64) ticks[nt++] = now_; return time_point(duration(now_)); } } } }
HARNESS(h_clock) { int64_t a = get_time(), b = get_time(); sym_assert(a == ticks[0] && b == ticks[1] && nt == 2, "time is the steady clock's, in nanoseconds"); sym_reach("clock"); }
HARNESS(h_timer) { // time is whole frames times the length of a frame
    ChainTimer t; int rate = (int)sym_i64("rate", 1, 192000), ch = sym_range("channels", 1, 6); int64_t npf = NANO / 44100; sym_assert(t.get_npf() == npf && t.get_channels() == 1 && t.get_sample() == 0 && t.get_time() == 0, "a new timer"); int how = sym_pick("how", 3); if (how == 1) { t.set_npf(npf = sym_i64("npf", 1, 1000000000)); sym_assert(t.get_npf() == npf, "frame length"); } if (how == 2) { t.set_samplerate(rate); sym_assert(t.get_npf() == 1000000000 / rate, "frame length follows the sample rate"); npf = t.get_npf(); }
    t.set_channels(ch); sym_assert(t.get_channels() == ch, "channels"); int64_t s = sym_i64("samples", 0, 1000000); t.set_sample((int)s); for (int q = 0; q < 3; q++) { int op = sym_pick("op", 3); if (op == 0) { t.inc_sample(); s++; } else if (op == 1) { int64_t k = sym_i64("add", 0, 100000); t.add_sample((int)k); s += k; } else { s = sym_i64("samples", 0, 1000000); t.set_sample((int)s); } sym_assert(t.get_sample() == s, "sample position"); sym_assert(t.get_time() == (s / ch) * npf, "time is whole frames times the frame length"); }
    int64_t a = sym_i64("other", 0, 1000000); int c2 = sym_range("other_channels", 1, 4); sym_assert(t.get_time((int)a) == a * npf && t.get_time((int)a, c2) == a / c2 * npf, "time of another position"); sym_assert(t.get_sample() == s && t.get_channels() == ch && t.get_npf() == npf, "asking changes nothing");
    t.reset(); sym_assert(t.get_channels() == 1 && t.get_sample() == 0 && t.get_time() == 0, "reset starts over"); sym_assert(t.get_samplerate() >= 0, "a reset timer can be asked for its rate"); static const int rates[] = {1, 100, 8000, 11025, 22050, 44100, 48000, 96000, 192000}; rate = rates[sym_pick("known_rate", 9)]; t.set_samplerate(rate); int64_t back = t.get_samplerate(); sym_assert(back >= rate && (back - rate) * (1000000000 / rate) <= rate, "the sample rate is recovered from the frame length"); sym_reach("timer");
}
struct Src : SourceModule { int frames = 0, ch = 1; double rate = 44100, x[8]; void process() override { sym_i64("work", 0, 0); AudioBuffer b(frames, ch, rate); for (int i = 0; i < frames * ch; i++) b.at(i) = x[i] = sym_f64("x", -9, 9); set_buffer(std::move(b)); } };
HARNESS(h_counter) { // blocks and samples seen; audio passes unchanged
    Counter c; Src s; c.link(&s); int blocks = 0, samples = 0; sym_assert(c.processed() == 0 && c.samples() == 0, "a new counter"); for (int q = 0; q < 3; q++) { if (sym_pick("reset", 2)) { c.reset(); blocks = samples = 0; sym_assert(c.processed() == 0 && c.samples() == 0, "reset"); } s.frames = sym_range("frames", 0, 3); s.ch = sym_range("channels", 1, 2); c.meta_process(); blocks++; samples += s.frames * s.ch; sym_assert(c.processed() == blocks, "blocks are counted"); sym_assert(c.samples() == samples, "samples are counted"); AudioBuffer o = c.get_buffer(); sym_assert((int)o.size() == s.frames * s.ch && (int)o.channels() == s.ch, "audio passes through"); for (int i = 0; i < s.frames * s.ch; i++) sym_close(o.at(i), s.x[i], 0, "audio passes through"); } sym_reach("counter");
}
HARNESS(h_latency) { // measured against the duration of the audio produced
    LatencyModule l; Src s; l.link(&s); int rate = sym_range("rate", 1, 3) * 11025; s.rate = rate; s.ch = sym_range("channels", 1, 2); int64_t npf = NANO / rate; sym_assert(l.average_time() == 0 && l.average_latency() == 0 && l.time() == 0 && l.expected() == 0, "a new module has measured nothing"); l.start(); int64_t t0 = ticks[nt - 1]; sym_assert(l.get_start_time() == t0, "start time"); int64_t tt = 0, tl = 0, ex = 0; int n = 0, samples = 0;
    for (int q = 0; q < 3; q++) { if (q && sym_pick("reset", 2)) { l.reset(); t0 = ticks[nt - 1]; tt = tl = ex = n = samples = 0; sym_assert(l.processed() == 0 && l.total_time() == 0 && l.sum_latency() == 0 && l.time() == 0 && l.latency() == 0 && l.average_time() == 0 && l.average_latency() == 0 && l.expected() == 0 && l.total_latency() == 0 && l.get_start_time() == t0, "reset starts over"); }
        s.frames = sym_range("frames", 0, 3); int k = nt; l.meta_process(); sym_assert(nt == k + 2, "two clock readings"); int64_t d = ticks[k + 1] - ticks[k], e = s.frames * npf; tt += d; ex += e; tl += d - e; n++; samples += s.frames * s.ch;
        sym_assert(l.time() == d && l.total_time() == tt, "operation time"); sym_assert(l.expected() == ex, "expected time is the duration of the audio"); sym_assert(l.latency() == d - e, "latency is the excess over the duration of the block"); sym_assert(l.sum_latency() == tl && l.total_latency() == tt - ex, "totals"); sym_assert(l.processed() == n && l.samples() == samples, "blocks and samples are counted"); sym_assert(l.average_time() == tt / n && l.average_latency() == tl / n, "averages are per block");
        AudioBuffer o = l.get_buffer(); sym_assert((int)o.size() == s.frames * s.ch, "audio passes through"); for (int i = 0; i < s.frames * s.ch; i++) sym_close(o.at(i), s.x[i], 0, "audio passes through"); }
    int64_t el = l.elapsed(); sym_assert(el == ticks[nt - 1] - t0, "elapsed time"); sym_reach("latency");
}
HARNESS(h_rates) { // the rate of the audio may change between blocks
    LatencyModule l; Src s; l.link(&s); l.start(); int64_t tl = 0; for (int q = 0; q < 3; q++) { int rate = sym_pick("slow", 2) ? 1 : 11025 * sym_range("rate", 1, 3); s.rate = rate; s.ch = sym_range("channels", 1, 2); s.frames = sym_range("frames", 0, 3); int k = nt; l.meta_process(); int64_t d = ticks[k + 1] - ticks[k], e = s.frames * (NANO / rate); tl += d - e; sym_assert(l.time() == d && l.latency() == d - e && l.sum_latency() == tl, "latency is the excess over the duration of the block"); l.get_buffer(); } sym_reach("rates");
}
HARNESS(h_two) { // measured side by side
    Counter c[2]; Src s[2]; LatencyModule l[2]; ChainTimer t[2]; int n[2] = {0, 0}; int64_t tt[2] = {0, 0}; for (int k = 0; k < 2; k++) { s[k].ch = 1 + k; c[k].link(&l[k])->link(&s[k]); l[k].start(); t[k].set_channels(1 + k); t[k].set_npf(1000 * (k + 1)); } for (int q = 0; q < 2; q++) for (int k = 0; k < 2; k++) { s[k].frames = sym_range("frames", 0, 2); int b = nt; c[k].meta_process(); tt[k] += ticks[b + 1] - ticks[b]; n[k] += s[k].frames * s[k].ch; t[k].add_sample(s[k].frames * s[k].ch); sym_assert(c[k].samples() == n[k] && c[k].processed() == q + 1 && l[k].samples() == n[k] && l[k].total_time() == tt[k] && t[k].get_time() == n[k] / (1 + k) * 1000 * (1 + k), "each counts its own"); c[k].get_buffer(); } sym_reach("two");
}
struct Odd : SourceModule { int n = 0, ch = 1; void process() override { AudioBuffer b(std::vector<double>(n, 0.5)); b.set_channels(ch); b.set_samplerate(1000); set_buffer(std::move(b)); } };
HARNESS(h_odd) { // samples are counted even where the last frame is not whole
    Counter c; LatencyModule l; Odd s; c.link(&l)->link(&s); l.start(); int total = 0; for (int q = 0; q < 2; q++) { s.n = sym_range("samples", 0, 7); s.ch = sym_range("channels", 1, 3); int k = nt; c.meta_process(); total += s.n; sym_assert(c.samples() == total && l.samples() == total, "samples are counted"); int64_t d = ticks[k + 1] - ticks[k]; sym_assert(l.latency() == d - s.n / s.ch * 1000000, "latency is the excess over the duration of the block"); c.get_buffer(); } sym_reach("odd");
}
