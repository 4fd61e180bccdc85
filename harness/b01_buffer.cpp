// B01: buffer addressing. Every view of a buffer reaches the same sample, inside the storage.
#include "sym.h"
#include "audio_buffer.hpp"
#include "dsp/buffer.hpp"
#include <cmath>
using dsp::buff::Buffer;

// storage position of (channel, sample) is channel + channels*sample
HARNESS(h_layout) {
    int ch = sym_range("channels", 1, 4), cap = sym_range("frames", 1, 6);
    AudioBuffer b(cap, ch);
    sym_assert(b.size() == (std::size_t)(cap * ch), "size is frames*channels");
    sym_assert(b.channels() == (std::size_t)ch, "channels");
    sym_assert(b.channel_capacity() == (std::size_t)cap, "channel capacity is frames");
    for (int i = 0; i < cap * ch; i++) b.at(i) = 1000 + i;
    // a symbolic position
    int c = (int)sym_i64("c", 0, ch - 1), s = (int)sym_i64("s", 0, cap - 1);
    double v = sym_f64("v", -1000, 999);
    b.at(c, s) = v;
    int pos = c + ch * s;
    sym_close(b.at(pos), v, 0, "at(channel,sample) is storage element channel+channels*sample");
    auto it = b.ibegin(); it.set_position(c, s);
    sym_close(*it, v, 0, "interleaved iterator position");
    sym_assert(it.get_channel() == c && it.get_sample() == s, "interleaved iterator reports its channel and sample");
    sym_assert(it.get_index() == pos, "interleaved index");
    auto st = b.sbegin(); st.set_position(c, s);
    sym_close(*st, v, 0, "sequential iterator position");
    sym_assert(st.get_channel() == c && st.get_sample() == s, "sequential iterator reports its channel and sample");
    sym_assert(st.get_index() == c * cap + s, "sequential index");
    sym_close(b.ibegin()[pos], v, 0, "interleaved []");
    sym_close(b.sbegin()[c * cap + s], v, 0, "sequential []");
    const AudioBuffer &k = b;
    sym_close(k.at(c, s), v, 0, "const at");
    sym_close(*(k.icbegin() + pos), v, 0, "const interleaved");
    sym_close(*(k.scbegin() + (c * cap + s)), v, 0, "const sequential");
    // no other element changed
    int o = (int)sym_i64("other", 0, cap * ch - 1);
    sym_assume(o != pos);
    sym_close(b.at(o), 1000 + o, 0, "other samples are untouched");
    sym_reach("layout");
}

// full traversals visit each element exactly once in the documented order, forwards and backwards
HARNESS(h_traverse) {
    int ch = sym_range("channels", 1, 3), cap = sym_range("frames", 0, 4);
    AudioBuffer b(cap, ch);
    double ref[16];
    for (int i = 0; i < cap * ch; i++) { ref[i] = sym_f64("x", -9, 9); b.at(i) = ref[i]; }
    int n = 0;
    for (auto it = b.ibegin(); it != b.iend(); ++it, ++n) { sym_assert(n < cap * ch, "interleaved traversal ends"); sym_close(*it, ref[n], 0, "interleaved order"); }
    sym_assert(n == cap * ch, "interleaved traversal is complete");
    n = 0;
    for (auto it = b.sbegin(); it != b.send(); it++, ++n) { sym_assert(n < cap * ch, "sequential traversal ends"); sym_close(*it, ref[n / cap + ch * (n % cap)], 0, "sequential order"); }
    sym_assert(n == cap * ch, "sequential traversal is complete");
    n = 0;
    for (double v : b) { sym_close(v, ref[n], 0, "range-for order"); n++; }
    sym_assert(n == cap * ch, "range-for is complete");
    n = cap * ch;
    for (auto it = b.irbegin(); it != b.irend(); ++it) { --n; sym_close(*it, ref[n], 0, "reverse interleaved order"); }
    sym_assert(n == 0, "reverse interleaved is complete");
    n = cap * ch;
    for (auto it = b.srbegin(); it != b.srend(); ++it) { --n; sym_close(*it, ref[n / cap + ch * (n % cap)], 0, "reverse sequential order"); }
    sym_assert(n == 0, "reverse sequential is complete");
    const AudioBuffer &k = b; n = 0;
    for (auto it = k.icbegin(); it != k.icend(); ++it, ++n) sym_close(*it, ref[n], 0, "const interleaved order");
    sym_assert(n == cap * ch, "const interleaved is complete");
    n = 0;
    for (auto it = k.scbegin(); it != k.scend(); ++it, ++n) sym_close(*it, ref[n / cap + ch * (n % cap)], 0, "const sequential order");
    sym_assert(n == cap * ch, "const sequential is complete");
    sym_reach("traverse");
}

// iterator arithmetic: stepping by any amount lands on the same element as visiting one by one
template <class MK> static void arith(AudioBuffer &b, MK mk, bool seq) {
    int ch = (int)b.channels(), cap = (int)b.channel_capacity(), n = ch * cap;
    auto pos = [&](int i) { return seq ? i / cap + ch * (i % cap) : i; };
    int i = sym_range("i", 0, n - 1), j = sym_range("j", 0, n - 1);
    auto it = mk(i);
    sym_assert(it.get_index() == i, "index of a positioned iterator");
    sym_close(*it, 10 + pos(i), 0, "dereference");
    sym_close(it[j], 10 + pos(j), 0, "operator[] is absolute");
    if (i + j < n) {
        sym_close(*(it + j), 10 + pos(i + j), 0, "it + n");
        sym_close(*(it + (unsigned)j), 10 + pos(i + j), 0, "it + unsigned");
        sym_close(*(it + (long)j), 10 + pos(i + j), 0, "it + long");
        sym_close(*(it + (unsigned long)j), 10 + pos(i + j), 0, "it + unsigned long");
        auto k = it; k += j; sym_close(*k, 10 + pos(i + j), 0, "it += n"); sym_assert(k.get_index() == i + j, "index after +=");
        sym_assert((int)(k - it) == j, "iterator difference");
        sym_assert((k == it) == (j == 0) && (k != it) == (j != 0) && (k > it) == (j > 0) && (it < k) == (j > 0) && it <= k && k >= it, "iterator ordering");
    }
    if (i >= j) {
        sym_close(*(it - j), 10 + pos(i - j), 0, "it - n");
        auto k = it; k -= j; sym_close(*k, 10 + pos(i - j), 0, "it -= n");
    }
    if (i + 1 < n) {
        auto k = it; sym_close(*(k++), 10 + pos(i), 0, "post-increment returns the old position"); sym_close(*k, 10 + pos(i + 1), 0, "post-increment advances");
        auto q = it; sym_close(*(++q), 10 + pos(i + 1), 0, "pre-increment");
        sym_close(*(k--), 10 + pos(i + 1), 0, "post-decrement returns the old position"); sym_close(*k, 10 + pos(i), 0, "post-decrement goes back");
        sym_close(*(--q), 10 + pos(i), 0, "pre-decrement");
    }
    if (i + 1 == n) { auto e = it; ++e; --e; sym_close(*e, 10 + pos(i), 0, "stepping past the end and back"); }
}
HARNESS(h_iter_seq) {
    int ch = sym_range("channels", 1, 3), cap = sym_range("frames", 1, 4);
    AudioBuffer b(cap, ch); for (int i = 0; i < ch * cap; i++) b.at(i) = 10 + i;
    arith(b, [&](int i) { return b.sbegin() + i; }, true);
    auto it = b.sbegin(); int c = sym_range("c", 0, ch - 1); it.set_channel(c);
    sym_close(*it, 10 + c, 0, "set_channel goes to the first sample of the channel");
    sym_reach("seq");
}
HARNESS(h_iter_inter) {
    int ch = sym_range("channels", 1, 3), cap = sym_range("frames", 1, 4);
    AudioBuffer b(cap, ch); for (int i = 0; i < ch * cap; i++) b.at(i) = 10 + i;
    arith(b, [&](int i) { return b.ibegin() + i; }, false);
    auto it = b.ibegin(); int s = sym_range("s", 0, cap - 1); it.set_sample(s);
    sym_close(*it, 10 + ch * s, 0, "set_sample goes to the first channel of the sample");
    sym_reach("inter");
}
// construction, copying, growing
HARNESS(h_build) {
    int ch = sym_range("channels", 1, 3), cap = sym_range("frames", 1, 4), n = ch * cap; double ref[12]; std::vector<double> v(n);
    for (int i = 0; i < n; i++) v[i] = ref[i] = sym_f64("x", -9, 9);
    double rate = sym_f64("rate", 1, 192000);
    AudioBuffer zero(cap, ch, rate); sym_close(zero.get_samplerate(), rate, 0, "sample rate of a new buffer");
    for (int i = 0; i < n; i++) sym_close(zero.at(i), 0, 0, "a new buffer is silent");
    AudioBuffer a(v, ch, rate), r(v.begin(), v.end(), ch, rate);
    AudioBuffer c(a); AudioBuffer d; d = a; AudioBuffer t(a), m(std::move(t)); AudioBuffer w; w = v; w.set_channels(ch); w.set_samplerate(rate);
    int o = sym_range("which", 0, n - 1);
    const AudioBuffer *all[] = {&a, &r, &c, &d, &m, &w};
    for (auto *p : all) {
        sym_assert(p->size() == (std::size_t)n && p->channels() == (std::size_t)ch && p->channel_capacity() == (std::size_t)cap, "shape is taken over");
        sym_close(p->get_samplerate(), rate, 0, "sample rate is taken over");
        for (int i = 0; i < n; i++) sym_close(p->at(i), ref[i], 0, "content is taken over in interleaved order");
    }
    a.at(o) = 77; sym_close(c.at(o), ref[o], 0, "a copy is independent"); sym_close(d.at(o), ref[o], 0, "an assigned copy is independent");
    c.push_back(5); sym_assert(c.size() == (std::size_t)n + 1, "push_back grows by one"); sym_close(c.at(n), 5, 0, "push_back appends");
    for (int i = 0; i < n; i++) sym_close(c.at(i), ref[i], 0, "push_back keeps the content");
    int extra = sym_range("grow", 0, 3); d.resize(n + extra); sym_assert(d.size() == (std::size_t)(n + extra), "resize");
    for (int i = 0; i < n + extra; i++) sym_close(d.at(i), i < n ? ref[i] : 0, 0, "resize keeps the content and adds silence");
    r.reserve(40); for (int i = 0; i < n; i++) sym_close(r.at(i), ref[i], 0, "reserve keeps the content");
    r.clear(); sym_assert(r.size() == 0, "clear");
    auto bp = create_buffer(cap, ch, rate); sym_assert(bp->size() == (std::size_t)n && bp->channels() == (std::size_t)ch, "create_buffer shape"); sym_close(bp->get_samplerate(), rate, 0, "create_buffer rate");
    auto bq = create_buffer(cap, ch); sym_assert(bq->size() == (std::size_t)n && bq->channels() == (std::size_t)ch, "create_buffer shape without rate");
    sym_reach("build");
}
template <int N> static void stat(int ch) {
    dsp::buff::StaticBuffer<double, N> b(ch, 48000.0); int cap = N / ch;
    sym_assert(b.size() == N && b.channels() == (std::size_t)ch && b.channel_capacity() == (std::size_t)cap, "static buffer shape"); sym_close(b.get_samplerate(), 48000.0, 0, "static buffer rate");
    double ref[N]; for (int i = 0; i < N; i++) b.at(i) = ref[i] = sym_f64("x", -9, 9);
    for (int c = 0; c < ch; c++) for (int s = 0; s < cap; s++) sym_close(b.at(c, s), ref[c + ch * s], 0, "static buffer at(channel,sample)");
    int n = 0; for (auto it = b.sbegin(); it != b.send(); ++it, ++n) sym_close(*it, ref[n / cap + ch * (n % cap)], 0, "static buffer sequential order");
    n = 0; for (double x : b) sym_close(x, ref[n++], 0, "static buffer range-for");
    auto e = b; b.at(0) = 99; sym_close(e.at(0), ref[0], 0, "static copy is independent");
    std::array<double, N> a; for (int i = 0; i < N; i++) a[i] = ref[N - 1 - i] + 1; e = a; for (int i = 0; i < N; i++) sym_close(e.at(i), ref[N - 1 - i] + 1, 1e-12, "container assignment"); sym_assert(e.channels() == (std::size_t)ch, "container assignment keeps the shape"); e = std::move(b); sym_close(e.at(0), 99, 0, "static move"); e = std::move(a); for (int i = 0; i < N; i++) sym_close(e.at(i), ref[N - 1 - i] + 1, 1e-12, "container move assignment");
}
template <class B> static void values(int n) { double x = sym_f64("a", -9, 9), y = sym_f64i("b", -9, 9), z = sym_f64("c", -9, 9); B b{x, y, z}; sym_assert((int)b.size() == n && b.channels() == 1, "a list of values is one channel"); sym_close(b.at(0), x, 0, "values"); sym_close(b.at(1), y, 0, "values"); sym_close(b.at(2), z, 0, "values"); }
HARNESS(h_static) {
    switch (sym_pick("shape", 4)) { case 0: stat<1>(1); break; case 1: stat<6>(2); break; case 2: stat<6>(3); break; case 3: stat<4>(4); break; }
    values<dsp::buff::StaticBuffer<double, 3>>(3); values<AudioBuffer>(3);
    sym_reach("static");
}
HARNESS(h_big) { // many channels, many samples
    static const int cs[] = {300, 1, 2}, fs[] = {250, 70000, 35000}; int w = sym_pick("shape", 3), ch = cs[w], cap = fs[w], n = ch * cap; AudioBuffer b(cap, ch, 96000.0); sym_assert((int)b.size() == n && (int)b.channels() == ch && (int)b.channel_capacity() == cap, "large shape"); sym_close(b.get_samplerate(), 96000, 0, "rate");
    for (int i = 0; i < n; i++) b.at(i) = i; bool ok = true; for (int c = 0; c < ch; c += ch > 3 ? 37 : 1) for (int s = 0; s < cap; s += 3) ok &= b.at(c, s) == c + ch * s; sym_assert(ok, "at(channel,sample)"); int k = 0; for (auto it = b.ibegin(); it != b.iend(); ++it, ++k) ok &= *it == k; sym_assert(ok && k == n, "interleaved order"); k = 0; for (auto it = b.sbegin(); it != b.send(); ++it, ++k) ok &= *it == k / cap + ch * (k % cap); sym_assert(ok && k == n, "sequential order");
    int at = (int)sym_i64("position", 0, n - 1); auto it = b.ibegin() + at; sym_assert(it.get_index() == at, "position"); AudioBuffer c(b); c.resize(n); sym_assert((int)c.size() == n && (int)c.channels() == ch && c.at(n - 1) == n - 1, "a copy keeps the shape"); sym_reach("big");
}
HARNESS(h_assign) { // whatever shape the buffer had before
    int ch = sym_range("channels", 1, 2), cap = sym_range("frames", 0, 3), n = ch * cap, ch2 = sym_range("old_channels", 1, 3), cap2 = sym_range("old_frames", 0, 3), how = sym_pick("how", 6); double rate = sym_f64("rate", 1, 192000), ref[6]; AudioBuffer a(cap, ch, rate), d(cap2, ch2, 8000.0); for (int i = 0; i < n; i++) a.at(i) = ref[i] = sym_f64("x", -9, 9); for (int i = 0; i < cap2 * ch2; i++) d.at(i) = 50 + i; std::vector<double> v(a.ibegin(), a.iend());
    if (how == 0) d = a; else if (how == 1) { AudioBuffer t(a); d = std::move(t); } else if (how == 2) d = v; else if (how == 3) d.assign(v); else if (how == 4) d = std::move(v); else { d.resize(n); for (int i = 0; i < n; i++) { sym_close(d.at(i), i < cap2 * ch2 ? 50 + i : 0, 0, "resize keeps the content and adds silence"); d.at(i) = ref[i]; } }
    sym_assert((int)d.size() == n && (int)d.channels() == (how < 2 ? ch : ch2), "an assigned buffer takes over size and content, a buffer its channels too"); sym_close(d.get_samplerate(), how < 2 ? rate : 8000, 0, "sample rate is taken over"); for (int i = 0; i < n; i++) sym_close(d.at(i), ref[i], 0, "content is taken over"); for (int i = 0; i < n; i++) sym_close(a.at(i), ref[i], 0, "the source of a copy is unchanged");
    int re = sym_range("reshape", 1, 3); d.set_channels(re); if (n % re) sym_stop(); sym_assert((int)d.channel_capacity() == n / re && (int)d.size() == n, "the same samples seen as another number of channels"); for (int c = 0; c < re; c++) for (int s = 0; s < n / re; s++) sym_close(d.at(c, s), ref[c + re * s], 0, "at(channel,sample) follows the number of channels"); int k = 0; for (auto it = d.sbegin(); it != d.send(); ++it, ++k) sym_close(*it, ref[k / (n / re) + re * (k % (n / re))], 0, "sequential order follows the number of channels"); d.clear(); sym_assert(d.size() == 0 && (int)d.channels() == re, "clear removes the samples only"); d.push_back(3); sym_assert(d.size() == 1 && d.at(0) == 3, "a cleared buffer grows again"); sym_reach("assign");
}
