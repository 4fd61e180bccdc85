// K01: every convolution entry point computes the full linear convolution.
#include "sym.h"
#include "dsp/conv.hpp"
#include <vector>
#include <list>
#ifndef KN
#define KN 5
#define KK 4
#endif
struct Case { int n, k; double x[16], h[16], y[32]; };
static Case mk(int N, int K) {
    Case c; c.n = sym_range("inputs", 1, N); c.k = sym_range("kernel", 1, K);
    for (int i = 0; i < c.n; i++) c.x[i] = sym_f64i("x", -9, 9);
    for (int i = 0; i < c.k; i++) c.h[i] = sym_f64i("h", -9, 9);
    for (int i = 0; i < c.n + c.k - 1; i++) c.y[i] = 0;
    for (int i = 0; i < c.n; i++) for (int j = 0; j < c.k; j++) c.y[i + j] += c.x[i] * c.h[j];
    sym_assert(dsp::conv::length_conv(c.n, c.k) == c.n + c.k - 1 && dsp::conv::length_conv((std::size_t)c.n, (std::size_t)c.k) == c.n + c.k - 1, "output length");
    return c;
}
HARNESS(h_raw) {
    Case c = mk(KN, KK); int m = c.n + c.k - 1; std::vector<double> o(m + 1, 0.0), p(m + 1, 0.0); o[m] = p[m] = 5;
    const double *x = c.x, *h = c.h;
    dsp::conv::input_conv(x, (std::size_t)c.n, h, (std::size_t)c.k, o.begin()); dsp::conv::output_conv(x, (std::size_t)c.n, h, (std::size_t)c.k, p.begin());
    for (int i = 0; i < m; i++) { sym_close(o[i], c.y[i], 0, "input side algorithm"); sym_close(p[i], c.y[i], 0, "output side algorithm"); }
    sym_close(o[m], 5, 0, "nothing is written past the output"); sym_close(p[m], 5, 0, "nothing is written past the output"); sym_reach("raw");
}
HARNESS(h_iter) {
    Case c = mk(KN - 1, KK); int m = c.n + c.k - 1; std::vector<double> x(c.x, c.x + c.n), h(c.h, c.h + c.k); AudioBuffer o(m, 1), p(m, 1);
    dsp::conv::input_conv(x.begin(), x.end(), h.begin(), h.end(), o.ibegin()); dsp::conv::output_conv(x.begin(), x.end(), h.begin(), h.end(), p.sbegin());
    for (int i = 0; i < m; i++) { sym_close(o.at(i), c.y[i], 0, "input side over iterators"); sym_close(p.at(i), c.y[i], 0, "output side over iterators"); }
    for (int i = 0; i < c.n; i++) sym_close(x[i], c.x[i], 0, "input is unchanged"); for (int i = 0; i < c.k; i++) sym_close(h[i], c.h[i], 0, "kernel is unchanged"); sym_reach("iter");
}
HARNESS(h_buffer) {
    Case c = mk(KN - 1, KK); int m = c.n + c.k - 1;
    for (int w = 0; w < 2; w++) {
        auto x = create_buffer(c.n, 1), h = create_buffer(c.k, 1); for (int i = 0; i < c.n; i++) x->at(i) = c.x[i]; for (int i = 0; i < c.k; i++) h->at(i) = c.h[i];
        auto o = w ? dsp::conv::input_conv(std::move(x), std::move(h)) : dsp::conv::output_conv(std::move(x), std::move(h));
        sym_assert((int)o->size() == m && o->channels() == 1, "result has the full length");
        for (int i = 0; i < m; i++) sym_close(o->at(i), c.y[i], 0, "buffer convolution");
    }
    sym_reach("buffer");
}
HARNESS(h_channel) { // one channel of an interleaved buffer, through sequential iterators
    Case c = mk(3, 3); int m = c.n + c.k - 1; AudioBuffer x(c.n, 2), o(m, 2); int ch = sym_pick("channel", 2);
    for (int i = 0; i < c.n; i++) { x.at(ch, i) = c.x[i]; x.at(1 - ch, i) = 100 + i; }
    auto xi = x.sbegin(); xi.set_channel(ch); auto oi = o.sbegin(); oi.set_channel(ch); const double *h = c.h;
    std::vector<double> y(m, 0.0); if (sym_pick("algorithm", 2)) dsp::conv::input_conv(xi, (std::size_t)c.n, h, (std::size_t)c.k, y.begin()); else dsp::conv::output_conv(xi, (std::size_t)c.n, h, (std::size_t)c.k, y.begin());
    for (int i = 0; i < m; i++) sym_close(y[i], c.y[i], 0, "one channel"); sym_reach("channel");
}
// long inputs: linear in each input, so single impulses at symbolic positions decide the shape for large sizes
HARNESS(h_impulse) {
    int n = 17, k = 11; std::vector<double> x(n, 0.0), h(k, 0.0), o(n + k - 1, 0.0), p(n + k - 1, 0.0); int a = sym_range("a", 0, n - 1), b = sym_range("b", 0, k - 1); double u = sym_f64("u", -4, 4), v = sym_f64("v", -4, 4);
    x[a] = u; h[b] = v; dsp::conv::input_conv(x.begin(), (std::size_t)n, h.begin(), (std::size_t)k, o.begin()); dsp::conv::output_conv(x.begin(), (std::size_t)n, h.begin(), (std::size_t)k, p.begin());
    for (int i = 0; i < n + k - 1; i++) { sym_close(o[i], i == a + b ? u * v : 0, 1e-9, "impulse response, input side"); sym_close(p[i], i == a + b ? u * v : 0, 1e-9, "impulse response, output side"); } sym_reach("impulse");
}
HARNESS(h_big) { // signals longer than 16 bits can count
    int n = 70000; double u = sym_f64i("u", -9, 9); std::vector<double> x(n), h{2, -1}, o(n + 1, 0.0), p(n + 1, 0.0); for (int i = 0; i < n; i++) x[i] = i % 97; int side = sym_pick("algorithm", 3); auto y = [&](int i) { return (i < n ? 2.0 * (i % 97) : 0.0) - (i ? (double)((i - 1) % 97) : 0.0); }; bool ok = true;
    if (side == 2) { auto bx = create_buffer(n, 1), bh = create_buffer(2, 1); for (int i = 0; i < n; i++) bx->at(i) = x[i]; bh->at(0) = 2; bh->at(1) = -1; auto r = sym_pick("buffers", 2) ? dsp::conv::input_conv(std::move(bx), std::move(bh)) : dsp::conv::output_conv(std::move(bx), std::move(bh)); sym_assert((int)r->size() == n + 1, "result has the full length"); for (int i = 0; i <= n; i++) ok &= r->at(i) == y(i); sym_assert(ok, "long signal"); }
    else { x[66000] += u; if (side) dsp::conv::input_conv(x.begin(), (std::size_t)n, h.begin(), (std::size_t)2, o.begin()); else dsp::conv::output_conv(x.begin(), (std::size_t)n, h.begin(), (std::size_t)2, o.begin()); for (int i = 0; i <= n; i++) if (i != 66000 && i != 66001) ok &= o[i] == y(i); sym_assert(ok, "long signal"); sym_close(o[66000], y(66000) + 2 * u, 0, "long signal"); sym_close(o[66001], y(66001) - u, 0, "long signal"); } sym_reach("big");
}
HARNESS(h_mixed) { // convolutions of any kind and size one after another
    for (int q = 0; q < 2; q++) { int op = sym_pick("kind", 4); Case c = mk(3, 3); int m = c.n + c.k - 1; std::vector<double> x(c.x, c.x + c.n), h(c.h, c.h + c.k), o(m, 0.0);
        if (op == 0) dsp::conv::input_conv(x.begin(), (std::size_t)c.n, h.begin(), (std::size_t)c.k, o.begin()); else if (op == 1) dsp::conv::output_conv(x.begin(), (std::size_t)c.n, h.begin(), (std::size_t)c.k, o.begin());
        else { auto bx = create_buffer(c.n, 1), bh = create_buffer(c.k, 1); for (int i = 0; i < c.n; i++) bx->at(i) = x[i]; for (int i = 0; i < c.k; i++) bh->at(i) = h[i]; auto r = op == 2 ? dsp::conv::input_conv(std::move(bx), std::move(bh)) : dsp::conv::output_conv(std::move(bx), std::move(bh)); sym_assert((int)r->size() == m, "result has the full length"); for (int i = 0; i < m; i++) o[i] = r->at(i); }
        for (int i = 0; i < m; i++) sym_close(o[i], c.y[i], 0, "convolution after another convolution"); } sym_reach("mixed");
}
