// B02: ring buffer: position k is element k modulo the size, whichever way it is reached.
#include "sym.h"
#include "dsp/buffer.hpp"
#include <vector>
using dsp::buff::RingBuffer;
static int md(int a, int n) { return ((a % n) + n) % n; }
HARNESS(h_ring) {
    int n = sym_range("size", 1, 7); std::vector<double> v(n); double ref[7];
    for (int i = 0; i < n; i++) v[i] = ref[i] = sym_f64("x", -9, 9);
    RingBuffer<double> r(v);
    sym_assert(r.size() == (std::size_t)n, "size");
    int k = (int)sym_i64("index", -3 * n, 4 * n);
    double nv = sym_f64("new", -9, 9);
    int e = (int)sym_conc(md(k, n));
    sym_close(r[k], ref[e], 0, "[] wraps around");
    auto it = r.begin() + k;
    sym_close(*it, ref[e], 0, "iterator wraps around");
    r[k] = nv; ref[e] = nv;
    int q = (int)sym_i64("probe", -2 * n, 3 * n); int qe = (int)sym_conc(md(q, n));
    sym_close(r[q], ref[qe], 0, "write is seen at every equivalent position and nowhere else");
    sym_reach("ring");
}
HARNESS(h_walk) {
    int n = sym_range("size", 1, 6); std::vector<double> v(n);
    for (int i = 0; i < n; i++) v[i] = i;
    RingBuffer<double> r(v);
    int steps = 0; for (auto it = r.begin(); it != r.end(); ++it) { sym_assert(steps < n, "one lap"); sym_close(*it, steps, 0, "first lap order"); steps++; }
    sym_assert(steps == n, "begin..end is exactly one lap");
    auto it = r.begin(); int pos = 0; // an arbitrary walk
    for (int s = 0; s < 4; s++) {
        switch (sym_pick("move", 4)) {
        case 0: ++it; pos++; break;
        case 1: --it; pos--; break;
        case 2: it += n - 1; pos += n - 1; break;
        case 3: it -= n + 1; pos -= n + 1; break;
        }
        sym_close(*it, md(pos, n), 0, "walk in both directions wraps"); sym_assert(it.get_index() == pos, "the iterator counts its own steps");
        *it = md(pos, n);
    }
    sym_reach("walk");
}
HARNESS(h_size) {
    int n = sym_range("size", 1, 5), m = sym_range("newsize", 1, 8);
    RingBuffer<double> r((std::size_t)n); for (int i = 0; i < n; i++) { sym_close(r[i], 0, 0, "starts silent"); r[i] = i + 1; }
    r.reserve(20); sym_assert(r.size() == (std::size_t)n, "reserve does not change the size");
    sym_close(r[n], 1, 0, "reserve does not change the wrap point");
    r.resize(m); sym_assert(r.size() == (std::size_t)m, "resize changes the size");
    for (int i = 0; i < m; i++) sym_close(r[i], i < n ? i + 1 : 0, 0, "resize keeps the leading content");
    sym_close(r[m], 1, 0, "resize moves the wrap point");
    sym_reach("size");
}
HARNESS(h_big) { // large rings, distant positions
    int n = 70000; RingBuffer<double> r((std::size_t)n); for (int i = 0; i < n; i++) r[i] = i; sym_assert((int)r.size() == n, "size"); int lap = sym_range("lap", -2, 2), p = sym_pick("near", 4); static const int at[] = {0, 1, 65536, 69999}; int k = lap * n + at[p]; sym_assert(r[k] == at[p], "[] wraps around"); auto it = r.begin() + k; sym_assert(*it == at[p] && it.get_index() == k, "iterator wraps around"); ++it; sym_assert(*it == (at[p] + 1) % n, "walk wraps around"); sym_reach("big");
}
HARNESS(h_two) { // rings side by side
    int n[2]; n[0] = sym_range("size", 1, 4); n[1] = sym_range("size", 1, 4); RingBuffer<double> r[2] = {RingBuffer<double>((std::size_t)n[0]), RingBuffer<double>((std::size_t)n[1])}; for (int k = 0; k < 2; k++) for (int i = 0; i < n[k]; i++) r[k][i] = 10 * k + i; auto a = r[0].begin(), b = r[1].begin(); int x = 0, y = 0; for (int s = 0; s < 4; s++) { if (sym_pick("which", 2)) { ++a; x++; } else { --b; y--; } sym_close(*a, md(x, n[0]), 0, "each walks its own ring"); sym_close(*b, 10 + md(y, n[1]), 0, "each walks its own ring"); } r[0] = r[1]; r[1][0] = 99; sym_assert(r[0].size() == (std::size_t)n[1], "a copy has the size of its source"); for (int i = 0; i < n[1]; i++) sym_close(r[0][i + n[1]], 10 + i, 0, "a copy keeps its own content"); sym_reach("two");
}
