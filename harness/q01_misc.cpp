// Q01: dot product and object collection.
#include "sym.h"
#include "audio_buffer.hpp"
#include "dsp/matrix.hpp"
#include "utils.hpp"
HARNESS(h_dot) { int n = sym_range("n", 0, 5); double a[5], b[5], s = 0; AudioBuffer x(5, 1), y(5, 2); for (int i = 0; i < 5; i++) { x.at(i) = a[i] = sym_f64("a", -9, 9); y.at(1, i) = b[i] = sym_f64("b", -9, 9); if (i < n) s += a[i] * b[i]; } sym_close(dsp::mat::dot_product(&a[0], &b[0], n), s, 1e-9, "sum of the products"); auto q = y.sbegin(); q.set_position(1, 0); sym_close(dsp::mat::dot_product(x.ibegin(), q, n), s, 1e-9, "sum of the products over iterators"); int u[5], v[5]; long long t = 0; for (int i = 0; i < 5; i++) { u[i] = (int)sym_i64("u", -9999, 9999); v[i] = (int)sym_i64("v", -9999, 9999); if (i < n) t += (long long)u[i] * v[i]; } sym_assert(dsp::mat::dot_product(&u[0], &v[0], n) == t, "sum of the integer products"); sym_reach("dot"); }
static int dead[8], made = 0; struct Obj { int id; Obj() : id(made++) {} ~Obj() { dead[id]++; } };
HARNESS(h_collection) { // every object is destroyed exactly once, by the collection or by whoever released it
    int ref[8], n = 0; bool rel[8] = {}; { Collection<Obj> c; Obj *out[8]; int no = 0; for (int q = 0; q < 4; q++) { int op = sym_pick("op", 4); if (op == 0) { auto p = std::make_unique<Obj>(); ref[n++] = p->id; c.add_object(p); sym_assert(!p, "the collection takes the object over"); } else if (op == 1 && n) { int i = sym_range("i", 0, 3); sym_assume(i < n); c.free_object(i); sym_assert(dead[ref[i]] == 1, "freed object is destroyed"); for (int j = i; j + 1 < n; j++) ref[j] = ref[j + 1]; n--; } else if (op == 2 && n) { int i = sym_range("i", 0, 3); sym_assume(i < n && !rel[ref[i]]); Obj *o = c.release_object(i); sym_assert(o && o->id == ref[i], "the object asked for"); rel[o->id] = true; out[no++] = o; c.free_object(i); for (int j = i; j + 1 < n; j++) ref[j] = ref[j + 1]; n--; } else if (op == 3) { c.clear(); n = 0; }
            sym_assert(c.num_objects() == n, "objects are counted"); for (int i = 0; i < n; i++) sym_assert(c.get_object(i)->id == ref[i] && dead[ref[i]] == 0, "objects stay in order"); }
        for (int i = 0; i < no; i++) { sym_assert(dead[out[i]->id] == 0, "a released object is the caller's"); delete out[i]; } }
    for (int i = 0; i < made; i++) sym_assert(dead[i] == 1, "every object is destroyed once"); sym_reach("collection"); }
HARNESS(h_big) { // many pairs
    int n = 70000; std::vector<double> a(n, 1.0), b(n, 2.0); a[66001] = sym_f64("a", -9, 9); sym_close(dsp::mat::dot_product(a.begin(), b.begin(), n), 2.0 * (n - 1) + 2 * a[66001], 1e-4, "sum of the products"); Collection<int> c; for (int i = 0; i < 300; i++) { auto p = std::make_unique<int>(i); c.add_object(p); } sym_assert(c.num_objects() == 300 && *c.get_object(299) == 299, "objects are counted"); sym_reach("big");
}
