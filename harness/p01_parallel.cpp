// P01: the parallel module under every schedule.
#include "sym.h"
#include "parallel.hpp"
#include "sink_module.hpp"
#include "source_module.hpp"
#include <condition_variable>
#include <mutex>
#include <sched.h>
static double V[8]; static int CH;
struct Src : SourceModule {
    int n = 0, calls[4] = {}; bool busy = false; std::mutex m; std::condition_variable cv; int seen = 0, bump = 0;
    void process() override { sym_assert(!busy, "never processed twice at once"); busy = true; AudioBuffer b(1 + n % 2, CH, 1000.0 + n); for (int i = 0; i < (int)b.size(); i++) b.at(i) = i ? i : V[n & 7]; sched_yield(); this->set_buffer(std::move(b)); n++; busy = false; if (bump) { { std::lock_guard<std::mutex> l(m); seen = n; } cv.notify_all(); } }
    void hook(int k) { sym_assert(!busy, "state operations wait for the block being processed"); busy = true; calls[k]++; sched_yield(); busy = false; }
    void start() override { hook(0); } void stop() override { hook(1); } void finish() override { hook(2); } void info_sync() override { hook(3); SourceModule::info_sync(); }
};
static void values() { CH = sym_range("channels", 1, 2); for (int i = 0; i < 8; i++) V[i] = sym_f64("value", -1, 1); }
static void expect(AudioBuffer &b, int k) { sym_assert((int)b.channels() == CH && (int)b.size() == (1 + k % 2) * CH && b.get_samplerate() == 1000.0 + k, "the block's own shape"); for (int i = 0; i < (int)b.size(); i++) sym_bits(b.at(i), i ? i : V[k & 7], "every block arrives once, in order, unchanged"); }
static void take(ParallelModule &p, int k) { p.meta_process(); AudioBuffer b = p.get_buffer(); expect(b, k); }
HARNESS(h_stream) {
    values(); int q = sym_range("limit", 1, 2), k = sym_range("taken", 0, 3 - q); ParallelModule p; Src s; p.link(&s); p.max_size(q); sym_assert((int)p.max_size() == q && p.size() == 0, "limit"); p.start(); for (int i = 0; i < k; i++) { take(p, i); sym_assert((int)p.size() <= q, "at most the limit is stored"); } p.stop(); int n = s.n, left = (int)p.size(); sym_assert(left <= q && n == k + left, "every block produced was taken or is stored"); for (int i = 0; i < left; i++) take(p, k + i); sym_assert(p.size() == 0, "stored blocks can be taken after the stop"); p.meta_process(); sym_assert(s.n == n, "nothing is produced after the stop"); sym_reach("stream");
}
HARNESS(h_restart) { // the second run starts with an empty queue
    values(); ParallelModule p; Src s; p.link(&s); p.start(); int k = sym_range("taken", 0, 1); for (int i = 0; i < k; i++) take(p, i); int old = k; if (sym_pick("stopped", 2)) { p.stop(); old = s.n; } p.start(); AudioBuffer b; p.meta_process(); b = p.get_buffer(); p.stop(); int left = (int)p.size(), first = s.n - left - 1; sym_assert(first >= old && first <= k + 1, "blocks of the first run are gone"); expect(b, first); if (left) take(p, first + 1); sym_reach("restart");
}
HARNESS(h_stale) { // a block the first run has made, taken or not, is not delivered by the second
    CH = 1; for (int i = 0; i < 8; i++) V[i] = i; ParallelModule p; Src s; s.bump = 1; p.link(&s); p.start(); { std::unique_lock<std::mutex> l(s.m); s.cv.wait(l, [&] { return s.seen > 0; }); } p.start(); p.meta_process(); AudioBuffer b = p.get_buffer(); sym_assert(b.size() > 0 && b.at(0) >= 1, "blocks of the first run are gone"); p.stop(); sym_reach("stale");
}
HARNESS(h_state) { // state operations are synchronous
    values(); ParallelModule p; Src s; SinkModule<> k; k.get_chain_info()->channels = CH; k.link(&p)->link(&s); k.meta_info_sync(); k.meta_start(); int op = sym_pick("operation", 4); if (op == 0) k.meta_finish(); if (op == 1) k.meta_info_sync(); if (op == 2) k.meta_start(); if (op == 3) take(p, 0); k.meta_stop(); int n = s.n; sym_assert(s.calls[0] == 1 + (op == 2) && s.calls[1] == 1 && s.calls[2] == (op == 0) && s.calls[3] == 1 + (op == 1), "each operation reaches the source once"); sym_assert(p.get_state() == BaseModule::State::Stopped && s.get_state() == BaseModule::State::Stopped, "stopped"); sym_assert(s.n == n, "not processing"); sym_reach("state");
}
HARNESS(h_limit) { // a raised limit lets the thread continue
    values(); ParallelModule p; Src s; s.bump = 1; p.link(&s); int q = sym_range("limit", 0, 1); p.max_size(q); p.start(); if (sym_pick("full", 2)) { std::unique_lock<std::mutex> l(s.m); s.cv.wait(l, [&] { return s.seen >= q; }); } p.max_size(q + 1); { std::unique_lock<std::mutex> l(s.m); s.cv.wait(l, [&] { return s.seen >= q + 1; }); } p.stop(); sym_assert((int)p.size() == q + 1 && s.n == q + 1, "exactly the limit is stored"); for (int i = 0; i <= q; i++) take(p, i); sym_reach("limit");
}
HARNESS(h_destroy) { values(); Src s; { ParallelModule p; p.link(&s); p.start(); if (sym_pick("taken", 2)) take(p, 0); } int n = s.n; sym_assert(n <= 2 && !s.busy, "nothing runs after the module is gone"); sym_reach("destroy"); }
HARNESS(h_nested) { // two in a row
    values(); ParallelModule p, r; Src s; SinkModule<> k; k.link(&p)->link(&r)->link(&s); k.meta_start(); take(p, 0); k.meta_stop(); sym_assert(s.n >= 1 && s.n <= 4, "bounded look-ahead"); sym_reach("nested");
}
HARNESS(h_lower) { // a lowered limit loses nothing that is stored
    values(); ParallelModule p; Src s; s.bump = 1; p.link(&s); p.max_size(2); p.start(); { std::unique_lock<std::mutex> l(s.m); s.cv.wait(l, [&] { return s.seen >= 2; }); } if (sym_pick("taken", 2)) { take(p, 0); p.max_size(1); take(p, 1); take(p, 2); } else { p.max_size(1); take(p, 0); take(p, 1); } p.stop(); sym_assert((int)p.max_size() == 1 && s.n <= 5, "bounded look-ahead"); sym_reach("lower");
}
