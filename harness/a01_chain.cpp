// A01: module chains - processing order and composition, information sync, states.
#include "sym.h"
#include "amp_module.hpp"
#include "meta_audio.hpp"
#include "sink_module.hpp"
typedef BaseModule::State State;
static int ev[64], evn = 0; static void say(int e) { if (evn < 64) ev[evn++] = e; }
enum { PROC = 0, START = 100, STOP = 200, FIN = 300 };
struct Src : SourceModule { double *x; int frames, ch; int calls = 0; double rate = 44100;
    void process() override { say(PROC); AudioBuffer b(frames, ch, rate); for (int i = 0; i < frames * ch; i++) b.at(i) = x[calls * frames * ch + i]; calls++; set_buffer(std::move(b)); }
    void start() override { say(START); } void stop() override { say(STOP); } void finish() override { say(FIN); done(); } };
struct Mod : AudioModule<> { int id; double k; Mod(int i, double a) : id(i), k(a) {} void process() override { say(PROC + id); for (int i = 0; i < (int)buff.size(); i++) buff.at(i) = buff.at(i) * 2 + k; }
    void start() override { say(START + id); } void stop() override { say(STOP + id); } void finish() override { say(FIN + id); done(); } };
struct Snk : SinkModule<> { int id; double got[32]; int n = 0, blocks = 0, ch = 0; double rate = 0; void process() override { say(PROC + id); blocks++; ch = (int)buff.channels(); rate = buff.get_samplerate(); for (int i = 0; i < (int)buff.size() && n < 32; i++) got[n++] = buff.at(i); } };
static void expect(int base, int n, const char *l) { sym_assert(evn == n, l); for (int i = 0; i < n && i < evn; i++) sym_assert(ev[i] == base + i, l); evn = 0; }
HARNESS(h_process) { // source first, each module once, values composed in chain order
    int n = sym_range("modules", 0, 3), f = sym_range("frames", 0, 2), ch = sym_range("channels", 1, 2), rounds = sym_range("rounds", 1, 2); double x[8], rate = sym_f64("rate", 1, 192000); for (double &v : x) v = sym_f64("x", -9, 9);
    Src s; s.x = x; s.frames = f; s.ch = ch; s.rate = rate; Snk k; k.id = n + 1; BaseModule *at = &k; AudioModule<> *m[3]; int kind[3]; double p[3]; Mod *u[3] = {nullptr, nullptr, nullptr}; std::unique_ptr<AudioModule<>> own[3]; std::unique_ptr<AmplitudeScale<>> sc[3]; std::unique_ptr<AmplitudeAdd<>> ad[3];
    for (int i = n - 1; i >= 0; i--) { kind[i] = sym_pick("kind", 3); p[i] = sym_f64i("p", -3, 3); BaseModule *q; if (kind[i] == 0) { own[i].reset(u[i] = new Mod(i + 1, p[i])); q = u[i]; } else if (kind[i] == 1) { sc[i].reset(new AmplitudeScale<>(p[i])); q = sc[i].get(); } else { ad[i].reset(new AmplitudeAdd<>(p[i])); q = ad[i].get(); }
        BaseModule *r = at->link(q); sym_assert(r == q, "link returns the module linked"); sym_assert(q->forward() == at, "link records the module in front"); at = r; }
    sym_assert(at->link(&s) == &s && s.forward() == at, "link returns the module linked");
    for (int r = 0; r < rounds; r++) { k.meta_process(); int j = 0; sym_assert(evn > 0 && ev[0] == PROC, "the source processes first"); for (int i = 0; i < n; i++) if (kind[i] == 0) sym_assert(++j < evn && ev[j] == PROC + i + 1, "modules process from the source to the sink"); sym_assert(++j < evn && ev[j] == PROC + n + 1 && evn == j + 1, "every module processes exactly once"); evn = 0; }
    sym_assert(s.calls == rounds && k.blocks == rounds && k.n == rounds * f * ch && k.ch == ch, "one block per call, of the source's shape"); sym_close(k.rate, rate, 0, "sample rate travels with the block");
    for (int i = 0; i < rounds * f * ch; i++) { double v = x[i]; for (int j = 0; j < n; j++) v = kind[j] == 0 ? v * 2 + p[j] : kind[j] == 1 ? v * p[j] : v + p[j]; sym_close(k.got[i], v, 1e-9, "output is the modules applied in chain order"); }
    sym_reach("process");
}
struct Shape : AudioModule<> { int in = -1, out = -1, ch = -1; double rate = -1; void info_sync() override { AudioModule<>::info_sync(); ModuleInfo *i = get_info(); if (in >= 0) i->in_buffer = in; if (out >= 0) i->out_buffer = out; if (ch >= 0) i->channels = ch; if (rate >= 0) i->sample_rate = rate; } };
HARNESS(h_info) { // the sink's settings reach every module behind it; a module that changes them changes what is behind it only
    int n = sym_range("modules", 0, 3), who = sym_range("changer", -1, 2), syncs = sym_range("syncs", 1, 2); sym_assume(who < n); SinkModule<> k; ChainInfo *c = k.get_chain_info(); Shape m[3]; SourceModule s; BaseModule *at = &k; for (int i = 0; i < n; i++) at = at->link(&m[i]); at->link(&s);
    for (int q = 0; q < syncs; q++) {
        double rate = sym_f64("rate", 1, 192000); int size = (int)sym_i64("size", 1, 100000), ch = (int)sym_i64("channels", 1, 64), in2 = size, out2 = size, ch2 = ch; double rate2 = rate; c->sample_rate = rate; c->buffer_size = size; c->channels = ch;
        if (who >= 0) { m[who].in = in2 = (int)sym_i64("in", 1, 100000); m[who].out = out2 = (int)sym_i64("out", 1, 100000); m[who].ch = ch2 = (int)sym_i64("channels2", 1, 64); m[who].rate = rate2 = sym_f64("rate2", 1, 192000); }
        k.meta_info_sync();
        for (int i = -1; i <= n; i++) { BaseModule *b = i < 0 ? (BaseModule *)&k : i < n ? (BaseModule *)&m[i] : &s; ModuleInfo *x = b->get_info(); bool after = who >= 0 && i >= who;
            sym_close(x->sample_rate, after ? rate2 : rate, 0, "sample rate"); sym_assert(x->in_buffer == (after ? in2 : size), "incoming size"); sym_assert(x->out_buffer == (after ? out2 : size), "outgoing size"); sym_assert(x->channels == (after ? ch2 : ch), "channels"); sym_assert(b->get_chain_info() == c, "every module shares the sink's chain information"); }
        sym_assert(c->module_num == n + 2, "the chain counts its modules, however often it is synced"); sym_assert(c->buffer_size == size && c->channels == ch, "sync leaves the chain's settings alone"); sym_close(c->sample_rate, rate, 0, "sync leaves the chain's settings alone");
    }
    sym_reach("info");
}
HARNESS(h_state) { // start, stop and finish reach every module, the source first, and set every state
    int n = sym_range("modules", 0, 2); Snk k; k.id = n + 1; Mod a(1, 0), b(2, 0); Src s; BaseModule *at = &k; if (n > 1) at = at->link(&b); if (n > 0) at = at->link(&a); at->link(&s); BaseModule *all[] = {&k, &s, n > 0 ? (BaseModule *)&a : &s, n > 1 ? (BaseModule *)&b : &s}; ChainInfo *c = k.get_chain_info();
    for (BaseModule *m : all) sym_assert(m->get_state() == State::Created, "a new module is created"); k.meta_info_sync(); int fin = 0;
    for (int q = 0; q < 4; q++) { int op = sym_pick("op", 3); if (op == 0) k.meta_start(); else if (op == 1) k.meta_stop(); else { k.meta_finish(); fin++; }
        expect(op == 0 ? START : op == 1 ? STOP : FIN, n + 1, "each module is told once, the source first"); for (BaseModule *m : all) sym_assert(m->get_state() == (op == 0 ? State::Started : op == 1 ? State::Stopped : State::Finished), "every module has the new state"); sym_assert(c->module_finish == fin * (n + 2), "finished modules are counted"); }
    sym_reach("state");
}
struct Late : AudioModule<> { void finish() override {} };
HARNESS(h_late) { // a module that has more to do stays finishing until it says it is done
    SinkModule<> k; Late m; SourceModule s; k.link(&m)->link(&s); k.meta_info_sync(); k.meta_start(); k.meta_finish(); ChainInfo *c = k.get_chain_info();
    sym_assert(m.get_state() == State::Finishing && s.get_state() == State::Finished && k.get_state() == State::Finished, "a module is finishing until it is done"); sym_assert(c->module_finish == 2, "only finished modules are counted"); int stop = sym_pick("stopped", 3); if (stop == 1) k.meta_stop(); if (stop == 2) k.meta_start(); m.done(); sym_assert(m.get_state() == State::Finished && c->module_finish == 3, "done is counted"); sym_reach("late");
}
HARNESS(h_static) { // a chain whose types are fixed at compile time does what the linked one does
    int size = sym_range("size", 1, 3), ch = sym_range("channels", 1, 2); double v = sym_f64("v", -4, 4), p = sym_f64("p", -4, 4), q = sym_f64("q", -4, 4), rate = sym_f64("rate", 1, 192000);
    typedef AmplitudeAdd<ConstModule> T1; typedef AmplitudeScale<T1> T2; SinkModule<T2> k; ChainInfo *c = k.get_chain_info(); c->buffer_size = size; c->channels = ch; c->sample_rate = rate;
    if (sym_pick("static_link", 2)) { ConstModule s(v); T1 a(p); a.link_static(std::move(s)); T2 b(q); b.link_static(std::move(a)); k.link_static(std::move(b)); } else { k.backward().set_value(q); k.backward().backward().set_value(p); k.backward().backward().backward().set_value(v); }
    k.meta_info_sync(); sym_assert(c->module_num == 4, "the chain counts its modules"); T2 &b = k.backward(); T1 &a = b.backward(); ConstModule &s = a.backward(); sym_assert(b.forward() == &k && a.forward() == &b && s.forward() == &a, "sync links the chain");
    sym_assert(s.get_chain_info() == c && s.get_info()->out_buffer == size && s.get_info()->channels == ch, "settings reach the source"); sym_close(s.get_info()->sample_rate, rate, 0, "settings reach the source");
    k.meta_start(); sym_assert(b.get_state() == State::Started && a.get_state() == State::Started && s.get_state() == State::Started && k.get_state() == State::Started, "every module has the new state");
    k.meta_process(); AudioBuffer o = k.get_buffer(); sym_assert((int)o.size() == size * ch && (int)o.channels() == ch, "block shape"); sym_close(o.get_samplerate(), rate, 0, "block rate"); for (int i = 0; i < size * ch; i++) sym_close(o.at(i), (v + p) * q, 1e-12, "output is the modules applied in chain order");
    k.meta_stop(); sym_assert(b.get_state() == State::Stopped && a.get_state() == State::Stopped && s.get_state() == State::Stopped && k.get_state() == State::Stopped, "every module has the new state"); k.meta_finish(); sym_assert(c->module_finish == 4 && s.get_state() == State::Finished, "finished modules are counted"); sym_reach("static");
}
HARNESS(h_period) { // a period sink takes and processes its number of blocks per call
    int per = sym_range("period", 0, 3), calls = sym_range("calls", 1, 2); double x[8]; for (double &v : x) v = sym_f64("x", -9, 9); struct P : PeriodSink { double got[8]; int n = 0; void process() override { say(PROC + 1); sym_assert(buff.size() == 1, "one block at a time"); got[n++] = buff.at(0); } } k; Src s; s.x = x; s.frames = s.ch = 1; k.link(&s); sym_assert(k.get_period() == 1, "one block per call unless set"); k.set_period(per); sym_assert(k.get_period() == per, "period setting");
    for (int c = 0; c < calls; c++) { k.meta_process(); sym_assert(evn == 2 * per, "one period of blocks"); for (int i = 0; i < evn; i++) sym_assert(ev[i] == PROC + i % 2, "each block is processed before the next is taken"); evn = 0; } sym_assert(k.n == per * calls && s.calls == k.n, "blocks"); for (int i = 0; i < k.n; i++) sym_close(k.got[i], x[i], 0, "blocks arrive in order"); sym_reach("period");
}
HARNESS(h_reserve) { // a module's fresh block has the module's shape, whatever the block before
    Mod m(1, 0); int ch = sym_range("channels", 1, 3), o = sym_range("out", 0, 3), r1 = sym_pick("explicit", 2); sym_assert(m.get_info()->channels == 1 && m.get_info()->out_buffer == BUFF_SIZE && m.get_info()->in_buffer == BUFF_SIZE && m.get_info()->sample_rate == 44100 && m.get_chain_info() == nullptr, "a module starts with the default settings");
    if (sym_pick("before", 2)) m.set_buffer(AudioBuffer(sym_range("frames", 0, 4), sym_range("old", 1, 3), 8000.0)); m.get_info()->channels = ch; m.get_info()->out_buffer = o; m.get_info()->sample_rate = 32000; if (r1) { int c2 = sym_range("channels2", 1, 3), s = sym_range("size", 0, 3); m.reserve(s, c2); AudioBuffer b = m.get_buffer(); sym_assert((int)b.size() == s * c2 && (int)b.channels() == c2, "shape asked for"); } else { m.reserve(); AudioBuffer b = m.get_buffer(); sym_assert((int)b.size() == o * ch && (int)b.channels() == ch && b.get_samplerate() == 32000, "shape of the module"); }
    AmplitudeScale<> s; AmplitudeAdd<> a; sym_assert(s.get_value() == 1 && a.get_value() == 1, "default amplitude"); s.set_value(0.25); sym_assert(s.get_value() == 0.25, "amplitude set"); sym_reach("reserve");
}
static int wide() { static const int c[] = {1, 2, 7}; return c[sym_pick("channels", 3)]; } // 7 divides 70000
HARNESS(h_big) { // blocks longer than 16 bits can count
    int ch = wide(), f = 70000 / ch; double g = sym_f64("gain", -9, 9); std::vector<double> x(70000); for (int i = 0; i < 70000; i++) x[i] = i % 83; Src s; s.x = x.data(); s.frames = f; s.ch = ch; AmplitudeScale<> a(3.0); AmplitudeAdd<> b(5.0); SinkModule<> k; k.link(&b)->link(&a)->link(&s); k.get_chain_info()->buffer_size = f; k.get_chain_info()->channels = ch; k.meta_info_sync(); x[66001] = g; k.meta_process(); AudioBuffer o = k.get_buffer(); sym_assert((int)o.size() == 70000 && (int)o.channels() == ch, "block shape"); bool ok = true; for (int i = 0; i < 70000; i++) if (i != 66001) ok &= o.at(i) == (i % 83) * 3.0 + 5.0; sym_assert(ok, "output is the modules applied in chain order"); sym_close(o.at(66001), g * 3 + 5, 1e-9, "output is the modules applied in chain order"); sym_reach("big");
}
HARNESS(h_two) { // chains side by side share nothing
    double x[2][8], g[2]; Src s[2]; AmplitudeScale<> a[2]; AmplitudeAdd<> b[2]; SinkModule<> k[2]; int f[2]; for (int q = 0; q < 2; q++) { f[q] = sym_range("frames", 1, 2); for (double &v : x[q]) v = sym_f64("x", -9, 9); s[q].x = x[q]; s[q].frames = f[q]; s[q].ch = 1 + q; a[q].set_value(g[q] = 2 + 3 * q); b[q].set_value(5 - q); k[q].link(&b[q])->link(&a[q])->link(&s[q]); k[q].get_chain_info()->buffer_size = f[q]; k[q].get_chain_info()->channels = 1 + q; k[q].get_chain_info()->sample_rate = 1000 * (q + 1); }
    k[0].meta_info_sync(); k[1].meta_info_sync(); if (sym_pick("started", 2)) k[1].meta_start(); for (int q = 0; q < 2; q++) { ModuleInfo *i = s[q].get_info(); sym_assert(i->out_buffer == f[q] && i->channels == 1 + q && i->sample_rate == 1000 * (q + 1) && k[q].get_chain_info()->module_num == 4 && s[q].get_chain_info() == k[q].get_chain_info(), "settings of its own chain"); } sym_assert(a[0].get_state() != State::Started, "states of its own chain");
    for (int r = 0; r < 2; r++) { for (int q = 0; q < 2; q++) k[q].meta_process(); for (int q = 0; q < 2; q++) { AudioBuffer o = k[q].get_buffer(); sym_assert((int)o.size() == f[q] * (1 + q), "block shape"); for (int i = 0; i < (int)o.size(); i++) sym_close(o.at(i), x[q][r * f[q] * (1 + q) + i] * g[q] + 5 - q, 1e-9, "output is the modules applied in order"); } } sym_reach("two");
}
HARNESS(h_handed) { // a block given to a module is taken over whole, whatever the module held
    int n = sym_pick("long", 2) ? 120 : 6, c1 = sym_range("channels", 1, 3), c2 = sym_range("old", 1, 3), held = sym_pick("held", 3); double v = sym_f64("v", -9, 9), rate = sym_f64("rate", 1, 192000); Mod m(1, 0); if (held) m.set_buffer(AudioBuffer((held == 1 ? n : n + 6) / c2, c2, 8000.0)); AudioBuffer b(n / c1, c1, rate); for (int i = 0; i < n; i++) b.at(i) = i; b.at(n - 1) = v; m.set_buffer(std::move(b)); AudioBuffer o = m.get_buffer(); sym_assert((int)o.size() == n && (int)o.channels() == c1, "shape taken over"); sym_close(o.get_samplerate(), rate, 0, "rate taken over"); for (int i = 0; i < n - 1; i++) sym_close(o.at(i), i, 0, "samples taken over"); sym_close(o.at(n - 1), v, 0, "samples taken over"); sym_reach("handed");
}
