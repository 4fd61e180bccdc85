// X01: mixers add their inputs, hand the same block to every consumer and pass chain operations on.
#include "sym.h"
#include "module_mixer.hpp"
#include "sink_module.hpp"
#include "source_module.hpp"
typedef BaseModule::State State;
static int ev[64], evn = 0; static void say(int e) { if (evn < 64) ev[evn++] = e; }
struct Src : SourceModule { int id = 0, frames = 1, ch = 1, calls = 0; double x[2][12];
    void process() override { say(id); AudioBuffer b(frames, ch); for (int i = 0; i < frames * ch; i++) b.at(i) = x[calls][i]; calls++; set_buffer(std::move(b)); }
    void start() override { say(100 + id); } void stop() override { say(200 + id); } void finish() override { say(300 + id); done(); } void info_sync() override { say(400 + id); SourceModule::info_sync(); } };
static void fill(Src &s, int id, int frames, int ch) { s.id = id; s.frames = frames; s.ch = ch; for (auto &r : s.x) for (int i = 0; i < frames * ch; i++) r[i] = sym_f64("x", -99, 99); }
template <class M> static void sums(M &m, int outs, const char *w) {
    int n = sym_range("inputs", 0, 3), f = sym_range("frames", 1, 2), ch = sym_range("channels", 1, 2), rounds = sym_range("rounds", 1, 2); double rate = sym_f64("rate", 1, 192000); Src s[3]; for (int i = 0; i < n; i++) { fill(s[i], i, sym_range("input_frames", 0, 3), ch); sym_assert(m.link(&s[i]) == &s[i], "link returns the module linked"); sym_assert(s[i].forward() == static_cast<ModuleMixDown *>(&m), "link records the mixer"); }
    sym_assert(m.num_inputs() == n, "inputs are counted"); ModuleInfo *in = static_cast<ModuleMixDown &>(m).get_info(); in->out_buffer = f; in->channels = ch; in->sample_rate = rate;
    for (int r = 0; r < rounds; r++) { evn = 0; m.meta_process(); sym_assert(evn == n, "each input is asked once"); for (int i = 0; i < n; i++) sym_assert(ev[i] == i, "each input is asked once"); 
        for (int q = 0; q < outs; q++) { AudioBuffer o = m.get_buffer(); sym_assert((int)o.size() == f * ch && (int)o.channels() == ch, "block shape"); sym_close(o.get_samplerate(), rate, 0, "block rate"); for (int i = 0; i < f * ch; i++) { double v = 0; for (int j = 0; j < n; j++) if (i < s[j].frames * ch) v += s[j].x[r][i]; sym_close(o.at(i), v, 1e-9, "output is the sum of the inputs"); } } }
    sym_reach(w);
}
HARNESS(h_down) { ModuleMixDown m; sums(m, 1, "down"); }
HARNESS(h_both) { MultiMix m; sums(m, 2, "both"); }
HARNESS(h_up) { // every consumer gets the block, whole
    int f = sym_range("frames", 0, 3), ch = sym_range("channels", 1, 3), outs = sym_range("consumers", 1, 3), rounds = sym_range("rounds", 1, 2); ModuleMixUp m; SinkModule<> k[3]; Src s; fill(s, 0, f, ch); for (int i = 0; i < outs; i++) sym_assert(k[i].link(&m) == static_cast<BaseModule *>(&m), "link returns the mixer"); sym_assert(m.num_outputs() == outs, "consumers are counted"); m.link(&s);
    ModuleInfo *in = m.get_info(); in->out_buffer = f; in->channels = ch; for (int r = 0; r < rounds; r++) { m.meta_process(); for (int q = 0; q < outs; q++) { AudioBuffer o = m.get_buffer(); sym_assert((int)o.size() == f * ch && (int)o.channels() == ch, "block shape"); for (int i = 0; i < f * ch; i++) { sym_close(o.at(i), s.x[r][i], 0, "every consumer gets the whole block"); o.at(i) = 777; } } }
    sym_reach("up");
}
HARNESS(h_meta) { // start, stop, finish and sync reach every input once
    int n = sym_range("inputs", 0, 3), up = sym_pick("multi", 2); ModuleMixDown d; MultiMix mm; ModuleMixDown &m = up ? static_cast<ModuleMixDown &>(mm) : d; SinkModule<> k; Src s[3]; k.link(&m); for (int i = 0; i < n; i++) { s[i].id = i; m.link(&s[i]); } ChainInfo *c = k.get_chain_info(); k.meta_info_sync(); sym_assert(evn == n && c->module_num == n + 2, "every module of the chain is synced once"); int fin = 0;
    for (int q = 0; q < 3; q++) { int op = sym_pick("op", 3); evn = 0; if (op == 0) k.meta_start(); else if (op == 1) k.meta_stop(); else { k.meta_finish(); fin++; } sym_assert(evn == n, "every input is told once"); for (int i = 0; i < n; i++) { sym_assert(ev[i] == 100 * (op + 1) + i, "every input is told once"); sym_assert(s[i].get_state() == (op == 0 ? State::Started : op == 1 ? State::Stopped : State::Finished), "inputs have the new state"); }
        sym_assert(m.get_state() == (op == 0 ? State::Started : op == 1 ? State::Stopped : State::Finished), "the mixer has the new state"); sym_assert(c->module_finish == fin * (n + 2), "finished modules are counted"); }
    sym_reach("meta");
}
HARNESS(h_info) { // settings pass through mixers to every input
    int which = sym_pick("mixer", 3), n = which == 1 ? 1 : sym_range("inputs", 1, 3); ModuleMixDown d; ModuleMixUp u; MultiMix mm; BaseModule *m = which == 0 ? (BaseModule *)&d : which == 1 ? (BaseModule *)&u : static_cast<BaseModule *>(&mm); SinkModule<> k; Src s[3]; k.link(m); for (int i = 0; i < n; i++) m->link(&s[i]); ChainInfo *c = k.get_chain_info(); double rate = c->sample_rate = sym_f64("rate", 1, 192000); int size = c->buffer_size = (int)sym_i64("size", 1, 100000), ch = c->channels = (int)sym_i64("channels", 1, 64); k.meta_info_sync();
    for (int i = -1; i < n; i++) { BaseModule *b = i < 0 ? m : &s[i]; ModuleInfo *x = b->get_info(); sym_close(x->sample_rate, rate, 0, "sample rate"); sym_assert(x->in_buffer == size && x->out_buffer == size && x->channels == ch, "sizes and channels"); sym_assert(b->get_chain_info() == c, "chain information is shared"); } SinkModule<> k2; ModuleMixDown d2; ModuleMixUp u2; BaseModule *m2 = which == 1 ? (BaseModule *)&u2 : &d2; k2.link(m2); m2->link(&s[0]); k2.get_chain_info()->channels = ch + 1; k2.meta_info_sync(); sym_assert(s[0].get_chain_info() == k2.get_chain_info() && s[0].get_info()->channels == ch + 1, "a module linked into another chain belongs to that chain"); sym_reach("info");
}
struct Long : SourceModule { double v; void process() override { AudioBuffer b(get_info()->out_buffer, get_info()->channels); for (int i = 0; i < (int)b.size(); i++) b.at(i) = i % 79; b.at(66001) = v; set_buffer(std::move(b)); } };
HARNESS(h_big) { // blocks longer than 16 bits can count, many inputs
    int up = sym_pick("multi", 2), n = 70000, ch = sym_pick("channels", 2) ? 7 : 1; ModuleMixDown d; MultiMix mm; ModuleMixDown &m = up ? static_cast<ModuleMixDown &>(mm) : d; SinkModule<> k; k.link(&m); Long s[2]; for (Long &x : s) { x.v = sym_f64("v", -9, 9); m.link(&x); } k.get_chain_info()->buffer_size = n / ch; k.get_chain_info()->channels = ch; k.meta_info_sync(); k.meta_process(); AudioBuffer o = k.get_buffer(); sym_assert((int)o.size() == n, "block shape"); bool ok = true; for (int i = 0; i < n; i++) if (i != 66001) ok &= o.at(i) == 2.0 * (i % 79); sym_assert(ok, "output is the sum of the inputs"); sym_close(o.at(66001), s[0].v + s[1].v, 1e-9, "output is the sum of the inputs"); sym_reach("big");
}
HARNESS(h_many) { // many inputs, many consumers
    int n = sym_range("inputs", 40, 41) * 7; ModuleMixDown m; std::vector<Src> s(n); for (Src &x : s) { x.frames = 1; x.ch = 1; x.x[0][0] = 1; m.link(&x); } s[n - 1].x[0][0] = sym_f64("x", -9, 9); m.get_info()->out_buffer = 1; m.get_info()->channels = 1; sym_assert(m.num_inputs() == n, "inputs are counted"); m.meta_process(); AudioBuffer o = m.get_buffer(); sym_close(o.at(0), n - 1 + s[n - 1].x[0][0], 1e-9, "output is the sum of the inputs"); ModuleMixUp u; std::vector<SinkModule<>> k(300); for (auto &x : k) x.link(&u); sym_assert(u.num_outputs() == 300, "consumers are counted"); sym_reach("many");
}
HARNESS(h_two) { // mixers side by side keep their own blocks
    ModuleMixDown d[2]; ModuleMixUp u[2]; Src s[2][2], t[2]; SinkModule<> k[2][2]; for (int q = 0; q < 2; q++) { int ch = 1 + q; for (int i = 0; i < 2; i++) { fill(s[q][i], i, 2, ch); d[q].link(&s[q][i]); k[q][i].link(&u[q]); } fill(t[q], 0, 1 + q, ch); u[q].link(&t[q]); d[q].get_info()->out_buffer = 2; d[q].get_info()->channels = ch; u[q].get_info()->out_buffer = 1 + q; u[q].get_info()->channels = ch; }
    for (int r = 0; r < 2; r++) { int first = sym_pick("first", 2); for (int w = 0; w < 2; w++) { int q = first ^ w; d[q].meta_process(); u[q].meta_process(); } for (int q = 0; q < 2; q++) { int ch = 1 + q; AudioBuffer o = d[q].get_buffer(); sym_assert((int)o.size() == 2 * ch, "block shape"); for (int i = 0; i < 2 * ch; i++) sym_close(o.at(i), s[q][0].x[r][i] + s[q][1].x[r][i], 1e-9, "output is the sum of the inputs"); for (int c = 0; c < 2; c++) { AudioBuffer y = u[q].get_buffer(); sym_assert((int)y.size() == (1 + q) * ch, "block shape"); for (int i = 0; i < (1 + q) * ch; i++) sym_close(y.at(i), t[q].x[r][i], 0, "every consumer gets the whole block"); } } } sym_reach("two");
}
HARNESS(h_shapes) { // inputs of any number of channels: samples in order, silence after the last
    int multi = sym_pick("multi", 2), f = sym_range("frames", 0, 2), ch = sym_range("channels", 1, 3); ModuleMixDown d; MultiMix mm; ModuleMixDown &m = multi ? static_cast<ModuleMixDown &>(mm) : d; Src s[3]; int n = sym_range("inputs", 2, 3); for (int i = 0; i < n; i++) { if (i < 2) fill(s[i], i, sym_range("input_frames", 0, 3), sym_range("input_channels", 1, 3)); else fill(s[i], i, 1, sym_range("input_channels", 1, 2)); m.link(&s[i]); } m.get_info()->out_buffer = f; m.get_info()->channels = ch; m.meta_process(); AudioBuffer o = m.get_buffer(); sym_assert((int)o.size() == f * ch && (int)o.channels() == ch, "block shape"); for (int i = 0; i < f * ch; i++) { double v = 0; for (int j = 0; j < n; j++) if (i < s[j].frames * s[j].ch) v += s[j].x[0][i]; sym_close(o.at(i), v, 1e-9, "output is the sum of the inputs"); } sym_reach("shapes");
}
