// R01: module parameters.
#include "sym.h"
#include "meta_audio.hpp"
#include "module_param.hpp"
typedef BaseModule::State State;
static int ev[32], evn = 0; static void say(int e) { if (evn < 32) ev[evn++] = e; }
HARNESS(h_value) { // a constant parameter is a block of its value in the owner's shape, also after the value changes
    AudioModule<> m; ModuleInfo *i = m.get_info(); double v = sym_f64("v", -1e6, 1e6); ModuleParam p(v); ConstModule other; bool conf = false; int f = 0, ch = 0; double rate = 0;
    for (int q = 0; q < 3; q++) { int op = sym_pick("op", 4); if (op == 0 || !conf) { i->in_buffer = f = sym_range("frames", 0, 3); i->out_buffer = sym_range("other", 1, 3); i->channels = ch = sym_range("channels", 1, 2); i->sample_rate = rate = sym_f64("rate", 1, 192000); p.conf_mod(&m); conf = true; } else if (op == 1) p.set_constant(v = sym_f64("v", -1e6, 1e6)); else if (op == 3) { other.set_value(v = sym_f64("v", -1e6, 1e6)); p.link(&other); p.conf_mod(&m); }
        AudioBuffer o = p.get(); sym_assert((int)o.size() == f * ch && (int)o.channels() == ch, "a parameter has its owner's block shape"); sym_close(o.get_samplerate(), rate, 0, "a parameter has its owner's rate"); for (int k = 0; k < f * ch; k++) sym_close(o.at(k), v, 0, "a constant parameter has its value everywhere"); }
    sym_reach("value");
}
struct Src : SourceModule { double x[8]; int calls = 0; int id = 0; void process() override { reserve(); for (int i = 0; i < (int)buff.size(); i++) buff.at(i) = x[i] = sym_f64("x", -9, 9); calls++; } void start() override { say(100 + id); } void stop() override { say(200 + id); } };
HARNESS(h_chain) { // a parameter fed by modules delivers their output, one block per request
    Src s, s2; ModuleParam a(&s), b(2.5); ModuleParam &p = sym_pick("late", 2) ? (b.link(&s), b) : a; AudioModule<> m; ModuleInfo *i = m.get_info(); i->in_buffer = i->out_buffer = 2; int ch = i->channels = sym_range("channels", 1, 2); i->sample_rate = 8000; p.conf_mod(&m); sym_assert(p.get_chain_info()->module_num == 2 && s.get_info()->out_buffer == 2 && s.get_info()->channels == ch, "the owner's settings reach the parameter's chain");
    for (int q = 1; q <= 2; q++) { AudioBuffer o = p.get(); sym_assert(s.calls == q && (int)o.size() == 2 * ch, "one block per request"); for (int k = 0; k < 2 * ch; k++) sym_close(o.at(k), s.x[k], 0, "the module's output"); } sym_reach("chain");
}
template <class B> struct Own : B { int id; Own(int i, ModuleParam *p, ModuleParam *q) : B(p, q), id(i) {} void start() override { say(100 + id); } void stop() override { say(200 + id); } };
template <class B> struct OwnSink : B { int id; OwnSink(int i, ModuleParam *p, ModuleParam *q) : B(p, q), id(i) {} };
HARNESS(h_owner) { // starting, stopping and syncing a module does the same to its parameters
    int kind = sym_pick("kind", 3), f = (int)sym_i64("frames", 1, 10000), ch = (int)sym_i64("channels", 1, 8); double rate = sym_f64("rate", 1, 192000); Src back, s1, s2; back.id = 3; s1.id = 1; s2.id = 2; ModuleParam p(&s1), q(&s2); Own<ParamModule<2>> m(9, &p, &q); Own<ParamSource<2>> s(9, &p, &q); OwnSink<ParamSink<2>> k(9, &p, &q); SinkModule<> end; BaseModule *top; ChainInfo *c;
    BaseParamModule<2> *par = kind == 0 ? (BaseParamModule<2> *)&m : kind == 1 ? (BaseParamModule<2> *)&s : (BaseParamModule<2> *)&k; sym_assert((*par->get_array())[0] == &p && (*par->get_array())[1] == &q, "parameters are kept in order");
    if (kind == 0) { end.link(&m)->link(&back); top = &end; c = end.get_chain_info(); } else if (kind == 1) { end.link(&s); top = &end; c = end.get_chain_info(); } else { k.link(&back); top = &k; c = k.get_chain_info(); }
    c->buffer_size = f; c->channels = ch; c->sample_rate = rate; top->meta_info_sync(); sym_assert(c->module_num == (kind == 0 ? 3 : 2), "parameters are not part of the owner's chain"); for (Src *x : {&s1, &s2}) { sym_assert(x->get_info()->out_buffer == f && x->get_info()->channels == ch, "the owner's settings reach the parameters"); sym_close(x->get_info()->sample_rate, rate, 0, "the owner's settings reach the parameters"); }
    for (int r = 0; r < 2; r++) { bool st = sym_pick("stop", 2); evn = 0; if (st) top->meta_stop(); else top->meta_start(); int n1 = 0, n2 = 0, n3 = 0, n9 = 0; for (int i = 0; i < evn; i++) { int e = ev[i] - (st ? 200 : 100); n1 += e == 1; n2 += e == 2; n3 += e == 3; n9 += e == 9; } sym_assert(n1 == 1 && n2 == 1 && n3 == (kind == 1 ? 0 : 1) && n9 == (kind == 2 ? 0 : 1) && evn == n1 + n2 + n3 + n9, "owner, parameters and the modules behind them are told once"); State w = st ? State::Stopped : State::Started; sym_assert(p.get_state() == w && q.get_state() == w && s1.get_state() == w && s2.get_state() == w && top->get_state() == w, "and have the new state"); }
    sym_reach("owner");
}
HARNESS(h_big) { // blocks of more samples than 16 bits count
    AudioModule<> m; ModuleInfo *i = m.get_info(); int ch = sym_pick("channels", 2) ? 300 : 1, f = ch == 1 ? 70000 : 250; double v = sym_f64("v", -9, 9); ModuleParam p(v); i->in_buffer = i->out_buffer = f; i->channels = ch; i->sample_rate = sym_f64("rate", 1, 192000); p.conf_mod(&m); AudioBuffer o = p.get(); sym_assert((int)o.size() == f * ch && (int)o.channels() == ch, "a parameter has its owner's block shape"); for (int k : {0, 255, 256, 65535, 65536, 69999}) sym_close(o.at(k), v, 0, "a constant parameter has its value everywhere"); sym_reach("big");
}
HARNESS(h_two) { // parameters side by side, constant or fed by modules
    AudioModule<> m[2]; Src s; ModuleParam p[2]; double v[2]; int f[2], ch[2], fed = sym_pick("fed", 2); for (int k = 0; k < 2; k++) { m[k].get_info()->in_buffer = m[k].get_info()->out_buffer = f[k] = sym_range("frames", 1, 2); m[k].get_info()->channels = ch[k] = sym_range("channels", 1, 2); m[k].get_info()->sample_rate = 8000 * (k + 1); if (k && fed) p[k].link(&s); else p[k].set_constant(v[k] = sym_f64("v", -9, 9)); p[k].conf_mod(&m[k]); }
    for (int r = 0; r < 2; r++) for (int k = 0; k < 2; k++) { AudioBuffer o = p[k].get(); sym_assert((int)o.size() == f[k] * ch[k] && (int)o.channels() == ch[k], "a parameter has its owner's block shape"); sym_close(o.get_samplerate(), 8000 * (k + 1), 0, "a parameter has its owner's rate"); for (int i = 0; i < f[k] * ch[k]; i++) sym_close(o.at(i), k && fed ? s.x[i] : v[k], 0, "its own value"); } sym_reach("two");
}
