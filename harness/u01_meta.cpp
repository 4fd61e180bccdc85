// U01: block-shaping modules.
#include "sym.h"
#include "meta_audio.hpp"
#include "sink_module.hpp"
struct Src : SourceModule { double x[64]; int n = 0, ch = 1, calls = 0; double rate = 44100; void process() override { int f = sym_range("incoming_frames", 0, 4); if (calls >= 7) f = 6; calls++; AudioBuffer b(f, ch, rate); for (int i = 0; i < f * ch; i++) { if (n >= 64) sym_stop(); b.at(i) = x[n++] = sym_f64("x", -99, 99); } set_buffer(std::move(b)); } };
HARNESS(h_uniform) { // incoming blocks of any sizes come out re-cut to the chain's size, nothing lost, nothing taken early
    int out = sym_range("frames", 1, 4), ch = sym_range("channels", 1, 2), rounds = sym_range("rounds", 1, 2), pos = 0; Src s; s.ch = ch; UniformBuffer u; SinkModule<> k; k.link(&u)->link(&s); ChainInfo *c = k.get_chain_info(); c->buffer_size = out; c->channels = ch; double rate = c->sample_rate = s.rate = sym_f64("rate", 1, 192000); k.meta_info_sync(); k.meta_start();
    for (int r = 0; r < rounds; r++) { int had = s.n; u.meta_process(); AudioBuffer b = u.get_buffer(); sym_assert((int)b.size() == out * ch && (int)b.channels() == ch, "blocks have the chain's shape"); sym_close(b.get_samplerate(), rate, 0, "block rate"); for (int i = 0; i < out * ch; i++) sym_close(b.at(i), s.x[pos + i], 0, "the signal is unchanged"); pos += out * ch; sym_assert(had < pos || s.n == had, "no block is taken before it is needed"); }
    sym_reach("uniform");
}
HARNESS(h_repeat) { // the stored block, whole, every time, whatever the chain's settings
    int f = sym_range("frames", 0, 3), ch = sym_range("channels", 1, 3), sync = sym_pick("sync", 2), late = sym_pick("late", 2); double x[9], rate = sym_f64("rate", 1, 192000); AudioBuffer b(f, ch, rate); for (int i = 0; i < f * ch; i++) b.at(i) = x[i] = sym_f64("x", -99, 99); BufferModule early(&b), plain; BufferModule &m = late ? plain : early; if (late) m.set_rbuffer(&b); sym_assert(m.get_rbuffer() == &b, "stored block");
    if (sync) { SinkModule<> k; k.link(&m); k.get_chain_info()->buffer_size = sym_range("chain_size", 1, 4); k.get_chain_info()->channels = sym_range("chain_channels", 1, 2); k.meta_info_sync(); }
    for (int r = 0; r < 2; r++) { m.meta_process(); AudioBuffer o = m.get_buffer(); sym_assert((int)o.size() == f * ch && (int)o.channels() == ch, "the block keeps its shape"); for (int i = 0; i < f * ch; i++) { sym_close(o.at(i), x[i], 0, "the block is repeated"); o.at(i) = 555; } } for (int i = 0; i < f * ch; i++) sym_close(b.at(i), x[i], 0, "the stored block is unchanged"); sym_reach("repeat");
}
HARNESS(h_constant) { // a full block of the value, in the chain's shape
    int f = sym_range("frames", 0, 4), ch = sym_range("channels", 1, 3); double v = sym_f64("v", -1e6, 1e6), rate = sym_f64("rate", 1, 192000); ConstModule m(v); sym_close(m.get_value(), v, 0, "value"); SinkModule<> k; k.link(&m); ChainInfo *c = k.get_chain_info(); c->buffer_size = f; c->channels = ch; c->sample_rate = rate; k.meta_info_sync();
    for (int r = 0; r < 3; r++) { if (r == 1) m.set_value(v = sym_f64("v", -1e6, 1e6)); if (r == 2) { c->buffer_size = f = sym_range("frames", 0, 4); k.meta_info_sync(); } k.meta_process(); AudioBuffer o = k.get_buffer(); sym_assert((int)o.size() == f * ch && (int)o.channels() == ch, "block shape"); sym_close(o.get_samplerate(), rate, 0, "block rate"); for (int i = 0; i < f * ch; i++) sym_close(o.at(i), v, 0, "every sample has the value"); } sym_reach("constant");
}
struct Count : SourceModule { int n = 0, step = 1; void process() override { AudioBuffer b(step, get_info()->channels); for (int i = 0; i < (int)b.size(); i++) b.at(i) = n++ % 1009; set_buffer(std::move(b)); } };
static int wide() { static const int c[] = {1, 2, 7}; return c[sym_pick("channels", 3)]; } // 7 divides 70000
HARNESS(h_big) { // blocks longer than 16 bits can count
    int ch = wide(), f = 70000 / ch, step = sym_pick("incoming", 2) ? 90000 : 33333; Count s; s.step = step; UniformBuffer u; SinkModule<> k; k.link(&u)->link(&s); k.get_chain_info()->buffer_size = f; k.get_chain_info()->channels = ch; k.meta_info_sync(); int n = 0; bool ok = true; for (int q = 0; q < 2; q++) { k.meta_process(); AudioBuffer o = k.get_buffer(); sym_assert((int)o.size() == 70000, "blocks have the chain's shape"); for (int i = 0; i < 70000; i++) ok &= o.at(i) == n++ % 1009; } sym_assert(ok, "every sample in order");
    double v = sym_f64("v", -9, 9); ConstModule c(v); SinkModule<> l; l.link(&c); l.get_chain_info()->buffer_size = f; l.get_chain_info()->channels = ch; l.meta_info_sync(); l.meta_process(); AudioBuffer o = l.get_buffer(); sym_assert((int)o.size() == 70000, "blocks have the chain's shape"); for (int i = 0; i < 70000; i += 1000) sym_close(o.at(i), v, 0, "the value everywhere"); sym_close(o.at(69999), v, 0, "the value everywhere"); sym_reach("big");
}
HARNESS(h_shrink) { // the chain's block size may change at any time, whether or not the last block was taken
    double v = sym_f64("v", -9, 9); ConstModule m(v); SinkModule<> k; k.link(&m); ChainInfo *c = k.get_chain_info(); for (int r = 0; r < 3; r++) { int f = c->buffer_size = sym_range("frames", 0, 4), ch = c->channels = sym_range("channels", 1, 2); k.meta_info_sync(); if (sym_pick("taken", 2)) { k.meta_process(); AudioBuffer o = k.get_buffer(); sym_assert((int)o.size() == f * ch && (int)o.channels() == ch, "block shape"); for (int i = 0; i < f * ch; i++) sym_close(o.at(i), v, 0, "every sample has the value"); } else m.meta_process(); } sym_reach("shrink");
}
HARNESS(h_two) { // modules side by side keep their own blocks
    int out[2], pos[2] = {0, 0}; Src s[2]; UniformBuffer u[2]; SinkModule<> k[2]; for (int i = 0; i < 2; i++) { s[i].ch = 1 + i; k[i].link(&u[i])->link(&s[i]); k[i].get_chain_info()->buffer_size = out[i] = sym_range("frames", 1, 2); k[i].get_chain_info()->channels = 1 + i; s[i].calls = 9 * sym_pick("incoming", 2) + (i ? 9 : 0); if (!s[i].calls) s[i].calls = 9; k[i].meta_info_sync(); k[i].meta_start(); } for (int q = 0; q < 2; q++) for (int i = 0; i < 2; i++) { u[i].meta_process(); AudioBuffer b = u[i].get_buffer(); sym_assert((int)b.size() == out[i] * s[i].ch && (int)b.channels() == s[i].ch, "blocks have the chain's shape"); for (int j = 0; j < out[i] * s[i].ch; j++) sym_close(b.at(j), s[i].x[pos[i]++], 0, "the signal is unchanged"); } sym_reach("two");
}
HARNESS(h_other) { // blocks of another number of channels, and blocks whose frames are not whole: samples in order, in the chain's shape
    int out = sym_range("frames", 1, 3), ch = sym_range("channels", 1, 3), pos = 0; Src s; s.ch = sym_range("source_channels", 1, 3); UniformBuffer u; SinkModule<> k; k.link(&u)->link(&s); ChainInfo *c = k.get_chain_info(); c->buffer_size = out; c->channels = ch; k.meta_info_sync(); s.calls = 9 * sym_pick("long", 2); if (s.calls == 0) s.calls = 5; for (int r = 0; r < 2; r++) { if (r) { c->buffer_size = out = sym_range("frames", 1, 3); k.meta_info_sync(); } u.meta_process(); AudioBuffer b = u.get_buffer(); sym_assert((int)b.size() == out * ch && (int)b.channels() == ch, "blocks have the chain's shape"); for (int i = 0; i < out * ch; i++) sym_close(b.at(i), s.x[pos + i], 0, "the signal is unchanged"); pos += out * ch; } sym_reach("other");
}
HARNESS(h_stale) { // whatever block the module was left with
    int f = sym_range("frames", 0, 4), ch = sym_range("channels", 1, 2), sf = sym_range("stale_frames", 0, 4), how = sym_pick("how", 2); double v = sym_f64("v", -9, 9); AudioBuffer old(sf, ch); for (int i = 0; i < sf * ch; i++) old.at(i) = i == 0 || i == sf * ch - 1 ? v : sym_f64("old", -9, 9); ConstModule m(v); SinkModule<> k; k.link(&m); k.get_chain_info()->buffer_size = f; k.get_chain_info()->channels = ch; k.meta_info_sync(); m.set_buffer(std::move(old)); if (how) m.meta_process(); else m.process(); AudioBuffer o = m.get_buffer(); sym_assert((int)o.size() == f * ch && (int)o.channels() == ch, "block shape"); for (int i = 0; i < f * ch; i++) sym_close(o.at(i), v, 0, "every sample has the value"); sym_reach("stale");
}
HARNESS(h_renewed) { // the stored block as it is when asked for, whether or not the last one was taken
    int n = 1 + 47 * sym_pick("long", 2); AudioBuffer b(n, 1, 8000.0), d(n, 1, 8000.0); for (int i = 0; i < n; i++) { b.at(i) = i; d.at(i) = -i; } BufferModule m(&b); m.meta_process(); if (sym_pick("taken", 2)) m.get_buffer(); double v = sym_f64("v", -99, 99); b.at(n - 1) = v; m.meta_process(); AudioBuffer o = m.get_buffer(); sym_assert((int)o.size() == n, "the block keeps its shape"); sym_close(o.at(n - 1), v, 0, "the stored block is returned as it is now"); m.meta_process(); m.set_rbuffer(&d); m.meta_process(); AudioBuffer p = m.get_buffer(); sym_close(p.at(n - 1), -(n - 1), 0, "another block from the next call on"); sym_reach("renewed");
}
