// W05: no byte sequence makes the reader read outside its memory, hang or return a wrongly shaped buffer.
#include "sym.h"
#include "io/wav.hpp"
typedef std::vector<unsigned char> V;
static void put(V &v, const char *s) { for (int i = 0; i < 4; i++) v.push_back((unsigned char)s[i]); }
static void sy(V &v, int n) { for (int i = 0; i < n; i++) v.push_back((unsigned char)sym_i64("byte", 0, 255)); }
static void p32(V &v, uint32_t x) { for (int i = 0; i < 4; i++) v.push_back((unsigned char)(x >> (8 * i))); }
static void eat(V &v) {
    sym_mode(2);
    CharIStream in; in.get_array() = v; WaveReader r(&in); sym_budget(0); r.start(); int ch = r.get_channels(); if (ch > 8) sym_stop();
    r.set_buffer_size(2);
    for (int k = 0; k < 3; k++) { auto b = r.get_data(); sym_assert((int)b->size() == 2 * ch && (int)b->channels() == ch, "buffer shape"); }
    sym_budget(0);
}
HARNESS(h_short) { int n = sym_range("length", 0, 43); V v; put(v, "RIFF"); p32(v, 60); put(v, "WAVE"); put(v, "fmt "); p32(v, 16); for (int i = 0; i < 23; i++) v.push_back((unsigned char)(i == 2 ? 1 : i == 14 ? 16 : 7)); v.resize(n); eat(v); sym_reach("short"); }
HARNESS(h_ids) { V v; sy(v, 4); p32(v, 40); sy(v, 4); sy(v, 4); p32(v, 16); for (int i = 0; i < 16; i++) v.push_back(i == 2 || i == 0 ? 1 : i == 14 ? 16 : 0); put(v, "data"); p32(v, 4); sy(v, 4); eat(v); sym_reach("ids"); }
HARNESS(h_sizes) { V v; put(v, "RIFF"); sy(v, 4); put(v, "WAVE"); put(v, "fmt "); sy(v, 4); for (int i = 0; i < 16; i++) v.push_back(i == 2 || i == 0 ? 2 : i == 14 ? 16 : 0); put(v, "data"); sy(v, 4); sy(v, 6); eat(v); sym_reach("sizes"); }
HARNESS(h_unknown) { V v; put(v, "RIFF"); p32(v, 4 + 24 + 20); put(v, "WAVE"); put(v, "fmt "); p32(v, 16); for (int i = 0; i < 16; i++) v.push_back(i == 2 || i == 0 ? 1 : i == 14 ? 8 : 0); put(v, "junk"); sy(v, 4); put(v, "data"); sy(v, 4); sy(v, 4); eat(v); sym_reach("unknown"); }
HARNESS(h_format) { V v; put(v, "RIFF"); p32(v, 60); put(v, "WAVE"); put(v, "fmt "); p32(v, 16); sy(v, 2); v.push_back((unsigned char)sym_range("channels", 0, 3)); v.push_back(0); for (int i = 0; i < 2; i++) { sy(v, 1); v.push_back(0x10); v.push_back(0); v.push_back(0); } sy(v, 4); put(v, "data"); p32(v, 12); sy(v, 8); eat(v); sym_reach("format"); }
HARNESS(h_claim) { // a chunk that claims more than there is hides what follows
    V v; static const uint32_t at[] = {24, 4096, 0x7fffffffu, 0x80000000u, 0x80000010u, 0xfffffff0u, 0xfffffffeu, 0xffffffffu}; uint32_t n = at[sym_pick("size", 8)]; int where = sym_pick("where", 2); put(v, "RIFF"); p32(v, sym_pick("riff", 2) ? 0xfffffff0u : 72); put(v, "WAVE"); if (where) { put(v, "junk"); p32(v, n); } put(v, "fmt "); p32(v, 16); for (int i = 0; i < 16; i++) v.push_back(i == 2 || i == 0 ? 1 : i == 14 ? 16 : 0); if (!where) { put(v, "junk"); p32(v, n); } put(v, "data"); p32(v, 12); for (int i = 0; i < 12; i++) v.push_back((unsigned char)(i + 1)); if (where && n == 24) sym_stop();
    sym_mode(2); CharIStream in; in.get_array() = v; WaveReader r(&in); r.start(); r.set_buffer_size(4); for (int k = 0; k < 3; k++) { auto b = r.get_data(); for (std::size_t i = 0; i < b->size(); i++) sym_close(b->at(i), 0, 0, "a skipped chunk is not taken for audio"); } sym_assert(in.bad() && r.done(), "the reader ends with its stream"); sym_reach("claim");
}
