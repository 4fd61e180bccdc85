// C02: byte codecs are little-endian and lossless for every value, and writing a buffer out follows its layout.
#include "sym.h"
#include "audio_buffer.hpp"
#include <vector>
#include <cstdint>
template <class C> static void i16() {
    int16_t v = (int16_t)sym_i64("v", -32768, 32767);
    C b[4] = {11, 11, 11, 11}; int16_char(v, b + 1);
    sym_assert((unsigned char)b[1] == (unsigned char)(v & 0xff) && (unsigned char)b[2] == (unsigned char)((v >> 8) & 0xff), "int16 bytes are little-endian");
    sym_assert(b[0] == 11 && b[3] == 11, "int16 writes two bytes");
    sym_assert(char_int16(b + 1) == v, "int16 survives the round trip");
    C q[2] = {(C)sym_i64("b0", 0, 255), (C)sym_i64("b1", 0, 255)};
    int16_t r = char_int16(q); sym_assert((uint16_t)r == (uint16_t)((unsigned char)q[0] | ((unsigned char)q[1] << 8)), "int16 value of two bytes");
    C o[2]; int16_char(r, o); sym_assert(o[0] == q[0] && o[1] == q[1], "int16 bytes survive the round trip");
}
template <class C> static void i32() {
    int32_t v = (int32_t)sym_i64("v", INT32_MIN, INT32_MAX); uint32_t u = (uint32_t)sym_i64("u", 0, UINT32_MAX);
    C b[6] = {11, 11, 11, 11, 11, 11}; int32_char(v, b + 1); bool le = true;
    for (int i = 0; i < 4; i++) le = le & ((unsigned char)b[1 + i] == (unsigned char)((uint32_t)v >> (8 * i)));
    sym_assert(le, "int32 bytes are little-endian"); sym_assert(b[0] == 11 && b[5] == 11, "int32 writes four bytes");
    sym_assert(char_int32(b + 1) == v, "int32 survives the round trip");
    uint32_char(u, b + 1); le = true;
    for (int i = 0; i < 4; i++) le = le & ((unsigned char)b[1 + i] == (unsigned char)(u >> (8 * i)));
    sym_assert(le, "uint32 bytes are little-endian"); sym_assert(b[0] == 11 && b[5] == 11, "uint32 writes four bytes");
    sym_assert(char_uint32(b + 1) == u, "uint32 survives the round trip");
}
HARNESS(h_codec) {
    switch (sym_pick("kind", 6)) { case 0: i16<char>(); break; case 1: i16<unsigned char>(); break; case 2: i16<signed char>(); break; case 3: i32<char>(); break; case 4: i32<unsigned char>(); break; case 5: i32<signed char>(); break; }
    sym_reach("codec");
}
HARNESS(h_iter) { // through container iterators
    std::vector<char> b(8, 7); int at = sym_range("at", 0, 4); int32_t v = (int32_t)sym_i64("v", INT32_MIN, INT32_MAX);
    int32_char(v, b.begin() + at); sym_assert(char_int32(b.begin() + at) == v, "int32 through iterators");
    for (int i = 0; i < 8; i++) if (i < at || i >= at + 4) sym_assert(b[i] == 7, "neighbouring bytes are untouched");
    int16_char((int16_t)v, b.begin() + at); sym_assert(char_int16(b.begin() + at) == (int16_t)v, "int16 through iterators");
    sym_reach("iter");
}
HARNESS(h_squish) { // whole-buffer conversion visits every sample once in the documented order
    int ch = sym_range("channels", 1, 3), cap = sym_range("frames", 1, 4), n = ch * cap; AudioBuffer b(cap, ch); double ref[12];
    for (int i = 0; i < n; i++) { ref[i] = sym_f64i("x", -9, 9); b.at(i) = ref[i]; }
    std::vector<double> o(n + 1, 55); squish_inter(&b, o.begin(), mf_null);
    for (int i = 0; i < n; i++) sym_close(o[i], ref[i], 0, "interleaved conversion order");
    std::vector<double> s(n + 1, 55); squish_seq(&b, s.begin(), mf_null);
    for (int i = 0; i < n; i++) sym_close(s[i], ref[i / cap + ch * (i % cap)], 0, "sequential conversion order");
    sym_close(o[n], 55, 0, "conversion writes exactly the buffer"); sym_close(s[n], 55, 0, "conversion writes exactly the buffer");
    std::vector<double> z(n, 55); squish_null(&b, z.begin(), mf_null); for (int i = 0; i < n; i++) sym_close(z[i], 55, 0, "the null conversion writes nothing");
    for (int i = 0; i < n; i++) sym_close(b.at(i), ref[i], 0, "conversion leaves the buffer unchanged");
    sym_reach("squish");
}
HARNESS(h_big) { // large buffers
    int ch = sym_range("channels", 1, 2), cap = 70000 / ch, n = 70000; AudioBuffer b(cap, ch); for (int i = 0; i < n; i++) b.at(i) = i; std::vector<double> o(n + 1, -1), s(n + 1, -1); squish_inter(&b, o.begin(), mf_null); squish_seq(&b, s.begin(), mf_null); bool ok = true; for (int i = 0; i < n; i++) ok &= o[i] == i; sym_assert(ok && o[n] == -1, "interleaved conversion order"); for (int i = 0; i < n; i++) ok &= s[i] == i / cap + ch * (i % cap); sym_assert(ok && s[n] == -1, "sequential conversion order"); sym_reach("big");
}
HARNESS(h_mixed) { // conversions of buffers of any shape one after another
    for (int q = 0; q < 2; q++) { int ch = sym_range("channels", 1, 3), cap = sym_range("frames", 1, 3), n = ch * cap; AudioBuffer b(cap, ch); for (int i = 0; i < n; i++) b.at(i) = sym_f64("x", -9, 9); std::vector<double> o(n), s(n); squish_inter(&b, o.begin(), mf_null); squish_seq(&b, s.begin(), mf_null); for (int i = 0; i < n; i++) { sym_close(o[i], b.at(i), 0, "interleaved conversion order"); sym_close(s[i], b.at(i / cap + ch * (i % cap)), 0, "sequential conversion order"); } } sym_reach("mixed");
}
