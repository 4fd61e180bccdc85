// C01: sample format conversions (IEEE double arithmetic, decided by the solver's floating-point theory).
#include "sym.h"
#include "audio_buffer.hpp"
#include <cmath>
#include <cstdint>
// every stored value decodes into [-1,1] and encodes back to itself; [lo,hi) is one slice of the format's range
template <class I, class F, class G> static void rt(long lo, long hi, F dec, G enc, int mode = 1) {
    sym_mode(mode);
    I v = (I)sym_i64("v", lo, hi - 1);
    double d = dec(v);
    double slack = mode == 2 ? 1e-9 : 0; // the exact-real model carries a rounding bound
    sym_assert(d >= -1.0 - slack && d <= 1.0 + slack, "a decoded sample lies in [-1,1]");
    sym_assert(enc(d) == v, "encoding a decoded sample returns the same stored value");
    sym_reach("rt");
}
#define I16(k) HARNESS(h_i16_##k) { rt<int16_t>(-32768 + k * 4096, -32768 + (k + 1) * 4096, int16_mf, mf_int16); }
I16(0) I16(1) I16(2) I16(3) I16(4) I16(5) I16(6) I16(7) I16(8) I16(9) I16(10) I16(11) I16(12) I16(13) I16(14) I16(15)
HARNESS(h_u16) { rt<uint16_t>(0, 65536, uint16_mf, mf_uint16, 2); }
HARNESS(h_i8) { rt<char>(-128, 128, char_mf, mf_char); }
HARNESS(h_u8) { rt<unsigned char>(0, 256, uchar_mf, mf_uchar, 2); }

// any sample in [-1,1] encodes to the scaled value, off by less than one step, without leaving the range
template <class G> static void enc(double pos, double neg, G f) { // IEEE
    sym_mode(1);
    double x = sym_fp("x", -1, 1), want = x < 0 ? x * neg : x * pos, got = (double)f(x);
    sym_assert(std::fabs(got - want) < 1, "encoded value is the scaled sample to within one step");
    sym_reach("enc");
}
template <class G> static void encu(double half, G f) { // exact reals with a rounding bound
    sym_mode(2);
    double x = sym_f64("x", -1, 1), want = (x + 1) * half, got = (double)f(x);
    sym_close(got, want, 0.5000001, "encoded value is the nearest scaled sample");
    sym_reach("enc");
}
HARNESS(h_enc_i16) { enc(32767, 32768, mf_int16); }
HARNESS(h_enc_i8) { enc(127, 128, mf_char); }
HARNESS(h_enc_u16) { encu(32767.5, mf_uint16); }
HARNESS(h_enc_u8) { encu(127.5, mf_uchar); }
// louder never encodes quieter
template <class G> static void mono(G f) { double x = sym_fp("x", -1, 1), y = sym_fp("y", -1, 1); sym_assume(x <= y); sym_assert(f(x) <= f(y), "encoding is monotone"); sym_reach("mono"); }
HARNESS(h_mono_i16) { mono(mf_int16); }
HARNESS(h_mono_i8) { mono(mf_char); }
HARNESS(h_mono_u16) { mono(mf_uint16); }
HARNESS(h_mono_u8) { mono(mf_uchar); }
// order is kept when decoding too, and the ends of the scale map to the ends of the scale
template <class I, class F> static void dmono(long lo, long hi, F dec) { sym_mode(1); I v = (I)sym_i64("v", lo, hi - 1); sym_assert(dec(v) < dec((I)(v + 1)), "decoding is strictly increasing"); sym_reach("dmono"); }
HARNESS(h_dmono_i16) { dmono<int16_t>(-32768, 32767, int16_mf); }
HARNESS(h_dmono_u16) { dmono<uint16_t>(0, 65535, uint16_mf); }
HARNESS(h_dmono_i8) { dmono<char>(-128, 127, char_mf); }
HARNESS(h_dmono_u8) { dmono<unsigned char>(0, 255, uchar_mf); }
HARNESS(h_ends) {
    sym_assert(int16_mf(-32768) == -1 && int16_mf(32767) == 1 && int16_mf(0) == 0, "int16 scale");
    sym_assert(uint16_mf(0) == -1 && uint16_mf(65535) == 1, "uint16 scale");
    sym_assert(char_mf(-128) == -1 && char_mf(127) == 1 && char_mf(0) == 0, "char scale");
    sym_assert(uchar_mf(0) == -1 && uchar_mf(255) == 1, "uchar scale");
    sym_assert(mf_int16(-1) == -32768 && mf_int16(1) == 32767 && mf_int16(0) == 0, "int16 encode scale");
    sym_assert(mf_uint16(-1) == 0 && mf_uint16(1) == 65535, "uint16 encode scale");
    sym_assert(mf_char(-1) == -128 && mf_char(1) == 127 && mf_char(0) == 0, "char encode scale");
    sym_assert(mf_uchar(-1) == 0 && mf_uchar(1) == 255, "uchar encode scale");
    sym_reach("ends");
}
HARNESS(h_float) {
    double x = sym_fp("x", -1, 1); float f = mf_float(x);
    sym_assert((double)f >= -1 && (double)f <= 1, "float stays in range");
    sym_assert(std::fabs((double)f - x) <= std::ldexp(1.0, -25), "float conversion is the nearest float");
    sym_assert(mf_float((double)f) == f, "a float sample is unchanged");
    double y = sym_fp("y", -1e6, 1e6); sym_bits(mf_null(y), y, "the null conversion changes nothing");
    sym_reach("float");
}
