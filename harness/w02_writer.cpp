// W02: the wave writer produces a canonical file for any configuration and any history of writes.
#include "sym.h"
#include "io/wav.hpp"
static uint32_t le32(const std::vector<unsigned char> &v, int at) { return v[at] | v[at + 1] << 8 | v[at + 2] << 16 | (uint32_t)v[at + 3] << 24; }
static uint16_t le16(const std::vector<unsigned char> &v, int at) { return (uint16_t)(v[at] | v[at + 1] << 8); }
static bool is(const std::vector<unsigned char> &v, int at, const char *s) { for (int i = 0; i < 4; i++) if ((char)v[at + i] != s[i]) return false; return true; }
static void header(const std::vector<unsigned char> &v, int ch, int rate, int bits, int bytes) {
    sym_assert((int)v.size() == 44 + bytes, "the file is the header followed by the audio data");
    sym_assert(is(v, 0, "RIFF") && is(v, 8, "WAVE") && is(v, 12, "fmt ") && is(v, 36, "data"), "chunk ids");
    sym_assert(le32(v, 4) == (uint32_t)(36 + bytes), "file size field");
    sym_assert(le32(v, 16) == 16 && le16(v, 20) == 1, "format chunk size and code");
    sym_assert(le16(v, 22) == ch && le32(v, 24) == (uint32_t)rate && le16(v, 34) == bits, "channels, rate and sample size fields");
    sym_assert(le32(v, 28) == (uint32_t)(ch * rate * (bits / 8)) && le16(v, 32) == ch * (bits / 8), "byte rate and block alignment fields");
    sym_assert(le32(v, 40) == (uint32_t)bytes, "data size field");
}
static void run(int bits, bool prestart) {
    sym_mode(1);
    int ch = sym_range("channels", 1, 3), rate = (int)sym_i64("rate", 1, 192000), by = bits / 8;
    CharOStream o; WaveWriter w(&o);
    if (sym_pick("order", 2)) { w.set_bits_per_sample(bits); w.set_samplerate(rate); w.set_channels(ch); } else { w.set_channels(ch); w.set_samplerate(rate); w.set_bytes_per_sample(by); }
    if (prestart) o.start();
    w.start(); sym_assert(o.good() && o.get_state() == CharOStream::mstate::started, "the stream is running after the start");
    sym_assert(o.get_array().size() == 44, "the header is written by the start");
    std::vector<unsigned char> want; int blocks = sym_range("blocks", 0, 2), tot = 0;
    for (int k = 0; k < blocks; k++) {
        int fr = sym_range("frames", 0, 2); auto b = create_buffer(fr, ch);
        for (int i = 0; i < fr * ch; i++) {
            double x = tot++ < 3 ? sym_fp("x", -1, 1) : (tot * 37 % 64 - 32) / 32.0; b->at(i) = x; unsigned char t[2];
            if (bits == 16) { int16_char(mf_int16(x), t); want.push_back(t[0]); want.push_back(t[1]); } else want.push_back(mf_uchar(x));
        }
        w.write_data(std::move(b));
    }
    w.stop(); sym_assert(o.bad(), "the stream is stopped");
    const auto &v = o.get_array(); header(v, ch, rate, bits, (int)want.size());
    for (std::size_t i = 0; i < want.size(); i++) sym_assert(v[44 + i] == want[i], "audio data is the encoded samples in order");
    sym_assert(w.get_size() == 44 + (int)want.size(), "the writer knows its size");
}
HARNESS(h_w16) { run(16, true); sym_reach("w16"); }
HARNESS(h_w8) { run(8, true); sym_reach("w8"); }
HARNESS(h_auto) { run(8, false); sym_reach("auto"); }
// sizes beyond 8 and 16 bits in the length fields
HARNESS(h_big) {
    int bits = sym_pick("bits", 2) ? 16 : 8, ch = 1 + 4 * sym_pick("channels", 3); CharOStream o; WaveWriter w(&o); w.set_bits_per_sample(bits); w.set_channels(ch); o.start(); w.start();
    int fr = 100 + 40000 * sym_pick("big", 2); auto b = create_buffer(fr, ch); w.write_data(std::move(b)); w.stop();
    header(o.get_array(), ch, 44100, bits, fr * ch * bits / 8); sym_reach("big");
}
// any configuration that the fields can hold
HARNESS(h_fields) {
    int bits = sym_pick("bits", 2) ? 16 : 8, by = bits / 8, ch = (int)sym_i64("channels", 1, 65535 / by), rate = (int)sym_i64("rate", 1, 1 << 30); sym_assume((long long)ch * rate * by < (1ll << 31)); CharOStream o; WaveWriter w(&o);
    switch (sym_pick("order", 3)) { case 0: w.set_channels(ch); w.set_samplerate(rate); w.set_bits_per_sample(bits); break; case 1: w.set_bytes_per_sample(by); w.set_channels(ch); w.set_samplerate(rate); break; default: w.set_samplerate(rate); w.set_bits_per_sample(bits); w.set_channels(ch); }
    w.start(); w.stop(); header(o.get_array(), ch, rate, bits, 0); sym_reach("fields");
}
HARNESS(h_two) { // writers side by side, each with a file of its own
    sym_mode(1); CharOStream o[2]; WaveWriter w[2]; int ch[2], bits[2], rate[2]; std::vector<unsigned char> want[2]; for (int k = 0; k < 2; k++) { w[k].set_stream(&o[k]); w[k].set_channels(ch[k] = sym_range("channels", 1, 2)); w[k].set_bits_per_sample(bits[k] = sym_pick("bits", 2) ? 16 : 8); w[k].set_samplerate(rate[k] = 8000 + 100 * k); w[k].start(); }
    for (int r = 0; r < 3; r++) for (int k = 0; k < 2; k++) { int fr = r == 1 ? 2 - k : k + sym_pick("frames", 2); auto b = create_buffer(fr, ch[k]); for (int i = 0; i < fr * ch[k]; i++) { double x = r == 1 && i == 0 ? sym_fp("x", -1, 1) : ((i + 3 * r + 7 * k) * 37 % 64 - 32) / 32.0; b->at(i) = x; unsigned char t[2]; if (bits[k] == 16) { int16_char(mf_int16(x), t); want[k].push_back(t[0]); want[k].push_back(t[1]); } else want[k].push_back(mf_uchar(x)); } w[k].write_data(std::move(b)); }
    for (int k = 0; k < 2; k++) { w[k].stop(); const auto &v = o[k].get_array(); header(v, ch[k], rate[k], bits[k], (int)want[k].size()); for (std::size_t i = 0; i < want[k].size(); i++) sym_assert(v[44 + i] == want[k][i], "audio data is the encoded samples in order"); } sym_reach("two");
}
