// W04: what is written is what is read back, for any split into writes and reads.
#include "sym.h"
#include "io/wav.hpp"
HARNESS(h_trip) {
    sym_mode(2);
    int bits = sym_pick("bits", 2) ? 16 : 8, ch = sym_range("channels", 1, 3), rate = (int)sym_i64("rate", 1, 192000), n = 0; double x[32];
    CharOStream o; o.start(); WaveWriter w(&o); w.set_channels(ch); w.set_bits_per_sample(bits); w.set_samplerate(rate); w.start();
    int blocks = sym_range("blocks", 1, 2);
    for (int k = 0; k < blocks; k++) {
        int fr = sym_range("frames", 1, 3); auto b = create_buffer(fr, ch);
        for (int i = 0; i < fr * ch; i++) { double v = n < 2 ? sym_f64("x", -1, 1) : (n * 37 % 64 - 32) / 32.0; b->at(i) = v; x[n++] = bits == 16 ? int16_mf(mf_int16(v)) : uchar_mf(mf_uchar(v)); }
        w.write_data(std::move(b));
    }
    w.stop();
    CharIStream in; in.get_array() = o.get_array(); WaveReader r(&in); r.start();
    sym_assert(r.get_channels() == ch && r.get_samplerate() == rate && r.get_bits_per_sample() == bits && r.get_format() == 1, "the configuration survives");
    sym_assert(r.get_byterate() == w.get_byterate() && r.get_blockalign() == w.get_blockalign() && r.get_size() == (int)o.get_array().size(), "derived values survive");
    int bs = sym_range("buffer", 1, 3), got = 0; r.set_buffer_size(bs);
    for (int g = 0; !r.done() && g < 20; g++) { auto b = r.get_data(); for (int i = 0; i < bs * ch; i++, got++) sym_close(b->at(i), got < n ? x[got] : 0.0, 1e-12, "the samples survive in order"); }
    sym_assert(got >= n && got < n + bs * ch, "all samples come back, no extra buffer"); sym_reach("trip");
}
HARNESS(h_long) { // blocks of hundreds of frames and many channels
    sym_mode(2); int bits = sym_pick("bits", 2) ? 16 : 8, ch = sym_pick("wide", 2) ? 10 : 1, fr = 1100 / ch; CharOStream o; WaveWriter w(&o); w.set_channels(ch); w.set_bits_per_sample(bits); w.set_samplerate(48000); w.start(); std::vector<double> x;
    for (int k = 0; k < 2; k++) { auto b = create_buffer(fr + k, ch); for (int i = 0; i < (fr + k) * ch; i++) { double v = ((int)(x.size() * 37 % 512) - 256) / 256.0; b->at(i) = v; x.push_back(bits == 16 ? int16_mf(mf_int16(v)) : uchar_mf(mf_uchar(v))); } w.write_data(std::move(b)); }
    w.stop(); CharIStream in; in.get_array() = o.get_array(); WaveReader r(&in); r.start(); std::size_t got = 0, bs = ch == 1 ? 600 : 64; r.set_buffer_size((int)bs); for (int g = 0; !r.done() && g < 20; g++) { auto b = r.get_data(); for (std::size_t i = 0; i < bs * ch; i++, got++) sym_assert(b->at(i) == (got < x.size() ? x[got] : 0.0), "the samples survive in order"); }
    sym_assert(got >= x.size() && got < x.size() + bs * ch, "all samples come back, no extra buffer"); sym_reach("long");
}
HARNESS(h_big) { // more bytes than 16 bits count
    sym_mode(2); int wide = sym_pick("wide", 2), ch = wide ? 8 : 1, bits = 8 + 8 * wide, fr = wide ? 4250 : 66000; CharOStream o; WaveWriter w(&o); w.set_channels(ch); w.set_bits_per_sample(bits); w.set_samplerate(44100); w.start(); double u = sym_f64("x", -1, 1); int n = fr * ch, late = n - 3; auto val = [](int i) { return ((int)(i * 37 % 512) - 256) / 256.0; }; { auto b = create_buffer(fr, ch); for (int i = 0; i < n; i++) b->at(i) = i == late ? u : val(i); w.write_data(std::move(b)); } w.stop();
    CharIStream in; in.get_array() = o.get_array(); WaveReader r(&in); r.start(); int bs = wide ? 8500 : 34000, got = 0; r.set_buffer_size(bs); bool ok = true; double v = 0; for (int g = 0; !r.done() && g < 5; g++) { auto b = r.get_data(); for (int i = 0; i < bs * ch; i++, got++) if (got == late) v = b->at(i); else if (got % 991 == 0 || (got >= 65500 && got < 65600)) { double e = val(got); ok &= b->at(i) == (got < n ? bits == 16 ? int16_mf(mf_int16(e)) : uchar_mf(mf_uchar(e)) : 0.0); } }
    sym_assert(ok && got >= n && got < n + bs * ch, "the samples survive in order"); sym_close(v, bits == 16 ? int16_mf(mf_int16(u)) : uchar_mf(mf_uchar(u)), 1e-12, "a late sample survives"); sym_reach("big");
}
