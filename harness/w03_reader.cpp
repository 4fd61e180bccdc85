// W03: the wave reader returns the samples of any well-formed RIFF file, whatever its chunks and the read sizes.
#include "sym.h"
#include "io/wav.hpp"
typedef std::vector<unsigned char> V;
static void p32(V &v, uint32_t x) { for (int i = 0; i < 4; i++) v.push_back((unsigned char)(x >> (8 * i))); }
static void p16(V &v, unsigned x) { v.push_back((unsigned char)x); v.push_back((unsigned char)(x >> 8)); }
static void id(V &v, const char *s) { for (int i = 0; i < 4; i++) v.push_back((unsigned char)s[i]); }
static int other = 0;
static void extra(V &v, int n) { id(v, other++ % 2 ? "LIST" : "fact"); p32(v, n); for (int i = 0; i < n; i++) v.push_back((unsigned char)sym_i64("junk", 0, 255)); if (n & 1) v.push_back(0); }
static double dec(int bits, unsigned char a, unsigned char b) { return bits == 16 ? int16_mf((int16_t)(uint16_t)(a | b << 8)) : uchar_mf(a); }
struct File { V v; int ch, bits, rate, n = 0; double s[32]; };
static void fmt(File &f, int extended) {
    id(f.v, "fmt "); p32(f.v, 16 + extended); p16(f.v, 1); p16(f.v, f.ch); p32(f.v, f.rate); p32(f.v, (uint32_t)((long long)f.rate * f.ch * f.bits / 8)); p16(f.v, f.ch * f.bits / 8); p16(f.v, f.bits);
    for (int i = 0; i < extended; i++) f.v.push_back((unsigned char)sym_i64("ext", 0, 255));
}
static void data(File &f, int frames, int nsym) {
    int n = frames * f.ch * f.bits / 8; id(f.v, "data"); p32(f.v, n); V d;
    for (int i = 0; i < n; i++) d.push_back(nsym > 0 && (f.n * f.bits / 8 + i) < nsym ? (unsigned char)sym_i64("byte", 0, 255) : (unsigned char)(i * 77 + f.n * 31 + 5));
    for (int i = 0; i < n; i += f.bits / 8) f.s[f.n++] = dec(f.bits, d[i], f.bits == 16 ? d[i + 1] : 0);
    for (auto x : d) f.v.push_back(x); if (n & 1) f.v.push_back(0);
}
static void begin(File &f) { id(f.v, "RIFF"); p32(f.v, 0); id(f.v, "WAVE"); f.rate = (int)sym_i64("rate", 1, 192000); }
static void finish(File &f) { uint32_t s = f.v.size() - 8; for (int i = 0; i < 4; i++) f.v[4 + i] = (unsigned char)(s >> (8 * i)); }
static void check(File &f, int bs, bool tail = false) {
    CharIStream in; in.get_array() = f.v; WaveReader r(&in); r.start();
    sym_assert(!r.done() || f.n == 0, "a fresh file is not done");
    sym_assert(r.get_channels() == f.ch && r.get_samplerate() == f.rate && r.get_bits_per_sample() == f.bits && r.get_bytes_per_sample() == f.bits / 8 && r.get_format() == 1, "format fields");
    sym_assert(r.get_byterate() == (long long)f.rate * f.ch * f.bits / 8 && r.get_blockalign() == f.ch * f.bits / 8 && r.get_size() == (int)f.v.size(), "rates and sizes");
    int got = 0, calls = 0; r.set_buffer_size(bs); sym_assert(r.get_buffer_size() == bs, "buffer size");
    while (!r.done()) {
        sym_assert(++calls <= f.n + 2, "reading ends"); if (calls > f.n + 2) sym_stop();
        auto b = r.get_data(); sym_assert((int)b->size() == bs * f.ch && (int)b->channels() == f.ch, "every buffer has the requested size and the file's channels");
        sym_close(b->get_samplerate(), f.rate, 0, "every buffer has the file's sample rate");
        for (int i = 0; i < bs * f.ch; i++, got++) sym_close(b->at(i), got < f.n ? f.s[got] : 0.0, 1e-12, "samples come in order, silence after the last");
    }
    int need = (f.n + bs * f.ch - 1) / (bs * f.ch); sym_assert(calls <= (need ? need : 1) + tail, "the reader is done when the last sample has been returned"); sym_assert(got >= f.n, "every sample is returned before the reader is done"); sym_assert(in.bad(), "the stream is stopped at the end");
    auto b = r.get_data(); sym_assert((int)b->size() == bs * f.ch, "a finished reader returns silence");
    for (int i = 0; i < bs * f.ch; i++) sym_close(b->at(i), 0, 0, "a finished reader returns silence");
}
HARNESS(h_plain) { // one data chunk, any read size
    sym_mode(2); File f; f.bits = sym_pick("bits", 2) ? 16 : 8; f.ch = sym_range("channels", 1, 3); begin(f); fmt(f, 0); data(f, sym_range("frames", 0, 5), 3); finish(f);
    check(f, sym_range("buffer", 1, 6)); sym_reach("plain");
}
HARNESS(h_chunks) { // unknown chunks anywhere, extended format chunks
    sym_mode(2); File f; f.bits = sym_pick("bits", 2) ? 16 : 8; f.ch = sym_range("channels", 1, 2); begin(f); other = 0;
    if (sym_pick("before", 2)) extra(f.v, sym_range("size", 0, 5));
    static const int e[] = {0, 2, 24}; fmt(f, e[sym_pick("extended", 3)]);
    int mid = sym_pick("between", 3); for (int i = 0; i < mid; i++) extra(f.v, 3 - 2 * i + sym_pick("odd", 2));
    data(f, sym_range("frames", 1, 3), 0); bool tail = sym_pick("after", 2); if (tail) extra(f.v, sym_range("tail", 1, 4)); finish(f);
    check(f, sym_range("buffer", 1, 3), tail); sym_reach("chunks");
}
HARNESS(h_split) { // audio split over several data chunks
    sym_mode(2); File f; f.bits = sym_pick("bits", 2) ? 16 : 8; f.ch = sym_range("channels", 1, 2); begin(f); fmt(f, 0); other = 0;
    int last = 0; for (int k = 0; k < 3; k++) { last = sym_range("frames", 0, 3); data(f, last, 0); if (k < 2 && sym_pick("extra", 2)) extra(f.v, 1 + k); }
    finish(f); check(f, sym_range("buffer", 1, 4), last == 0); sym_reach("split");
}
HARNESS(h_large) { // chunks larger than any internal block
    sym_mode(2); File f; f.bits = 8; f.ch = 1; begin(f); other = 0; extra(f.v, 0); f.v.resize(f.v.size() - 4); int n = 500 + 13 * sym_range("extra", 0, 3) * sym_range("more", 0, 40); p32(f.v, n); for (int i = 0; i < n; i++) f.v.push_back((unsigned char)(i % 251)); if (n & 1) f.v.push_back(0);
    fmt(f, 0); data(f, 4, 0); finish(f); check(f, 3); sym_reach("large");
}
HARNESS(h_resize) { // the read size may change between reads
    sym_mode(2); File f; f.bits = sym_pick("bits", 2) ? 16 : 8; f.ch = sym_range("channels", 1, 2); begin(f); fmt(f, 0); data(f, 6, 0); finish(f);
    CharIStream in; in.get_array() = f.v; WaveReader r; r.set_stream(&in); sym_assert(r.get_stream() == &in, "stream"); r.start(); int got = 0;
    for (int k = 0; k < 4; k++) {
        int bs = sym_range("buffer", 1, 4); r.set_buffer_size(bs); auto b = r.get_data(); sym_assert((int)b->size() == bs * f.ch, "size");
        for (int i = 0; i < bs * f.ch; i++, got++) sym_bits(b->at(i), got < f.n ? f.s[got] : 0.0, "samples come in order whatever the read sizes");
        sym_assert(r.done() == (got >= f.n), "done exactly when the last sample has been returned");
    }
    sym_reach("resize");
}
HARNESS(h_source) { // as the source of a chain
    sym_mode(2); File f; f.bits = sym_pick("bits", 2) ? 16 : 8; f.ch = sym_range("channels", 1, 2); begin(f); fmt(f, 0); data(f, sym_range("frames", 1, 4), 2); finish(f);

    CharIStream in; in.get_array() = f.v; WaveSource s(&in); int bs = sym_range("buffer", 1, 3); s.get_info()->out_buffer = bs; s.meta_start();
    sym_assert(s.get_info()->channels == f.ch, "the source takes the channels of the file"); sym_close(s.get_info()->sample_rate, f.rate, 0, "the source takes the rate of the file");
    int got = 0; for (int k = 0; k < 3; k++) { s.meta_process(); AudioBuffer b = s.get_buffer(); sym_assert((int)b.size() == bs * f.ch && (int)b.channels() == f.ch, "buffer shape"); sym_close(b.get_samplerate(), f.rate, 0, "buffer rate");
        for (int i = 0; i < bs * f.ch; i++, got++) sym_close(b.at(i), got < f.n ? f.s[got] : 0.0, 1e-12, "the source yields the samples in order"); }
    s.meta_stop(); sym_assert(in.bad(), "stopping the source stops the stream"); sym_reach("source");
}
HARNESS(h_fields) { // any configuration that the fields can hold
    File f; f.bits = sym_pick("bits", 2) ? 16 : 8; f.ch = (int)sym_i64("channels", 1, 32767 * 8 / f.bits); f.rate = 0; begin(f); f.rate = (int)sym_i64("rate", 1, 1 << 30); sym_assume((long long)f.rate * f.ch * f.bits < (8ll << 31)); fmt(f, 0); data(f, 0, 0); finish(f);
    CharIStream in; in.get_array() = f.v; WaveReader r(&in); r.start(); sym_assert(r.get_channels() == f.ch && r.get_samplerate() == f.rate && r.get_bits_per_sample() == f.bits && r.get_byterate() == (long long)f.rate * f.ch * f.bits / 8 && r.get_blockalign() == f.ch * f.bits / 8, "format fields"); sym_reach("fields");
}
HARNESS(h_long) { // thousands of samples, many channels, reads of hundreds of frames
    sym_mode(2); int shape = sym_pick("shape", 3); File f; f.bits = shape == 1 ? 8 : 16; f.ch = shape == 2 ? 12 : 1 + shape; begin(f); fmt(f, 0); static const int fr[] = {2500, 1300, 250}, bs[] = {1024, 300, 440}; int left = fr[shape]; std::vector<double> want;
    for (int k = 0; k < 2; k++) { int n = k ? left : left / 3 * 2; left -= n; n *= f.ch; id(f.v, "data"); p32(f.v, n * f.bits / 8); for (int i = 0; i < n; i++) { unsigned char a = (unsigned char)(i * 77 + k), b = (unsigned char)(i * 31 + i / 256); f.v.push_back(a); if (f.bits == 16) f.v.push_back(b); want.push_back(dec(f.bits, a, b)); } if (n * f.bits / 8 & 1) f.v.push_back(0); }
    finish(f); CharIStream in; in.get_array() = f.v; WaveReader r(&in); r.start(); std::size_t got = 0, b = bs[shape]; r.set_buffer_size((int)b); for (int g = 0; !r.done() && g < 20; g++) { auto x = r.get_data(); sym_assert(x->size() == b * f.ch, "size"); for (std::size_t i = 0; i < x->size(); i++, got++) sym_assert(x->at(i) == (got < want.size() ? want[got] : 0.0), "samples come in order, silence after the last"); }
    sym_assert(got >= want.size() && got < want.size() + b * f.ch, "the reader is done when the last sample has been returned"); sym_reach("long");
}
HARNESS(h_extension) { // format chunks of any size from the plain one on
    sym_mode(2); File f; f.bits = sym_pick("bits", 2) ? 16 : 8; f.ch = sym_range("channels", 1, 2); begin(f); int e = sym_range("extension", 0, 26); fmt(f, e); if (e & 1) f.v.push_back(0); data(f, 3, 0); finish(f); check(f, 2); sym_reach("extension");
}
HARNESS(h_two) { // readers side by side, each with a file of its own
    sym_mode(2); File f[2]; CharIStream in[2]; WaveReader r[2]; int got[2] = {0, 0}, bs[2]; for (int k = 0; k < 2; k++) { f[k].bits = sym_pick("bits", 2) ? 16 : 8; f[k].ch = sym_range("channels", 1, 2); begin(f[k]); fmt(f[k], 0); data(f[k], 4 - k, 0); finish(f[k]); in[k].get_array() = f[k].v; r[k].set_stream(&in[k]); r[k].start(); r[k].set_buffer_size(bs[k] = sym_range("buffer", 1, 3)); }
    for (int q = 0; q < 4; q++) for (int k = 0; k < 2; k++) { sym_assert(r[k].done() == (got[k] >= f[k].n), "done exactly when the last sample has been returned"); auto b = r[k].get_data(); sym_assert((int)b->size() == bs[k] * f[k].ch && (int)b->channels() == f[k].ch, "every buffer has the requested size and the file's channels"); sym_close(b->get_samplerate(), f[k].rate, 0, "every buffer has the file's sample rate"); for (int i = 0; i < bs[k] * f[k].ch; i++, got[k]++) sym_bits(b->at(i), got[k] < f[k].n ? f[k].s[got[k]] : 0.0, "samples come in order, silence after the last"); } sym_reach("two");
}
HARNESS(h_edge) { // unknown chunks around the sizes that are skipped at once
    sym_mode(2); File f; f.bits = 8; f.ch = 1; begin(f); other = 0; static const int at[] = {255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 1536, 2048, 4096, 4097, 8192}; int n = at[sym_pick("size", 14)], where = sym_pick("where", 2); for (int q = 0; q < 2; q++) { if (q == where) { id(f.v, "LIST"); p32(f.v, n); for (int i = 0; i < n; i++) f.v.push_back((unsigned char)(i % 251)); if (n & 1) f.v.push_back(0); } if (q == 0) fmt(f, 0); } data(f, 4, 0); finish(f); check(f, 3); sym_reach("edge");
}
HARNESS(h_big) { // more bytes than 16 bits count, in one chunk and in one read
    sym_mode(2); File f; f.bits = 8; f.ch = 1; begin(f); fmt(f, 0); int n = 70001, bs = sym_pick("whole", 2) ? 70001 : 35100; id(f.v, "data"); p32(f.v, n); std::size_t at = f.v.size(); f.v.resize(at + n + 1); for (int i = 0; i < n; i++) f.v[at + i] = (unsigned char)(i * 7 + i / 256); unsigned char q = (unsigned char)sym_i64("byte", 0, 255); f.v[at + 69999] = q; finish(f); CharIStream in; in.get_array() = std::move(f.v); WaveReader r(&in); r.start(); r.set_buffer_size(bs); int got = 0; bool ok = true; double late = 0; for (int k = 0; k < (bs == 70001 ? 1 : 2); k++) { sym_assert(!r.done(), "not done before the last sample"); auto b = r.get_data(); sym_assert((int)b->size() == bs, "size"); for (int i = 0; i < bs; i++, got++) if (got == 69999) late = b->at(i); else if (got % 997 == 0 || got > 65500) ok &= b->at(i) == (got < n ? uchar_mf((unsigned char)(got * 7 + got / 256)) : 0.0); } sym_assert(ok, "samples come in order, silence after the last"); sym_close(late, uchar_mf(q), 1e-12, "a late sample"); sym_assert(r.done() && in.bad(), "done and stopped after the last sample"); sym_reach("big");
}
HARNESS(h_handover) { // a rewound stream, in any state, read by another reader
    sym_mode(2); File f; f.bits = sym_pick("bits", 2) ? 16 : 8; f.ch = sym_range("channels", 1, 2); begin(f); fmt(f, 0); data(f, 4, 2); finish(f); CharIStream in; in.get_array() = f.v; int first = sym_range("first", 0, 3); if (first) { WaveReader a(&in); a.start(); a.set_buffer_size(2); for (int k = 1; k < first; k++) a.get_data(); if (sym_pick("stopped", 2)) a.stop(); } else if (sym_pick("opened", 2)) in.start(); in.seek(0);
    WaveReader r(&in); r.start(); sym_assert(!r.done() && !in.bad() && r.get_channels() == f.ch && r.get_bits_per_sample() == f.bits, "a new reader starts from the beginning"); r.set_buffer_size(3); int got = 0; for (int k = 0; k < 2; k++) { auto b = r.get_data(); for (int i = 0; i < 3 * f.ch; i++, got++) sym_close(b->at(i), got < f.n ? f.s[got] : 0.0, 1e-12, "samples come in order, silence after the last"); } sym_assert(r.done() && in.bad(), "done"); sym_reach("handover");
}
