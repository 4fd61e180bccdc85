// W01: RIFF headers and chunks: every field at its documented little-endian offset, and decode inverts encode.
#include "sym.h"
#include "io/wav.hpp"
static std::string id4(char *raw) { std::string s; for (int i = 0; i < 4; i++) { raw[i] = (char)sym_i64("id", -128, 127); s.push_back(raw[i]); } return s; }
static uint32_t le32(const std::vector<unsigned char> &v, int at) { return v[at] | v[at + 1] << 8 | v[at + 2] << 16 | (uint32_t)v[at + 3] << 24; }
static uint16_t le16(const std::vector<unsigned char> &v, int at) { return (uint16_t)(v[at] | v[at + 1] << 8); }
static CharIStream back(std::vector<unsigned char> &v) { CharIStream i; i.get_array() = v; i.start(); return i; }
HARNESS(h_chunk) {
    char raw[4]; ChunkHeader h(id4(raw), (uint32_t)sym_i64("size", 0, UINT32_MAX));
    CharOStream o; o.start(); h.encode(o); auto &v = o.get_array();
    sym_assert(v.size() == 8 && h.size() == 8, "chunk header is eight bytes");
    for (int i = 0; i < 4; i++) sym_assert((char)v[i] == raw[i], "chunk id bytes");
    sym_assert(le32(v, 4) == h.chunk_size, "chunk size is little-endian at offset 4");
    auto in = back(v); ChunkHeader d; d.decode(in);
    sym_assert(d.chunk_size == h.chunk_size, "chunk size survives");
    for (int i = 0; i < 4; i++) sym_assert(d.chunk_id[i] == raw[i], "chunk id survives");
    sym_assert(d.chunk_id.size() == 4, "chunk id is four characters");
    char byts[8]; h.encode(byts); ChunkHeader e; e.decode(byts); sym_assert(e.chunk_size == h.chunk_size, "byte form agrees with stream form");
    for (int i = 0; i < 8; i++) sym_assert((unsigned char)byts[i] == v[i], "byte form agrees with stream form");
    sym_reach("chunk");
}
HARNESS(h_riff) {
    WavHeader h; sym_assert(h.chunk_id == "RIFF" && h.format == "WAVE" && h.size() == 12, "default header");
    char raw[4], fm[4]; h.chunk_id = id4(raw); h.format = id4(fm); h.chunk_size = (uint32_t)sym_i64("size", 0, UINT32_MAX);
    CharOStream o; o.start(); h.encode(o); auto &v = o.get_array();
    sym_assert(v.size() == 12, "file header is twelve bytes");
    for (int i = 0; i < 4; i++) sym_assert((char)v[i] == raw[i] && (char)v[8 + i] == fm[i], "header texts");
    sym_assert(le32(v, 4) == h.chunk_size, "file size is little-endian at offset 4");
    auto in = back(v); WavHeader d; d.decode(in);
    sym_assert(d.chunk_size == h.chunk_size, "file size survives");
    for (int i = 0; i < 4; i++) sym_assert(d.chunk_id[i] == raw[i] && d.format[i] == fm[i], "header texts survive");
    sym_reach("riff");
}
HARNESS(h_format) {
    WavFormat f; sym_assert(f.chunk_id == "fmt " && f.chunk_size == 16 && f.size() == 24, "default format chunk");
    f.format = (uint16_t)sym_i64("format", 0, 65535); f.channels = (uint16_t)sym_i64("channels", 0, 65535); f.sample_rate = (uint32_t)sym_i64("rate", 0, UINT32_MAX);
    f.byte_rate = (uint32_t)sym_i64("byterate", 0, UINT32_MAX); f.block_align = (uint16_t)sym_i64("align", 0, 65535); f.bits_per_sample = (uint16_t)sym_i64("bits", 0, 65535);
    CharOStream o; o.start(); f.encode(o); auto &v = o.get_array();
    sym_assert(v.size() == 24, "format chunk is 24 bytes");
    sym_assert(v[0] == 'f' && v[1] == 'm' && v[2] == 't' && v[3] == ' ' && le32(v, 4) == 16, "format chunk header");
    sym_assert(le16(v, 8) == f.format && le16(v, 10) == f.channels, "format and channel count at 8 and 10");
    sym_assert(le32(v, 12) == f.sample_rate && le32(v, 16) == f.byte_rate, "rates at 12 and 16");
    sym_assert(le16(v, 20) == f.block_align && le16(v, 22) == f.bits_per_sample, "alignment and bits at 20 and 22");
    auto in = back(v); ChunkHeader c; c.decode(in); WavFormat d; d.decode(in);
    sym_assert(d.format == f.format && d.channels == f.channels && d.sample_rate == f.sample_rate && d.byte_rate == f.byte_rate && d.block_align == f.block_align && d.bits_per_sample == f.bits_per_sample, "every field survives");
    sym_reach("format");
}
HARNESS(h_unknown) {
    int n = sym_range("n", 0, 6); UnknownChunk u(n); char raw[4]; u.chunk_id = id4(raw); char ref[6];
    for (int i = 0; i < n; i++) u.data[i] = ref[i] = (char)sym_i64("byte", -128, 127);
    sym_assert(u.size() == (uint32_t)(8 + n), "chunk size includes its header");
    u.chunk_size = (uint32_t)sym_i64("stale", 0, 100);
    CharOStream o; o.start(); u.encode(o); auto &v = o.get_array();
    sym_assert((int)v.size() == 8 + n && le32(v, 4) == (uint32_t)n, "size field is the payload length");
    for (int i = 0; i < 4; i++) sym_assert((char)v[i] == raw[i], "chunk id");
    for (int i = 0; i < n; i++) sym_assert((char)v[8 + i] == ref[i], "payload follows the header");
    auto in = back(v); ChunkHeader c; c.decode(in); UnknownChunk d(c.chunk_size); d.decode(in);
    for (int i = 0; i < n; i++) sym_assert(d.data[i] == ref[i], "payload survives");
    sym_reach("unknown");
}
// derived fields stay consistent whatever the order of configuration
HARNESS(h_config) {
    BaseWave w; int ch = w.get_channels(), sr = w.get_samplerate(), bits = w.get_bits_per_sample(); bool touched = false;
    for (int k = 0; k < 4; k++) {
        switch (sym_pick("setter", 4)) {
        case 0: ch = (int)sym_i64("ch", 1, 8); w.set_channels(ch); break;
        case 1: sr = (int)sym_i64("sr", 1, 192000); w.set_samplerate(sr); break;
        case 2: bits = 8 * sym_range("bytes", 1, 4); w.set_bits_per_sample(bits); break;
        case 3: bits = 8 * sym_range("bytes", 1, 4); w.set_bytes_per_sample(bits / 8); break;
        }
        sym_assert(w.get_channels() == ch && w.get_samplerate() == sr && w.get_bits_per_sample() == bits && w.get_bytes_per_sample() == bits / 8, "values are kept");
        sym_assert(w.get_byterate() == ch * sr * (bits / 8), "byte rate is channels*rate*bytes after every change");
        if (touched || bits) sym_assert(w.get_blockalign() == ch * (bits / 8), "block alignment is channels*bytes after every change");
    }
    sym_reach("config");
}
HARNESS(h_big) { // a payload of more bytes than 16 bits count
    int n = 70000; UnknownChunk u(n); u.chunk_id = "LONG"; for (int i = 0; i < n; i++) u.data[i] = (char)(i % 251); char v = u.data[66000] = (char)sym_i64("byte", -128, 127); CharOStream o; o.start(); u.encode(o); auto &b = o.get_array(); sym_assert(u.size() == 70008 && b.size() == 70008 && le32(b, 4) == 70000, "size field is the payload length"); auto in = back(b); ChunkHeader c; c.decode(in); UnknownChunk d(c.chunk_size); d.decode(in); for (int i = 0; i < n; i++) sym_assert(d.data[i] == (i == 66000 ? v : (char)(i % 251)), "payload survives"); BaseWave w; int wc = sym_pick("wide", 2) ? 300 : 2000, wr = (int)sym_i64("rate", 1, 192000); w.set_channels(wc); w.set_samplerate(wr); w.set_bits_per_sample(32); sym_assert(w.get_channels() == wc && w.get_samplerate() == wr && w.get_blockalign() == wc * 4 && (long long)w.get_byterate() == (long long)wc * 4 * wr, "many channels"); sym_reach("big");
}
