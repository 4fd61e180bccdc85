// M02: file streams against a byte-array model of the file, over arbitrary short histories and truncated or unwritable files.
#include "sym.h"
#include "vfs.h"
#include "io/wav.hpp"
using IB = BaseFStream<std::ifstream, std::ifstream::in | std::ifstream::binary>; using OB = BaseFStream<std::ofstream, std::ofstream::out | std::ofstream::binary>;
HARNESS(h_read) {
    Files fs; unsigned char ref[8]; int n = sym_range("length", -1, 4); for (int i = 0; i < n; i++) ref[i] = (unsigned char)sym_i64("byte", 0, 255); if (n >= 0) fs.put(ref, n);
    FIStream s; s.set_path(fs.path()); sym_assert(s.get_path() == fs.path(), "path"); bool run = false, ended = false; int pos = 0;
    for (int op = 0; op < 4; op++) switch (op ? sym_pick("op", 4) : 0) {
    case 0: if (run) sym_stop(); s.start(); run = n >= 0; ended = false; pos = 0; sym_assert(s.bad() == !run, "a stream is usable if and only if its file could be opened"); sym_assert(s.get_state() == (run ? FIStream::started : FIStream::err), "state after start"); break;
    case 1: { int k = sym_range("n", 0, 5); char d[6]; for (auto &c : d) c = 99; s.read(d, k); int got = !run ? 0 : pos + k <= n ? k : pos < n ? n - pos : 0;
        for (int i = 0; i < got; i++) sym_assert((unsigned char)d[i] == ref[pos + i], "the file's bytes come in order from the position"); for (int i = got; i < 6; i++) sym_assert(d[i] == 99, "nothing past the end or the request is touched");
        if (run && got < k) { run = false; ended = true; sym_reach("past"); } pos += got; sym_assert(s.bad() != run, "reading past the end, and nothing else, ends the stream"); if (run || ended) sym_assert(s.eof() == ended, "the end is reported once passed"); break; }
    case 2: if (!run) sym_stop(); pos = sym_range("pos", 0, 5); s.seek(pos); break;
    default: if (!run) sym_stop(); s.stop(); run = false; sym_assert(s.bad(), "stopped"); }
    sym_reach("read");
}
HARNESS(h_write) {
    Files fs; unsigned char ref[48], got[256]; int len = 0, pos = 0; FOStream s; s.set_path(fs.path()); s.start(); sym_assert(!s.bad(), "started");
    for (int op = 0; op < 4; op++) switch (sym_pick("op", 3)) {
    case 0: { int k = sym_range("n", 0, 3); char d[3]; for (int i = 0; i < k; i++) d[i] = (char)sym_i64("byte", -128, 127); if (k) { for (; len < pos; len++) ref[len] = 0; for (int i = 0; i < k; i++) ref[pos++] = (unsigned char)d[i]; if (pos > len) len = pos; } s.write(d, k); sym_assert(!s.bad() && s.OB::good(), "writing keeps the stream good"); break; }
    case 1: pos = sym_range("pos", 0, 5); s.seek(pos); break;
    default: s.stop(); sym_assert(s.bad() && s.OB::good(), "stopped with everything in the file"); { int n = fs.get(got); sym_assert(n == len, "length of the file"); for (int i = 0; i < n; i++) sym_assert(got[i] == ref[i], "content of the file"); } s.start(); len = pos = 0; sym_assert(!s.bad(), "a stopped stream starts again with an empty file"); }
    s.stop(); int n = fs.get(got); sym_assert(n == len, "length of the file"); for (int i = 0; i < n; i++) sym_assert(got[i] == ref[i], "content of the file"); sym_reach("write");
}
HARNESS(h_full) { // a full device and a path that does not exist
    bool full = sym_pick("full", 2); FOStream s; s.set_path(full ? "/dev/full" : "/nonexistent-folder/file"); s.start(); sym_assert(s.bad() != full, "opened"); sym_assert(s.get_state() == (full ? FOStream::started : FOStream::err), "state after start"); char d[1200]; for (auto &c : d) c = 7; int all = 0; for (int i = 0; i < 3; i++) { int k = sym_pick("size", 3) * 600; s.write(d, k); all += k; if (k == 1200) sym_assert(s.bad(), "a failed write ends the stream"); if (sym_pick("seek", 2)) s.seek(0); }
    s.stop(); sym_assert(s.bad(), "stopped"); sym_assert(s.OB::good() == (full && all == 0), "lost data is reported"); sym_reach("full");
}
HARNESS(h_failing) { // a file that can be opened but not read (a folder)
    FIStream s; s.set_path("/"); s.start(); sym_assert(!s.bad(), "opened"); char d[6]; for (auto &c : d) c = 99; int k = sym_range("n", 0, 5); if (sym_pick("seek", 2)) s.seek(0); s.read(d, k); sym_assert(s.bad() == (k > 0), "a failed read ends the stream"); for (auto c : d) sym_assert(c == 99, "nothing is read"); s.stop(); sym_assert(s.bad(), "stopped"); sym_reach("failing");
}
HARNESS(h_wave) { // writer -> file -> reader, the file cut anywhere
    Files fs; int bits = 8 * sym_range("bytes", 1, 2), ch = sym_range("channels", 1, 2), f = sym_range("frames", 0, 3), n = 0; short want[8]; unsigned char img[256]; int first = bits == 8 ? 31 : 4005;
    { FOStream o; o.set_path(fs.path()); if (sym_pick("opened", 2)) o.start(); WaveWriter w(&o); w.set_channels(ch); w.set_samplerate(8000); w.set_bits_per_sample(bits); w.start(); for (int b = 0; b < 2; b++) { int k = b ? f - f / 2 : f / 2; auto p = std::make_unique<AudioBuffer>(k, ch); for (int i = 0; i < k * ch; i++, n++) { int v = first + n * 3; want[n] = (short)v; p->at(i) = bits == 8 ? uchar_mf((unsigned char)v) : int16_mf((short)v); } w.write_data(std::move(p)); } w.stop(); sym_assert(o.OB::good(), "everything is in the file"); }
    int len = fs.get(img), size = n * (bits / 8); sym_assert(len == 44 + size, "length of the file"); int cut = sym_range("cut", 0, len); fs.put(img, cut); 
    FIStream s; s.set_path(fs.path()); if (sym_pick("preopened", 2)) s.start(); WaveReader r(&s); r.set_buffer_size(3); r.start(); int have = cut < 44 ? 0 : (cut - 44) / (bits / 8), pos = 0, blocks = 0;
    if (cut == len) sym_assert(r.get_channels() == ch && r.get_samplerate() == 8000 && r.get_bits_per_sample() == bits, "format"); 
    while (!r.done()) { sym_assert(++blocks <= 6, "the reader ends"); auto p = r.get_data(); sym_assert((int)p->size() <= 3 * ch, "block size"); for (int i = 0; i < (int)p->size(); i++, pos++) if (pos < have) sym_assert(p->at(i) == (bits == 8 ? uchar_mf((unsigned char)want[pos]) : int16_mf(want[pos])), "every sample that is in the file"); }
    sym_assert(pos >= have, "no sample in the file is missed"); sym_reach("wave"); if (have == n) sym_reach("whole");
}
HARNESS(h_big) { // files longer than any buffer between the stream and the file, and than 16 bits count
    static unsigned char ref[70000], got[70000]; static char d[70000]; Files fs; int n = sym_pick("size", 2) ? 70000 : 20000, at = n - 3000; for (int i = 0; i < n; i++) ref[i] = (unsigned char)(i % 253); ref[at] = (unsigned char)sym_i64("byte", 0, 255); { FOStream o; o.set_path(fs.path()); o.start(); int w = 0; for (int k : {1, 9000, n - 9001}) { o.write((char *)ref + w, k); w += k; } o.seek(8190); o.write((char *)ref + 8190, 5); o.stop(); sym_assert(o.OB::good(), "stopped with everything in the file"); } int m = fs.get(got); sym_assert(m == n, "length of the file"); for (int i = 0; i < n; i++) sym_assert(got[i] == ref[i], "content of the file");
    FIStream s; s.set_path(fs.path()); s.start(); int pos = 0; for (int k : {100, 8192, 9000}) { s.read(d, k); for (int i = 0; i < k; i++) sym_assert((unsigned char)d[i] == ref[pos + i], "the file's bytes come in order from the position"); pos += k; } s.seek(at); s.read(d, 2); sym_assert((unsigned char)d[0] == ref[at] && (unsigned char)d[1] == ref[at + 1], "the file's bytes come in order from the position"); s.seek(0); s.read(d, n); for (int i = 0; i < n; i++) sym_assert((unsigned char)d[i] == ref[i], "the file's bytes come in order from the position"); sym_assert(!s.bad() && !s.eof(), "not ended yet"); s.read(d, 1); sym_assert(s.bad() && s.eof(), "reading past the end, and nothing else, ends the stream"); sym_reach("big");
}
