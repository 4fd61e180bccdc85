// M01: memory streams against a plain byte-array model, over arbitrary short histories.
#include "sym.h"
#include "io/mstream.hpp"
#include <vector>
HARNESS(h_out) {
    int init = sym_range("initial", 0, 3); CharOStream s(init);
    unsigned char ref[32]; int len = init, pos = 0; for (int i = 0; i < init; i++) ref[i] = 0;
    sym_assert(s.good() && !s.bad(), "a new stream is good"); s.start();
    for (int op = 0; op < 3; op++) {
        if (sym_pick("op", 2) == 0) {
            int n = sym_range("n", 0, 4); char d[4];
            for (int i = 0; i < n; i++) { d[i] = (char)sym_i64("byte", -128, 127); ref[pos + i] = (unsigned char)d[i]; }
            s.write(d, n); pos += n; if (pos > len) len = pos;
        } else { pos = sym_range("pos", 0, 15); if (pos > len) sym_stop(); s.seek(pos); }
        sym_assert((int)s.get_array().size() == len, "length after any history");
    }
    for (int i = 0; i < len; i++) sym_assert(s.get_array()[i] == ref[i], "content after any history");
    s.stop(); sym_assert(s.bad() && !s.good(), "a stopped stream is not good");
    sym_reach("out");
}
HARNESS(h_in) {
    int n = sym_range("length", 0, 6); CharIStream s(n); s.start();
    for (int i = 0; i < n; i++) s.get_array()[i] = (unsigned char)sym_i64("byte", 0, 255);
    unsigned char ref[6]; for (int i = 0; i < n; i++) ref[i] = s.get_array()[i];
    int pos = 0;
    for (int op = 0; op < 3; op++) {
        if (sym_pick("op", 2) == 0) {
            int k = sym_range("n", 0, 7); char d[8]; for (auto &c : d) c = 99;
            s.read(d, k);
            int got = pos + k <= n ? k : n - pos;
            for (int i = 0; i < got; i++) sym_assert((unsigned char)d[i] == ref[pos + i], "bytes come in order from the position");
            for (int i = k; i < 8; i++) sym_assert(d[i] == 99, "no more than the requested bytes are written");
            if (got < k) { for (int i = got; i < k; i++) sym_assert(d[i] == 99, "bytes past the end are left alone"); sym_assert(s.bad(), "reading past the end marks the stream bad"); sym_reach("past"); for (int i = 0; i < 3; i++) s.get_array().push_back((unsigned char)(70 + i)); s.start(); s.read(d, 2); sym_assert(s.good() && d[0] == (char)(pos < n ? 70 : 70 + pos - n) && d[1] == (char)(pos < n ? 71 : 71 + pos - n), "reading goes on where it ended"); sym_stop(); }
            sym_assert(s.good(), "reading what is there keeps the stream good");
            pos += k;
        } else { pos = sym_range("pos", 0, 6); if (pos > n) sym_stop(); s.seek(pos); }
    }
    sym_reach("in");
}
HARNESS(h_state) {
    CharIStream i(4); CharOStream o; sym_assert(i.is_input() && !i.is_output() && o.is_output() && !o.is_input(), "direction");
    typedef CharIStream::mstate ms;
    sym_assert(i.get_state() == ms::init, "initial state");
    for (int k = 0; k < 4; k++) switch (sym_pick("op", 3)) {
        case 0: i.start(); sym_assert(i.get_state() == ms::started && i.good() && !i.bad(), "start"); break;
        case 1: i.stop(); sym_assert(i.get_state() == ms::stopped && !i.good() && i.bad(), "stop"); break;
        case 2: i.set_state(ms::err); sym_assert(!i.good() && i.bad(), "error"); break;
    }
    sym_reach("state");
}
HARNESS(h_big) { // long streams
    int n = 70000, at = (int)sym_conc(65000 + sym_i64("at", 0, 2) * 2500); std::vector<char> d(n), e(9, 'x'); for (int i = 0; i < n; i++) d[i] = (char)(i * 7 + i / 256); CharOStream o; o.start(); o.write(d.data(), n); o.seek(at); o.write(e.data(), 9); int len = at + 9 > n ? at + 9 : n; const auto &v = o.get_array(); bool ok = (int)v.size() == len; for (int i = 0; i < len; i++) ok &= v[i] == (unsigned char)(i >= at && i < at + 9 ? 'x' : d[i]); sym_assert(ok, "content after any history");
    CharIStream in; in.get_array() = v; in.start(); std::vector<char> r(len + 5, 'q'); in.read(r.data(), 60000); in.seek(at); in.read(r.data() + at, len - at); in.seek(60000); in.read(r.data() + 60000, at - 60000); sym_assert(in.good(), "reading what is there keeps the stream good"); for (int i = 0; i < len; i++) ok &= (unsigned char)r[i] == v[i]; sym_assert(ok && r[len] == 'q', "bytes come in order from the position"); in.seek(len - 2); in.read(r.data(), 5); sym_assert(in.bad() && r[2] == d[2], "reading past the end marks the stream bad"); sym_reach("big");
}
HARNESS(h_straddle) { // writes of any size over the end of what is there
    static const int ns[] = {1, 7, 64, 65, 100, 256, 257, 1000}; int n = ns[sym_pick("first", 8)], m = ns[sym_pick("second", 8)]; int back[] = {0, 1, n / 2, n, m, m - 1, m / 2}, at = n - back[sym_pick("back", 7)]; if (at < 0) sym_stop(); std::vector<char> d(n), e(m), ref(n); for (int i = 0; i < n; i++) ref[i] = d[i] = (char)(i * 7 + 1); for (int i = 0; i < m; i++) e[i] = (char)(i * 5 + 3); e[m / 2] = (char)sym_i64("byte", -128, 127); CharOStream o, p; o.start(); p.start(); o.write(d.data(), n); p.write(e.data(), m); o.seek(at); o.write(e.data(), m); p.write(d.data(), n); ref.resize(at + m > n ? at + m : n); for (int i = 0; i < m; i++) ref[at + i] = e[i];
    const auto &v = o.get_array(), &w = p.get_array(); sym_assert(v.size() == ref.size() && (int)w.size() == n + m, "length after any history"); bool ok = true; for (std::size_t i = 0; i < v.size(); i++) if ((int)i == at + m / 2) sym_assert(v[i] == (unsigned char)ref[i], "content after any history"); else ok &= v[i] == (unsigned char)ref[i]; for (int i = 0; i < n + m; i++) if (i != m / 2) ok &= w[i] == (unsigned char)(i < m ? e[i] : d[i - m]); sym_assert(ok, "content after any history"); sym_reach("straddle");
}
