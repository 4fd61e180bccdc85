#include "val.h"
#include <cfloat>
std::vector<Atom> atoms;
Ctx *G;

static inline double up(double x) { return std::nextafter(x, INFINITY); }
static inline double dn(double x) { return std::nextafter(x, -INFINITY); }

mpq_class dq(double d) { return mpq_class(d); }
ZE qz(const mpq_class &q) { return Z().real_val(q.get_str().c_str()); }
int granOf(double d) {
    if (d == 0) return GRAN_BIG;
    int e; double m = std::frexp(d, &e); // d = m*2^e
    int64_t k = (int64_t)std::ldexp(m, 53);
    return e - 53 + __builtin_ctzll((uint64_t)(k < 0 ? -k : k));
}
ZE polyZ(const Poly &p) {
    if (p.empty()) return Z().real_val(0);
    z3::expr_vector s(Z());
    for (auto &t : p) {
        if (t.first.empty()) { s.push_back(qz(t.second)); continue; }
        ZE m = atoms[t.first[0]].e;
        for (size_t i = 1; i < t.first.size(); i++) m = m * atoms[t.first[i]].e;
        if (t.second == 1) s.push_back(m);
        else s.push_back(qz(t.second) * m);
    }
    if (s.size() == 1) return s[0];
    return z3::sum(s);
}
// bounds from the polynomial itself
static void polyBounds(const Poly &p, double &lo, double &hi) {
    lo = hi = 0;
    for (auto &t : p) {
        double c = t.second.get_d();
        double ml = c, mh = c; // get_d truncates
        ml = dn(ml); mh = up(mh);
        if (ml == mh) {}
        double l = ml, h = mh;
        // multiply by atom intervals (detect even powers)
        size_t i = 0;
        while (i < t.first.size()) {
            size_t j = i; while (j < t.first.size() && t.first[j] == t.first[i]) j++;
            double al = atoms[t.first[i]].lo, ah = atoms[t.first[i]].hi;
            size_t n = j - i;
            double pl = 1, ph = 1;
            if (n == 1) { pl = al; ph = ah; }
            else {
                double x = std::pow(std::fabs(al), (double)n), y = std::pow(std::fabs(ah), (double)n);
                if (n % 2 == 0) { ph = up(up(std::max(x, y))); pl = (al <= 0 && ah >= 0) ? 0 : dn(dn(std::min(x, y))); }
                else { pl = dn(dn(al < 0 ? -x : x)); ph = up(up(ah < 0 ? -y : y)); }
            }
            double c4[4] = {l * pl, l * ph, h * pl, h * ph};
            l = dn(*std::min_element(c4, c4 + 4)); h = up(*std::max_element(c4, c4 + 4));
            i = j;
        }
        lo = dn(lo + l); hi = up(hi + h);
    }
}
Val mkReal(Poly p, double lo, double hi, double err, int gran) {
    double pl, ph;
    polyBounds(p, pl, ph);
    lo = std::max(lo, pl); hi = std::min(hi, ph);
    if (lo > hi) lo = hi = pl;
    if (p.empty() && err == 0) return Val::D(0.0);
    if (p.size() == 1 && p.begin()->first.empty() && err == 0) {
        double d = p.begin()->second.get_d();
        if (mpq_class(d) == p.begin()->second) return Val::D(d);
    }
    auto *r = new RealNode;
    r->p = std::move(p); r->lo = lo; r->hi = hi; r->err = err; r->gran = err == 0 ? gran : GRAN_NONE;
    Val v; v.k = K_REAL; v.w = 64; v.n = Ref<Node>(r);
    return v;
}
Val realOf(const Val &v) {
    if (v.k == K_REAL) return v;
    auto *r = new RealNode;
    if (v.d != 0) r->p[Mono{}] = dq(v.d);
    r->lo = r->hi = v.d; r->gran = granOf(v.d);
    Val x; x.k = K_REAL; x.w = 64; x.n = Ref<Node>(r);
    return x;
}
static const double U = 0x1p-53;
// finish: rounding of the real result r (input errors already in e)
static void roundIt(Poly &p, double lo, double hi, double e, int gran, double &err, int &g) {
    double pl, ph; polyBounds(p, pl, ph);
    lo = std::max(lo, pl); hi = std::min(hi, ph);
    double m = std::max(std::fabs(lo), std::fabs(hi));
    if (e == 0 && gran > -1074 && m < 1e300) {
        if (m == 0 || gran >= GRAN_BIG) { err = 0; g = gran; return; }
        int ex; std::frexp(m, &ex);
        if (ex - gran <= 53) { err = 0; g = gran; return; }
    }
    err = up(up(e + up(U * up(m + e)) + 0x1p-1074)); g = GRAN_NONE;
}
Val rAdd(const Val &a0, const Val &b0, bool sub) {
    Val a = realOf(a0), b = realOf(b0);
    RealNode &x = RN(a), &y = RN(b);
    if (x.p.empty() && x.err == 0) return sub ? rNeg(b) : b;
    if (y.p.empty() && y.err == 0) return a;
    Poly p = x.p;
    for (auto &t : y.p) {
        auto it = p.find(t.first);
        if (it == p.end()) p[t.first] = sub ? mpq_class(-t.second) : t.second;
        else { if (sub) it->second -= t.second; else it->second += t.second; if (it->second == 0) p.erase(it); }
    }
    double lo = dn(x.lo + (sub ? -y.hi : y.lo)), hi = up(x.hi + (sub ? -y.lo : y.hi));
    double e = (x.err == 0 && y.err == 0) ? 0 : up(x.err + y.err), err; int g;
    roundIt(p, lo, hi, e, std::min(x.gran, y.gran), err, g);
    return mkReal(std::move(p), lo, hi, err, g);
}
Val rMul(const Val &a0, const Val &b0) {
    Val a = realOf(a0), b = realOf(b0);
    RealNode &x = RN(a), &y = RN(b);
    if ((x.p.empty() && x.err == 0) || (y.p.empty() && y.err == 0)) return Val::D(0.0);
    Poly p;
    for (auto &t : x.p)
        for (auto &u : y.p) {
            Mono m; m.resize(t.first.size() + u.first.size());
            std::merge(t.first.begin(), t.first.end(), u.first.begin(), u.first.end(), m.begin());
            mpq_class c = t.second * u.second;
            auto it = p.find(m);
            if (it == p.end()) p.emplace(std::move(m), c);
            else { it->second += c; if (it->second == 0) p.erase(it); }
        }
    double c4[4] = {x.lo * y.lo, x.lo * y.hi, x.hi * y.lo, x.hi * y.hi};
    double lo = dn(*std::min_element(c4, c4 + 4)), hi = up(*std::max_element(c4, c4 + 4));
    double mx = std::max(std::fabs(x.lo), std::fabs(x.hi)), my = std::max(std::fabs(y.lo), std::fabs(y.hi));
    double e = (x.err == 0 && y.err == 0) ? 0 : up(up(up(mx * y.err) + up(my * x.err)) + up(x.err * y.err));
    int gr = (x.gran == GRAN_NONE || y.gran == GRAN_NONE) ? GRAN_NONE : std::min((long)GRAN_BIG, (long)x.gran + y.gran);
    // multiplication by a power of two never rounds (subnormals aside)
    auto pow2 = [](RealNode &z) {
        if (z.err != 0 || z.p.size() != 1 || !z.p.begin()->first.empty()) return false;
        double d = z.p.begin()->second.get_d(); int ex; return std::fabs(std::frexp(d, &ex)) == 0.5 && ex > -300 && ex < 300;
    };
    double err; int g;
    if (pow2(x) || pow2(y)) { err = e == 0 ? 0 : up(e); g = gr; if (e == 0 && gr == GRAN_NONE) g = GRAN_NONE; }
    else roundIt(p, lo, hi, e, gr, err, g);
    return mkReal(std::move(p), lo, hi, err, g);
}
Val rDivC(const Val &a, double c) {
    RealNode &x = RN(a);
    Poly p = x.p;
    mpq_class q = dq(c);
    for (auto &t : p) t.second /= q;
    double l = x.lo / c, h = x.hi / c; if (l > h) std::swap(l, h);
    l = dn(dn(l)); h = up(up(h));
    double e = x.err == 0 ? 0 : up(up(x.err / std::fabs(c)));
    int ex; bool p2 = std::fabs(std::frexp(c, &ex)) == 0.5;
    double err; int g;
    if (p2 && ex > -300 && ex < 300) { err = e; g = x.gran == GRAN_NONE ? GRAN_NONE : x.gran - (ex - 1); }
    else {
        // exact only if provably so: unknown granularity -> rounded
        roundIt(p, l, h, e, GRAN_NONE, err, g);
    }
    return mkReal(std::move(p), l, h, err, g);
}
Val rNeg(const Val &a0) {
    Val a = realOf(a0);
    RealNode &x = RN(a);
    Poly p = x.p;
    for (auto &t : p) t.second = -t.second;
    return mkReal(std::move(p), -x.hi, -x.lo, x.err, x.gran);
}
Val newAtom(const std::string &nm, const ZE &e, double lo, double hi, int gran) {
    Atom a(e);
    a.lo = lo; a.hi = hi; a.gran = gran; a.name = nm;
    uint32_t id = atoms.size();
    atoms.push_back(a);
    Poly p; p[Mono{id}] = 1;
    return mkReal(std::move(p), lo, hi, 0, gran);
}
