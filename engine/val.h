// Values, exact-real nodes and the z3 layer of symx (solver-based executor for LLVM IR).
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <string>
#include <memory>
#include <algorithm>
#include <functional>
#include <chrono>
#include <gmpxx.h>
#include <z3++.h>

typedef z3::expr ZE;
typedef unsigned __int128 u128;

struct Ctx {
    z3::context c;
};
extern Ctx *G;
inline z3::context &Z() { return G->c; }

// ---------------------------------------------------------------- nodes
struct Node {
    int rc = 0;
    virtual ~Node() {}
};
template <class T> struct Ref {
    T *p = nullptr;
    Ref() {}
    Ref(T *q) : p(q) { if (p) p->rc++; }
    Ref(const Ref &o) : p(o.p) { if (p) p->rc++; }
    Ref(Ref &&o) noexcept : p(o.p) { o.p = nullptr; }
    ~Ref() { drop(); }
    void drop() { if (p && --p->rc == 0) delete p; p = nullptr; }
    Ref &operator=(const Ref &o) { if (o.p) o.p->rc++; drop(); p = o.p; return *this; }
    Ref &operator=(Ref &&o) noexcept { std::swap(p, o.p); return *this; }
    explicit operator bool() const { return p; }
    T *operator->() const { return p; }
    T &operator*() const { return *p; }
};

enum K : uint8_t { K_UNDEF, K_INT, K_BV, K_DBL, K_FP, K_REAL, K_AGG };

// K_INT : concrete integer/pointer of width w<=64
// K_BV  : symbolic integer (z3 bit-vector; Bool sort when w==1)
// K_DBL : concrete float (w==32) or double (w==64), value kept in d
// K_FP  : symbolic IEEE float/double (z3 FP)
// K_REAL: symbolic double, exact real polynomial + rounding error bound
// K_AGG : struct/vector/array of values
struct Val {
    K k = K_UNDEF;
    uint16_t w = 0;
    union { uint64_t i; double d; };
    Ref<Node> n;
    Val() : i(0) {}
    static Val I(uint64_t v, unsigned w) {
        Val r; r.k = K_INT; r.w = w; r.i = w >= 64 ? v : (v & ((1ull << w) - 1)); return r;
    }
    static Val D(double v, unsigned w = 64) { Val r; r.k = K_DBL; r.w = w; r.d = w == 32 ? (double)(float)v : v; return r; }
    bool conc() const { return k == K_INT || k == K_DBL; }
    int64_t s() const { return w >= 64 ? (int64_t)i : (int64_t)(i << (64 - w)) >> (64 - w); }
};
struct ExprNode : Node { ZE e; ExprNode(const ZE &x) : e(x) {} };
struct AggNode : Node { std::vector<Val> v; };

inline const ZE &EX(const Val &v) { return static_cast<ExprNode *>(v.n.p)->e; }
inline std::vector<Val> &AG(const Val &v) { return static_cast<AggNode *>(v.n.p)->v; }
inline Val mkAgg(std::vector<Val> v) {
    Val r; r.k = K_AGG; auto *a = new AggNode; a->v = std::move(v); r.n = Ref<Node>(a); return r;
}
inline Val mkBV(ZE e, unsigned w) {
    e = e.simplify();
    if (w == 1) {
        if (e.is_true()) return Val::I(1, 1);
        if (e.is_false()) return Val::I(0, 1);
    } else if (w <= 64 && e.is_numeral()) {
        uint64_t v = 0; if (e.is_numeral_u64(v)) return Val::I(v, w);
    }
    Val r; r.k = K_BV; r.w = w; r.n = Ref<Node>(new ExprNode(e)); return r;
}
inline ZE bvc(uint64_t v, unsigned w) { return Z().bv_val(v, w); }
// expression of an integer value (Bool sort if w==1)
inline ZE toZ(const Val &v) {
    if (v.k == K_INT) return v.w == 1 ? Z().bool_val(v.i != 0) : bvc(v.i, v.w);
    return EX(v);
}
inline ZE asBV(const Val &v) { // always BV sort
    if (v.w == 1) return v.k == K_INT ? bvc(v.i, 1) : z3::ite(EX(v), bvc(1, 1), bvc(0, 1));
    return toZ(v);
}

// ---------------------------------------------------------------- reals
typedef std::vector<uint32_t> Mono; // sorted atom ids
typedef std::map<Mono, mpq_class> Poly;

struct Atom {
    ZE e; // Real-sorted expression
    double lo, hi;
    int gran;
    std::string name;
    std::vector<ZE> axioms;
    int fn = 0; // 1 sin 2 cos 3 exp ...
    Poly arg;
    int cls = 0;
    Atom(const ZE &x) : e(x) {}
};
extern std::vector<Atom> atoms;

static const int GRAN_BIG = 1 << 20;
static const int GRAN_NONE = -(1 << 20);

struct RealNode : Node {
    Poly p;
    double lo = 0, hi = 0; // bounds of the real value
    double err = 0;        // |double value - real value| <= err
    int gran = GRAN_NONE;  // real value is a multiple of 2^gran
    ZE *z = nullptr;
    ~RealNode() { delete z; }
};
inline RealNode &RN(const Val &v) { return *static_cast<RealNode *>(v.n.p); }

mpq_class dq(double d);
ZE qz(const mpq_class &q);
ZE polyZ(const Poly &p);
Val mkReal(Poly p, double lo, double hi, double err, int gran);
Val realOf(const Val &v); // lift a concrete double to a RealNode
Val rAdd(const Val &a, const Val &b, bool sub);
Val rMul(const Val &a, const Val &b);
Val rDivC(const Val &a, double c);
Val rNeg(const Val &a);
Val newAtom(const std::string &nm, const ZE &e, double lo, double hi, int gran);
int granOf(double d);
