// ------------------------------------------------------------------ forking helpers
static void pushState(State *s) { work.push_back(s); nForks++; nStates++; }
static Frame &top(State &st) { return st.th[st.cur].fr.back(); }

// true/false; forks the other side (which re-executes the current instruction)
static bool decideFork(State &st, const ZE &c) {
    shared_ptr<Model> mt, mf; int r = decide(st, c, mt, mf);
    if (r == 1) return true;
    if (r == 0) return false;
    State *o = new State(st); o->lastB = 1; o->lastE = 0;
    addC(*o, (!c).simplify()); o->model = mf; pushState(o);
    addC(st, c.simplify()); st.model = mt;
    return true;
}
// ------------------------------------------------------------------ integer ranges and narrow forms
// Every expression built from range-declared inputs carries a signed interval (sound: the declared range is part of
// every path condition that mentions the variable) and an equal expression in the fewest bits, which keeps the
// bit-blaster small.
typedef __int128 i128;
struct Itv { i128 lo, hi; ZE nar; unsigned k; ZE keep; };
static std::unordered_map<unsigned, Itv> itvs;
static unsigned bitsFor(i128 lo, i128 hi) { unsigned k = 1; while (lo < -((i128)1 << (k - 1)) || hi > ((i128)1 << (k - 1)) - 1) k++; return k; }
static ZE fitW(const ZE &e, unsigned from, unsigned to) { return from == to ? e : from < to ? z3::sext(e, to - from) : e.extract(to - 1, 0); }
static Val regItv(const ZE &nar0, unsigned kn, i128 lo, i128 hi, unsigned w) {
    unsigned k = std::min(bitsFor(lo, hi), w); ZE nar = fitW(nar0, kn, k).simplify();
    if (lo == hi) return Val::I((uint64_t)(int64_t)lo, w);
    Val v = mkBV(fitW(nar, k, w), w);
    if (v.k == K_BV) itvs.insert_or_assign(EX(v).id(), Itv{lo, hi, nar, k, EX(v)});
    return v;
}
struct IV { i128 lo, hi; unsigned k; };
static bool getItv(const Val &v, IV &r) {
    if (v.w < 2 || v.w > 64) return false;
    if (v.k == K_INT) { r.lo = r.hi = v.s(); r.k = bitsFor(r.lo, r.hi); return true; }
    if (v.k != K_BV) return false;
    auto it = itvs.find(EX(v).id()); if (it == itvs.end()) return false;
    r.lo = it->second.lo; r.hi = it->second.hi; r.k = it->second.k; return true;
}
static ZE narrowTo(const Val &v, unsigned k) {
    if (v.k == K_INT) return bvc((uint64_t)v.s() & (k >= 64 ? ~0ull : ((1ull << k) - 1)), k);
    auto &it = itvs.at(EX(v).id()); return fitW(it.nar, it.k, k);
}
static bool narrowBin(unsigned op, const Val &a, const Val &b, unsigned w, Val &out) {
    IV x, y; if (!getItv(a, x) || !getItv(b, y)) return false;
    i128 lo, hi; i128 wl = -((i128)1 << (w - 1)), wh = ((i128)1 << (w - 1)) - 1;
    auto done = [&](unsigned k, const std::function<ZE(const ZE &, const ZE &)> &f) {
        if (lo < wl || hi > wh || k > w) return false;
        out = regItv(f(narrowTo(a, k), narrowTo(b, k)), k, lo, hi, w); return true;
    };
    switch (op) {
    case Instruction::Add: lo = x.lo + y.lo; hi = x.hi + y.hi; return done(bitsFor(lo, hi), [](const ZE &p, const ZE &q) { return p + q; });
    case Instruction::Sub: lo = x.lo - y.hi; hi = x.hi - y.lo; return done(bitsFor(lo, hi), [](const ZE &p, const ZE &q) { return p - q; });
    case Instruction::Mul: {
        if (x.k + y.k > 100) return false;
        i128 c[4] = {x.lo * y.lo, x.lo * y.hi, x.hi * y.lo, x.hi * y.hi}; lo = *std::min_element(c, c + 4); hi = *std::max_element(c, c + 4);
        return done(bitsFor(lo, hi), [](const ZE &p, const ZE &q) { return p * q; });
    }
    case Instruction::SDiv: case Instruction::SRem: if (x.lo < 0 && y.lo >= 1) { // signed: sdiv/srem truncate toward zero, no overflow as the divisor is positive
        if (op == Instruction::SDiv) { lo = x.lo / y.lo; hi = x.hi >= 0 ? x.hi / y.lo : x.hi / y.hi; return done(std::max(x.k, y.k), [](const ZE &p, const ZE &q) { return p / q; }); }
        lo = -std::min(-x.lo, y.hi - 1); hi = x.hi < 0 ? 0 : std::min(x.hi, y.hi - 1); return done(std::max(x.k, y.k), [](const ZE &p, const ZE &q) { return z3::srem(p, q); }); }
        if (op == Instruction::SRem) goto rem;
        [[fallthrough]];
    case Instruction::UDiv: if (x.lo < 0 || y.lo < 1) return false; lo = x.lo / y.hi; hi = x.hi / y.lo; return done(std::max(x.k, y.k), [](const ZE &p, const ZE &q) { return z3::udiv(p, q); });
    case Instruction::URem: rem: if (x.lo < 0 || y.lo < 1) return false; lo = 0; hi = std::min(x.hi, y.hi - 1); return done(std::max(x.k, y.k), [](const ZE &p, const ZE &q) { return z3::urem(p, q); });
    case Instruction::And: if (x.lo < 0 && y.lo < 0) return false; lo = 0; hi = x.lo < 0 ? y.hi : y.lo < 0 ? x.hi : std::min(x.hi, y.hi); return done(std::max(x.k, y.k), [](const ZE &p, const ZE &q) { return p & q; });
    case Instruction::Or: case Instruction::Xor: { if (x.lo < 0 || y.lo < 0) return false; unsigned k = std::max(x.k, y.k); lo = 0; hi = ((i128)1 << (k - 1)) - 1; return op == Instruction::Or ? done(k, [](const ZE &p, const ZE &q) { return p | q; }) : done(k, [](const ZE &p, const ZE &q) { return p ^ q; }); }
    case Instruction::Shl: { if (y.lo != y.hi || y.lo < 0 || y.lo >= w || x.k + y.lo > 100) return false; lo = x.lo * ((i128)1 << (int)y.lo); hi = x.hi * ((i128)1 << (int)y.lo); unsigned s = (unsigned)y.lo; return done(bitsFor(lo, hi), [&](const ZE &p, const ZE &) { return z3::shl(p, bvc(s, p.get_sort().bv_size())); }); }
    case Instruction::LShr: case Instruction::AShr: { if (y.lo != y.hi || y.lo < 0 || y.lo >= w || (op == Instruction::LShr && x.lo < 0)) return false; unsigned s = (unsigned)y.lo; lo = x.lo >> s; hi = x.hi >> s; if (s >= x.k) return false; return done(x.k, [&](const ZE &p, const ZE &) { return z3::ashr(p, bvc(s, p.get_sort().bv_size())); }); }
    }
    return false;
}
static bool narrowCmp(unsigned p, const Val &a, const Val &b, Val &out) {
    IV x, y; if (!getItv(a, x) || !getItv(b, y)) return false;
    bool uns = p == CmpInst::ICMP_UGT || p == CmpInst::ICMP_UGE || p == CmpInst::ICMP_ULT || p == CmpInst::ICMP_ULE;
    if (uns && !(x.lo >= 0 && y.lo >= 0) && !(x.hi < 0 && y.hi < 0)) return false; // same sign: unsigned order = signed order
    auto K = [&](bool r) { out = Val::I(r, 1); return true; };
    unsigned k = std::max(x.k, y.k); ZE e = narrowTo(a, k), f = narrowTo(b, k);
    switch (p) {
    case CmpInst::ICMP_EQ: if (x.hi < y.lo || y.hi < x.lo) return K(false); out = mkBV(e == f, 1); return true;
    case CmpInst::ICMP_NE: if (x.hi < y.lo || y.hi < x.lo) return K(true); out = mkBV(e != f, 1); return true;
    case CmpInst::ICMP_UGT: case CmpInst::ICMP_SGT: if (x.lo > y.hi) return K(true); if (x.hi <= y.lo) return K(false); out = mkBV(e > f, 1); return true;
    case CmpInst::ICMP_UGE: case CmpInst::ICMP_SGE: if (x.lo >= y.hi) return K(true); if (x.hi < y.lo) return K(false); out = mkBV(e >= f, 1); return true;
    case CmpInst::ICMP_ULT: case CmpInst::ICMP_SLT: if (x.hi < y.lo) return K(true); if (x.lo >= y.hi) return K(false); out = mkBV(e < f, 1); return true;
    case CmpInst::ICMP_ULE: case CmpInst::ICMP_SLE: if (x.hi <= y.lo) return K(true); if (x.lo > y.hi) return K(false); out = mkBV(e <= f, 1); return true;
    }
    return false;
}
// all feasible values of a symbolic integer expression
static bool enumVals(State &st, const ZE &e0, unsigned w, vector<std::pair<uint64_t, shared_ptr<Model>>> &out, unsigned limit) {
    ZE e = pinned(st, e0);
    if (w == 1 && (e.is_true() || e.is_false())) { out.push_back({e.is_true(), st.model}); return true; }
    { uint64_t u; if (w > 1 && e.is_numeral_u64(u)) { out.push_back({u, st.model}); return true; } }
    ZE bv = w == 1 ? z3::ite(e, bvc(1, 1), bvc(0, 1)) : e;
    ZE excl = Z().bool_val(true);
    while (true) {
        shared_ptr<Model> m; int r; ZE ev(Z());
        if (out.empty() && st.model) { ev = evalM(st, bv); uint64_t u; if (ev.is_numeral_u64(u)) { out.push_back({u, st.model}); excl = excl && (bv != bvc(u, w)); continue; } }
        r = check(st, excl, m);
        if (r == R_UNSAT) return true;
        if (r == R_UNK) throw Unsupported{"solver gave no answer while enumerating values"};
        State tmp; tmp.model = mergeModel(st, m); ev = evalM(tmp, bv); uint64_t u;
        if (!ev.is_numeral_u64(u)) throw Unsupported{"value enumeration"};
        out.push_back({u, tmp.model}); excl = excl && (bv != bvc(u, w));
        if (out.size() > limit) return false;
    }
}
static uint64_t concInt(State &st, Frame &f, const Opr &o, const char *what) {
    const Val &v = o.slot >= 0 ? f.r[o.slot] : o.c;
    if (v.k == K_INT) return v.i;
    if (v.k == K_UNDEF) violate(st, "uninit", string("use of uninitialised value as ") + what);
    if (v.k != K_BV) throw Unsupported{string("symbolic double used as ") + what};
    vector<std::pair<uint64_t, shared_ptr<Model>>> vs; ZE e = EX(v); unsigned w = v.w, W = v.w; bool nar = false;
    if (w > 1) { auto it = itvs.find(e.id()); if (it != itvs.end()) { ZE q = it->second.nar; w = it->second.k; e = q; nar = true; if (w == 1) { e = q == bvc(1, 1); } } }
    if (!enumVals(st, e, w, vs, optEnum)) throw Unsupported{string("too many values for ") + what};
    int slot = o.slot; auto full = [&](uint64_t x) { return nar ? Val::I((uint64_t)Val::I(x, w).s(), W) : Val::I(x, W); };
    for (size_t i = 1; i < vs.size(); i++) {
        State *s = new State(st); s->lastB = 1; s->lastE = 0;
        addC(*s, w == 1 ? (vs[i].first ? e : !e) : e == bvc(vs[i].first, w)); s->model = vs[i].second;
        if (slot >= 0) top(*s).r[slot] = full(vs[i].first);
        tryPin(*s, e); pushState(s);
    }
    if (vs.size() > 1) { addC(st, w == 1 ? (vs[0].first ? e : !e) : e == bvc(vs[0].first, w)); st.model = vs[0].second; tryPin(st, e); }
    if (slot >= 0) f.r[slot] = full(vs[0].first);
    return full(vs[0].first).i;
}

// ------------------------------------------------------------------ integer ops
static ZE bvshift(unsigned op, const ZE &a, const ZE &b) {
    if (op == Instruction::Shl) return z3::shl(a, b);
    if (op == Instruction::LShr) return z3::lshr(a, b);
    return z3::ashr(a, b);
}
static Val intBin(State &st, unsigned op, const Val &a, const Val &b, unsigned w) {
    if (a.k == K_UNDEF || b.k == K_UNDEF) {
        if (op == Instruction::And && ((a.k == K_INT && a.i == 0) || (b.k == K_INT && b.i == 0))) return Val::I(0, w);
        if ((a.n || b.n) && w % 8 == 0 && w <= 64) { // whole bytes of a partly defined value
            unsigned n = w / 8; vector<Val> x, y;
            if ((op == Instruction::Shl || op == Instruction::LShr) && b.k == K_INT && b.i % 8 == 0 && b.i < w && bytesOf(a, n, x)) {
                unsigned k = b.i / 8; vector<Val> q(n, Val::I(0, 8));
                for (unsigned i = 0; i < n; i++) { if (op == Instruction::Shl) { if (i >= k) q[i] = x[i - k]; } else if (i + k < n) q[i] = x[i + k]; }
                return fromBytes(q);
            }
            if ((op == Instruction::And || op == Instruction::Or) && bytesOf(a, n, x) && bytesOf(b, n, y)) {
                vector<Val> q(n);
                for (unsigned i = 0; i < n; i++) {
                    const Val *k = x[i].k == K_INT ? &x[i] : &y[i], *o = x[i].k == K_INT ? &y[i] : &x[i];
                    if (x[i].k != K_UNDEF && y[i].k != K_UNDEF) q[i] = intBin(st, op, x[i], y[i], 8);
                    else if (k->k == K_INT && k->i == (op == Instruction::And ? 0u : 255u)) q[i] = *k;
                    else if (k->k == K_INT && k->i == (op == Instruction::And ? 255u : 0u)) q[i] = *o;
                    else q[i].w = 8;
                }
                return fromBytes(q);
            }
        }
        Val u; u.w = w; return u;
    }
    if (a.k == K_INT && b.k == K_INT && w <= 64) {
        uint64_t x = a.i, y = b.i;
        switch (op) {
        case Instruction::Add: return Val::I(x + y, w);
        case Instruction::Sub: return Val::I(x - y, w);
        case Instruction::Mul: return Val::I(x * y, w);
        case Instruction::And: return Val::I(x & y, w);
        case Instruction::Or: return Val::I(x | y, w);
        case Instruction::Xor: return Val::I(x ^ y, w);
        case Instruction::UDiv: if (!y) violate(st, "arith", "division by zero"); return Val::I(x / y, w);
        case Instruction::URem: if (!y) violate(st, "arith", "division by zero"); return Val::I(x % y, w);
        case Instruction::SDiv: if (!y) violate(st, "arith", "division by zero"); if (b.s() == -1) return Val::I(-x, w); return Val::I(a.s() / b.s(), w);
        case Instruction::SRem: if (!y) violate(st, "arith", "division by zero"); if (b.s() == -1) return Val::I(0, w); return Val::I(a.s() % b.s(), w);
        case Instruction::Shl: if (y >= w) { Val u; u.w = w; return u; } return Val::I(x << y, w);
        case Instruction::LShr: if (y >= w) { Val u; u.w = w; return u; } return Val::I(x >> y, w);
        case Instruction::AShr: if (y >= w) { Val u; u.w = w; return u; } return Val::I((uint64_t)(a.s() >> y), w);
        }
    }
    if ((a.k == K_REAL || b.k == K_REAL || a.k == K_FP || b.k == K_FP)) {
        auto cv = [&](const Val &v) { if (v.k == K_FP) return mkBV(ZE(Z(), Z3_mk_fpa_to_ieee_bv(Z(), EX(v))), v.w); if (v.k == K_REAL) throw Unsupported{"bit operation on an exact-real double"}; return v; };
        return intBin(st, op, cv(a), cv(b), w);
    }
    if (w == 1) {
        ZE x = toZ(a), y = toZ(b);
        switch (op) {
        case Instruction::And: case Instruction::Mul: return mkBV(x && y, 1);
        case Instruction::Or: return mkBV(x || y, 1);
        case Instruction::Xor: case Instruction::Add: case Instruction::Sub: return mkBV(x != y, 1);
        default: throw Unsupported{"i1 op"};
        }
    }
    { Val r; if (narrowBin(op, a, b, w, r)) return r; }
    ZE x = toZ(a), y = toZ(b);
    switch (op) {
    case Instruction::Add: return mkBV(x + y, w);
    case Instruction::Sub: return mkBV(x - y, w);
    case Instruction::Mul: return mkBV(x * y, w);
    case Instruction::And: return mkBV(x & y, w);
    case Instruction::Or: return mkBV(x | y, w);
    case Instruction::Xor: return mkBV(x ^ y, w);
    case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem:
        if (b.k != K_INT) { if (decideFork(st, y == bvc(0, w))) violate(st, "arith", "division by zero"); }
        else if (b.i == 0) violate(st, "arith", "division by zero");
        if (op == Instruction::UDiv) return mkBV(z3::udiv(x, y), w);
        if (op == Instruction::URem) return mkBV(z3::urem(x, y), w);
        if (op == Instruction::SDiv) return mkBV(x / y, w);
        return mkBV(z3::srem(x, y), w);
    case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: return mkBV(bvshift(op, x, y), w);
    }
    throw Unsupported{"int op"};
}
static Val intCmp(unsigned p, const Val &a, const Val &b) {
    if (a.k == K_UNDEF || b.k == K_UNDEF) { Val u; u.w = 1; return u; }
    if (a.k == K_INT && b.k == K_INT) {
        uint64_t x = a.i, y = b.i; int64_t s = a.s(), t = b.s(); bool r = false;
        switch (p) {
        case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break;
        case CmpInst::ICMP_UGT: r = x > y; break; case CmpInst::ICMP_UGE: r = x >= y; break;
        case CmpInst::ICMP_ULT: r = x < y; break; case CmpInst::ICMP_ULE: r = x <= y; break;
        case CmpInst::ICMP_SGT: r = s > t; break; case CmpInst::ICMP_SGE: r = s >= t; break;
        case CmpInst::ICMP_SLT: r = s < t; break; case CmpInst::ICMP_SLE: r = s <= t; break;
        }
        return Val::I(r, 1);
    }
    { Val r; if (narrowCmp(p, a, b, r)) return r; }
    auto cv = [&](const Val &v) { if (v.k == K_FP) return ZE(Z(), Z3_mk_fpa_to_ieee_bv(Z(), EX(v))); if (v.k == K_REAL) throw Unsupported{"bit comparison of exact-real doubles"}; return asBV(v); };
    ZE x = cv(a), y = cv(b);
    switch (p) {
    case CmpInst::ICMP_EQ: return mkBV(x == y, 1); case CmpInst::ICMP_NE: return mkBV(x != y, 1);
    case CmpInst::ICMP_UGT: return mkBV(z3::ugt(x, y), 1); case CmpInst::ICMP_UGE: return mkBV(z3::uge(x, y), 1);
    case CmpInst::ICMP_ULT: return mkBV(z3::ult(x, y), 1); case CmpInst::ICMP_ULE: return mkBV(z3::ule(x, y), 1);
    case CmpInst::ICMP_SGT: return mkBV(x > y, 1); case CmpInst::ICMP_SGE: return mkBV(x >= y, 1);
    case CmpInst::ICMP_SLT: return mkBV(x < y, 1); case CmpInst::ICMP_SLE: return mkBV(x <= y, 1);
    }
    throw Unsupported{"icmp"};
}
// ------------------------------------------------------------------ floating point
static Val mkFP(const ZE &e, unsigned w) { Val r; r.k = K_FP; r.w = w; r.n = Ref<Node>(new ExprNode(e.simplify())); return r; }
static ZE fpE(const Val &v) {
    if (v.k == K_FP) return EX(v);
    if (v.k == K_DBL) {
        if (v.w == 32) { float f = v.d; return ZE(Z(), Z3_mk_fpa_numeral_float(Z(), f, Z().fpa_sort<32>())); }
        return ZE(Z(), Z3_mk_fpa_numeral_double(Z(), v.d, Z().fpa_sort<64>()));
    }
    if (v.k == K_BV) return EX(bitsToFP(EX(v), v.w));
    throw Unsupported{"mixing exact-real and IEEE symbolic doubles"};
}
static ZE RNE() { return ZE(Z(), Z3_mk_fpa_rne(Z())); }
static Val fixF(const Val &v) { // integers carrying double bits
    if (v.k == K_INT) { if (v.w == 64) { double d; memcpy(&d, &v.i, 8); return Val::D(d); } uint32_t q = v.i; float f; memcpy(&f, &q, 4); return Val::D(f, 32); }
    if (v.k == K_BV) return bitsToFP(EX(v), v.w);
    return v;
}
static Val realSpecial(State &st, unsigned op, const Val &a, const Val &b, bool &done) { // NaN/inf operand with a real
    done = false; const Val &c = a.k == K_DBL ? a : b;
    if (c.k != K_DBL || std::isfinite(c.d)) return Val();
    done = true;
    if (std::isnan(c.d)) return Val::D(c.d);
    if (op == Instruction::FAdd) return Val::D(c.d);
    if (op == Instruction::FSub) return Val::D(a.k == K_DBL ? c.d : -c.d);
    if (op == Instruction::FDiv && b.k == K_DBL) return Val::D(0);
    throw Unsupported{"infinity with symbolic real"};
}
static Val fpBin(State &st, unsigned op, const Val &a0, const Val &b0, unsigned w) {
    Val a = fixF(a0), b = fixF(b0);
    if (a.k == K_UNDEF || b.k == K_UNDEF) { Val u; u.w = w; return u; }
    if (a.k == K_DBL && b.k == K_DBL) {
        double x = a.d, y = b.d, r = 0;
        if (w == 32) { float p = x, q = y, s = 0; switch (op) { case Instruction::FAdd: s = p + q; break; case Instruction::FSub: s = p - q; break; case Instruction::FMul: s = p * q; break; case Instruction::FDiv: s = p / q; break; case Instruction::FRem: s = fmodf(p, q); break; } return Val::D(s, 32); }
        switch (op) { case Instruction::FAdd: r = x + y; break; case Instruction::FSub: r = x - y; break; case Instruction::FMul: r = x * y; break; case Instruction::FDiv: r = x / y; break; case Instruction::FRem: r = fmod(x, y); break; }
        return Val::D(r);
    }
    if (a.k == K_REAL || b.k == K_REAL) {
        if (w == 32) throw Unsupported{"float arithmetic on exact reals"};
        bool d; Val s = realSpecial(st, op, a, b, d); if (d) return s;
        if (a.k == K_FP || b.k == K_FP) throw Unsupported{"mixing exact-real and IEEE symbolic doubles"};
        switch (op) {
        case Instruction::FAdd: return rAdd(a, b, false);
        case Instruction::FSub: return rAdd(a, b, true);
        case Instruction::FMul: return rMul(a, b);
        case Instruction::FDiv: {
            if (b.k == K_DBL) { if (b.d == 0) throw Unsupported{"real division by constant zero"}; return rDivC(a, b.d); }
            // symbolic divisor: q with q*b == a
            RealNode &y = RN(b); Val A = realOf(a); RealNode &x = RN(A);
            if (y.lo - y.err <= 0 && y.hi + y.err >= 0) { if (y.err != 0) throw Unsupported{"division by possibly zero rounded real"}; if (decideFork(st, polyZ(y.p) == 0)) { violate(st, "arith", "floating division by zero"); } if (y.lo < 0 && y.hi > 0) throw Unsupported{"real division by a sign-changing divisor"}; }
            double m = std::min(std::fabs(y.lo), std::fabs(y.hi));
            if (y.gran != GRAN_NONE && y.gran < 900 && y.gran > -900) m = std::max(m, std::ldexp(1.0, y.gran));
            if (m == 0) throw Unsupported{"real division by a divisor arbitrarily near zero"};
            double mx = std::max(std::fabs(x.lo), std::fabs(x.hi));
            double bd = mx / m * (1 + 1e-12);
            ZE q = mkVar("q!" + std::to_string(atoms.size()), Z().real_sort());
            Val at = newAtom("q", q, -bd, bd, GRAN_NONE);
            varAxioms[varOf[q.id()]].push_back(q * polyZ(y.p) == polyZ(x.p));
            double e = (x.err / (m - y.err) + bd * y.err / (m - y.err)) * (1 + 1e-12) + bd * 0x1p-53 + 0x1p-1074;
            RealNode &r = RN(at); r.err = e; return at;
        }
        default: throw Unsupported{"frem on real"};
        }
    }
    ZE x = fpE(a), y = fpE(b);
    switch (op) {
    case Instruction::FAdd: return mkFP(ZE(Z(), Z3_mk_fpa_add(Z(), RNE(), x, y)), w);
    case Instruction::FSub: return mkFP(ZE(Z(), Z3_mk_fpa_sub(Z(), RNE(), x, y)), w);
    case Instruction::FMul: return mkFP(ZE(Z(), Z3_mk_fpa_mul(Z(), RNE(), x, y)), w);
    case Instruction::FDiv: return mkFP(ZE(Z(), Z3_mk_fpa_div(Z(), RNE(), x, y)), w);
    }
    throw Unsupported{"fp op"};
}
static Val fpNeg(const Val &a0) {
    Val a = fixF(a0);
    if (a.k == K_DBL) return Val::D(-a.d, a.w);
    if (a.k == K_REAL) return rNeg(a);
    if (a.k == K_FP) return mkFP(ZE(Z(), Z3_mk_fpa_neg(Z(), EX(a))), a.w);
    return a;
}
static Val fpCmp(State &st, unsigned p, const Val &a0, const Val &b0) {
    Val a = fixF(a0), b = fixF(b0);
    if (p == CmpInst::FCMP_TRUE) return Val::I(1, 1);
    if (p == CmpInst::FCMP_FALSE) return Val::I(0, 1);
    if (a.k == K_UNDEF || b.k == K_UNDEF) { Val u; u.w = 1; return u; }
    bool uno = p & 8; unsigned q = p & 7; // bit0 eq, bit1 gt, bit2 lt
    if (a.k == K_DBL && b.k == K_DBL) {
        double x = a.d, y = b.d;
        if (std::isnan(x) || std::isnan(y)) return Val::I(uno, 1);
        bool r = ((q & 1) && x == y) || ((q & 2) && x > y) || ((q & 4) && x < y);
        return Val::I(r, 1);
    }
    if (a.k == K_REAL || b.k == K_REAL) {
        const Val &c = a.k == K_DBL ? a : b;
        if (c.k == K_DBL && !std::isfinite(c.d)) {
            if (std::isnan(c.d)) return Val::I(uno, 1);
            bool gt = (a.k == K_DBL) == (c.d > 0); // a > b ?
            return Val::I(((q & 2) && gt) || ((q & 4) && !gt), 1);
        }
        if (a.k == K_FP || b.k == K_FP) throw Unsupported{"mixing exact-real and IEEE symbolic doubles"};
        if (q == 7) return Val::I(1, 1);
        if (q == 0) return Val::I(0, 1);
        Val A = realOf(a), B = realOf(b); RealNode &x = RN(A), &y = RN(B);
        double E = x.err + y.err; if (E > 0) E = E * (1 + 1e-12);
        Poly d = x.p; for (auto &t : y.p) { auto it = d.find(t.first); if (it == d.end()) d[t.first] = -t.second; else { it->second -= t.second; if (it->second == 0) d.erase(it); } }
        Val dv = mkReal(d, -INFINITY, INFINITY, 0, std::min(x.gran, y.gran)); Val D = realOf(dv); RealNode &r = RN(D);
        if (r.lo > E) return Val::I((q & 2) != 0, 1);
        if (r.hi < -E) return Val::I((q & 4) != 0, 1);
        if (E == 0 && dv.k == K_DBL) return Val::I(((q & 1) && dv.d == 0) || ((q & 2) && dv.d > 0) || ((q & 4) && dv.d < 0), 1);
        ZE z = polyZ(d), zero = Z().real_val(0);
        if (E == 0) {
            ZE e(Z());
            switch (q) { case 1: e = z == zero; break; case 2: e = z > zero; break; case 3: e = z >= zero; break; case 4: e = z < zero; break; case 5: e = z <= zero; break; case 6: e = z != zero; break; }
            return mkBV(e, 1);
        }
        ZE b1 = mkVar("cmp!" + std::to_string(varExpr.size()), Z().bool_sort());
        ZE ee = qz(dq(E)), gt = z > -ee, ge = gt, lt = z < ee, near_ = (z <= ee) && (z >= -ee);
        ZE T(Z()), F(Z());
        switch (q) {
        case 1: T = near_; F = Z().bool_val(true); break;
        case 2: case 3: T = z >= -ee; F = z <= ee; break;
        case 4: case 5: T = z <= ee; F = z >= -ee; break;
        default: T = Z().bool_val(true); F = near_; break;
        }
        st.approx = true;
        addC(st, z3::implies(b1, T)); addC(st, z3::implies(!b1, F));
        // extend the model
        shared_ptr<Model> mt, mf; auto m2 = mergeModel(st, nullptr);
        State tmp; tmp.model = st.model; ZE te = evalM(tmp, T);
        m2->emplace(varOf[b1.id()], Z().bool_val(te.is_true())); st.model = m2;
        return mkBV(b1, 1);
    }
    ZE x = fpE(a), y = fpE(b); ZE r = Z().bool_val(false);
    if ((q & 7) == 7) r = !(ZE(Z(), Z3_mk_fpa_is_nan(Z(), x)) || ZE(Z(), Z3_mk_fpa_is_nan(Z(), y)));
    else {
        if (q & 1) r = r || ZE(Z(), Z3_mk_fpa_eq(Z(), x, y));
        if (q & 2) r = r || ZE(Z(), Z3_mk_fpa_gt(Z(), x, y));
        if (q & 4) r = r || ZE(Z(), Z3_mk_fpa_lt(Z(), x, y));
    }
    if (uno) r = r || ZE(Z(), Z3_mk_fpa_is_nan(Z(), x)) || ZE(Z(), Z3_mk_fpa_is_nan(Z(), y));
    return mkBV(r, 1);
}
static int i2dMode = 0; // 0 fork (enumerate), 1 IEEE, 2 exact real
static std::map<uint32_t, Val> i2dOrigin;         // real atom -> the integer it was converted from
static std::unordered_map<unsigned, Val> intLink; // integer expression -> the integral real it was converted from
static std::map<std::pair<unsigned, unsigned>, Val> d2iMemo;
static Val intToFP(State &st, Frame &f, const CI &c, bool sgn) {
    const Val &v = c.o[0].slot >= 0 ? f.r[c.o[0].slot] : c.o[0].c;
    if (v.k == K_UNDEF) { Val u; u.w = c.w; return u; }
    if (v.k == K_INT) { double d = sgn ? (double)v.s() : (double)v.i; if (c.w == 32) d = sgn ? (float)v.s() : (float)v.i; return Val::D(d, c.w); }
    if (v.k == K_BV && c.w == 64) { auto it = intLink.find(EX(v).id()); if (it != intLink.end() && (sgn || RN(it->second).lo >= 0)) return it->second; }
    if (i2dMode == 1) {
        z3::sort s = c.w == 32 ? Z().fpa_sort<32>() : Z().fpa_sort<64>(); ZE e = asBV(v);
        return mkFP(ZE(Z(), sgn ? Z3_mk_fpa_to_fp_signed(Z(), RNE(), e, s) : Z3_mk_fpa_to_fp_unsigned(Z(), RNE(), e, s)), c.w);
    }
    if (i2dMode == 2) {
        ZE e = asBV(v); ZE r(Z(), Z3_mk_int2real(Z(), Z3_mk_bv2int(Z(), e, sgn)));
        // value range from the solver's view of the path: powers of two
        double lo = 0, hi = 1; IV iv;
        if (getItv(v, iv) && (sgn || iv.lo >= 0)) { lo = (double)(int64_t)iv.lo; hi = (double)(int64_t)iv.hi; if (iv.lo < -(1ll << 52) || iv.hi > (1ll << 52)) throw Unsupported{"large integer to real"}; }
        else if (v.w <= 16) { lo = sgn ? -std::ldexp(1.0, v.w - 1) : 0; hi = std::ldexp(1.0, sgn ? v.w - 1 : v.w) - 1; }
        else {
            bool ok = false; shared_ptr<Model> m;
            for (; hi < 1e15 && hi < std::ldexp(1.0, v.w - 3); hi *= 4) if (check(st, sgn ? (e > bvc((uint64_t)hi, v.w) || e < bvc((uint64_t)(-(int64_t)hi), v.w)) : z3::ugt(e, bvc((uint64_t)hi, v.w)), m) == R_UNSAT) { ok = true; break; }
            if (!ok) throw Unsupported{"unbounded integer converted to floating point"};
            if (sgn) lo = check(st, e < bvc(0, v.w), m) == R_UNSAT ? 0 : -hi;
        }
        ZE a = mkVar("i2d!" + std::to_string(e.id()) + (sgn ? "s" : "u"), Z().real_sort());
        for (uint32_t k = 0; k < atoms.size(); k++) if (atoms[k].e.id() == a.id()) { Poly p; p[Mono{k}] = 1; return mkReal(p, lo, hi, 0, 0); }
        varsOf(e); // keep e alive
        varAxioms[varOf[a.id()]].push_back(a == r);
        Val at = newAtom("i2d", a, lo, hi, 0); i2dOrigin[RN(at).p.begin()->first[0]] = v; return at;
    }
    uint64_t u = concInt(st, f, c.o[0], "integer converted to floating point");
    Val t = Val::I(u, v.w); double d = sgn ? (double)t.s() : (double)t.i; return Val::D(c.w == 32 ? (float)d : d, c.w);
}
static bool polyIntegral(const Poly &p) { for (auto &t : p) { if (t.second.get_den() != 1) return false; for (auto a : t.first) if (atoms[a].gran < 0) return false; } return true; }
// floor-like on a real: returns fork-enumerated integer
static Val realToInt(State &st, const Val &a, int mode, bool &ok) { // mode 0 trunc 1 floor 2 ceil 3 round-half-away 4 round-half-even ; ok
    RealNode &x = RN(a); ok = true;
    double l = x.lo - x.err, h = x.hi + x.err;
    auto R = [&](double d) { return mode == 0 ? std::trunc(d) : mode == 1 ? std::floor(d) : mode == 2 ? std::ceil(d) : mode == 4 ? std::nearbyint(d) : std::round(d); };
    if (x.err == 0 && x.gran >= 0) return a; // already integral
    double a0 = R(l), b0 = R(h);
    if (a0 == b0) return Val::D(a0);
    if (mode >= 3 && x.err < 0.49 && (x.gran >= 0 || polyIntegral(x.p))) return mkReal(x.p, x.lo, x.hi, 0, 0); // an integer plus less than half
    ZE z = polyZ(x.p); double E = x.err * (1 + 1e-12);
    if (b0 - a0 > (i2dMode == 2 ? 40 : 300)) { // an integer-valued unknown constrained by the rounding rule
        varsOf(z); ZE q = mkVar("int!" + std::to_string(z.id()) + "!" + std::to_string(mode), Z().real_sort());
        for (uint32_t k = 0; k < atoms.size(); k++) if (atoms[k].e.id() == q.id()) { Poly p; p[Mono{k}] = 1; return mkReal(p, a0, b0, 0, 0); }
        ZE ee = qz(dq(E)), one = Z().real_val(1), half = Z().real_val(1, 2); auto &ax = varAxioms[varOf[q.id()]];
        ZE dn = q <= z + ee && q >= z - one - ee, up = q >= z - ee && q <= z + one + ee;
        if (E == 0) { dn = q <= z && q > z - one; up = q >= z && q < z + one; }
        if (mode == 1) ax.push_back(dn); else if (mode == 2) ax.push_back(up); else if (mode >= 3) { ax.push_back(q <= z + half + ee); ax.push_back(q >= z - half - ee); }
        else { ax.push_back(z3::implies(z >= 0, dn && q >= 0)); ax.push_back(z3::implies(z <= 0, up && q <= 0)); if (E > 0) { ax.clear(); ax.push_back(z3::implies(z > ee, dn && q >= 0)); ax.push_back(z3::implies(z < -ee, up && q <= 0)); ax.push_back(z3::implies(z <= ee && z >= -ee, q <= one && q >= -one)); } }
        ax.push_back(q >= qz(dq(a0))); ax.push_back(q <= qz(dq(b0)));
        return newAtom("int", q, a0, b0, 0);
    }
    // successive decisions on thresholds, from the model's value outward
    auto thr = [&](double k) -> double { // value is >= k (as integer result) iff real >= thr (mode dependent)
        if (mode == 1) return k; if (mode == 2) return k - 1; if (mode >= 3) return k - 0.5; return k > 0 ? k : k - 1; };
    double lo = a0, hi = b0;
    while (lo < hi) {
        double mid = std::floor((lo + hi + 1) / 2); double t = thr(mid);
        bool strict = mode == 2 || (mode == 0 && mid <= 0) || (mode == 3 && mid <= 0) || (mode == 4 && std::fmod(mid, 2) != 0);
        ZE cond = strict ? z > qz(dq(t)) : z >= qz(dq(t));
        if (E > 0) { // near the threshold either outcome is possible: use a relaxed decision variable
            ZE tt = qz(dq(t)), ee = qz(dq(E));
            string nm = "rnd!" + std::to_string(z.id()) + "!" + std::to_string((long)mid) + "!" + std::to_string(mode);
            ZE b = mkVar(nm, Z().bool_sort());
            if (!st.cnt.count(nm)) { st.cnt[nm] = 1; addC(st, z3::implies(b, z >= tt - ee)); addC(st, z3::implies(!b, z <= tt + ee)); st.approx = true;
                auto m2 = mergeModel(st, nullptr); State tmp; tmp.model = st.model; ZE te = evalM(tmp, cond); m2->emplace(varOf[b.id()], Z().bool_val(te.is_true())); st.model = m2; }
            varsOf(z);
            cond = b;
        }
        if (decideFork(st, cond)) lo = mid; else hi = mid - 1;
    }
    return Val::D(lo);
}
static Val fpToIntV(State &st, Val v, unsigned w, bool sgn) {
    v = fixF(v);
    double lo = sgn ? -std::ldexp(1.0, w - 1) : 0, hi = std::ldexp(1.0, sgn ? w - 1 : w); // trunc in [lo,hi)
    if (v.k == K_UNDEF) { Val u; u.w = w; return u; }
    if (v.k == K_REAL) {
        bool ok; Val t = realToInt(st, v, 0, ok);
        if (t.k == K_REAL) { // integral symbolic
            RealNode &x = RN(t);
            if (x.lo < lo || x.hi >= hi) { if (decideFork(st, polyZ(x.p) < qz(dq(lo)) || polyZ(x.p) >= qz(dq(hi)))) violate(st, "arith", "float to integer conversion out of range"); }
            if (x.p.size() == 1 && x.p.begin()->first.size() == 1 && x.p.begin()->second == 1) { // an integer that came from an integer
                auto it = i2dOrigin.find(x.p.begin()->first[0]);
                if (it != i2dOrigin.end()) { IV r; if (getItv(it->second, r) && bitsFor(r.lo, r.hi) <= w) return it->second.k == K_INT ? Val::I((uint64_t)it->second.s(), w) : regItv(itvs.at(EX(it->second).id()).nar, r.k, r.lo, r.hi, w); if (it->second.w == w) return it->second; }
            }
            { ZE zz = polyZ(x.p); varsOf(zz); auto it = d2iMemo.find({zz.id(), w}); if (it != d2iMemo.end()) return it->second; }
            ZE k = mkVar("d2i!" + std::to_string(polyZ(x.p).id()) + "!" + std::to_string(varExpr.size()), Z().bv_sort(w));
            varAxioms[varOf[k.id()]].push_back(ZE(Z(), Z3_mk_int2real(Z(), Z3_mk_bv2int(Z(), k, sgn))) == polyZ(x.p));
            Val kv = mkBV(k, w); intLink[k.id()] = t; d2iMemo[{polyZ(x.p).id(), w}] = kv; return kv;
        }
        v = t;
    }
    if (v.k == K_DBL) {
        double t = std::trunc(v.d);
        if (!(t >= lo && t < hi)) violate(st, "arith", "float to integer conversion out of range");
        return Val::I(sgn ? (uint64_t)(int64_t)t : (uint64_t)t, w);
    }
    ZE x = fpE(v);
    // range check
    double lob = sgn ? lo - 1 : -1; // strict lower bound on x
    ZE bad = ZE(Z(), Z3_mk_fpa_is_nan(Z(), x)) || ZE(Z(), Z3_mk_fpa_geq(Z(), x, fpE(Val::D(hi, v.w))));
    if (w < 53 || !sgn) bad = bad || ZE(Z(), Z3_mk_fpa_leq(Z(), x, fpE(Val::D(lob, v.w)))); else bad = bad || ZE(Z(), Z3_mk_fpa_lt(Z(), x, fpE(Val::D(lo, v.w))));
    if (decideFork(st, bad)) violate(st, "arith", "float to integer conversion out of range");
    ZE rtz(Z(), Z3_mk_fpa_rtz(Z()));
    return mkBV(ZE(Z(), sgn ? Z3_mk_fpa_to_sbv(Z(), rtz, x, w) : Z3_mk_fpa_to_ubv(Z(), rtz, x, w)), w);
}
static Val fpToInt(State &st, Frame &f, const CI &c, bool sgn) { return fpToIntV(st, c.o[0].slot >= 0 ? f.r[c.o[0].slot] : c.o[0].c, c.w, sgn); }
static Val iteVal(State &st, const Val &c, const Val &a, const Val &b, Type *ty) {
    if (c.k == K_INT) return c.i ? a : b;
    if (c.k == K_UNDEF) violate(st, "uninit", "select on uninitialised value");
    if (!ty->isPointerTy() && (a.k == K_INT || a.k == K_BV) && (b.k == K_INT || b.k == K_BV)) {
        if (a.w == 1) return mkBV((EX(c) && toZ(a)) || (!EX(c) && toZ(b)), 1);
        IV x, y; if (getItv(a, x) && getItv(b, y)) { unsigned k = std::max(x.k, y.k); return regItv(z3::ite(EX(c), narrowTo(a, k), narrowTo(b, k)), k, std::min(x.lo, y.lo), std::max(x.hi, y.hi), a.w); }
        return mkBV(z3::ite(EX(c), toZ(a), toZ(b)), a.w);
    }
    if ((a.k == K_FP || b.k == K_FP) && a.k != K_REAL && b.k != K_REAL && a.k != K_UNDEF && b.k != K_UNDEF) return mkFP(z3::ite(EX(c), fpE(a), fpE(b)), std::max(a.w, b.w));
    return decideFork(st, EX(c)) ? a : b;
}

static Val castVal(State &st, unsigned op, const Val &v, unsigned w, Type *dst);
#include "calls.inc"

// ------------------------------------------------------------------ the interpreter
static void enterBlock(State &st, Frame &f, int b) {
    int prev = f.bb; f.prev = prev;
    CBlock &cb = f.f->bb[b];
    auto it = cb.phis.find(prev);
    if (it != cb.phis.end()) {
        static thread_local vector<Val> tmp; tmp.clear();
        for (auto &p : it->second) tmp.push_back(p.second.slot >= 0 ? f.r[p.second.slot] : p.second.c);
        for (size_t i = 0; i < it->second.size(); i++) f.r[it->second[i].first] = tmp[i];
    }
    f.bb = b; f.ip = 0;
}
static Val castVal0(State &st, unsigned op, const Val &v, unsigned w, Type *dst);
static Val castVal(State &st, unsigned op, const Val &v, unsigned w, Type *dst) {
    Val r = castVal0(st, op, v, w, dst);
    if (v.k == K_BV && r.k == K_BV && !intLink.empty()) {
        auto it = intLink.find(EX(v).id());
        if (it != intLink.end()) { Val rl = it->second; RealNode &x = RN(rl); if (op == Instruction::SExt || (op == Instruction::ZExt && x.lo >= 0) || (op == Instruction::Trunc && x.lo >= -std::ldexp(1.0, w - 1) && x.hi < std::ldexp(1.0, w - 1))) { varsOf(EX(r)); intLink[EX(r).id()] = rl; } }
    }
    return r;
}
static Val castVal0(State &st, unsigned op, const Val &v, unsigned w, Type *dst) {
    if (v.k == K_AGG) { vector<Val> r; Type *et = cast<FixedVectorType>(dst)->getElementType(); unsigned ew = et->getPrimitiveSizeInBits(); for (auto &x : AG(v)) r.push_back(castVal(st, op, x, ew, et)); return mkAgg(r); }
    if (v.k == K_UNDEF) {
        vector<Val> x;
        if (v.n && w % 8 == 0 && v.w % 8 == 0 && op != Instruction::SExt && bytesOf(v, v.w / 8, x)) { x.resize(w / 8, Val::I(0, 8)); return fromBytes(x); }
        Val u; u.w = w; return u;
    }
    if (v.k == K_INT && w <= 64) {
        if (op == Instruction::SExt) return Val::I((uint64_t)v.s(), w);
        return Val::I(v.i, w);
    }
    Val x = v;
    if (x.k == K_FP) x = mkBV(ZE(Z(), Z3_mk_fpa_to_ieee_bv(Z(), EX(x))), x.w);
    if (x.k == K_REAL) { if (w == 64) return x; throw Unsupported{"integer cast of exact real bits"}; }
    if (x.k == K_DBL) { uint64_t u = 0; if (x.w == 64) memcpy(&u, &x.d, 8); else { float f = x.d; memcpy(&u, &f, 4); } x = Val::I(u, x.w); return castVal(st, op, x, w, dst); }
    { IV r; if (x.k == K_BV && w > 1 && w <= 64 && getItv(x, r)) {
        bool ok = op == Instruction::SExt || (op == Instruction::ZExt && r.lo >= 0) || (op == Instruction::Trunc && r.k <= w);
        if (ok) { Val q = regItv(itvs.at(EX(x).id()).nar, r.k, r.lo, r.hi, w); return q; }
        if (op == Instruction::Trunc && r.k > w) return mkBV(itvs.at(EX(x).id()).nar.extract(w - 1, 0), w);
    } }
    if (op == Instruction::ZExt && x.k == K_BV && x.w > 1 && x.w <= 32 && w <= 64) return regItv(z3::zext(toZ(x), 1), x.w + 1, 0, ((i128)1 << x.w) - 1, w);
    if (op == Instruction::SExt && x.k == K_BV && x.w > 1 && x.w <= 32 && w <= 64) return regItv(toZ(x), x.w, -((i128)1 << (x.w - 1)), ((i128)1 << (x.w - 1)) - 1, w);
    switch (op) {
    case Instruction::Trunc: if (w == 1) return mkBV(asBV(x).extract(0, 0) == bvc(1, 1), 1); return mkBV(asBV(x).extract(w - 1, 0), w);
    case Instruction::ZExt: if (x.w == 1) return mkBV(z3::ite(toZ(x), bvc(1, w), bvc(0, w)), w); return mkBV(z3::zext(toZ(x), w - x.w), w);
    case Instruction::SExt: if (x.w == 1) return mkBV(z3::ite(toZ(x), z3::sext(bvc(1, 1), w - 1), bvc(0, w)), w); return mkBV(z3::sext(toZ(x), w - x.w), w);
    default: return x;
    }
}
static void doReturn(State &st, const Val &rv) {
    Thread &t = st.th[st.cur]; Frame &f = t.fr.back();
    for (auto a : f.al) { st.mem.erase(a); } st.lastB = 1; st.lastE = 0;
    t.fr.pop_back();
    if (t.fr.empty()) {
        t.st = TS_DONE; t.vc[st.cur]++;
        if (st.cur == 0) throw PathEnd{};
        st.resched = true; throw Resched{};
    }
    Frame &c = t.fr.back(); CI &ci = c.f->bb[c.bb].ins[c.ip];
    if (ci.dst >= 0) c.r[ci.dst] = rv;
    c.ip++;
    if (ci.op == Instruction::Invoke) enterBlock(st, c, 0);
}
static void stepInstr(State &st) {
    Thread &t = st.th[st.cur]; Frame &f = t.fr.back();
    CI &c = f.f->bb[f.bb].ins[f.ip];
    auto V = [&](int i) -> const Val & { const Opr &o = c.o[i]; return o.slot >= 0 ? f.r[o.slot] : o.c; };
    auto set = [&](Val v) { f.r[c.dst] = std::move(v); f.ip++; };
    switch (c.op) {
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
    case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
        if (V(0).k == K_AGG) { unsigned ew = c.ty->getScalarSizeInBits(); vector<Val> r; auto &x = AG(V(0)), &y = AG(V(1)); for (size_t i = 0; i < x.size(); i++) r.push_back(intBin(st, c.op, x[i], y[i], ew)); set(mkAgg(r)); return; }
        set(intBin(st, c.op, V(0), V(1), c.w)); return;
    }
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
        if (V(0).k == K_AGG) { unsigned ew = c.ty->getScalarSizeInBits(); vector<Val> r; auto &x = AG(V(0)), &y = AG(V(1)); for (size_t i = 0; i < x.size(); i++) r.push_back(fpBin(st, c.op, x[i], y[i], ew)); set(mkAgg(r)); return; }
        if (c.ty->isX86_FP80Ty()) throw Unsupported{"long double"};
        set(fpBin(st, c.op, V(0), V(1), c.w)); return;
    }
    case Instruction::FNeg: if (V(0).k == K_AGG) { vector<Val> r; for (auto &x : AG(V(0))) r.push_back(fpNeg(x)); set(mkAgg(r)); return; } set(fpNeg(V(0))); return;
    case Instruction::ICmp: if (V(0).k == K_AGG) { vector<Val> r; auto &x = AG(V(0)), &y = AG(V(1)); for (size_t i = 0; i < x.size(); i++) r.push_back(intCmp(c.pred, x[i], y[i])); set(mkAgg(r)); return; } set(intCmp(c.pred, V(0), V(1))); return;
    case Instruction::FCmp: if (V(0).k == K_AGG) { vector<Val> r; auto &x = AG(V(0)), &y = AG(V(1)); for (size_t i = 0; i < x.size(); i++) r.push_back(fpCmp(st, c.pred, x[i], y[i])); set(mkAgg(r)); return; } set(fpCmp(st, c.pred, V(0), V(1))); return;
    case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::PtrToInt: case Instruction::IntToPtr: set(castVal(st, c.op, V(0), c.w, c.ty)); return;
    case Instruction::BitCast: {
        Val v = V(0);
        if (v.k == K_AGG || c.ty->isVectorTy()) {
            if (v.k == K_AGG && c.ty->isVectorTy() && cast<FixedVectorType>(c.ty)->getNumElements() == AG(v).size()) { vector<Val> r; Type *et = cast<FixedVectorType>(c.ty)->getElementType(); for (auto &x : AG(v)) r.push_back(et->isFloatingPointTy() ? fixF(x) : castVal(st, Instruction::BitCast, x, et->getPrimitiveSizeInBits(), et)); set(mkAgg(r)); return; }
            throw Unsupported{"vector bitcast"};
        }
        if (c.fp) set(fixF(v));
        else if (v.k == K_DBL) { uint64_t u = 0; if (v.w == 64) memcpy(&u, &v.d, 8); else { float x = v.d; memcpy(&u, &x, 4); } set(Val::I(u, v.w)); }
        else if (v.k == K_FP) set(mkBV(ZE(Z(), Z3_mk_fpa_to_ieee_bv(Z(), EX(v))), v.w));
        else set(v);
        return;
    }
    case Instruction::SIToFP: set(intToFP(st, f, c, true)); return;
    case Instruction::UIToFP: set(intToFP(st, f, c, false)); return;
    case Instruction::FPToSI: set(fpToInt(st, f, c, true)); return;
    case Instruction::FPToUI: set(fpToInt(st, f, c, false)); return;
    case Instruction::FPTrunc: case Instruction::FPExt: {
        Val v = fixF(V(0)); if (v.k == K_UNDEF) { v.w = c.w; set(v); return; }
        if (c.w > 64) throw Unsupported{"long double"};
        if (v.k == K_DBL) { set(Val::D(v.d, c.w)); return; }
        if (v.k == K_FP) { z3::sort s = c.w == 32 ? Z().fpa_sort<32>() : Z().fpa_sort<64>(); set(mkFP(ZE(Z(), Z3_mk_fpa_to_fp_float(Z(), RNE(), EX(v), s)), c.w)); return; }
        throw Unsupported{"float conversion of exact real"};
    }
    case Instruction::Select: set(iteVal(st, V(0), V(1), V(2), c.ty)); return;
    case Instruction::Freeze: set(V(0)); return;
    case Instruction::Alloca: {
        uint64_t n = concInt(st, f, c.o[0], "alloca size");
        uint64_t a = allocObj(st, std::max<uint64_t>(1, c.sz * n), 2, "stack"); Frame &g = top(st); g.al.push_back(a); g.r[c.dst] = Val::I(a, 64); g.ip++; return;
    }
    case Instruction::GetElementPtr: {
        Val b = V(0); if (b.k == K_UNDEF) { b.w = 64; set(b); return; }
        bool conc = b.k == K_INT; uint64_t a = conc ? b.i + c.gepc : 0;
        if (conc) { for (auto &g : c.gep) { const Val &x = V(g.first); if (x.k != K_INT) { conc = false; break; } a += x.s() * g.second; } }
        if (conc) { set(Val::I(a, 64)); return; }
        ZE e = toZ(b) + bvc(c.gepc, 64);
        for (auto &g : c.gep) { const Val &x = V(g.first); if (x.k == K_UNDEF) { Val u; u.w = 64; set(u); return; } ZE i = toZ(x); if (x.w < 64) i = z3::sext(i, 64 - x.w); e = e + i * bvc(g.second, 64); }
        set(mkBV(e, 64)); return;
    }
    case Instruction::Load: {
        if (c.volatileAtomic && syncPoint(st, P_OTHER, 0)) return;
        uint64_t a = concInt(st, f, c.o[0], "address");
        Val v = loadT(st, a, c.ty, c.volatileAtomic);
        if (c.volatileAtomic) acquireVC(st, st.atomvc[a]);
        set(v); if (c.volatileAtomic) syncDone(st); return;
    }
    case Instruction::Store: {
        if (c.volatileAtomic && syncPoint(st, P_OTHER, 0)) return;
        uint64_t a = concInt(st, f, c.o[1], "address"); Val v = V(0);
        storeT(st, a, c.ty, v, c.volatileAtomic); f.ip++;
        if (c.volatileAtomic) { releaseVC(st, st.atomvc[a]); syncDone(st); }
        return;
    }
    case Instruction::AtomicRMW: {
        if (syncPoint(st, P_OTHER, 0)) return;
        auto *x = cast<AtomicRMWInst>(c.I); uint64_t a = concInt(st, f, c.o[0], "address"); Val old = loadT(st, a, c.ty, true), v = V(1), nw;
        switch (x->getOperation()) {
        case AtomicRMWInst::Xchg: nw = v; break; case AtomicRMWInst::Add: nw = intBin(st, Instruction::Add, old, v, c.w); break;
        case AtomicRMWInst::Sub: nw = intBin(st, Instruction::Sub, old, v, c.w); break; case AtomicRMWInst::And: nw = intBin(st, Instruction::And, old, v, c.w); break;
        case AtomicRMWInst::Or: nw = intBin(st, Instruction::Or, old, v, c.w); break; default: throw Unsupported{"atomicrmw"};
        }
        storeT(st, a, c.ty, nw, true); acquireVC(st, st.atomvc[a]); releaseVC(st, st.atomvc[a]); set(old); syncDone(st); return;
    }
    case Instruction::AtomicCmpXchg: {
        if (syncPoint(st, P_OTHER, 0)) return;
        auto *x = cast<AtomicCmpXchgInst>(c.I); uint64_t a = concInt(st, f, c.o[0], "address"); Type *ty = x->getCompareOperand()->getType();
        Val old = loadT(st, a, ty, true); Val eq = intCmp(CmpInst::ICMP_EQ, old, V(1)); bool e = eq.k == K_INT ? eq.i : decideFork(st, EX(eq));
        if (e) storeT(st, a, ty, V(2), true); acquireVC(st, st.atomvc[a]); releaseVC(st, st.atomvc[a]); set(mkAgg({old, Val::I(e, 1)})); syncDone(st); return;
    }
    case Instruction::Fence: f.ip++; return;
    case Instruction::ExtractValue: { Val v = V(0); for (auto i : c.idx) { if (v.k != K_AGG) break; Val t2 = AG(v)[i]; v = t2; } set(v); return; }
    case Instruction::InsertValue: {
        std::function<Val(const Val &, size_t)> ins = [&](const Val &a, size_t d) -> Val { if (d == c.idx.size()) return V(1); vector<Val> e = AG(a); e[c.idx[d]] = ins(e[c.idx[d]], d + 1); return mkAgg(e); };
        set(ins(V(0), 0)); return;
    }
    case Instruction::ExtractElement: { uint64_t i = concInt(st, f, c.o[1], "vector index"); Val v = V(0); if (v.k == K_AGG) { Val e = AG(v)[i]; set(e); } else set(v); return; }
    case Instruction::InsertElement: { uint64_t i = concInt(st, f, c.o[2], "vector index"); vector<Val> e = AG(V(0)); e[i] = V(1); set(mkAgg(e)); return; }
    case Instruction::ShuffleVector: {
        auto *s = cast<ShuffleVectorInst>(c.I); vector<Val> a = AG(V(0)), b = AG(V(1)), r;
        for (int m : s->getShuffleMask()) { if (m < 0) { Val u; u.w = c.ty->getScalarSizeInBits(); r.push_back(u); } else r.push_back(m < (int)a.size() ? a[m] : b[m - a.size()]); }
        set(mkAgg(r)); return;
    }
    case Instruction::Br: {
        if (c.o.empty()) { enterBlock(st, f, c.succ[0]); return; }
        const Val &v = V(0);
        if (v.k == K_INT) { enterBlock(st, f, c.succ[v.i ? 0 : 1]); return; }
        if (v.k == K_UNDEF) violate(st, "uninit", "branch on uninitialised value");
        ZE e = EX(v); bool tk = decideFork(st, e);
        enterBlock(st, top(st), c.succ[tk ? 0 : 1]); return;
    }
    case Instruction::Switch: {
        uint64_t v = concInt(st, f, c.o[0], "switch value"); int s = c.succ[0];
        for (size_t i = 0; i < c.cases.size(); i++) if (c.cases[i] == v) { s = c.succ[i + 1]; break; }
        enterBlock(st, f, s); return;
    }
    case Instruction::Unreachable: violate(st, "ub", "unreachable code executed");
    case Instruction::Ret: { Val rv; if (!c.o.empty()) rv = V(0); doReturn(st, rv); return; }
    case Instruction::Call: case Instruction::Invoke: doCall(st, f, c); return;
    default: throw Unsupported{string("instruction ") + c.I->getOpcodeName()};
    }
}
static void pushFrame(State &st, Function *F, const vector<Val> &args) {
    if (F->isDeclaration()) throw Unsupported{"call to undefined function " + fname(F)};
    CFunc *cf = compileF(F);
    if (!cf->entered) { cf->entered = true; for (auto &s : cf->repoFns) fnExec.insert(s); }
    if (st.th[st.cur].fr.size() > 400) throw Unsupported{"recursion too deep"};
    Frame nf; nf.f = cf; nf.r.resize(cf->nslots);
    for (size_t i = 0; i < F->arg_size() && i < args.size(); i++) {
        nf.r[i] = args[i];
        if (F->getArg(i)->hasByValAttr()) { uint64_t n = DL->getTypeAllocSize(F->getParamByValType(i)); uint64_t a = allocObj(st, n, 2, "byval"); memCopy(st, a, args[i].i, n); nf.r[i] = Val::I(a, 64); nf.al.push_back(a); }
    }
    st.th[st.cur].fr.push_back(std::move(nf));
}
// scheduler: choose the next thread, forking over every enabled one
static bool enabled(State &st, int k) {
    Thread &t = st.th[k]; if (t.st == TS_DONE) return false;
    if (!t.started) return true;
    switch (t.pk) {
    case P_LOCK: return !st.mtx.count(t.pa);
    case P_JOIN: return st.th[t.pa].st == TS_DONE;
    case P_CVWAIT: return (t.notified || optSpurious) && !st.mtx.count(t.pb);
    default: return true;
    }
}
static void schedule(State &st) {
    vector<int> en; for (int k = 0; k < (int)st.th.size(); k++) if (enabled(st, k)) en.push_back(k);
    if (en.empty()) violate(st, "deadlock", "deadlock: no thread can make progress");
    // preemption bound: keep running the current thread if it could continue
    bool curEn = std::find(en.begin(), en.end(), st.cur) != en.end();
    if (optPreempt >= 0 && curEn && st.preempts >= optPreempt) en = {st.cur};
    nSched++;
    int pick = en[0]; int was = st.cur;
    if (en.size() > 1) {
        // the schedule is a symbolic choice; the path takes each feasible value
        for (size_t i = 1; i < en.size(); i++) {
            State *s = new State(st); s->lastB = 1; s->lastE = 0; s->cur = en[i]; s->th[en[i]].granted = s->th[en[i]].pk != P_NONE; s->th[en[i]].started = true; s->resched = false;
            if (curEn && en[i] != was) s->preempts++;
            s->sched.push_back(en[i]); pushState(s);
        }
    }
    st.sched.push_back(pick); st.cur = pick; st.th[pick].granted = st.th[pick].pk != P_NONE; st.th[pick].started = true; st.resched = false;
    if (curEn && pick != was) st.preempts++;
}
static void finishPath(State &st, bool completed) {
    nPaths++;
    if (completed) {
        nCompleted++;
        for (auto &r : st.reach) reachCnt[r]++;
        if (samples.size() < 4) {
            string s; for (auto &p : st.inputs) { if (s.size() > 400) { s += "..."; break; } s += p.first + "=" + valStr(st, p.second, nullptr) + " "; }
            if (st.sched.size()) { s += "sched="; for (size_t i = 0; i < st.sched.size() && i < 80; i++) s += std::to_string(st.sched[i]); }
            samples.push_back(s);
        }
    }
}
static uint64_t maxDone = 1000;
static void runState(State *sp) {
    State &st = *sp;
    bool ok = false;
    try {
        while (true) {
            if (st.resched) { schedule(st); if (!st.resched) {} }
            try {
                while (true) {
                    st.steps++; nSteps++;
                    if ((nSteps & 0xfff) == 0 && now() > optTime) throw TimeUp{};
                    if (st.stepCap && st.steps > st.stepCap) violate(st, "termination", "did not terminate within the step budget");
                    if (st.steps > optMaxSteps) { record(st, "limit", "does not end", nullptr); throw Unsupported{"step limit on one path"}; }
                    stepInstr(st);
                }
            } catch (Retry &) {
            } catch (Resched &) { st.resched = true; }
        }
    } catch (PathEnd &) { ok = st.th[0].st == TS_DONE || st.th[0].fr.empty(); }
    catch (Unsupported &u) { addIncomplete(u.msg + " @ " + whereStr(st)); if (u.msg.find("too large") == string::npos && u.msg.find("step limit") == string::npos) recordLimit(st, "cannot be followed further"); }
    catch (TimeUp &) { if (st.steps > 2 * maxDone) record(st, "limit", "does not end", nullptr); throw; }   // much longer than any finished path: the replay decides
    catch (z3::exception &e) { addIncomplete(string("z3: ") + e.msg() + " @ " + whereStr(st)); }
    if (ok && st.steps > maxDone) maxDone = st.steps;
    finishPath(st, ok);
}
static string jesc(const string &s) { string o; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if ((unsigned char)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o; }

int main(int argc, char **argv) {
    T0 = std::chrono::steady_clock::now();
    vector<string> files;
    for (int i = 1; i < argc; i++) {
        string a = argv[i]; auto val = [&](const char *p) -> const char * { size_t n = strlen(p); return a.compare(0, n, p) == 0 ? a.c_str() + n : nullptr; }; const char *v;
        if ((v = val("--entry="))) optEntry = v; else if ((v = val("--out="))) optOut = v; else if ((v = val("--time="))) optTime = atof(v);
        else if ((v = val("--qms="))) optQueryMs = atoi(v); else if ((v = val("--enum="))) optEnum = atoi(v); else if ((v = val("--inputs="))) optInputs = v;
        else if ((v = val("--maxpaths="))) optMaxPaths = atoll(v); else if ((v = val("--repo="))) optRepo = v; else if ((v = val("--preempt="))) optPreempt = atoi(v);
        else if ((v = val("--maxviol="))) optMaxViol = atoi(v); else if ((v = val("--maxsteps="))) optMaxSteps = atoll(v);
        else if (a == "--races") optRaces = true; else if (a == "--spurious") optSpurious = true; else if (a == "-v") optVerbose = true;
        else files.push_back(a);
    }
    G = new Ctx;
    LLVMContext lc; SMDiagnostic err; std::unique_ptr<Module> mod;
    for (auto &f : files) {
        auto m = parseIRFile(f, err, lc); if (!m) { fprintf(stderr, "cannot read %s: %s\n", f.c_str(), err.getMessage().str().c_str()); return 3; }
        if (!mod) mod = std::move(m); else if (Linker::linkModules(*mod, std::move(m))) { fprintf(stderr, "link error\n"); return 3; }
    }
    M = mod.get(); DL = &M->getDataLayout();
    loadInputs();
    State *s0 = new State; initSt = s0; s0->model = std::make_shared<Model>();
    bool fatal = false;
    try {
        for (auto &F : *M) { uint64_t a = allocObj(*s0, 16, 1, F.getName().str(), true); gaddr[&F] = a; faddr[a] = &F; }
        for (auto &g : M->globals()) { uint64_t n = g.getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(g.getValueType()) : 64; if (!g.hasInitializer()) n = std::max<uint64_t>(n, 256); gaddr[&g] = allocObj(*s0, std::max<uint64_t>(n, 1), 0, g.getName().str(), !g.hasInitializer()); }
        // standard output streams: enough of their layout for the inlined part of std::endl (vtable's base offset, character table)
        for (auto &g : M->globals()) if (!g.hasInitializer() && (g.getName() == "_ZSt4cout" || g.getName() == "_ZSt4cerr" || g.getName() == "_ZSt4clog")) {
            uint64_t os = allocObj(*s0, 512, 0, g.getName().str(), true), vt = allocObj(*s0, 64, 1, "ostream vtable", true), ct = allocObj(*s0, 1024, 1, "ctype", true); gaddr[&g] = os;
            storeRaw(*s0, os, 8, Val::I(vt + 24, 64)); s0->mem[vt]->kind = 0; storeRaw(*s0, vt, 8, Val::I(8, 64)); storeRaw(*s0, os + 8 + 240, 8, Val::I(ct, 64)); s0->mem[ct]->kind = 0; storeRaw(*s0, ct + 56, 1, Val::I(1, 8));
            for (int i = 0; i < 256; i++) storeRaw(*s0, ct + 57 + i, 1, Val::I(i, 8));
        }
        for (auto &g : M->globals()) if (g.hasInitializer() && !g.getName().starts_with("llvm.")) {
            try { initConst(*s0, gaddr[&g], g.getInitializer()); } catch (Unsupported &u) { if (optVerbose) fprintf(stderr, "global %s: %s\n", g.getName().str().c_str(), u.msg.c_str()); }
            if (g.isConstant()) s0->mem[gaddr[&g]]->kind = 1;
        }
        Function *E = M->getFunction(optEntry); if (!E || E->isDeclaration()) { fprintf(stderr, "no entry %s\n", optEntry.c_str()); return 3; }
        s0->th.resize(1); s0->th[0].started = true;
        pushFrame(*s0, E, {});
        // static constructors of the linked program run first
        if (auto *gc = M->getGlobalVariable("llvm.global_ctors")) if (gc->hasInitializer()) if (auto *ca = dyn_cast<ConstantArray>(gc->getInitializer())) {
            vector<Function *> fs; for (auto &o : ca->operands()) if (auto *F = dyn_cast<Function>(cast<ConstantStruct>(o)->getOperand(1))) fs.push_back(F);
            // run each to completion by pushing pseudo frames on top of the entry
            for (auto *F : fs) {
                s0->th[0].fr.clear(); pushFrame(*s0, F, {});
                try { while (true) { stepInstr(*s0); } } catch (PathEnd &) { s0->th[0].st = TS_RUN; }
            }
            s0->th[0].fr.clear(); pushFrame(*s0, E, {});
        }
        s0->th[0].vc[0] = 1; s0->steps = 0;
        work.push_back(s0);
        while (!work.empty()) {
            State *s = work.back(); work.pop_back();
            runState(s);
            delete s;
            if (nPaths >= optMaxPaths) { addIncomplete("path limit reached"); break; }
            if ((int)viols.size() >= optMaxViol) { addIncomplete("stopped after enough violations"); break; }
        }
    } catch (TimeUp &) { addIncomplete("time budget exhausted with " + std::to_string(work.size() + 1) + " paths open"); }
    catch (Unsupported &u) { addIncomplete(u.msg); fatal = true; }
    catch (PathEnd &) { addIncomplete("startup failed"); fatal = true; }
    (void)fatal;
    if (nCompleted == 0 && viols.empty() && incomplete.empty()) addIncomplete("vacuous: no path completed");
    std::ostringstream o;
    o << "{\n \"entry\": \"" << optEntry << "\",\n \"status\": \"" << (!viols.empty() ? "violation" : incomplete.empty() ? "ok" : "incomplete") << "\",\n";
    o << " \"incomplete\": ["; for (size_t i = 0; i < incomplete.size() && i < 12; i++) o << (i ? "," : "") << "\"" << jesc(incomplete[i]) << "\""; o << "],\n";
    o << " \"paths\": " << nPaths << ", \"completed\": " << nCompleted << ", \"states\": " << nStates << ", \"forks\": " << nForks << ", \"instructions\": " << nSteps << ", \"sched_points\": " << nSched << ",\n";
    o << " \"queries\": " << nQueries << ", \"sat\": " << nSat << ", \"unsat\": " << nUnsat << ", \"unknown\": " << nUnknown << ", \"cache_hits\": " << nCacheHit << ", \"model_hits\": " << nModelHit << ", \"solver_s\": " << solverTime << ", \"solver_max_s\": " << solverMax << ", \"wall_s\": " << now() << ",\n";
    o << " \"assert_folded\": " << nAssertTrivial << ", \"assert_queries\": " << nAssertQ << ",\n \"asserts\": {"; { bool f = true; for (auto &p : assertCnt) { o << (f ? "" : ", ") << "\"" << jesc(p.first) << "\": " << p.second; f = false; } } o << "},\n";
    o << " \"reach\": {"; { bool f = true; for (auto &p : reachCnt) { o << (f ? "" : ", ") << "\"" << jesc(p.first) << "\": " << p.second; f = false; } } o << "},\n";
    o << " \"bounds\": {"; { bool f = true; for (auto &p : boundsSeen) { o << (f ? "" : ", ") << "\"" << jesc(p.first) << "\": \"" << jesc(p.second) << "\""; f = false; } } o << "},\n";
    o << " \"functions\": ["; { bool f = true; for (auto &p : fnExec) { o << (f ? "" : ",") << "\n  \"" << jesc(p) << "\""; f = false; } } o << "],\n";
    o << " \"samples\": ["; for (size_t i = 0; i < samples.size(); i++) o << (i ? ", " : "") << "\"" << jesc(samples[i]) << "\""; o << "],\n";
    o << " \"log\": ["; for (size_t i = 0; i < concLog.size(); i++) o << (i ? ", " : "") << "\"" << jesc(concLog[i]) << "\""; o << "],\n";
    o << " \"violations\": [";
    for (size_t i = 0; i < viols.size(); i++) {
        auto &v = viols[i];
        o << (i ? ",\n  " : "\n  ") << "{\"kind\": \"" << v.kind << "\", \"label\": \"" << jesc(v.label) << "\", \"where\": \"" << jesc(v.where) << "\", \"approx\": " << (v.approx ? "true" : "false") << ", \"inputs\": [";
        for (size_t k = 0; k < v.in.size(); k++) o << (k ? ", " : "") << "[\"" << jesc(v.in[k].first) << "\", \"" << v.in[k].second << "\"]";
        o << "], \"sched\": ["; for (size_t k = 0; k < v.sched.size(); k++) o << (k ? "," : "") << v.sched[k]; o << "]}";
    }
    o << "]\n}\n";
    if (optOut == "-") std::cout << o.str(); else { std::ofstream(optOut) << o.str(); }
    std::cout.flush();
    _exit(0);
}
