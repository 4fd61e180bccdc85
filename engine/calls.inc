// ------------------------------------------------------------------ threads
static void acquireVC(State &st, map<int, int> &m) { for (auto &p : m) { int &x = st.th[st.cur].vc[p.first]; x = std::max(x, p.second); } }
static void releaseVC(State &st, map<int, int> &m) { for (auto &p : st.th[st.cur].vc) { int &x = m[p.first]; x = std::max(x, p.second); } st.th[st.cur].vc[st.cur]++; }
static bool syncPoint(State &st, int kind, uint64_t a, uint64_t b = 0) {
    if (st.th.size() == 1) return false;
    Thread &t = st.th[st.cur];
    if (!t.granted) { t.pk = kind; t.pa = a; t.pb = b; throw Resched{}; }
    return false;
}
static void syncDone(State &st) { st.th[st.cur].granted = false; st.th[st.cur].pk = P_NONE; }

// ------------------------------------------------------------------ concrete inputs / log
static map<string, string> concIn; static bool concMode = false; static vector<string> concLog;
static void loadInputs() {
    if (optInputs.empty()) return;
    concMode = true; std::ifstream in(optInputs); string n, v; while (in >> n >> v) concIn[n] = v;
}
static void clog(const string &s) { if (concMode) concLog.push_back(s); }
static string dstr(double d) { char b[64]; if (std::isnan(d)) return "nan"; snprintf(b, 64, "%a", d == 0 ? 0.0 : d); return b; }

static string cstr(State &st, uint64_t a) {
    string s; for (int i = 0; i < 4096; i++) { Obj *o = resolve(st, a + i, 1, false); char ch = o->b[a + i - o->base]; if (!ch) break; s += ch; } return s;
}
static string inName(State &st, const string &n) { int k = st.cnt[n]++; return n + "#" + std::to_string(k); }

static Val fnAtom(State &st, int fn, const char *nm, const Val &x, double lo, double hi, double lip) {
    RealNode &r = RN(x);
    int match = -1;
    for (uint32_t k = 0; k < atoms.size(); k++) if (atoms[k].fn == fn && atoms[k].arg == r.p) { match = k; break; }
    double e = lip >= 0 ? r.err * lip * (1 + 1e-12) + std::max(std::fabs(lo), std::fabs(hi)) * 0x1p-51 + 0x1p-1074 : 0;
    Val v;
    if (match >= 0) { Poly p; p[Mono{(uint32_t)match}] = 1; v = mkReal(p, lo, hi, 0, GRAN_NONE); }
    else {
        ZE a = mkVar(string(nm) + "!" + std::to_string(atoms.size()), Z().real_sort());
        v = newAtom(nm, a, lo, hi, GRAN_NONE); Atom &at = atoms.back(); at.fn = fn; at.arg = r.p;
        auto &ax = varAxioms[varOf[a.id()]];
        ax.push_back(a >= qz(dq(lo))); ax.push_back(a <= qz(dq(hi)));
        if (lip >= 0) for (uint32_t k = 0; k + 1 < atoms.size(); k++) if (atoms[k].fn == fn) {
            Poly d = r.p; for (auto &t : atoms[k].arg) { auto it = d.find(t.first); if (it == d.end()) d[t.first] = -t.second; else { it->second -= t.second; if (it->second == 0) d.erase(it); } }
            Val D = realOf(mkReal(d, -INFINITY, INFINITY, 0, GRAN_NONE)); double m = std::max(std::fabs(RN(D).lo), std::fabs(RN(D).hi));
            if (m < 0.01) { ax.push_back(a - atoms[k].e <= qz(dq(m * lip * (1 + 1e-12)))); ax.push_back(a - atoms[k].e >= qz(dq(-m * lip * (1 + 1e-12)))); }
        }
    }
    if (v.k == K_REAL && e > 0) { auto *n = new RealNode(RN(v)); n->z = nullptr; n->err = e; n->gran = GRAN_NONE; v.n = Ref<Node>(n); }
    return v;
}
static Val math1(State &st, const string &n, const Val &a0) {
    Val a = fixF(a0); if (a.k == K_UNDEF) return a;
    bool flt = a.w == 32;
    if (a.k == K_DBL) {
        double x = a.d, r;
        if (flt) { float y = x; if (n == "sin") r = sinf(y); else if (n == "cos") r = cosf(y); else if (n == "sqrt") r = sqrtf(y); else if (n == "fabs") r = fabsf(y); else if (n == "floor") r = floorf(y); else if (n == "ceil") r = ceilf(y); else if (n == "exp") r = expf(y); else if (n == "round") r = roundf(y); else if (n == "trunc") r = truncf(y); else if (n == "rint" || n == "nearbyint") r = nearbyintf(y); else if (n == "tan") r = tanf(y); else if (n == "log") r = logf(y); else if (n == "log2") r = log2f(y); else if (n == "log10") r = log10f(y); else if (n == "exp2") r = exp2f(y); else if (n == "tanh") r = tanhf(y); else if (n == "atan") r = atanf(y); else throw Unsupported{"float math " + n}; return Val::D(r, 32); }
        if (n == "sin") r = sin(x); else if (n == "cos") r = cos(x); else if (n == "tan") r = tan(x); else if (n == "sqrt") r = sqrt(x); else if (n == "fabs") r = fabs(x);
        else if (n == "floor") r = floor(x); else if (n == "ceil") r = ceil(x); else if (n == "exp") r = exp(x); else if (n == "exp2") r = exp2(x); else if (n == "log") r = log(x); else if (n == "log2") r = log2(x); else if (n == "log10") r = log10(x);
        else if (n == "round") r = round(x); else if (n == "trunc") r = trunc(x); else if (n == "rint" || n == "nearbyint") r = nearbyint(x); else if (n == "asin") r = asin(x); else if (n == "acos") r = acos(x); else if (n == "atan") r = atan(x); else if (n == "sinh") r = sinh(x); else if (n == "cosh") r = cosh(x); else if (n == "tanh") r = tanh(x); else if (n == "cbrt") r = cbrt(x); else if (n == "expm1") r = expm1(x); else if (n == "log1p") r = log1p(x);
        else throw Unsupported{"math " + n};
        return Val::D(r);
    }
    if (a.k == K_REAL) {
        RealNode &x = RN(a); bool ok;
        if (n == "fabs") {
            if (x.lo - x.err >= 0) return a; if (x.hi + x.err <= 0) return rNeg(a);
            if (x.err == 0) return decideFork(st, polyZ(x.p) >= 0) ? a : rNeg(a);
            ZE z = polyZ(x.p); ZE v = mkVar("abs!" + std::to_string(atoms.size()), Z().real_sort()); double m = std::max(-x.lo, x.hi);
            Val r = newAtom("abs", v, 0, m, GRAN_NONE); varAxioms[varOf[v.id()]].push_back(v == z3::ite(z >= 0, z, -z)); RN(r).err = x.err; return r;
        }
        if (n == "floor") return realToInt(st, a, 1, ok); if (n == "ceil") return realToInt(st, a, 2, ok); if (n == "trunc") return realToInt(st, a, 0, ok); if (n == "round") return realToInt(st, a, 3, ok); if (n == "rint" || n == "nearbyint") return realToInt(st, a, 4, ok);
        if (n == "sin") return fnAtom(st, 1, "sin", a, -1, 1, 1); if (n == "cos") return fnAtom(st, 2, "cos", a, -1, 1, 1);
        if (n == "exp") { double hi = exp(x.hi) * (1 + 1e-12), lo = exp(x.lo) * (1 - 1e-12); return fnAtom(st, 3, "exp", a, lo, hi, hi); }
        if (n == "sqrt") {
            if (x.lo < 0) { if (decideFork(st, polyZ(x.p) < 0)) return Val::D(NAN); }
            double hi = sqrt(std::max(0.0, x.hi)) * (1 + 1e-12); ZE v = mkVar("sqrt!" + std::to_string(atoms.size()), Z().real_sort()); Val r = newAtom("sqrt", v, 0, hi, GRAN_NONE);
            varAxioms[varOf[v.id()]].push_back(v >= 0 && v * v == polyZ(x.p)); if (x.err) throw Unsupported{"sqrt of rounded real"}; RN(r).err = hi * 0x1p-53; return r;
        }
        throw Unsupported{"math " + n + " on exact real"};
    }
    ZE e = fpE(a);
    if (n == "fabs") return mkFP(ZE(Z(), Z3_mk_fpa_abs(Z(), e)), a.w);
    auto rti = [&](Z3_ast rm) { return mkFP(ZE(Z(), Z3_mk_fpa_round_to_integral(Z(), rm, e)), a.w); };
    if (n == "floor") return rti(Z3_mk_fpa_rtn(Z())); if (n == "ceil") return rti(Z3_mk_fpa_rtp(Z())); if (n == "trunc") return rti(Z3_mk_fpa_rtz(Z())); if (n == "round") return rti(Z3_mk_fpa_rna(Z())); if (n == "rint" || n == "nearbyint") return rti(Z3_mk_fpa_rne(Z()));
    if (n == "sqrt") return mkFP(ZE(Z(), Z3_mk_fpa_sqrt(Z(), RNE(), e)), a.w);
    throw Unsupported{"math " + n + " on symbolic IEEE double"};
}
static Val math2(State &st, const string &n, const Val &a0, const Val &b0) {
    Val a = fixF(a0), b = fixF(b0); if (a.k == K_UNDEF) return a; if (b.k == K_UNDEF) return b;
    if (n == "fmax" || n == "fmin") {
        if (a.k == K_DBL && b.k == K_DBL) return Val::D(n == "fmax" ? fmax(a.d, b.d) : fmin(a.d, b.d), a.w);
        Val c = fpCmp(st, n == "fmax" ? CmpInst::FCMP_OGE : CmpInst::FCMP_OLE, a, b);
        bool t = c.k == K_INT ? c.i : decideFork(st, EX(c)); return t ? a : b;
    }
    if (a.k == K_DBL && b.k == K_DBL) {
        double x = a.d, y = b.d, r;
        if (a.w == 32) { float p = x, q = y; if (n == "pow") return Val::D(powf(p, q), 32); if (n == "fmod") return Val::D(fmodf(p, q), 32); if (n == "atan2") return Val::D(atan2f(p, q), 32); if (n == "hypot") return Val::D(hypotf(p, q), 32); if (n == "copysign") return Val::D(copysignf(p, q), 32); if (n == "nextafter") return Val::D(nextafterf(p, q), 32); throw Unsupported{"float math " + n}; }
        if (n == "pow") r = pow(x, y); else if (n == "fmod") r = fmod(x, y); else if (n == "atan2") r = atan2(x, y); else if (n == "copysign") r = copysign(x, y); else if (n == "hypot") r = hypot(x, y); else if (n == "remainder") r = remainder(x, y); else if (n == "nextafter") r = nextafter(x, y);
        else throw Unsupported{"math " + n};
        return Val::D(r);
    }
    if (n == "pow" && b.k == K_DBL && a.k == K_REAL && b.d == std::floor(b.d) && b.d >= 0 && b.d <= 8) { Val r = Val::D(1); for (int i = 0; i < (int)b.d; i++) r = rMul(r, a); return r; }
    if (n == "pow" && a.k == K_DBL && b.k == K_REAL && a.d > 0) { // base^x = exp(x ln base), keyed on base
        RealNode &x = RN(b); double l = pow(a.d, x.lo), h = pow(a.d, x.hi); if (l > h) std::swap(l, h); l *= (1 - 1e-12); h *= (1 + 1e-12);
        uint64_t u; memcpy(&u, &a.d, 8); return fnAtom(st, 1000 + (int)(u % 1000003) , "pow", b, l, h, h * std::fabs(log(a.d)));
    }
    if (n == "fmod" && a.k == K_REAL && b.k == K_DBL && b.d != 0) { Val q = rDivC(a, b.d); bool ok; Val t = q.k == K_REAL ? realToInt(st, q, 0, ok) : Val::D(std::trunc(q.d)); Val m = rMul(t, b); return rAdd(a, m, true); }
    if (n == "copysign" && b.k == K_DBL) { Val r = math1(st, "fabs", a); return std::signbit(b.d) ? fpNeg(r) : r; }
    throw Unsupported{"math " + n + " on symbolic"};
}
static const std::set<string> M1 = {"sin", "cos", "tan", "sqrt", "fabs", "floor", "ceil", "exp", "exp2", "log", "log2", "log10", "round", "trunc", "rint", "nearbyint", "asin", "acos", "atan", "sinh", "cosh", "tanh", "cbrt", "expm1", "log1p"};
static const std::set<string> M2 = {"pow", "fmod", "atan2", "copysign", "hypot", "fmax", "fmin", "remainder", "nextafter"};

static void pushFrame(State &st, Function *F, const vector<Val> &args);

static void doAssert(State &st, const Val &v, const string &label) {
    assertCnt[label]++;
    if (v.k == K_UNDEF) violate(st, "uninit", label + " (depends on an uninitialised value)");
    if (v.k == K_INT) { nAssertTrivial++; clog(label + "=" + (v.i ? "1" : "0")); if (!v.i) violate(st, "assert", label); return; }
    nAssertQ++;
    ZE c = v.w == 1 ? EX(v) : EX(v) != bvc(0, v.w); c = c.simplify();
    if (c.is_true()) { nAssertTrivial++; return; }
    shared_ptr<Model> m; int r = check(st, (!c).simplify(), m);
    if (r == R_UNSAT) return;
    if (r == R_UNK) { addIncomplete("solver gave no answer on assertion '" + label + "'"); addC(st, c); return; }
    State tmp(st); tmp.model = mergeModel(st, m); record(tmp, "assert", label, nullptr);
    // continue on the part of the path where it holds, if any
    shared_ptr<Model> m2; int r2 = check(st, c, m2); if (r2 == R_UNSAT) throw PathEnd{};
    addC(st, c); st.model = mergeModel(st, m2);
}
static void doClose(State &st, const Val &a0, const Val &b0, double tol, const string &label) {
    Val a = fixF(a0), b = fixF(b0);
    assertCnt[label]++;
    if (a.k == K_UNDEF || b.k == K_UNDEF) violate(st, "uninit", label + " (depends on an uninitialised value)");
    if (a.k == K_DBL && b.k == K_DBL) {
        nAssertTrivial++; clog(label + "=" + dstr(a.d) + "," + dstr(b.d));
        if (!(std::fabs(a.d - b.d) <= tol) && !(a.d == b.d)) violate(st, "assert", label); return;
    }
    nAssertQ++;
    if (a.k == K_FP || b.k == K_FP) {
        ZE x = fpE(a), y = fpE(b); ZE ok(Z());
        if (tol == 0) ok = ZE(Z(), Z3_mk_fpa_eq(Z(), x, y));
        else ok = ZE(Z(), Z3_mk_fpa_leq(Z(), ZE(Z(), Z3_mk_fpa_abs(Z(), ZE(Z(), Z3_mk_fpa_sub(Z(), RNE(), x, y)))), fpE(Val::D(tol))));
        nAssertQ--; assertCnt[label]--; doAssert(st, mkBV(ok, 1), label); return;
    }
    if ((a.k == K_DBL && !std::isfinite(a.d)) || (b.k == K_DBL && !std::isfinite(b.d))) violate(st, "assert", label);
    Val A = realOf(a), B = realOf(b); RealNode &x = RN(A), &y = RN(B);
    double E = (x.err + y.err) * (1 + 1e-12);
    Poly d = x.p; for (auto &t : y.p) { auto it = d.find(t.first); if (it == d.end()) d[t.first] = -t.second; else { it->second -= t.second; if (it->second == 0) d.erase(it); } }
    if (E > tol && !d.empty()) { // cannot be shown to hold; a difference that no rounding explains is a violation
        ZE z = polyZ(d);
        for (double big : {1.0, 0.01, 1e-6}) { ZE TT = qz(dq(tol * 2 + E + big)); shared_ptr<Model> m3; if (check(st, z > TT || z < -TT, m3) == R_SAT) { State tmp(st); tmp.model = mergeModel(st, m3); record(tmp, "assert", label, nullptr); return; } }
    }
    if (E > tol) { recordLimit(st, label); addIncomplete("rounding error bound " + std::to_string(E) + " exceeds the tolerance of '" + label + "'"); return; }
    ZE z = polyZ(d); ZE T = qz(dq(tol) - dq(E));
    ZE bad = z > T || z < -T;
    if (d.empty()) bad = Z().bool_val(false); // identical polynomials; |0| <= tol-E
    shared_ptr<Model> m; int r;
    r = check(st, bad, m);
    if (r == R_UNSAT) return;
    if (r == R_UNK) { recordLimit(st, label); addIncomplete("solver gave no answer on assertion '" + label + "'"); return; }
    // prefer a clearly visible counterexample
    for (double big : {1.0, 0.01, 1e-4}) { ZE TT = qz(dq(tol * 2 + E + big)); shared_ptr<Model> m3; if (big > tol && check(st, z > TT || z < -TT, m3) == R_SAT) { m = m3; break; } }
    State tmp(st); tmp.model = mergeModel(st, m); record(tmp, "assert", label, nullptr);
    shared_ptr<Model> m2; ZE c = (!bad).simplify(); int r2 = check(st, c, m2); if (r2 == R_UNSAT) throw PathEnd{};
    addC(st, c); st.model = mergeModel(st, m2);
}
static Val concInput(const string &nm, const char *kind, double lo, double hi) {
    auto it = concIn.find(nm); string v = it == concIn.end() ? "" : it->second;
    if (kind[0] == 'i') { int64_t x = it == concIn.end() ? (int64_t)lo : strtoll(v.c_str() + 2, nullptr, 10); return Val::I((uint64_t)x, 64); }
    double d = lo; if (it != concIn.end()) { if (v[0] == 'b') { uint64_t u = strtoull(v.c_str() + 2, nullptr, 16); memcpy(&d, &u, 8); } else d = strtod(v.c_str() + 2, nullptr); }
    (void)hi; return Val::D(d);
}
// returns true if handled
static bool symCall(State &st, Frame &f, CI &c, const string &n) {
    if (n.compare(0, 4, "sym_")) return false;
    auto V = [&](int i) -> const Val & { const Opr &o = c.o[i]; return o.slot >= 0 ? f.r[o.slot] : o.c; };
    auto ret = [&](Val v) { if (c.dst >= 0) f.r[c.dst] = std::move(v); f.ip++; };
    auto str = [&](int i) { return cstr(st, V(i).i); };
    if (n == "sym_i64") {
        int64_t lo = (int64_t)concInt(st, f, c.o[1], "bound"), hi = (int64_t)concInt(st, f, c.o[2], "bound"); string base = str(0);
        boundsSeen[base] = "integer in [" + std::to_string(lo) + ", " + std::to_string(hi) + "]";
        string nm = inName(st, base); Val v;
        if (concMode) { v = concInput(nm, "i", lo, hi); st.inputs.push_back({nm, v}); ret(v); return true; }
        if (lo == hi) v = Val::I(lo, 64);
        else {
            if (lo > hi) throw PathEnd{};
            unsigned w = bitsFor(lo, hi); if (lo >= 0) w--; if (w > 64) w = 64;
            ZE x = mkVar(nm + "$" + std::to_string(lo) + "_" + std::to_string(hi), Z().bv_sort(w));
            v = lo >= 0 ? regItv(z3::zext(x, 1), w + 1, lo, hi, 64) : regItv(x, w, lo, hi, 64);
            if (lo >= 0) { if (lo > 0) addC(st, z3::uge(x, bvc(lo, w))); if ((uint64_t)hi != (w >= 64 ? ~0ull : (1ull << w) - 1)) addC(st, z3::ule(x, bvc(hi, w))); }
            else { if ((i128)lo != -((i128)1 << (w - 1))) addC(st, x >= bvc((uint64_t)lo & (w >= 64 ? ~0ull : (1ull << w) - 1), w)); if ((i128)hi != ((i128)1 << (w - 1)) - 1) addC(st, x <= bvc((uint64_t)hi & (w >= 64 ? ~0ull : (1ull << w) - 1), w)); }
            auto m = mergeModel(st, nullptr); int vi = varOf[x.id()]; ZE val0 = bvc((uint64_t)lo & (w >= 64 ? ~0ull : (1ull << w) - 1), w); auto it = m->find(vi); if (it == m->end()) m->emplace(vi, val0); else it->second = val0; st.model = m;
        }
        st.inputs.push_back({nm, v}); ret(v); return true;
    }
    if (n == "sym_f64" || n == "sym_f64i") {
        bool isi = n == "sym_f64i"; double lo, hi;
        if (isi) { lo = (double)(int64_t)concInt(st, f, c.o[1], "bound"); hi = (double)(int64_t)concInt(st, f, c.o[2], "bound"); }
        else { if (V(1).k != K_DBL || V(2).k != K_DBL) throw Unsupported{"symbolic bound"}; lo = V(1).d; hi = V(2).d; }
        string base = str(0); boundsSeen[base] = string(isi ? "integer-valued double in [" : "real-valued double in [") + std::to_string(lo) + ", " + std::to_string(hi) + "]";
        string nm = inName(st, base); Val v;
        if (concMode) v = concInput(nm, "d", lo, hi);
        else {
            string zn = nm + (isi ? "$fi" : "$fr") + std::to_string(lo) + "_" + std::to_string(hi);
            ZE x = mkVar(zn, Z().real_sort()); bool found = false;
            for (uint32_t k = 0; k < atoms.size(); k++) if (atoms[k].e.id() == x.id()) { Poly p; p[Mono{k}] = 1; v = mkReal(p, lo, hi, 0, isi ? 0 : GRAN_NONE); found = true; break; }
            if (!found) {
                v = newAtom(nm, x, lo, hi, isi ? 0 : GRAN_NONE);
                auto &ax = varAxioms[varOf[x.id()]]; ax.push_back(x >= qz(dq(lo))); ax.push_back(x <= qz(dq(hi)));
                if (isi) ax.push_back(ZE(Z(), Z3_mk_is_int(Z(), x)));
            }
            auto m = mergeModel(st, nullptr); int vi = varOf[x.id()]; ZE v0 = qz(dq(lo)); auto it = m->find(vi); if (it == m->end()) m->emplace(vi, v0); else it->second = v0; st.model = m;
        }
        st.inputs.push_back({nm, v}); ret(v); return true;
    }
    if (n == "sym_fp") {
        if (V(1).k != K_DBL || V(2).k != K_DBL) throw Unsupported{"symbolic bound"};
        double lo = V(1).d, hi = V(2).d; string base = str(0); boundsSeen[base] = "every IEEE double in [" + std::to_string(lo) + ", " + std::to_string(hi) + "]";
        string nm = inName(st, base); Val v;
        if (concMode) v = concInput(nm, "d", lo, hi);
        else {
            ZE x = mkVar(nm + "$fp", Z().fpa_sort<64>()); v = mkFP(x, 64);
            addC(st, ZE(Z(), Z3_mk_fpa_geq(Z(), x, fpE(Val::D(lo))))); addC(st, ZE(Z(), Z3_mk_fpa_leq(Z(), x, fpE(Val::D(hi)))));
            auto m = mergeModel(st, nullptr); int vi = varOf[x.id()]; ZE v0 = fpE(Val::D(lo)); auto it = m->find(vi); if (it == m->end()) m->emplace(vi, v0); else it->second = v0; st.model = m;
        }
        st.inputs.push_back({nm, v}); ret(v); return true;
    }
    if (n == "sym_conc") { uint64_t v = concInt(st, f, c.o[0], "value"); ret(Val::I(v, 64)); return true; }
    if (n == "sym_assume") {
        const Val &v = V(0);
        if (v.k == K_INT) { if (!v.i) throw PathEnd{}; f.ip++; return true; }
        if (v.k == K_UNDEF) violate(st, "uninit", "assumption on uninitialised value");
        ZE e = v.w == 1 ? EX(v) : EX(v) != bvc(0, v.w); e = e.simplify(); if (e.is_true()) { f.ip++; return true; }
        ZE ev = evalM(st, e);
        if (!ev.is_true()) { shared_ptr<Model> m; int r = check(st, e, m); if (r == R_UNSAT) throw PathEnd{}; if (r == R_UNK) st.approx = true; st.model = mergeModel(st, m); }
        addC(st, e); f.ip++; return true;
    }
    if (n == "sym_assert") { Val v = V(0); string l = str(1); doAssert(st, v, l); f.ip++; return true; }
    if (n == "sym_close") { if (V(2).k != K_DBL) throw Unsupported{"symbolic tolerance"}; Val a = V(0), b = V(1); string l = str(3); doClose(st, a, b, V(2).d, l); f.ip++; return true; }
    if (n == "sym_bits") { // raw IEEE bits equality
        Val a = fixF(V(0)), b = fixF(V(1)); string l = str(2);
        if (a.k == K_DBL && b.k == K_DBL) { doAssert(st, Val::I(memcmp(&a.d, &b.d, 8) == 0 || a.d == b.d, 1), l); f.ip++; return true; }
        doClose(st, a, b, 0, l); f.ip++; return true;
    }
    if (n == "sym_reach") { st.reach.insert(str(0)); clog("reach " + str(0)); f.ip++; return true; }
    if (n == "sym_mode") { i2dMode = (int)V(0).i; f.ip++; return true; }
    if (n == "sym_budget") { uint64_t b = V(0).i; st.stepCap = b ? st.steps + b : 0; f.ip++; return true; }
    if (n == "sym_live") { ret(Val::I(st.heapLive, 64)); return true; }
    if (n == "sym_native") { ret(Val::I(0, 32)); return true; }
    if (n == "sym_fail") { string l = str(0); assertCnt[l]++; violate(st, "assert", l); }
    if (n == "sym_stop") throw PathEnd{};
    if (n == "sym_out_d") { Val a = fixF(V(1)); if (a.k == K_DBL) clog(str(0) + "=" + dstr(a.d)); f.ip++; return true; }
    if (n == "sym_out_i") { Val a = V(1); if (a.k == K_INT) clog(str(0) + "=" + std::to_string(a.s())); f.ip++; return true; }
    throw Unsupported{"unknown sym call " + n};
}
static Val minmax(const Val &a, const Val &b, bool sg, bool mx) {
    if (a.k == K_INT && b.k == K_INT) { bool t = sg ? (mx ? a.s() >= b.s() : a.s() <= b.s()) : (mx ? a.i >= b.i : a.i <= b.i); return t ? a : b; }
    if (a.k == K_UNDEF) return a; if (b.k == K_UNDEF) return b;
    { IV p, q; if (getItv(a, p) && getItv(b, q) && (sg || (p.lo >= 0 && q.lo >= 0))) { unsigned k = std::max(p.k, q.k); ZE x = narrowTo(a, k), y = narrowTo(b, k); return regItv(z3::ite(mx ? x >= y : x <= y, x, y), k, mx ? std::max(p.lo, q.lo) : std::min(p.lo, q.lo), mx ? std::max(p.hi, q.hi) : std::min(p.hi, q.hi), a.w); } }
    ZE x = toZ(a), y = toZ(b); ZE cnd = sg ? (mx ? x >= y : x <= y) : (mx ? z3::uge(x, y) : z3::ule(x, y)); return mkBV(z3::ite(cnd, x, y), a.w);
}
static void doCall(State &st, Frame &f, CI &c) {
    Function *F = c.callee; size_t na = c.o.size();
    if (!F) {
        uint64_t a = concInt(st, f, c.o.back(), "function pointer"); na--;
        if (isa<InlineAsm>(cast<CallBase>(c.I)->getCalledOperand())) { f.ip++; return; }
        auto it = faddr.find(a); if (it == faddr.end()) violate(st, "memory", "call through an invalid function pointer");
        F = it->second;
    }
    auto V = [&](int i) -> const Val & { const Opr &o = c.o[i]; return o.slot >= 0 ? f.r[o.slot] : o.c; };
    auto ret = [&](Val v) { if (c.dst >= 0) f.r[c.dst] = std::move(v); f.ip++; };
    auto CI_ = [&](int i, const char *w) { return concInt(st, f, c.o[i], w); };
    if (!F->isDeclaration()) {
        vector<Val> args; for (size_t i = 0; i < na; i++) args.push_back(V(i));
        pushFrame(st, F, args); return;
    }
    unsigned w = c.w;
    auto vec1 = [&](std::function<Val(const Val &)> g) { if (V(0).k == K_AGG) { vector<Val> r; for (auto &x : AG(V(0))) r.push_back(g(x)); ret(mkAgg(r)); } else { Val r = g(V(0)); ret(r); } };
    switch (F->getIntrinsicID()) {
    case Intrinsic::not_intrinsic: break;
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::prefetch: f.ip++; return;
    case Intrinsic::invariant_start: ret(Val::I(0, 64)); return;
    case Intrinsic::expect: ret(V(0)); return;
    case Intrinsic::stacksave: ret(Val::I(0, 64)); return; case Intrinsic::stackrestore: f.ip++; return;
    case Intrinsic::objectsize: ret(Val::I(~0ull, w)); return;
    case Intrinsic::is_constant: ret(Val::I(0, 1)); return;
    case Intrinsic::trap: case Intrinsic::ubsantrap: violate(st, "ub", "trap executed");
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { uint64_t n = CI_(2, "copy length"), d = CI_(0, "address"), s = CI_(1, "address"); memCopy(st, d, s, n); f.ip++; return; }
    case Intrinsic::memset: case Intrinsic::memset_inline: { uint64_t n = CI_(2, "set length"), d = CI_(0, "address"); if (n) { Val v = V(1); if (v.k == K_INT) { Obj *o = resolve(st, d, n, true); raceAccess(st, o, d - o->base, n, true); o = resolve(st, d, n, true); clearSym(o, d - o->base, n); memset(&o->b[d - o->base], (int)v.i, n); memset(&o->in[d - o->base], 1, n); } else for (uint64_t i = 0; i < n; i++) storeRaw(st, d + i, 1, v); } f.ip++; return; }
    case Intrinsic::fabs: vec1([&](const Val &x) { return math1(st, "fabs", x); }); return;
    case Intrinsic::floor: vec1([&](const Val &x) { return math1(st, "floor", x); }); return;
    case Intrinsic::ceil: vec1([&](const Val &x) { return math1(st, "ceil", x); }); return;
    case Intrinsic::trunc: vec1([&](const Val &x) { return math1(st, "trunc", x); }); return;
    case Intrinsic::round: vec1([&](const Val &x) { return math1(st, "round", x); }); return;
    case Intrinsic::rint: case Intrinsic::nearbyint: vec1([&](const Val &x) { return math1(st, "rint", x); }); return;
    case Intrinsic::sqrt: vec1([&](const Val &x) { return math1(st, "sqrt", x); }); return;
    case Intrinsic::sin: vec1([&](const Val &x) { return math1(st, "sin", x); }); return;
    case Intrinsic::cos: vec1([&](const Val &x) { return math1(st, "cos", x); }); return;
    case Intrinsic::exp: vec1([&](const Val &x) { return math1(st, "exp", x); }); return;
    case Intrinsic::exp2: vec1([&](const Val &x) { return math1(st, "exp2", x); }); return;
    case Intrinsic::log: vec1([&](const Val &x) { return math1(st, "log", x); }); return;
    case Intrinsic::log2: vec1([&](const Val &x) { return math1(st, "log2", x); }); return;
    case Intrinsic::log10: vec1([&](const Val &x) { return math1(st, "log10", x); }); return;
    case Intrinsic::pow: { Val r = math2(st, "pow", V(0), V(1)); ret(r); return; }
    case Intrinsic::powi: { uint64_t e = CI_(1, "powi"); Val r = math2(st, "pow", V(0), Val::D((double)(int32_t)e)); ret(r); return; }
    case Intrinsic::maxnum: case Intrinsic::maximum: { Val r = math2(st, "fmax", V(0), V(1)); ret(r); return; }
    case Intrinsic::minnum: case Intrinsic::minimum: { Val r = math2(st, "fmin", V(0), V(1)); ret(r); return; }
    case Intrinsic::copysign: { Val r = math2(st, "copysign", V(0), V(1)); ret(r); return; }
    case Intrinsic::fma: { const Val &x = V(0), &y = V(1), &z = V(2); if (x.k == K_DBL && y.k == K_DBL && z.k == K_DBL) { ret(Val::D(w == 32 ? (double)std::fmaf((float)x.d, (float)y.d, (float)z.d) : std::fma(x.d, y.d, z.d), w)); return; } if (x.k == K_FP || y.k == K_FP || z.k == K_FP) throw Unsupported{"fused multiply-add of IEEE symbolic doubles"}; Val m = fpBin(st, Instruction::FMul, x, y, w); Val r = fpBin(st, Instruction::FAdd, m, z, w); ret(r); return; }
    case Intrinsic::fmuladd: { Val m = fpBin(st, Instruction::FMul, V(0), V(1), w); Val r = fpBin(st, Instruction::FAdd, m, V(2), w); ret(r); return; }
    case Intrinsic::smax: ret(minmax(V(0), V(1), true, true)); return; case Intrinsic::smin: ret(minmax(V(0), V(1), true, false)); return;
    case Intrinsic::umax: ret(minmax(V(0), V(1), false, true)); return; case Intrinsic::umin: ret(minmax(V(0), V(1), false, false)); return;
    case Intrinsic::abs: { const Val &x = V(0); if (x.k == K_INT) { ret(Val::I(x.s() < 0 ? -(uint64_t)x.s() : x.i, w)); return; } if (x.k == K_UNDEF) { ret(x); return; } ZE e = toZ(x); ret(mkBV(z3::ite(e < bvc(0, w), -e, e), w)); return; }
    case Intrinsic::ctpop: { uint64_t x = CI_(0, "ctpop"); ret(Val::I(__builtin_popcountll(x), w)); return; }
    case Intrinsic::ctlz: { const Val &x = V(0); if (x.k == K_BV) { ZE e = toZ(x), r = bvc(w, w); for (unsigned i = 0; i < w; i++) r = z3::ite(e.extract(i, i) == bvc(1, 1), bvc(w - 1 - i, w), r); ret(mkBV(r, w)); return; } uint64_t u = CI_(0, "ctlz"); ret(Val::I(u ? __builtin_clzll(u) - (64 - w) : w, w)); return; }
    case Intrinsic::cttz: { const Val &x = V(0); if (x.k == K_BV) { ZE e = toZ(x), r = bvc(w, w); for (int i = w - 1; i >= 0; i--) r = z3::ite(e.extract(i, i) == bvc(1, 1), bvc(i, w), r); ret(mkBV(r, w)); return; } uint64_t u = CI_(0, "cttz"); ret(Val::I(u ? __builtin_ctzll(u) : w, w)); return; }
    case Intrinsic::bswap: { const Val &x = V(0); if (x.k == K_INT) { uint64_t r = 0; for (unsigned i = 0; i < w / 8; i++) r |= ((x.i >> (8 * i)) & 0xff) << (w - 8 - 8 * i); ret(Val::I(r, w)); return; } if (x.k == K_UNDEF) { ret(x); return; } ZE e = toZ(x), r = e.extract(7, 0); for (unsigned i = 1; i < w / 8; i++) r = z3::concat(r, e.extract(i * 8 + 7, i * 8)); ret(mkBV(r, w)); return; }
    case Intrinsic::bitreverse: { const Val &x = V(0); if (x.k == K_INT) { uint64_t r = 0; for (unsigned i = 0; i < w; i++) if (x.i >> i & 1) r |= 1ull << (w - 1 - i); ret(Val::I(r, w)); return; } if (x.k == K_UNDEF) { ret(x); return; } ZE e = toZ(x), r = e.extract(0, 0); for (unsigned i = 1; i < w; i++) r = z3::concat(r, e.extract(i, i)); ret(mkBV(r, w)); return; }
    case Intrinsic::fshl: case Intrinsic::fshr: {
        const Val &a = V(0), &b = V(1); uint64_t s = CI_(2, "shift") % w; if (a.k == K_UNDEF || b.k == K_UNDEF) { Val u; u.w = w; ret(u); return; }
        bool L = F->getIntrinsicID() == Intrinsic::fshl; if (s == 0) { ret(L ? a : b); return; }
        unsigned ls = L ? s : w - s; if (a.k == K_INT && b.k == K_INT) { ret(Val::I(a.i << ls | b.i >> (w - ls), w)); return; }
        ret(mkBV(z3::concat(asBV(a).extract(w - ls - 1, 0), asBV(b).extract(w - 1, w - ls)), w)); return;
    }
    case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
        const Val &a = V(0), &b = V(1); unsigned bw = a.w ? a.w : 64; auto id = F->getIntrinsicID();
        if (a.k == K_INT && b.k == K_INT) {
            uint64_t r; bool o;
            __int128 x, y, z; bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
            x = sg ? (__int128)a.s() : (__int128)a.i; y = sg ? (__int128)b.s() : (__int128)b.i;
            if (id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow) z = x + y; else if (id == Intrinsic::usub_with_overflow || id == Intrinsic::ssub_with_overflow) z = x - y; else { if (!sg) { u128 p = (u128)a.i * b.i; r = (uint64_t)p; o = bw >= 64 ? (p >> 64) != 0 : (p >> bw) != 0; ret(mkAgg({Val::I(r, bw), Val::I(o, 1)})); return; } z = x * y; }
            r = (uint64_t)z; Val t = Val::I(r, bw); o = sg ? (__int128)t.s() != z : (z < 0 || (__int128)(u128)t.i != z); ret(mkAgg({t, Val::I(o, 1)})); return;
        }
        ZE x = toZ(a), y = toZ(b), o(Z()), r(Z());
        switch (id) {
        case Intrinsic::uadd_with_overflow: r = x + y; o = z3::ult(r, x); break; case Intrinsic::usub_with_overflow: r = x - y; o = z3::ult(x, y); break;
        case Intrinsic::umul_with_overflow: r = x * y; o = !z3::bvmul_no_overflow(x, y, false); break; case Intrinsic::smul_with_overflow: r = x * y; o = !(z3::bvmul_no_overflow(x, y, true) && z3::bvmul_no_underflow(x, y)); break;
        case Intrinsic::sadd_with_overflow: r = x + y; o = !(z3::bvadd_no_overflow(x, y, true) && z3::bvadd_no_underflow(x, y)); break; default: r = x - y; o = !(z3::bvsub_no_overflow(x, y) && z3::bvsub_no_underflow(x, y, true)); break;
        }
        ret(mkAgg({mkBV(r, bw), mkBV(o, 1)})); return;
    }
    case Intrinsic::usub_sat: { Val a = V(0), b = V(1); if (a.k == K_INT && b.k == K_INT) { ret(Val::I(a.i > b.i ? a.i - b.i : 0, w)); return; } ZE x = toZ(a), y = toZ(b); ret(mkBV(z3::ite(z3::ugt(x, y), x - y, bvc(0, w)), w)); return; }
    case Intrinsic::uadd_sat: { Val a = V(0), b = V(1); ZE x = toZ(a), y = toZ(b), s = x + y; ret(mkBV(z3::ite(z3::ult(s, x), bvc(~0ull, w), s), w)); return; }
    case Intrinsic::is_fpclass: {
        Val a = fixF(V(0)); unsigned m = (unsigned)V(1).i;
        if (a.k == K_REAL) { // finite, normal or zero
            bool any = (m & 0x1f8) != 0, all = (m & 0x1f8) == 0x1f8; if (any != all) throw Unsupported{"is.fpclass on real"}; ret(Val::I(any, 1)); return; }
        if (a.k == K_DBL) { bool r = false; double x = a.d; int cl = std::fpclassify(x); bool neg = std::signbit(x);
            if (cl == FP_NAN) r = m & 3; else if (cl == FP_INFINITE) r = m & (neg ? 4 : 512); else if (cl == FP_NORMAL) r = m & (neg ? 8 : 256); else if (cl == FP_SUBNORMAL) r = m & (neg ? 16 : 128); else r = m & (neg ? 32 : 64); ret(Val::I(r, 1)); return; }
        throw Unsupported{"is.fpclass"};
    }
    case Intrinsic::vector_reduce_fadd: { Val r = V(0); vector<Val> e = AG(V(1)); for (auto &x : e) r = fpBin(st, Instruction::FAdd, r, x, w); ret(r); return; }
    case Intrinsic::vector_reduce_add: { vector<Val> e = AG(V(0)); Val r = e[0]; for (size_t i = 1; i < e.size(); i++) r = intBin(st, Instruction::Add, r, e[i], w); ret(r); return; }
    case Intrinsic::vector_reduce_or: { vector<Val> e = AG(V(0)); Val r = e[0]; for (size_t i = 1; i < e.size(); i++) r = intBin(st, Instruction::Or, r, e[i], w); ret(r); return; }
    default: throw Unsupported{"intrinsic " + F->getName().str()};
    }
    string n = F->getName().str();
    if (symCall(st, f, c, n)) return;
    // --- allocation
    if (n == "_Znwm" || n == "_Znam" || n == "malloc" || n == "_ZnwmSt11align_val_t" || n == "_ZnamSt11align_val_t" || n == "_ZnwmRKSt9nothrow_t" || n == "aligned_alloc") {
        uint64_t sz = CI_(n == "aligned_alloc" ? 1 : 0, "allocation size"); if (sz > (64u << 20)) violate(st, "throw", "allocation of " + std::to_string(sz) + " bytes");
        uint8_t k = n[0] != '_' ? 3 : n.compare(0, 4, "_Zna") == 0 ? 5 : 4; st.heapLive++;
        ret(Val::I(allocObj(st, sz, k, "heap"), 64)); return;
    }
    if (n == "calloc") { uint64_t sz = CI_(0, "size") * CI_(1, "size"); st.heapLive++; ret(Val::I(allocObj(st, sz, 3, "heap", true), 64)); return; }
    if (n.compare(0, 4, "_Zdl") == 0 || n.compare(0, 4, "_Zda") == 0 || n == "free") {
        uint64_t a = CI_(0, "pointer"); if (a) {
            auto it = st.mem.find(a); if (it == st.mem.end()) violate(st, "memory", "invalid free");
            auto o = std::make_shared<Obj>(*it->second); if (o->freed) violate(st, "memory", "double free"); uint8_t k = n == "free" ? 3 : n[3] == 'a' ? 5 : 4; if (o->kind != k) violate(st, "memory", "mismatched deallocation");
            if (optRaces && o->size) { raceAccess(st, o.get(), 0, 1, true); o = std::make_shared<Obj>(*st.mem[a]); }
            o->freed = true; o->sym.clear(); vector<uint8_t>().swap(o->b); vector<uint8_t>().swap(o->in); st.mem[a] = o; st.lastB = 1; st.lastE = 0; st.heapLive--; }
        f.ip++; return;
    }
    if (n == "memcpy" || n == "memmove") { uint64_t d = CI_(0, "address"), s = CI_(1, "address"), k = CI_(2, "length"); memCopy(st, d, s, k); ret(Val::I(d, 64)); return; }
    if (n == "memset") { uint64_t d = CI_(0, "address"), k = CI_(2, "length"); Val v = V(1); if (v.k == K_INT) v = Val::I(v.i, 8); else v = castVal(st, Instruction::Trunc, v, 8, nullptr); for (uint64_t i = 0; i < k; i++) storeRaw(st, d + i, 1, v); ret(Val::I(d, 64)); return; }
    if (n == "strlen") { uint64_t a = CI_(0, "address"); ret(Val::I(cstr(st, a).size(), 64)); return; }
    if (n == "memcmp" || n == "bcmp") {
        uint64_t a = CI_(0, "address"), b = CI_(1, "address"), k = CI_(2, "length"); int r = 0;
        for (uint64_t i = 0; i < k; i++) { Val x = loadRaw(st, a + i, 1, 8, false), y = loadRaw(st, b + i, 1, 8, false); if (x.k == K_INT && y.k == K_INT) { if (x.i != y.i) { r = x.i < y.i ? -1 : 1; break; } continue; } if (x.k == K_UNDEF || y.k == K_UNDEF) violate(st, "uninit", "comparison of uninitialised memory"); if (!decideFork(st, toZ(x) == toZ(y))) { r = decideFork(st, z3::ult(toZ(x), toZ(y))) ? -1 : 1; break; } }
        ret(Val::I((uint64_t)(int64_t)r, 32)); return;
    }
    // --- math
    if (M1.count(n)) { Val r = math1(st, n, V(0)); ret(r); return; }
    if (M2.count(n)) { Val r = math2(st, n, V(0), V(1)); ret(r); return; }
    if (n.size() > 1 && n.back() == 'f') { string b = n.substr(0, n.size() - 1); if (M1.count(b)) { Val r = math1(st, b, V(0)); ret(r); return; } if (M2.count(b)) { Val r = math2(st, b, V(0), V(1)); ret(r); return; } }
    { static const std::map<string, const char *> R = {{"lround","round"},{"llround","round"},{"lroundf","round"},{"llroundf","round"},{"lrint","rint"},{"llrint","rint"},{"lrintf","rint"},{"llrintf","rint"}};
      auto it = R.find(n); if (it != R.end()) { Val r = math1(st, it->second, V(0)); Val q = fpToIntV(st, r, 64, true); ret(q); return; } }
    if (n == "ldexp") { uint64_t e = CI_(1, "ldexp"); Val r = fpBin(st, Instruction::FMul, V(0), Val::D(std::ldexp(1.0, (int32_t)e)), 64); ret(r); return; }
    // --- runtime
    if (n == "__cxa_atexit" || n == "atexit" || n == "__cxa_thread_atexit") { ret(Val::I(0, 32)); return; }
    if (n == "__cxa_guard_acquire") { uint64_t g = CI_(0, "guard"); Val b = loadRaw(st, g, 1, 8, false); ret(Val::I(b.k == K_INT && b.i ? 0 : 1, 32)); return; }
    if (n == "__cxa_guard_release") { uint64_t g = CI_(0, "guard"); storeRaw(st, g, 1, Val::I(1, 8)); f.ip++; return; }
    if (n.find("_ZNSt8ios_base4InitC") == 0 || n.find("_ZNSt8ios_base4InitD") == 0) { f.ip++; return; }
    if (n.find("_ZStls") == 0 || n.find("_ZNSo") == 0 || n.find("_ZSt4endl") == 0 || n.find("_ZSt16__ostream_insert") == 0 || n.find("_ZSt5flush") == 0) { ret(V(0)); return; }
    if (n == "printf" || n == "puts" || n == "putchar" || n == "fprintf" || n == "fwrite" || n == "fputs" || n == "fputc" || n == "fflush") { ret(Val::I(0, w ? w : 32)); return; }
    if (n.find("_ZSt20__throw") == 0 || n.find("__throw_") != string::npos) violate(st, "throw", "exception: " + fname(F));
    if (n == "abort" || n == "_ZSt9terminatev" || n == "__cxa_pure_virtual" || n == "__clang_call_terminate") violate(st, "abort", "abnormal termination: " + n);
    if (n == "__assert_fail" || n.find("_ZSt21__glibcxx_assert_fail") == 0) violate(st, "abort", "assertion failure in code");
    if (n == "exit" || n == "_exit") violate(st, "abort", "exit called");
    if (n.find("_ZNSt15__exception_ptr") == 0) { f.ip++; return; }
    // --- libstdc++ out-of-line helpers
    if (n == "_ZNSt8__detail15_List_node_base7_M_hookEPS0_") { uint64_t self = CI_(0, "a"), pos = CI_(1, "a"); Val pv = loadRaw(st, pos + 8, 8, 64, false); storeRaw(st, self, 8, Val::I(pos, 64)); storeRaw(st, self + 8, 8, pv); storeRaw(st, pv.i, 8, Val::I(self, 64)); storeRaw(st, pos + 8, 8, Val::I(self, 64)); f.ip++; return; }
    if (n == "_ZNSt8__detail15_List_node_base9_M_unhookEv") { uint64_t self = CI_(0, "a"); Val nx = loadRaw(st, self, 8, 64, false), pv = loadRaw(st, self + 8, 8, 64, false); storeRaw(st, pv.i, 8, nx); storeRaw(st, nx.i + 8, 8, pv); f.ip++; return; }
    // --- threads
    if (n == "pthread_self") { ret(Val::I(st.cur + 1, 64)); return; }
    if (n == "pthread_mutex_lock" || n == "pthread_mutex_trylock") {
        uint64_t m = CI_(0, "mutex"); resolve(st, m, 1, false);
        if (n == "pthread_mutex_trylock") { syncPoint(st, P_OTHER, m); if (st.mtx.count(m)) { syncDone(st); ret(Val::I(16, 32)); return; } }
        else { if (st.th.size() == 1) { if (st.mtx.count(m)) violate(st, "deadlock", "deadlock: mutex locked twice"); } else syncPoint(st, P_LOCK, m); }
        st.mtx[m] = st.cur + 1; acquireVC(st, st.mtxvc[m]); syncDone(st); ret(Val::I(0, 32)); return;
    }
    if (n == "pthread_mutex_unlock") {
        uint64_t m = CI_(0, "mutex"); /* no point here: releasing a lock commutes to the left, the next operation has its own point */ auto it = st.mtx.find(m); if (it == st.mtx.end() || it->second != st.cur + 1) violate(st, "ub", "unlock of a mutex not held");
        st.mtx.erase(m); releaseVC(st, st.mtxvc[m]); syncDone(st); ret(Val::I(0, 32)); return;
    }
    if (n == "pthread_mutex_init" || n == "pthread_mutex_destroy" || n == "pthread_cond_init" || n == "pthread_cond_destroy") { ret(Val::I(0, 32)); return; }
    if (n == "_ZNSt18condition_variableC1Ev" || n == "_ZNSt18condition_variableD1Ev" || n == "_ZNSt18condition_variableC2Ev" || n == "_ZNSt18condition_variableD2Ev") { if (n.find("D") != string::npos && n.find("D1") + 1) { uint64_t cvp = CI_(0, "cv"); for (auto &t : st.th) if (t.st == TS_RUN && t.cv && t.pa == cvp) violate(st, "ub", "condition variable destroyed while a thread waits on it"); } f.ip++; return; }
    if (n.find("_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE") == 0) {
        uint64_t cvp = CI_(0, "cv"), lk = CI_(1, "lock"); Val mv = loadRaw(st, lk, 8, 64, false); uint64_t m = mv.i;
        Thread &t = st.th[st.cur];
        if (t.cv == 0) {
            if (st.th.size() == 1) violate(st, "deadlock", "deadlock: wait with no other thread");
            syncPoint(st, P_OTHER, cvp);
            auto it = st.mtx.find(m); if (it == st.mtx.end() || it->second != st.cur + 1) violate(st, "ub", "wait without holding the mutex");
            st.mtx.erase(m); releaseVC(st, st.mtxvc[m]); t.cv = 1; t.notified = false; t.granted = false; t.pk = P_CVWAIT; t.pa = cvp; t.pb = m; throw Resched{};
        }
        if (!t.granted) throw Resched{};
        t.cv = 0; st.mtx[m] = st.cur + 1; acquireVC(st, st.mtxvc[m]); syncDone(st); f.ip++; return;
    }
    if (n == "_ZNSt18condition_variable10notify_allEv" || n == "_ZNSt18condition_variable10notify_oneEv") {
        uint64_t cvp = CI_(0, "cv"); syncPoint(st, P_OTHER, cvp); bool all = n.find("all") != string::npos;
        vector<int> wt; for (size_t k = 0; k < st.th.size(); k++) if (st.th[k].cv && st.th[k].pa == cvp && !st.th[k].notified) wt.push_back(k);
        if (all) for (int k : wt) st.th[k].notified = true;
        else if (wt.size()) { for (size_t i = 1; i < wt.size(); i++) { State *s = new State(st); s->lastB = 1; s->lastE = 0; s->th[wt[i]].notified = true; syncDone(*s); top(*s).ip++; pushState(s); } st.th[wt[0]].notified = true; }
        syncDone(st); f.ip++; return;
    }
    if (n.find("_ZNSt6thread15_M_start_thread") == 0) {
        uint64_t self = CI_(0, "thread"), up = CI_(1, "state"); Val sp = loadRaw(st, up, 8, 64, false); storeRaw(st, up, 8, Val::I(0, 64));
        Val vt = loadRaw(st, sp.i, 8, 64, false); Val fn = loadRaw(st, vt.i + 16, 8, 64, false); auto it = faddr.find(fn.i); if (it == faddr.end()) throw Unsupported{"thread entry"};
        int id = st.th.size(); st.everMulti = true; storeRaw(st, self, 8, Val::I(id + 1, 64)); f.ip++;
        Thread nt; int cur = st.cur; nt.vc = st.th[cur].vc; nt.vc[id] = 1; st.th[cur].vc[cur]++; st.th.push_back(nt);
        st.cur = id; pushFrame(st, it->second, {sp}); st.cur = cur; throw Resched{};
    }
    if (n == "_ZNSt6thread4joinEv") {
        uint64_t self = CI_(0, "thread"); Val id = loadRaw(st, self, 8, 64, false); if (id.k != K_INT || id.i == 0) violate(st, "throw", "join of a non-joinable thread");
        int k = id.i - 1; if (k == st.cur) violate(st, "deadlock", "thread joins itself"); syncPoint(st, P_JOIN, k); acquireVC(st, st.th[k].vc); storeRaw(st, self, 8, Val::I(0, 64)); syncDone(st); f.ip++; return;
    }
    if (n == "_ZNSt6thread6detachEv") { uint64_t self = CI_(0, "thread"); storeRaw(st, self, 8, Val::I(0, 64)); f.ip++; return; }
    if (n == "_ZNSt6thread6_StateD2Ev" || n == "_ZNSt6thread6_StateD1Ev") { f.ip++; return; }
    if (n == "_ZNSt6thread20hardware_concurrencyEv") { ret(Val::I(8, 32)); return; }
    if (n == "nanosleep" || n == "clock_nanosleep" || n == "usleep" || n == "sched_yield" || n == "_ZNSt11this_thread11__sleep_forENSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE") { if (st.th.size() > 1) { syncPoint(st, P_OTHER, 0); syncDone(st); } if (c.dst >= 0) f.r[c.dst] = Val::I(0, 32); f.ip++; return; }
    if (n.find("_ZNSt6chrono3_V212steady_clock3nowEv") == 0 || n.find("_ZNSt6chrono3_V212system_clock3nowEv") == 0) {
        // an arbitrary non-decreasing instant
        string nm = inName(st, "clock"); Val v; boundsSeen["clock"] = "arbitrary non-decreasing instants";
        if (concMode) { v = concInput(nm, "i", 0, 0); }
        else { ZE x = mkVar(nm, Z().bv_sort(64)); v = mkBV(x, 64); addC(st, x >= bvc(0, 64)); addC(st, x <= bvc(1ull << 60, 64)); for (auto it = st.inputs.rbegin(); it != st.inputs.rend(); ++it) if (it->first.compare(0, 6, "clock#") == 0) { addC(st, x >= toZ(it->second)); break; } shared_ptr<Model> m; check(st, Z().bool_val(true), m); shared_ptr<Model> m1; check(st, x >= bvc(0, 64), m1); st.model = mergeModel(st, m1); }
        st.inputs.push_back({nm, v}); ret(v); return;
    }
    throw Unsupported{"external function " + fname(F)};
}
