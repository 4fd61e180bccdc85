// symx: symbolic executor for LLVM IR, deciding harness assertions with z3.
#include "val.h"
#include <llvm/ADT/SmallString.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <fstream>
#include <sstream>
#include <iostream>
#include <cinttypes>
#include <list>
using namespace llvm;
using std::string; using std::vector; using std::map; using std::shared_ptr;

// ------------------------------------------------------------------ options
static string optEntry, optOut = "-", optInputs, optRepo = "/repo/";
static double optTime = 240; static unsigned optQueryMs = 20000, optEnum = 600;
static uint64_t optMaxPaths = 1000000, optMaxSteps = 5000000ull;
static bool optRaces = false, optSpurious = false, optVerbose = false; static int optPreempt = -1;
static int optMaxViol = 24;
static std::chrono::steady_clock::time_point T0;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - T0).count(); }

// ------------------------------------------------------------------ statistics
static uint64_t nQueries, nSat, nUnsat, nUnknown, nCacheHit, nPaths, nSteps, nForks, nSched, nStates = 1, nAssertTrivial, nAssertQ, nCompleted, nModelHit;
static double solverTime, solverMax;
static std::set<string> fnExec;           // repo functions executed
static map<string, uint64_t> reachCnt, assertCnt;
static vector<string> incomplete;
static std::set<string> incompleteSeen;
static vector<string> samples;
static map<string, string> boundsSeen;
static void addIncomplete(const string &s) { if (incompleteSeen.insert(s).second) incomplete.push_back(s); }

struct Unsupported { string msg; };
struct PathEnd {};
struct Retry {};
struct Resched {};
struct TimeUp {};

// ------------------------------------------------------------------ z3 variables
static std::unordered_map<unsigned, int> varOf; // decl-const ast id -> var index
static vector<ZE> varExpr;
static map<int, vector<ZE>> varAxioms;
static int regVar(const ZE &e) { int k = varExpr.size(); varExpr.push_back(e); varOf[e.id()] = k; return k; }
static ZE mkVar(const string &n, z3::sort s) { ZE e = Z().constant(n.c_str(), s); if (!varOf.count(e.id())) regVar(e); return e; }

typedef vector<int> VS;
static std::unordered_map<unsigned, std::pair<ZE, shared_ptr<VS>>> varMemo;
static const VS &varsOf(const ZE &e) {
    auto it = varMemo.find(e.id());
    if (it != varMemo.end()) return *it->second.second;
    auto r = std::make_shared<VS>();
    if (e.is_app()) {
        auto v = varOf.find(e.id());
        if (e.num_args() == 0) { if (v != varOf.end()) r->push_back(v->second); }
        else {
            std::set<int> s;
            for (unsigned i = 0; i < e.num_args(); i++) { auto &c = varsOf(e.arg(i)); s.insert(c.begin(), c.end()); }
            r->assign(s.begin(), s.end());
        }
    }
    varMemo.emplace(e.id(), std::make_pair(e, r));
    return *r;
}

typedef map<int, ZE> Model;

// ------------------------------------------------------------------ program
struct Opr { int slot = -1; Val c; };
struct CI {
    unsigned op = 0; Instruction *I = nullptr; vector<Opr> o; int dst = -1;
    unsigned w = 0;                          // result width
    Type *ty = nullptr;
    vector<std::pair<int, uint64_t>> gep; uint64_t gepc = 0; // (operand, scale)
    vector<int> succ; vector<uint64_t> cases;
    Function *callee = nullptr; int intr = 0; bool volatileAtomic = false;
    unsigned pred = 0; vector<unsigned> idx; uint64_t sz = 0; bool fp = false;
};
struct CBlock { vector<CI> ins; map<int, vector<std::pair<int, Opr>>> phis; int id; };
struct CFunc { Function *F; vector<CBlock> bb; int nslots = 0; vector<string> repoFns; bool entered = false; };
static std::unordered_map<Function *, CFunc *> cfuncs;
static std::unordered_map<const GlobalValue *, uint64_t> gaddr;
static std::unordered_map<uint64_t, Function *> faddr;
static Module *M; static const DataLayout *DL;

struct Obj {
    uint64_t base, size; vector<uint8_t> b, in; map<uint32_t, Val> sym;
    uint8_t kind; // 0 global 1 const 2 stack 3 malloc 4 new 5 new[]
    bool freed = false; string name;
    struct Sh { int wt = -1, wc = 0; map<int, int> rd; };
    map<uint32_t, Sh> sh;
};
struct Frame { CFunc *f; int bb = 0, ip = 0, prev = -1; vector<Val> r; vector<uint64_t> al; bool isCtor = false; };
enum { TS_RUN, TS_DONE };
struct Thread { vector<Frame> fr; int st = TS_RUN; bool granted = false, started = false; int pk = 0; uint64_t pa = 0, pb = 0; int cv = 0; bool notified = false; map<int, int> vc; int joinedBy = -1; };
enum { P_NONE, P_LOCK, P_JOIN, P_CVWAIT, P_OTHER };
struct State {
    map<uint64_t, shared_ptr<Obj>> mem; uint64_t brk = 0x10000000;
    vector<Thread> th; int cur = 0; bool resched = false; int preempts = 0;
    vector<ZE> pc; shared_ptr<Model> model; map<string, int> cnt;
    vector<std::pair<string, Val>> inputs; vector<int> sched; vector<string> log;
    map<uint64_t, int> mtx; // mutex -> owner tid+1
    map<uint64_t, map<int, int>> mtxvc, atomvc;
    uint64_t steps = 0; bool approx = false; bool allowThrow = false; uint64_t stepCap = 0;
    Obj *lastO = nullptr; uint64_t lastB = 1, lastE = 0;
    map<int, ZE> pins; // variables the path condition forces to one value
    std::set<string> reach; uint64_t heapLive = 0; bool everMulti = false;
};
static vector<State *> work;

static string fname(Function *f) { return demangle(f->getName().str()); }

// ------------------------------------------------------------------ solver
struct CacheEnt { int r; shared_ptr<Model> m; };
static std::unordered_map<string, CacheEnt> qcache;
enum { R_UNSAT = 0, R_SAT = 1, R_UNK = 2 };

static bool hasFP(const ZE &e, std::unordered_set<unsigned> &seen) {
    if (!seen.insert(e.id()).second) return false;
    if (e.get_sort().is_fpa()) return true;
    if (e.is_app()) for (unsigned i = 0; i < e.num_args(); i++) if (hasFP(e.arg(i), seen)) return true;
    return false;
}

static int solveRaw(const vector<ZE> &cs, const std::set<int> &vars, shared_ptr<Model> &out) {
    if (now() > optTime) throw TimeUp{};
    nQueries++;
    double t = now();
    int res = R_UNK;
    auto attempt = [&](z3::solver s, unsigned ms) {
        z3::params p(Z()); p.set("timeout", ms); s.set(p);
        for (auto &c : cs) s.add(c);
        z3::check_result r = z3::unknown;
        try { r = s.check(); } catch (z3::exception &ex) { r = z3::unknown; }
        if (r == z3::unsat) { res = R_UNSAT; return; }
        if (r == z3::sat) {
            res = R_SAT; z3::model m = s.get_model();
            out = std::make_shared<Model>();
            for (int v : vars) {
                ZE x = m.eval(varExpr[v], true);
                out->emplace(v, x);
            }
        }
    };
    unsigned budget = std::max(1000.0, std::min((double)optQueryMs, (optTime - now()) * 1000));
    bool fp = false; { std::unordered_set<unsigned> seen; for (auto &c : cs) if (hasFP(c, seen)) { fp = true; break; } }
    if (fp) {
        attempt(z3::tactic(Z(), "qffp").mk_solver(), budget);
    } else {
        attempt(z3::solver(Z(), z3::solver::simple()), std::min(budget, 3000u));
        if (res == R_UNK) attempt(z3::tactic(Z(), "default").mk_solver(), budget);
        if (res == R_UNK) { try { attempt((z3::tactic(Z(), "simplify") & z3::tactic(Z(), "solve-eqs") & z3::tactic(Z(), "qfnra-nlsat")).mk_solver(), budget); } catch (z3::exception &) {} }
    }
    t = now() - t; solverTime += t; solverMax = std::max(solverMax, t);
    if (getenv("SYMX_DUMP") && res == R_SAT) { fprintf(stderr, "--- SAT\n"); for (auto &c : cs) fprintf(stderr, "%s\n", c.to_string().c_str()); for (auto &p : *out) fprintf(stderr, "  %s = %s\n", varExpr[p.first].to_string().c_str(), p.second.to_string().c_str()); }
    if (res == R_SAT) nSat++; else if (res == R_UNSAT) nUnsat++; else nUnknown++;
    return res;
}
static ZE pinned(State &st, const ZE &e) {
    if (st.pins.empty()) return e;
    z3::expr_vector a(Z()), b(Z());
    for (int v : varsOf(e)) { auto it = st.pins.find(v); if (it != st.pins.end()) { a.push_back(varExpr[v]); b.push_back(it->second); } }
    if (!a.size()) return e;
    ZE x = e; x = x.substitute(a, b); return x.simplify();
}
// slice of st.pc relevant to extra
static int check(State &st, const ZE &extra0, shared_ptr<Model> &out) {
    ZE extra = pinned(st, extra0);
    if (extra.is_false()) return R_UNSAT;
    std::set<int> vars(varsOf(extra).begin(), varsOf(extra).end());
    vector<ZE> sel; sel.push_back(extra);
    vector<char> used(st.pc.size(), 0); bool ch = true; std::set<int> axDone;
    while (ch) {
        ch = false;
        for (size_t i = 0; i < st.pc.size(); i++) if (!used[i]) {
            auto &v = varsOf(st.pc[i]); bool hit = v.empty();
            for (int x : v) if (vars.count(x)) { hit = true; break; }
            if (hit) { used[i] = 1; sel.push_back(st.pc[i]); for (int x : v) if (vars.insert(x).second) ch = true; ch = true; }
        }
        vector<int> vv(vars.begin(), vars.end());
        for (int x : vv) if (axDone.insert(x).second) {
            auto it = varAxioms.find(x);
            if (it != varAxioms.end()) for (auto &a : it->second) { sel.push_back(a); for (int y : varsOf(a)) if (vars.insert(y).second) ch = true; }
        }
    }
    vector<unsigned> ids; for (auto &e : sel) ids.push_back(e.id());
    std::sort(ids.begin(), ids.end()); ids.erase(std::unique(ids.begin(), ids.end()), ids.end());
    string key((char *)ids.data(), ids.size() * 4);
    auto it = qcache.find(key);
    if (it != qcache.end()) { nCacheHit++; out = it->second.m; return it->second.r; }
    int r = solveRaw(sel, vars, out);
    for (auto &e : sel) varsOf(e); // keep alive through memo
    qcache[key] = {r, out};
    return r;
}
static shared_ptr<Model> mergeModel(State &st, shared_ptr<Model> m) {
    auto n = std::make_shared<Model>();
    if (st.model) *n = *st.model;
    if (m) for (auto &p : *m) { auto it = n->find(p.first); if (it != n->end()) it->second = p.second; else n->emplace(p.first, p.second); }
    return n;
}
static ZE evalM(State &st, const ZE &e) {
    auto &vs = varsOf(e);
    z3::expr_vector a(Z()), b(Z());
    if (st.model) for (int v : vs) { auto it = st.model->find(v); if (it != st.model->end()) { a.push_back(varExpr[v]); b.push_back(it->second); } }
    ZE x = e; if (a.size()) x = x.substitute(a, b);
    return x.simplify();
}
// 0 false only, 1 true only, 2 both. models filled when available.
static int decide(State &st, const ZE &c, shared_ptr<Model> &mt, shared_ptr<Model> &mf) {
    ZE cs = pinned(st, c.simplify());
    if (cs.is_true()) return 1;
    if (cs.is_false()) return 0;
    ZE ev = evalM(st, cs);
    bool t = false, f = false;
    if (ev.is_true()) { t = true; mt = st.model; nModelHit++; }
    else if (ev.is_false()) { f = true; mf = st.model; nModelHit++; }
    if (!t) { shared_ptr<Model> m; int r = check(st, cs, m); if (r != R_UNSAT) { t = true; if (r == R_UNK) st.approx = true; mt = mergeModel(st, m); } }
    if (!f) { shared_ptr<Model> m; int r = check(st, (!cs).simplify(), m); if (r != R_UNSAT) { f = true; if (r == R_UNK) st.approx = true; mf = mergeModel(st, m); } }
    if (t && f) return 2;
    if (t) return 1;
    if (f) return 0;
    throw PathEnd{}; // infeasible path
}
static void addC(State &st, const ZE &c) { if (!c.is_true()) { st.pc.push_back(c); varsOf(c); } }

// after e got fixed to a value: pin the variables this determines
static void tryPin(State &st, const ZE &e) {
    vector<int> vs; for (int v : varsOf(e)) if (!st.pins.count(v)) { if (!varExpr[v].get_sort().is_bv()) return; vs.push_back(v); }
    if (vs.empty() || vs.size() > 3 || !st.model) return;
    ZE ne = Z().bool_val(false); vector<ZE> val;
    for (int v : vs) { auto it = st.model->find(v); if (it == st.model->end()) return; val.push_back(it->second); ne = ne || varExpr[v] != it->second; }
    shared_ptr<Model> m; if (check(st, ne, m) != R_UNSAT) return;
    for (size_t i = 0; i < vs.size(); i++) st.pins.emplace(vs[i], val[i]);
}

// ------------------------------------------------------------------ violations
struct Viol { string kind, label, where; vector<std::pair<string, string>> in; vector<int> sched; vector<string> log; bool approx; };
static vector<Viol> viols; static map<string, int> violCnt;

static string valStr(State &st, const Val &v, shared_ptr<Model> m) {
    char buf[64];
    if (v.k == K_INT) { snprintf(buf, 64, "i:%" PRId64, v.s()); return buf; }
    if (v.k == K_DBL) { snprintf(buf, 64, "d:%a", v.d); return buf; }
    State tmp; tmp.model = m ? mergeModel(st, m) : st.model;
    if (v.k == K_BV) {
        ZE x = evalM(tmp, asBV(v)); uint64_t u = 0;
        if (x.is_numeral_u64(u)) return "i:" + std::to_string(Val::I(u, v.w).s());
        return "i:0";
    }
    if (v.k == K_REAL) {
        ZE x = evalM(tmp, polyZ(RN(v).p));
        if (x.is_numeral()) {
            mpq_class q(Z3_get_numeral_string(Z(), x)); q.canonicalize(); snprintf(buf, 64, "d:%a", q.get_d()); return buf;
        }
        if (x.is_algebraic()) { string s = x.get_decimal_string(20); snprintf(buf, 64, "d:%a", atof(s.c_str())); return buf; }
        return "d:0";
    }
    if (v.k == K_FP) {
        ZE bv = ZE(Z(), Z3_mk_fpa_to_ieee_bv(Z(), EX(v)));
        ZE x = evalM(tmp, bv); uint64_t u = 0;
        if (x.is_numeral_u64(u)) { double d; if (v.w == 32) { uint32_t q = u; float f; memcpy(&f, &q, 4); d = f; } else memcpy(&d, &u, 8); snprintf(buf, 64, "b:%016" PRIx64, (uint64_t)0); uint64_t du; memcpy(&du, &d, 8); snprintf(buf, 64, "b:%016" PRIx64, du); return buf; }
        return "d:0";
    }
    return "i:0";
}
static string whereStr(State &st) {
    string s; auto &t = st.th[st.cur]; int n = 0;
    for (int i = (int)t.fr.size() - 1; i >= 0 && n < 6; i--, n++) {
        auto &f = t.fr[i]; if (n) s += " <- ";
        string nm = fname(f.f->F); auto p = nm.find('('); if (p != string::npos) nm = nm.substr(0, p);
        s += nm;
        if (f.ip < (int)f.f->bb[f.bb].ins.size() + 0 && f.f->bb[f.bb].ins.size()) {
            int ip = std::min<int>(f.ip, f.f->bb[f.bb].ins.size() - 1);
            if (auto &dl = f.f->bb[f.bb].ins[ip].I->getDebugLoc()) s += ":" + std::to_string(dl.getLine());
        }
    }
    return s;
}
static void record(State &st, const string &kind, const string &label, shared_ptr<Model> m) {
    if (violCnt[label]++ >= 6 || (int)viols.size() >= optMaxViol) return;
    Viol v; v.kind = kind; v.label = label; v.where = whereStr(st); v.sched = st.sched; v.log = st.log; v.approx = st.approx;
    for (auto &p : st.inputs) v.in.push_back({p.first, valStr(st, p.second, m)});
    viols.push_back(v);
}
// Where the exploration cannot go on (solver or encoding limits), a solver model of the path so far, with varied values, is handed to the replay, which decides.
static void recordLimit(State &st, const string &label) {
    if (violCnt[label] >= 6) return;
    shared_ptr<Model> best; unsigned seed = 7 + 13 * violCnt[label]; ZE all = Z().bool_val(true); int n = 0;
    try {
        for (auto &p : st.inputs) if (p.second.k == K_REAL && n++ < 24) {
            seed = seed * 1103515245 + 12345; mpq_class q(((int)(seed >> 16) % 1000 - 500) * 2097152 + 1048577 + n, 1 << 30); q.canonicalize(); // too fine for single precision
            mpq_class aq = abs(q); const mpq_class cand[] = {q, aq, mpq_class(aq * 1000), mpq_class((int)(mpq_class(q * 1000).get_d())), mpq_class((int)(mpq_class(aq * 1000).get_d()) + 1)};
            for (int t = 0; t < 5; t++) { ZE c = all && polyZ(RN(p.second).p) == qz(cand[t]); shared_ptr<Model> m; if (check(st, c, m) == R_SAT) { all = c; best = m; break; } }
        }
    } catch (TimeUp &) {}
    record(st, "limit", label, best);
}
static bool feasibleNow(State &st) { // confirm path condition has a model (after approximations)
    if (!st.approx) return true;
    shared_ptr<Model> m; int r = check(st, Z().bool_val(true), m); return r != R_UNSAT;
}
[[noreturn]] static void violate(State &st, const string &kind, const string &label) { (void)feasibleNow; record(st, kind, label, nullptr); throw PathEnd{}; }

// ------------------------------------------------------------------ memory
static uint64_t allocObj(State &st, uint64_t size, uint8_t kind, const string &name, bool zero = false) {
    if (size > (64u << 20)) { if (!st.th.empty() && !st.th[0].fr.empty()) record(st, "limit", "allocation too large", nullptr); throw Unsupported{"allocation too large: " + std::to_string(size)}; }
    auto o = std::make_shared<Obj>();
    uint64_t gap = std::max<uint64_t>(4096, size / 2);
    o->base = (st.brk + 63) & ~63ull; st.brk = o->base + size + gap;
    o->size = size; o->b.assign(size, 0); o->in.assign(size, zero ? 1 : 0); o->kind = kind; o->name = name;
    uint64_t a = o->base; st.mem[a] = o; st.lastO = nullptr; st.lastB = 1; st.lastE = 0;
    return a;
}
static Obj *findObj(State &st, uint64_t a) {
    if (a >= st.lastB && a < st.lastE) return st.lastO;
    auto it = st.mem.upper_bound(a);
    if (it == st.mem.begin()) return nullptr;
    --it; Obj *o = it->second.get();
    if (a >= o->base && a <= o->base + o->size) { // one-past allowed; checked by caller
        if (a < o->base + o->size) { st.lastO = o; st.lastB = o->base; st.lastE = o->base + o->size; }
        return o;
    }
    return nullptr;
}
static string hex(uint64_t a) { char b[32]; snprintf(b, 32, "0x%" PRIx64, a); return b; }
static Obj *resolve(State &st, uint64_t a, uint64_t n, bool write) {
    Obj *o = findObj(st, a);
    if (!o) violate(st, "memory", a < 4096 ? "null-dereference" : "out-of-bounds access");
    if (o->freed) violate(st, "memory", "use after free");
    if (a + n > o->base + o->size) violate(st, "memory", "out-of-bounds access");
    if (write) {
        if (o->kind == 1) violate(st, "memory", "write to constant");
        auto &sp = st.mem[o->base];
        if (sp.use_count() > 1) { sp = std::make_shared<Obj>(*sp); o = sp.get(); st.lastO = o; st.lastB = o->base; st.lastE = o->base + o->size; }
    }
    return o;
}
static void clearSym(Obj *o, uint32_t off, uint32_t n);
static unsigned cellSize(const Val &v) { return v.w == 1 ? 1 : (v.w + 7) / 8; }
static void explode(Obj *o, uint32_t off) {
    Val v = o->sym[off]; unsigned n = cellSize(v);
    if (n == 1) return;
    ZE e = Z().bool_val(true);
    if (v.k == K_BV) e = EX(v);
    else if (v.k == K_FP) e = ZE(Z(), Z3_mk_fpa_to_ieee_bv(Z(), EX(v)));
    else throw Unsupported{"partial access to an exact-real cell"};
    o->sym.erase(off);
    for (unsigned i = 0; i < n; i++) {
        Val b = mkBV(e.extract(i * 8 + 7, i * 8), 8);
        if (b.k == K_INT) o->b[off + i] = b.i; else o->sym[off + i] = b;
    }
}
static void explodeOverlaps(Obj *o, uint32_t off, uint32_t n) {
    if (o->sym.empty()) return;
    auto it = o->sym.lower_bound(off >= 16 ? off - 16 : 0); vector<uint32_t> hit;
    for (; it != o->sym.end() && it->first < off + n; ++it) {
        unsigned c = cellSize(it->second);
        if (it->first + c > off && !(it->first >= off && it->first + c <= off + n)) hit.push_back(it->first);
    }
    for (auto h : hit) explode(o, h);
}
static void clearSym(Obj *o, uint32_t off, uint32_t n) {
    if (o->sym.empty()) return;
    explodeOverlaps(o, off, n);
    auto it = o->sym.lower_bound(off);
    while (it != o->sym.end() && it->first < off + n) it = o->sym.erase(it);
}
static bool hasSym(Obj *o, uint32_t off, uint32_t n) {
    if (o->sym.empty()) return false;
    auto it = o->sym.lower_bound(off >= 16 ? off - 16 : 0);
    for (; it != o->sym.end() && it->first < off + n; ++it) if (it->first + cellSize(it->second) > off) return true;
    return false;
}
static Val bitsToFP(const ZE &bv, unsigned w) {
    z3::sort s = w == 32 ? Z().fpa_sort<32>() : Z().fpa_sort<64>();
    ZE e(Z(), Z3_mk_fpa_to_fp_bv(Z(), bv, s)); Val r; r.k = K_FP; r.w = w; r.n = Ref<Node>(new ExprNode(e.simplify())); return r;
}
static void raceAccess(State &st, Obj *o, uint32_t off, uint32_t n, bool wr) {
    if (!optRaces || !st.everMulti || o->kind == 2) return;
    int t = st.cur; auto &vc = st.th[t].vc;
    auto &sp = st.mem[o->base];
    if (sp.use_count() > 1) { sp = std::make_shared<Obj>(*sp); o = sp.get(); st.lastO = o; st.lastB = o->base; st.lastE = o->base + o->size; }
    for (uint32_t g = off; g < off + n; g++) {
        if (g != off && g != off + n - 1) continue;
        auto &s = o->sh[g];
        if (s.wt >= 0 && s.wt != t && s.wc > (vc.count(s.wt) ? vc[s.wt] : 0)) violate(st, "race", "data race");
        if (wr) { for (auto &r : s.rd) if (r.first != t && r.second > (vc.count(r.first) ? vc[r.first] : 0)) violate(st, "race", "data race"); s.wt = t; s.wc = vc[t]; s.rd.clear(); }
        else s.rd[t] = vc[t];
    }
}
// A partly uninitialised integer (typically a word covering structure padding) keeps what its bytes are: the value is
// undefined, but storing, truncating, shifting and masking it by whole bytes keeps the defined bytes.
static Val partial(Obj *o, uint32_t off, unsigned n, unsigned w) {
    Val u; u.w = w;
    if (w != n * 8) return u;
    vector<Val> p; bool any = false;
    for (unsigned i = 0; i < n;) {
        auto c = o->sym.find(off + i);
        if (c != o->sym.end()) { unsigned k = cellSize(c->second); if (i + k > n) return u; p.push_back(c->second); any = true; i += k; continue; }
        if (o->in[off + i]) { p.push_back(Val::I(o->b[off + i], 8)); any = true; } else { Val b; b.w = 8; p.push_back(b); }
        i++;
    }
    if (!any) return u;
    auto *g = new AggNode; g->v = std::move(p); u.n = Ref<Node>(g); return u;
}
static bool bytesOf(const Val &v, unsigned n, vector<Val> &out) {
    if (v.k == K_UNDEF && v.n) {
        for (auto &x : AG(v)) {
            if (x.k == K_UNDEF) { out.push_back(x); continue; }
            if (x.k != K_INT && x.k != K_BV) return false;
            for (unsigned i = 0; i < x.w / 8u; i++) out.push_back(x.k == K_INT ? Val::I(x.i >> (8 * i), 8) : mkBV(EX(x).extract(8 * i + 7, 8 * i), 8));
        }
        return out.size() == n;
    }
    for (unsigned i = 0; i < n; i++) {
        if (v.k == K_UNDEF) { Val b; b.w = 8; out.push_back(b); }
        else if (v.k == K_INT && i < 8) out.push_back(Val::I(v.i >> (8 * i), 8));
        else if (v.k == K_BV && v.w == n * 8) out.push_back(mkBV(EX(v).extract(8 * i + 7, 8 * i), 8));
        else return false;
    }
    return true;
}
static Val fromBytes(const vector<Val> &b) {
    unsigned n = b.size(), undef = 0; Val u; u.w = n * 8;
    for (auto &x : b) undef += x.k == K_UNDEF;
    if (undef == n) return u;
    if (undef) { auto *g = new AggNode; g->v = b; u.n = Ref<Node>(g); return u; }
    ZE e = toZ(b[n - 1]); for (int i = n - 2; i >= 0; i--) e = z3::concat(e, toZ(b[i]));
    return mkBV(e, n * 8);
}
static Val loadRaw(State &st, uint64_t a, unsigned n, unsigned w, bool fp, bool atomic = false) {
    Obj *o = resolve(st, a, n, false); uint32_t off = a - o->base;
    if (!atomic) raceAccess(st, o, off, n, false);
    if (!hasSym(o, off, n)) {
        for (unsigned i = 0; i < n; i++) if (!o->in[off + i]) { if (!fp) return partial(o, off, n, w); Val u; u.w = w; return u; }
        if (fp) {
            if (w == 64) { double d; memcpy(&d, &o->b[off], 8); return Val::D(d); }
            float f; memcpy(&f, &o->b[off], 4); return Val::D(f, 32);
        }
        if (n > 8) {
            ZE e = bvc(o->b[off + n - 1], 8); for (int i = n - 2; i >= 0; i--) e = z3::concat(e, bvc(o->b[off + i], 8));
            return mkBV(e, w);
        }
        uint64_t v = 0; memcpy(&v, &o->b[off], n); return Val::I(v, w);
    }
    auto it = o->sym.find(off);
    if (it != o->sym.end() && cellSize(it->second) == n) {
        Val v = it->second;
        if (fp && v.k == K_BV) return bitsToFP(EX(v), w);
        if (!fp && w == 1 && v.k == K_BV && v.w == 8) return mkBV(EX(v).extract(0, 0) == bvc(1, 1), 1);
        return v;
    }
    { // need write access for exploding
        auto &sp = st.mem[o->base]; if (sp.use_count() > 1) { sp = std::make_shared<Obj>(*sp); o = sp.get(); st.lastO = o; st.lastB = o->base; st.lastE = o->base + o->size; }
    }
    explodeOverlaps(o, off, n);
    if (!fp && w == n * 8) { // is every byte defined?
        unsigned i = 0; bool und = false;
        while (i < n) { auto c = o->sym.find(off + i); if (c != o->sym.end()) i += cellSize(c->second); else { und |= !o->in[off + i]; i++; } }
        if (und) return partial(o, off, n, w);
    }
    ZE e(Z()); bool first = true;
    for (unsigned i = 0; i < n;) {
        auto c = o->sym.find(off + i); ZE x(Z()); unsigned k = 1;
        if (c != o->sym.end()) {
            k = cellSize(c->second);
            if (c->second.k == K_FP) x = ZE(Z(), Z3_mk_fpa_to_ieee_bv(Z(), EX(c->second)));
            else if (c->second.k == K_BV) x = EX(c->second);
            else throw Unsupported{"mixed read of an exact-real cell"};
        } else { if (!o->in[off + i]) { Val u; u.w = w; return u; } x = bvc(o->b[off + i], 8); }
        if (first) { e = x; first = false; } else e = z3::concat(x, e);
        i += k;
    }
    if (fp) { Val t = mkBV(e, w); if (t.k == K_INT) { if (w == 64) { double d; memcpy(&d, &t.i, 8); return Val::D(d); } uint32_t q = t.i; float f; memcpy(&f, &q, 4); return Val::D(f, 32); } return bitsToFP(EX(t), w); }
    if (w == 1) return mkBV(e.extract(0, 0) == bvc(1, 1), 1);
    return mkBV(e, w);
}
static void storeRaw(State &st, uint64_t a, unsigned n, const Val &v0, bool atomic = false) {
    Obj *o = resolve(st, a, n, true); uint32_t off = a - o->base;
    if (!atomic) { raceAccess(st, o, off, n, true); o = resolve(st, a, n, true); }
    clearSym(o, off, n);
    Val v = v0;
    if (v.k == K_UNDEF) {
        memset(&o->in[off], 0, n);
        if (v.n && v.w == n * 8) { unsigned i = 0; for (auto &x : AG(v)) { unsigned k = x.k == K_UNDEF ? 1 : (x.k == K_INT || x.k == K_BV) ? x.w / 8 : cellSize(x); if (x.k != K_UNDEF) storeRaw(st, a + i, k, x, atomic); i += k; } }
        return;
    }
    memset(&o->in[off], 1, n);
    if (v.k == K_INT) { uint64_t x = v.i; if (n <= 8) memcpy(&o->b[off], &x, n); else { memset(&o->b[off], 0, n); memcpy(&o->b[off], &x, 8); } return; }
    if (v.k == K_DBL) { if (v.w == 64) memcpy(&o->b[off], &v.d, 8); else { float f = v.d; memcpy(&o->b[off], &f, 4); } return; }
    if (v.k == K_BV) {
        if (v.w == 1) v = mkBV(z3::ite(EX(v), bvc(1, 8), bvc(0, 8)), 8);
        else if (v.w % 8) v = mkBV(z3::zext(EX(v), 8 - v.w % 8), v.w + 8 - v.w % 8);
        if (v.k == K_INT) { memcpy(&o->b[off], &v.i, n); return; }
        if (v.w > 64 && EX(v).is_numeral()) { for (unsigned i = 0; i < n; i++) { Val b = mkBV(EX(v).extract(i * 8 + 7, i * 8), 8); o->b[off + i] = b.i; } return; }
    }
    if (v.k == K_AGG) throw Unsupported{"raw aggregate store"};
    o->sym[off] = v;
}
static Val loadT(State &st, uint64_t a, Type *ty, bool atomic = false) {
    if (ty->isDoubleTy()) return loadRaw(st, a, 8, 64, true, atomic);
    if (ty->isFloatTy()) return loadRaw(st, a, 4, 32, true, atomic);
    if (ty->isPointerTy()) return loadRaw(st, a, 8, 64, false, atomic);
    if (auto *it = dyn_cast<IntegerType>(ty)) return loadRaw(st, a, DL->getTypeStoreSize(ty), it->getBitWidth(), false, atomic);
    if (auto *s = dyn_cast<StructType>(ty)) {
        vector<Val> v; auto *L = DL->getStructLayout(s);
        for (unsigned i = 0; i < s->getNumElements(); i++) v.push_back(loadT(st, a + L->getElementOffset(i), s->getElementType(i)));
        return mkAgg(v);
    }
    if (auto *s = dyn_cast<ArrayType>(ty)) {
        vector<Val> v; uint64_t z = DL->getTypeAllocSize(s->getElementType());
        for (unsigned i = 0; i < s->getNumElements(); i++) v.push_back(loadT(st, a + i * z, s->getElementType()));
        return mkAgg(v);
    }
    if (auto *s = dyn_cast<FixedVectorType>(ty)) {
        vector<Val> v; uint64_t z = DL->getTypeStoreSize(s->getElementType());
        for (unsigned i = 0; i < s->getNumElements(); i++) v.push_back(loadT(st, a + i * z, s->getElementType()));
        return mkAgg(v);
    }
    throw Unsupported{"load type"};
}
static void storeT(State &st, uint64_t a, Type *ty, const Val &v, bool atomic = false) {
    if (ty->isAggregateType() || ty->isVectorTy()) {
        if (v.k == K_UNDEF) { storeRaw(st, a, DL->getTypeStoreSize(ty), v); return; }
        auto &e = AG(v);
        for (unsigned i = 0; i < e.size(); i++) {
            uint64_t off; Type *et;
            if (auto *s = dyn_cast<StructType>(ty)) { off = DL->getStructLayout(s)->getElementOffset(i); et = s->getElementType(i); }
            else if (auto *s = dyn_cast<ArrayType>(ty)) { et = s->getElementType(); off = i * DL->getTypeAllocSize(et); }
            else { et = cast<FixedVectorType>(ty)->getElementType(); off = i * DL->getTypeStoreSize(et); }
            storeT(st, a + off, et, e[i]);
        }
        return;
    }
    storeRaw(st, a, DL->getTypeStoreSize(ty), v, atomic);
}
static void memCopy(State &st, uint64_t d, uint64_t s, uint64_t n) {
    if (!n) return;
    Obj *so = resolve(st, s, n, false); uint32_t soff = s - so->base;
    raceAccess(st, so, soff, n, false); so = resolve(st, s, n, false);
    vector<uint8_t> b(so->b.begin() + soff, so->b.begin() + soff + n), in(so->in.begin() + soff, so->in.begin() + soff + n);
    map<uint32_t, Val> sy;
    if (hasSym(so, soff, n)) {
        auto &sp = st.mem[so->base]; if (sp.use_count() > 1) { sp = std::make_shared<Obj>(*sp); so = sp.get(); }
        st.lastB = 1; st.lastE = 0;
        explodeOverlaps(so, soff, n);
        for (auto it = so->sym.lower_bound(soff); it != so->sym.end() && it->first < soff + n; ++it) sy[it->first - soff] = it->second;
    }
    Obj *o = resolve(st, d, n, true); uint32_t off = d - o->base;
    raceAccess(st, o, off, n, true); o = resolve(st, d, n, true);
    clearSym(o, off, n);
    memcpy(&o->b[off], b.data(), n); memcpy(&o->in[off], in.data(), n);
    for (auto &p : sy) o->sym[off + p.first] = p.second;
}

// ------------------------------------------------------------------ compile
static Val constVal(State &st, Constant *c);
static uint64_t constAddr(State &st, Constant *c) { Val v = constVal(st, c); if (v.k != K_INT) throw Unsupported{"constant address"}; return v.i; }
static Val constVal(State &st, Constant *c) {
    Type *ty = c->getType();
    if (auto *x = dyn_cast<ConstantInt>(c)) {
        if (x->getBitWidth() <= 64) return Val::I(x->getZExtValue(), x->getBitWidth());
        SmallString<64> s; x->getValue().toString(s, 10, false);
        Val r; r.k = K_BV; r.w = x->getBitWidth(); r.n = Ref<Node>(new ExprNode(Z().bv_val(s.c_str(), r.w))); return r;
    }
    if (auto *x = dyn_cast<ConstantFP>(c)) {
        if (ty->isDoubleTy()) return Val::D(x->getValueAPF().convertToDouble());
        if (ty->isFloatTy()) return Val::D(x->getValueAPF().convertToFloat(), 32);
        return Val();
    }
    if (isa<ConstantPointerNull>(c)) return Val::I(0, 64);
    if (isa<UndefValue>(c)) {
        if (auto *s = dyn_cast<StructType>(ty)) { vector<Val> v; for (auto *t : s->elements()) v.push_back(constVal(st, UndefValue::get(t))); return mkAgg(v); }
        if (auto *s = dyn_cast<ArrayType>(ty)) { vector<Val> v; for (unsigned i = 0; i < s->getNumElements(); i++) v.push_back(constVal(st, UndefValue::get(s->getElementType()))); return mkAgg(v); }
        if (auto *s = dyn_cast<FixedVectorType>(ty)) { vector<Val> v; for (unsigned i = 0; i < s->getNumElements(); i++) v.push_back(constVal(st, UndefValue::get(s->getElementType()))); return mkAgg(v); }
        Val v; v.w = ty->isPointerTy() ? 64 : ty->getPrimitiveSizeInBits(); return v;
    }
    if (auto *g = dyn_cast<GlobalValue>(c)) {
        if (auto *al = dyn_cast<GlobalAlias>(g)) return constVal(st, al->getAliasee());
        auto it = gaddr.find(g); if (it == gaddr.end()) throw Unsupported{"global " + g->getName().str()};
        return Val::I(it->second, 64);
    }
    if (isa<ConstantAggregateZero>(c) || isa<ConstantAggregate>(c) || isa<ConstantDataSequential>(c)) {
        vector<Val> v; unsigned n = 0;
        if (auto *s = dyn_cast<StructType>(ty)) n = s->getNumElements();
        else if (auto *s = dyn_cast<ArrayType>(ty)) n = s->getNumElements();
        else n = cast<FixedVectorType>(ty)->getNumElements();
        for (unsigned i = 0; i < n; i++) v.push_back(constVal(st, c->getAggregateElement(i)));
        return mkAgg(v);
    }
    if (auto *e = dyn_cast<ConstantExpr>(c)) {
        switch (e->getOpcode()) {
        case Instruction::GetElementPtr: {
            auto *g = cast<GEPOperator>(e); APInt off(64, 0);
            if (!g->accumulateConstantOffset(*DL, off)) throw Unsupported{"const gep"};
            return Val::I(constAddr(st, cast<Constant>(g->getPointerOperand())) + off.getSExtValue(), 64);
        }
        case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: {
            Val v = constVal(st, e->getOperand(0)); unsigned w = ty->isPointerTy() ? 64 : ty->getPrimitiveSizeInBits();
            return Val::I(v.i, w);
        }
        case Instruction::Sub: return Val::I(constVal(st, e->getOperand(0)).i - constVal(st, e->getOperand(1)).i, ty->getPrimitiveSizeInBits());
        case Instruction::Add: return Val::I(constVal(st, e->getOperand(0)).i + constVal(st, e->getOperand(1)).i, ty->getPrimitiveSizeInBits());
        case Instruction::Trunc: return Val::I(constVal(st, e->getOperand(0)).i, ty->getPrimitiveSizeInBits());
        case Instruction::ICmp: { bool eq = constVal(st, e->getOperand(0)).i == constVal(st, e->getOperand(1)).i; return Val::I(e->getPredicate() == CmpInst::ICMP_EQ ? eq : !eq, 1); }
        default: throw Unsupported{string("constexpr ") + e->getOpcodeName()};
        }
    }
    throw Unsupported{"constant"};
}
static void initConst(State &st, uint64_t a, Constant *c) {
    Type *ty = c->getType();
    if (isa<ConstantAggregateZero>(c) || c->isNullValue()) { Obj *o = findObj(st, a); uint64_t n = DL->getTypeAllocSize(ty); if (!n) return; memset(&o->in[a - o->base], 1, n); return; }
    if (isa<UndefValue>(c)) { Obj *o = findObj(st, a); uint64_t n = DL->getTypeAllocSize(ty); if (n) memset(&o->in[a - o->base], 1, n); return; }
    if (auto *s = dyn_cast<StructType>(ty)) {
        auto *L = DL->getStructLayout(s);
        for (unsigned i = 0; i < s->getNumElements(); i++) initConst(st, a + L->getElementOffset(i), c->getAggregateElement(i));
        return;
    }
    if (auto *s = dyn_cast<ArrayType>(ty)) {
        uint64_t z = DL->getTypeAllocSize(s->getElementType());
        for (unsigned i = 0; i < s->getNumElements(); i++) initConst(st, a + i * z, c->getAggregateElement(i));
        return;
    }
    if (ty->isX86_FP80Ty()) { Obj *o = findObj(st, a); memset(&o->in[a - o->base], 1, 16); return; }
    Val v = constVal(st, c);
    storeT(st, a, ty, v);
}
static void noteSub(DISubprogram *sp, std::set<string> &out) {
    if (!sp) return;
    string file = sp->getFilename().str();
    if (!file.empty() && file[0] != '/' && !sp->getDirectory().empty()) file = sp->getDirectory().str() + "/" + file;
    if (file.find(optRepo) == 0) {
        string n = sp->getLinkageName().empty() ? sp->getName().str() : demangle(sp->getLinkageName().str());
        // keep it short: drop template argument lists that explode
        if (n.size() > 160) n = n.substr(0, 157) + "...";
        out.insert(n + " [" + file.substr(optRepo.size()) + "]");
    }
}
static State *initSt;
static CFunc *compileF(Function *F) {
    auto it = cfuncs.find(F); if (it != cfuncs.end()) return it->second;
    auto *cf = new CFunc; cf->F = F; cfuncs[F] = cf;
    std::unordered_map<Value *, int> slot; std::unordered_map<BasicBlock *, int> bid; int n = 0;
    for (auto &a : F->args()) slot[&a] = n++;
    int nb = 0;
    for (auto &B : *F) { bid[&B] = nb++; for (auto &I : B) if (!I.getType()->isVoidTy()) slot[&I] = n++; }
    cf->nslots = n; cf->bb.resize(nb);
    std::set<string> fns; noteSub(F->getSubprogram(), fns);
    auto opr = [&](Value *v) {
        Opr o;
        if (isa<Constant>(v)) { o.c = constVal(*initSt, cast<Constant>(v)); return o; }
        if (isa<MetadataAsValue>(v) || isa<BasicBlock>(v) || isa<InlineAsm>(v)) return o;
        o.slot = slot.at(v); return o;
    };
    for (auto &B : *F) {
        CBlock &cb = cf->bb[bid[&B]]; cb.id = bid[&B];
        for (auto &I : B) {
            if (auto dl = I.getDebugLoc()) {
                for (DILocation *l = dl.get(); l; l = l->getInlinedAt()) noteSub(l->getScope()->getSubprogram(), fns);
            }
            if (auto *p = dyn_cast<PHINode>(&I)) {
                for (unsigned i = 0; i < p->getNumIncomingValues(); i++) {
                    auto &v = cb.phis[bid[p->getIncomingBlock(i)]];
                    // duplicate edges from a switch: keep one entry per phi
                    bool dup = false; for (auto &q : v) if (q.first == slot[p]) dup = true;
                    if (!dup) v.push_back({slot[p], opr(p->getIncomingValue(i))});
                }
                continue;
            }
            if (isa<DbgInfoIntrinsic>(&I)) continue;
            CI c; c.op = I.getOpcode(); c.I = &I; c.ty = I.getType();
            if (!I.getType()->isVoidTy()) c.dst = slot[&I];
            c.w = c.ty->isPointerTy() ? 64 : c.ty->getPrimitiveSizeInBits();
            c.fp = c.ty->isFloatingPointTy();
            if (auto *x = dyn_cast<GetElementPtrInst>(&I)) {
                if (x->getType()->isVectorTy()) throw Unsupported{"vector gep"};
                c.o.push_back(opr(x->getPointerOperand()));
                for (auto gi = gep_type_begin(x), ge = gep_type_end(x); gi != ge; ++gi) {
                    Value *ix = gi.getOperand();
                    if (auto *s = gi.getStructTypeOrNull()) c.gepc += DL->getStructLayout(s)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
                    else {
                        uint64_t z = DL->getTypeAllocSize(gi.getIndexedType());
                        if (auto *k = dyn_cast<ConstantInt>(ix)) c.gepc += z * k->getSExtValue();
                        else { c.gep.push_back({(int)c.o.size(), z}); c.o.push_back(opr(ix)); }
                    }
                }
            } else if (auto *x = dyn_cast<BranchInst>(&I)) {
                if (x->isConditional()) c.o.push_back(opr(x->getCondition()));
                for (unsigned i = 0; i < x->getNumSuccessors(); i++) c.succ.push_back(bid[x->getSuccessor(i)]);
            } else if (auto *x = dyn_cast<SwitchInst>(&I)) {
                c.o.push_back(opr(x->getCondition())); c.succ.push_back(bid[x->getDefaultDest()]);
                for (auto &k : x->cases()) { c.cases.push_back(k.getCaseValue()->getZExtValue()); c.succ.push_back(bid[k.getCaseSuccessor()]); }
            } else if (auto *x = dyn_cast<CallBase>(&I)) {
                for (auto &a : x->args()) c.o.push_back(opr(a.get()));
                Value *cv = x->getCalledOperand()->stripPointerCasts();
                if (auto *al = dyn_cast<GlobalAlias>(cv)) cv = al->getAliaseeObject();
                c.callee = dyn_cast<Function>(cv);
                if (!c.callee) c.o.push_back(opr(x->getCalledOperand()));
                else c.intr = c.callee->getIntrinsicID();
            } else {
                for (auto &op : I.operands()) c.o.push_back(opr(op.get()));
                if (auto *x = dyn_cast<CmpInst>(&I)) c.pred = x->getPredicate();
                if (auto *x = dyn_cast<ExtractValueInst>(&I)) c.idx.assign(x->idx_begin(), x->idx_end());
                if (auto *x = dyn_cast<InsertValueInst>(&I)) c.idx.assign(x->idx_begin(), x->idx_end());
                if (auto *x = dyn_cast<AllocaInst>(&I)) c.sz = DL->getTypeAllocSize(x->getAllocatedType());
                if (auto *x = dyn_cast<LoadInst>(&I)) c.volatileAtomic = x->isAtomic();
                if (auto *x = dyn_cast<StoreInst>(&I)) { c.volatileAtomic = x->isAtomic(); c.ty = x->getValueOperand()->getType(); }
            }
            cb.ins.push_back(std::move(c));
        }
    }
    cf->repoFns.assign(fns.begin(), fns.end());
    return cf;
}

#include "exec.inc"
