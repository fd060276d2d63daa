// symse: symbolic executor for LLVM bitcode of the real code (SMT back end Z3).
// See /verif/DESIGN.md.  Floating point values are interpreted as exact reals
// (polynomials over atoms, poly.h); integers are concrete, "mathematical"
// symbolic (checked for overflow) or bit-vectors.
#include "poly.h"
#include <chrono>
#include <climits>
#include <cstring>
#include <cstdlib>
#include <unistd.h>
#include <fstream>
#include <iostream>
#include <sstream>
#include <deque>
#include <random>
#include <z3++.h>
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/InstrTypes.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Demangle/Demangle.h"
using namespace llvm;
typedef std::chrono::steady_clock Clock;

LD g_tol = 1e-9L;
static PolyCtx PC_; // polynomial context
#define X PC_
static z3::context* Z;
static const DataLayout* DL;
static Module* M;
static Clock::time_point g_start;
static double g_timeLimit = 60, g_queryTimeoutMs = 4000;
static bool g_pin = false; // look for the only possible value when a real becomes an integer
static long g_maxPaths = 20000, g_maxSteps = 200000000, g_maxEnum = 300;
static std::map<std::string, long> g_cfg;
static std::mt19937_64 g_rng(1);
static bool g_verbose = false, g_stop = false;
static int g_maxCand = 6;

static double secs(Clock::time_point a) { return std::chrono::duration<double>(Clock::now() - a).count(); }

// ------------------------------------------------------------- statistics
struct Stats
{
    long insts = 0, paths = 0, pathsDone = 0, queries = 0, sat = 0, unsat = 0, unknown = 0, forks = 0;
    long checks = 0, discharged = 0, discardedInfeasible = 0, denom = 0;
    double solver = 0;
    std::set<std::string> functions, reached;
    std::map<std::string, long> checkIds, inconclusive;
    std::map<std::string, int> candPerId;
    std::vector<std::string> cands;
} S_;

// -------------------------------------------------------------- conditions
struct Cond;
typedef std::shared_ptr<const Cond> CP;
struct Cond
{
    enum Op { LT0, LE0, EQ0, NOT, AND, OR, Z3B } op;
    P p;
    CP a, b;
    std::shared_ptr<z3::expr> e;
};
static CP mk(Cond::Op op, const P& p) { auto c = std::make_shared<Cond>(); c->op = op; c->p = p; return c; }
static CP mkNot(const CP& a)
{
    if (a->op == Cond::NOT) return a->a;
    if (a->op == Cond::LT0) return mk(Cond::LE0, X.scale(a->p, -1));
    if (a->op == Cond::LE0) return mk(Cond::LT0, X.scale(a->p, -1));
    auto c = std::make_shared<Cond>(); c->op = Cond::NOT; c->a = a; return c;
}
static CP mk2(Cond::Op op, const CP& a, const CP& b) { auto c = std::make_shared<Cond>(); c->op = op; c->a = a; c->b = b; return c; }
static CP mkZ(const z3::expr& e) { auto c = std::make_shared<Cond>(); c->op = Cond::Z3B; c->e = std::make_shared<z3::expr>(e); return c; }
static bool sameP(const P& a, const P& b) { return a == b || a->t == b->t; }
static bool sameC(const CP& a, const CP& b)
{
    if (a == b) return true;
    if (a->op != b->op) return false;
    switch (a->op)
    {
    case Cond::NOT: return sameC(a->a, b->a);
    case Cond::AND: case Cond::OR: return sameC(a->a, b->a) && sameC(a->b, b->b);
    case Cond::Z3B: return z3::eq(*a->e, *b->e);
    default: return sameP(a->p, b->p);
    }
}
// Quick three-valued evaluation: 1 true, 0 false, -1 unknown.
static int quick(const CP& c)
{
    switch (c->op)
    {
    case Cond::NOT: { int q = quick(c->a); return q < 0 ? q : !q; }
    case Cond::AND: { int q = quick(c->a), r = quick(c->b); if (q == 0 || r == 0) return 0; return (q == 1 && r == 1) ? 1 : -1; }
    case Cond::OR: { int q = quick(c->a), r = quick(c->b); if (q == 1 || r == 1) return 1; return (q == 0 && r == 0) ? 0 : -1; }
    case Cond::Z3B: return c->e->is_true() ? 1 : c->e->is_false() ? 0 : -1;
    default: break;
    }
    LD lo, hi;
    if (c->p->isConst())
    {
        LD v = c->p->constant();
        return c->op == Cond::LT0 ? v < 0 : c->op == Cond::LE0 ? v <= 0 : v == 0;
    }
    X.interval(c->p, lo, hi);
    if (c->op == Cond::LT0) { if (hi < 0) return 1; if (lo >= 0) return 0; }
    if (c->op == Cond::LE0) { if (hi <= 0) return 1; if (lo > 0) return 0; }
    if (c->op == Cond::EQ0) { if (lo > 0 || hi < 0) return 0; }
    return -1;
}

// ------------------------------------------------------------------ values
struct Val
{
    enum K : uint8_t { UNDEF, INT, FP, PTR, AGG, PINT, PFP, COND, BYTES, BV } k = UNDEF;
    uint8_t bits = 0;
    int32_t obj = 0;
    union { uint64_t i; double d; int64_t off; };
    std::shared_ptr<const void> s;
    Val() : i(0) {}
    P poly() const { return std::static_pointer_cast<const Poly>(s); }
    CP cond() const { return std::static_pointer_cast<const Cond>(s); }
    const std::vector<Val>& agg() const { return *(const std::vector<Val>*) s.get(); }
    const z3::expr& bv() const { return *(const z3::expr*) s.get(); }
    bool conc() const { return k == INT || k == FP || k == PTR; }
};
static uint64_t maskBits(unsigned b) { return b >= 64 ? ~0ULL : ((1ULL << b) - 1); }
static Val vInt(uint64_t v, unsigned b) { Val x; x.k = Val::INT; x.bits = b; x.i = v & maskBits(b); return x; }
static Val vFP(double d, unsigned b) { Val x; x.k = Val::FP; x.bits = b; x.d = b == 32 ? (double) (float) d : d; return x; }
static Val vPtr(int o, int64_t off) { Val x; x.k = Val::PTR; x.bits = 64; x.obj = o; x.off = off; return x; }
static Val vAgg(const std::vector<Val>& a) { Val x; x.k = Val::AGG; x.s = std::make_shared<std::vector<Val> >(a); return x; }
static Val vBytes(const std::vector<Val>& a, unsigned bits) { Val x; x.k = Val::BYTES; x.bits = bits; x.s = std::make_shared<std::vector<Val> >(a); return x; }
static Val vPF(const P& p, unsigned b)
{
    if (p->isConst()) return vFP((double) p->constant(), b);
    Val x; x.k = Val::PFP; x.bits = b; x.s = p; return x;
}
static Val vPI(const P& p, unsigned b)
{
    if (p->isConst()) return vInt((uint64_t) (int64_t) p->constant(), b);
    Val x; x.k = Val::PINT; x.bits = b; x.s = p; return x;
}
static Val vCond(const CP& c)
{
    int q = quick(c);
    if (q >= 0) return vInt(q, 1);
    Val x; x.k = Val::COND; x.bits = 1; x.s = c; return x;
}
static Val vBV(const z3::expr& e0, unsigned b)
{
    z3::expr e = e0.simplify();
    uint64_t v;
    if (e.is_numeral() && Z3_get_numeral_uint64(*Z, e, (uint64_t*) &v)) return vInt(v, b);
    Val x; x.k = Val::BV; x.bits = b; x.s = std::make_shared<z3::expr>(e); return x;
}
static int64_t sx(const Val& v) { unsigned b = v.bits; return b >= 64 ? (int64_t) v.i : ((int64_t) (v.i << (64 - b))) >> (64 - b); }

// ------------------------------------------------------------------ memory
struct Cell { Val v; uint32_t size; };
struct Obj
{
    enum Kind { HEAP, STACK, GLOBAL, FUNC } kind = HEAP;
    uint64_t size = 0;
    std::shared_ptr<z3::expr> symSize;
    bool freed = false, constant = false, zero = false, isNew = false, arrNew = false;
    std::vector<std::pair<int64_t, int64_t> > prot;
    std::string name;
    const Function* fn = 0;
    std::map<uint64_t, Cell> cells;
    int tid = -1;
};
typedef std::shared_ptr<Obj> OP;
static const unsigned ADDR_SHIFT = 34;
static uint64_t addrOf(int obj, int64_t off) { return obj == 0 ? (uint64_t) off : (((uint64_t) obj) << ADDR_SHIFT) + (uint64_t) off; }

// -------------------------------------------------------------- exceptions
struct Kill { std::string why; };                 // end this path
struct Bug { std::string id, msg; };              // candidate violation (ends path)
struct Stop {};

// ------------------------------------------------------------------- state
struct FnInfo
{
    DenseMap<const Value*, int> idx;
    int n = 0;
    bool repo = false;
    std::string name;
};
static std::map<const Function*, std::shared_ptr<FnInfo> > g_fn;
struct Frame
{
    const Function* f; FnInfo* info;
    const BasicBlock* bb; const BasicBlock* prev;
    BasicBlock::const_iterator it;
    std::vector<Val> loc;
    std::vector<int> allocas;
    std::vector<Val> varargs;
    const CallBase* callsite; // in the parent
};
struct Thread
{
    std::vector<Frame> stack;
    int tid = 0; enum { RUN, BARRIER, DONE } st = RUN;
    long epoch = 0;
    std::multiset<std::string> locks;
    bool yielded = false;
    std::map<std::string, Val> ws; // worksharing
};
struct Access { int obj; int64_t off; uint32_t size; bool write, atomic; int tid; long epoch; std::string lock; const Instruction* where; };
struct Team
{
    std::vector<Thread> th;
    int cur = 0;
    bool serial = false; // a nested region, run by one thread of the outer team
    int logTid = 0; long logEpoch = 0;
    int gpu = 0, gpuBlock = 0; // threads of a GPU kernel
    std::shared_ptr<std::vector<Access> > log;
    std::map<std::string, Val> shared;
};
struct Input { std::string name; int kind; P p; std::shared_ptr<z3::expr> e; LD lo, hi; Val conc; };
struct LogArg { bool str = false; std::string s; Val v; };
struct State
{
    bool logging = false; // messages are kept for the harness to look at
    std::vector<std::vector<LogArg> > logs;
    std::vector<Team> teams; // stack of teams; main program is teams[0].th[0]
    std::vector<OP> objs;
    std::vector<CP> pc;
    std::vector<std::pair<P, int64_t> > conc;
    std::vector<std::pair<std::shared_ptr<z3::expr>, uint64_t> > concBV;
    std::vector<Input> inputs;
    std::map<std::string, int> nameCount;
    std::vector<std::pair<P, std::string> > pending; // near checks
    std::vector<LD> pendingEps;
    int leakBase = -1;
    int pushNT = 0; // team size requested for the next parallel region
    bool sched = false; // the order in which threads take locks is chosen freely
    long steps = 0, enumN = 0;
    std::string trace;
    Thread& T() { return teams.back().th[teams.back().cur]; }
    Frame& F() { return T().stack.back(); }
};
typedef std::shared_ptr<State> SP;
static SP forkState(const State& s)
{
    SP o = std::make_shared<State>(s);
    for (size_t i = 0; i < o->teams.size(); ++i)
    {
        Team& t = o->teams[i];
        if (!t.log) continue;
        if (t.serial && i > 0) t.log = o->teams[i - 1].log;
        else t.log = std::make_shared<std::vector<Access> >(*t.log);
    }
    return o;
}
static std::deque<SP> g_work;
static std::map<const GlobalValue*, int> g_global;
static std::map<const Function*, int> g_fnObj;

// ------------------------------------------------------------------ solver
static std::map<int, z3::expr> g_atomE;
static std::map<int, std::vector<z3::expr> > g_atomL;
static std::map<const Poly*, std::pair<P, std::shared_ptr<z3::expr> > > g_polyE;
static std::string numStr(LD v)
{
    // Exact rational.
    if (v == floorl(v) && fabsl(v) < 1e18L) { char b[64]; snprintf(b, sizeof b, "%.0Lf", v); return b; }
    int e; LD m = frexpl(v, &e);
    m = ldexpl(m, 64); e -= 64;
    char b[64]; snprintf(b, sizeof b, "%.0Lf", m);
    std::string s = b;
    // 2^|e| as decimal
    std::string pw = "1";
    int n = e < 0 ? -e : e;
    static std::map<int, std::string> cache;
    auto it = cache.find(n);
    if (it != cache.end()) pw = it->second;
    else
    {
        std::vector<int> d(1, 1);
        for (int i = 0; i < n; ++i) { int c = 0; for (auto& x : d) { x = x * 2 + c; c = x / 10; x %= 10; } if (c) d.push_back(c); }
        pw.clear(); for (int i = (int) d.size() - 1; i >= 0; --i) pw += (char) ('0' + d[i]);
        cache[n] = pw;
    }
    if (e < 0) return s + "/" + pw;
    return ""; // handled by caller
}
static z3::expr zreal(LD v)
{
    if (fabsl(v) >= 1e18L)
    {
        int e; LD m = frexpl(v, &e); m = ldexpl(m, 62); e -= 62;
        z3::expr r = Z->real_val(numStr(m).c_str());
        while (e > 0) { int k = std::min(e, 60); r = r * Z->real_val(std::to_string(1LL << k).c_str()); e -= k; }
        return r.simplify();
    }
    return Z->real_val(numStr(v).c_str());
}
static z3::expr zpoly(const P& p);
static z3::expr zatom(int a)
{
    auto it = g_atomE.find(a);
    if (it != g_atomE.end()) return it->second;
    const Atom at = X.atoms[a];
    std::string nm = at.name + "!" + std::to_string(a);
    z3::expr e(*Z);
    std::vector<z3::expr> L;
    if (at.kind == A_UF)
    {
        z3::sort_vector dom(*Z); z3::expr_vector args(*Z);
        for (auto& x : at.args) { dom.push_back(Z->real_sort()); args.push_back(zpoly(x)); }
        e = Z->function(at.name.c_str(), dom, Z->real_sort())(args);
    }
    else if (at.isInt) e = z3::to_real(Z->int_const(nm.c_str()));
    else e = Z->real_const(nm.c_str());
    g_atomE.insert(std::make_pair(a, e));
    if (!std::isinf((double) at.lo) && at.lo == at.lo) L.push_back(e >= zreal(at.lo));
    if (!std::isinf((double) at.hi) && at.hi == at.hi) L.push_back(e <= zreal(at.hi));
    switch (at.kind)
    {
    case A_EXP: L.push_back(e > 0); break;
    case A_SQRT: L.push_back(e >= 0); L.push_back(e * e == zpoly(at.args[0])); break;
    case A_INV: L.push_back(e * zpoly(at.args[0]) == 1); break;
    case A_FLOOR: { z3::expr q = zpoly(at.args[0]); L.push_back(e <= q); L.push_back(q < e + 1); break; }
    case A_RINT: { z3::expr q = zpoly(at.args[0]); z3::expr h = Z->real_val("1/2"); L.push_back(q - e <= h); L.push_back(e - q <= h); break; }
    case A_COS: case A_SIN:
    {
        int other = X.findAtom(at.kind == A_COS ? A_SIN : A_COS, "", at.args);
        z3::expr o = zatom(other);
        L.push_back(e * e + o * o == 1);
        break;
    }
    default: break;
    }
    g_atomL[a] = L;
    return e;
}
static z3::expr zpoly(const P& p)
{
    auto it = g_polyE.find(p.get());
    if (it != g_polyE.end()) return *it->second.second;
    z3::expr_vector sum(*Z);
    for (auto& x : p->t)
    {
        z3::expr_vector f(*Z);
        z3::expr den = Z->real_val(1);
        bool hasDen = false;
        if (x.second != 1 || x.first == 0) f.push_back(zreal(x.second));
        for (auto& ae : X.monos[x.first])
        {
            z3::expr v = zatom(ae.first);
            for (int i = 0; i < ae.second; ++i) f.push_back(v);
            for (int i = 0; i < -ae.second; ++i) { den = hasDen ? den * v : v; hasDen = true; }
        }
        z3::expr m = Z->real_val(1);
        if (f.size() == 1) m = f[0];
        else if (f.size() > 1)
        {
            std::vector<Z3_ast> as; for (unsigned i = 0; i < f.size(); ++i) as.push_back(f[i]);
            m = z3::expr(*Z, Z3_mk_mul(*Z, (unsigned) as.size(), as.data()));
        }
        if (hasDen) m = m / den;
        sum.push_back(m);
    }
    z3::expr r = Z->real_val(0);
    if (sum.size() == 1) r = sum[0];
    else if (sum.size() > 1)
    {
        std::vector<Z3_ast> as; for (unsigned i = 0; i < sum.size(); ++i) as.push_back(sum[i]);
        r = z3::expr(*Z, Z3_mk_add(*Z, (unsigned) as.size(), as.data()));
    }
    g_polyE.insert(std::make_pair(p.get(), std::make_pair(p, std::make_shared<z3::expr>(r))));
    return r;
}
static z3::expr zcond(const CP& c)
{
    switch (c->op)
    {
    case Cond::NOT: return !zcond(c->a);
    case Cond::AND: return zcond(c->a) && zcond(c->b);
    case Cond::OR: return zcond(c->a) || zcond(c->b);
    case Cond::Z3B: return *c->e;
    case Cond::LT0: return zpoly(c->p) < 0;
    case Cond::LE0: return zpoly(c->p) <= 0;
    default: return zpoly(c->p) == 0;
    }
}
static void polyAtoms(const P& p, std::set<int>& out);
static void atomClosure(int a, std::set<int>& out)
{
    if (!out.insert(a).second) return;
    for (auto& x : X.atoms[a].args) polyAtoms(x, out);
    if (X.atoms[a].kind == A_COS || X.atoms[a].kind == A_SIN)
    {
        int o = X.findAtom(X.atoms[a].kind == A_COS ? A_SIN : A_COS, "", X.atoms[a].args);
        out.insert(o);
    }
}
static void polyAtoms(const P& p, std::set<int>& out)
{
    for (auto& x : p->t) for (auto& ae : X.monos[x.first]) atomClosure(ae.first, out);
}
static void condAtoms(const CP& c, std::set<int>& out, bool& hasZ)
{
    if (c->p) polyAtoms(c->p, out);
    if (c->e) hasZ = true;
    if (c->a) condAtoms(c->a, out, hasZ);
    if (c->b) condAtoms(c->b, out, hasZ);
}
enum Res { UNSAT, SAT, UNK };
struct Model { std::map<int, LD> vals; std::map<std::string, std::string> bv; bool ok = false; std::shared_ptr<z3::model> m; };
static std::map<const Cond*, std::pair<CP, std::pair<std::set<int>, bool> > > g_condAtoms;
static const std::pair<std::set<int>, bool>& atomsOf(const CP& c)
{
    auto it = g_condAtoms.find(c.get());
    if (it != g_condAtoms.end()) return it->second.second;
    std::pair<std::set<int>, bool> r; r.second = false;
    condAtoms(c, r.first, r.second);
    return g_condAtoms.insert(std::make_pair(c.get(), std::make_pair(c, r))).first->second.second;
}
static LD numVal(const z3::expr& v)
{
    if (v.is_algebraic())
    {
        std::string s = v.get_decimal_string(20);
        return strtold(s.c_str(), 0);
    }
    std::string s = v.get_decimal_string(25);
    return strtold(s.c_str(), 0);
}
static Res solve(const std::vector<CP>& pc, const CP* extra, Model* model, bool slice = true, double timeoutMs = 0)
{
    if (timeoutMs <= 0) timeoutMs = g_queryTimeoutMs;
    auto t0 = Clock::now();
    S_.queries++;
    std::set<int> rel; bool relZ = false;
    std::vector<CP> use;
    if (extra) { auto& a = atomsOf(*extra); rel = a.first; relZ = a.second; use.push_back(*extra); }
    if (!extra || !slice || model) use.insert(use.end(), pc.begin(), pc.end());
    else
    {
        std::vector<char> in(pc.size(), 0);
        bool ch = true;
        while (ch)
        {
            ch = false;
            for (size_t i = 0; i < pc.size(); ++i)
            {
                if (in[i]) continue;
                auto& a = atomsOf(pc[i]);
                bool hit = relZ && a.second;
                if (!hit) for (int k : a.first) if (rel.count(k)) { hit = true; break; }
                if (hit) { in[i] = 1; ch = true; rel.insert(a.first.begin(), a.first.end()); relZ |= a.second; use.push_back(pc[i]); }
            }
        }
    }
    if (!extra || model) { for (auto& c : pc) { auto& a = atomsOf(c); rel.insert(a.first.begin(), a.first.end()); } }
    Res r = UNK;
    try
    {
        z3::solver s(*Z);
        z3::params p(*Z);
        p.set("timeout", (unsigned) timeoutMs);
        s.set(p);
        for (auto& c : use) s.add(zcond(c));
        for (int a : rel) { zatom(a); for (auto& l : g_atomL[a]) s.add(l); }
        z3::check_result cr = s.check();
        r = cr == z3::sat ? SAT : cr == z3::unsat ? UNSAT : UNK;
        if (r == SAT && model)
        {
            z3::model m = s.get_model();
            model->ok = true;
            model->m = std::make_shared<z3::model>(m);
            for (size_t a = 0; a < X.atoms.size(); ++a)
            {
                if (X.atoms[a].kind != A_VAR) continue;
                if (!g_atomE.count((int) a)) continue;
                z3::expr v = m.eval(g_atomE.at((int) a), false);
                v = v.simplify();
                if (v.is_numeral() || v.is_algebraic()) model->vals[(int) a] = numVal(v);
            }
        }
    }
    catch (z3::exception& e) { if (g_verbose) fprintf(stderr, "z3: %s\n", e.msg()); r = UNK; }
    double dt = secs(t0);
    S_.solver += dt;
    if (g_verbose && dt > 0.5) fprintf(stderr, "[slow query %.2fs res %d, %zu conds]\n", dt, r, use.size());
    if (r == SAT) S_.sat++; else if (r == UNSAT) S_.unsat++; else S_.unknown++;
    return r;
}
static double evalCondMargin(const CP& c, const std::map<int, LD>& v, std::map<int, LD>& memo)
{
    // >0: holds with margin; <0: fails.
    switch (c->op)
    {
    case Cond::NOT:
        if (c->a->op == Cond::EQ0) { LD x = X.eval(c->a->p, v, memo); return fabsl(x) > 0 ? (double) fabsl(x) : -1; }
        return -evalCondMargin(c->a, v, memo);
    case Cond::AND: return std::min(evalCondMargin(c->a, v, memo), evalCondMargin(c->b, v, memo));
    case Cond::OR: return std::max(evalCondMargin(c->a, v, memo), evalCondMargin(c->b, v, memo));
    case Cond::LT0: { LD x = X.eval(c->p, v, memo); return (double) -x; }
    case Cond::LE0: { LD x = X.eval(c->p, v, memo); return x == 0 ? 1e-12 : (double) -x; }
    case Cond::EQ0: { LD x = X.eval(c->p, v, memo); return fabsl(x) < 1e-15L ? 1e-12 : -1; }
    default: return -1;
    }
}

// -------------------------------------------------------------- candidates
static std::string jstr(const std::string& s)
{
    std::string r = "\"";
    for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if ((unsigned char) c < 32) r += ' '; else r += c; }
    return r + "\"";
}
static std::string where(const State& s)
{
    std::string r;
    const auto& st = s.teams.back().th[s.teams.back().cur].stack;
    for (int i = (int) st.size() - 1; i >= 0 && i >= (int) st.size() - 4; --i)
    {
        const Frame& f = st[i];
        if (!r.empty()) r += " < ";
        std::string fn = demangle(f.f->getName().str());
        size_t p = fn.find('('); if (p != std::string::npos && p > 0) fn = fn.substr(0, p);
        r += fn;
        if (f.it != f.bb->end()) if (const DebugLoc& d = f.it->getDebugLoc()) r += ":" + std::to_string(d.getLine());
    }
    return r;
}
static void emitCand(State& s, const std::string& id, const std::string& msg, const std::map<int, LD>& vals, z3::model* zm)
{
    if (getenv("SYMSE_FORK")) fprintf(stderr, "candidate trace:%s\n", s.trace.c_str());
    std::string j = "{\"event\":\"candidate\",\"id\":" + jstr(id) + ",\"msg\":" + jstr(msg) + ",\"inputs\":{";
    bool first = true;
    for (auto& in : s.inputs)
    {
        std::string v;
        char b[64];
        if (in.e)
        {
            std::string t = "0";
            if (zm) { z3::expr x = zm->eval(*in.e, true); uint64_t u = 0; if (Z3_get_numeral_uint64(*Z, x, &u)) t = std::to_string((int64_t) u); }
            v = t;
        }
        else if (in.p)
        {
            std::map<int, LD> memo;
            LD x = X.eval(in.p, vals, memo);
            snprintf(b, sizeof b, in.kind == 1 ? "%.0Lf" : "%.17Lg", x); v = b;
        }
        else if (in.conc.k == Val::INT) v = std::to_string(sx(in.conc));
        else continue;
        if (!first) j += ",";
        first = false;
        j += jstr(in.name) + ":" + jstr(v);
    }
    j += "}}";
    printf("%s\n", j.c_str());
    fflush(stdout);
}
// Reports a candidate violation; cond (may be null) is the violating condition.
// Returns false if the solver shows the violation infeasible.
static bool report(State& s, const std::string& id, const std::string& msg, const CP* cond, double margin = 0)
{
    int& n = S_.candPerId[id];
    Model m;
    Res r = UNSAT;
    if (n >= g_maxCand) return true;
    r = solve(s.pc, cond, &m, false, g_queryTimeoutMs * 2);
    if (r == UNSAT) return false;
    std::vector<CP> all = s.pc;
    if (cond) all.push_back(*cond);
    // Look for a well-conditioned model by randomised completion.
    std::vector<int> vars;
    for (auto& in : s.inputs) if (in.p && in.p->t.size() == 1) { const MonoKey& k = X.monos[in.p->t[0].first]; if (k.size() == 1) vars.push_back(k[0].first); }
    std::map<int, LD> best = m.vals; bool have = r == SAT;
    auto rnd = [&](int a) -> LD
    {
        const Atom& at = X.atoms[a];
        LD lo = at.lo, hi = at.hi;
        if (std::isinf((double) lo)) lo = -3;
        if (std::isinf((double) hi)) hi = 3;
        if (at.isInt) { LD w = hi - lo + 1; return std::min(hi, lo + floorl(w * ((g_rng() >> 11) * (1.0L / 9007199254740992.0L)))); }
        return (LD) (double) (float) (lo + (hi - lo) * ((g_rng() >> 11) * (1.0L / 9007199254740992.0L)));
    };
    std::vector<std::map<int, LD> > out;
    bool zonly = false;
    for (auto& c : all) if (atomsOf(c).second) zonly = true;
    if (!zonly)
    {
        for (int k = 0; k < 400 && out.size() < 3; ++k)
        {
            std::map<int, LD> v, memo;
            for (int a : vars) v[a] = rnd(a);
            double mg = 1e300;
            for (auto& c : all) { mg = std::min(mg, evalCondMargin(c, v, memo)); if (mg <= 0) break; }
            if (mg > (margin > 0 ? margin : 1e-9)) out.push_back(v);
        }
        if (out.empty() && have)
        {
            // Perturb the solver's model variable by variable.
            for (int rep = 0; rep < 2; ++rep)
            {
                std::map<int, LD> v = best;
                std::vector<int> vs = vars;
                std::shuffle(vs.begin(), vs.end(), g_rng);
                for (int a : vs) if (!v.count(a)) v[a] = rnd(a);
                for (int a : vs)
                {
                    for (int t = 0; t < 4; ++t)
                    {
                        LD old = v[a];
                        v[a] = t < 2 ? rnd(a) : (LD) (double) (old + (rnd(a) - old) * 0.1L);
                        if (X.atoms[a].isInt) v[a] = floorl(v[a]);
                        std::map<int, LD> memo; double mg = 1e300;
                        for (auto& c : all) { mg = std::min(mg, evalCondMargin(c, v, memo)); if (mg <= 0) break; }
                        if (mg > 0) break;
                        v[a] = old;
                    }
                }
                out.push_back(v);
            }
        }
    }
    if (have) { std::map<int, LD> v = best; for (int a : vars) if (!v.count(a)) { const Atom& at = X.atoms[a]; v[a] = (at.lo <= 0 && at.hi >= 0) ? 0 : at.lo; } out.push_back(v); }
    if (out.empty()) { S_.inconclusive["no model for " + id + ": " + msg]++; return true; }
    n++;
    for (auto& v : out) emitCand(s, id, msg, v, m.m.get());
    return true;
}

// -------------------------------------------------------------- forking
static bool decide(State& s, const CP& c)
{
    int q = quick(c);
    if (q >= 0) return q;
    CP nc = mkNot(c);
    for (auto it = s.pc.rbegin(); it != s.pc.rend(); ++it)
    {
        if (sameC(*it, c)) return true;
        if (sameC(*it, nc)) return false;
    }
    if (c->op == Cond::AND) { return decide(s, c->a) && decide(s, c->b); }
    if (c->op == Cond::OR) { return decide(s, c->a) || decide(s, c->b); }
    Res rt = solve(s.pc, &c, 0);
    if (rt == UNSAT) { s.pc.push_back(nc); return false; }
    Res rf = solve(s.pc, &nc, 0);
    if (rf == UNSAT) { s.pc.push_back(c); return true; }
    S_.forks++;
    if (getenv("SYMSE_FORK")) fprintf(stderr, "fork %d/%d at %s on %s%s\n", rt, rf, where(s).c_str(), c->p ? X.str(c->p).substr(0, 300).c_str() : "?", s.trace.c_str());
    SP o = forkState(s);
    o->pc.push_back(nc);
    g_work.push_back(o);
    if ((long) g_work.size() + S_.paths > g_maxPaths) { S_.inconclusive["path limit"]++; g_stop = true; throw Stop(); }
    s.pc.push_back(c);
    return true;
}
static int64_t concretise(State& s, const P& p)
{
    if (p->isConst()) return (int64_t) p->constant();
    for (auto& c : s.conc) if (sameP(c.first, p)) return c.second;
    LD lo, hi; X.interval(p, lo, hi);
    if (lo == hi) return (int64_t) lo;
    // Value from a model (candidate values inside the interval are tried through the solver).
    Model m;
    Res r = solve(s.pc, 0, 0, true);
    CP dummy;
    // Ask for a model restricted to p's component.
    {
        std::vector<CP> none;
        CP self = mk(Cond::LE0, X.sub(p, p)); (void) self;
    }
    LD big = std::isinf((double) hi) ? 1e15L : hi + 1;
    CP triv = mk(Cond::LT0, X.sub(p, X.constant(big)));
    r = solve(s.pc, &triv, &m, true);
    if (r != SAT || !m.ok) throw Unsupported("cannot concretise integer");
    z3::expr ev = m.m->eval(zpoly(p), true).simplify();
    LD v;
    if (ev.is_numeral()) v = roundl(numVal(ev));
    else { std::map<int, LD> memo; v = roundl(X.eval(p, m.vals, memo)); }
    P d = X.sub(p, X.constant(v));
    CP eq = mk(Cond::EQ0, d), ne = mkNot(eq);
    if (solve(s.pc, &eq, 0) == UNSAT) throw Unsupported("concretisation mismatch");
    if (solve(s.pc, &ne, 0) != UNSAT)
    {
        SP o = forkState(s);
        o->pc.push_back(ne);
        o->enumN++;
        if (o->enumN > g_maxEnum) { S_.inconclusive["enumeration limit"]++; }
        else g_work.push_back(o);
        S_.forks++;
        if ((long) g_work.size() + S_.paths > g_maxPaths) { S_.inconclusive["path limit"]++; g_stop = true; throw Stop(); }
    }
    s.pc.push_back(eq);
    s.conc.push_back(std::make_pair(p, (int64_t) v));
    return (int64_t) v;
}
// The value of p when the path allows just one; nothing is assumed otherwise.
static bool pinned(State& s, const P& p, int64_t* out)
{
    if (p->isConst()) { *out = (int64_t) p->constant(); return true; }
    for (auto& c : s.conc) if (sameP(c.first, p)) { *out = c.second; return true; }
    LD lo, hi; X.interval(p, lo, hi);
    if (std::isinf((double) lo) || std::isinf((double) hi)) return false;
    Model m;
    CP mid = mk(Cond::LE0, X.sub(p, X.constant(floorl((lo + hi) / 2))));
    Res r = solve(s.pc, &mid, &m, true);
    if (r == UNSAT) { mid = mkNot(mid); m = Model(); r = solve(s.pc, &mid, &m, true); }
    if (r != SAT || !m.ok) return false;
    z3::expr ev = m.m->eval(zpoly(p), true).simplify();
    LD v;
    if (ev.is_numeral()) v = roundl(numVal(ev));
    else { std::map<int, LD> memo; v = roundl(X.eval(p, m.vals, memo)); }
    CP eq = mk(Cond::EQ0, X.sub(p, X.constant(v))), ne = mkNot(eq);
    if (solve(s.pc, &ne, 0) != UNSAT) return false;
    s.pc.push_back(eq);
    s.conc.push_back(std::make_pair(p, (int64_t) v));
    *out = (int64_t) v;
    return true;
}
static uint64_t concretiseBV(State& s, const z3::expr& e)
{
    for (auto& c : s.concBV) if (z3::eq(*c.first, e)) return c.second;
    Model m;
    CP t = mkZ(e == e);
    if (solve(s.pc, 0, &m, false) != SAT) throw Unsupported("cannot concretise bit-vector");
    z3::expr v = m.m->eval(e, true);
    uint64_t u = 0;
    if (!Z3_get_numeral_uint64(*Z, v, &u)) throw Unsupported("cannot concretise bit-vector");
    CP eq = mkZ(e == v), ne = mkZ(e != v);
    if (solve(s.pc, &ne, 0) != UNSAT)
    {
        SP o = forkState(s);
        o->pc.push_back(ne);
        o->enumN++;
        if (o->enumN > g_maxEnum) S_.inconclusive["enumeration limit"]++;
        else g_work.push_back(o);
        S_.forks++;
    }
    s.pc.push_back(eq);
    s.concBV.push_back(std::make_pair(std::make_shared<z3::expr>(e), u));
    return u;
}
#include "exec.h"
