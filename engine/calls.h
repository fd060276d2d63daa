// Calls, library models, harness interface, OpenMP model and the main loop.
static bool g_stopOnBug = true;
static std::set<std::string> g_repoFns;
static std::set<std::string> g_enabled; // event classes that count as violations
static std::set<std::string> g_ignoreEv;

static FnInfo* info(const Function* f)
{
    auto& p = g_fn[f];
    if (!p)
    {
        p = std::make_shared<FnInfo>();
        for (auto& a : f->args()) p->idx[&a] = p->n++;
        for (auto& bb : *f) for (auto& i : bb) if (!i.getType()->isVoidTy()) p->idx[&i] = p->n++;
        p->name = f->getName().str();
        if (auto* sp = f->getSubprogram())
        {
            std::string fn = sp->getFilename().str();
            p->repo = fn.find("ska-sdp-func/") != std::string::npos || fn.find("/repo/") != std::string::npos;
        }
    }
    return p.get();
}
static void pushFrame(State& s, const Function* f, const std::vector<Val>& args, const CallBase* cs)
{
    if (s.T().stack.size() > 400) throw Unsupported("recursion too deep");
    FnInfo* fi = info(f);
    if (fi->repo) S_.functions.insert(fi->name);
    Frame fr;
    fr.f = f; fr.info = fi; fr.bb = &f->getEntryBlock(); fr.prev = 0; fr.it = fr.bb->begin();
    fr.loc.resize(fi->n);
    fr.callsite = cs;
    unsigned k = 0;
    for (auto& a : f->args())
    {
        Val v = k < args.size() ? args[k] : Val();
        if (a.hasByValAttr())
        {
            Type* t = a.getParamByValType();
            uint64_t n = DL->getTypeAllocSize(t).getFixedValue();
            int o = newObj(s, Obj::STACK, n, false, "byval");
            fr.allocas.push_back(o);
            Val np = vPtr(o, 0);
            copyMem(s, np, v, n);
            v = np;
        }
        fr.loc[fi->idx[&a]] = v;
        ++k;
    }
    for (; k < args.size(); ++k) fr.varargs.push_back(args[k]);
    s.T().stack.push_back(fr);
}
static void gotoBlock(State& s, const BasicBlock* to)
{
    Frame& f = s.F();
    f.prev = f.bb; f.bb = to; f.it = to->begin();
    // Phis in parallel.
    std::vector<std::pair<const Value*, Val> > upd;
    while (auto* ph = dyn_cast<PHINode>(&*f.it))
    {
        upd.push_back(std::make_pair((const Value*) ph, getVal(s, ph->getIncomingValueForBlock(f.prev))));
        ++f.it;
        S_.insts++;
    }
    for (auto& u : upd) setVal(s, u.first, u.second);
}
static void finishCall(State& s, const CallBase* cb)
{
    if (auto* inv = dyn_cast<InvokeInst>(cb)) gotoBlock(s, inv->getNormalDest());
    else ++s.F().it;
}
static void popFrame(State& s, const Val& rv)
{
    Frame& f = s.F();
    for (int o : f.allocas) { OP& ob = objW(s, o); ob->freed = true; ob->cells.clear(); }
    const CallBase* cs = f.callsite;
    s.T().stack.pop_back();
    if (s.T().stack.empty() || !cs) return;
    if (!cs->getType()->isVoidTy()) setVal(s, cs, rv);
    finishCall(s, cs);
}
static int64_t argI(State& s, const Val& v, const char* what)
{
    if (v.k == Val::UNDEF) throw Bug{"uninit", std::string("uninitialised value used as ") + what};
    Val c = concInt(s, v);
    if (c.k == Val::PTR) return (int64_t) bitsOf(c);
    if (c.k != Val::INT) throw Unsupported(std::string("non-integer ") + what);
    return sx(c);
}
static std::string uniq(State& s, const std::string& n)
{
    int k = s.nameCount[n]++;
    return k == 0 ? n : n + "#" + std::to_string(k);
}
static std::map<std::string, P> g_vars;
static P varFor(const std::string& n, LD lo, LD hi, bool isInt)
{
    std::string key = n + "|" + std::to_string((double) lo) + "|" + std::to_string((double) hi) + (isInt ? "i" : "r");
    auto it = g_vars.find(key);
    if (it != g_vars.end()) return it->second;
    P p = X.var(n, lo, hi, isInt);
    g_vars[key] = p;
    return p;
}
static LD maxCoef(const P& p) { LD m = 0; for (auto& x : p->t) m = std::max(m, fabsl(x.second)); return m; }
static LD g_atol = 1e-12L;
static void nearCheck(State& s, const Val& a, const Val& b, const std::string& id)
{
    S_.checks++; S_.checkIds[id]++;
    if (a.k == Val::UNDEF || b.k == Val::UNDEF)
    {
        throw Bug{"uninit", "uninitialised value compared in check " + id};
    }
    if (a.k == Val::FP && b.k == Val::FP)
    {
        if ((std::isnan(a.d) && std::isnan(b.d)) || a.d == b.d) { S_.discharged++; return; }
        double m = std::max(fabs(a.d), fabs(b.d));
        if (std::isfinite(a.d) && std::isfinite(b.d) && fabs(a.d - b.d) <= (double) (g_tol * 10) * m + (double) g_atol) { S_.discharged++; return; }
        char buf[128]; snprintf(buf, sizeof buf, "expected %.12g, code gives %.12g", b.d, a.d);
        throw Bug{id, buf};
    }
    bool spec = (a.k == Val::FP && !std::isfinite(a.d)) || (b.k == Val::FP && !std::isfinite(b.d));
    if (spec) throw Bug{id, "finite value expected/obtained where the other side is inf or NaN"};
    P pa = fpoly(a), pb = fpoly(b), d = X.sub(pa, pb);
    LD sc = std::max(maxCoef(pa), maxCoef(pb));
    auto prune = [&](const P& p, LD scale) -> P
    {
        auto r = std::make_shared<Poly>();
        for (auto& x : p->t) if (fabsl(x.second) > g_tol * scale + g_atol) r->t.push_back(x);
        return r;
    };
    P r = prune(d, sc);
    if (r->t.empty()) { s.pending.push_back(std::make_pair(d, id)); s.pendingEps.push_back(sc); return; }
    P cd = X.clearDenominators(d);
    P half = X.clearDenominators(X.sub(pa, X.scale(pb, 0.5L)));
    r = prune(cd, std::max(maxCoef(cd) * 1e-3L, maxCoef(half)));
    if (r->t.empty()) { s.pending.push_back(std::make_pair(cd, id)); s.pendingEps.push_back(std::max(maxCoef(cd), maxCoef(half))); return; }
    LD eps = g_tol * 100 * sc + g_atol * 10;
    CP up = mk(Cond::LT0, X.sub(X.constant(eps), d)), dn = mk(Cond::LT0, X.add(d, X.constant(eps)));
    Res r1 = solve(s.pc, &up, 0), r2 = solve(s.pc, &dn, 0);
    if (r1 == UNSAT && r2 == UNSAT) { S_.discharged++; return; }
    CP both = mk2(Cond::OR, up, dn);
    if (getenv("SYMSE_DIFF")) fprintf(stderr, "near %s: code %s\n   ref %s\n   diff %s\n", id.c_str(), X.str(pa).c_str(), X.str(pb).c_str(), X.str(r).c_str());
    if (!report(s, id, "value differs from the reference: difference " + X.str(r).substr(0, 300), &both, (double) (1e-3L * sc)))
    {
        S_.discharged++; return;
    }
    throw Kill{"violation"};
}
static void flushPending(State& s)
{
    // One linear query over box-abstracted monomials for all near checks of the path.
    size_t i = 0;
    while (i < s.pending.size())
    {
        auto t0 = Clock::now();
        z3::solver so(*Z);
        z3::expr_vector bad(*Z);
        std::map<int, z3::expr> mv;
        size_t j = i, terms = 0;
        for (; j < s.pending.size() && terms < 4000; ++j)
        {
            const P& d = s.pending[j].first;
            LD eps = s.pendingEps[j] * g_tol * 100 + g_atol * 100;
            z3::expr sum = Z->real_val(0);
            LD mxB = 1;
            for (auto& x : d->t)
            {
                ++terms;
                auto it = mv.find(x.first);
                LD lo, hi; X.interval(X.single(x.first, 1), lo, hi);
                LD B = std::max(fabsl(lo), fabsl(hi));
                if (!(B < 1e12L)) B = 1e12L;
                mxB = std::max(mxB, B);
                if (it == mv.end())
                {
                    z3::expr e = Z->real_const(("m!" + std::to_string(x.first)).c_str());
                    so.add(e <= zreal(B)); so.add(e >= zreal(-B));
                    it = mv.insert(std::make_pair(x.first, e)).first;
                }
                sum = sum + zreal(x.second) * it->second;
            }
            eps *= mxB * (LD) (d->t.size() + 1);
            bad.push_back(sum > zreal(eps) || sum < zreal(-eps));
        }
        so.add(z3::mk_or(bad));
        S_.queries++;
        z3::check_result r = so.check();
        S_.solver += secs(t0);
        if (r == z3::unsat) { S_.unsat++; S_.discharged += (long) (j - i); }
        else { if (r == z3::sat) S_.sat++; else S_.unknown++; S_.inconclusive["batched equality query"]++; }
        i = j;
    }
    s.pending.clear(); s.pendingEps.clear();
}
static void checkCond(State& s, const Val& c, const std::string& id)
{
    S_.checks++; S_.checkIds[id]++;
    if (c.k == Val::UNDEF) throw Bug{"uninit", "uninitialised value reaches check " + id};
    if (c.k == Val::INT) { if (c.i & 1) { S_.discharged++; return; } throw Bug{id, "assertion fails on this path"}; }
    CP nc = mkNot(c.cond());
    Res r = solve(s.pc, &nc, 0);
    if (r == UNSAT) { S_.discharged++; return; }
    if (report(s, id, "assertion can fail", &nc))
    {
        throw Kill{"violation"};
    }
    S_.discharged++;
}
static int g_heapSeq = 0;
static Val doMalloc(State& s, const Val& n, bool zero, const std::string& nm)
{
    if (n.k == Val::UNDEF) throw Bug{"uninit", "allocation of uninitialised size"};
    if (n.k == Val::BV)
    {
        // Large requests fail.
        CP big = mkZ(z3::ugt(n.bv(), Z->bv_val((uint64_t) 1 << 40, 64)));
        if (decide(s, big)) return vPtr(0, 0);
        int o = newObj(s, Obj::HEAP, 1ULL << 40, zero, nm);
        s.objs[o]->symSize = std::make_shared<z3::expr>(n.bv());
        return vPtr(o, 0);
    }
    int64_t k = argI(s, n, "allocation size");
    if (k < 0 || k > (1LL << 33)) return vPtr(0, 0);
    return vPtr(newObj(s, Obj::HEAP, (uint64_t) k, zero, nm), 0);
}
static void doFree(State& s, const Val& p, bool isNew)
{
    if (p.k == Val::UNDEF) throw Bug{"uninit", "free of an uninitialised pointer"};
    if (p.k != Val::PTR) throw Unsupported("free of non-pointer");
    if (p.obj == 0 && p.off == 0) return;
    if (p.obj == 0) throw Bug{"mem", "free of a wild pointer"};
    const Obj& o = *s.objs[p.obj];
    if (o.freed) throw Bug{"mem", "double free of " + objDesc(o)};
    if (o.kind != Obj::HEAP || p.off != 0) throw Bug{"mem", "free of memory not from the heap: " + objDesc(o)};
    if (!o.prot.empty()) throw Bug{"prot", "an input array that must stay intact is freed"};
    OP& w = objW(s, p.obj);
    w->freed = true; w->cells.clear();
}
// --------------------------------------------------------- OpenMP runtime
static int g_threads = 4, g_chunk = 0, g_gpu = 0, g_gpuBlock = 0;
static void raceReport(State& s, Team& t)
{
    if (!t.log) return;
    auto& L = *t.log;
    if (getenv("SYMSE_RACE")) { std::map<int,int> n; for (auto& a : L) n[a.tid * 1000 + a.epoch]++; fprintf(stderr, "team of %zu: %zu accesses:", t.th.size(), L.size()); for (auto& q : n) fprintf(stderr, " %d:%d", q.first, q.second); fprintf(stderr, "\n"); }
    // Group by object.
    std::map<int, std::vector<const Access*> > by;
    for (auto& a : L) by[a.obj].push_back(&a);
    for (auto& g : by)
    {
        auto& v = g.second;
        bool multi = false; int t0 = v[0]->tid; for (auto* a : v) if (a->tid != t0) { multi = true; break; }
        if (!multi) continue;
        std::sort(v.begin(), v.end(), [](const Access* a, const Access* b) { return a->off < b->off; });
        // Deduplicate.
        for (size_t i = 0; i < v.size(); ++i)
        {
            for (size_t j = i + 1; j < v.size() && v[j]->off < v[i]->off + (int64_t) v[i]->size; ++j)
            {
                const Access &a = *v[i], &b = *v[j];
                if (a.tid == b.tid || (!a.write && !b.write) || a.epoch != b.epoch) continue;
                if (a.atomic && b.atomic) continue;
                bool shared = false;
                if (!a.lock.empty() && !b.lock.empty())
                {
                    std::set<std::string> la; std::stringstream sa(a.lock), sb(b.lock); std::string x;
                    while (std::getline(sa, x, ';')) la.insert(x);
                    while (std::getline(sb, x, ';')) if (la.count(x)) shared = true;
                }
                if (shared) continue;
                if (t.gpu)
                {
                    // Threads of a warp run in lockstep (kernels that share memory); a plain read next to atomic updates is allowed.
                    if (t.gpu == 2 && (t.gpuBlock - 1 - a.tid) / 32 == (t.gpuBlock - 1 - b.tid) / 32) continue;
                    if ((!a.write && b.lock.find("$atomic") != std::string::npos) || (!b.write && a.lock.find("$atomic") != std::string::npos)) continue;
                }
                std::string w1 = a.where ? demangle(a.where->getFunction()->getName().str()) : "?", w2 = b.where ? demangle(b.where->getFunction()->getName().str()) : "?";
                int l1 = a.where && a.where->getDebugLoc() ? (int) a.where->getDebugLoc().getLine() : 0, l2 = b.where && b.where->getDebugLoc() ? (int) b.where->getDebugLoc().getLine() : 0;
                S_.checks++;
                throw Bug{"race", "threads " + std::to_string(a.tid) + " and " + std::to_string(b.tid) + " access " + objDesc(*s.objs[g.first]) + " offset " + std::to_string(a.off) + " concurrently without synchronisation (" + (a.write ? "write " : "read ") + w1 + ":" + std::to_string(l1) + ", " + (b.write ? "write " : "read ") + w2 + ":" + std::to_string(l2) + ")"};
            }
        }
    }
    S_.checks++; S_.discharged++;
}
static void scheduleTeam(State& s)
{
    // Called when the current thread cannot continue.
    for (;;)
    {
        Team& t = s.teams.back();
        if (s.teams.size() == 1) { return; }
        int n = (int) t.th.size();
        for (int k = 1; k <= n; ++k)
        {
            int c = (t.cur + k) % n;
            if (t.th[c].st == Thread::RUN) { t.cur = c; return; }
        }
        bool all = true, anyBar = false;
        for (auto& th : t.th) { if (th.st != Thread::DONE) all = false; if (th.st == Thread::BARRIER) anyBar = true; }
        if (all)
        {
            Team done = t;
            if (!done.serial) raceReport(s, done);
            s.teams.pop_back();
            finishCall(s, cast<CallBase>(&*s.F().it));
            return;
        }
        if (anyBar)
        {
            for (auto& th : t.th) { if (th.st == Thread::BARRIER) th.st = Thread::RUN; th.epoch++; }
            t.cur = n - 1;
        }
    }
}
static Type* T_i32() { return Type::getInt32Ty(M->getContext()); }
static Type* T_i64() { return Type::getInt64Ty(M->getContext()); }
static Type* T_f64() { return Type::getDoubleTy(M->getContext()); }
static Type* T_ptr() { return PointerType::get(M->getContext(), 0); }

enum CallRes { CR_NONE, CR_DONE, CR_PUSHED };
struct Ctx { State& s; const CallBase* cb; std::vector<Val>& a; Val ret; };

static Val cplx(const Val& re, const Val& im) { std::vector<Val> r; r.push_back(re); r.push_back(im); return vAgg(r); }

static std::string uniq(State& s, const std::string& n);
static P varFor(const std::string& n, LD lo, LD hi, bool isInt);
// A value chosen by the solver/fork, concrete afterwards.
static int64_t choice(State& s, const std::string& nm0, int64_t lo, int64_t hi)
{
    int k = s.nameCount[nm0];
    std::string nm = k == 0 ? nm0 : nm0 + "#" + std::to_string(k);
    P p = lo == hi ? X.constant(lo) : varFor(nm, (LD) lo, (LD) hi, true);
    int64_t v = concretise(s, p);
    s.nameCount[nm0]++;
    Input in; in.name = nm; in.kind = 2; in.conc = vInt((uint64_t) v, 32);
    s.inputs.push_back(in);
    return v;
}

static CallRes ompCall(Ctx& c, const std::string& n)
{
    State& s = c.s;
    if (n == "__kmpc_fork_call")
    {
        const Val& f = c.a[2];
        const Function* fn = s.objs[f.obj]->fn;
        Team t;
        int nth = s.pushNT > 0 ? s.pushNT : g_threads;
        s.pushNT = 0;
        bool alone = g_gpu != 0; // a kernel launched by the only thread of a team runs with all its threads
        for (size_t k = 1; k < s.teams.size(); ++k) if (s.teams[k].th.size() != 1) alone = false;
        if (s.teams.size() > 1 && !alone)
        {
            // Nested regions are not active: the encountering thread runs them alone.
            nth = 1;
            Team& out = s.teams.back();
            t.serial = true; t.log = out.log;
            t.logTid = out.serial ? out.logTid : out.th[out.cur].tid;
            t.logEpoch = out.serial ? out.logEpoch : out.th[out.cur].epoch;
        }
        else { t.log = std::make_shared<std::vector<Access> >(); t.gpu = g_gpu; t.gpuBlock = g_gpuBlock; }
        const std::multiset<std::string> held = s.T().locks;
        int gt = newObj(s, Obj::STACK, 4 * nth, false, "gtid");
        s.teams.push_back(t);
        for (int i = 0; i < nth; ++i)
        {
            Thread th; th.tid = i;
            if (t.serial) th.locks = held;
            s.teams.back().th.push_back(th);
        }
        for (int i = 0; i < nth; ++i)
        {
            s.teams.back().cur = i;
            auto lg = s.teams.back().log; s.teams.back().log.reset();
            store(s, vPtr(gt, 4 * i), T_i32(), vInt(i, 32));
            std::vector<Val> args;
            args.push_back(vPtr(gt, 4 * i)); args.push_back(vPtr(gt, 4 * i));
            for (size_t k = 3; k < c.a.size(); ++k) args.push_back(c.a[k]);
            pushFrame(s, fn, args, 0);
            s.teams.back().log = lg;
        }
        s.teams.back().cur = 0;
        return CR_PUSHED;
    }
    Thread& th = s.T();
    Team& team = s.teams.back();
    int nt = s.teams.size() > 1 ? (int) team.th.size() : 1;
    if (n == "__kmpc_global_thread_num" || n == "omp_get_thread_num") { c.ret = vInt(s.teams.size() > 1 ? th.tid : 0, 32); return CR_DONE; }
    if (n == "omp_get_max_threads" || n == "omp_get_num_procs") { c.ret = vInt(g_threads, 32); return CR_DONE; }
    if (n == "omp_get_num_threads") { c.ret = vInt(nt, 32); return CR_DONE; }
    if (n == "omp_get_wtime") { c.ret = vFP(0, 64); return CR_DONE; }
    if (n == "__kmpc_push_num_threads") { s.pushNT = (int) argI(s, c.a[2], "num_threads"); return CR_DONE; }
    if (n == "omp_set_max_active_levels") return CR_DONE;
    if (n == "omp_set_num_threads" || n == "__kmpc_for_static_fini" || n == "omp_set_dynamic" || n == "omp_set_nested") return CR_DONE;
    if (n == "omp_in_parallel") { c.ret = vInt(s.teams.size() > 1, 32); return CR_DONE; }
    if (n == "__kmpc_serialized_parallel" || n == "__kmpc_end_serialized_parallel") return CR_DONE;
    if (n.compare(0, 22, "__kmpc_for_static_init") == 0)
    {
        bool is8 = n[23] == '8', un = n.back() == 'u'; (void) un;
        Type* t = is8 ? T_i64() : T_i32();
        int64_t sched = argI(s, c.a[2], "schedule");
        Val lb = concInt(s, load(s, c.a[4], t)), ub = concInt(s, load(s, c.a[5], t));
        int64_t incr = argI(s, c.a[7], "incr"), chunk = argI(s, c.a[8], "chunk");
        int64_t L = sx(lb), U = sx(ub);
        int64_t trip = incr > 0 ? (U - L) / incr + 1 : (L - U) / (-incr) + 1;
        if ((incr > 0 && U < L) || (incr < 0 && U > L)) trip = 0;
        unsigned b = is8 ? 64 : 32;
        int last = 0;
        if (sched == 34 || sched == 0) // static
        {
            int64_t sm = trip / nt, ex = trip % nt;
            int64_t lo = th.tid * sm + std::min<int64_t>(th.tid, ex), cnt = sm + (th.tid < ex ? 1 : 0);
            if (cnt == 0) { store(s, c.a[4], t, vInt(L + trip * incr, b)); store(s, c.a[5], t, vInt(L + trip * incr - incr, b)); }
            else
            {
                store(s, c.a[4], t, vInt(L + lo * incr, b)); store(s, c.a[5], t, vInt(L + (lo + cnt - 1) * incr, b));
                last = lo + cnt == trip;
            }
            store(s, c.a[6], t, vInt(trip * incr, b));
        }
        else if (sched == 33) // static chunked
        {
            if (chunk < 1) chunk = 1;
            store(s, c.a[4], t, vInt(L + th.tid * chunk * incr, b));
            store(s, c.a[5], t, vInt(L + (th.tid + 1) * chunk * incr - incr, b));
            store(s, c.a[6], t, vInt(nt * chunk * incr, b));
            last = trip > 0 && ((trip - 1) / chunk) % nt == th.tid;
        }
        else throw Unsupported("OpenMP schedule " + std::to_string(sched));
        store(s, c.a[3], T_i32(), vInt(last, 32));
        return CR_DONE;
    }
    if (n.compare(0, 22, "__kmpc_dispatch_init_4") == 0 || n.compare(0, 22, "__kmpc_dispatch_init_8") == 0)
    {
        // Iterations are dealt round robin in chunks.
        bool is8 = n[21] == '8';
        Val st; 
        th.ws["lb"] = c.a[3]; th.ws["ub"] = c.a[4]; th.ws["st"] = c.a[5]; th.ws["ch"] = g_chunk > 0 ? vInt((uint64_t) g_chunk, is8 ? 64 : 32) : c.a[6]; th.ws["next"] = vInt(th.tid, 64);
        (void) is8;
        return CR_DONE;
    }
    if (n.compare(0, 22, "__kmpc_dispatch_next_4") == 0 || n.compare(0, 22, "__kmpc_dispatch_next_8") == 0)
    {
        bool is8 = n[21] == '8';
        Type* t = is8 ? T_i64() : T_i32(); unsigned b = is8 ? 64 : 32;
        int64_t L = argI(s, th.ws["lb"], "lb"), U = argI(s, th.ws["ub"], "ub"), st = argI(s, th.ws["st"], "st"), ch = argI(s, th.ws["ch"], "chunk");
        if (ch < 1) ch = 1;
        int64_t k = (int64_t) th.ws["next"].i;
        int64_t lo = L + k * ch * st, hi = lo + (ch - 1) * st;
        if ((st > 0 && lo > U) || (st < 0 && lo < U)) { c.ret = vInt(0, 32); return CR_DONE; }
        bool last = false;
        if ((st > 0 && hi >= U) || (st < 0 && hi <= U)) { hi = U; last = true; }
        store(s, c.a[2], T_i32(), vInt(last, 32));
        store(s, c.a[3], t, vInt(lo, b)); store(s, c.a[4], t, vInt(hi, b)); store(s, c.a[5], t, vInt(st, b));
        th.ws["next"] = vInt(k + nt, 64);
        c.ret = vInt(1, 32);
        return CR_DONE;
    }
    if (n.compare(0, 19, "__kmpc_dispatch_fin") == 0 || n == "__kmpc_dispatch_deinit") return CR_DONE;
    if (n == "__kmpc_barrier" || n == "__kmpc_cancel_barrier")
    {
        c.ret = vInt(0, 32);
        if (s.teams.size() < 2) return CR_DONE;
        if (!c.cb->getType()->isVoidTy()) setVal(s, c.cb, c.ret);
        finishCall(s, c.cb);
        s.T().st = Thread::BARRIER;
        scheduleTeam(s);
        return CR_PUSHED;
    }
    if (n == "omp_set_lock" && s.sched && s.teams.size() > 1 && !team.serial)
    {
        // Any other thread that can run may go first.
        std::vector<int> oth;
        for (int i = 0; i < (int) team.th.size(); ++i) if (i != team.cur && team.th[i].st == Thread::RUN) oth.push_back(i);
        if (th.locks.empty() && !th.yielded && !oth.empty())
        {
            const int64_t k = choice(s, "sched", 0, (int64_t) oth.size());
            if (k)
            {
                s.T().yielded = true;
                s.teams.back().cur = oth[k - 1];
                return CR_PUSHED;
            }
        }
        s.T().yielded = false;
        s.T().locks.insert("c" + std::to_string(bitsOf(c.a[0])));
        return CR_DONE;
    }
    if (n == "__kmpc_critical" || n == "__kmpc_critical_with_hint" || n == "omp_set_lock") { th.locks.insert("c" + std::to_string(bitsOf(c.a.size() > 2 ? c.a[2] : c.a[0]))); return CR_DONE; }
    if (n == "__kmpc_end_critical" || n == "omp_unset_lock") { auto it = th.locks.find("c" + std::to_string(bitsOf(c.a.size() > 2 ? c.a[2] : c.a[0]))); if (it != th.locks.end()) th.locks.erase(it); return CR_DONE; }
    if (n == "omp_init_lock" || n == "omp_destroy_lock") return CR_DONE;
    if (n == "__kmpc_single" || n == "__kmpc_master" || n == "__kmpc_masked") { c.ret = vInt(th.tid == 0, 32); return CR_DONE; }
    if (n == "__kmpc_end_single" || n == "__kmpc_end_master" || n == "__kmpc_end_masked") return CR_DONE;
    if (n == "__kmpc_reduce" || n == "__kmpc_reduce_nowait") { th.locks.insert("reduce"); c.ret = vInt(1, 32); return CR_DONE; }
    if (n == "__kmpc_end_reduce" || n == "__kmpc_end_reduce_nowait")
    {
        th.locks.erase("reduce");
        if (n == "__kmpc_end_reduce" && s.teams.size() > 1)
        {
            finishCall(s, c.cb); s.T().st = Thread::BARRIER; scheduleTeam(s); return CR_PUSHED;
        }
        return CR_DONE;
    }
    if (n == "__kmpc_flush") return CR_DONE;
    throw Unsupported("OpenMP runtime function " + n);
}
// printf formatting of known integers and strings.
static bool formatted(State& s, std::vector<Val>& a, size_t fmt, std::string& out)
{
    const std::string f = cstr(s, a[fmt]);
    size_t k = fmt + 1;
    for (size_t i = 0; i < f.size(); ++i)
    {
        if (f[i] != '%') { out += f[i]; continue; }
        size_t j = i + 1;
        while (j < f.size() && (isdigit(f[j]) || f[j] == 'l' || f[j] == 'z' || f[j] == '-' || f[j] == '.')) ++j;
        if (j >= f.size()) return false;
        if (f[j] == '%') { out += '%'; i = j; continue; }
        if (k >= a.size()) return false;
        char buf[64];
        if ((f[j] == 'd' || f[j] == 'u' || f[j] == 'i') && a[k].k == Val::INT) { const long long v = a[k].bits == 32 ? (f[j] == 'u' ? (long long) (uint32_t) a[k].i : (long long) (int32_t) a[k].i) : (long long) a[k].i; snprintf(buf, sizeof buf, "%lld", v); out += buf; }
        else if (f[j] == 's' && a[k].k == Val::PTR && a[k].obj) out += cstr(s, a[k]);
        else return false;
        ++k; i = j;
    }
    return true;
}
static CallRes builtin(Ctx& c, const std::string& n)
{
    State& s = c.s; auto& a = c.a;
    Type* rt = c.cb->getType();
    // ---------------------------------------------------------- harness
    if (n.compare(0, 4, "sym_") == 0)
    {
        if (n == "sym_double" || n == "sym_float")
        {
            std::string nm = uniq(s, cstr(s, a[0]));
            if (a[1].k != Val::FP || a[2].k != Val::FP) throw Unsupported("symbolic bounds");
            P p = varFor(nm, a[1].d, a[2].d, false);
            Input in; in.name = nm; in.kind = 0; in.p = p; in.lo = a[1].d; in.hi = a[2].d;
            s.inputs.push_back(in);
            c.ret = vPF(p, n == "sym_float" ? 32 : 64);
            return CR_DONE;
        }
        if (n == "sym_int" || n == "sym_i64")
        {
            std::string nm = uniq(s, cstr(s, a[0]));
            int64_t lo = argI(s, a[1], "bound"), hi = argI(s, a[2], "bound");
            P p = lo == hi ? X.constant(lo) : varFor(nm, (LD) lo, (LD) hi, true);
            Input in; in.name = nm; in.kind = 1; in.p = p; in.lo = lo; in.hi = hi;
            s.inputs.push_back(in);
            c.ret = vPI(p, n == "sym_int" ? 32 : 64);
            return CR_DONE;
        }
        if (n == "sym_choice")
        {
            const int64_t lo = argI(s, a[1], "bound"), hi = argI(s, a[2], "bound");
            const int64_t v = choice(s, cstr(s, a[0]), lo, hi);
            c.ret = vInt((uint64_t) v, 32);
            return CR_DONE;
        }
        if (n == "sym_bv64" || n == "sym_bv32")
        {
            unsigned b = n == "sym_bv64" ? 64 : 32;
            std::string nm = uniq(s, cstr(s, a[0]));
            z3::expr e = Z->bv_const(("bv_" + nm).c_str(), b);
            Input in; in.name = nm; in.kind = 3;
            in.e = std::make_shared<z3::expr>(b == 32 ? z3::sext(e, 32) : e);
            s.inputs.push_back(in);
            c.ret = vBV(e, b);
            return CR_DONE;
        }
        if (n == "sym_assume")
        {
            if (a[0].k == Val::UNDEF) throw Unsupported("assume of undefined");
            if (a[0].k == Val::INT) { if (!(a[0].i & 1)) throw Kill{"assume"}; return CR_DONE; }
            CP cd = a[0].cond();
            if (solve(s.pc, &cd, 0) == UNSAT) throw Kill{"assume"};
            s.pc.push_back(cd);
            return CR_DONE;
        }
        if (n == "sym_check") { checkCond(s, a[0], cstr(s, a[1])); return CR_DONE; }
        if (n == "sym_near") { nearCheck(s, a[0], a[1], cstr(s, a[2])); return CR_DONE; }
        if (n == "sym_nearf") { nearCheck(s, a[0], a[1], cstr(s, a[2])); return CR_DONE; }
        if (n == "sym_tol") { g_tol = (LD) a[0].d; return CR_DONE; }
        if (n == "sym_atol") { g_atol = (LD) a[0].d; return CR_DONE; }
        if (n == "sym_cfg")
        {
            std::string k = cstr(s, a[0]);
            auto it = g_cfg.find(k);
            c.ret = vInt((uint64_t) (it == g_cfg.end() ? argI(s, a[1], "default") : it->second), 32);
            return CR_DONE;
        }
        if (n == "sym_traced") { s.trace += " " + cstr(s, a[0]) + "=" + (a[1].k == Val::FP ? std::to_string(a[1].d) : X.str(fpoly(a[1])).substr(0, 80)); return CR_DONE; }
        if (n == "sym_trace") { s.trace += " " + cstr(s, a[0]) + "=" + std::to_string(argI(s, a[1], "trace")); return CR_DONE; }
        if (n == "sym_reach") { S_.reached.insert(cstr(s, a[0])); return CR_DONE; }
        if (n == "sym_protect" || n == "sym_unprotect")
        {
            if (a[0].k != Val::PTR || a[0].obj == 0) return CR_DONE;
            int64_t sz = argI(s, a[1], "size");
            OP& o = objW(s, a[0].obj);
            if (n == "sym_protect") o->prot.push_back(std::make_pair(a[0].off, a[0].off + sz));
            else o->prot.clear();
            return CR_DONE;
        }
        if (n == "sym_leak_begin") { s.leakBase = (int) s.objs.size(); return CR_DONE; }
        if (n == "sym_leak_check")
        {
            S_.checks++;
            for (size_t i = (size_t) std::max(0, s.leakBase); i < s.objs.size(); ++i)
                if (s.objs[i] && s.objs[i]->kind == Obj::HEAP && !s.objs[i]->freed) throw Bug{"leak", "memory leak: " + objDesc(*s.objs[i])};
            S_.discharged++;
            return CR_DONE;
        }
        if (n == "sym_is_symbolic") { c.ret = vInt(1, 32); return CR_DONE; }
        if (n == "sym_alloc_size")
        {
            if (a[0].k != Val::PTR || a[0].obj == 0) { c.ret = vInt(0, 64); return CR_DONE; }
            const Obj& o = *s.objs[a[0].obj];
            c.ret = o.symSize ? vBV(*o.symSize, 64) : vInt(o.size, 64);
            return CR_DONE;
        }
        if (n == "sym_poison") // make a range undefined again
        {
            int64_t sz = argI(s, a[1], "size");
            setMem(s, a[0], Val(), (uint64_t) sz);
            return CR_DONE;
        }
        if (n == "sym_concrete") { Val v = concInt(s, a[0]); c.ret = v; return CR_DONE; }
        if (n == "sym_is_undef") { c.ret = vInt(a[0].k == Val::UNDEF, 1); return CR_DONE; }
        if (n == "sym_sched") { s.sched = argI(s, a[0], "sched") != 0; return CR_DONE; }
        if (n == "sym_pin") { g_pin = argI(s, a[0], "pin") != 0; return CR_DONE; }
        if (n == "sym_chunk") { g_chunk = (int) argI(s, a[0], "chunk"); return CR_DONE; }
        if (n == "sym_gpu") { g_gpu = (int) argI(s, a[0], "kind"); g_gpuBlock = (int) argI(s, a[1], "size"); return CR_DONE; }
        if (n == "sym_atomic") { if (argI(s, a[0], "atomic")) s.T().locks.insert("$atomic"); else s.T().locks.erase("$atomic"); return CR_DONE; }
        if (n == "sym_threads") { g_threads = (int) argI(s, a[0], "threads"); return CR_DONE; }
        if (n == "sym_print") { fprintf(stderr, "print %s: ", cstr(s, a[0]).c_str()); if (a[1].k == Val::FP) fprintf(stderr, "%.15g\n", a[1].d); else if (a[1].k == Val::PFP) fprintf(stderr, "%s\n", X.str(a[1].poly()).c_str()); else fprintf(stderr, "kind %d\n", a[1].k); return CR_DONE; }
        if (n == "sym_log_start") { s.logging = true; s.logs.clear(); return CR_DONE; }
        if (n == "sym_log_count") { c.ret = vInt(s.logs.size(), 32); return CR_DONE; }
        if (n == "sym_log_args" || n == "sym_log_len" || n == "sym_log_char" || n == "sym_log_double")
        {
            const size_t r = (size_t) argI(s, a[0], "record");
            if (r >= s.logs.size()) throw Unsupported("no such log message");
            if (n == "sym_log_args") { c.ret = vInt(s.logs[r].size(), 32); return CR_DONE; }
            const size_t k = (size_t) argI(s, a[1], "argument");
            if (k >= s.logs[r].size()) throw Unsupported("no such argument of the log message");
            const LogArg& l = s.logs[r][k];
            if (n == "sym_log_len") { c.ret = vInt((uint64_t) (l.str ? (int64_t) l.s.size() : -1), 32); return CR_DONE; }
            if (n == "sym_log_char") { const size_t i = (size_t) argI(s, a[2], "position"); c.ret = vInt((uint64_t) (unsigned char) (i < l.s.size() ? l.s[i] : 0), 32); return CR_DONE; }
            c.ret = l.v; // a number of floating point type
            if (c.ret.k == Val::INT || c.ret.k == Val::PTR) c.ret = vFP(0.0, 64);
            return CR_DONE;
        }
        throw Unsupported("unknown harness function " + n);
    }
    if (n.compare(0, 7, "__kmpc_") == 0 || n.compare(0, 4, "omp_") == 0) return ompCall(c, n);
    if (n == "sdp_log_message" && s.logging)
    {
        std::vector<LogArg> rec;
        for (size_t i = 6; i < a.size(); ++i)
        {
            LogArg l;
            if (a[i].k == Val::PTR) { l.str = true; l.s = cstr(s, a[i]); } else l.v = a[i];
            rec.push_back(l);
        }
        s.logs.push_back(rec);
        if (!rt->isVoidTy()) c.ret = vInt(0, tbits(rt));
        return CR_DONE;
    }
    if (n == "sdp_log_message" || n.compare(0, 15, "_ZL15sdp_log_me") == 0 || n.find("sdp_log_message") != std::string::npos) { if (!rt->isVoidTy()) c.ret = vInt(0, tbits(rt)); return CR_DONE; }
    // ------------------------------------------------------- allocation
    if (n == "malloc") { c.ret = doMalloc(s, a[0], false, "malloc"); return CR_DONE; }
    if (n == "_Znwm" || n == "_Znam" || n == "_ZnwmRKSt9nothrow_t" || n == "_ZnamRKSt9nothrow_t") { c.ret = doMalloc(s, a[0], false, "new"); if (c.ret.obj == 0) throw Bug{"abort", "operator new fails (std::bad_alloc)"}; return CR_DONE; }
    if (n == "calloc")
    {
        if (a[0].k == Val::BV || a[1].k == Val::BV)
        {
            z3::expr x = toBV(a[0]), y = toBV(a[1]);
            CP over = mkZ(!z3::bvmul_no_overflow(x, y, false));
            if (decide(s, over)) { c.ret = vPtr(0, 0); return CR_DONE; }
            c.ret = doMalloc(s, vBV(x * y, 64), true, "calloc");
            return CR_DONE;
        }
        int64_t x = argI(s, a[0], "size"), y = argI(s, a[1], "size");
        __int128 w = (__int128) (uint64_t) x * (uint64_t) y;
        if (w > ((__int128) 1 << 33)) { c.ret = vPtr(0, 0); return CR_DONE; }
        c.ret = doMalloc(s, vInt((uint64_t) w, 64), true, "calloc");
        return CR_DONE;
    }
    if (n == "realloc")
    {
        Val p = doMalloc(s, a[1], false, "realloc");
        if (a[0].k == Val::PTR && a[0].obj)
        {
            uint64_t k = std::min(s.objs[a[0].obj]->size, s.objs[p.obj]->size);
            if (s.objs[a[0].obj]->freed) throw Bug{"mem", "realloc of freed memory"};
            copyMem(s, p, a[0], k);
            doFree(s, a[0], false);
        }
        c.ret = p;
        return CR_DONE;
    }
    if (n == "free" || n.compare(0, 5, "_ZdlP") == 0 || n.compare(0, 5, "_ZdaP") == 0) { doFree(s, a[0], false); return CR_DONE; }
    if (n == "memcpy" || n == "memmove") { int64_t k = argI(s, a[2], "size"); copyMem(s, a[0], a[1], (uint64_t) k); c.ret = a[0]; return CR_DONE; }
    if (n == "memset") { int64_t k = argI(s, a[2], "size"); setMem(s, a[0], a[1], (uint64_t) k); c.ret = a[0]; return CR_DONE; }
    if (n == "strlen") { c.ret = vInt(cstr(s, a[0]).size(), 64); return CR_DONE; }
    if (n == "strcmp" || n == "strncmp")
    {
        std::string x = cstr(s, a[0]), y = cstr(s, a[1]);
        int r = n == "strcmp" ? strcmp(x.c_str(), y.c_str()) : strncmp(x.c_str(), y.c_str(), (size_t) argI(s, a[2], "n"));
        c.ret = vInt((uint64_t) (int64_t) (r < 0 ? -1 : r > 0), 32);
        return CR_DONE;
    }
    if (n == "strchr") { std::string x = cstr(s, a[0]); size_t p = x.find((char) argI(s, a[1], "c")); c.ret = p == std::string::npos ? vPtr(0, 0) : vPtr(a[0].obj, a[0].off + (int64_t) p); return CR_DONE; }
    if (n == "memcmp" || n == "bcmp")
    {
        int64_t k = argI(s, a[2], "n"); int r = 0;
        Type* i8 = Type::getInt8Ty(M->getContext());
        for (int64_t i = 0; i < k && !r; ++i)
        {
            Val x = load(s, vPtr(a[0].obj, a[0].off + i), i8), y = load(s, vPtr(a[1].obj, a[1].off + i), i8);
            if (x.k != Val::INT || y.k != Val::INT) throw Unsupported("memcmp of symbolic memory");
            r = (int) x.i - (int) y.i;
        }
        c.ret = vInt((uint64_t) (int64_t) r, 32);
        return CR_DONE;
    }
    if (n == "printf" || n == "fprintf" || n == "puts" || n == "fflush" || n == "putchar" || n == "fputs" || n == "fwrite" || n == "vfprintf" || n == "fputc" || n == "snprintf" || n == "__assert_fail" || n == "vsnprintf")
    {
        if (n == "__assert_fail") throw Bug{"abort", "assertion failure: " + cstr(s, a[0])};
        if (n == "snprintf" || n == "vsnprintf")
        {
            std::string out;
            int64_t nn = argI(s, a[1], "n");
            if (n == "snprintf" && formatted(s, a, 2, out))
            {
                for (int64_t i = 0; i < nn && i <= (int64_t) out.size(); ++i)
                    store(s, vPtr(a[0].obj, a[0].off + i), Type::getInt8Ty(M->getContext()), vInt(i < nn - 1 && i < (int64_t) out.size() ? (unsigned char) out[(size_t) i] : 0, 8));
                c.ret = vInt(out.size(), 32);
                return CR_DONE;
            }
            if (nn > 0) store(s, a[0], Type::getInt8Ty(M->getContext()), vInt(0, 8));
        }
        if (!rt->isVoidTy()) c.ret = vInt(0, tbits(rt));
        return CR_DONE;
    }
    if (n == "abort" || n == "exit" || n == "_exit" || n == "_ZSt9terminatev" || n == "__cxa_throw" || n == "__cxa_pure_virtual" || (n.compare(0, 4, "_ZSt") == 0 && n.size() > 6 && n.compare(6, 8, "__throw_") == 0))
        throw Bug{"abort", "abnormal termination: " + demangle(n)};
    if (n == "__cxa_atexit" || n == "atexit") { c.ret = vInt(0, 32); return CR_DONE; }
    if (n == "__cxa_guard_acquire")
    {
        Val g = load(s, a[0], Type::getInt8Ty(M->getContext()));
        c.ret = vInt(!(g.k == Val::INT && (g.i & 1)), 32);
        return CR_DONE;
    }
    if (n == "__cxa_guard_release") { store(s, a[0], Type::getInt8Ty(M->getContext()), vInt(1, 8)); return CR_DONE; }
    if (n == "_ZNSt8ios_base4InitC1Ev" || n == "_ZNSt8ios_base4InitD1Ev") return CR_DONE;
    if (n == "getenv") { c.ret = vPtr(0, 0); return CR_DONE; }
    if (n == "isatty" || n == "fileno") { c.ret = vInt(0, 32); return CR_DONE; }
    if (n.compare(0, 14, "pthread_mutex_") == 0)
    {
        if (n == "pthread_mutex_lock") s.T().locks.insert("m" + std::to_string(bitsOf(a[0])));
        if (n == "pthread_mutex_unlock") { auto it = s.T().locks.find("m" + std::to_string(bitsOf(a[0]))); if (it != s.T().locks.end()) s.T().locks.erase(it); }
        c.ret = vInt(0, 32); return CR_DONE;
    }
    if (n == "__gthread_active_p" || n == "_ZL18__gthread_active_pv") { c.ret = vInt(1, 32); return CR_DONE; }
    // ------------------------------------------------------------- maths
    {
        std::string m = n;
        bool f32 = false;
        if (m.size() > 1 && m.back() == 'f' && rt->isFloatTy()) { m = m.substr(0, m.size() - 1); f32 = true; }
        (void) f32;
        static const std::set<std::string> un = {"sin", "cos", "tan", "exp", "exp2", "sqrt", "floor", "ceil", "round", "trunc", "rint", "nearbyint", "fabs", "asin", "acos", "atan", "log", "log2", "log10", "cosh", "sinh", "tanh", "cbrt", "lgamma", "tgamma"};
        if (un.count(m) && rt->isFloatingPointTy()) { c.ret = mathFn(s, m, a[0]); return CR_DONE; }
        if (m == "pow" && rt->isFloatingPointTy()) { c.ret = powFn(s, a[0], a[1]); return CR_DONE; }
        if (m == "fmod" && rt->isFloatingPointTy()) { c.ret = fpBin(s, Instruction::FRem, a[0], a[1], tbits(rt)); return CR_DONE; }
        if (m == "hypot" && rt->isFloatingPointTy())
        {
            if (a[0].k == Val::FP && a[1].k == Val::FP) { c.ret = vFP(hypot(a[0].d, a[1].d), tbits(rt)); return CR_DONE; }
            Val x = fpBin(s, Instruction::FMul, a[0], a[0], tbits(rt)), y = fpBin(s, Instruction::FMul, a[1], a[1], tbits(rt));
            c.ret = mathFn(s, "sqrt", fpBin(s, Instruction::FAdd, x, y, tbits(rt)));
            return CR_DONE;
        }
        if (m == "atan2" && rt->isFloatingPointTy())
        {
            if (a[0].k == Val::UNDEF || a[1].k == Val::UNDEF) { c.ret = undef(tbits(rt)); return CR_DONE; }
            if (a[0].k == Val::FP && a[1].k == Val::FP) { c.ret = vFP(atan2(a[0].d, a[1].d), tbits(rt)); return CR_DONE; }
            std::vector<P> ar; ar.push_back(fpoly(a[0])); ar.push_back(fpoly(a[1]));
            c.ret = vPF(X.uf("atan2", ar), tbits(rt)); return CR_DONE;
        }
        if ((m == "fmax" || m == "fmin") && rt->isFloatingPointTy())
        {
            if (a[0].k == Val::FP && std::isnan(a[0].d)) { c.ret = a[1]; return CR_DONE; }
            if (a[1].k == Val::FP && std::isnan(a[1].d)) { c.ret = a[0]; return CR_DONE; }
            Val q = fcmp(s, m == "fmax" ? FCmpInst::FCMP_OGT : FCmpInst::FCMP_OLT, a[0], a[1]);
            c.ret = selectV(s, q, a[0], a[1]); return CR_DONE;
        }
        if (m == "ldexp" || m == "scalbn") { int64_t e = argI(s, a[1], "exponent"); if (a[0].k == Val::FP) c.ret = vFP(ldexp(a[0].d, (int) e), tbits(rt)); else c.ret = vPF(X.scale(fpoly(a[0]), powl(2, e)), tbits(rt)); return CR_DONE; }
        if (m == "modf" || m == "frexp") { throw Unsupported(m); }
        if (n == "sincos" || n == "sincosf")
        {
            bool f = n == "sincosf"; Type* t = f ? Type::getFloatTy(M->getContext()) : T_f64();
            Val sv = mathFn(s, "sin", a[0]), cv = mathFn(s, "cos", a[0]);
            store(s, a[1], t, sv); store(s, a[2], t, cv);
            return CR_DONE;
        }
        if (n == "lround" || n == "lroundf" || n == "llround") { c.ret = fpToInt(s, mathFn(s, "round", a[0]), 64, true); return CR_DONE; }
        if (n == "lrint" || n == "llrint") { c.ret = fpToInt(s, mathFn(s, "rint", a[0]), 64, true); return CR_DONE; }
        if (n == "abs" || n == "labs") { Val z = icmp(s, ICmpInst::ICMP_SLT, a[0], vInt(0, tbits(rt)), tbits(rt)); Val ng = intBin(s, Instruction::Sub, vInt(0, tbits(rt)), a[0], tbits(rt), true, false); c.ret = selectV(s, z, ng, a[0]); return CR_DONE; }
        // Complex helpers: double as two scalars, float packed in <2 x float>.
        auto unpack = [&](size_t& k, Val& re, Val& im, bool f)
        {
            if (f) { if (a[k].k == Val::UNDEF) { re = im = Val(); } else { re = a[k].agg()[0]; im = a[k].agg()[1]; } k += 1; }
            else { re = a[k]; im = a[k + 1]; k += 2; }
        };
        if (n == "cexp" || n == "cexpf" || n == "cabs" || n == "cabsf" || n == "carg" || n == "cargf" || n == "csqrt" || n == "csqrtf" || n == "clog" || n == "clogf" || n == "cpow" || n == "cpowf")
        {
            bool f = n.back() == 'f'; std::string q = f ? n.substr(0, n.size() - 1) : n;
            unsigned b = f ? 32 : 64;
            size_t k = 0; Val re, im; unpack(k, re, im, f);
            if (q == "cexp")
            {
                Val e = mathFn(s, "exp", re), co = mathFn(s, "cos", im), si = mathFn(s, "sin", im);
                c.ret = cplx(fpBin(s, Instruction::FMul, e, co, b), fpBin(s, Instruction::FMul, e, si, b));
                return CR_DONE;
            }
            if (q == "cabs")
            {
                if (re.k == Val::FP && im.k == Val::FP) { c.ret = vFP(hypot(re.d, im.d), b); return CR_DONE; }
                Val x = fpBin(s, Instruction::FMul, re, re, b), y = fpBin(s, Instruction::FMul, im, im, b);
                c.ret = mathFn(s, "sqrt", fpBin(s, Instruction::FAdd, x, y, b));
                return CR_DONE;
            }
            if (q == "carg")
            {
                if (re.k == Val::UNDEF || im.k == Val::UNDEF) { c.ret = undef(b); return CR_DONE; }
                if (re.k == Val::FP && im.k == Val::FP) { c.ret = vFP(atan2(im.d, re.d), b); return CR_DONE; }
                std::vector<P> ar; ar.push_back(fpoly(im)); ar.push_back(fpoly(re));
                c.ret = vPF(X.uf("atan2", ar), b); return CR_DONE;
            }
            throw Unsupported(n);
        }
        if (n == "__muldc3" || n == "__mulsc3" || n == "__divdc3" || n == "__divsc3")
        {
            unsigned b = n[n.size() - 3] == 's' ? 32 : 64;
            Val ar = a[0], ai = a[1], br = a[2], bi = a[3];
            auto mul = [&](const Val& x, const Val& y) { return fpBin(s, Instruction::FMul, x, y, b); };
            auto add = [&](const Val& x, const Val& y) { return fpBin(s, Instruction::FAdd, x, y, b); };
            auto sub = [&](const Val& x, const Val& y) { return fpBin(s, Instruction::FSub, x, y, b); };
            Val re, im;
            if (n.compare(0, 5, "__mul") == 0) { re = sub(mul(ar, br), mul(ai, bi)); im = add(mul(ar, bi), mul(ai, br)); }
            else
            {
                Val d = add(mul(br, br), mul(bi, bi));
                re = fpBin(s, Instruction::FDiv, add(mul(ar, br), mul(ai, bi)), d, b);
                im = fpBin(s, Instruction::FDiv, sub(mul(ai, br), mul(ar, bi)), d, b);
            }
            c.ret = cplx(re, im);
            return CR_DONE;
        }
    }
    if ((n == "gettimeofday" || n == "clock_gettime") && M->getFunction(n) && !M->getFunction(n)->isDeclaration()) return CR_NONE;
    if (n == "time" || n == "clock" || n == "gettimeofday" || n == "clock_gettime")
    {
        std::string nm = uniq(s, "clock");
        (void) nm;
        if (n == "clock_gettime" || n == "gettimeofday")
        {
            store(s, vPtr(a[n == "clock_gettime" ? 1 : 0].obj, a[n == "clock_gettime" ? 1 : 0].off), T_i64(), vInt(0, 64));
            store(s, vPtr(a[n == "clock_gettime" ? 1 : 0].obj, a[n == "clock_gettime" ? 1 : 0].off + 8), T_i64(), vInt(0, 64));
        }
        c.ret = vInt(0, tbits(rt)); return CR_DONE;
    }
    return CR_NONE;
}
static Val vecMap(State& s, Type* t, const std::vector<Val>& a, const std::function<Val(const std::vector<Val>&, Type*)>& f)
{
    if (auto* vt = dyn_cast<FixedVectorType>(t))
    {
        std::vector<Val> r;
        for (unsigned i = 0; i < vt->getNumElements(); ++i)
        {
            std::vector<Val> e;
            for (auto& x : a) e.push_back(x.k == Val::AGG ? x.agg()[i] : x);
            r.push_back(f(e, vt->getElementType()));
        }
        return vAgg(r);
    }
    return f(a, t);
}
static CallRes intrinsic(Ctx& c, const IntrinsicInst* ii)
{
    State& s = c.s; auto& a = c.a; Type* rt = ii->getType();
    Intrinsic::ID id = ii->getIntrinsicID();
    auto un = [&](const char* nm) { c.ret = vecMap(s, rt, a, [&](const std::vector<Val>& e, Type*) { return mathFn(s, nm, e[0]); }); return CR_DONE; };
    switch (id)
    {
    case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::dbg_assign:
    case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::var_annotation: case Intrinsic::prefetch:
    case Intrinsic::lifetime_end: case Intrinsic::stackrestore: case Intrinsic::vaend: case Intrinsic::assume: case Intrinsic::donothing:
    case Intrinsic::invariant_end:
        return CR_DONE;
    case Intrinsic::lifetime_start:
        if (a[1].k == Val::PTR && a[1].obj && a[1].off == 0)
        {
            OP& o = objW(s, a[1].obj);
            if (o->kind == Obj::STACK && !o->freed) o->cells.clear();
        }
        return CR_DONE;
    case Intrinsic::invariant_start: c.ret = vPtr(0, 0); return CR_DONE;
    case Intrinsic::stacksave: c.ret = vPtr(0, 0); return CR_DONE;
    case Intrinsic::vastart: throw Unsupported("va_start");
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline:
    {
        int64_t n = argI(s, a[2], "copy size");
        copyMem(s, a[0], a[1], (uint64_t) n);
        return CR_DONE;
    }
    case Intrinsic::memset: case Intrinsic::memset_inline:
    {
        int64_t n = argI(s, a[2], "fill size");
        setMem(s, a[0], a[1], (uint64_t) n);
        return CR_DONE;
    }
    case Intrinsic::fabs: return un("fabs");
    case Intrinsic::sqrt: return un("sqrt");
    case Intrinsic::floor: return un("floor");
    case Intrinsic::ceil: return un("ceil");
    case Intrinsic::round: return un("round");
    case Intrinsic::trunc: return un("trunc");
    case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: return un("rint");
    case Intrinsic::sin: return un("sin");
    case Intrinsic::cos: return un("cos");
    case Intrinsic::exp: return un("exp");
    case Intrinsic::exp2: return un("exp2");
    case Intrinsic::log: return un("log");
    case Intrinsic::log2: return un("log2");
    case Intrinsic::log10: return un("log10");
    case Intrinsic::pow: c.ret = powFn(s, a[0], a[1]); return CR_DONE;
    case Intrinsic::powi: c.ret = powFn(s, a[0], vFP((double) argI(s, a[1], "exponent"), 64)); return CR_DONE;
    case Intrinsic::ldexp: { int64_t e = argI(s, a[1], "exponent"); if (a[0].k == Val::FP) c.ret = vFP(ldexp(a[0].d, (int) e), tbits(rt)); else c.ret = vPF(X.scale(fpoly(a[0]), powl(2, e)), tbits(rt)); return CR_DONE; }
    case Intrinsic::fma: case Intrinsic::fmuladd:
        c.ret = vecMap(s, rt, a, [&](const std::vector<Val>& e, Type* t) { return fpBin(s, Instruction::FAdd, fpBin(s, Instruction::FMul, e[0], e[1], tbits(t)), e[2], tbits(t)); });
        return CR_DONE;
    case Intrinsic::maxnum: case Intrinsic::minnum: case Intrinsic::maximum: case Intrinsic::minimum:
        c.ret = vecMap(s, rt, a, [&](const std::vector<Val>& e, Type*)
        {
            if (e[0].k == Val::FP && std::isnan(e[0].d)) return e[1];
            if (e[1].k == Val::FP && std::isnan(e[1].d)) return e[0];
            bool mx = id == Intrinsic::maxnum || id == Intrinsic::maximum;
            return selectV(s, fcmp(s, mx ? FCmpInst::FCMP_OGT : FCmpInst::FCMP_OLT, e[0], e[1]), e[0], e[1]);
        });
        return CR_DONE;
    case Intrinsic::copysign:
        c.ret = vecMap(s, rt, a, [&](const std::vector<Val>& e, Type* t) -> Val
        {
            if (e[0].k == Val::UNDEF || e[1].k == Val::UNDEF) return undef(tbits(t));
            Val m = mathFn(s, "fabs", e[0]);
            bool neg = e[1].k == Val::FP ? std::signbit(e[1].d) : decide(s, mk(Cond::LT0, fpoly(e[1])));
            return neg ? fnegV(m) : m;
        });
        return CR_DONE;
    case Intrinsic::abs:
        c.ret = vecMap(s, rt, a, [&](const std::vector<Val>& e, Type* t)
        {
            unsigned b = tbits(t);
            Val z = icmp(s, ICmpInst::ICMP_SLT, e[0], vInt(0, b), b);
            return selectV(s, z, intBin(s, Instruction::Sub, vInt(0, b), e[0], b, false, false), e[0]);
        });
        return CR_DONE;
    case Intrinsic::smax: case Intrinsic::smin: case Intrinsic::umax: case Intrinsic::umin:
        c.ret = vecMap(s, rt, a, [&](const std::vector<Val>& e, Type* t)
        {
            unsigned p = id == Intrinsic::smax ? ICmpInst::ICMP_SGT : id == Intrinsic::smin ? ICmpInst::ICMP_SLT : id == Intrinsic::umax ? ICmpInst::ICMP_UGT : ICmpInst::ICMP_ULT;
            if (e[0].k == Val::UNDEF || e[1].k == Val::UNDEF) return Val();
            return minmaxInt(s, p, e[0], e[1], tbits(t));
        });
        return CR_DONE;
    case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow:
    case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow:
    {
        unsigned b = tbits(cast<StructType>(rt)->getElementType(0));
        Val x = a[0], y = a[1];
        if (x.k == Val::PINT) x = concInt(s, x);
        if (y.k == Val::PINT) y = concInt(s, y);
        bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
        int k = (id == Intrinsic::sadd_with_overflow || id == Intrinsic::uadd_with_overflow) ? 0 : (id == Intrinsic::ssub_with_overflow || id == Intrinsic::usub_with_overflow) ? 1 : 2;
        if (x.k == Val::UNDEF || y.k == Val::UNDEF) { c.ret = undefVal(rt); return CR_DONE; }
        if (x.k == Val::BV || y.k == Val::BV)
        {
            z3::expr p = toBV(x), q = toBV(y);
            z3::expr r = k == 0 ? p + q : k == 1 ? p - q : p * q;
            z3::expr no = (p == p);
            if (k == 0) no = sg ? z3::bvadd_no_overflow(p, q, true) && z3::bvadd_no_underflow(p, q) : z3::bvadd_no_overflow(p, q, false);
            if (k == 1) no = sg ? z3::bvsub_no_overflow(p, q) && z3::bvsub_no_underflow(p, q, true) : z3::bvsub_no_underflow(p, q, false);
            if (k == 2) no = sg ? z3::bvmul_no_overflow(p, q, true) && z3::bvmul_no_underflow(p, q) : z3::bvmul_no_overflow(p, q, false);
            c.ret = cplx(vBV(r, b), vCond(mkZ((!no).simplify())));
            return CR_DONE;
        }
        __int128 p = sg ? (__int128) sx(x) : (__int128) x.i, q = sg ? (__int128) sx(y) : (__int128) y.i;
        __int128 r = k == 0 ? p + q : k == 1 ? p - q : p * q;
        if (!sg && k == 2 && b == 64) { unsigned __int128 ur = (unsigned __int128) x.i * y.i; c.ret = cplx(vInt((uint64_t) ur, b), vInt((ur >> 64) != 0, 1)); return CR_DONE; }
        bool ov = sg ? (r > ((__int128) 1 << (b - 1)) - 1 || r < -((__int128) 1 << (b - 1))) : (r < 0 || r >= ((__int128) 1 << b));
        c.ret = cplx(vInt((uint64_t) r, b), vInt(ov, 1));
        return CR_DONE;
    }
    case Intrinsic::usub_sat: case Intrinsic::uadd_sat:
    {
        unsigned b = tbits(rt);
        Val lt = icmp(s, ICmpInst::ICMP_ULT, a[0], a[1], b);
        if (id == Intrinsic::usub_sat) { bool l = lt.k == Val::INT ? lt.i : decide(s, lt.cond()); c.ret = l ? vInt(0, b) : intBin(s, Instruction::Sub, a[0], a[1], b, false, false); return CR_DONE; }
        throw Unsupported("uadd.sat");
    }
    case Intrinsic::ctpop: { Val v = concInt(s, a[0]); c.ret = vInt((uint64_t) __builtin_popcountll(v.i), v.bits); return CR_DONE; }
    case Intrinsic::ctlz: { Val v = concInt(s, a[0]); c.ret = vInt(v.i ? (uint64_t) (__builtin_clzll(v.i) - (64 - v.bits)) : v.bits, v.bits); return CR_DONE; }
    case Intrinsic::cttz: { Val v = concInt(s, a[0]); c.ret = vInt(v.i ? (uint64_t) __builtin_ctzll(v.i) : v.bits, v.bits); return CR_DONE; }
    case Intrinsic::bswap: { Val v = concInt(s, a[0]); uint64_t r = 0; for (unsigned k = 0; k < v.bits / 8; ++k) r |= ((v.i >> (8 * k)) & 255) << (v.bits - 8 - 8 * k); c.ret = vInt(r, v.bits); return CR_DONE; }
    case Intrinsic::fshl: case Intrinsic::fshr:
    {
        Val x = concInt(s, a[0]), y = concInt(s, a[1]), z = concInt(s, a[2]); unsigned b = x.bits; unsigned k = (unsigned) (z.i % b);
        if (k == 0) c.ret = id == Intrinsic::fshl ? x : y;
        else if (id == Intrinsic::fshl) c.ret = vInt((x.i << k) | (y.i >> (b - k)), b);
        else c.ret = vInt((x.i << (b - k)) | (y.i >> k), b);
        return CR_DONE;
    }
    case Intrinsic::expect: c.ret = a[0]; return CR_DONE;
    case Intrinsic::is_constant: c.ret = vInt(0, 1); return CR_DONE;
    case Intrinsic::is_fpclass:
    {
        int64_t m = argI(s, a[1], "class");
        if (a[0].k == Val::UNDEF) { c.ret = undef(1); return CR_DONE; }
        if (a[0].k == Val::FP)
        {
            double d = a[0].d; bool r = false; bool neg = std::signbit(d);
            if (std::isnan(d)) r = m & 3; else if (std::isinf(d)) r = m & (neg ? 4 : 512); else if (d == 0) r = m & (neg ? 32 : 64); else r = m & (neg ? 8 : 256);
            c.ret = vInt(r, 1); return CR_DONE;
        }
        P p = fpoly(a[0]);
        if (!(m & (8 | 32 | 64 | 256))) { c.ret = vInt(0, 1); return CR_DONE; }
        if ((m & (8 | 64 | 256)) == (8 | 64 | 256)) { c.ret = vInt(1, 1); return CR_DONE; }
        if (decide(s, mk(Cond::EQ0, p))) { c.ret = vInt((m & 64) != 0, 1); return CR_DONE; }
        c.ret = vInt(decide(s, mk(Cond::LT0, p)) ? (m & 8) != 0 : (m & 256) != 0, 1);
        return CR_DONE;
    }
    case Intrinsic::objectsize: c.ret = vInt(~0ULL, tbits(rt)); return CR_DONE;
    case Intrinsic::trap: case Intrinsic::ubsantrap: throw Bug{"abort", "trap"};
    case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ssa_copy: c.ret = a[0]; return CR_DONE;
    case Intrinsic::vector_reduce_fadd:
    {
        Val r = a[0]; for (auto& x : a[1].agg()) r = fpBin(s, Instruction::FAdd, r, x, tbits(rt)); c.ret = r; return CR_DONE;
    }
    case Intrinsic::vector_reduce_add: { Val r = vInt(0, tbits(rt)); for (auto& x : a[0].agg()) r = intBin(s, Instruction::Add, r, x, tbits(rt), false, false); c.ret = r; return CR_DONE; }
    case Intrinsic::vector_reduce_or: { Val r = vInt(0, tbits(rt)); for (auto& x : a[0].agg()) r = intBin(s, Instruction::Or, r, x, tbits(rt), false, false); c.ret = r; return CR_DONE; }
    case Intrinsic::vector_reduce_and: { Val r = vInt(~0ULL, tbits(rt)); for (auto& x : a[0].agg()) r = intBin(s, Instruction::And, r, x, tbits(rt), false, false); c.ret = r; return CR_DONE; }
    default: break;
    }
    throw Unsupported("intrinsic " + ii->getCalledFunction()->getName().str());
}
static void doCall(State& s, const CallBase* cb)
{
    std::vector<Val> args;
    const Value* cv = cb->getCalledOperand();
    const Function* f = dyn_cast<Function>(cv->stripPointerCasts());
    if (f && f->getName().starts_with("llvm.dbg")) { ++s.F().it; return; }
    if (isa<InlineAsm>(cv)) throw Unsupported("inline assembly");
    for (auto& a : cb->args()) args.push_back(getVal(s, a));
    if (!f)
    {
        if (auto* ga = dyn_cast<GlobalAlias>(cv->stripPointerCasts())) f = dyn_cast<Function>(ga->getAliasee()->stripPointerCasts());
    }
    if (!f)
    {
        Val p = getVal(s, cv);
        if (p.k == Val::UNDEF) throw Bug{"uninit", "call through an uninitialised pointer"};
        if (p.k != Val::PTR || p.obj == 0 || s.objs[p.obj]->kind != Obj::FUNC) throw Bug{"mem", "call through an invalid function pointer"};
        f = s.objs[p.obj]->fn;
    }
    Ctx c{s, cb, args, Val()};
    CallRes r = CR_NONE;
    if (auto* ii = dyn_cast<IntrinsicInst>(cb)) r = intrinsic(c, ii);
    else
    {
        std::string n = f->getName().str();
        r = builtin(c, n);
        if (r == CR_NONE)
        {
            if (f->isDeclaration()) throw Unsupported("external function " + demangle(n));
            pushFrame(s, f, args, cb);
            return;
        }
    }
    if (r == CR_PUSHED) return;
    if (!cb->getType()->isVoidTy()) setVal(s, cb, c.ret);
    finishCall(s, cb);
}
static bool truth(State& s, const Val& v, const char* what)
{
    if (v.k == Val::UNDEF) throw Bug{"uninit", std::string(what) + " depends on uninitialised memory"};
    if (v.k == Val::INT) return v.i & 1;
    if (v.k == Val::COND) return decide(s, v.cond());
    throw Unsupported("branch condition kind");
}
static void step(State& s)
{
    const Instruction* I = &*s.F().it;
    S_.insts++; s.steps++;
    switch (I->getOpcode())
    {
    case Instruction::Alloca:
    {
        auto* al = cast<AllocaInst>(I);
        int64_t n = argI(s, getVal(s, al->getArraySize()), "alloca size");
        uint64_t sz = DL->getTypeAllocSize(al->getAllocatedType()).getFixedValue() * (uint64_t) n;
        int o = newObj(s, Obj::STACK, sz, false, al->getName().str());
        s.F().allocas.push_back(o);
        setVal(s, I, vPtr(o, 0));
        break;
    }
    case Instruction::Load:
    {
        auto* l = cast<LoadInst>(I);
        setVal(s, I, load(s, getVal(s, l->getPointerOperand()), l->getType(), l->isAtomic()));
        break;
    }
    case Instruction::Store:
    {
        auto* l = cast<StoreInst>(I);
        Val v = getVal(s, l->getValueOperand());
        if (v.k == Val::COND) v = concInt(s, v);
        store(s, getVal(s, l->getPointerOperand()), l->getValueOperand()->getType(), v, l->isAtomic());
        break;
    }
    case Instruction::GetElementPtr:
    {
        auto* g = cast<GetElementPtrInst>(I);
        Val b = getVal(s, g->getPointerOperand());
        if (b.k == Val::UNDEF) { setVal(s, I, b); break; }
        if (b.k == Val::INT) b = ptrFromInt(s, b.i);
        if (b.k != Val::PTR) throw Unsupported("pointer arithmetic on non-pointer");
        int64_t off = 0; P sym = X.zero; bool isSym = false, und = false;
        for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it)
        {
            if (StructType* st = it.getStructTypeOrNull())
            {
                off += (int64_t) DL->getStructLayout(st)->getElementOffset((unsigned) cast<ConstantInt>(it.getOperand())->getZExtValue());
                continue;
            }
            Val ix = getVal(s, it.getOperand());
            int64_t es = (int64_t) DL->getTypeAllocSize(it.getIndexedType()).getFixedValue();
            if (ix.k == Val::UNDEF) { und = true; continue; }
            if (ix.k == Val::BV || ix.k == Val::COND) ix = concInt(s, ix);
            if (ix.k == Val::INT) off += es * sx(ix);
            else { sym = X.add(sym, X.scale(ipoly(ix), (LD) es)); isSym = true; }
        }
        if (und) { setVal(s, I, Val()); break; }
        if (isSym)
        {
            // Feasible out-of-bounds addresses get one representative each; in-bounds ones are enumerated.
            bool known = false;
            for (auto& c : s.conc) if (sameP(c.first, sym)) known = true;
            if (!known && b.obj && !s.objs[b.obj]->symSize)
            {
                const Obj& o = *s.objs[b.obj];
                CP lo = mk(Cond::LT0, X.add(sym, X.constant((LD) (b.off + off))));
                CP hi = mk(Cond::LT0, X.sub(X.constant((LD) ((int64_t) o.size - b.off - off)), sym));
                for (int w = 0; w < 2; ++w)
                {
                    if (decide(s, w ? hi : lo))
                    {
                        // Pick one value only.
                        Model m;
                        CP cc = w ? hi : lo;
                        if (solve(s.pc, &cc, &m, true) == SAT)
                        {
                            z3::expr ev = m.m->eval(zpoly(sym), true).simplify();
                            LD v = ev.is_numeral() ? roundl(numVal(ev)) : 0;
                            setVal(s, I, vPtr(b.obj, b.off + off + (int64_t) v));
                            ++s.F().it;
                            return;
                        }
                    }
                }
            }
            off += concretise(s, sym);
        }
        if (b.obj == 0) setVal(s, I, vPtr(0, b.off + off)); else setVal(s, I, vPtr(b.obj, b.off + off));
        break;
    }
    case Instruction::ICmp:
    {
        auto* c = cast<ICmpInst>(I);
        Val a = getVal(s, c->getOperand(0)), b = getVal(s, c->getOperand(1));
        Type* t = c->getOperand(0)->getType();
        if (t->isVectorTy())
        {
            std::vector<Val> r;
            for (size_t i = 0; i < a.agg().size(); ++i) r.push_back(icmp(s, c->getPredicate(), a.agg()[i], b.agg()[i], tbits(t)));
            setVal(s, I, vAgg(r));
        }
        else if (tbits(t) > 64) throw Unsupported("wide comparison");
        else setVal(s, I, icmp(s, c->getPredicate(), a, b, tbits(t)));
        break;
    }
    case Instruction::FCmp:
    {
        auto* c = cast<FCmpInst>(I);
        Val a = getVal(s, c->getOperand(0)), b = getVal(s, c->getOperand(1));
        if (c->getOperand(0)->getType()->isVectorTy())
        {
            std::vector<Val> r;
            for (size_t i = 0; i < a.agg().size(); ++i) r.push_back(fcmp(s, c->getPredicate(), a.agg()[i], b.agg()[i]));
            setVal(s, I, vAgg(r));
        }
        else setVal(s, I, fcmp(s, c->getPredicate(), a, b));
        break;
    }
    case Instruction::FNeg:
    {
        Val a = getVal(s, I->getOperand(0));
        std::vector<Val> v(1, a);
        setVal(s, I, vecMap(s, I->getType(), v, [&](const std::vector<Val>& e, Type*) { return fnegV(e[0]); }));
        break;
    }
    case Instruction::Select:
    {
        Val c = getVal(s, I->getOperand(0)), a = getVal(s, I->getOperand(1)), b = getVal(s, I->getOperand(2));
        if (c.k == Val::AGG)
        {
            std::vector<Val> r;
            for (size_t i = 0; i < c.agg().size(); ++i) r.push_back(selectV(s, c.agg()[i], a.agg()[i], b.agg()[i]));
            setVal(s, I, vAgg(r));
        }
        else setVal(s, I, selectV(s, c, a, b));
        break;
    }
    case Instruction::Br:
    {
        auto* b = cast<BranchInst>(I);
        if (b->isUnconditional()) { gotoBlock(s, b->getSuccessor(0)); return; }
        bool t = truth(s, getVal(s, b->getCondition()), "branch");
        gotoBlock(s, b->getSuccessor(t ? 0 : 1));
        return;
    }
    case Instruction::Switch:
    {
        auto* sw = cast<SwitchInst>(I);
        Val v = getVal(s, sw->getCondition());
        if (v.k == Val::UNDEF) throw Bug{"uninit", "switch on uninitialised memory"};
        if (v.k == Val::INT)
        {
            for (auto& cs : sw->cases()) if (cs.getCaseValue()->getZExtValue() == v.i) { gotoBlock(s, cs.getCaseSuccessor()); return; }
        }
        else
        {
            for (auto& cs : sw->cases())
            {
                Val q = icmp(s, ICmpInst::ICMP_EQ, v, vInt(cs.getCaseValue()->getZExtValue(), v.bits), v.bits);
                if (truth(s, q, "switch")) { gotoBlock(s, cs.getCaseSuccessor()); return; }
            }
        }
        gotoBlock(s, sw->getDefaultDest());
        return;
    }
    case Instruction::Call: case Instruction::Invoke: doCall(s, cast<CallBase>(I)); return;
    case Instruction::Ret:
    {
        Val rv;
        auto* r = cast<ReturnInst>(I);
        if (r->getReturnValue()) rv = getVal(s, r->getReturnValue());
        popFrame(s, rv);
        return;
    }
    case Instruction::Unreachable: throw Bug{"abort", "unreachable code reached"};
    case Instruction::ExtractValue:
    {
        auto* e = cast<ExtractValueInst>(I);
        Val v = getVal(s, e->getAggregateOperand());
        for (unsigned k : e->indices()) { if (v.k == Val::UNDEF) break; Val t = v.agg()[k]; v = t; }
        setVal(s, I, v);
        break;
    }
    case Instruction::InsertValue:
    {
        auto* e = cast<InsertValueInst>(I);
        Val v = getVal(s, e->getAggregateOperand()), x = getVal(s, e->getInsertedValueOperand());
        if (v.k == Val::UNDEF) v = undefVal(e->getType());
        std::function<Val(const Val&, unsigned)> ins = [&](const Val& c, unsigned d) -> Val
        {
            if (d == e->getNumIndices()) return x;
            std::vector<Val> r = c.agg();
            unsigned k = e->getIndices()[d];
            r[k] = ins(r[k], d + 1);
            return vAgg(r);
        };
        setVal(s, I, ins(v, 0));
        break;
    }
    case Instruction::ExtractElement:
    {
        Val v = getVal(s, I->getOperand(0)); int64_t k = argI(s, getVal(s, I->getOperand(1)), "index");
        setVal(s, I, v.k == Val::UNDEF ? Val() : v.agg().at((size_t) k));
        break;
    }
    case Instruction::InsertElement:
    {
        Val v = getVal(s, I->getOperand(0)), x = getVal(s, I->getOperand(1)); int64_t k = argI(s, getVal(s, I->getOperand(2)), "index");
        if (v.k == Val::UNDEF) v = undefVal(I->getType());
        std::vector<Val> r = v.agg(); r.at((size_t) k) = x;
        setVal(s, I, vAgg(r));
        break;
    }
    case Instruction::ShuffleVector:
    {
        auto* sv = cast<ShuffleVectorInst>(I);
        Val a = getVal(s, sv->getOperand(0)), b = getVal(s, sv->getOperand(1));
        int n = (int) cast<FixedVectorType>(sv->getOperand(0)->getType())->getNumElements();
        unsigned eb = tbits(sv->getType()->getScalarType());
        std::vector<Val> r;
        for (int m : sv->getShuffleMask())
        {
            if (m < 0) r.push_back(undef(eb));
            else if (m < n) r.push_back(a.k == Val::UNDEF ? undef(eb) : a.agg()[m]);
            else r.push_back(b.k == Val::UNDEF ? undef(eb) : b.agg()[m - n]);
        }
        setVal(s, I, vAgg(r));
        break;
    }
    case Instruction::Freeze: setVal(s, I, getVal(s, I->getOperand(0))); break;
    case Instruction::Fence: break;
    case Instruction::AtomicRMW:
    {
        auto* r = cast<AtomicRMWInst>(I);
        Val p = getVal(s, r->getPointerOperand()), x = getVal(s, r->getValOperand());
        Type* t = r->getType();
        Val o = load(s, p, t, true), nv;
        unsigned b = tbits(t);
        switch (r->getOperation())
        {
        case AtomicRMWInst::Add: nv = intBin(s, Instruction::Add, o, x, b, false, false); break;
        case AtomicRMWInst::Sub: nv = intBin(s, Instruction::Sub, o, x, b, false, false); break;
        case AtomicRMWInst::Xchg: nv = x; break;
        case AtomicRMWInst::Or: nv = intBin(s, Instruction::Or, o, x, b, false, false); break;
        case AtomicRMWInst::And: nv = intBin(s, Instruction::And, o, x, b, false, false); break;
        case AtomicRMWInst::FAdd: nv = fpBin(s, Instruction::FAdd, o, x, b); break;
        case AtomicRMWInst::Max: nv = minmaxInt(s, ICmpInst::ICMP_SGT, o, x, b); break;
        case AtomicRMWInst::Min: nv = minmaxInt(s, ICmpInst::ICMP_SLT, o, x, b); break;
        default: throw Unsupported("atomicrmw");
        }
        store(s, p, t, nv, true);
        setVal(s, I, o);
        break;
    }
    case Instruction::AtomicCmpXchg:
    {
        // Single-threaded scheduling between barriers: always succeeds when equal.
        auto* x = cast<AtomicCmpXchgInst>(I);
        Val p = getVal(s, x->getPointerOperand()), cmp = getVal(s, x->getCompareOperand()), nv = getVal(s, x->getNewValOperand());
        Type* t = x->getCompareOperand()->getType();
        Val o = load(s, p, t, true);
        bool eq;
        if (o.k == Val::BYTES && cmp.k == Val::BYTES)
        {
            eq = o.agg().size() == cmp.agg().size();
            for (size_t i = 0; eq && i < o.agg().size(); ++i)
            {
                const Val &u = o.agg()[i], &v = cmp.agg()[i];
                if (u.k == Val::PFP && v.k == Val::PFP) eq = sameP(u.poly(), v.poly());
                else if (u.conc() && v.conc()) eq = bitsOf(u) == bitsOf(v);
                else eq = false;
            }
        }
        else if (o.k == Val::BYTES || cmp.k == Val::BYTES) eq = false;
        else { Val q = icmp(s, ICmpInst::ICMP_EQ, o, cmp, tbits(t)); eq = truth(s, q, "compare-exchange"); }
        if (eq) store(s, p, t, nv, true);
        setVal(s, I, cplx(o, vInt(eq, 1)));
        break;
    }
    case Instruction::LandingPad: case Instruction::Resume: throw Unsupported("exception handling");
    default:
        if (auto* b = dyn_cast<BinaryOperator>(I))
        {
            setVal(s, I, binOp(s, b, b->getOpcode(), getVal(s, b->getOperand(0)), getVal(s, b->getOperand(1)), b->getType()));
            break;
        }
        if (auto* c = dyn_cast<CastInst>(I))
        {
            setVal(s, I, castOp(s, c->getOpcode(), getVal(s, c->getOperand(0)), c->getSrcTy(), c->getDestTy()));
            break;
        }
        {
            std::string str; raw_string_ostream os(str); I->print(os);
            throw Unsupported("instruction " + str);
        }
    }
    ++s.F().it;
}
static void runPath(SP sp)
{
    State& s = *sp;
    S_.paths++;
    try
    {
        for (;;)
        {
            Thread& t = s.T();
            if (t.stack.empty())
            {
                if (s.teams.size() == 1) break;
                t.st = Thread::DONE;
                scheduleTeam(s);
                continue;
            }
            step(s);
            if ((s.steps & 1023) == 0)
            {
                if (secs(g_start) > g_timeLimit) { S_.inconclusive["time limit"]++; g_stop = true; return; }
                if (s.steps > g_maxSteps) { S_.inconclusive["step limit"]++; return; }
            }
        }
        flushPending(s);
        S_.pathsDone++;
    }
    catch (Kill& k)
    {
        if (k.why != "assume") S_.inconclusive["path ended: " + k.why]++;
        if (k.why == "violation") { S_.inconclusive.erase("path ended: violation"); }
        flushPending(s);
    }
    catch (Bug& b)
    {
        S_.checks++;
        if (g_ignoreEv.count(b.id)) return;
        std::string w = where(s);
        try
        {
            flushPending(s);
            report(s, b.id, b.msg + " [" + w + "]", 0);
        }
        catch (Unsupported& u) { S_.inconclusive[std::string("unsupported: ") + u.what()]++; }
    }
    catch (Unsupported& u)
    {
        S_.inconclusive[std::string("unsupported: ") + u.what() + " [" + where(s) + "]"]++;
        try { flushPending(s); } catch (...) {}
    }
    catch (Stop&) {}
}
static void initGlobal(State& s, const GlobalVariable& g)
{
    int o = newObj(s, Obj::GLOBAL, DL->getTypeAllocSize(g.getValueType()).getFixedValue(), false, g.getName().str());
    g_global[&g] = o;
    s.objs[o]->constant = false;
}
int main(int argc, char** argv)
{
    if (argc < 2) return 2;
    std::string entry = "harness";
    for (int i = 2; i < argc; ++i)
    {
        std::string a = argv[i];
        if (a == "-v") g_verbose = true;
        else if (a == "--time") g_timeLimit = atof(argv[++i]);
        else if (a == "--query-ms") g_queryTimeoutMs = atof(argv[++i]);
        else if (a == "--max-paths") g_maxPaths = atol(argv[++i]);
        else if (a == "--max-enum") g_maxEnum = atol(argv[++i]);
        else if (a == "--threads") g_threads = atoi(argv[++i]);
        else if (a == "--seed") g_rng.seed((uint64_t) atol(argv[++i]));
        else if (a == "--entry") entry = argv[++i];
        else if (a == "--ignore") g_ignoreEv.insert(argv[++i]);
        else if (a == "--config")
        {
            std::stringstream ss(argv[++i]); std::string kv;
            while (std::getline(ss, kv, ',')) { size_t p = kv.find('='); if (p != std::string::npos) g_cfg[kv.substr(0, p)] = atol(kv.c_str() + p + 1); }
        }
    }
    LLVMContext lc; SMDiagnostic err;
    std::unique_ptr<Module> mod = parseIRFile(argv[1], err, lc);
    if (!mod) { err.print("symse", errs()); return 2; }
    M = mod.get(); DL = &M->getDataLayout();
    z3::set_param("memory_max_size", 8000);
    Z = new z3::context();
    g_start = Clock::now();
    SP s0 = std::make_shared<State>();
    s0->objs.push_back(OP());
    Team t; Thread th; t.th.push_back(th);
    s0->teams.push_back(t);
    try
    {
        for (auto& f : *M) { int o = newObj(*s0, Obj::FUNC, 0, false, f.getName().str()); s0->objs[o]->fn = &f; g_fnObj[&f] = o; }
        for (auto& g : M->globals()) if (g.getValueType()->isSized()) initGlobal(*s0, g);
        for (auto& g : M->globals())
        {
            if (!g.hasInitializer() || !g.getValueType()->isSized()) continue;
            if (g.getName().starts_with("llvm.")) continue;
            int o = g_global[&g];
            if (isa<ConstantAggregateZero>(g.getInitializer())) s0->objs[o]->zero = true;
            else
            {
                try { writeTyped(*s0, *s0->objs[o], 0, g.getValueType(), evalConst(g.getInitializer())); }
                catch (Unsupported&) {}
            }
            s0->objs[o]->constant = g.isConstant();
        }
        // Static constructors are run before the harness.
        const Function* hf = M->getFunction(entry);
        if (!hf || hf->isDeclaration()) { fprintf(stderr, "no harness\n"); return 2; }
        pushFrame(*s0, hf, std::vector<Val>(), 0);
        if (auto* gc = M->getGlobalVariable("llvm.global_ctors"))
            if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer()))
                for (int i = (int) ca->getNumOperands() - 1; i >= 0; --i)
                {
                    auto* cs = dyn_cast<ConstantStruct>(ca->getOperand((unsigned) i));
                    if (!cs) continue;
                    if (auto* f = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) if (!f->isDeclaration()) pushFrame(*s0, f, std::vector<Val>(), 0);
                }
        g_work.push_back(s0);
        s0.reset();
        while (!g_work.empty() && !g_stop)
        {
            SP s = g_work.back(); g_work.pop_back();
            runPath(s);
            if (secs(g_start) > g_timeLimit) { if (!g_work.empty()) S_.inconclusive["time limit"]++; break; }
        }
    }
    catch (Unsupported& u) { S_.inconclusive[std::string("unsupported: ") + u.what()]++; }
    catch (z3::exception& e) { S_.inconclusive[std::string("z3: ") + e.msg()]++; }
    std::string j = "{\"event\":\"summary\"";
    auto num = [&](const char* k, long v) { j += std::string(",\"") + k + "\":" + std::to_string(v); };
    num("insts", S_.insts); num("paths", S_.paths); num("paths_completed", S_.pathsDone); num("queries", S_.queries); num("sat", S_.sat); num("unsat", S_.unsat); num("unknown", S_.unknown);
    num("forks", S_.forks); num("checks", S_.checks); num("discharged", S_.discharged);
    j += ",\"solver_s\":" + std::to_string(S_.solver) + ",\"wall_s\":" + std::to_string(secs(g_start));
    auto lst = [&](const char* k, const std::set<std::string>& v) { j += std::string(",\"") + k + "\":["; bool f = true; for (auto& x : v) { if (!f) j += ","; f = false; j += jstr(x); } j += "]"; };
    std::set<std::string> dem; for (auto& f : S_.functions) { std::string d = demangle(f); size_t p = d.find('('); dem.insert(p != std::string::npos && p > 0 ? d.substr(0, p) : d); }
    lst("functions", dem); lst("reached", S_.reached);
    j += ",\"check_ids\":{"; { bool f = true; for (auto& x : S_.checkIds) { if (!f) j += ","; f = false; j += jstr(x.first) + ":" + std::to_string(x.second); } } j += "}";
    j += ",\"inconclusive\":{"; { bool f = true; for (auto& x : S_.inconclusive) { if (!f) j += ","; f = false; j += jstr(x.first) + ":" + std::to_string(x.second); } } j += "}}";
    printf("%s\n", j.c_str());
    fflush(stdout);
    _exit(0);
}
