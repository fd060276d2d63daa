// Interpreter: memory model, instructions, library models.
#include <unordered_set>

static Val getVal(State& s, const Value* v);
static Val evalConst(const Constant* c);
static unsigned tsize(Type* t) { return (unsigned) DL->getTypeStoreSize(t).getFixedValue(); }
static unsigned tbits(Type* t) { return t->isPointerTy() ? 64 : (unsigned) t->getScalarSizeInBits(); }

static OP& objW(State& s, int id)
{
    OP& o = s.objs[id];
    if (o.use_count() > 1) o = std::make_shared<Obj>(*o);
    return o;
}
static int newObj(State& s, Obj::Kind k, uint64_t size, bool zero, const std::string& name)
{
    auto o = std::make_shared<Obj>();
    o->kind = k; o->size = size; o->zero = zero; o->name = name;
    o->tid = s.teams.empty() ? 0 : s.teams.back().cur + 1000 * ((int) s.teams.size() - 1);
    s.objs.push_back(o);
    if (s.objs.size() > 4000000) throw Unsupported("too many objects");
    return (int) s.objs.size() - 1;
}
static Val ptrFromInt(State& s, uint64_t a)
{
    int obj = (int) (a >> ADDR_SHIFT);
    if (obj <= 0 || obj >= (int) s.objs.size()) return vPtr(0, (int64_t) a);
    return vPtr(obj, (int64_t) (a & ((1ULL << ADDR_SHIFT) - 1)));
}
static uint64_t bitsOf(const Val& v)
{
    if (v.k == Val::INT) return v.i;
    if (v.k == Val::PTR) return addrOf(v.obj, v.off);
    if (v.k == Val::FP)
    {
        uint64_t u = 0;
        if (v.bits == 32) { float f = (float) v.d; memcpy(&u, &f, 4); }
        else memcpy(&u, &v.d, 8);
        return u;
    }
    throw Unsupported("bits of symbolic value");
}
static Val fpFromBits(uint64_t u, unsigned bits)
{
    if (bits == 32) { float f; uint32_t w = (uint32_t) u; memcpy(&f, &w, 4); return vFP(f, 32); }
    double d; memcpy(&d, &u, 8); return vFP(d, 64);
}
// Convert a value to scalar type t of the same size (bitcast semantics).
static Val convTo(State& s, const Val& v, Type* t)
{
    if (v.k == Val::UNDEF) return v;
    unsigned b = tbits(t);
    if (t->isFloatingPointTy())
    {
        if (v.k == Val::FP || v.k == Val::PFP) return v;
        if (v.k == Val::INT) return fpFromBits(v.i, b);
        if (v.k == Val::BYTES && v.agg().size() == 1) return convTo(s, v.agg()[0], t);
        if (v.k == Val::PTR) return fpFromBits(bitsOf(v), b);
        if (v.k == Val::BYTES)
        {
            for (auto& p : v.agg()) if (p.k == Val::UNDEF) return Val();
        }
        throw Unsupported("reinterpreting symbolic bytes as floating point");
    }
    if (t->isPointerTy())
    {
        if (v.k == Val::PTR) return v;
        if (v.k == Val::INT) return ptrFromInt(s, v.i);
        throw Unsupported("reinterpreting symbolic bytes as pointer");
    }
    // integer
    switch (v.k)
    {
    case Val::INT: { Val r = v; r.bits = b; r.i &= maskBits(b); return r; }
    case Val::FP: return vInt(bitsOf(v), b);
    case Val::PTR: return vInt(bitsOf(v), b);
    case Val::PFP: { std::vector<Val> p(1, v); return vBytes(p, b); }
    default: return v;
    }
}
static void pieceBytes(const Val& v, unsigned n, std::vector<int>& out) // -1 undef, -2 symbolic
{
    if (v.k == Val::UNDEF) { out.assign(n, -1); return; }
    if (v.conc())
    {
        uint64_t u = bitsOf(v);
        out.resize(n);
        for (unsigned i = 0; i < n; ++i) out[i] = i < 8 ? (int) ((u >> (8 * i)) & 255) : 0;
        return;
    }
    out.assign(n, -2);
}
static Val readScalar(State& s, const Obj& o, uint64_t off, unsigned n, Type* t)
{
    auto it = o.cells.find(off);
    if (it != o.cells.end() && it->second.size == n) return convTo(s, it->second.v, t);
    // General case.
    std::vector<Val> pieces;
    std::vector<int> bytes;
    bool sym = false, ok = true;
    uint64_t p = off, e = off + n;
    it = o.cells.upper_bound(off);
    if (it != o.cells.begin()) { --it; if (it->first + it->second.size <= off) ++it; }
    while (p < e)
    {
        if (it == o.cells.end() || it->first > p)
        {
            uint64_t q = it == o.cells.end() ? e : std::min(e, it->first);
            bytes.insert(bytes.end(), q - p, o.zero ? 0 : -1);
            Val g; if (o.zero) g = vInt(0, (unsigned) std::min<uint64_t>(64, 8 * (q - p)));
            g.bits = (uint8_t) std::min<uint64_t>(64, 8 * (q - p));
            pieces.push_back(g);
            p = q;
            continue;
        }
        std::vector<int> b;
        pieceBytes(it->second.v, it->second.size, b);
        uint64_t q = std::min(e, it->first + it->second.size);
        for (uint64_t k = p; k < q; ++k) { bytes.push_back(b[k - it->first]); if (b[k - it->first] == -2) sym = true; }
        if (it->first < p || it->first + it->second.size > e) ok = false;
        Val pv = it->second.v; 
        if (pv.k != Val::AGG && (pv.k == Val::UNDEF)) pv.bits = (uint8_t) (8 * it->second.size);
        pieces.push_back(pv);
        p = q;
        ++it;
    }
    if (!sym)
    {
        uint64_t u = 0;
        for (unsigned i = 0; i < n; ++i) { if (bytes[i] == -1) return Val(); if (i < 8) u |= (uint64_t) bytes[i] << (8 * i); }
        return convTo(s, vInt(u, std::min(64u, 8 * n)), t);
    }
    if (ok) return convTo(s, vBytes(pieces, (unsigned) std::min(64u, 8 * n)), t);
    throw Unsupported("partial read of a symbolic value");
}
static void clearRange(Obj& o, uint64_t off, uint64_t n)
{
    uint64_t e = off + n;
    auto it = o.cells.lower_bound(off);
    if (it != o.cells.begin())
    {
        auto pr = std::prev(it);
        if (pr->first + pr->second.size > off) it = pr;
    }
    while (it != o.cells.end() && it->first < e)
    {
        uint64_t c = it->first; Cell cell = it->second;
        it = o.cells.erase(it);
        if (c < off || c + cell.size > e)
        {
            std::vector<int> b;
            pieceBytes(cell.v, cell.size, b);
            for (uint64_t k = c; k < c + cell.size; ++k)
            {
                if (k >= off && k < e) continue;
                Cell nc; nc.size = 1;
                if (b[k - c] == -2) throw Unsupported("partial overwrite of a symbolic value");
                if (b[k - c] >= 0) nc.v = vInt(b[k - c], 8);
                o.cells[k] = nc;
            }
            it = o.cells.lower_bound(e);
        }
    }
}
static unsigned valSize(const Val& v) { return (v.bits + 7) / 8; }
static void writeScalar(Obj& o, uint64_t off, unsigned n, const Val& v)
{
    auto it = o.cells.find(off);
    if (v.k == Val::BYTES)
    {
        clearRange(o, off, n);
        uint64_t p = off;
        for (auto& x : v.agg()) { Cell c; c.v = x; c.size = valSize(x); o.cells[p] = c; p += c.size; }
        return;
    }
    if (it != o.cells.end() && it->second.size == n) { it->second.v = v; return; }
    clearRange(o, off, n);
    if (v.k == Val::UNDEF && !o.zero) return;
    Cell c; c.v = v; c.size = n;
    if (v.k == Val::UNDEF) c.v.bits = (uint8_t) std::min(255u, 8 * n);
    o.cells[off] = c;
}
static std::string objDesc(const Obj& o)
{
    return (o.kind == Obj::HEAP ? "heap " : o.kind == Obj::STACK ? "stack " : o.kind == Obj::GLOBAL ? "global " : "function ") + o.name + "[" + std::to_string(o.size) + "]";
}
static void logAccess(State& s, int obj, int64_t off, uint64_t n, bool write, bool atomic)
{
    if (s.teams.size() < 2) return;
    Team& t = s.teams.back();
    if (!t.log) return;
    Obj& o = *s.objs[obj];
    if (o.constant) return;
    if (o.kind == Obj::STACK && o.tid == t.cur + 1000 * ((int) s.teams.size() - 1) && false) return;
    Thread& th = t.th[t.cur];
    Access a;
    a.obj = obj; a.off = off; a.size = (uint32_t) n; a.write = write; a.atomic = atomic; a.tid = t.serial ? t.logTid : th.tid; a.epoch = t.serial ? t.logEpoch : th.epoch;
    for (auto& l : th.locks) a.lock += l + ";";
    a.where = th.stack.empty() ? 0 : &*th.stack.back().it;
    t.log->push_back(a);
}
static void checkAccess(State& s, const Val& p, uint64_t n, bool write, bool atomic = false)
{
    if (p.k == Val::UNDEF) throw Bug{"uninit", "access through an uninitialised pointer"};
    if (p.k != Val::PTR) throw Unsupported("access through a non-pointer value");
    if (p.obj == 0) throw Bug{"mem", std::string("null or wild pointer ") + (write ? "write" : "read")};
    const Obj& o = *s.objs[p.obj];
    if (o.kind == Obj::FUNC) throw Bug{"mem", "data access to a function"};
    if (o.freed) throw Bug{"mem", std::string(write ? "write to" : "read of") + " freed memory " + objDesc(o)};
    if (o.symSize)
    {
        if (p.off < 0) throw Bug{"mem", "access below object " + objDesc(o)};
        CP bad = mkZ(z3::ult(*o.symSize, Z->bv_val((uint64_t) (p.off + n), 64)));
        if (solve(s.pc, &bad, 0) != UNSAT)
        {
            s.pc.push_back(bad);
            throw Bug{"mem", std::string("out of bounds ") + (write ? "write" : "read") + " at offset " + std::to_string(p.off) + " of an allocation of symbolic size"};
        }
    }
    else if (p.off < 0 || (uint64_t) p.off + n > o.size)
        throw Bug{"mem", std::string("out of bounds ") + (write ? "write" : "read") + " of " + std::to_string(n) + " bytes at offset " + std::to_string(p.off) + " of " + objDesc(o)};
    if (write)
    {
        if (o.constant) throw Bug{"mem", "write to constant " + objDesc(o)};
        for (auto& r : o.prot) if (p.off < r.second && (int64_t) (p.off + n) > r.first) throw Bug{"prot", "write to an input array that must stay intact: " + objDesc(o) + " offset " + std::to_string(p.off)};
    }
    logAccess(s, p.obj, p.off, n, write, atomic);
}
static Val readTyped(State& s, const Obj& o, uint64_t off, Type* t)
{
    if (auto* v = dyn_cast<FixedVectorType>(t))
    {
        std::vector<Val> r; unsigned es = tsize(v->getElementType());
        for (unsigned i = 0; i < v->getNumElements(); ++i) r.push_back(readTyped(s, o, off + i * es, v->getElementType()));
        return vAgg(r);
    }
    if (auto* v = dyn_cast<ArrayType>(t))
    {
        std::vector<Val> r; unsigned es = (unsigned) DL->getTypeAllocSize(v->getElementType()).getFixedValue();
        for (unsigned i = 0; i < v->getNumElements(); ++i) r.push_back(readTyped(s, o, off + i * es, v->getElementType()));
        return vAgg(r);
    }
    if (auto* v = dyn_cast<StructType>(t))
    {
        std::vector<Val> r; const StructLayout* sl = DL->getStructLayout(v);
        for (unsigned i = 0; i < v->getNumElements(); ++i) r.push_back(readTyped(s, o, off + sl->getElementOffset(i), v->getElementType(i)));
        return vAgg(r);
    }
    Val r = readScalar(s, o, off, tsize(t), t);
    if (r.k == Val::UNDEF) r.bits = (uint8_t) tbits(t);
    return r;
}
static void writeTyped(State& s, Obj& o, uint64_t off, Type* t, const Val& v)
{
    auto el = [&](unsigned i) -> Val { if (v.k == Val::UNDEF) return Val(); return v.agg()[i]; };
    if (auto* x = dyn_cast<FixedVectorType>(t))
    {
        unsigned es = tsize(x->getElementType());
        for (unsigned i = 0; i < x->getNumElements(); ++i) writeTyped(s, o, off + i * es, x->getElementType(), el(i));
        return;
    }
    if (auto* x = dyn_cast<ArrayType>(t))
    {
        unsigned es = (unsigned) DL->getTypeAllocSize(x->getElementType()).getFixedValue();
        for (unsigned i = 0; i < x->getNumElements(); ++i) writeTyped(s, o, off + i * es, x->getElementType(), el(i));
        return;
    }
    if (auto* x = dyn_cast<StructType>(t))
    {
        const StructLayout* sl = DL->getStructLayout(x);
        for (unsigned i = 0; i < x->getNumElements(); ++i) writeTyped(s, o, off + sl->getElementOffset(i), x->getElementType(i), el(i));
        return;
    }
    Val w = v;
    unsigned n = tsize(t);
    if (w.k == Val::INT) { w.bits = (uint8_t) (8 * n); }
    writeScalar(o, off, n, w);
}
static Val load(State& s, const Val& p, Type* t, bool atomic = false)
{
    checkAccess(s, p, tsize(t), false, atomic);
    return readTyped(s, *s.objs[p.obj], (uint64_t) p.off, t);
}
static void store(State& s, const Val& p, Type* t, const Val& v, bool atomic = false)
{
    checkAccess(s, p, tsize(t), true, atomic);
    OP& o = objW(s, p.obj);
    writeTyped(s, *o, (uint64_t) p.off, t, v);
}
static void copyMem(State& s, const Val& d, const Val& src, uint64_t n)
{
    if (n == 0) return;
    checkAccess(s, src, n, false);
    checkAccess(s, d, n, true);
    OP so = s.objs[src.obj];
    std::vector<std::pair<uint64_t, Cell> > cp;
    uint64_t p = (uint64_t) src.off, e = p + n;
    auto it = so->cells.upper_bound(p);
    if (it != so->cells.begin()) { --it; if (it->first + it->second.size <= p) ++it; }
    auto gap = [&](uint64_t a, uint64_t b)
    {
        while (a < b)
        {
            uint64_t k = std::min<uint64_t>(b - a, so->zero ? ((a % 8) ? 8 - a % 8 : 8) : 1u << 30);
            if (so->zero && k < 8 && k != 1 && k != 2 && k != 4) k = 1;
            Cell c; c.size = (uint32_t) k;
            if (so->zero) c.v = vInt(0, (unsigned) (8 * k));
            cp.push_back(std::make_pair(a, c));
            a += k;
        }
    };
    while (p < e)
    {
        if (it == so->cells.end() || it->first >= e) { gap(p, e); break; }
        if (it->first > p) { gap(p, it->first); p = it->first; }
        uint64_t ce = it->first + it->second.size;
        if (it->first >= p && ce <= e) { cp.push_back(std::make_pair(it->first, it->second)); p = ce; }
        else
        {
            std::vector<int> b; pieceBytes(it->second.v, it->second.size, b);
            for (; p < std::min(e, ce); ++p)
            {
                int v = b[p - it->first];
                if (v == -2) throw Unsupported("partial copy of a symbolic value");
                Cell c; c.size = 1; if (v >= 0) c.v = vInt(v, 8);
                cp.push_back(std::make_pair(p, c));
            }
        }
        ++it;
    }
    OP& o = objW(s, d.obj);
    clearRange(*o, (uint64_t) d.off, n);
    for (auto& c : cp)
    {
        if (c.second.v.k == Val::UNDEF && !o->zero) continue;
        o->cells[c.first - (uint64_t) src.off + (uint64_t) d.off] = c.second;
    }
}
static void setMem(State& s, const Val& d, const Val& byte, uint64_t n)
{
    if (n == 0) return;
    checkAccess(s, d, n, true);
    OP& o = objW(s, d.obj);
    if (!byte.conc() && byte.k != Val::UNDEF) throw Unsupported("memset with a symbolic value");
    if (d.off == 0 && n == o->size && byte.k == Val::INT && (byte.i & 255) == 0) { o->cells.clear(); o->zero = true; return; }
    clearRange(*o, (uint64_t) d.off, n);
    if (o->zero && byte.k == Val::INT && (byte.i & 255) == 0) return;
    if (!o->zero && byte.k == Val::UNDEF) return;
    uint64_t p = (uint64_t) d.off, e = p + n;
    while (p < e)
    {
        unsigned k = (p % 8 == 0 && e - p >= 8) ? 8 : (p % 4 == 0 && e - p >= 4) ? 4 : 1;
        Cell c; c.size = k;
        if (byte.k == Val::INT) { uint64_t u = 0; for (unsigned i = 0; i < k; ++i) u |= (byte.i & 255) << (8 * i); c.v = vInt(u, 8 * k); }
        o->cells[p] = c;
        p += k;
    }
}
static std::string cstr(State& s, const Val& p)
{
    if (p.k != Val::PTR || p.obj == 0) return "(null)";
    std::string r;
    Type* i8 = Type::getInt8Ty(M->getContext());
    const Obj& o = *s.objs[p.obj];
    for (int64_t k = p.off; k < (int64_t) o.size && r.size() < 4096; ++k)
    {
        Val v = readScalar(s, o, (uint64_t) k, 1, i8);
        if (v.k != Val::INT) return r;
        if (v.i == 0) return r;
        r += (char) v.i;
    }
    return r;
}
// ------------------------------------------------------------ constants
static Val zeroVal(Type* t)
{
    if (t->isFloatingPointTy()) return vFP(0, tbits(t));
    if (t->isPointerTy()) return vPtr(0, 0);
    if (t->isIntegerTy()) return vInt(0, tbits(t));
    std::vector<Val> r;
    if (auto* v = dyn_cast<FixedVectorType>(t)) for (unsigned i = 0; i < v->getNumElements(); ++i) r.push_back(zeroVal(v->getElementType()));
    else if (auto* v = dyn_cast<ArrayType>(t)) for (unsigned i = 0; i < v->getNumElements(); ++i) r.push_back(zeroVal(v->getElementType()));
    else if (auto* v = dyn_cast<StructType>(t)) for (unsigned i = 0; i < v->getNumElements(); ++i) r.push_back(zeroVal(v->getElementType(i)));
    return vAgg(r);
}
static Val undefVal(Type* t)
{
    std::vector<Val> r;
    if (auto* v = dyn_cast<FixedVectorType>(t)) for (unsigned i = 0; i < v->getNumElements(); ++i) r.push_back(undefVal(v->getElementType()));
    else if (auto* v = dyn_cast<ArrayType>(t)) for (unsigned i = 0; i < v->getNumElements(); ++i) r.push_back(undefVal(v->getElementType()));
    else if (auto* v = dyn_cast<StructType>(t)) for (unsigned i = 0; i < v->getNumElements(); ++i) r.push_back(undefVal(v->getElementType(i)));
    else { Val u; u.bits = (uint8_t) tbits(t); return u; }
    return vAgg(r);
}
static Val evalConst(const Constant* c)
{
    Type* t = c->getType();
    if (auto* ci = dyn_cast<ConstantInt>(c))
    {
        if (ci->getBitWidth() > 64)
        {
            // Split into 64 bit pieces.
            std::vector<Val> p;
            for (unsigned i = 0; i < ci->getBitWidth() / 64; ++i) p.push_back(vInt(ci->getValue().extractBitsAsZExtValue(64, i * 64), 64));
            return vBytes(p, 128);
        }
        return vInt(ci->getZExtValue(), ci->getBitWidth());
    }
    if (auto* cf = dyn_cast<ConstantFP>(c))
    {
        if (t->isFloatTy()) return vFP(cf->getValueAPF().convertToFloat(), 32);
        if (t->isDoubleTy()) return vFP(cf->getValueAPF().convertToDouble(), 64);
        APFloat f = cf->getValueAPF(); bool li; f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li);
        return vFP(f.convertToDouble(), 64);
    }
    if (isa<ConstantPointerNull>(c)) return vPtr(0, 0);
    if (isa<UndefValue>(c)) return undefVal(t);
    if (isa<ConstantAggregateZero>(c)) return zeroVal(t);
    if (auto* f = dyn_cast<Function>(c)) return vPtr(g_fnObj.at(f), 0);
    if (auto* g = dyn_cast<GlobalAlias>(c)) return evalConst(g->getAliasee());
    if (auto* g = dyn_cast<GlobalVariable>(c)) { auto it = g_global.find(g); if (it == g_global.end()) throw Unsupported("global " + g->getName().str()); return vPtr(it->second, 0); }
    if (auto* ds = dyn_cast<ConstantDataSequential>(c))
    {
        std::vector<Val> r;
        for (unsigned i = 0; i < ds->getNumElements(); ++i) r.push_back(evalConst(ds->getElementAsConstant(i)));
        return vAgg(r);
    }
    if (auto* ca = dyn_cast<ConstantAggregate>(c))
    {
        std::vector<Val> r;
        for (unsigned i = 0; i < ca->getNumOperands(); ++i) r.push_back(evalConst(ca->getOperand(i)));
        return vAgg(r);
    }
    if (auto* ce = dyn_cast<ConstantExpr>(c))
    {
        if (ce->getOpcode() == Instruction::GetElementPtr)
        {
            Val b = evalConst(ce->getOperand(0));
            APInt off(64, 0);
            if (cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) { b.off += off.getSExtValue(); return b; }
        }
        if (ce->getOpcode() == Instruction::PtrToInt) return vInt(bitsOf(evalConst(ce->getOperand(0))), tbits(t));
        if (ce->getOpcode() == Instruction::BitCast) return evalConst(ce->getOperand(0));
        if (ce->getOpcode() == Instruction::Sub)
        {
            Val a = evalConst(ce->getOperand(0)), b = evalConst(ce->getOperand(1));
            return vInt(a.i - b.i, tbits(t));
        }
        if (ce->getOpcode() == Instruction::Trunc) { Val a = evalConst(ce->getOperand(0)); return vInt(a.i, tbits(t)); }
    }
    std::string str; raw_string_ostream os(str); c->print(os);
    throw Unsupported("constant " + str);
}
static Val getVal(State& s, const Value* v)
{
    if (auto* c = dyn_cast<Constant>(v)) return evalConst(c);
    if (isa<MetadataAsValue>(v)) return Val();
    Frame& f = s.F();
    auto it = f.info->idx.find(v);
    if (it == f.info->idx.end()) throw Unsupported("unknown value");
    const Val& r = f.loc[it->second];
    if (r.k == Val::PINT && !s.conc.empty())
    {
        for (auto& c : s.conc) if (sameP(c.first, std::static_pointer_cast<const Poly>(r.s))) return vInt((uint64_t) c.second, r.bits);
    }
    return r;
}
static void setVal(State& s, const Value* v, const Val& x)
{
    Frame& f = s.F();
    f.loc[f.info->idx[v]] = x;
}
// -------------------------------------------------------- integer helpers
static P ipoly(const Val& v)
{
    if (v.k == Val::PINT) return v.poly();
    if (v.k == Val::INT) return X.constant((LD) sx(v));
    throw Unsupported("integer polynomial of value");
}
static P fpoly(const Val& v)
{
    if (v.k == Val::PFP) return v.poly();
    if (v.k == Val::FP) return X.constant((LD) v.d);
    throw Unsupported("real polynomial of value");
}
static z3::expr toBV(const Val& v)
{
    if (v.k == Val::BV) return v.bv();
    if (v.k == Val::INT) return Z->bv_val(v.i, v.bits);
    throw Unsupported("bit-vector of value");
}
static Val concInt(State& s, const Val& v)
{
    if (v.k == Val::PINT) return vInt((uint64_t) concretise(s, v.poly()), v.bits);
    if (v.k == Val::BV) return vInt(concretiseBV(s, v.bv()), v.bits);
    if (v.k == Val::COND) return vInt(decide(s, v.cond()), 1);
    return v;
}
static LD imax(unsigned b) { return powl(2, b - 1) - 1; }
static LD imin(unsigned b) { return -powl(2, b - 1); }
// Is p always within the signed range of b bits?  If not: nsw -> bug, otherwise unsupported/wrap.
static Val ranged(State& s, const P& p, unsigned b, bool nsw, const char* what)
{
    if (p->isConst())
    {
        LD v = p->constant();
        if (v <= imax(b) && v >= imin(b)) return vInt((uint64_t) (int64_t) v, b);
    }
    LD lo, hi; X.interval(p, lo, hi);
    if (hi > imax(b))
    {
        CP c = mk(Cond::LT0, X.sub(X.constant(imax(b)), p));
        if (solve(s.pc, &c, 0) != UNSAT)
        {
            if (nsw) { if (decide(s, c)) throw Bug{"overflow", std::string("signed integer overflow in ") + what}; }
            else if (decide(s, c)) return ranged(s, X.sub(p, X.constant(powl(2, b))), b, nsw, what);
        }
    }
    if (lo < imin(b))
    {
        CP c = mk(Cond::LT0, X.sub(p, X.constant(imin(b))));
        if (solve(s.pc, &c, 0) != UNSAT)
        {
            if (nsw) { if (decide(s, c)) throw Bug{"overflow", std::string("signed integer overflow in ") + what}; }
            else if (decide(s, c)) return ranged(s, X.add(p, X.constant(powl(2, b))), b, nsw, what);
        }
    }
    return vPI(p, b);
}
static P truncP(State& s, const P& p) // toward zero
{
    if (X.isIntegral(p)) return p;
    if (decide(s, mk(Cond::LT0, p))) return X.scale(X.floor_(X.scale(p, -1)), -1);
    return X.floor_(p);
}
static P roundP(State& s, const P& p) // half away from zero
{
    if (X.isIntegral(p)) return p;
    P h = X.constant(0.5L);
    if (decide(s, mk(Cond::LT0, p))) return X.scale(X.floor_(X.sub(h, p)), -1);
    return X.floor_(X.add(p, h));
}
static Val intBin(State& s, unsigned op, Val a, Val b, unsigned bits, bool nsw, bool nuw)
{
    // Undefined short cuts.
    if (a.k == Val::UNDEF || b.k == Val::UNDEF)
    {
        const Val& o = a.k == Val::UNDEF ? b : a;
        if (op == Instruction::And && o.k == Val::INT && o.i == 0) return vInt(0, bits);
        if (op == Instruction::Or && o.k == Val::INT && o.i == maskBits(bits)) return vInt(o.i, bits);
        Val u; u.bits = (uint8_t) bits; return u;
    }
    if (a.k == Val::PTR) a = vInt(bitsOf(a), bits);
    if (b.k == Val::PTR) b = vInt(bitsOf(b), bits);
    if (bits == 1 && (a.k == Val::COND || b.k == Val::COND))
    {
        CP T = mk(Cond::EQ0, X.zero), Fc = mk(Cond::LT0, X.zero);
        CP x = a.k == Val::COND ? a.cond() : (a.i ? T : Fc), y = b.k == Val::COND ? b.cond() : (b.i ? T : Fc);
        if (op == Instruction::And) return vCond(mk2(Cond::AND, x, y));
        if (op == Instruction::Or) return vCond(mk2(Cond::OR, x, y));
        if (op == Instruction::Xor)
        {
            if (b.k == Val::INT) return b.i ? vCond(mkNot(x)) : a;
            if (a.k == Val::INT) return a.i ? vCond(mkNot(y)) : b;
            return vCond(mk2(Cond::OR, mk2(Cond::AND, x, mkNot(y)), mk2(Cond::AND, mkNot(x), y)));
        }
        a = concInt(s, a); b = concInt(s, b);
    }
    if (a.k == Val::BYTES || b.k == Val::BYTES)
    {
        if (a.k == Val::BYTES && b.k == Val::INT)
        {
            auto pc = a.agg();
            if (op == Instruction::LShr || op == Instruction::AShr)
            {
                uint64_t sh = b.i; size_t k = 0;
                while (sh > 0 && k < pc.size()) { if (pc[k].bits > sh) throw Unsupported("shift of packed value"); sh -= pc[k].bits; ++k; }
                std::vector<Val> r(pc.begin() + k, pc.end());
                unsigned have = 0; for (auto& x : r) have += x.bits;
                if (have < bits) r.push_back(vInt(0, bits - have));
                return vBytes(r, bits);
            }
            if (op == Instruction::Shl)
            {
                std::vector<Val> r; r.push_back(vInt(0, (unsigned) b.i));
                unsigned have = (unsigned) b.i;
                for (auto& x : pc) { if (have + x.bits > bits) break; r.push_back(x); have += x.bits; }
                return vBytes(r, bits);
            }
            if (op == Instruction::And)
            {
                std::vector<Val> r; unsigned pos = 0; bool ok = true;
                for (auto& x : pc)
                {
                    uint64_t m = (b.i >> pos) & maskBits(x.bits);
                    if (m == maskBits(x.bits)) r.push_back(x); else if (m == 0) r.push_back(vInt(0, x.bits)); else ok = false;
                    pos += x.bits;
                }
                if (ok) return vBytes(r, bits);
            }
        }
        if (op == Instruction::Or)
        {
            auto split = [&](const Val& v, std::vector<std::pair<unsigned, Val> >& o)
            {
                unsigned p = 0;
                if (v.k == Val::BYTES) { for (auto& x : v.agg()) { o.push_back(std::make_pair(p, x)); p += x.bits; } }
                else o.push_back(std::make_pair(0u, v));
            };
            std::vector<std::pair<unsigned, Val> > pa, pb;
            split(a, pa); split(b, pb);
            // Merge for 32-bit halves.
            std::vector<Val> r; bool ok = bits == 64;
            for (unsigned h = 0; ok && h < 64; h += 32)
            {
                auto get = [&](std::vector<std::pair<unsigned, Val> >& p) -> Val
                {
                    for (auto& q : p)
                    {
                        if (q.first == h && q.second.bits == 32) return q.second;
                        if (q.second.k == Val::INT && q.first <= h && q.first + q.second.bits >= h + 32) return vInt(q.second.i >> (h - q.first), 32);
                    }
                    ok = false; return Val();
                };
                Val x = get(pa), y = get(pb);
                if (!ok) break;
                if (x.k == Val::INT && x.i == 0) r.push_back(y);
                else if (y.k == Val::INT && y.i == 0) r.push_back(x);
                else ok = false;
            }
            if (ok) return vBytes(r, bits);
        }
        throw Unsupported("integer arithmetic on packed floating point");
    }
    if (a.k == Val::COND) a = concInt(s, a);
    if (b.k == Val::COND) b = concInt(s, b);
    if (a.k == Val::INT && b.k == Val::INT)
    {
        uint64_t x = a.i, y = b.i; int64_t sxv = sx(a), syv = sx(b);
        __int128 w = 0; bool chk = false;
        switch (op)
        {
        case Instruction::Add: w = (__int128) sxv + syv; chk = nsw; x = x + y; break;
        case Instruction::Sub: w = (__int128) sxv - syv; chk = nsw; x = x - y; break;
        case Instruction::Mul: w = (__int128) sxv * syv; chk = nsw; x = x * y; break;
        case Instruction::UDiv: if (!y) throw Bug{"divzero", "integer division by zero"}; x = x / y; break;
        case Instruction::URem: if (!y) throw Bug{"divzero", "integer division by zero"}; x = x % y; break;
        case Instruction::SDiv: if (!y) throw Bug{"divzero", "integer division by zero"}; if (syv == -1) x = (uint64_t) -sxv; else x = (uint64_t) (sxv / syv); break;
        case Instruction::SRem: if (!y) throw Bug{"divzero", "integer division by zero"}; x = syv == -1 ? 0 : (uint64_t) (sxv % syv); break;
        case Instruction::And: x &= y; break;
        case Instruction::Or: x |= y; break;
        case Instruction::Xor: x ^= y; break;
        case Instruction::Shl: if (y >= bits) return Val(); w = (__int128) sxv << y; chk = nsw; x = x << y; break;
        case Instruction::LShr: if (y >= bits) return Val(); x = x >> y; break;
        case Instruction::AShr: if (y >= bits) return Val(); x = (uint64_t) (sxv >> y); break;
        default: throw Unsupported("integer op");
        }
        if (chk)
        {
            __int128 mx = ((__int128) 1 << (bits - 1)) - 1, mn = -((__int128) 1 << (bits - 1));
            if (w > mx || w < mn) throw Bug{"overflow", "signed integer overflow"};
        }
        return vInt(x, bits);
    }
    if (a.k == Val::BV || b.k == Val::BV)
    {
        if (a.k == Val::PINT) a = concInt(s, a);
        if (b.k == Val::PINT) b = concInt(s, b);
        z3::expr x = toBV(a), y = toBV(b);
        if ((op == Instruction::UDiv || op == Instruction::URem || op == Instruction::SDiv || op == Instruction::SRem) && decide(s, mkZ(y == Z->bv_val(0, bits)))) throw Bug{"divzero", "integer division by zero"};
        if (nsw && (op == Instruction::Add || op == Instruction::Sub || op == Instruction::Mul))
        {
            z3::expr no = (x == x);
            if (op == Instruction::Add) no = z3::bvadd_no_overflow(x, y, true) && z3::bvadd_no_underflow(x, y);
            if (op == Instruction::Sub) no = z3::bvsub_no_overflow(x, y) && z3::bvsub_no_underflow(x, y, true);
            if (op == Instruction::Mul) no = z3::bvmul_no_overflow(x, y, true) && z3::bvmul_no_underflow(x, y);
            if (!decide(s, mkZ(no))) throw Bug{"overflow", "signed integer overflow"};
        }
        switch (op)
        {
        case Instruction::Add: return vBV(x + y, bits);
        case Instruction::Sub: return vBV(x - y, bits);
        case Instruction::Mul: return vBV(x * y, bits);
        case Instruction::UDiv: return vBV(z3::udiv(x, y), bits);
        case Instruction::URem: return vBV(z3::urem(x, y), bits);
        case Instruction::SDiv: return vBV(x / y, bits);
        case Instruction::SRem: return vBV(z3::srem(x, y), bits);
        case Instruction::And: return vBV(x & y, bits);
        case Instruction::Or: return vBV(x | y, bits);
        case Instruction::Xor: return vBV(x ^ y, bits);
        case Instruction::Shl: return vBV(z3::shl(x, y), bits);
        case Instruction::LShr: return vBV(z3::lshr(x, y), bits);
        case Instruction::AShr: return vBV(z3::ashr(x, y), bits);
        }
        throw Unsupported("bit-vector op");
    }
    // Mathematical integers.
    switch (op)
    {
    case Instruction::Add: return ranged(s, X.add(ipoly(a), ipoly(b)), bits, nsw, "addition");
    case Instruction::Sub: return ranged(s, X.sub(ipoly(a), ipoly(b)), bits, nsw, "subtraction");
    case Instruction::Mul: return ranged(s, X.mul(ipoly(a), ipoly(b)), bits, nsw, "multiplication");
    case Instruction::Shl:
        b = concInt(s, b);
        return ranged(s, X.scale(ipoly(a), powl(2, b.i)), bits, nsw, "shift");
    case Instruction::Xor:
        if (b.k == Val::INT && b.i == maskBits(bits)) return ranged(s, X.sub(X.scale(ipoly(a), -1), X.one), bits, false, "not");
        break;
    case Instruction::And:
        if (b.k == Val::INT && ((b.i + 1) & b.i) == 0 && b.i != maskBits(bits))
        {
            P p = ipoly(a); LD m = (LD) b.i + 1;
            LD lo, hi; X.interval(p, lo, hi);
            if (lo >= 0 && hi < m) return a;
            return vPI(X.sub(p, X.scale(X.floor_(X.scale(p, 1 / m)), m)), bits);
        }
        if (b.k == Val::INT && (((~b.i & maskBits(bits)) + 1) & (~b.i & maskBits(bits))) == 0)
        {
            P p = ipoly(a); LD m = (LD) (~b.i & maskBits(bits)) + 1;
            return vPI(X.scale(X.floor_(X.scale(p, 1 / m)), m), bits);
        }
        break;
    case Instruction::AShr:
        if (b.k == Val::INT) return vPI(X.floor_(X.scale(ipoly(a), powl(2, -(int) b.i))), bits);
        break;
    case Instruction::LShr:
        if (b.k == Val::INT)
        {
            P p = ipoly(a);
            if (decide(s, mk(Cond::LT0, p))) p = X.add(p, X.constant(powl(2, bits)));
            return vPI(X.floor_(X.scale(p, powl(2, -(int) b.i))), bits);
        }
        break;
    case Instruction::SDiv: case Instruction::SRem: case Instruction::UDiv: case Instruction::URem:
    {
        P pb = ipoly(b);
        if (decide(s, mk(Cond::EQ0, pb))) throw Bug{"divzero", "integer division by zero"};
        if (b.k != Val::INT) b = concInt(s, b);
        LD d = (LD) sx(b);
        P p = ipoly(a);
        if ((op == Instruction::UDiv || op == Instruction::URem) && decide(s, mk(Cond::LT0, p))) { a = concInt(s, a); return intBin(s, op, a, b, bits, nsw, nuw); }
        // Truncating division of integers through floor of the scaled magnitude. When 1/d is not
        // exact, half a unit keeps multiples of d away from the step.
        P t;
        const bool neg = decide(s, mk(Cond::LT0, p));
        const LD ad = fabsl(d);
        int ex; const bool exact = frexpl(ad, &ex) == 0.5L;
        P m = neg ? X.scale(p, -1) : p;
        if (!exact) m = X.add(m, X.constant(0.5L));
        t = X.floor_(X.scale(m, 1 / ad));
        if (neg != (d < 0)) t = X.scale(t, -1);
        if (op == Instruction::SDiv || op == Instruction::UDiv) return vPI(t, bits);
        return vPI(X.sub(p, X.scale(t, d)), bits);
    }
    }
    a = concInt(s, a); b = concInt(s, b);
    return intBin(s, op, a, b, bits, nsw, nuw);
}
// ------------------------------------------------------- floating point
static Val undef(unsigned bits) { Val u; u.bits = (uint8_t) bits; return u; }
static Val fpBin(State& s, unsigned op, const Val& a, const Val& b, unsigned bits)
{
    if (a.k == Val::UNDEF || b.k == Val::UNDEF) return undef(bits);
    if (a.k == Val::FP && b.k == Val::FP)
    {
        double r = 0;
        if (bits == 32)
        {
            float x = (float) a.d, y = (float) b.d, z = 0;
            switch (op) { case Instruction::FAdd: z = x + y; break; case Instruction::FSub: z = x - y; break; case Instruction::FMul: z = x * y; break; case Instruction::FDiv: z = x / y; break; case Instruction::FRem: z = fmodf(x, y); break; default: throw Unsupported("fp op"); }
            return vFP(z, 32);
        }
        switch (op) { case Instruction::FAdd: r = a.d + b.d; break; case Instruction::FSub: r = a.d - b.d; break; case Instruction::FMul: r = a.d * b.d; break; case Instruction::FDiv: r = a.d / b.d; break; case Instruction::FRem: r = fmod(a.d, b.d); break; default: throw Unsupported("fp op"); }
        return vFP(r, 64);
    }
    if ((a.k != Val::FP && a.k != Val::PFP) || (b.k != Val::FP && b.k != Val::PFP)) throw Unsupported("floating point operation on packed value");
    // One concrete special value.
    for (int w = 0; w < 2; ++w)
    {
        const Val& c = w ? b : a; const Val& o = w ? a : b;
        if (c.k == Val::FP && !std::isfinite(c.d))
        {
            if (std::isnan(c.d)) return c;
            if (op == Instruction::FAdd) return c;
            if (op == Instruction::FSub) return w ? vFP(-c.d, bits) : c;
            if (op == Instruction::FDiv && w) return vFP(0, bits);
            P p = fpoly(o);
            if (decide(s, mk(Cond::EQ0, p))) return op == Instruction::FMul ? vFP(NAN, bits) : c;
            return vFP(decide(s, mk(Cond::LT0, p)) ? -c.d : c.d, bits);
        }
    }
    P x = fpoly(a), y = fpoly(b);
    switch (op)
    {
    case Instruction::FAdd: return vPF(X.add(x, y), bits);
    case Instruction::FSub: return vPF(X.sub(x, y), bits);
    case Instruction::FMul: return vPF(X.mul(x, y), bits);
    case Instruction::FDiv:
        if (b.k == Val::FP && b.d == 0)
        {
            if (decide(s, mk(Cond::EQ0, x))) return vFP(NAN, bits);
            double sg = std::signbit(b.d) ? -1 : 1;
            return vFP(decide(s, mk(Cond::LT0, x)) ? -sg * INFINITY : sg * INFINITY, bits);
        }
        if (b.k == Val::PFP)
        {
            S_.denom++;
            if (decide(s, mk(Cond::EQ0, y)))
            {
                if (decide(s, mk(Cond::EQ0, x))) return vFP(NAN, bits);
                return vFP(decide(s, mk(Cond::LT0, x)) ? -INFINITY : INFINITY, bits);
            }
        }
        return vPF(X.div(x, y), bits);
    case Instruction::FRem:
    {
        if (b.k == Val::FP && b.d != 0) { P q = X.scale(x, 1 / (LD) b.d); P t = truncP(s, q); return vPF(X.sub(x, X.scale(t, b.d)), bits); }
        break;
    }
    }
    throw Unsupported("floating point op");
}
static Val fcmp(State& s, unsigned pred, const Val& a, const Val& b)
{
    if (pred == FCmpInst::FCMP_FALSE) return vInt(0, 1);
    if (pred == FCmpInst::FCMP_TRUE) return vInt(1, 1);
    if (a.k == Val::UNDEF || b.k == Val::UNDEF) return undef(1);
    if (pred == FCmpInst::FCMP_UNO || pred == FCmpInst::FCMP_ORD)
    {
        bool nan = (a.k == Val::FP && std::isnan(a.d)) || (b.k == Val::FP && std::isnan(b.d));
        return vInt(pred == FCmpInst::FCMP_UNO ? nan : !nan, 1);
    }
    bool un = pred >= FCmpInst::FCMP_UEQ;
    bool nan = (a.k == Val::FP && std::isnan(a.d)) || (b.k == Val::FP && std::isnan(b.d));
    if (nan) return vInt(un, 1);
    // Normalise to ordered predicate.
    int p = 0; // 0 eq 1 gt 2 ge 3 lt 4 le 5 ne
    switch (pred)
    {
    case FCmpInst::FCMP_OEQ: case FCmpInst::FCMP_UEQ: p = 0; break;
    case FCmpInst::FCMP_OGT: case FCmpInst::FCMP_UGT: p = 1; break;
    case FCmpInst::FCMP_OGE: case FCmpInst::FCMP_UGE: p = 2; break;
    case FCmpInst::FCMP_OLT: case FCmpInst::FCMP_ULT: p = 3; break;
    case FCmpInst::FCMP_OLE: case FCmpInst::FCMP_ULE: p = 4; break;
    default: p = 5;
    }
    bool infA = a.k == Val::FP && std::isinf(a.d), infB = b.k == Val::FP && std::isinf(b.d);
    if ((a.k == Val::FP && b.k == Val::FP) || infA || infB)
    {
        double x = a.k == Val::FP ? a.d : 0, y = b.k == Val::FP ? b.d : 0;
        bool r = p == 0 ? x == y : p == 1 ? x > y : p == 2 ? x >= y : p == 3 ? x < y : p == 4 ? x <= y : x != y;
        return vInt(r, 1);
    }
    P d = X.sub(fpoly(a), fpoly(b));
    switch (p)
    {
    case 0: return vCond(mk(Cond::EQ0, d));
    case 5: return vCond(mkNot(mk(Cond::EQ0, d)));
    case 3: return vCond(mk(Cond::LT0, d));
    case 4: return vCond(mk(Cond::LE0, d));
    case 1: return vCond(mk(Cond::LT0, X.scale(d, -1)));
    default: return vCond(mk(Cond::LE0, X.scale(d, -1)));
    }
}
static Val icmp(State& s, unsigned pred, Val a, Val b, unsigned bits)
{
    if (a.k == Val::UNDEF || b.k == Val::UNDEF) return undef(1);
    if (a.k == Val::PTR) a = vInt(bitsOf(a), 64);
    if (b.k == Val::PTR) b = vInt(bitsOf(b), 64);
    if (bits == 1 && (a.k == Val::COND || b.k == Val::COND))
    {
        if (pred == ICmpInst::ICMP_EQ) { Val x = intBin(s, Instruction::Xor, a, b, 1, false, false); return intBin(s, Instruction::Xor, x, vInt(1, 1), 1, false, false); }
        if (pred == ICmpInst::ICMP_NE) return intBin(s, Instruction::Xor, a, b, 1, false, false);
        a = concInt(s, a); b = concInt(s, b);
    }
    if (a.k == Val::INT && b.k == Val::INT)
    {
        uint64_t x = a.i, y = b.i; int64_t p = sx(a), q = sx(b);
        bool r = false;
        switch (pred)
        {
        case ICmpInst::ICMP_EQ: r = x == y; break;
        case ICmpInst::ICMP_NE: r = x != y; break;
        case ICmpInst::ICMP_UGT: r = x > y; break;
        case ICmpInst::ICMP_UGE: r = x >= y; break;
        case ICmpInst::ICMP_ULT: r = x < y; break;
        case ICmpInst::ICMP_ULE: r = x <= y; break;
        case ICmpInst::ICMP_SGT: r = p > q; break;
        case ICmpInst::ICMP_SGE: r = p >= q; break;
        case ICmpInst::ICMP_SLT: r = p < q; break;
        case ICmpInst::ICMP_SLE: r = p <= q; break;
        }
        return vInt(r, 1);
    }
    if (a.k == Val::BV || b.k == Val::BV)
    {
        z3::expr x = toBV(a.k != Val::BV ? concInt(s, a) : a), y = toBV(b.k != Val::BV ? concInt(s, b) : b);
        switch (pred)
        {
        case ICmpInst::ICMP_EQ: return vCond(mkZ((x == y).simplify()));
        case ICmpInst::ICMP_NE: return vCond(mkZ((x != y).simplify()));
        case ICmpInst::ICMP_UGT: return vCond(mkZ(z3::ugt(x, y).simplify()));
        case ICmpInst::ICMP_UGE: return vCond(mkZ(z3::uge(x, y).simplify()));
        case ICmpInst::ICMP_ULT: return vCond(mkZ(z3::ult(x, y).simplify()));
        case ICmpInst::ICMP_ULE: return vCond(mkZ(z3::ule(x, y).simplify()));
        case ICmpInst::ICMP_SGT: return vCond(mkZ((x > y).simplify()));
        case ICmpInst::ICMP_SGE: return vCond(mkZ((x >= y).simplify()));
        case ICmpInst::ICMP_SLT: return vCond(mkZ((x < y).simplify()));
        default: return vCond(mkZ((x <= y).simplify()));
        }
    }
    if (a.k == Val::BYTES || b.k == Val::BYTES)
    {
        // Equality of the bits of two numbers: equality of the numbers (signed zeros and NaNs aside).
        if (pred == ICmpInst::ICMP_EQ || pred == ICmpInst::ICMP_NE)
        {
            const Val* v[2] = {&a, &b}; Val n[2]; bool ok = true;
            for (int i = 0; i < 2; ++i)
            {
                if (v[i]->k == Val::BYTES && v[i]->agg().size() == 1 && (v[i]->agg()[0].k == Val::PFP || v[i]->agg()[0].k == Val::FP)) n[i] = v[i]->agg()[0];
                else if (v[i]->k == Val::INT) n[i] = fpFromBits(v[i]->i, v[i]->bits);
                else ok = false;
            }
            if (ok) return fcmp(s, pred == ICmpInst::ICMP_EQ ? FCmpInst::FCMP_OEQ : FCmpInst::FCMP_UNE, n[0], n[1]);
        }
        throw Unsupported("comparison of packed floating point bits");
    }
    P x = ipoly(a), y = ipoly(b), d;
    bool uns = pred >= ICmpInst::ICMP_UGT && pred <= ICmpInst::ICMP_ULE;
    if (uns)
    {
        P w = X.constant(powl(2, bits));
        // Fork-free for negative-or-above tests when y is a non-negative constant.
        if (decide(s, mk(Cond::LT0, x))) x = X.add(x, w);
        if (decide(s, mk(Cond::LT0, y))) y = X.add(y, w);
    }
    d = X.sub(x, y);
    // Integers: p<0 is p<=-1.
    switch (pred)
    {
    case ICmpInst::ICMP_EQ: return vCond(mk(Cond::EQ0, d));
    case ICmpInst::ICMP_NE: return vCond(mkNot(mk(Cond::EQ0, d)));
    case ICmpInst::ICMP_UGT: case ICmpInst::ICMP_SGT: return vCond(mk(Cond::LT0, X.scale(d, -1)));
    case ICmpInst::ICMP_UGE: case ICmpInst::ICMP_SGE: return vCond(mk(Cond::LE0, X.scale(d, -1)));
    case ICmpInst::ICMP_ULT: case ICmpInst::ICMP_SLT: return vCond(mk(Cond::LT0, d));
    default: return vCond(mk(Cond::LE0, d));
    }
}
static double cfn(const std::string& n, double x, bool f32)
{
    if (f32)
    {
        float y = (float) x;
        if (n == "sin") return sinf(y); if (n == "cos") return cosf(y); if (n == "exp") return expf(y); if (n == "sqrt") return sqrtf(y);
        if (n == "tan") return tanf(y); if (n == "asin") return asinf(y); if (n == "acos") return acosf(y); if (n == "atan") return atanf(y);
        if (n == "log") return logf(y); if (n == "log2") return log2f(y); if (n == "log10") return log10f(y); if (n == "exp2") return exp2f(y);
        if (n == "cosh") return coshf(y); if (n == "sinh") return sinhf(y); if (n == "tanh") return tanhf(y); if (n == "cbrt") return cbrtf(y);
    }
    if (n == "sin") return sin(x); if (n == "cos") return cos(x); if (n == "exp") return exp(x); if (n == "sqrt") return sqrt(x);
    if (n == "tan") return tan(x); if (n == "asin") return asin(x); if (n == "acos") return acos(x); if (n == "atan") return atan(x);
    if (n == "log") return log(x); if (n == "log2") return log2(x); if (n == "log10") return log10(x); if (n == "exp2") return exp2(x);
    if (n == "cosh") return cosh(x); if (n == "sinh") return sinh(x); if (n == "tanh") return tanh(x); if (n == "cbrt") return cbrt(x);
    if (n == "lgamma") return lgamma(x); if (n == "tgamma") return tgamma(x);
    throw Unsupported("function " + n);
}
static Val mathFn(State& s, const std::string& n, const Val& a)
{
    if (a.k == Val::UNDEF) return a;
    if (a.k == Val::FP)
    {
        if (n == "floor") return vFP(floor(a.d), a.bits);
        if (n == "ceil") return vFP(ceil(a.d), a.bits);
        if (n == "round") return vFP(round(a.d), a.bits);
        if (n == "trunc") return vFP(trunc(a.d), a.bits);
        if (n == "rint" || n == "nearbyint" || n == "roundeven") return vFP(rint(a.d), a.bits);
        if (n == "fabs") return vFP(fabs(a.d), a.bits);
        return vFP(cfn(n, a.d, a.bits == 32), a.bits);
    }
    if (a.k != Val::PFP) throw Unsupported("math function on packed value");
    P p = a.poly(); unsigned b = a.bits;
    if (n == "sin") return vPF(X.trig(false, p), b);
    if (n == "cos") return vPF(X.trig(true, p), b);
    if (n == "exp") return vPF(X.exp_(p), b);
    if (n == "exp2") return vPF(X.exp_(X.scale(p, logl(2.0L))), b);
    if (n == "tan") { P c = X.trig(true, p); return fpBin(s, Instruction::FDiv, vPF(X.trig(false, p), b), vPF(c, b), b); }
    if (n == "floor") return vPF(X.floor_(p), b);
    if (n == "ceil") return vPF(X.scale(X.floor_(X.scale(p, -1)), -1), b);
    if (n == "trunc") return vPF(truncP(s, p), b);
    if (n == "round") return vPF(roundP(s, p), b);
    if (n == "rint" || n == "nearbyint" || n == "roundeven") return vPF(X.rint_(p), b);
    if (n == "fabs") return decide(s, mk(Cond::LT0, p)) ? vPF(X.scale(p, -1), b) : a;
    if (n == "sqrt")
    {
        // An argument that is, up to rounding of its coefficients, a positive
        // multiple of something the path condition has as non-negative.
        bool nonneg = false;
        for (auto& c : s.pc)
        {
            if ((c->op != Cond::LE0 && c->op != Cond::LT0) || c->p->t.empty()) continue;
            LD lam = 0, big = 0;
            for (auto& t : c->p->t) if (t.first && fabsl(t.second) > big) { big = fabsl(t.second); LD v = 0; for (auto& u : p->t) if (u.first == t.first) v = u.second; lam = -v / t.second; }
            if (!(lam > 0)) continue;
            P d = X.add(p, X.scale(c->p, lam));
            bool same = true;
            for (auto& t : d->t) if (fabsl(t.second) > (b == 32 ? 1e-6L : 1e-13L) * lam * big) same = false;
            if (same) { nonneg = true; break; }
        }
        if (!nonneg && decide(s, mk(Cond::LT0, p))) return vFP(NAN, b);
        if (p->t.size() == 1)
        {
            // sqrt of an even monomial: |x|.
            const MonoKey& k = X.monos[p->t[0].first];
            bool even = p->t[0].second > 0;
            for (auto& ae : k) if (ae.second % 2) even = false;
            if (even)
            {
                MonoKey h; for (auto& ae : k) h.push_back(std::make_pair(ae.first, ae.second / 2));
                P r = X.single(X.mono(h), sqrtl(p->t[0].second));
                return vPF(decide(s, mk(Cond::LT0, r)) ? X.scale(r, -1) : r, b);
            }
        }
        return vPF(X.sqrt_(p), b);
    }
    return vPF(X.uf(n, std::vector<P>(1, p)), b);
}
static Val powFn(State& s, const Val& a, const Val& e)
{
    if (a.k == Val::UNDEF || e.k == Val::UNDEF) return undef(a.bits);
    unsigned b = a.bits;
    if (a.k == Val::FP && e.k == Val::FP) return vFP(b == 32 ? powf((float) a.d, (float) e.d) : pow(a.d, e.d), b);
    if (e.k == Val::FP && e.d == floor(e.d) && fabs(e.d) <= 64)
    {
        int n = (int) fabs(e.d);
        P r = X.one, p = fpoly(a);
        for (int i = 0; i < n; ++i) r = X.mul(r, p);
        if (e.d >= 0) return vPF(r, b);
        return fpBin(s, Instruction::FDiv, vFP(1, b), vPF(r, b), b);
    }
    if (e.k == Val::FP && e.d == 0.5) return mathFn(s, "sqrt", a);
    std::vector<P> args; args.push_back(fpoly(a)); args.push_back(fpoly(e));
    return vPF(X.uf("pow", args), b);
}
static Val fnegV(const Val& a)
{
    if (a.k == Val::FP) return vFP(-a.d, a.bits);
    if (a.k == Val::PFP) return vPF(X.scale(a.poly(), -1), a.bits);
    if (a.k == Val::UNDEF) return a;
    throw Unsupported("fneg of packed value");
}
static Val fpToInt(State& s, const Val& a, unsigned bits, bool sg)
{
    if (a.k == Val::UNDEF) return undef(bits);
    LD mx = sg ? imax(bits) : powl(2, bits) - 1, mn = sg ? imin(bits) : 0;
    if (a.k == Val::FP)
    {
        if (std::isnan(a.d) || truncl(a.d) > mx || truncl(a.d) < mn) throw Bug{"fptoint", "conversion of out-of-range floating point value to integer"};
        if (sg) return vInt((uint64_t) (int64_t) a.d, bits);
        return vInt((uint64_t) a.d, bits);
    }
    P t = truncP(s, fpoly(a));
    LD lo, hi; X.interval(t, lo, hi);
    if (hi > mx && decide(s, mk(Cond::LT0, X.sub(X.constant(mx), t)))) throw Bug{"fptoint", "conversion of out-of-range floating point value to integer"};
    if (lo < mn && decide(s, mk(Cond::LT0, X.sub(t, X.constant(mn))))) throw Bug{"fptoint", "conversion of out-of-range floating point value to integer"};
    int64_t one;
    if (g_pin && pinned(s, t, &one)) return vInt((uint64_t) one, bits);
    return vPI(t, bits);
}
static Val castOp(State& s, unsigned op, const Val& a, Type* from, Type* to)
{
    if (a.k == Val::AGG && op != Instruction::BitCast)
    {
        std::vector<Val> r;
        for (auto& x : a.agg()) r.push_back(castOp(s, op, x, from->getScalarType(), to->getScalarType()));
        return vAgg(r);
    }
    unsigned fb = tbits(from), tb = tbits(to);
    if (a.k == Val::UNDEF && op != Instruction::BitCast) return undef(tb);
    switch (op)
    {
    case Instruction::Trunc:
    {
        if (a.k == Val::INT) return vInt(a.i, tb);
        if (a.k == Val::PTR) return vInt(bitsOf(a), tb);
        if (a.k == Val::BV) return vBV(a.bv().extract(tb - 1, 0), tb);
        if (a.k == Val::BYTES)
        {
            std::vector<Val> r; unsigned h = 0;
            for (auto& x : a.agg()) { if (h >= tb) break; r.push_back(x); h += x.bits; }
            if (h == tb) { if (r.size() == 1 && r[0].k == Val::INT) return r[0]; return vBytes(r, tb); }
            throw Unsupported("truncation of packed value");
        }
        if (tb == 1)
        {
            P p = ipoly(a);
            Val c = concInt(s, a); (void) p;
            return vInt(c.i, 1);
        }
        return ranged(s, ipoly(a), tb, false, "truncation");
    }
    case Instruction::ZExt:
        if (a.k == Val::COND) return vInt(decide(s, a.cond()), tb);
        if (a.k == Val::INT) return vInt(a.i, tb);
        if (a.k == Val::BV) return vBV(z3::zext(a.bv(), tb - fb), tb);
        if (a.k == Val::BYTES) { std::vector<Val> r = a.agg(); r.push_back(vInt(0, tb - fb)); return vBytes(r, tb); }
        if (decide(s, mk(Cond::LT0, ipoly(a)))) return ranged(s, X.add(ipoly(a), X.constant(powl(2, fb))), tb, false, "zext");
        return vPI(ipoly(a), tb);
    case Instruction::SExt:
        if (a.k == Val::COND) return vInt(decide(s, a.cond()) ? ~0ULL : 0, tb);
        if (a.k == Val::INT) return vInt((uint64_t) sx(a), tb);
        if (a.k == Val::BV) return vBV(z3::sext(a.bv(), tb - fb), tb);
        return vPI(ipoly(a), tb);
    case Instruction::FPTrunc: case Instruction::FPExt:
        if (a.k == Val::FP) return vFP(a.d, tb);
        return vPF(fpoly(a), tb);
    case Instruction::FPToSI: return fpToInt(s, a, tb, true);
    case Instruction::FPToUI: return fpToInt(s, a, tb, false);
    case Instruction::SIToFP:
        if (a.k == Val::COND) { Val c = concInt(s, a); return vFP(c.i ? -1 : 0, tb); }
        if (a.k == Val::INT) return vFP(tb == 32 ? (double) (float) sx(a) : (double) sx(a), tb);
        if (a.k == Val::BV) { Val c = concInt(s, a); return vFP((double) sx(c), tb); }
        return vPF(ipoly(a), tb);
    case Instruction::UIToFP:
        if (a.k == Val::COND) { Val c = concInt(s, a); return vFP((double) c.i, tb); }
        if (a.k == Val::INT) return vFP(tb == 32 ? (double) (float) a.i : (double) a.i, tb);
        if (a.k == Val::BV) { Val c = concInt(s, a); return vFP((double) c.i, tb); }
        if (decide(s, mk(Cond::LT0, ipoly(a)))) return vPF(X.add(ipoly(a), X.constant(powl(2, fb))), tb);
        return vPF(ipoly(a), tb);
    case Instruction::PtrToInt:
        if (a.k == Val::PTR) return vInt(bitsOf(a), tb);
        return a;
    case Instruction::IntToPtr:
    {
        Val c = concInt(s, a);
        return ptrFromInt(s, c.i);
    }
    case Instruction::BitCast:
    {
        if (from == to) return a;
        std::vector<Val> src;
        auto flat = [&](const Val& v, unsigned bits)
        {
            if (v.k == Val::BYTES) { for (auto& x : v.agg()) src.push_back(x); }
            else { Val w = v; if (w.k == Val::UNDEF) w.bits = (uint8_t) bits; src.push_back(w); }
        };
        if (a.k == Val::AGG) { for (auto& x : a.agg()) flat(x, tbits(from->getScalarType())); }
        else if (a.k == Val::UNDEF) return undefVal(to);
        else flat(a, fb);
        // Regroup into destination elements.
        Type* et = to->getScalarType(); unsigned eb = tbits(et);
        unsigned ne = to->isVectorTy() ? cast<FixedVectorType>(to)->getNumElements() : 1;
        // Use a scratch object.
        Obj o; o.size = 64; unsigned p = 0;
        for (auto& x : src) { Cell c; c.v = x; c.size = valSize(x); o.cells[p] = c; p += c.size; }
        std::vector<Val> r;
        for (unsigned i = 0; i < ne; ++i) { Val v = readScalar(s, o, i * (eb / 8), eb / 8, et); if (v.k == Val::UNDEF) v.bits = (uint8_t) eb; r.push_back(v); }
        return to->isVectorTy() ? vAgg(r) : r[0];
    }
    case Instruction::AddrSpaceCast: return a;
    }
    throw Unsupported("cast");
}
static Val selectV(State& s, const Val& c, const Val& a, const Val& b)
{
    if (c.k == Val::UNDEF)
    {
        if (a.k == b.k && a.conc() && a.i == b.i) return a;
        return Val();
    }
    if (c.k == Val::INT) return c.i & 1 ? a : b;
    if (a.k == Val::INT && b.k == Val::INT && a.bits == 1)
    {
        if (a.i && !b.i) return c;
        if (!a.i && b.i) return vCond(mkNot(c.cond()));
    }
    auto isB = [](const Val& v) { return v.k == Val::COND || (v.k == Val::INT && v.bits == 1); };
    if (isB(a) && isB(b))
    {
        if (b.k == Val::INT && !b.i && a.k == Val::COND) return vCond(mk2(Cond::AND, c.cond(), a.cond()));
        if (a.k == Val::INT && a.i && b.k == Val::COND) return vCond(mk2(Cond::OR, c.cond(), b.cond()));
        if (a.k == Val::INT && !a.i && b.k == Val::COND) return vCond(mk2(Cond::AND, mkNot(c.cond()), b.cond()));
        if (b.k == Val::INT && b.i && a.k == Val::COND) return vCond(mk2(Cond::OR, mkNot(c.cond()), a.cond()));
    }
    if (a.k == Val::PFP && b.k == Val::PFP && sameP(a.poly(), b.poly())) return a;
    if (a.k == Val::PINT && b.k == Val::PINT && sameP(a.poly(), b.poly())) return a;
    return decide(s, c.cond()) ? a : b;
}
static Val binOp(State& s, const BinaryOperator* I, unsigned op, const Val& a, const Val& b, Type* t)
{
    if (t->isVectorTy())
    {
        std::vector<Val> r; unsigned n = cast<FixedVectorType>(t)->getNumElements();
        for (unsigned i = 0; i < n; ++i) r.push_back(binOp(s, I, op, a.k == Val::UNDEF ? Val() : a.agg()[i], b.k == Val::UNDEF ? Val() : b.agg()[i], t->getScalarType()));
        return vAgg(r);
    }
    if (t->isFloatingPointTy()) return fpBin(s, op, a, b, tbits(t));
    bool nsw = false, nuw = false;
    if (auto* o = dyn_cast<OverflowingBinaryOperator>(I)) { nsw = o->hasNoSignedWrap(); nuw = o->hasNoUnsignedWrap(); }
    if (tbits(t) > 64) throw Unsupported("wide integer arithmetic");
    return intBin(s, op, a, b, tbits(t), nsw, nuw);
}
static Val minmaxInt(State& s, unsigned pred, const Val& a, const Val& b, unsigned bits)
{
    Val c = icmp(s, pred, a, b, bits);
    return selectV(s, c, a, b);
}
#include "calls.h"
