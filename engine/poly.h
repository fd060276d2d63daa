// Exact-arithmetic abstraction of floating point values: multivariate
// (Laurent) polynomials over "atoms".  An atom is an input variable or an
// application of a non-polynomial function (cos, sin, exp, sqrt, reciprocal,
// floor, uninterpreted function) to polynomials.  Products are kept in a
// normal form: at most one trigonometric atom per monomial (product-to-sum),
// at most one exponential, square roots only to the first power.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>
#include <stdexcept>
#include <algorithm>

typedef long double LD;
struct Unsupported : std::runtime_error
{
    Unsupported(const std::string& s) : std::runtime_error(s) {}
};

enum AtomKind { A_VAR, A_COS, A_SIN, A_EXP, A_SQRT, A_INV, A_FLOOR, A_RINT, A_UF };

typedef std::vector<std::pair<int, int> > MonoKey; // sorted (atom, exponent)
struct Poly;
typedef std::shared_ptr<const Poly> P;
struct Poly
{
    std::vector<std::pair<int, LD> > t; // sorted by mono id, non-zero coefs
    bool isConst() const { return t.empty() || (t.size() == 1 && t[0].first == 0); }
    LD constant() const { return (!t.empty() && t[0].first == 0) ? t[0].second : 0; }
};
struct Atom
{
    AtomKind kind;
    std::string name;
    std::vector<P> args;
    LD lo, hi;
    bool isInt;
};

extern LD g_tol;            // relative tolerance on coefficients
static const LD CANCEL = 1e-14L;

struct PolyCtx
{
    std::vector<Atom> atoms;
    std::vector<MonoKey> monos;
    std::map<MonoKey, int> monoIds;
    std::map<std::string, std::vector<int> > atomIndex;
    std::unordered_map<uint64_t, P> mulCache;
    P zero, one;
    PolyCtx()
    {
        monos.push_back(MonoKey());
        monoIds[MonoKey()] = 0;
        zero = std::make_shared<Poly>();
        one = constant(1);
    }
    P constant(LD c)
    {
        auto p = std::make_shared<Poly>();
        if (c != 0) p->t.push_back(std::make_pair(0, c));
        return p;
    }
    int mono(const MonoKey& k)
    {
        auto it = monoIds.find(k);
        if (it != monoIds.end()) return it->second;
        int id = (int) monos.size();
        monos.push_back(k);
        monoIds[k] = id;
        return id;
    }
    P single(int m, LD c)
    {
        auto p = std::make_shared<Poly>();
        if (c != 0) p->t.push_back(std::make_pair(m, c));
        return p;
    }
    P atomPoly(int a, int e = 1)
    {
        MonoKey k;
        k.push_back(std::make_pair(a, e));
        return single(mono(k), 1);
    }
    P var(const std::string& name, LD lo, LD hi, bool isInt)
    {
        Atom a; a.kind = A_VAR; a.name = name; a.lo = lo; a.hi = hi; a.isInt = isInt;
        atoms.push_back(a);
        return atomPoly((int) atoms.size() - 1);
    }
    static bool tiny(LD r, LD a, LD b)
    {
        LD m = std::max(fabsl(a), fabsl(b));
        return fabsl(r) <= CANCEL * m;
    }
    P add(const P& a, const P& b, LD fb = 1)
    {
        if (b->t.empty() || fb == 0) return a;
        if (a->t.empty() && fb == 1) return b;
        auto p = std::make_shared<Poly>();
        p->t.reserve(a->t.size() + b->t.size());
        size_t i = 0, j = 0;
        while (i < a->t.size() || j < b->t.size())
        {
            if (j >= b->t.size() || (i < a->t.size() && a->t[i].first < b->t[j].first)) p->t.push_back(a->t[i++]);
            else if (i >= a->t.size() || b->t[j].first < a->t[i].first)
            {
                p->t.push_back(std::make_pair(b->t[j].first, fb * b->t[j].second)); j++;
            }
            else
            {
                LD y = fb * b->t[j].second, r = a->t[i].second + y;
                if (!tiny(r, a->t[i].second, y)) p->t.push_back(std::make_pair(a->t[i].first, r));
                i++; j++;
            }
        }
        return p;
    }
    P sub(const P& a, const P& b) { return add(a, b, -1); }
    P scale(const P& a, LD c)
    {
        if (c == 1) return a;
        auto p = std::make_shared<Poly>();
        if (c == 0) return p;
        p->t = a->t;
        for (auto& x : p->t) x.second *= c;
        return p;
    }
    bool isSpecial(AtomKind k) { return k == A_COS || k == A_SIN || k == A_EXP || k == A_SQRT; }
    // Approximate structural equality.
    bool same(const P& a, const P& b, LD tol)
    {
        if (a == b) return true;
        P d = sub(a, b);
        LD m = 0;
        for (auto& x : a->t) m = std::max(m, fabsl(x.second));
        for (auto& x : b->t) m = std::max(m, fabsl(x.second));
        for (auto& x : d->t) if (fabsl(x.second) > tol * m) return false;
        return true;
    }
    int findAtom(AtomKind k, const std::string& name, const std::vector<P>& args, bool isInt = false)
    {
        std::string key = std::to_string((int) k) + name;
        auto& v = atomIndex[key];
        // Functions with steps: only the same argument gives the same value.
        const LD tol = k == A_FLOOR || k == A_RINT ? std::min(g_tol, (LD) 1e-13L) : g_tol;
        for (int id : v)
        {
            bool ok = true;
            for (size_t i = 0; ok && i < args.size(); ++i) ok = same(atoms[id].args[i], args[i], tol);
            if (ok) return id;
        }
        Atom a; a.kind = k; a.name = name; a.args = args; a.isInt = isInt;
        a.lo = -INFINITY; a.hi = INFINITY;
        if (k == A_COS || k == A_SIN) { a.lo = -1; a.hi = 1; }
        if (k == A_SQRT || k == A_EXP) a.lo = 0;
        if (k == A_SQRT)
        {
            LD l, h; interval(args[0], l, h);
            if (h >= 0) a.hi = sqrtl(h);
            if (l > 0) a.lo = sqrtl(l);
        }
        if (k == A_FLOOR || k == A_RINT)
        {
            LD l, h; interval(args[0], l, h);
            a.lo = floorl(l) - (k == A_RINT); a.hi = floorl(h) + (k == A_RINT); a.isInt = true;
        }
        if (k == A_INV)
        {
            LD l, h; interval(args[0], l, h);
            if (l > 0 || h < 0) { a.lo = 1 / h; a.hi = 1 / l; }
        }
        atoms.push_back(a);
        v.push_back((int) atoms.size() - 1);
        return (int) atoms.size() - 1;
    }
    P trig(bool isCos, const P& p)
    {
        LD c0 = p->constant();
        P q = c0 != 0 ? sub(p, constant(c0)) : p;
        LD C = cosl(c0), S = sinl(c0);
        if (fabsl(C) < 1e-11L) C = 0;
        if (fabsl(S) < 1e-11L) S = 0;
        // Drop negligible terms (rounding of constants).
        LD m = 0;
        for (auto& x : q->t) m = std::max(m, fabsl(x.second));
        if (m < 1e-13L) return constant(isCos ? C : S);
        bool neg = false;
        // Sign convention: coefficient of largest magnitude first seen positive.
        for (auto& x : q->t) if (fabsl(x.second) > 1e-6L * m) { neg = x.second < 0; break; }
        if (neg) q = scale(q, -1);
        std::vector<P> args(1, q);
        P pc = C != 0 || S != 0 ? P() : zero;
        P pC = atomPoly(findAtom(A_COS, "", args)), pS = atomPoly(findAtom(A_SIN, "", args));
        if (neg) pS = scale(pS, -1);
        if (isCos) return add(scale(pC, C), scale(pS, -S));
        return add(scale(pC, S), scale(pS, C));
    }
    P exp_(const P& p)
    {
        LD c0 = p->constant();
        P q = c0 != 0 ? sub(p, constant(c0)) : p;
        if (q->t.empty()) return constant(expl(c0));
        return scale(atomPoly(findAtom(A_EXP, "", std::vector<P>(1, q))), expl(c0));
    }
    P sqrt_(const P& p)
    {
        if (p->isConst()) return constant(sqrtl(p->constant()));
        return atomPoly(findAtom(A_SQRT, "", std::vector<P>(1, p)));
    }
    P uf(const std::string& name, const std::vector<P>& args)
    {
        return atomPoly(findAtom(A_UF, name, args));
    }
    P floor_(const P& p)
    {
        if (isIntegral(p)) return p;
        LD c0 = p->constant();
        LD k = floorl(c0);
        P q = k != 0 ? sub(p, constant(k)) : p;
        return add(atomPoly(findAtom(A_FLOOR, "", std::vector<P>(1, q), true)), constant(k));
    }
    P rint_(const P& p)
    {
        if (isIntegral(p)) return p;
        return atomPoly(findAtom(A_RINT, "", std::vector<P>(1, p), true));
    }
    bool isIntegral(const P& p)
    {
        for (auto& x : p->t)
        {
            if (x.second != floorl(x.second)) return false;
            for (auto& ae : monos[x.first]) if (!atoms[ae.first].isInt || ae.second < 0) return false;
        }
        return true;
    }
    P inv(const P& q)
    {
        if (q->isConst()) return constant(1 / q->constant());
        if (q->t.size() == 1)
        {
            const MonoKey& k = monos[q->t[0].first];
            bool plain = true;
            for (auto& ae : k)
            {
                AtomKind kk = atoms[ae.first].kind;
                if (kk == A_COS || kk == A_SIN) plain = false;
            }
            if (plain)
            {
                P r = constant(1 / q->t[0].second);
                for (auto& ae : k)
                {
                    const Atom at = atoms[ae.first];
                    if (at.kind == A_EXP) r = mul(r, exp_(scale(at.args[0], -ae.second)));
                    else if (at.kind == A_SQRT) r = mul(r, mul(atomPoly(ae.first), inv(at.args[0])));
                    else if (at.kind == A_INV) { for (int i = 0; i < ae.second; ++i) r = mul(r, at.args[0]); }
                    else r = mul(r, atomPoly(ae.first, -ae.second));
                }
                return r;
            }
        }
        LD lead = 0, m = 0;
        for (auto& x : q->t) m = std::max(m, fabsl(x.second));
        for (auto& x : q->t) if (fabsl(x.second) > 1e-6L * m) { lead = x.second; break; }
        P n = scale(q, 1 / lead);
        return scale(atomPoly(findAtom(A_INV, "", std::vector<P>(1, n))), 1 / lead);
    }
    P div(const P& a, const P& b)
    {
        if (b->isConst()) return scale(a, 1 / b->constant());
        // Exact multiple?
        if (a->t.size() == b->t.size() && !a->t.empty())
        {
            LD r = a->t[0].second / b->t[0].second;
            if (same(a, scale(b, r), 1e-15L)) return constant(r);
        }
        return mul(a, inv(b));
    }
    bool monoSpecial(int m)
    {
        for (auto& ae : monos[m]) if (isSpecial(atoms[ae.first].kind)) return true;
        return false;
    }
    P mulMono(int m1, int m2)
    {
        if (m1 > m2) std::swap(m1, m2);
        if (m1 == 0) return single(m2, 1);
        uint64_t key = ((uint64_t) m1 << 32) | (uint32_t) m2;
        auto it = mulCache.find(key);
        if (it != mulCache.end()) return it->second;
        std::map<int, int> ex;
        for (auto& ae : monos[m1]) ex[ae.first] += ae.second;
        for (auto& ae : monos[m2]) ex[ae.first] += ae.second;
        MonoKey base;
        std::vector<int> trigs;
        P expArg;
        int nExp = 0, expAtom = -1;
        P extra = one;
        for (auto& ae : ex)
        {
            if (ae.second == 0) continue;
            const Atom at = atoms[ae.first];
            if (at.kind == A_COS || at.kind == A_SIN) { for (int i = 0; i < ae.second; ++i) trigs.push_back(ae.first); }
            else if (at.kind == A_EXP)
            {
                P a = scale(at.args[0], ae.second);
                expArg = expArg ? add(expArg, a) : a;
                nExp += ae.second; expAtom = ae.first;
            }
            else if (at.kind == A_SQRT && ae.second >= 2)
            {
                for (int i = 0; i < ae.second / 2; ++i) extra = mul(extra, at.args[0]);
                if (ae.second & 1) base.push_back(ae);
            }
            else base.push_back(ae);
        }
        if (nExp == 1 && trigs.empty()) { base.push_back(std::make_pair(expAtom, 1)); std::sort(base.begin(), base.end()); nExp = 0; }
        if (trigs.size() == 1 && nExp == 0) { base.push_back(std::make_pair(trigs[0], 1)); std::sort(base.begin(), base.end()); trigs.clear(); }
        P r = single(mono(base), 1);
        if (trigs.size() == 2)
        {
            const Atom a = atoms[trigs[0]], b = atoms[trigs[1]];
            P s = add(a.args[0], b.args[0]), d = sub(a.args[0], b.args[0]);
            P x;
            if (a.kind == A_COS && b.kind == A_COS) x = add(trig(true, d), trig(true, s));
            else if (a.kind == A_SIN && b.kind == A_SIN) x = sub(trig(true, d), trig(true, s));
            else if (a.kind == A_SIN) x = add(trig(false, s), trig(false, d));
            else x = sub(trig(false, s), trig(false, d));
            r = mul(r, scale(x, 0.5L));
            if (nExp) r = mul(r, exp_(expArg));
        }
        else if (trigs.size() == 1) // with exponential
        {
            MonoKey k = monos[r->t[0].first];
            k.push_back(std::make_pair(trigs[0], 1));
            P e = exp_(expArg);
            if (e->isConst()) { std::sort(k.begin(), k.end()); r = single(mono(k), e->constant()); }
            else
            {
                for (auto& ae : monos[e->t[0].first]) k.push_back(ae);
                std::sort(k.begin(), k.end());
                r = single(mono(k), e->t[0].second);
            }
        }
        else if (trigs.empty() && nExp) 
        {
            P e = exp_(expArg);
            if (e->isConst()) r = scale(r, e->constant());
            else
            {
                MonoKey k = monos[r->t[0].first];
                for (auto& ae : monos[e->t[0].first]) k.push_back(ae);
                std::sort(k.begin(), k.end());
                r = single(mono(k), e->t[0].second);
            }
        }
        if (!(extra->isConst() && extra->constant() == 1)) r = mul(r, extra);
        mulCache[key] = r;
        return r;
    }
    P mul(const P& a, const P& b)
    {
        if (a->t.empty() || b->t.empty()) return zero;
        if (a->isConst()) return scale(b, a->constant());
        if (b->isConst()) return scale(a, b->constant());
        if (a->t.size() * b->t.size() > 4000000) throw Unsupported("polynomial too large");
        std::unordered_map<int, std::pair<LD, LD> > acc; // value, max magnitude
        for (auto& x : a->t)
        {
            for (auto& y : b->t)
            {
                P m = mulMono(x.first, y.first);
                LD c = x.second * y.second;
                for (auto& z : m->t)
                {
                    auto& s = acc[z.first];
                    s.first += c * z.second;
                    s.second = std::max(s.second, fabsl(c * z.second));
                }
            }
        }
        auto p = std::make_shared<Poly>();
        for (auto& x : acc) if (fabsl(x.second.first) > CANCEL * x.second.second) p->t.push_back(std::make_pair(x.first, x.second.first));
        std::sort(p->t.begin(), p->t.end());
        return p;
    }
    void interval(const P& p, LD& lo, LD& hi)
    {
        lo = hi = 0;
        for (auto& x : p->t)
        {
            LD l = x.second, h = x.second;
            for (auto& ae : monos[x.first])
            {
                const Atom& a = atoms[ae.first];
                LD al = a.lo, ah = a.hi;
                int e = ae.second;
                if (e < 0)
                {
                    if (al > 0 || ah < 0) { LD t = 1 / ah; ah = 1 / al; al = t; e = -e; }
                    else { lo = -INFINITY; hi = INFINITY; return; }
                }
                if (std::isinf((double) al) || std::isinf((double) ah)) { lo = -INFINITY; hi = INFINITY; return; }
                LD pl = al, ph = ah;
                if (e > 1)
                {
                    LD a1 = powl(al, e), a2 = powl(ah, e);
                    pl = std::min(a1, a2); ph = std::max(a1, a2);
                    if (e % 2 == 0 && al < 0 && ah > 0) pl = 0;
                }
                LD c[4] = {l * pl, l * ph, h * pl, h * ph};
                l = *std::min_element(c, c + 4); h = *std::max_element(c, c + 4);
            }
            lo += l; hi += h;
        }
        if (!(lo == lo)) lo = -INFINITY;
        if (!(hi == hi)) hi = INFINITY;
    }
    // Multiply out reciprocals: returns a polynomial that is zero iff p is
    // (given that all denominators are non-zero).
    P clearDenominators(P p)
    {
        for (int guard = 0; guard < 50; ++guard)
        {
            int target = -1, deg = 0;
            for (auto& x : p->t)
                for (auto& ae : monos[x.first])
                    if (atoms[ae.first].kind == A_INV && (target < 0 || ae.first >= target))
                    {
                        deg = (ae.first == target) ? std::max(deg, ae.second) : ae.second;
                        target = ae.first;
                    }
            if (target >= 0)
            {
                const P q = atoms[target].args[0];
                P r = zero;
                for (auto& x : p->t)
                {
                    MonoKey k; int e = 0;
                    for (auto& ae : monos[x.first]) { if (ae.first == target) e = ae.second; else k.push_back(ae); }
                    P term = single(mono(k), x.second);
                    for (int i = e; i < deg; ++i) term = mul(term, q);
                    r = add(r, term);
                }
                p = r;
                continue;
            }
            // Negative exponents.
            std::map<int, int> neg;
            for (auto& x : p->t) for (auto& ae : monos[x.first]) if (ae.second < 0) neg[ae.first] = std::min(neg[ae.first], ae.second);
            if (neg.empty()) return p;
            P f = one;
            for (auto& n : neg) f = mul(f, atomPoly(n.first, -n.second));
            p = mul(p, f);
        }
        return p;
    }
    LD evalAtom(int a, const std::map<int, LD>& vals, std::map<int, LD>& memo)
    {
        auto it = vals.find(a);
        if (it != vals.end()) return it->second;
        auto im = memo.find(a);
        if (im != memo.end()) return im->second;
        const Atom& at = atoms[a];
        LD r = 0;
        switch (at.kind)
        {
        case A_VAR: r = 0; break;
        case A_COS: r = cosl(eval(at.args[0], vals, memo)); break;
        case A_SIN: r = sinl(eval(at.args[0], vals, memo)); break;
        case A_EXP: r = expl(eval(at.args[0], vals, memo)); break;
        case A_SQRT: r = sqrtl(eval(at.args[0], vals, memo)); break;
        case A_INV: r = 1 / eval(at.args[0], vals, memo); break;
        case A_FLOOR: r = floorl(eval(at.args[0], vals, memo)); break;
        case A_RINT: r = rintl(eval(at.args[0], vals, memo)); break;
        case A_UF: r = 0.5L; for (auto& x : at.args) r += sinl(eval(x, vals, memo) * 1.7L); break;
        }
        memo[a] = r;
        return r;
    }
    LD eval(const P& p, const std::map<int, LD>& vals, std::map<int, LD>& memo)
    {
        LD s = 0;
        for (auto& x : p->t)
        {
            LD t = x.second;
            for (auto& ae : monos[x.first]) { LD v = evalAtom(ae.first, vals, memo); t *= powl(v, ae.second); }
            s += t;
        }
        return s;
    }
    std::string str(const P& p)
    {
        std::string s;
        int n = 0;
        for (auto& x : p->t)
        {
            if (n++ > 6) { s += " + ..."; break; }
            char buf[64]; snprintf(buf, sizeof buf, "%.6Lg", x.second);
            if (!s.empty()) s += " + ";
            s += buf;
            for (auto& ae : monos[x.first])
            {
                const Atom& a = atoms[ae.first];
                s += "*";
                const char* nm[] = {"", "cos", "sin", "exp", "sqrt", "inv", "floor", "rint", ""};
                if (a.kind == A_VAR) s += a.name;
                else { s += nm[a.kind]; s += a.name + "("; for (auto& g : a.args) s += str(g) + ","; s += ")"; }
                if (ae.second != 1) s += "^" + std::to_string(ae.second);
            }
        }
        return s.empty() ? "0" : s;
    }
};
