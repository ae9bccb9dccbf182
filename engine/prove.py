"""Obligation discharge: canonical rational-function normal form, case splitting on ite
conditions, congruence on uninterpreted applications and folds, then z3 (and cvc5)."""
from terms import *
import time, z3, random, math, os
from fractions import Fraction
STATS = {'nf': 0, 'z3': 0, 'cvc5': 0, 'split': 0, 'z3_time': 0.0, 'syntactic': 0}
DEADLINE = [None]
class Timeout(Exception): pass
def tick():
    if DEADLINE[0] is not None and time.time() > DEADLINE[0]: raise Timeout()

# ------------------------------------------------------------------ normal form
class TooBig(Exception): pass
MAXMONO = [60000]
_nf = {}
def pmul(a, b):
    if len(a) > len(b): a, b = b, a
    if len(a) == 1:
        (ma, ka), = a.items()
        if not ma: return {m: k * ka for m, k in b.items()}
    if len(a) * len(b) > MAXMONO[0] * 20: raise TooBig()
    out = {}; tick()
    for ma, ka in a.items():
        for mb, kb in b.items():
            m, c, extra = mmul(ma, mb)
            k = ka * kb * c
            if extra is None:
                v = out.get(m, 0) + k
                if v: out[m] = v
                else: out.pop(m, None)
            else:
                for m2, k2 in pmul({m: k}, extra).items():
                    v = out.get(m2, 0) + k2
                    if v: out[m2] = v
                    else: out.pop(m2, None)
    if len(out) > MAXMONO[0]: raise TooBig()
    return out
_mm = {}
def mmul(a, b):
    """product of monomials: (monomial, coef, extra polynomial or None)"""
    if not a: return b, 1, None
    if not b: return a, 1, None
    key = (a, b)
    r = _mm.get(key)
    if r is not None: return r
    d = dict(a)
    for t, e in b:
        d[t] = d.get(t, 0) + e
    extra = None; c = 1
    for t in list(d):
        e = d[t]
        if e == 0: del d[t]; continue
        if t.op == 'sqrt' and not (0 <= e <= 1):
            q, r_ = divmod(e, 2)
            if r_: d[t] = 1
            else: del d[t]
            p = ppow(nf(t.args[0]), q)
            extra = p if extra is None else pmul(extra, p)
        elif t.op == 'abs' and not (0 <= e <= 1):
            q, r_ = divmod(e, 2)
            if r_: d[t] = 1
            else: del d[t]
            p = ppow(nf(t.args[0]), 2 * q)
            extra = p if extra is None else pmul(extra, p)
    m = tuple(sorted(d.items(), key=lambda x: x[0].id))
    r = (m, c, extra)
    if len(_mm) > 2000000: _mm.clear()
    _mm[key] = r
    return r
def padd(a, b, k=1):
    out = dict(a)
    for m, v in b.items():
        w = out.get(m, 0) + v * k
        if w: out[m] = w
        else: out.pop(m, None)
    return out
def poly_T(p, sort='R'):
    parts = []
    for m, k in p.items():
        t = mul(*[powi(b, e) for b, e in m]) if m else num(1, sort)
        parts.append(scale(t, k))
    return add(*parts) if parts else num(0, sort)
def ppow(p, n):
    if n >= 0:
        r = {(): Fraction(1)}
        for _ in range(n): r = pmul(r, p)
        return r
    if len(p) == 1:
        (m, k), = p.items()
        if k == 0: raise TooBig()
        inv = tuple((b, -e) for b, e in m)
        r = {(): Fraction(1)}
        # negative sqrt exponents get normalised by mmul through pmul
        q = {(): Fraction(1) / k}
        for b, e in inv: q = pmul(q, mono_pow(b, e))
        for _ in range(-n): r = pmul(r, q)
        return r
    if not p: return {((mk('inv0', (), 'R'), 1),): Fraction(1)}
    # sum: keep as an atom with negative exponent, leading coefficient normalised
    t = poly_T(p)
    k = t.args[1][0][1] if t.op == 'lin' else 1
    t = scale(t, Fraction(1) / k)
    return {((t, n),): Fraction(k) ** n}
def mono_pow(b, e):
    if b.op == 'sqrt' and not 0 <= e <= 1:
        q, r = divmod(e, 2)
        p = ppow(nf(b.args[0]), q)
        return pmul(p, {((b, 1),): Fraction(1)}) if r else p
    if b.op == 'abs' and not 0 <= e <= 1:
        q, r = divmod(e, 2)
        p = ppow(nf(b.args[0]), 2 * q)
        return pmul(p, {((b, 1),): Fraction(1)}) if r else p
    return {((b, e),): Fraction(1)}
def isqrt_frac(v):
    n, d = math.isqrt(v.numerator), math.isqrt(v.denominator)
    if n * n == v.numerator and d * d == v.denominator: return Fraction(n, d)
    return None
def nf(t):
    r = _nf.get(t)
    if r is not None: return r
    o = t.op
    if o == 'num': r = {(): Fraction(t.args[0])} if t.args[0] != 0 else {}
    elif o == 'lin':
        r = {(): Fraction(t.args[0])} if t.args[0] != 0 else {}
        for x, k in t.args[1]: r = padd(r, nf(x), k)
    elif o == 'prod':
        r = {(): Fraction(1)}
        for b, e in t.args[0]: r = pmul(r, ppow(nf(b), e))
    elif o == 'sqrt':
        p = nf(t.args[0])
        if not p: r = {}
        elif len(p) == 1:
            (m, k), = p.items()
            out = {(): Fraction(1)}; rest = []
            for b, e in m:
                if b.op in ('sqrt',) : rest.append((b, e)); continue
                q, rr = divmod(e, 2)
                if q: out = pmul(out, ppow(nf(absr(b)), q))
                if rr: rest.append((b, 1))
            s = isqrt_frac(k) if k > 0 else None
            if s is not None: out = pmul(out, {(): s}); k = Fraction(1)
            if rest or k != 1:
                out = pmul(out, {((mk('sqrt', (poly_T({tuple(rest): k}),), 'R'), 1),): Fraction(1)})
            r = out
        else:
            x = poly_T(p)
            k = Fraction(x.args[1][0][1]) if x.op == 'lin' else Fraction(1)
            s = None
            if x.op == 'lin':
                # pull out a square content when it is a perfect square
                s = isqrt_frac(abs(k))
            if s is not None and s != 1:
                r = {((mk('sqrt', (scale(x, 1 / abs(k)),), 'R'), 1),): s}
            else: r = {((mk('sqrt', (x,), 'R'), 1),): Fraction(1)}
    elif o == 'abs':
        x = poly_T(nf(t.args[0])); y = absr(x)
        if y.op == 'abs' and y.args[0].op == 'prod':
            out = {(): Fraction(1)}
            for b, e in y.args[0].args[0]: out = pmul(out, mono_pow(absr(b), e)) if absr(b).op == 'abs' else pmul(out, ppow(nf(absr(b)), e))
            r = out
        elif y.op == 'abs' and y.args[0].op == 'lin' and y.args[0].args[0] == 0 and len(y.args[0].args[1]) == 1:
            z, k = y.args[0].args[1][0]
            r = pmul({(): abs(Fraction(k))}, nf(absr(z)))
        else: r = {((y, 1),): Fraction(1)} if y.op == 'abs' else nf(y)
    else:
        y = rebuild(t, norm) if o not in ('var', 'bv', 'av') else t
        if y.op in ('num', 'lin', 'prod') or (y.op in ('sqrt', 'abs') and y is not t): r = nf(y)
        else: r = {((y, 1),): Fraction(1)}
    _nf[t] = r
    return r
_norm = {}
def norm(t):
    r = _norm.get(t)
    if r is not None: return r
    tick()
    if t.sort in 'RI' and t.op not in ('nan',):
        p = nf(t)
        r = poly_T(p, t.sort) if t.sort == 'R' else poly_I(p)
    elif t.op in ('var', 'bv', 'av', 'true', 'false', 'nan', 'null', 'qempty', 'reg'): r = t
    else: r = rebuild(t, norm)
    _norm[t] = r; _norm[r] = r
    return r
def poly_I(p):
    parts = []
    for m, k in p.items():
        t = mul(*[powi(b, e) for b, e in m]) if m else I(1)
        parts.append(scale(t, int(k)))
    return add(*parts) if parts else I(0)
def zero(t):
    """decide t == 0 as a rational function over atoms"""
    if t.op == 'num': return t.args[0] == 0
    try:
        return pzero(nf(t))
    except TooBig: return False
def pzero(p):
    guard = 0
    while p:
        guard += 1
        if guard > 40: return False
        A = None
        for m in p:
            for b, e in m:
                if e < 0 and b.op == 'lin':
                    if A is None or size(b) > size(A): A = b
        if A is None: return False
        mx = 0
        for m in p:
            for b, e in m:
                if b is A and e < mx: mx = e
        out = {}
        pa = nf(A); pows = {0: {(): Fraction(1)}}
        groups = {}
        for m, k in p.items():
            e = 0; rest = []
            for b, x in m:
                if b is A: e = x
                else: rest.append((b, x))
            groups.setdefault(e - mx, {})[tuple(rest)] = k
        for e, g in groups.items():
            q = {(): Fraction(1)}
            for _ in range(e): q = pmul(q, pa)
            out = padd(out, pmul(q, g))
        p = out
    return True

# ------------------------------------------------------------------ z3
_z = {}
_zax = {}
ctx_funcs = {}
def zvar(t):
    n = '%s_%d' % (t.op, t.id)
    s = t.sort
    if s == 'R': return z3.Real(n)
    if s == 'I': return z3.Int(n)
    if s == 'B': return z3.Bool(n)
    return z3.Int(n)
def zfun(name, args, sort):
    zs = []
    for a in args:
        e = Z(a) if a.sort in 'RIBFPS' else None
        if e is None: return None
        zs.append(e)
    key = (name, tuple(a.sort for a in args), sort)
    f = ctx_funcs.get(key)
    if f is None:
        srt = {'R': z3.RealSort(), 'I': z3.IntSort(), 'B': z3.BoolSort()}
        f = z3.Function('f_%d_%s' % (len(ctx_funcs), name), *[srt.get(a.sort, z3.IntSort()) for a in args], srt.get(sort, z3.IntSort()))
        ctx_funcs[key] = f
    return f(*zs)
def zq(fr):
    return z3.Q(fr.numerator, fr.denominator) if fr.__class__ is Fraction else z3.RealVal(fr)
def Z(t):
    r = _z.get(t)
    if r is not None: return r
    o = t.op; a = t.args; ax = []
    if o == 'num': r = zq(a[0]) if t.sort == 'R' else z3.IntVal(a[0])
    elif o == 'true': r = z3.BoolVal(True)
    elif o == 'false': r = z3.BoolVal(False)
    elif o == 'lin':
        parts = [] if a[0] == 0 else [zq(a[0]) if t.sort == 'R' else z3.IntVal(a[0])]
        for x, k in a[1]:
            e = Z(x)
            parts.append(e if k == 1 else (zq(k) if t.sort == 'R' else z3.IntVal(int(k))) * e)
        r = z3.Sum(parts) if len(parts) > 1 else parts[0]
    elif o == 'prod':
        r = None
        for b, e in a[0]:
            zb = Z(b)
            if e < 0:
                # reciprocal as a fresh constant with its defining axiom
                iv = z3.Real('inv_%d' % b.id)
                ax.append(z3.Implies(zb != 0, iv * zb == 1))
                zb = iv
            for _ in range(abs(e)): r = zb if r is None else r * zb
    elif o == 'and': r = z3.And([Z(x) for x in a[0]])
    elif o == 'or': r = z3.Or([Z(x) for x in a[0]])
    elif o == 'not': r = z3.Not(Z(a[0]))
    elif o == 'ite': r = z3.If(Z(a[0]), Z(a[1]), Z(a[2]))
    elif o == 'lt0': r = Z(a[0]) < 0
    elif o == 'le0': r = Z(a[0]) <= 0
    elif o == 'eq0': r = Z(a[0]) == 0
    elif o == 'sqrt':
        r = zvar(t); x = Z(a[0]); ax += [r >= 0, z3.Implies(x >= 0, r * r == x), z3.Implies(x > 0, r > 0)]
    elif o == 'abs': x = Z(a[0]); r = z3.If(x >= 0, x, -x)
    elif o == 'toreal': r = z3.ToReal(Z(a[0]))
    elif o == 'toint':
        x = Z(a[0]); r = zvar(t)
        ax += [z3.Implies(x >= 0, z3.And(z3.ToReal(r) <= x, x < z3.ToReal(r) + 1)), z3.Implies(x < 0, z3.And(z3.ToReal(r) >= x, x > z3.ToReal(r) - 1))]
    elif o == 'idiv': r = Z(a[0]) / a[1]
    elif o == 'fn':
        r = zfun(a[0], a[1:], 'R')
        if a[0] in ('cos', 'sin'): ax += [r <= 1, r >= -1]
        if a[0] == 'acos': ax += [r >= 0, r <= zq(Fraction(math.pi) + Fraction(1, 10**15))]
        if a[0] == 'pow': ax += [z3.Implies(Z(a[1]) > 0, r > 0)]
    elif o == 'same':
        x, y = Z(a[0]), Z(a[1]); r = x == y
    elif o == 'ptr': r = zfun('ptr', a, 'P')
    elif o == 'len':
        r = zvar(t); ax.append(r >= 0)
    elif o in ('sel', 'uf', 'fld', 'streq', 'isnull', 'nanpow'):
        sc = [x for x in a if x.__class__ is T and x.sort in 'RIBFPS']
        tag = [x if x.__class__ is not T else ('Q%d' % norm_q(x).id if x.sort not in 'RIBFPS' else '') for x in a]
        r = zfun('%s:%s' % (o, tag), sc, t.sort) if sc else zvar(t)
        if a[0] == 'strlen': ax.append(r >= 0)
    elif o == 'First':
        r = zfun('First:%d' % a[1].id, [a[0]], 'I'); n = Z(a[0]); ax += [r >= 0, z3.Implies(n >= 0, r <= n)]
    elif o in ('Exists', 'LIdx'): r = zfun('%s:%d' % (o, a[1].id), [a[0]], t.sort)
    elif o == 'FIdx': r = zfun('FIdx:%d' % a[2].id, [a[0], a[1]], 'I')
    elif o == 'Fold': r = zfun('Fold:%d:%s' % (a[1], tuple(x.id for x in a[3])), [a[0]] + list(a[2]), t.sort) if all(x.sort in 'RIB' for x in a[2]) else zvar(t)
    elif o == 'Sum':
        r = zfun('Sum:%d' % a[1].id, [a[0]], t.sort)
        if _nonneg_T(t): ax.append(r >= 0)
    else: r = zvar(t)
    _z[t] = r
    if ax: _zax[t] = ax
    return r
def _nonneg_T(t):
    from terms import _nonneg
    if t.op == 'Sum' and t.sort == 'I':
        b = t.args[1]
        return b.op == 'ite' and all(x.op == 'num' and x.args[0] >= 0 for x in b.args[1:])
    return _nonneg(t)
def norm_q(t):
    try: return norm(t)
    except TooBig: return t
def axioms(ts):
    seen = set(); st = list(ts); out = []
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        if x in _zax: out += _zax[x]
        if x in FACTS:
            for f in FACTS[x]:
                out.append(Z(f)); st.append(f)
        for f in bfacts(x): out.append(Z(f)); st.append(f)
        if x.op in BINDERS:
            for i in FREEPOS[x.op]: st.extend(walk_args((x.args[i],)))
            continue
        st.extend(walk_args(x.args))
    return out
_bf = {}
def bfacts(t):
    """defining facts of the bounded-quantifier terms"""
    if t.op not in ('LIdx', 'FIdx', 'Sum') and not (t.op == 'Fold' and t.sort == 'I'): return ()
    r = _bf.get(t)
    if r is not None: return r
    r = []
    if t.op == 'LIdx':
        n = t.args[0]; k, g = open_(t); c = g(t.args[1])
        r = [implies(Exists(n, k, c), and_(le(I(0), t), lt(t, n), subst(c, {k: t})))]
    elif t.op == 'FIdx':
        n, q = t.args[0], t.args[1]; k, g = open_(t); c = g(t.args[2])
        r = [implies(and_(le(I(0), q), lt(q, Sum(n, k, ite(c, I(1), I(0))))), and_(le(I(0), t), lt(t, n), subst(c, {k: t}), eq(Sum(t, k, ite(c, I(1), I(0))), q)))]
    elif t.op == 'Fold':     # an index updated to some function of the iteration, or kept
        k, accs, steps = open_fold(t); n, c = t.args[0], t.args[1]; alt = [eq(t, t.args[2][c])]
        st = [steps[c]]
        while st:
            x = st.pop()
            if x.op == 'ite': st += [x.args[1], x.args[2]]; continue
            if x is accs[c]: continue
            if x.fv & set(accs): return r
            if k not in x.fv: alt.append(and_(lt(I(0), n), eq(t, x))); continue
            d = sub(x, k)
            if k in d.fv: return r
            alt.append(and_(lt(I(0), n), le(d, t), le(t, add(d, sub(n, I(1))))))
        r = [or_(*alt)]
    elif t.sort == 'I':
        b = t.args[1]
        if b.op == 'ite' and b.args[1].op == 'num' and b.args[2].op == 'num' and {b.args[1].args[0], b.args[2].args[0]} == {0, 1}:
            k, g = open_(t); c = g(b.args[0])
            if b.args[1].args[0] == 0: c = not_(c)
            n = t.args[0]; raw = lambda d: mk('lt0', (d,), 'B')     # not lt0, which would rewrite the fact away
            r = [le(I(0), t), iff(raw(neg(t)), Exists(n, k, c))]
            if _nonneg_T(n): r += [le(t, n), iff(raw(sub(t, n)), Exists(n, k, not_(c)))]
    _bf[t] = r
    return r
FACTS = {}      # term -> list of facts known about it (assumed, listed as trusted)
_cache = {}
def zcheck(hyps, timeout):
    """'unsat' / 'sat' / 'unknown' of the conjunction; returns (result, model)"""
    key = (frozenset(hyps), timeout)
    if key in _cache: return _cache[key]
    tick()
    t0 = time.time()
    s = z3.Solver(); s.set('timeout', timeout)
    es = [Z(h) for h in hyps]
    for e in es: s.add(e)
    for e in axioms(hyps): s.add(e)
    r = str(s.check())
    STATS['z3_time'] += time.time() - t0
    m = s.model() if r == 'sat' else None
    _cache[key] = (r, m)
    return r, m

_zl = {}
def ZL(t):
    """like Z, with every product, root and application an unknown of its own"""
    r = _zl.get(t)
    if r is not None: return r
    o = t.op; a = t.args
    if o in ('num', 'true', 'false'): r = Z(t)
    elif o == 'lin':
        parts = [] if a[0] == 0 else [zq(a[0]) if t.sort == 'R' else z3.IntVal(a[0])]
        for x, k in a[1]: parts.append(ZL(x) if k == 1 else (zq(k) if t.sort == 'R' else z3.IntVal(int(k))) * ZL(x))
        r = z3.Sum(parts) if len(parts) > 1 else parts[0]
    elif o == 'and': r = z3.And([ZL(x) for x in a[0]])
    elif o == 'or': r = z3.Or([ZL(x) for x in a[0]])
    elif o == 'not': r = z3.Not(ZL(a[0]))
    elif o == 'ite': r = z3.If(ZL(a[0]), ZL(a[1]), ZL(a[2]))
    elif o == 'lt0': r = ZL(a[0]) < 0
    elif o == 'le0': r = ZL(a[0]) <= 0
    elif o == 'eq0': r = ZL(a[0]) == 0
    elif o == 'abs': x = ZL(a[0]); r = z3.If(x >= 0, x, -x)
    else: r = zvar(t)
    _zl[t] = r; return r
def zlinear(hyps):
    s = z3.Solver(); s.set('timeout', 400); t0 = time.time()
    for h in hyps: s.add(ZL(h))
    r = s.check() == z3.unsat
    STATS['z3_time'] += time.time() - t0; return r
# ------------------------------------------------------------------ simplification under hypotheses
def literals(hyps):
    d = {}
    st = list(hyps)
    while st:
        h = st.pop()
        if h.op == 'and': st.extend(h.args[0]); continue
        d[h] = TRUE; d[not_(h)] = FALSE
        if h.op == 'lt0':
            d[le0(h.args[0])] = TRUE
            e = eq0(h.args[0]); d[e] = FALSE; d[not_(e)] = TRUE
            d[not_(le0(h.args[0]))] = FALSE
            d[lt0(neg(h.args[0]))] = FALSE; d[not_(lt0(neg(h.args[0])))] = TRUE
            d[le0(neg(h.args[0]))] = FALSE
        elif h.op == 'eq0':
            x = h.args[0]
            for c in (lt0(x), lt0(neg(x))): d[c] = FALSE; d[not_(c)] = TRUE
        elif h.op == 'streq':
            d['str', h.args[0]] = h.args[1]
    d.pop(TRUE, None); d.pop(FALSE, None)
    return d
def simp(t, d, memo=None):
    if memo is None: memo = {}
    def go(t):
        r = d.get(t)
        if r is not None: return r
        if t.op in ('var', 'num', 'bv', 'av'): return t
        r = memo.get(t)
        if r is not None: return r
        if t.op == 'streq' and ('str', t.args[0]) in d and d['str', t.args[0]] != t.args[1]: r = FALSE
        elif t.op == 'ite':
            c = go(t.args[0])
            r = go(t.args[1]) if c is TRUE else go(t.args[2]) if c is FALSE else ite(c, go(t.args[1]), go(t.args[2]))
        else:
            r = rebuild(t, go)
            r2 = d.get(r)
            if r2 is not None: r = r2
        memo[t] = r
        return r
    return go(t)
def find_ite(t, depth=[0]):
    """an ite condition occurring in t (outside binders), innermost-first free of ites"""
    seen = set()
    def go(t):
        if t in seen: return None
        seen.add(t)
        if t.op in BINDERS:
            for i in FREEPOS[t.op]:
                x = t.args[i]
                for y in ([x] if x.__class__ is T else walk_args(x)):
                    c = go(y)
                    if c is not None: return c
            return None
        if t.op == 'ite':
            c = go(t.args[0])
            return c if c is not None else atom_of(t.args[0])
        for x in walk_args(t.args):
            c = go(x)
            if c is not None: return c
        return None
    return go(t)
_hasite = {}
def has_ite(t):
    r = _hasite.get(t)
    if r is None: r = _hasite[t] = find_ite(t) is not None
    return r
def simp_hyps(hyps):
    flat = []
    for h in hyps:
        if h.op == 'and': flat.extend(h.args[0])
        else: flat.append(h)
    big = [h for h in flat if has_ite(h)]
    if not big: return None
    small = [h for h in flat if not has_ite(h)]
    d = literals(small); memo = {}; ch = False; out = []
    for h in flat:
        if has_ite(h):
            g = simp(h, d, memo)
            if g is not h: ch = True
            out.append(g)
        else: out.append(h)
    return out if ch else None
def atom_of(c):
    while c.op in ('and', 'or', 'not'):
        c = c.args[0][0] if c.op != 'not' else c.args[0]
    return c
def solve_eqs(hyps):
    """substitutions atom := term from equality hypotheses"""
    m = {}
    st = list(hyps)
    while st:
        h = st.pop()
        if h.op == 'and': st.extend(h.args[0]); continue
        if h.op == 'eq0' and h.args[0].op == 'lin':
            d = h.args[0]
            cands = [(x, k) for x, k in d.args[1] if x.op in ('var',) and x not in m and (d.sort == 'R' or abs(k) == 1)]
            for x, k in cands:
                rest = add(d, scale(x, -k))
                if x in rest.fv: continue
                v = scale(rest, Fraction(-1) / k if d.sort == 'R' else -k)
                v = subst(v, m)
                if x in v.fv: continue
                m = {a: subst(b, {x: v}) for a, b in m.items()}
                m[x] = v
                break
        elif h.op == 'eq0' and h.args[0].op == 'var':
            if h.args[0] not in m: m[h.args[0]] = num(0, h.args[0].sort)
        elif h.op == 'var' and h.sort == 'B': m[h] = TRUE
    return m

def polyeqs(hyps):
    """rewriting by hypotheses p = c (p a non-linear polynomial, c a number), such as |u|^2 = 1"""
    m = {}; src = set()
    for h in hyps:
        if h.op != 'eq0' or h.args[0].op != 'lin' or h.args[0].sort != 'R': continue
        d = h.args[0]; c = d.args[0]
        if len(d.args[1]) < 2 or not all(x.op == 'prod' and all(e > 0 and b.op not in ('sqrt', 'ite') for b, e in x.args[0]) for x, k in d.args[1]): continue
        t = sub(d, num(c, 'R'))
        m[t] = num(-c, 'R'); m[neg(t)] = num(c, 'R'); src.add(h)
    return m, src
# ------------------------------------------------------------------ main procedure
class Result:
    def __init__(s, status, how, detail=None, model=None): s.status, s.how, s.detail, s.model = status, how, detail, model
    def __repr__(s): return '%s(%s)%s' % (s.status, s.how, '' if s.detail is None else ' ' + str(s.detail)[:300])
    @property
    def ok(s): return s.status == 'proved'
def prove(hyps, goal, timeout=4000, budget=60.0, depth=14):
    old = DEADLINE[0]
    DEADLINE[0] = time.time() + budget if old is None else min(old, time.time() + budget)
    try:
        return _prove(list(hyps), goal, timeout, depth)
    except Timeout:
        if old is not None and time.time() > old: raise
        return Result('undecided', 'timeout', show(goal)[:300])
    finally: DEADLINE[0] = old
def _prove(hyps, goal, timeout, depth):
    tick()
    if goal is TRUE: STATS['syntactic'] += 1; return Result('proved', 'syntactic')
    hs = []
    for h in hyps:
        if h is FALSE: return Result('proved', 'vacuous')
        if h is not TRUE: hs.append(h)
    hyps = hs
    if goal.op == 'and':
        how = set()
        for g in goal.args[0]:
            r = _prove(hyps, g, timeout, depth)
            if not r.ok: return r
            how.add(r.how)
        return Result('proved', '+'.join(sorted(how)))
    if goal.op == 'or':
        # move all but one disjunct to the hypotheses
        ds = list(goal.args[0])
        best = None
        for x in ds:
            if x.op in ('eq0', 'and', 'same') : best = x
        if best is None: best = ds[-1]
        return _prove(hyps + [not_(x) for x in ds if x is not best], best, timeout, depth)
    if goal.op == 'ite':
        r = _prove(hyps + [goal.args[0]], goal.args[1], timeout, depth - 1)
        if not r.ok: return r
        return _prove(hyps + [not_(goal.args[0])], goal.args[2], timeout, depth - 1)
    d = literals(hyps)
    g = simp(goal, d)
    if g is not goal: return _prove(hyps, g, timeout, depth)
    m = solve_eqs(hyps)
    if m:
        g = subst(goal, m)
        hyps = [subst(h, m) for h in hyps]
        if any(h is FALSE for h in hyps): return Result('proved', 'vacuous')
        if g is not goal: return _prove(hyps, g, timeout, depth)
    pm, src = polyeqs(hyps)
    if pm:
        g = replace(goal, pm)
        nh = [h if h in src else replace(h, pm) for h in hyps]
        if any(h is FALSE for h in nh): return Result('proved', 'vacuous')
        if g is not goal or any(x is not y for x, y in zip(nh, hyps)): return _prove(nh, g, timeout, depth)
    if goal.op == 'eq0' and goal.args[0].sort in 'RI':
        if zero(goal.args[0]): STATS['nf'] += 1; return Result('proved', 'nf')
    # quick z3
    r, mdl = zcheck(tuple(hyps) + (not_(goal),), 150)
    if r == 'unsat': STATS['z3'] += 1; return Result('proved', 'z3')
    # simplify the hypotheses by each other
    nh = simp_hyps(hyps)
    if nh is not None: return _prove(nh, goal, timeout, depth)
    # case split on ite conditions
    c = find_ite(goal)
    if c is not None and depth > 0:
        STATS['split'] += 1
        for cc in (c, not_(c)):
            q, _ = zcheck(tuple(hyps) + (cc,), 300)
            if q == 'unsat': continue
            r1 = _prove(hyps + [cc], goal, timeout, depth - 1)
            if not r1.ok: return r1
        return Result('proved', 'split')
    # normal forms and congruence
    try:
        ng = norm(goal)
        if ng is TRUE: STATS['nf'] += 1; return Result('proved', 'nf')
        nh = [norm(h) for h in hyps]
        if any(h is FALSE for h in nh): return Result('proved', 'vacuous')
        dn = literals(nh); ng2 = simp(ng, dn)
        if ng2 is TRUE: return Result('proved', 'nf')
    except TooBig: ng, nh = goal, hyps
    if r == 'unknown' and zlinear(nh + [not_(ng)]): STATS['z3'] += 1; return Result('proved', 'z3')
    if depth > 0:
        u = unify(nh, ng, timeout, depth)
        if u:
            ng3 = replace(ng, u); nh3 = [replace(h, u) for h in nh]
            return _prove(nh3, ng3, timeout, depth - 1)
        rs = sum_goal(nh, ng, timeout, depth)
        if rs is not None: return rs
    r, mdl = zcheck(tuple(nh) + (not_(ng),), timeout)
    if r == 'unsat': STATS['z3'] += 1; return Result('proved', 'z3')
    if ng is not goal:
        r2, mdl2 = zcheck(tuple(hyps) + (not_(goal),), timeout)
        if r2 == 'unsat': STATS['z3'] += 1; return Result('proved', 'z3')
        if r == 'unknown': r, mdl = r2, mdl2
    # witnesses of existential hypotheses, at which the universal ones are instantiated
    if depth > 2:
        w = instantiate(hyps, goal)
        if w is not None:
            r1 = _prove(w[0], w[1], timeout, depth - 3)
            if r1.ok: return r1
    # split on disjunctive hypotheses / ites in hypotheses
    if depth > 0:
        for h in hyps:
            if h.op == 'or' and len(h.args[0]) <= 6 and r == 'unknown':
                for x in h.args[0]:
                    q, _ = zcheck(tuple(hyps) + (x,), 300)
                    if q == 'unsat': continue
                    r1 = _prove([y for y in hyps if y is not h] + [x], goal, timeout, depth - 2)
                    if not r1.ok: return r1
                return Result('proved', 'split')
    if r == 'sat': return Result('refuted', 'z3', 'goal %s\n  under %s' % (show(ng), [show(h, int(os.environ.get("VPD", "4"))) for h in nh]), mdl)
    return Result('undecided', 'z3', 'goal %s\n  under %s' % (show(ng), [show(h, int(os.environ.get("VPD", "4"))) for h in nh]))
def instantiate(hyps, goal):
    ng = not_(goal)
    ngs = list(ng.args[0]) if ng.op == 'and' else [ng]
    pos, negs, rest, wit = [], [], [], []
    for h in list(hyps) + (ngs if any(x.op == 'Exists' or x.op == 'not' and x.args[0].op == 'Exists' for x in ngs) else []):
        if h.op == 'Exists': pos.append(h)
        elif h.op == 'not' and h.args[0].op == 'Exists': negs.append(h.args[0])
        else: rest.append(h)
    if not pos or not negs: return None
    if any(x.op == 'Exists' or x.op == 'not' and x.args[0].op == 'Exists' for x in ngs): goal = FALSE
    for e in pos:
        k, g = open_(e); rest += [le(I(0), k), lt(k, e.args[0])]; wit.append(k)
        b = g(e.args[1]); rest += list(b.args[0]) if b.op == 'and' else [b]
    for e in negs:
        k, g = open_(e); b = g(e.args[1])
        for w in wit: rest.append(implies(and_(le(I(0), w), lt(w, e.args[0])), not_(subst(b, {k: w}))))
    return rest, goal
def replace(t, m):
    memo = {}
    def go(t):
        if t in m: return m[t]
        if t.op in ('var', 'num', 'bv', 'av'): return t
        r = memo.get(t)
        if r is None: r = rebuild(t, go); memo[t] = r
        return r
    return go(t)
UNIFY = ('uf', 'Exists', 'First', 'LIdx', 'FIdx', 'Fold', 'sel', 'len', 'fld', 'fn', 'Sum', 'sqrt')
def atoms(t, seen, out):
    if t in seen: return
    seen.add(t)
    if t.op in UNIFY: out.append(t)
    if t.op in BINDERS:
        for i in FREEPOS[t.op]:
            for y in walk_args((t.args[i],)): atoms(y, seen, out)
        return
    for x in walk_args(t.args): atoms(x, seen, out)
_neg_unify = set()
def unify(hyps, goal, timeout, depth):
    """find two distinct applications that are provably equal under the hypotheses"""
    out = []; seen = set()
    atoms(goal, seen, out)
    gout = list(out)
    for h in hyps: atoms(h, seen, out)
    if goal is FALSE: gout = [x for x in out if x.op == 'Exists']
    hk = frozenset(hyps)
    for i, a in enumerate(gout):
        for b in out:
            if a is b or a.op != b.op or a.sort != b.sort: continue
            if not compatible(a, b): continue
            key = (hk, a, b)
            if key in _neg_unify or (hk, b, a) in _neg_unify: continue
            if a.op == 'fn' and not (a.args[0] == b.args[0]): continue
            if same(hyps, a, b, min(timeout, 1500), depth - 2):
                x, y = (a, b) if a.id < b.id else (b, a)
                return {y: x}
            _neg_unify.add(key)
    return None
def compatible(a, b):
    if len(a.args) != len(b.args): return False
    for x, y in zip(a.args, b.args):
        if (x.__class__ is T) != (y.__class__ is T): return False
        if x.__class__ is not T and x.__class__ is not tuple and x != y and a.op not in BINDERS: return False
        if x.__class__ is T and x.sort != y.sort: return False
    return True
def same(hyps, a, b, timeout, depth):
    """prove a == b (any sort)"""
    if a is b: return True
    if depth < 0: return False
    tick()
    if a.sort in 'RI':
        if a.op == b.op and a.op in UNIFY: return same_args(hyps, a, b, timeout, depth)
        return _prove(hyps, eq(a, b), timeout, depth).ok
    if a.sort == 'B':
        if a.op == b.op and a.op in UNIFY: return same_args(hyps, a, b, timeout, depth)
        return _prove(hyps, implies(a, b), timeout, depth).ok and _prove(hyps, implies(b, a), timeout, depth).ok
    if a.sort == 'Q': return seq_eq(hyps, a, b, timeout, depth)
    if a.sort in 'FPSC':
        for t in (a, b):
            c = find_ite(t)
            if c is not None and depth > 0:
                for cc in (c, not_(c)):
                    if zcheck(tuple(hyps) + (cc,), 300)[0] == 'unsat': continue
                    d = literals(hyps + [cc])
                    if not same(hyps + [cc], simp(a, d), simp(b, d), timeout, depth - 1): return False
                return True
        if a.op == b.op and compatible(a, b) and a.op not in BINDERS: return same_args(hyps, a, b, timeout, depth)
        return False
    return False
def same_args(hyps, a, b, timeout, depth):
    if a.op in ('Sum', 'Exists', 'First', 'LIdx', 'FIdx', 'Fold'):
        if not same(hyps, a.args[0], b.args[0], timeout, depth - 1): return False
        n = a.args[0]
        if a.op == 'Fold':
            if a.args[1] != b.args[1] or len(a.args[2]) != len(b.args[2]): return False
            for x, y in zip(a.args[2], b.args[2]):
                if x.sort != y.sort or not same(hyps, x, y, timeout, depth - 1): return False
            k, accs, sa = open_fold(a)
            lv = b.args[-1]; m = {bv(lv, 'I'): k}
            for i, ac in enumerate(accs): m[mk('av', (lv, i), ac.sort)] = ac
            sb = [map_t(s, m) for s in b.args[3]]
            hy = hyps + [le(I(0), k), lt(k, n)]
            return all(same(hy, x, y, timeout, depth - 1) for x, y in zip(sa, sb))
        k, g = open_(a)
        lv = b.args[-1]
        h = lambda t: map_t(t, {bv(lv, 'I'): k})
        hy = hyps + [le(I(0), k), lt(k, n)]
        if a.op == 'FIdx': return same(hyps, a.args[1], b.args[1], timeout, depth - 1) and same(hy, g(a.args[2]), h(b.args[2]), timeout, depth - 1)
        return same(hy, g(a.args[1]), h(b.args[1]), timeout, depth - 1)
    for x, y in zip(a.args, b.args):
        if x.__class__ is T:
            if not same(hyps, x, y, timeout, depth - 1): return False
        elif x.__class__ is tuple:
            if len(x) != len(y): return False
            for u, v in zip(walk_args(x), walk_args(y)):
                if u.sort != v.sort or not same(hyps, u, v, timeout, depth - 1): return False
        elif x != y: return False
    return True
def qfields(q, out, seen=None):
    if seen is None: seen = set()
    if q in seen: return
    seen.add(q)
    if q.op == 'qstore': out[q.args[2]] = q.args[3].sort
    for x in walk_args(q.args):
        if x.sort == 'C': cfields(x, out)
        if x.sort == 'Q': qfields(x, out, seen)
def cfields(r, out):
    if r.op == 'rec':
        for o, ty, v in r.args[0]:
            if v.sort != 'W': out[o] = v.sort
            elif o not in out: out[o] = 'W'
    for x in walk_args(r.args):
        if x.sort == 'C': cfields(x, out)
STY = {'R': 'double', 'I': 'i64', 'B': 'i1', 'P': 'ptr', 'Q': 'q', 'S': 'str'}
def seq_eq(hyps, a, b, timeout, depth):
    if a is b: return True
    d = literals(hyps)
    a, b = simp(a, d), simp(b, d)
    if a is b: return True
    try:
        na, nb = norm(a), norm(b)
        if na is nb: return True
    except TooBig: pass
    na, nb = qsimp(hyps, a, timeout), qsimp(hyps, b, timeout)
    if na is not a or nb is not b: return seq_eq(hyps, na, nb, timeout, depth)
    if a.op == 'qfilter' and b.op == 'qfilter':
        if same(hyps, a.args[0], b.args[0], timeout, depth - 1):
            k, g = open_(a); lv = b.args[-1]
            h = lambda t: map_t(t, {bv(lv, 'I'): k})
            hy = hyps + [le(I(0), k), lt(k, a.args[0])]
            if same(hy, g(a.args[1]), h(b.args[1]), timeout, depth - 1):
                return rec_eq(hy + [g(a.args[1])], g(a.args[2]), h(b.args[2]), timeout, depth - 1)
        return False
    if a.op == 'qcat' and b.op == 'qcat' and seq_eq(hyps, a.args[0], b.args[0], timeout, depth - 1):
        return seq_eq(hyps, a.args[1], b.args[1], timeout, depth - 1)
    if a.op == 'qapp1' and b.op == 'qapp1' and seq_eq(hyps, a.args[0], b.args[0], timeout, depth - 1):
        return rec_eq(hyps, a.args[1], b.args[1], timeout, depth - 1)
    if a.op == 'uf' and b.op == 'uf' and compatible(a, b) and same_args(hyps, a, b, timeout, depth): return True
    for t in (a, b):
        c = find_ite(t)
        if c is not None and depth > 0:
            for cc in (c, not_(c)):
                if zcheck(tuple(hyps) + (cc,), 300)[0] == 'unsat': continue
                if not seq_eq(hyps + [cc], a, b, timeout, depth - 1): return False
            return True
    if not same(hyps, qlen(a), qlen(b), timeout, depth - 1): return False
    fs = {}
    qfields(a, fs); qfields(b, fs)
    if not fs: return False
    base = [x for x in qbases(a)] ; base2 = [x for x in qbases(b)]
    if set(base) != set(base2): return False
    i = fresh('i', 'I')
    hy = hyps + [le(I(0), i), lt(i, qlen(a))]
    for o, s in fs.items():
        try:
            x, y = sel(a, i, o, STY[s]), sel(b, i, o, STY[s])
        except Unsupported: return False
        if not same(hy, x, y, timeout, depth - 1): return False
    return True
def filterbase(q):
    """base of a filter that copies the elements of one sequence"""
    r = q.args[2]; bs = set()
    def go(x):
        if x.op in ('sel', 'qelem') and x.args[0].op in ('qvar', 'uf', 'qfld', 'sel', 'fld'): bs.add(x.args[0]); return
        for y in walk_args(x.args): go(y)
    go(r); yield from bs
def qsimp(hyps, q, timeout):
    """drop provably empty parts of a concatenation; a filter whose condition always holds is a map"""
    if q.op == 'qcat':
        for x, y in ((0, 1), (1, 0)):
            if q.args[x].op in ('sel', 'qvar', 'fld', 'uf', 'qfld', 'qempty') and _prove(hyps, eq(qlen(q.args[x]), num(0, 'I')), timeout, 2).ok: return qsimp(hyps, q.args[y], timeout)
    if q.op == 'qfilter' and q.args[1] is not TRUE:
        k, g = open_(q)
        c = g(q.args[1])
        if c.op == 'or' and _prove(hyps + [le(num(0, 'I'), k), lt(k, q.args[0])], c, timeout, 4).ok:
            return mk('qfilter', (q.args[0], TRUE) + q.args[2:], 'Q')
    return q
def qbases(q, seen=None):
    if q.op in ('qvar', 'uf', 'qfld', 'sel', 'fld'): yield q
    elif q.op == 'ite': yield from qbases(q.args[1]); yield from qbases(q.args[2])
    elif q.op in ('qstore', 'qapp1', 'qupd', 'qresize', 'qtake', 'qdrop'): yield from qbases(q.args[0])
    elif q.op == 'qcat': yield from qbases(q.args[0]); yield from qbases(q.args[1])
    elif q.op == 'qfilter' and q.args[1] is TRUE:
        yield from filterbase(q)
def rec_eq(hyps, a, b, timeout, depth):
    if a is b: return True
    fs = {}
    cfields(a, fs); cfields(b, fs)
    if not fs:
        return a.op == b.op and a.op == 'qelem' and same_args(hyps, a, b, timeout, depth)
    for o, s in fs.items():
        if s == 'W': s = 'R'
        try: x, y = recget(a, o, STY[s]), recget(b, o, STY[s])
        except Unsupported: return False
        if x.sort != y.sort or not same(hyps, x, y, timeout, depth): return False
    return True
def sum_goal(hyps, goal, timeout, depth):
    """equalities between linear combinations of Sums: compare summands pointwise"""
    if goal.op != 'eq0': return None
    d = goal.args[0]
    try: p = nf(d)
    except TooBig: return None
    groups = {}; rest = {}
    for m, k in p.items():
        s = [(b, e) for b, e in m if b.op == 'Sum']
        if len(s) == 1 and s[0][1] == 1:
            S = s[0][0]
            o = [(b, e) for b, e in m if b.op != 'Sum']
            groups.setdefault(S.args[0], []).append((S, o, k))
        else: rest[m] = k
    if not groups: return None
    if len(groups) > 1:
        # unify provably equal bounds
        keys = list(groups); merged = {}
        for n in keys:
            for n2 in merged:
                if same(hyps, n, n2, timeout, depth - 2): merged[n2] += groups[n]; break
            else: merged[n] = list(groups[n])
        groups = merged
    r = poly_T(rest) if d.sort == 'R' else poly_I(rest)
    extra = None
    if not zero(r):     # a remainder c*n is the sum of the constant c
        if len(groups) != 1: return None
        n = next(iter(groups))
        c = div(r, toreal(n)) if d.sort == 'R' else (r.args[1][0][1] if r.op == 'lin' and len(r.args[1]) == 1 and r.args[0] == 0 and r.args[1][0][0] is n else 1 if r is n else None)
        if c is None or (c.__class__ is T and c.op != 'num'): return None
        if not _prove(hyps, le(I(0), n), timeout, depth - 1).ok: return None
        extra = c if c.__class__ is T else I(int(c))
    for n, lst in groups.items():
        k = fresh('k', 'I')
        tot = [] if extra is None else [extra]
        for S, o, c in lst:
            b = map_t(S.args[1], {bv(S.args[-1], 'I'): k})
            tot.append(scale(mul(b, *[powi(x, e) for x, e in o]), int(c) if d.sort == 'I' and c == int(c) else c))
        rr = _prove(hyps + [le(I(0), k), lt(k, n)], eq0(add(*tot)), timeout, depth - 1)
        if not rr.ok: return None
    return Result('proved', 'sum')
