"""Hash-consed terms.  Machine doubles are modelled as mathematical reals plus one NaN value,
machine integers as mathematical integers, pointers as (base, offset) pairs, and the contents
of std::vector objects as functional sequences (sort 'Q')."""
from fractions import Fraction
import math, sys
sys.setrecursionlimit(200000)

class T:
    __slots__ = ('op', 'args', 'sort', 'id', 'fv', 'lvl')
    def __repr__(self): return show(self)

_tab = {}
_n = [0]
def mk(op, args, sort):
    key = (op, args, sort)
    t = _tab.get(key)
    if t is None:
        t = T.__new__(T); t.op = op; t.args = args; t.sort = sort; t.id = _n[0]; _n[0] += 1
        fv = None; lvl = 0
        if op == 'var': fv = frozenset([t])
        else:
            s = set()
            for a in walk_args(args):
                if a.fv: s |= a.fv
                if a.lvl > lvl: lvl = a.lvl
            fv = frozenset(s) if s else _E
            if op in BINDERS: lvl += 1
        t.fv = fv; t.lvl = lvl
        _tab[key] = t
    return t
_E = frozenset()
BINDERS = {'Sum', 'Exists', 'First', 'Fold', 'qfilter', 'qupd', 'Last', 'LIdx', 'FIdx'}
def walk_args(args):
    for a in args:
        if a.__class__ is T: yield a
        elif a.__class__ is tuple: yield from walk_args(a)
T.__hash__ = lambda self: self.id * 2654435761 & 0xffffffff
T.__eq__ = lambda a, b: a is b
T.__lt__ = lambda a, b: a.id < b.id

_fresh = [0]
def fresh(name, sort):
    _fresh[0] += 1
    return mk('var', ('%s~%d' % (name, _fresh[0]),), sort)
def var(name, sort='R'): return mk('var', (name,), sort)
TRUE = mk('true', (), 'B'); FALSE = mk('false', (), 'B')
NAN = mk('nan', (), 'R')
INF = mk('var', ('+inf',), 'R')
NULL = mk('null', (), 'P')
def num(x, sort='R'):
    if sort == 'R': x = Fraction(x)
    else: x = int(x)
    return mk('num', (x,), sort)
def R(x): return num(x, 'R')
def I(x): return num(x, 'I')
def B(x): return TRUE if x else FALSE
def isnum(t): return t.op == 'num'
def lift(x, sort='R'): return x if x.__class__ is T else num(x, sort)

# ---------------------------------------------------------------- arithmetic
def _lin(t):
    """(const, {term: coef})"""
    if t.op == 'num': return t.args[0], {}
    if t.op == 'lin': return t.args[0], dict(t.args[1])
    return 0, {t: 1}
def _mklin(c, d, sort):
    items = tuple(sorted(((t, k) for t, k in d.items() if k != 0), key=lambda x: x[0].id))
    if not items: return num(c, sort)
    if c == 0 and len(items) == 1 and items[0][1] == 1: return items[0][0]
    if sort == 'R': items = tuple((t, Fraction(k)) for t, k in items); c = Fraction(c)
    return mk('lin', (c, items), sort)
def add(*ts):
    sort = ts[0].sort
    c = 0; d = {}
    for t in ts:
        if t is NAN: return NAN
        c1, d1 = _lin(t)
        c += c1
        for k, v in d1.items(): d[k] = d.get(k, 0) + v
    return _mklin(c, d, sort)
def scale(t, k):
    if t is NAN: return NAN
    if k == 1: return t
    c, d = _lin(t)
    return _mklin(c * k, {x: v * k for x, v in d.items()}, t.sort)
def neg(t): return scale(t, -1)
def sub(a, b): return add(a, neg(b))
def _fac(t):
    """(coef, {base: exp})"""
    if t.op == 'num': return t.args[0], {}
    if t.op == 'lin' and t.args[0] == 0 and len(t.args[1]) == 1:
        b, k = t.args[1][0]
        k2, f = _fac(b)
        return k * k2, f
    if t.op == 'prod': return 1, dict(t.args[0])
    if t.op == 'lin':
        # content: make the leading coefficient one
        k = t.args[1][0][1]
        if t.sort == 'R' and k != 1:
            return k, {scale(t, 1 / Fraction(k)): 1}
    return 1, {t: 1}
def _mkprod(c, d, sort):
    changed = True
    extra = []
    for b in list(d):
        e = d[b]
        if b.op == 'sqrt' and (e >= 2 or e <= -1):
            # sqrt(x)^e : keep exponent 0 or 1
            q, r = divmod(e, 2)
            if r: d[b] = 1
            else: del d[b]
            extra.append((b.args[0], q))
        elif b.op == 'abs' and (e >= 2 or e <= -2) :
            q, r = divmod(e, 2)
            if r: d[b] = 1
            else: del d[b]
            extra.append((b.args[0], 2 * q))
    if extra:
        for x, q in extra:
            if x.op == 'num' and x.args[0] == 0 and q < 0: return mk('inv0', (), sort)
            c1, f = _fac(x)
            c = c * Fraction(c1) ** q
            for b, e in f.items(): d[b] = d.get(b, 0) + e * q
        return _mkprod(c, {b: e for b, e in d.items() if e != 0}, sort)
    items = tuple(sorted(((b, e) for b, e in d.items() if e != 0), key=lambda x: x[0].id))
    if c == 0 or not items: return num(c, sort)
    if len(items) == 1 and items[0][1] == 1: t = items[0][0]
    else: t = mk('prod', (items,), sort)
    return scale(t, c)
def mul(*ts):
    sort = ts[0].sort
    c = 1; d = {}
    for t in ts:
        if t is NAN: return NAN
        c1, f = _fac(t)
        c *= c1
        for b, e in f.items():
            d[b] = d.get(b, 0) + e
            if d[b] == 0: del d[b]
    if sort == 'R':
        c = Fraction(c)
        for b in list(d):
            u = _sgnof(b) if d.get(b) == 1 else None
            if u is None: continue
            ku, fu = _fac(u)                    # x * sign(x) is |x|
            if fu and all(d.get(x, 0) >= e > 0 for x, e in fu.items()):
                del d[b]
                for x, e in fu.items():
                    d[x] -= e
                    if d[x] == 0: del d[x]
                ca, fa = _fac(absr(u)); c = -c * ca / Fraction(ku)
                for x, e in fa.items():
                    d[x] = d.get(x, 0) + e
                    if d[x] == 0: del d[x]
    return _mkprod(c, d, sort)
def _sgnof(b):
    """u when b is [u < 0] - [u > 0]"""
    if b.op != 'lin' or b.args[0] != 0 or len(b.args[1]) != 2: return None
    (x, kx), (y, ky) = b.args[1]
    if kx != -ky or abs(kx) != 1 or x.op != 'ite' or y.op != 'ite': return None
    if any(t.args[0].op != 'lt0' or t.args[1].op != 'num' or t.args[2].op != 'num' or t.args[1].args[0] != 1 or t.args[2].args[0] != 0 for t in (x, y)): return None
    if kx == -1: x, y = y, x
    u, w = x.args[0].args[0], y.args[0].args[0]
    return u if u.sort == 'R' and w is neg(u) else None
def powi(t, n):
    if t is NAN: return NAN
    if n == 0: return num(1, t.sort)
    c, f = _fac(t)
    if c == 0 and n < 0: return INF if False else mk('inv0', (), 'R')
    return _mkprod(Fraction(c) ** n, {b: e * n for b, e in f.items()}, t.sort)
def div(a, b):
    return mul(a, powi(b, -1))
def sqrt(t):
    if t is NAN: return NAN
    if t.op == 'num':
        v = t.args[0]
        if v >= 0:
            n, d = math.isqrt(v.numerator), math.isqrt(v.denominator)
            if n * n == v.numerator and d * d == v.denominator: return R(Fraction(n, d))
        else: return NAN
    if t.op == 'ite' : return ite(t.args[0], sqrt(t.args[1]), sqrt(t.args[2]))
    return mk('sqrt', (t,), 'R')
def absr(t):
    if t is NAN: return NAN
    if t.op == 'num': return R(abs(t.args[0]))
    if t.op in ('sqrt', 'abs'): return t
    if t.op == 'lin' and t.args[0] == 0 and len(t.args[1]) == 1 and t.args[1][0][1] < 0: return absr(neg(t))
    if t.op == 'lin' and (t.args[1][0][1] < 0): return absr(neg(t))
    return mk('abs', (t,), 'R')
def fn(name, *args):
    """real valued mathematical function"""
    if any(a is NAN for a in args): return NAN
    if name == 'sqrt': return sqrt(args[0])
    if name == 'abs': return absr(args[0])
    if name in ('sin', 'atan', 'tan') and args[0] is ZERO: return ZERO
    if name == 'cos' and args[0] is ZERO: return ONE
    return mk('fn', (name,) + args, 'R')
ZERO = R(0); ONE = R(1)
def toreal(t):
    if t.op == 'num': return R(t.args[0])
    if t.op == 'ite': return ite(t.args[0], toreal(t.args[1]), toreal(t.args[2]))
    if t.op == 'lin': return _mklin(Fraction(t.args[0]), {toreal(x): Fraction(k) for x, k in t.args[1]}, 'R')
    if t.op == 'prod': return mul(*[powi(toreal(b), e) for b, e in t.args[0]])
    return mk('toreal', (t,), 'R')
def toint(t):
    if t.op == 'num': return I(int(t.args[0]))
    if t.op == 'toreal': return t.args[0]
    if t.op == 'ite': return ite(t.args[0], toint(t.args[1]), toint(t.args[2]))
    return mk('toint', (t,), 'I')
def idiv(a, k):
    """exact or floor division of an int term by a positive constant"""
    if a.op == 'num': return I(int(a.args[0]) // k) if a.args[0] >= 0 else I(-((-int(a.args[0])) // k))
    c, d = _lin(a)
    if c % k == 0 and all(v % k == 0 for v in d.values()):
        return _mklin(c // k, {x: v // k for x, v in d.items()}, 'I')
    return mk('idiv', (a, k), 'I')

# ---------------------------------------------------------------- booleans
def not_(a):
    if a is TRUE: return FALSE
    if a is FALSE: return TRUE
    if a.op == 'not': return a.args[0]
    if a.op == 'lt0': return mk('le0', (neg(a.args[0]),), 'B')
    if a.op == 'le0': return mk('lt0', (neg(a.args[0]),), 'B')
    if a.op == 'and': return or_(*[not_(x) for x in a.args[0]])
    if a.op == 'or': return and_(*[not_(x) for x in a.args[0]])
    if a.op == 'ite': return ite(a.args[0], not_(a.args[1]), not_(a.args[2]))
    return mk('not', (a,), 'B')
def and_(*ts):
    s = set()
    for t in ts:
        if t is TRUE: continue
        if t is FALSE: return FALSE
        if t.op == 'and': s.update(t.args[0])
        else: s.add(t)
    for t in s:
        if not_(t) in s: return FALSE
    if not s: return TRUE
    # absorption of or-clauses
    out = []
    for t in s:
        if t.op == 'or':
            if any(x in s for x in t.args[0]): continue
            keep = [x for x in t.args[0] if not_(x) not in s]
            if len(keep) != len(t.args[0]):
                return and_(*( [x for x in s if x is not t] + [or_(*keep)]))
        out.append(t)
    if len(out) == 1: return out[0]
    return mk('and', (tuple(sorted(out, key=lambda x: x.id)),), 'B')
def or_(*ts):
    s = set()
    for t in ts:
        if t is FALSE: continue
        if t is TRUE: return TRUE
        if t.op == 'or': s.update(t.args[0])
        else: s.add(t)
    for t in s:
        if not_(t) in s: return TRUE
    if not s: return FALSE
    out = []
    for t in s:
        if t.op == 'and':
            if any(x in s for x in t.args[0]): continue
            keep = [x for x in t.args[0] if not_(x) not in s]
            if len(keep) != len(t.args[0]):
                return or_(*([x for x in s if x is not t] + [and_(*keep)]))
        out.append(t)
    if len(out) == 1: return out[0]
    # factor common conjuncts:  (a&b)|(a&c) -> a & (b|c)
    if all(x.op == 'and' for x in out):
        common = set(out[0].args[0])
        for x in out[1:]: common &= set(x.args[0])
        if common:
            rest = [and_(*[y for y in x.args[0] if y not in common]) for x in out]
            return and_(*common, or_(*rest))
    return mk('or', (tuple(sorted(out, key=lambda x: x.id)),), 'B')
def implies(a, b): return or_(not_(a), b)
def iff(a, b):
    if a is b: return TRUE
    return and_(or_(not_(a), b), or_(a, not_(b)))
def _lead(t):
    if t.op == 'lin': return t.args[1][0][1]
    return 1
def _nonneg(t):
    """cheap syntactic test: t >= 0 for all reals"""
    if t.op == 'num': return t.args[0] >= 0
    if t.op in ('sqrt', 'abs', 'len') or t.op == 'uf' and t.args[0] == 'strlen': return True
    if t.op == 'toreal': return _nonneg(t.args[0])
    if t.op == 'prod': return all(e % 2 == 0 or _nonneg(b) for b, e in t.args[0])
    if t.op == 'lin': return t.args[0] >= 0 and all(k > 0 and _nonneg(x) for x, k in t.args[1])
    if t.op == 'ite': return _nonneg(t.args[1]) and _nonneg(t.args[2])
    if t.op == 'Sum': return _nonneg(t.args[1])
    if t.op == 'First': return True
    return False
def _count(d):
    """(c, s, m, n, holds): d = c + s * #{k < n: holds} + m * n, with m = -s: all of them, or not"""
    if d.sort != 'I' or d.op not in ('lin', 'Sum'): return None
    c, l = _lin(d); S = [t for t in l if t.op == 'Sum']
    if len(S) != 1 or len(l) > 2 or abs(l[S[0]]) != 1 or c not in (-1, 0, 1): return None
    t = S[0]; n = t.args[0]; b = t.args[1]
    if b.op != 'ite' or b.args[1] is not I(1) or b.args[2] is not I(0): return None
    if len(l) == 1: return None     # #{..} against a constant stays as it is: prove.py relates it to Exists
    m = l.get(n, 0)
    if m != -l[t]: return None
    if not _nonneg(n): return None
    def some(neg_):
        k, g = open_(t); h = g(b.args[0]); return Exists(n, k, not_(h) if neg_ else h)
    return c, l[t], m, some
def lt0(d):
    if d is NAN: return FALSE
    if d.op == 'num': return B(d.args[0] < 0)
    if d.op == 'ite' and (isnum(d.args[1]) or isnum(d.args[2])): return ite(d.args[0], lt0(d.args[1]), lt0(d.args[2]))
    if _nonneg(d): return FALSE
    x = _count(d)
    if x and x[0] == 0:
        if x[1:3] == (1, -1): return x[3](True)
    d = _norm(d)
    return mk('lt0', (d,), 'B')
def le0(d):
    if d is NAN: return FALSE
    if d.op == 'num': return B(d.args[0] <= 0)
    if d.op == 'ite' and (isnum(d.args[1]) or isnum(d.args[2])): return ite(d.args[0], le0(d.args[1]), le0(d.args[2]))
    if _nonneg(neg(d)): return TRUE
    x = _count(d)
    if x:
        if x[:3] == (0, -1, 1): return not_(x[3](True))
        if x[:3] == (1, 1, -1): return x[3](True)
    d = _norm(d)
    if d.op in ('prod',) and d.sort == 'R' and len(d.args[0]) == 1 and d.args[0][0][1] == 2: return eq0(d.args[0][0][0])
    return mk('le0', (d,), 'B')
def _norm(d):
    if d.sort == 'R':
        k = abs(_lead(d))
        if k != 1: d = scale(d, 1 / Fraction(k))
    else:
        if d.op == 'lin':
            g = 0
            for _, k in d.args[1]: g = math.gcd(g, abs(k))
            if g > 1 and d.args[0] % g == 0:
                d = _mklin(d.args[0] // g, {x: k // g for x, k in d.args[1]}, 'I')
    return d
def eq0(d):
    if d is NAN: return FALSE
    if d.op == 'num': return B(d.args[0] == 0)
    x = _count(d)
    if x and x[0] == 0: return not_(x[3](True))
    d = _norm(d)
    if _lead(d) < 0: d = neg(d)
    if d.op == 'ite' and (isnum(d.args[1]) or isnum(d.args[2])):
        return ite(d.args[0], eq0(d.args[1]), eq0(d.args[2]))
    if d.op == 'lin' and len(d.args[1]) == 1 and d.args[1][0][0].op == 'ite':
        i = d.args[1][0][0]; k = d.args[1][0][1]
        if isnum(i.args[1]) or isnum(i.args[2]):
            f = lambda x: eq0(add(num(d.args[0], d.sort), scale(x, k)))
            return ite(i.args[0], f(i.args[1]), f(i.args[2]))
    return mk('eq0', (d,), 'B')
def lt(a, b): return FALSE if a is NAN or b is NAN else lt0(sub(a, b))
def le(a, b): return FALSE if a is NAN or b is NAN else le0(sub(a, b))
def gt(a, b): return lt(b, a)
def ge(a, b): return le(b, a)
def eq(a, b):
    if a is NAN or b is NAN: return FALSE
    if a.sort in 'RI':
        if a is b: return TRUE
        return eq0(sub(a, b))
    if a.sort == 'B': return iff(a, b)
    if a is b: return TRUE
    if a.sort == 'P': return peq(a, b)
    if a.id > b.id: a, b = b, a
    return mk('same', (a, b), 'B')
def ite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if c.op == 'not': return ite(c.args[0], b, a)
    if a.sort == 'B':
        if a is TRUE: return or_(c, b)
        if a is FALSE: return and_(not_(c), b)
        if b is TRUE: return or_(not_(c), a)
        if b is FALSE: return and_(c, a)
        if a is c: return or_(c, b)
        if b is c: return and_(c, a)
        return and_(or_(not_(c), a), or_(c, b))
    if a.op == 'ite' and a.args[0] is c: a = a.args[1]
    if b.op == 'ite' and b.args[0] is c: b = b.args[2]
    if a is b: return a
    # canonical sign of the condition
    if c.op in ('le0',):
        n = not_(c)
        return ite(n, b, a)
    if b.op == 'ite' and b.args[1] is a: return ite(or_(c, b.args[0]), a, b.args[2])
    if a.op == 'ite' and a.args[2] is b: return ite(and_(c, a.args[0]), a.args[1], b)
    if a.op == 'ite' and a.args[1] is b: return ite(and_(c, not_(a.args[0])), a.args[2], b)
    if b.op == 'ite' and b.args[2] is a: return ite(and_(not_(c), b.args[0]), b.args[1], a)
    if c.op == 'lt0' and (a.sort == 'R' or a.sort == 'I') and c.args[0].sort == a.sort and a is not NAN and b is not NAN:
        # canonical minimum / maximum
        d = _norm(sub(a, b))
        if d is c.args[0]:
            if a.id > b.id: c, a, b = lt0(sub(b, a)), b, a
        elif neg(d) is c.args[0]:
            if b.id > a.id: c, a, b = lt0(sub(a, b)), b, a
    return mk('ite', (c, a, b), a.sort)

_nanmemo = {}
def nanof(t):
    """condition under which the machine value of t is NaN (variables are never NaN unless declared)"""
    r = _nanmemo.get(t)
    if r is None:
        if t is NAN: r = TRUE
        elif t.op == 'var': r = MAYBENAN.get(t, FALSE)
        elif t.op == 'fn' and t.args[0] == 'pow':
            r = or_(nanof(t.args[1]), nanof(t.args[2]), mk('nanpow', t.args[1:], 'B')) if not PURE[0] else FALSE
        elif t.op == 'fn' and t.args[0] == 'acos':
            r = or_(nanof(t.args[1]), lt(t.args[1], R(-1)), lt(R(1), t.args[1]))
        elif t.op == 'sqrt': r = or_(nanof(t.args[0]), lt0(t.args[0]))
        elif t.op == 'ite':
            r = ite(t.args[0], nanof(t.args[1]), nanof(t.args[2]))
        elif t.op in ('lin', 'prod', 'fn', 'abs'):
            r = or_(*[nanof(a) for a in walk_args(t.args) if a.sort == 'R'])
        else: r = FALSE
        _nanmemo[t] = r
    return r
MAYBENAN = {}
PURE = [False]
def flt(a, b): return and_(not_(nanof(a)), not_(nanof(b)), lt(a, b))
def fle(a, b): return and_(not_(nanof(a)), not_(nanof(b)), le(a, b))
def feq(a, b): return and_(not_(nanof(a)), not_(nanof(b)), eq(a, b))

# ---------------------------------------------------------------- pointers
def ptr(base, off=0):
    """base: a 'reg' / 'vbuf' / ref term (sort 'F')"""
    return mk('ptr', (base, lift(off, 'I')), 'P')
def region(rid): return mk('reg', (rid,), 'F')
def vbuf(header, stride): return mk('vbuf', (header, stride), 'F')
def padd(p, off):
    if p.op == 'ptr': return mk('ptr', (p.args[0], add(p.args[1], lift(off, 'I'))), 'P')
    if p.op == 'ite': return ite(p.args[0], padd(p.args[1], off), padd(p.args[2], off))
    if p is NULL: return NULL      # undefined behaviour unless the offset is zero: any access fails its safety obligation
    raise Unsupported('pointer arithmetic on %s' % show(p)[:80])
def loaded(r): return r.args[0].__class__ is str and '+' in r.args[0] and not r.args[0].startswith(('alloca', 'heap'))
def peq(a, b):
    if a is b: return TRUE
    if a.op == 'ite': return ite(a.args[0], peq(a.args[1], b), peq(a.args[2], b))
    if b.op == 'ite': return ite(b.args[0], peq(a, b.args[1]), peq(a, b.args[2]))
    if a is NULL or b is NULL:
        x = b if a is NULL else a
        if x.op == 'ptr':
            b0 = x.args[0]
            if b0.op == 'reg' and b0.args[0].__class__ is str and b0.args[0][0] == '@' and '+' in b0.args[0]: return mk('isnull', (b0,), 'B')
            if b0.op in ('reg', 'vbuf', 'new'): return FALSE
            return mk('isnull', (b0,), 'B') if b0 in NULLABLE else FALSE
        return mk('same', (a, b) if a.id < b.id else (b, a), 'B')
    if a.op == 'ptr' and b.op == 'ptr':
        x, y = a.args[0], b.args[0]
        if x is y: return eq(a.args[1], b.args[1])
        if x.op in ('reg', 'vbuf') or y.op in ('reg', 'vbuf'):
            # a pointer found in an object or a global may be any object the caller also holds
            if x.op == y.op == 'reg' and (loaded(x) or loaded(y)): return mk('same', (a, b) if a.id < b.id else (b, a), 'B')
            return FALSE
        if x.id > y.id: x, y = y, x
        return and_(mk('same', (x, y), 'B'), eq(a.args[1], b.args[1]))
    if a.op == 'fptr' and b.op == 'fptr': return FALSE
    return mk('same', (a, b) if a.id < b.id else (b, a), 'B')
NULLABLE = set()
class Unsupported(Exception): pass

# ---------------------------------------------------------------- binders
def bv(level, sort='I'): return mk('bv', (level,), sort)
_sm = {}
def subst(t, m):
    """simultaneous substitution of variables"""
    if not m: return t
    keys = frozenset(m)
    memo = {}
    def go(t):
        if t.op != 'bv' and not (t.fv & keys) and not bvm: return t
        if t in m: return m[t]
        r = memo.get(t)
        if r is None:
            r = rebuild(t, go); memo[t] = r
        return r
    bvm = any(k.op == 'bv' for k in m)
    return go(t)
def map_args(args, f):
    return tuple(f(a) if a.__class__ is T else (map_args(a, f) if a.__class__ is tuple else a) for a in args)
def rebuild(t, f):
    o = t.op; a = t.args
    if not any(True for _ in walk_args(a)): return t
    if o == 'lin':
        return add(num(a[0], t.sort), *[scale(f(x), k) for x, k in a[1]])
    if o == 'prod': return mul(*[powi(f(b), e) for b, e in a[0]])
    if o == 'and': return and_(*[f(x) for x in a[0]])
    if o == 'or': return or_(*[f(x) for x in a[0]])
    if o == 'not': return not_(f(a[0]))
    if o == 'ite':
        c = f(a[0])
        if c is TRUE: return f(a[1])
        if c is FALSE: return f(a[2])
        return ite(c, f(a[1]), f(a[2]))
    if o == 'lt0': return lt0(f(a[0]))
    if o == 'le0': return le0(f(a[0]))
    if o == 'eq0': return eq0(f(a[0]))
    if o == 'sqrt': return sqrt(f(a[0]))
    if o == 'abs': return absr(f(a[0]))
    if o == 'fn': return fn(a[0], *[f(x) for x in a[1:]])
    if o == 'toreal': return toreal(f(a[0]))
    if o == 'toint': return toint(f(a[0]))
    if o == 'idiv': return idiv(f(a[0]), a[1])
    if o == 'same':
        x, y = f(a[0]), f(a[1])
        return eq(x, y)
    if o == 'ptr':
        b = f(a[0]); off = f(a[1])
        return asptr(b, off)
    if o == 'sel': return sel(f(a[0]), f(a[1]), a[2], a[3])
    if o == 'len': return qlen(f(a[0]))
    if o == 'fld': return fld(f(a[0]), a[1], a[2])
    if o == 'qapp1': return qapp1(f(a[0]), f(a[1]))
    if o == 'qcat': return qcat(f(a[0]), f(a[1]))
    if o == 'qstore': return qstore(f(a[0]), f(a[1]), a[2], f(a[3]))
    if o == 'qresize': return qresize(f(a[0]), f(a[1]), f(a[2]))
    if o == 'qtake': return qtake(f(a[0]), f(a[1]))
    if o == 'qdrop': return qdrop(f(a[0]), f(a[1]))
    if o in BINDERS:
        # bound variables are canonical: open with a fresh variable, map, close again
        return BIND[o](t, f)
    return mk(o, map_args(a, f), t.sort)

def _open(body, level, v):
    return map_t(body, {bv(level, v.sort): v}) if body.__class__ is T else tuple(_open(b, level, v) for b in body)
def map_t(t, m):
    """replace variables / bound variables, passing under binders without opening them"""
    memo = {}
    def go(t):
        if t in m: return m[t]
        if t.op == 'bv' or t.op == 'var' or t.op == 'av': return t
        r = memo.get(t)
        if r is None:
            if t.op in BINDERS:
                lv = t.args[-1]; fp = FREEPOS[t.op]
                m2 = {k: v for k, v in m.items() if not (k.op == 'bv' and k.args[0] == lv or k.op == 'av' and k.args[0] == lv)}
                inner = go if len(m2) == len(m) else (lambda x: map_t(x, m2) if m2 else x)
                a = tuple((go(x) if x.__class__ is T else (map_args(x, go) if x.__class__ is tuple else x)) if i in fp else
                          (inner(x) if x.__class__ is T else (map_args(x, inner) if x.__class__ is tuple else x))
                          for i, x in enumerate(t.args))
                r = mk(t.op, a, t.sort)
            else: r = rebuild(t, go)
            memo[t] = r
        return r
    return go(t)
FREEPOS = {'LIdx': (0,), 'FIdx': (0, 1), 'Sum': (0,), 'Exists': (0,), 'First': (0,), 'Last': (0, 3), 'Fold': (0, 2), 'qfilter': (0,), 'qupd': (0, 1, 2)}
def close(body, v):
    """returns (level, body with v replaced by the canonical bound variable)"""
    lv = (max((b.lvl for b in walk_args((body,))), default=0)) + 1
    m = {v: bv(lv, v.sort)}
    def g(b): return map_t(b, m) if b.__class__ is T else tuple(g(x) if x.__class__ in (T, tuple) else x for x in b)
    return lv, g(body)
def open_(t):
    """open a binder term: returns (fresh var k, n, bodies...)"""
    k = fresh('k', 'I')
    lv = t.args[-1]
    def g(b): return map_t(b, {bv(lv, 'I'): k}) if b.__class__ is T else tuple(g(x) if x.__class__ in (T, tuple) else x for x in b)
    return k, g
def Sum(n, k, body):
    if body.op == 'num':
        if body.args[0] == 0: return body
    if n.op == 'num' and n.args[0] <= 0: return num(0, body.sort)
    if n.op == 'num' and n.args[0] <= 8:
        return add(*[subst(body, {k: I(j)}) for j in range(int(n.args[0]))])
    if k not in body.fv:
        return mul(toreal(n) if body.sort == 'R' else n, body)
    # pull out additive structure and constant factors
    if body.op == 'lin':
        return add(mul(num(body.args[0], body.sort), toreal(n) if body.sort == 'R' else n) if body.args[0] != 0 else num(0, body.sort),
                   *[scale(Sum(n, k, x), c) for x, c in body.args[1]])
    if body.op == 'prod':
        out = [(b, e) for b, e in body.args[0] if k not in b.fv]
        if out:
            inn = [(b, e) for b, e in body.args[0] if k in b.fv]
            return mul(*[powi(b, e) for b, e in out], Sum(n, k, mul(*[powi(b, e) for b, e in inn])))
    if body is toreal(k) or body is k:
        # 0+1+...+(n-1)
        if body.sort == 'R': return scale(mul(toreal(n), sub(toreal(n), ONE)), Fraction(1, 2))
    body = _reversed(n, k, body)
    lv, b = close(body, k)
    return mk('Sum', (n, b, lv), body.sort)
def _reversed(n, k, body):
    """a body that only depends on n-1-k is visited in reverse: the range is symmetric"""
    if n.op == 'num': return body
    seen = set(); st = [body]; hit = False
    while st and not hit:
        x = st.pop()
        if x in seen or k not in x.fv: continue
        seen.add(x)
        if x.op == 'lin' and x.sort == 'I' and any(y is k and c == -1 for y, c in x.args[1]): hit = True
        st.extend(walk_args(x.args))
    if not hit: return body
    b2 = subst(body, {k: sub(sub(n, I(1)), k)})
    return b2 if size(b2) < size(body) else body
def Exists(n, k, body):
    if body is FALSE: return FALSE
    if n.op == 'num' and n.args[0] <= 0: return FALSE
    if n.op == 'num' and n.args[0] <= 8:
        return or_(*[subst(body, {k: I(j)}) for j in range(int(n.args[0]))])
    if k not in body.fv: return and_(body, lt(I(0), n))
    if body.op == 'or': return or_(*[Exists(n, k, x) for x in body.args[0]])
    if body.op == 'and':
        out = [x for x in body.args[0] if k not in x.fv]
        if out: return and_(*out, Exists(n, k, and_(*[x for x in body.args[0] if k in x.fv])))
    body = _reversed(n, k, body)
    lv, b = close(body, k)
    return mk('Exists', (n, b, lv), 'B')
def Forall(n, k, body): return not_(Exists(n, k, not_(body)))
def First(n, k, body):
    """least k < n with body, else n"""
    if body is FALSE: return n
    if body is TRUE: return ite(lt(I(0), n), I(0), n)
    if n.op == 'num' and n.args[0] <= 8:
        r = n
        for j in reversed(range(int(n.args[0]))): r = ite(subst(body, {k: I(j)}), I(j), r)
        return r
    lv, b = close(body, k)
    return mk('First', (n, b, lv), 'I')
def Last(n, k, cond, body, init):
    """value assigned by the last k < n satisfying cond, else init"""
    if n.op == 'num' and n.args[0] <= 8:
        r = init
        for j in range(int(n.args[0])): r = ite(subst(cond, {k: I(j)}), subst(body, {k: I(j)}), r)
        return r
    if cond is TRUE: return ite(le(n, I(0)), init, subst(body, {k: sub(n, I(1))}))
    if cond is FALSE: return init
    return ite(Exists(n, k, cond), subst(body, {k: LIdx(n, k, cond)}), init)
def LIdx(n, k, cond):
    """greatest k < n satisfying cond (when there is one)"""
    if cond is TRUE: return sub(n, I(1))
    lv, c = close(cond, k)
    return mk('LIdx', (n, c, lv), 'I')
def FIdx(n, q, k, cond):
    """the q-th k < n satisfying cond (when there are more than q)"""
    if cond is TRUE: return q
    lv, c = close(cond, k)
    return mk('FIdx', (n, q, c, lv), 'I')
def Fold(n, k, comp, accs, inits, steps):
    """component comp of the simultaneous recurrence accs' = steps(k, accs), accs(0)=inits"""
    if n.op == 'num' and n.args[0] <= 8:
        cur = list(inits)
        for j in range(int(n.args[0])):
            m = {k: I(j)}; m.update(zip(accs, cur))
            cur = [subst(s, m) for s in steps]
        return cur[comp]
    lv = max([s.lvl for s in steps] + [0]) + 1
    m = {k: bv(lv, 'I')}
    for i, a in enumerate(accs): m[a] = mk('av', (lv, i), a.sort)
    st = tuple(map_t(s, m) for s in steps)
    return mk('Fold', (n, comp, tuple(inits), st, lv), accs[comp].sort)
def open_fold(t):
    n, comp, inits, st, lv = t.args
    k = fresh('k', 'I'); accs = [fresh('acc', i.sort) for i in inits]
    m = {bv(lv, 'I'): k}
    for i, a in enumerate(accs): m[mk('av', (lv, i), a.sort)] = a
    return k, accs, [map_t(s, m) for s in st]
def _b_sum(t, f):
    k, g = open_(t); return Sum(f(t.args[0]), k, f(g(t.args[1])))
def _b_ex(t, f):
    k, g = open_(t); return Exists(f(t.args[0]), k, f(g(t.args[1])))
def _b_first(t, f):
    k, g = open_(t); return First(f(t.args[0]), k, f(g(t.args[1])))
def _b_lidx(t, f):
    k, g = open_(t); return LIdx(f(t.args[0]), k, f(g(t.args[1])))
def _b_fidx(t, f):
    k, g = open_(t); return FIdx(f(t.args[0]), f(t.args[1]), k, f(g(t.args[2])))
def _b_fold(t, f):
    k, accs, st = open_fold(t)
    return Fold(f(t.args[0]), k, t.args[1], accs, [f(x) for x in t.args[2]], [f(s) for s in st])
def _b_qf(t, f):
    k, g = open_(t); return qfilter(f(t.args[0]), k, f(g(t.args[1])), f(g(t.args[2])))
def _b_qupd(t, f):
    k, g = open_(t); return qupd(f(t.args[0]), f(t.args[1]), f(t.args[2]), k, f(g(t.args[3])))
BIND = {'Sum': _b_sum, 'Exists': _b_ex, 'First': _b_first, 'LIdx': _b_lidx, 'FIdx': _b_fidx, 'Fold': _b_fold, 'qfilter': _b_qf, 'qupd': _b_qupd}

# ---------------------------------------------------------------- sequences
SORT = {'double': 'R', 'i64': 'I', 'i32': 'I', 'i16': 'I', 'i8': 'I', 'i1': 'B', 'ptr': 'P', 'q': 'Q', 'str': 'S'}
QEMPTY = mk('qempty', (), 'Q')
def rec(cells):
    """cells: dict (off) -> (ty, T)"""
    return mk('rec', (tuple(sorted(((o, ty, v) for o, (ty, v) in cells.items()), key=lambda x: x[0])),), 'C')
def unraw(v, ty):
    """a granule copied bytewise, read back with a type"""
    if v.sort != 'W' or ty == 'raw': return v
    o = v.op
    if o == 'ite': return ite(v.args[0], unraw(v.args[1], ty), unraw(v.args[2], ty))
    if o == 'raw': return unraw(v.args[0], ty) if v.args[0].sort in ('W', SORT[ty]) else v
    if o == 'rawsel': return sel(v.args[0], v.args[1], v.args[2], ty)
    if o == 'rawfld': return fld(v.args[0], v.args[1], ty)
    return v
def recget(r, off, ty):
    if r.op == 'ite': return ite(r.args[0], recget(r.args[1], off, ty), recget(r.args[2], off, ty))
    if r.op == 'rec':
        for o, t2, v in r.args[0]:
            if o == off: return unraw(v, ty)
        # zero / unknown remainder
        for o, t2, v in r.args[0]:
            if o == -1: return recget_src(v, off, ty)
        return mk('undef', ('cell', off), SORT[ty])
    if r.op == 'qelem':   # element of a symbolic sequence
        return sel(r.args[0], r.args[1], off, ty)
    if r.op == 'undefrec': return mk('undef', (r.args[0], off), SORT[ty])
    if r.op == 'zerorec':
        return {'R': ZERO, 'I': I(0), 'B': FALSE, 'P': NULL, 'Q': QEMPTY}.get(SORT[ty])
    raise Unsupported('recget %s' % r.op)
def _samelen(t, comp):
    while t.op in ('qstore', 'qupd'): t = t.args[0]
    if t.op == 'ite': return _samelen(t.args[1], comp) and _samelen(t.args[2], comp)
    return t.op == 'av' and t.args[1] == comp
def qelem(q, i): return mk('qelem', (q, i), 'C')
def _appends(q):
    """records appended by each step of a loop that only appends: (initial sequence, records, level of the index), or None"""
    if q.op != 'Fold': return None
    n, m, init, body, lv = q.args; rs = []; b = body[m]
    while b.op == 'qapp1': rs.append(b.args[1]); b = b.args[0]
    if not rs or b.op != 'av' or b.args[1] != m: return None
    def hasav(x, seen):
        if x.__class__ is tuple: return any(hasav(y, seen) for y in x)
        if x.__class__ is not T or x in seen: return False
        seen.add(x); return x.op == 'av' and x.args[0] == lv or hasav(x.args, seen)
    if hasav(tuple(rs), set()): return None
    return init[m], rs[::-1], lv
def qlen(q):
    o = q.op
    if o == 'qempty': return I(0)
    if o == 'qapp1': return add(qlen(q.args[0]), I(1))
    if o == 'qcat': return add(qlen(q.args[0]), qlen(q.args[1]))
    if o == 'qstore': return qlen(q.args[0])
    if o == 'qupd': return qlen(q.args[0])
    if o == 'qresize': return q.args[1]
    if o == 'qtake': return q.args[1]
    if o == 'qdrop': return sub(qlen(q.args[0]), q.args[1])
    if o == 'qfilter':
        if q.args[1] is TRUE: return q.args[0]
        k, g = open_(q)
        return Sum(q.args[0], k, ite(g(q.args[1]), I(1), I(0)))
    if o == 'ite': return ite(q.args[0], qlen(q.args[1]), qlen(q.args[2]))
    if o == 'Fold' and _samelen(q.args[3][q.args[1]], q.args[1]): return qlen(q.args[2][q.args[1]])
    if o in QLEN: return QLEN[o](q)
    if o == 'Fold':
        a = _appends(q)
        if a: return add(qlen(a[0]), scale(q.args[0], len(a[1])))
    if q in QLENOF: return QLENOF[q]
    return mk('len', (q,), 'I')
QLEN = {}
QLENOF = {}
def asptr(base, off):
    if base.op == 'ite': return ite(base.args[0], asptr(base.args[1], off), asptr(base.args[2], off))
    if base.sort == 'P':   # base given as a pointer value
        return padd(base, off)
    return mk('ptr', (base, off), 'P')
def wrap_ptr(ref): return mk('ptr', (ref, I(0)), 'P')
def sel(q, i, off, ty):
    o = q.op
    if o == 'qstore':
        q0, j, off2, v = q.args
        if off2 != off: return sel(q0, i, off, ty)
        return ite(eq(i, j), v, sel(q0, i, off, ty))
    if o == 'qapp1':
        n = qlen(q.args[0])
        return ite(eq(i, n), recget(q.args[1], off, ty), sel(q.args[0], i, off, ty))
    if o == 'qcat':
        n = qlen(q.args[0])
        return ite(lt(i, n), sel(q.args[0], i, off, ty), sel(q.args[1], sub(i, n), off, ty))
    if o == 'ite': return ite(q.args[0], sel(q.args[1], i, off, ty), sel(q.args[2], i, off, ty))
    if o == 'qfilter' and q.args[1] is TRUE:
        lv = q.args[-1]
        return map_t(recget(q.args[2], off, ty), {bv(lv, 'I'): i})
    if o == 'qfilter':
        k, g = open_(q)
        return subst(recget(g(q.args[2]), off, ty), {k: FIdx(q.args[0], i, k, g(q.args[1]))})
    if o == 'qupd':
        q0, lo, hi, r, lv = q.args
        if r.op == 'rec' and not any(x[0] == off for x in r.args[0]): return sel(q0, i, off, ty)
        return ite(and_(le(lo, i), lt(i, hi)), map_t(recget(r, off, ty), {bv(lv, 'I'): i}), sel(q0, i, off, ty))
    if o == 'qresize':
        q0, n, d = q.args
        n0 = qlen(q0)
        return ite(lt(i, n0), sel(q0, i, off, ty), recget(d, off, ty))
    if o == 'qtake': return sel(q.args[0], i, off, ty)
    if o == 'qdrop': return sel(q.args[0], add(i, q.args[1]), off, ty)
    if o == 'qempty': return mk('undef', ('empty', off), 'F' if ty == 'ref' else SORT[ty])
    a = _appends(q) if o == 'Fold' else None
    if a:
        n0 = qlen(a[0]); k = sub(i, n0); d = len(a[1]); c0, l = _lin(k)
        if all(x % d == 0 for x in l.values()) and (n0 is I(0)):
            r = int(c0 % d); j = _mklin((c0 - r) // d, {x: y // d for x, y in l.items()}, 'I')
            return map_t(recget(a[1][r], off, ty), {bv(a[2], 'I'): j})
    if ty == 'ptr': return wrap_ptr(mk('sel', (q, i, off, 'ref'), 'F'))
    if ty == 'ref': return mk('sel', (q, i, off, 'ref'), 'F')
    return mk('sel', (q, i, off, ty), SORT[ty])
def fld(ref, off, ty):
    """field of an immutable external object"""
    if ref.op == 'ite': return ite(ref.args[0], fld(ref.args[1], off, ty), fld(ref.args[2], off, ty))
    if ref.op == 'newobj' and ref.args[0].op == 'rec' and ty != 'ref' and any(o == off for o, t2, v in ref.args[0].args[0]): return recget(ref.args[0], off, ty)
    if ty == 'ptr': return wrap_ptr(mk('fld', (ref, off, 'ref'), 'F'))
    if ty == 'ref': return mk('fld', (ref, off, 'ref'), 'F')
    return mk('fld', (ref, off, ty), SORT[ty])
def qapp1(q, r): return mk('qapp1', (q, r), 'Q')
def qcat(a, b):
    if b is QEMPTY: return a
    if a is QEMPTY: return b
    if b.op == 'qapp1': return qapp1(qcat(a, b.args[0]), b.args[1])
    if b.op == 'qcat': return qcat(qcat(a, b.args[0]), b.args[1])
    return mk('qcat', (a, b), 'Q')
def qstore(q, i, off, v):
    if q.op == 'qstore' and q.args[1] is i:
        if q.args[2] == off: return qstore(q.args[0], i, off, v)
        if off < q.args[2]:   # canonical field order for equal index
            return mk('qstore', (qstore(q.args[0], i, off, v), i, q.args[2], q.args[3]), 'Q')
    return mk('qstore', (q, i, off, v), 'Q')
def qresize(q, n, d):
    if qlen(q) is n: return q
    if q is QEMPTY:
        k = fresh('k', 'I'); return qfilter(n, k, TRUE, d)
    return mk('qresize', (q, n, d), 'Q')
def qtake(q, n):
    if qlen(q) is n: return q
    if n.op == 'num' and n.args[0] == 0: return QEMPTY
    return mk('qtake', (q, n), 'Q')
def qdrop(q, n):
    if n.op == 'num' and n.args[0] == 0: return q
    return mk('qdrop', (q, n), 'Q')
def qfilter(n, k, cond, r):
    if n.op == 'num' and n.args[0] <= 0: return QEMPTY
    if cond is FALSE: return QEMPTY
    if n.op == 'num' and n.args[0] <= 8:
        q = QEMPTY
        for j in range(int(n.args[0])):
            m = {k: I(j)}
            q = ite(subst(cond, m), qapp1(q, subst(r, m)), q)
        return q
    lv, (c, b) = close((cond, r), k)
    return mk('qfilter', (n, c, b, lv), 'Q')
def qupd(q, lo, hi, k, r):
    """elements lo..hi-1 have the cells of r (a function of the index k) replaced"""
    if lo is hi: return q
    if lo.op == 'num' and hi.op == 'num' and hi.args[0] - lo.args[0] <= 8:
        for j in range(int(lo.args[0]), int(hi.args[0])):
            rr = subst(r, {k: I(j)})
            for o, ty, v in rr.args[0]: q = qstore(q, I(j), o, v)
        return q
    lv, b = close(r, k)
    return mk('qupd', (q, lo, hi, b, lv), 'Q')

# ---------------------------------------------------------------- printing
def show(t, d=6):
    if t.__class__ is not T: return str(t)
    if t.op == 'var': return t.args[0]
    if t.op == 'num': return str(t.args[0])
    if t.op in ('true', 'false', 'nan', 'null', 'qempty'): return t.op
    if d == 0: return '..'
    s = lambda x: show(x, d - 1)
    if t.op == 'lin':
        p = [] if t.args[0] == 0 else [str(t.args[0])]
        for x, k in t.args[1]: p.append(s(x) if k == 1 else ('-' + s(x) if k == -1 else '%s*%s' % (k, s(x))))
        return '(' + ' + '.join(p) + ')'
    if t.op == 'prod': return '*'.join(s(b) if e == 1 else '%s^%d' % (s(b), e) for b, e in t.args[0])
    if t.op in ('and', 'or'): return '(' + (' & ' if t.op == 'and' else ' | ').join(s(x) for x in t.args[0]) + ')'
    if t.op == 'not': return '!' + s(t.args[0])
    if t.op == 'lt0': return '(%s < 0)' % s(t.args[0])
    if t.op == 'le0': return '(%s <= 0)' % s(t.args[0])
    if t.op == 'eq0': return '(%s == 0)' % s(t.args[0])
    if t.op == 'fn': return '%s(%s)' % (t.args[0], ', '.join(s(x) for x in t.args[1:]))
    if t.op == 'bv': return '#%d' % t.args[0]
    def sa(a):
        if a.__class__ is T: return s(a)
        if a.__class__ is tuple: return '<' + ','.join(sa(x) for x in a) + '>'
        return str(a)
    return '%s(%s)' % (t.op, ', '.join(sa(a) for a in t.args))
def size(t):
    seen = set(); st = [t]
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x); st.extend(walk_args(x.args))
    return len(seen)

# ---------------------------------------------------------------- operators for specifications
def _l(x, s): return x if x.__class__ is T else num(x, s)
T.__add__ = lambda a, b: add(a, _l(b, a.sort))
T.__radd__ = lambda a, b: add(_l(b, a.sort), a)
T.__sub__ = lambda a, b: sub(a, _l(b, a.sort))
T.__rsub__ = lambda a, b: sub(_l(b, a.sort), a)
T.__mul__ = lambda a, b: mul(a, _l(b, a.sort))
T.__rmul__ = lambda a, b: mul(_l(b, a.sort), a)
T.__truediv__ = lambda a, b: div(a, _l(b, a.sort))
T.__rtruediv__ = lambda a, b: div(_l(b, a.sort), a)
T.__neg__ = neg
