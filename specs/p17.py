from spec import *
from geom import *
import prove as P
RY = 'acme::ray'
ASSUME = ['the tolerance is positive; directions, normals and edges are non-zero where the contract says so',
          'plane/disk, plane/triangle and triangle/disk are verified against the contracts of the overloads they call (each proved here), for unit plane normals']
def isig(a, b, o): return 'acme::Intersection(%s const&, %s const&, %s&, double)' % (a, b, o)
def pts(x): return [Vec(*x[3 * i:3 * i + 3]) for i in range(len(x) // 3)]
def match(t, exprs):
    """replace the comparisons of t by comparisons of the given expressions they are identical to as rational functions
    (an expression given with a second one is replaced by that: its value is generalised)"""
    exprs = [e if e.__class__ is tuple else (e, e) for e in exprs]
    memo = {}
    def atom(a):
        d = a.args[0]
        c = P.find_ite(d)
        if c is not None:
            f = {'lt0': _t.lt0, 'le0': _t.le0, 'eq0': _t.eq0}[a.op]
            return ite(go(c), go(f(P.simp(d, {c: TRUE}))), go(f(P.simp(d, {c: FALSE}))))
        for e, g in exprs:
            for s in (1, -1):
                if P.zero(sub(d, scale(e, s))): return {'lt0': _t.lt0, 'le0': _t.le0, 'eq0': _t.eq0}[a.op](scale(g, s))
        return a
    def go(x):
        if x in memo: return memo[x]
        if x.sort != 'B': r = x
        elif x.op in ('lt0', 'le0', 'eq0'): r = atom(x) if x.args[0].sort == 'R' else x
        else: r = _t.rebuild(x, go)
        memo[x] = r; return r
    return go(t)
import terms as _t
def straight(v, st, cls, name):
    """origin and direction vector of a line, ray or segment (t ranges over R, t >= 0, 0 <= t <= 1)"""
    p = v.sym(name, cls); x = pts(entity(v, st, p, cls))
    return p, x[0], (x[1] if cls != SG else x[1] - x[0])
def put3(v, st, p, xs):
    for i in range(3): v.ex.store(st, padd(p, 8 + 8 * i), 'double', xs[i])
def trange(cls, t, tol):
    return [] if cls == LN else [ge(t, neg(tol))] if cls == RY else [ge(t, neg(tol)), le(t, add(ONE, tol))]
def origin_of(v, p, cls): return v.at(p, cls, 'm_vertex') if cls == SG else v.at(p, cls, 'm_origin')
def order(a, b): return {SG: (PL, SG)}.get(a, (a, b))
# ---------------------------------------------------------------- straight entity and plane
def withplane(cls):
    @spec('P17', '%s and plane' % cls[6:])
    def _(v):
        tol = var('tol'); v.assume += [lt(0, tol)]
        st = State(); p, o, d = straight(v, st, cls, 'straight'); q = v.sym('plane', PL); c, n = pts(entity(v, st, q, PL)); out = v.sym('out', PT)
        a = [q, p] if cls == SG else [p, q]
        r = v.run(isig(PL, SG, PT) if cls == SG else isig(cls, PL, PT), a + [out, tol]); v.nothrow(r); v.safe(r); v.frame(r, [out])
        den = n.dot(d); t = div(n.dot(c - o), den); x = r.pt(out)
        cond = and_(lt(tol, absr(den)), *trange(cls, t, tol))
        ret = match(r.ret, [sub(absr(den), tol), add(t, tol), sub(add(ONE, tol), t), sub(t, tol), t, sub(t, ONE)])
        v.ensure('reported exactly when not parallel and the crossing parameter is in range', iff(ret, cond), [r.pc])
        hit = [r.pc, r.ret, not_(eq(den, 0))]
        v.ensure('reported point lies on the plane', eq(n.dot(x - c), 0), hit)
        v.veq('reported point lies on the straight entity, at that parameter', x, o + d * t, hit)
for c in (LN, RY, SG): withplane(c)
# ---------------------------------------------------------------- straight entity and triangle
def withtri(cls):
    @spec('P17', '%s and triangle' % cls[6:])
    def _(v):
        tol = var('tol'); v.assume += [lt(0, tol)]
        st = State(); p, _, d = straight(v, st, cls, 'straight'); q = v.sym('triangle', TRI); A, B, C = pts(entity(v, st, q, TRI)); out = v.sym('out', PT)
        e1, e2 = B - A, C - A; N = e1.cross(e2); den = d.dot(N)
        # every line that is not parallel to the triangle meets its plane in exactly one point A + U e1 + W e2,
        # at one parameter t: the origin is written in terms of these three numbers
        if cls == SG:
            d = Vec(var('dx'), var('dy'), var('dz')); den = d.dot(N)
        U, W_, t = var('U'), var('W'), var('t'); X = A + e1 * U + e2 * W_; o = X - d * t
        put3(v, st, origin_of(v, p, cls), o)
        if cls == SG: put3(v, st, padd(origin_of(v, p, cls), 32), o + d)
        r = v.run(isig(cls, TRI, PT), [p, q, out, tol], st); v.nothrow(r); v.safe(r); v.frame(r, [out, p])
        x1 = pts(entity(v, r.st, p, cls)); o1, d1 = x1[0], (x1[1] - x1[0] if cls == SG else x1[1])
        v.veq('the straight entity keeps its origin', o1, o, [r.pc]); v.veq('the straight entity keeps its direction', d1, d, [r.pc])
        one = add(ONE, tol); E = [add(U, tol), sub(one, U), add(W_, tol), sub(one, add(U, W_)), add(t, tol), sub(one, t), add(den, tol), sub(tol, den), sub(one, W_), sub(absr(den), tol), den, U, W_, t]
        ret = match(r.ret, E); y = r.pt(out)
        inside = and_(ge(U, neg(tol)), le(U, one), ge(W_, neg(tol)), le(add(U, W_), one), *trange(cls, t, tol))
        par = and_(lt(neg(tol), den), lt(den, tol))
        v.ensure('reported exactly when not parallel and the crossing point is inside the triangle (and in range), within the tolerance', iff(ret, and_(not_(par), inside)), [r.pc])
        v.veq('reported point is the crossing point, on the straight entity and on the triangle', y, X, [r.pc, r.ret, not_(eq(den, 0))])
for c in (LN, RY, SG): withtri(c)
@spec('P17', 'every non-parallel line crosses the triangle plane at one such point')
def _(v):
    A, B, C, o, d = [Vec(*[var(n + c) for c in 'xyz']) for n in ('a', 'b', 'c', 'o', 'd')]
    e1, e2 = B - A, C - A; N = e1.cross(e2); den = d.dot(N); s = o - A; q = s.cross(e1)
    t = neg(div(s.dot(N), den)); U = neg(div(s.dot(d.cross(e2)), den)); W_ = neg(div(d.dot(q), den))
    v.veq('existence', A + e1 * U + e2 * W_, o + d * t, [not_(eq(den, 0))])
# ---------------------------------------------------------------- two planes
def planesfacts(c0, n0, c1, n1, o, d, tol): 
    """(nonparallel, facts about the reported line) for unit normals"""
    k = n0.cross(n1)
    return le(tol, k.norm2()), [eq(n0.dot(o - c0), 0), eq(n1.dot(o - c1), 0)] + [eq(a, b) for a, b in zip(d, k)]
@spec('P17', 'plane and plane')
def _(v):
    tol = var('tol'); p, q = v.sym('plane0', PL), v.sym('plane1', PL); out = v.sym('line', LN); c0, n0 = pts(entity(v, State(), p, PL)); c1, n1 = pts(entity(v, State(), q, PL))
    v.assume += [lt(0, tol), lt(0, n0.norm2()), lt(0, n1.norm2())]
    r = v.run(isig(PL, PL, LN), [p, q, out, tol]); v.nothrow(r); v.safe(r); v.frame(r, [out])
    m0, m1 = n0 / n0.norm(), n1 / n1.norm(); k = m0.cross(m1); o, d = pts(entity(v, r.st, out, LN))
    v.ensure('reported exactly when the unit normals are not parallel within the tolerance', iff(r.ret, le(tol, k.norm2())), [r.pc])
    h = [r.pc, r.ret]
    for i, (m, c) in enumerate(((m0, c0), (m1, c1))):
        v.ensure('line origin lies on plane %d' % i, eq(m.dot(o - c), 0), h); v.ensure('line direction lies in plane %d' % i, eq(m.dot(d), 0), h)
    v.veq('line direction is the cross product of the unit normals', d, k, h)
@spec('P17', 'the reported line is the whole intersection of the two planes')
def _(v):
    o, x, n0, n1, c0, c1 = [Vec(*[var(n + c) for c in 'xyz']) for n in ('o', 'x', 'm', 'n', 'c', 'e')]
    g = (x - o).cross(n0.cross(n1)); A, B = n0.dot(x - o), n1.dot(x - o)
    v.veq('x on both planes gives (x - o) x d = n0 (n1.(x-o)) - n1 (n0.(x-o)) = 0', g, n0 * B - n1 * A)
    v.ensure('x - o is in plane 0', eq(A, sub(n0.dot(x - c0), n0.dot(o - c0)))); v.ensure('x - o is in plane 1', eq(B, sub(n1.dot(x - c1), n1.dot(o - c1))))

# ---------------------------------------------------------------- chords
def identity(v, name, goal, cert=()):
    """polynomial identity modulo the given facts h = 0, with their cofactors"""
    t = goal
    for c, h in cert: t = sub(t, mul(c, h))
    ok = P.zero(t)
    v.obl.append((name, 'proved' if ok else 'undecided', 'polynomial identity with certificate', 0.0, None if ok else show(t, 8)[:1500]))
def discr(o, d, c, R): w = o - c; return sub(sq(w.dot(d)), mul(sub(w.norm2(), sq(R)), d.norm2()))
def chord(v, r, out, o, d, c, R, tol, hyps=()):
    """the reported segment is the chord of the ball |x - c| <= R cut by the line o + t d"""
    w = o - c; D = discr(o, d, c, R); k = d.norm2()
    ret = match(r.ret, [add(D, tol), sub(absr(D), tol), sub(tol, absr(D)), sub(D, tol), D])
    v.ensure('reported exactly when the line reaches the circle within the tolerance', iff(ret, le(neg(tol), D)), [r.pc, *hyps])
    x = pts(entity(v, r.st, out, SG)); h = [r.pc, r.ret, *hyps]
    cut = le(tol, D); near = lt(absr(D), tol)
    E = [add(D, tol), sub(absr(D), tol), sub(tol, absr(D)), sub(D, tol), D]
    x = [Vec(*[mapite(a, lambda c_: match(c_, E)) for a in y]) for y in x]
    s = div(sqrt(D), k); t0 = neg(div(w.dot(d), k))
    for i, sg in ((0, -1), (1, 1)):
        v.veq('end %d is the crossing of the line with the circle' % i, x[i], o + d * add(t0, scale(s, sg)), h + [cut])
        v.veq('tangent within the tolerance: end %d is the point of the line closest to the centre' % i, x[i], o + d * t0, h + [near])
def mapite(t, f, memo=None):
    memo = {} if memo is None else memo
    if t in memo: return memo[t]
    if t.op == 'ite': r = ite(f(t.args[0]), mapite(t.args[1], f, memo), mapite(t.args[2], f, memo))
    elif t.sort == 'B': r = f(t)
    elif any(x.__class__ is T for x in _t.walk_args(t.args)): r = _t.rebuild(t, lambda y: mapite(y, f, memo))
    else: r = t
    memo[t] = r; return r
@spec('P17', 'line in the plane of a disk: the full chord')
def _(v):
    tol = var('tol'); p = v.sym('line', LN); q = v.sym('disk', DK); out = v.sym('out', SG)
    o, d = pts(entity(v, State(), p, LN)); e = entity(v, State(), q, DK); R = e[0]; c = Vec(*e[1:4])
    v.assume += [lt(0, tol), lt(0, d.norm2()), le(0, R)]
    r = v.run(isig(LN, DK, SG), [p, q, out, tol]); v.nothrow(r); v.safe(r); v.frame(r, [out])
    chord(v, r, out, o, d, c, R, tol)
@spec('P17', 'the ends of the chord are on the circle and bound the points of the line inside it')
def _(v):
    o, d, c = [Vec(*[var(n + k) for k in 'xyz']) for n in ('o', 'd', 'c')]; R, s, t, k = var('R'), var('s'), var('t'), var('k')
    w = o - c; n = d.norm2(); D = discr(o, d, c, R); t0 = neg(div(w.dot(d), n))
    # s is the root of the discriminant over n: s^2 n^2 = D
    f = lambda t: sub((o + d * t - c).norm2(), sq(R))
    identity(v, 'distance from the centre along the line', sub(mul(f(t), n), sub(sq(mul(n, sub(t, t0))), D)))
    a, b, y = var('a'), var('b'), var('y')
    v.ensure('inside the circle exactly between the two ends', iff(le(mul(sub(y, a), sub(y, b)), 0), and_(le(a, y), le(y, b))), [le(a, b)])
    identity(v, 'the ends are the zeros', sub(sub(sq(mul(n, sub(t, t0))), mul(sq(s), sq(n))), mul(sq(n), mul(sub(t, sub(t0, s)), sub(t, add(t0, s))))))
@spec('P17', 'plane and disk: the full chord of the disk')
def _(v):
    tol = var('tol'); p = v.sym('plane', PL); q = v.sym('disk', DK); out = v.sym('out', SG)
    p0, m0 = pts(entity(v, State(), p, PL)); e = entity(v, State(), q, DK); R = e[0]; c, m1 = pts(e[1:])
    o = Vec(*[var('o' + k) for k in 'xyz']); d = m0.cross(m1)
    u0, u1 = sub(m0.norm2(), ONE), sub(m1.norm2(), ONE)
    v.assume += [lt(0, tol), le(0, R)]     # and u0 = u1 = 0, used only through the certificates below
    seen = []
    def planes(ex, st, args):
        x = [pts(entity(v, st, a, PL)) for a in args[:2]]
        seen.append((x, args[3]))
        hit = le(args[3], x[0][1].cross(x[1][1]).norm2())
        y = list(o) + list(x[0][1].cross(x[1][1]))
        for i in range(3):
            v.ex.store(st, padd(v.at(args[2], LN, 'm_origin'), 8 + 8 * i), 'double', y[i]); v.ex.store(st, padd(v.at(args[2], LN, 'm_direction'), 8 * i), 'double', y[3 + i])
        return hit
    v.contract(isig(PL, PL, LN), planes)
    r = v.run(isig(PL, DK, SG), [p, q, out, tol]); v.nothrow(r); v.safe(r); v.frame(r, [out])
    if len(seen) != 1: raise GiveUp('plane-disk does not intersect the two planes once')
    (a, b), t = seen[0]
    same = lambda x, y: all(P.zero(sub(i, j)) for k, l in zip(x, y) for i, j in zip(k, l))
    sw = same(a, (c, m1)) and same(b, (p0, m0))
    v.fact('the line used is that of the plane and the laying plane of the disk', (same(a, (p0, m0)) and same(b, (c, m1))) or sw)
    if sw: d = -d
    v.assume.append(eq(t, tol)); v.fact('with the given tolerance', t is tol)
    # facts on the line: h0, h1 (its origin is on both planes, contract of plane-plane)
    w = o - c; s = m0.dot(c - p0); h0, h1 = add(m0.dot(w), s), m1.dot(w)
    D = discr(o, d, c, R); N = d.norm2(); E = [add(D, tol), sub(absr(D), tol), sub(tol, absr(D)), sub(D, tol), D, sub(N, tol), sub(tol, N)]
    ret = match(r.ret, E); v.ensure('reported exactly when not parallel and the plane reaches the disk within the tolerance', iff(ret, and_(le(tol, N), le(neg(tol), D))), [r.pc])
    k = m0.dot(m1)
    # D = |d|^2 R^2 - s^2 with s the signed distance of the centre from the plane
    G = sub(D, sub(mul(N, sq(R)), sq(s)))
    # |w|^2|d|^2 - (w.d)^2 = |w x d|^2 and w x (m0 x m1) = m0 (w.m1) - m1 (w.m0)
    A, B, K = m0.dot(w), m1.dot(w), k
    identity(v, 'the discriminant is |d|^2 R^2 - (distance of the centre from the plane)^2', G,
             [(sub(s, A), h0), (neg(sq(A)), u1), (sub(scale(mul(K, A), 2), mul(m0.norm2(), B)), h1)])
    Dv, Nv = var('D'), var('N'); G = [(D, Dv), (add(D, tol), add(Dv, tol)), (sub(absr(D), tol), sub(absr(Dv), tol)), (sub(D, tol), sub(Dv, tol)), (sub(N, tol), sub(Nv, tol))]
    x = [Vec(*[mapite(z, lambda c_: match(c_, G)) for z in y]) for y in pts(entity(v, r.st, out, SG))]
    h = [match(r.pc, G), match(r.ret, G), le(tol, Nv), le(neg(tol), Dv)]; S_ = div(sqrt(D), N); t0 = neg(div(w.dot(d), N))
    for i, sg in ((0, -1), (1, 1)):
        v.veq('end %d is the crossing of the line with the circle' % i, x[i], o + d * add(t0, scale(S_, sg)), h + [le(tol, Dv)])
        v.veq('tangent within the tolerance: end %d is the point of the line closest to the centre' % i, x[i], o + d * t0, h + [lt(absr(Dv), tol)])
    y = o + d * var('t')
    identity(v, 'every point of the line is on the plane', m0.dot(y - p0), [(ONE, h0)])
    identity(v, 'every point of the line is on the plane of the disk', m1.dot(y - c), [(ONE, h1)])
# ---------------------------------------------------------------- segments in the plane of the disk
@spec('P17', 'segment in the plane of a disk: the part inside the disk')
def _(v):
    tol = var('tol'); p = v.sym('segment', SG); q = v.sym('disk', DK); out = v.sym('out', SG)
    e = entity(v, State(), q, DK); R = e[0]; c, m = pts(e[1:])
    A, B = pts(entity(v, State(), p, SG)); d = B - A
    v.assume += [lt(0, tol), le(0, R)]
    r = v.run(isig(SG, DK, SG), [p, q, out, tol]); v.nothrow(r); v.safe(r); v.frame(r, [out])
    D, w, N = discr(A, d, c, R), A - c, d.norm2(); t0 = neg(div(w.dot(d), N)); S_ = div(sqrt(D), N)
    L_, M_ = d.norm(), m.norm()
    lo, hi = sub(t0, S_), add(t0, S_)
    Dv, tv, lv, hv, Lv, Mv = [var(n) for n in ('D', 't0', 'lo', 'hi', 'len', 'nrm')]
    E = [(add(D, tol), add(Dv, tol)), (sub(absr(D), tol), sub(absr(Dv), tol)), (sub(D, tol), sub(Dv, tol)), (D, Dv), (t0, tv), (sub(ONE, t0), sub(ONE, tv)), (lo, lv), (hi, hv),
         (sub(ONE, lo), sub(ONE, lv)), (sub(ONE, hi), sub(ONE, hv)), (sub(L_, tol), sub(Lv, tol)), (sub(M_, tol), sub(Mv, tol)), (sub(R, tol),) * 2, (sub(absr(R), tol),) * 2, (sub(lo, hi), sub(lv, hv))]
    mm = lambda t: match(t, E)
    deg = or_(lt(Lv, tol), lt(absr(R), tol), lt(Mv, tol)); nd = [not_(deg), le(0, Lv), le(0, Mv)]
    ret = mm(r.ret); cut, near = le(tol, Dv), lt(absr(Dv), tol); pc = mm(r.pc)
    v.ensure('nothing is reported for a degenerate segment or disk', not_(ret), [pc, deg, le(0, Lv), le(0, Mv)])
    v.ensure('nothing is reported when the line misses the circle', not_(ret), [pc, lt(Dv, neg(tol)), le(0, Lv), le(0, Mv)])
    v.ensure('tangent within the tolerance: reported exactly when the point closest to the centre is on the segment', iff(ret, and_(le(0, tv), le(tv, 1))), [pc, near, *nd])
    v.ensure('reported exactly when part of the segment is inside the circle', iff(ret, and_(le(lv, 1), le(0, hv))), [pc, cut, le(lv, hv), *nd])
    x = [Vec(*[mapite(z, mm) for z in y]) for y in pts(entity(v, r.st, out, SG))]
    h = [pc, ret, *nd]
    for i, a, b in ((0, lo, lv), (1, hi, hv)):
        for k in range(3):   # at b = 0 and b = 1 the two expressions of the end coincide
            f = [eq(x[i][k], y[k]) for y in (A, A + d * a, A + d)]
            v.ensure('end %d is that of the part inside the circle.%s' % (i, 'xyz'[k]), and_(implies(lt(b, 0), f[0]), implies(and_(lt(0, b), lt(b, 1)), f[1]), implies(lt(1, b), f[2]),
                     implies(eq(b, 0), or_(f[0], f[1])), implies(eq(b, 1), or_(f[1], f[2]))), h + [cut, le(lv, hv)])
        v.veq('tangent within the tolerance: end %d is the point closest to the centre' % i, x[i], A + d * t0, h + [near])
R0 = lambda k: R(Fraction(k))
@spec('P17', 'segment inside a disk: clamped ends bound the common part')
def _(v):
    a, b, t = var('a'), var('b'), var('t'); c = lambda x: maxr(R0(0), minr(x, ONE))
    v.ensure('common part', iff(and_(le(0, t), le(t, 1), le(a, t), le(t, b)), and_(le(c(a), t), le(t, c(b)))), [le(a, b), le(a, 1), le(0, b)])
    v.ensure('non-empty', implies(and_(le(0, t), le(t, 1), le(a, t), le(t, b)), and_(le(a, 1), le(0, b))))
# ---------------------------------------------------------------- lines and triangles in one plane
@spec('P17', 'line and coplanar segment')
def _(v):
    tol = var('tol'); st = State(); p = v.sym('line', LN); q = v.sym('segment', SG); out = v.sym('out', PT)
    o, d = pts(entity(v, st, p, LN)); e = Vec(*[var('e' + k) for k in 'xyz']); a, b = var('a'), var('b')
    v0 = o + d * a - e * b     # any coplanar, non-parallel pair: line and segment cross at o + a d = v0 + b e
    for i in range(2): put3(v, st, padd(v.at(q, SG, 'm_vertex'), 32 * i), v0 + e * i)
    k = d.cross(e).norm2()
    v.assume += [lt(0, tol), lt(0, e.norm2()), lt(0, k)]
    r = v.run(isig(LN, SG, PT), [p, q, out, tol], st); v.nothrow(r); v.safe(r); v.frame(r, [out, q])
    x1 = pts(entity(v, r.st, q, SG)); v.veq('the segment is unchanged', x1[0], v0); v.veq('the segment is unchanged', x1[1], v0 + e)
    par = d.cross(e / e.norm())
    E = [b, sub(ONE, b), add(b, tol), sub(add(ONE, tol), b), sub(par.norm(), tol), add(a, tol), a]
    ret = match(r.ret, E)
    v.ensure('reported exactly when not parallel and the crossing is on the segment, within the tolerance', iff(ret, and_(le(tol, par.norm()), le(neg(tol), b), le(b, add(ONE, tol)))), [r.pc])
    x = r.pt(out); v.veq('the reported point is the crossing', x, o + d * a, [r.pc, r.ret])
LineSeg, LineTriS = Prim(LN, SG, PT), Prim(LN, TRI, SG)
@spec('P17', 'line and coplanar triangle: the part between the crossed edges')
def _(v):
    LineSeg.assume(v)
    tol = var('tol'); p = v.sym('line', LN); q = v.sym('triangle', TRI); out = v.sym('out', SG)
    l = entity(v, State(), p, LN); T_ = pts(entity(v, State(), q, TRI))
    r = v.run(isig(LN, TRI, SG), [p, q, out, tol]); v.nothrow(r); v.safe(r); v.frame(r, [out])
    ed = [l + list(T_[i]) + list(T_[(i + 1) % 3]) + [tol] for i in range(3)]
    H = [LineSeg.hit(x) for x in ed]; X_ = [Vec(*LineSeg.out(x)) for x in ed]
    two = lambda i, j: and_(H[i], H[j])
    v.ensure('reported exactly when two edges are crossed', iff(r.ret, or_(two(0, 1), two(1, 2), two(2, 0))), [r.pc])
    x, y = pts(entity(v, r.st, out, SG))
    for i, j, k in ((0, 1, 2), (1, 2, 0), (2, 0, 1)):
        pair = or_(and_(x.eq(X_[i]), y.eq(X_[j])), and_(x.eq(X_[j]), y.eq(X_[i])))
        v.ensure('edges %d and %d crossed: the two crossings' % (i, j), pair, [r.pc, two(i, j), not_(H[k])])
    al = [r.pc, and_(*H)]; ds = [(X_[i] - X_[j]).norm() for i, j in ((0, 1), (1, 2), (2, 0))]
    D3 = [var('D01'), var('D12'), var('D20')]
    v.ensure('three edges crossed: two of the crossings', or_(*[or_(and_(x.eq(X_[i]), y.eq(X_[j])), and_(x.eq(X_[j]), y.eq(X_[i]))) for i, j in ((0, 1), (1, 2), (2, 0))]), al)
    for n in range(3): v.ensure('three edges crossed: no two crossings are farther apart (%d)' % n, le(ds[n], (x - y).norm()), al)
PlPl = Prim(PL, PL, LN); LnDk = Prim(LN, DK, SG); PlTri = Prim(PL, TRI, SG); SgDk = Prim(SG, DK, SG)
@spec('P17', 'plane and triangle: the section of the triangle by the plane')
def _(v):
    tol = var('tol'); p = v.sym('plane', PL); q = v.sym('triangle', TRI); out = v.sym('out', SG)
    PlPl.assume(v); LineTriS.assume(v)
    r = v.run(isig(PL, TRI, SG), [p, q, out, tol]); v.nothrow(r); v.safe(r); v.frame(r, [out])
    T_ = pts(entity(v, State(), q, TRI)); n = (T_[1] - T_[0]).cross(T_[2] - T_[0])
    i1 = entity(v, State(), p, PL); C_ = (T_[0] + T_[1] + T_[2]) / 3
    pl = [t for t in subterms(r.ret) if t.op == 'uf' and t.args[0] == PlPl.name + '.hit']
    if len(pl) != 1: raise GiveUp('plane-triangle does not intersect two planes once')
    a = pl[0].args[1:]; sw = a[6:12] == tuple(i1); own, lay = (a[6:12], a[:6]) if sw else (a[:6], a[6:12])
    v.fact('the given plane is used', tuple(own) == tuple(i1)); v.fact('with the given tolerance', a[12] is tol)
    on, ln = pts(lay); h = [lt(0, n.norm2())]
    v.ensure('the other plane is that of the triangle: a point of it', eq(n.dot(on - T_[0]), 0), h)
    v.ensure('the other plane is that of the triangle: unit normal', eq(ln.norm2(), 1), h)
    v.veq('the other plane is that of the triangle: normal direction', ln.cross(n), Z3, h)
    L = PlPl.out(a); j = L + [x for k in T_ for x in k] + [tol]
    v.ensure('reported exactly when that line crosses the triangle', iff(r.ret, and_(PlPl.hit(a), LineTriS.hit(j))), [r.pc])
    for k, (x, y) in enumerate(zip(pts(entity(v, r.st, out, SG)), pts(LineTriS.out(j)))): v.veq('end %d' % k, x, y, [r.pc, r.ret])
@spec('P17', 'triangle and disk: the section of the triangle by the plane of the disk, inside the disk')
def _(v):
    tol = var('tol'); p = v.sym('triangle', TRI); q = v.sym('disk', DK); out = v.sym('out', SG)
    PlTri.assume(v); SgDk.assume(v)
    r = v.run(isig(TRI, DK, SG), [p, q, out, tol]); v.nothrow(r); v.safe(r); v.frame(r, [out])
    t, e = entity(v, State(), p, TRI), entity(v, State(), q, DK)
    i = e[1:] + t + [tol]; s = PlTri.out(i); j = s + e + [tol]
    v.ensure('reported exactly when the section meets the disk', iff(r.ret, and_(PlTri.hit(i), SgDk.hit(j))), [r.pc])
    for k, (x, y) in enumerate(zip(pts(entity(v, r.st, out, SG)), pts(SgDk.out(j)))): v.veq('end %d' % k, x, y, [r.pc, r.ret])
def subterms(t):
    seen = set()
    def go(x):
        if x in seen: return
        seen.add(x)
        for y in _t.walk_args(x.args): go(y)
    go(t); return seen

# ---------------------------------------------------------------- entities of unknown type
def generic(a, b, o, call, pid='P17', collinear=False, coplanar=False, call2=None, both=None):
    """the pairs of the property through Intersection(entity const *, entity const *): the result of the overload for the two types;
    collinear, coplanar: what the predicates say of the pair; call2: a second overload, asked when the first one reports nothing"""
    kind = ' in one line' if collinear else ' in one plane' if coplanar else ''
    @spec(pid, '%s and %s%s given as entities' % (a[6:], b[6:], kind))
    def _(v):
        tol = var('tol'); calls = [call] + ([call2] if call2 else []); log = []
        for cl in calls:
            def prim(ex, st, args, cl=cl):
                pr = Prim(*cl); ins = entity(v, st, args[0], cl[0]) + entity(v, st, args[1], cl[1]) + [args[3]]; log.append((tuple(args[:2]), cl))
                put(v, st, args[2], cl[2], pr.out(ins)); return pr.hit(ins)
            v.contract(Prim(*cl).sig, prim)
        says = {'IsCollinear': collinear, 'IsCoplanar': coplanar or collinear}
        for n in says: v.contract('acme::%s(acme::entity const*, acme::entity const*, double)' % n, lambda ex, st, args, n=n: (TRUE if says[n] else FALSE) if {args[0], args[1]} == {p, q} else fresh('other', 'B'))
        p, q = v.sym('first', a), v.sym('second', b)
        r = v.run('acme::Intersection(acme::entity const*, acme::entity const*, double)', [p, q, tol]); v.safe(r); v.nothrow(r); v.frame(r)
        if not log: raise GiveUp('the overload is not used')
        ty = v.rd(r.st, r.ret, 'ptr'); miss = []
        for cl in calls:
            pr = Prim(*cl); sw = (a, b) != cl[:2] or (a == b and any(l[1] == cl and l[0] == (q, p) for l in log))
            x, y = (q, p) if sw else (p, q)
            ins = entity(v, State(), x, cl[0]) + entity(v, State(), y, cl[1]) + [tol]; hit = pr.hit(ins); h = [r.pc, hit] + miss
            nm = ' (%s)' % cl[2][6:] if call2 else ''
            v.ensure('a result of the proper type when the two meet' + nm, peq(ty, v.ex.vtable(cl[2])), h)
            known = {hit: TRUE}; known.update({m.args[0]: FALSE for m in miss})
            for k, (s, t) in enumerate(zip(entity(v, r.st, P.simp(r.ret, known), cl[2]), pr.out(ins))): v.ensure('number %d of the result%s' % (k, nm), eq(s, t), h)
            miss.append(not_(hit))
        v.ensure('an empty result when they do not', peq(ty, v.ex.vtable('acme::none')), [r.pc] + miss)
for x in (LN, RY, SG):
    for y in (PL, TRI):
        c = (PL, SG, PT) if (x, y) == (SG, PL) else (x, y, PT)
        generic(x, y, PT, c); generic(y, x, PT, c)
generic(PL, PL, LN, (PL, PL, LN))
for x in (PL, TRI): generic(x, DK, SG, (x, DK, SG)); generic(DK, x, SG, (x, DK, SG))
generic(PL, TRI, SG, (PL, TRI, SG)); generic(TRI, PL, SG, (PL, TRI, SG))
