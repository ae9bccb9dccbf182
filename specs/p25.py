from spec import *
from geom import *
import prove as P, terms as _t
from p17 import isig, pts, match, put3, origin_of, generic
RY, BL = 'acme::ray', 'acme::ball'
ASSUME = ['the tolerance is positive; directions of lines and rays have unit length, segments positive length',
          'the common part of two triangles in one plane, when there is one, contains a vertex of one of them or a crossing of two edges (plane geometry, not proved)']
K = {LN: 0, RY: 1, SG: 2}
def rangep(cls, t, tol): return [] if cls == LN else [le(neg(tol), t)] if cls == RY else [le(neg(tol), t), le(t, add(ONE, tol))]
def dirv(n): return Vec(*[var(n + k) for k in 'xyz'])
def setstraight(v, st, p, cls, o, d):
    q = origin_of(v, p, cls); put3(v, st, q, o)
    if cls == SG: put3(v, st, padd(q, 32), o + d)
    else:
        for i in range(3): v.ex.store(st, padd(v.at(p, cls, 'm_direction'), 8 * i), 'double', d[i])
def unit(cls, d): return d / d.norm() if cls == SG else d
# ---------------------------------------------------------------- coplanar, not parallel
def crossing(x, y):
    @spec('P25', '%s and %s crossing' % (x[6:], y[6:]))
    def _(v):
        tol, a, b = var('tol'), var('a'), var('b'); st = State(); p, q, out = v.sym('first', x), v.sym('second', y), v.sym('out', PT)
        X_, d, e, h = dirv('X'), dirv('d'), dirv('e'), var('h')   # every non-parallel pair: the points closest to each other are X = o + a d and X + h (d x e) = c + b e
        k = d.cross(e); setstraight(v, st, p, x, X_ - d * a, d); setstraight(v, st, q, y, X_ + k * h - e * b, e)
        v.assume += [lt(0, tol), lt(0, k.norm2()), lt(0, d.norm2()), lt(0, e.norm2())]
        r = v.run(isig(x, y, PT), [p, q, out, tol], st); v.nothrow(r); v.safe(r); v.frame(r, [out, p, q])
        for n, z, c in (('first', p, x), ('second', q, y)):
            for i, (f, g) in enumerate(zip(entity(v, r.st, z, c), entity(v, st, z, c))): v.ensure('the %s is unchanged: number %d' % (n, i), eq(f, g), [r.pc])
        par = unit(x, d).cross(unit(y, e)).norm(); E = [sub(par, tol)]
        for t in (a, b): E += [add(t, tol), sub(add(ONE, tol), t), t, sub(ONE, t)]
        ret = match(r.ret, E)
        v.ensure('reported exactly when not parallel, no farther apart than the tolerance, and the crossing is on both, within the tolerance', iff(ret, and_(le(tol, par), le(mul(absr(h), k.norm()), tol), *rangep(x, a, tol), *rangep(y, b, tol))), [r.pc])
        v.veq('the reported point is the crossing', r.pt(out), X_, [r.pc, r.ret])
for x in K:
    for y in K:
        if K[x] <= K[y]: crossing(x, y)
# ---------------------------------------------------------------- balls
def discr1(w, u, R): return sub(sq(w.dot(u)), sub(w.norm2(), sq(R)))
def withball(x):
    @spec('P25', '%s and ball: the part inside the ball' % x[6:])
    def _(v):
        tol = var('tol'); st = State(); p, q, out = v.sym('straight', x), v.sym('ball', BL), v.sym('out', SG); o, d, c = dirv('o'), dirv('d'), v.prep(v.at(q, BL, 'm_center')); R_ = v.pre(v.at(q, BL, 'm_radius'))
        L = d.norm(); setstraight(v, st, p, x, o, d); v.assume += [lt(0, tol), lt(0, d.norm2()), le(0, R_)]
        r = v.run(isig(x, BL, SG), [p, q, out, tol], st); v.nothrow(r); v.safe(r); v.frame(r, [out, p])
        w, u = o - c, d / L; D = discr1(w, u, R_); m = neg(w.dot(u)); s = sqrt(D); lo, hi = sub(m, s), add(m, s)
        Dv, lv, hv, Lv = [var(n) for n in ('D', 'lo', 'hi', 'len')]
        E = [(sub(D, tol), sub(Dv, tol)), (D, Dv), (lo, lv), (hi, hv), (sub(L, lo), sub(Lv, lv)), (sub(L, hi), sub(Lv, hv)), (sub(lo, hi), sub(lv, hv)), (div(lo, L), lv), (div(hi, L), hv), (sub(ONE, div(lo, L)), sub(Lv, lv)), (sub(ONE, div(hi, L)), sub(Lv, hv))]
        mm = lambda t: match(t, E); pc, ret = mm(r.pc), mm(r.ret); h = [pc, lt(lv, hv), lt(0, Lv)]
        inr = {LN: TRUE, RY: le(0, hv), SG: and_(le(0, hv), le(lv, Lv))}[x]
        v.ensure('reported exactly when part of it is inside the ball, beyond the tolerance', iff(ret, and_(lt(tol, Dv), inr)), h)
        for i, a, b in ((0, lo, lv), (1, hi, hv)):
            y = pts(entity(v, r.st, out, SG))[i]; y = Vec(*[mapite(z, mm) for z in y])
            for k in range(3):
                f = [eq(y[k], z[k]) for z in (o, o + u * a, o + d)]
                if x == LN: v.ensure('end %d is the crossing with the sphere.%s' % (i, 'xyz'[k]), f[1], h + [ret])
                else: v.ensure('end %d bounds the part inside the ball.%s' % (i, 'xyz'[k]), and_(implies(lt(b, 0), f[0]), implies(eq(b, 0), or_(f[0], f[1])), implies(and_(lt(0, b), lt(b, Lv) if x == SG else TRUE), f[1]),
                         *([implies(eq(b, Lv), or_(f[1], f[2])), implies(lt(Lv, b), f[2])] if x == SG else [])), h + [ret])
from p17 import mapite, identity
for x in K: withball(x)
@spec('P25', 'the ends are on the sphere and bound the points inside the ball')
def _(v):
    o, d, c = dirv('o'), dirv('d'), dirv('c'); R_, t, s = var('R'), var('t'), var('s'); w = o - c; n = d.norm2()
    # for a unit direction: |o + t d - c|^2 - R^2 = (t - m)^2 - D,  m = -w.d, D = (w.d)^2 - |w|^2 + R^2
    D = discr1(w, d, R_)
    identity(v, 'squared distance from the centre along the line', sub(sub((o + d * t - c).norm2(), sq(R_)), sub(sq(add(t, w.dot(d))), D)), [(sq(t), sub(n, ONE))])
@spec('P25', 'plane and ball: the section circle')
def _(v):
    tol = var('tol'); p, q, out = v.sym('plane', PL), v.sym('ball', BL), v.sym('out', DK); o, n = pts(entity(v, State(), p, PL)); c = v.prep(v.at(q, BL, 'm_center')); R_ = v.pre(v.at(q, BL, 'm_radius'))
    v.assume += [lt(0, n.norm2()), le(0, R_)]; u = n / n.norm(); s = u.dot(c - o)
    r = v.run(isig(PL, BL, DK), [p, q, out, tol]); v.nothrow(r); v.safe(r); v.frame(r, [out])
    v.ensure('reported exactly when the plane is no farther from the centre than the radius', iff(r.ret, le(absr(s), R_)), [r.pc])
    e = entity(v, r.st, out, DK); h = [r.pc, r.ret]
    v.ensure('squared radius is R^2 - distance^2', eq(sq(e[0]), sub(sq(R_), sq(s))), h); v.ensure('radius is not negative', le(0, e[0]), h)
    v.veq('centre is the foot of the perpendicular', Vec(*e[1:4]), c - u * s, h); v.veq('normal is that of the plane', Vec(*e[4:]), u, h)
@spec('P25', 'three planes: the common point')
def _(v):
    tol = var('tol'); P_ = [v.sym('plane%d' % i, PL) for i in range(3)]; out = v.sym('out', PT); on = [pts(entity(v, State(), p, PL)) for p in P_]
    r = v.run('acme::Intersection(acme::plane const&, acme::plane const&, acme::plane const&, acme::point&, double)', P_ + [out, tol]); v.nothrow(r); v.safe(r); v.frame(r, [out])
    n = [x[1] for x in on]; det = n[0].dot(n[1].cross(n[2])); v.assume += [lt(0, tol)]
    v.ensure('reported exactly when the normals are independent within the tolerance', iff(match(r.ret, [sub(absr(det), tol)]), le(tol, absr(det))), [match(r.pc, [sub(absr(det), tol)])])
    for i in range(3): v.ensure('the point lies on plane %d' % i, eq(n[i].dot(r.pt(out) - on[i][0]), 0), [not_(eq(det, 0)), match(r.pc, [sub(absr(det), tol)]), match(r.ret, [sub(absr(det), tol)])])
# ---------------------------------------------------------------- overlaps of collinear entities
def roots(t, ks, L, memo=None):
    """square roots of k^2 |d|^2 are |k| |d|"""
    memo = {} if memo is None else memo
    if t in memo: return memo[t]
    r = None
    if t.op == 'sqrt':
        for k in ks:
            if P.zero(sub(t.args[0], mul(sq(k), sq(L) if L is not ONE else ONE))): r = mul(absr(k), L)
    if r is None: r = _t.rebuild(t, lambda y: roots(y, ks, L, memo)) if any(x.__class__ is T for x in _t.walk_args(t.args)) else t
    memo[t] = r; return r
def along(v, st, p, cls, o, d, a, b):
    """lines, rays: origin o + a d, direction b d (b = +-1); segments: from o + a d to o + b d"""
    if cls == SG: q = origin_of(v, p, SG); put3(v, st, q, o + d * a); put3(v, st, padd(q, 32), o + d * b)
    else: setstraight(v, st, p, cls, o + d * a, d * b)
def same_entity(v, name, r, out, cls, st, src, hyps):
    for k, (f, g) in enumerate(zip(entity(v, r.st, out, cls), entity(v, st, src, cls))): v.ensure('%s: number %d' % (name, k), eq(f, g), hyps)
def collinear_only(x, y, o, name, extra=lambda a, b: TRUE, pred='IsCollinear', which=1):
    """the overlap of two entities one of which contains the other"""
    @spec('P25', '%s and %s: %s' % (x[6:], y[6:], name))
    def _(v):
        tol = var('tol'); p, q, out = v.sym('first', x), v.sym('second', y), v.sym('out', o); v.assume += [lt(0, tol)]
        r = v.run(isig(x, y, o), [p, q, out, tol]); v.nothrow(r); v.safe(r); v.frame(r, [out])
        c = v.run('acme::%s(%s const&, %s const&, double)' % (pred, x, y), [p, q, tol])
        v.ensure('reported exactly when %s within the tolerance' % ('collinear' if pred == 'IsCollinear' else 'coplanar'), iff(r.ret, c.ret), [r.pc, c.pc])
        same_entity(v, 'the result is the contained entity', r, out, o, State(), q if which else p, [r.pc, r.ret])
collinear_only(LN, LN, LN, 'collinear', which=0); collinear_only(LN, RY, RY, 'collinear'); collinear_only(LN, SG, SG, 'collinear')
collinear_only(LN, PL, LN, 'in the plane', pred='IsCoplanar', which=0); collinear_only(RY, PL, RY, 'in the plane', pred='IsCoplanar', which=0); collinear_only(PL, SG, SG, 'in the plane', pred='IsCoplanar')
collinear_only(PL, PL, PL, 'the same plane', pred='IsCoplanar', which=0); collinear_only(PL, TRI, TRI, 'in the plane', pred='IsCoplanar'); collinear_only(PL, DK, DK, 'in the plane', pred='IsCoplanar')
def onaxis(x, y, o, name, px, py, check, n=4):
    """overlap of two collinear entities on a line O + t d, |d| = 1: lines and rays by (origin, +-1), segments by their end parameters"""
    @spec('P25', '%s and %s: %s' % (x[6:], y[6:], name))
    def _(v):
        tol = var('tol'); st = State(); p, q, out = v.sym('first', x), v.sym('second', y), v.sym('out', o); O, d = dirv('o'), dirv('d'); L = d.norm()
        A = {k: var('t' + k) for k in 'abce'}; g = lambda k: A[k] if k in A else R(1 if k == '+' else -1)
        along(v, st, p, x, O, d, g(px[0]), g(px[1])); along(v, st, q, y, O, d, g(py[0]), g(py[1])); v.assume += [lt(0, tol), lt(0, d.norm2())]
        if SG in (x, y): v.contract('acme::IsCollinear(%s const&, %s const&, double)' % (x, y), lambda ex, s_, args: TRUE)   # shown for the exact predicate by P19
        r = v.run(isig(x, y, o), [p, q, out, tol], st); v.safe(r); v.frame(r, [out, p, q])
        used = [A[k] for k in px + py if k in A]; D_ = [sub(s, t) for i, s in enumerate(used) for t in used[:i]]
        pc, ret = along_only(v, r.pc, D_, d, O), along_only(v, r.ret, D_, d, O)
        ex = FALSE if not v.ex.throws else or_(*[along_only(v, c, D_, d, O) for c, _ in v.ex.throws])
        outs_ = []
        for k, (e0) in enumerate(pts(entity(v, r.st, out, o))):
            e0 = Vec(*[along_only(v, z, D_, d, O) for z in e0]); outs_.append(e0)
        check(v, ret, pc, outs_, A, tol, O, d, ex)
def along_only(v, t, ks, d, O):
    """comparisons of t in which the direction enters only through |d| = 1"""
    n2 = d.norm2(); memo = {}
    def inner(x):
        if x in memo: return memo[x]
        r = None
        if x.op == 'sqrt':
            for k in ks:
                if P.zero(sub(x.args[0], mul(sq(k), n2))): r = absr(k); break
        if r is None and x.op in ('lt0', 'le0', 'eq0') and x.args[0].sort == 'R':
            a = inner(x.args[0]); f = {'lt0': _t.lt0, 'le0': _t.le0, 'eq0': _t.eq0}[x.op]
            c = P.find_ite(a)
            if c is not None: r = ite(inner(c), inner(f(P.simp(a, {c: TRUE}))), inner(f(P.simp(a, {c: FALSE}))))
            else:
                for k in ks:
                    for s in (1, -1):
                        for m in (n2, d.norm(), ONE):
                            if P.zero(sub(a, mul(scale(k, s), m))): r = f(scale(k, s)); break
                r = r or f(a)
        if r is None: r = _t.rebuild(x, inner) if any(z.__class__ is T for z in _t.walk_args(x.args)) else x
        memo[x] = r; return r
    return inner(t)
def ends(v, name, x, cases, O, d, hyps):
    for k in range(3): v.ensure('%s.%s' % (name, 'xyz'[k]), or_(*[and_(c, eq(x[k], (O + d * t)[k])) for c, t in cases]), hyps)
def same_rays(v, ret, pc, x, A, tol, O, d, ex):
    a, b = A['a'], A['b']; h = [pc]
    v.ensure('throws nothing', not_(ex)); v.ensure('always reported', ret, h)
    ends(v, 'the origin is the farther one', x[0], [(le(b, a), a), (le(a, b), b)], O, d, h + [ret]); v.veq('the direction is theirs', x[1], d, h + [ret])
onaxis(RY, RY, RY, 'collinear, same direction', ('a', '+'), ('b', '+'), same_rays)
def opposite_rays(v, ret, pc, x, A, tol, O, d, ex):
    a, b = A['a'], A['b']; h = [pc]
    v.ensure('throws nothing', not_(ex)); v.ensure('reported exactly when they face each other', iff(ret, le(a, b)), h)
    ends(v, 'one end is the first origin', x[0], [(TRUE, a)], O, d, h + [ret]); ends(v, 'the other end is the second origin', x[1], [(TRUE, b)], O, d, h + [ret])
onaxis(RY, RY, SG, 'collinear, opposite directions', ('a', '+'), ('b', '-'), opposite_rays)
def ray_segment(v, ret, pc, x, A, tol, O, d, ex):
    a, b, c = A['a'], A['b'], A['c']; lo, hi = maxr(a, minr(b, c)), maxr(b, c); h = [pc]
    v.ensure('throws nothing', not_(ex)); v.ensure('reported exactly when part of the segment is ahead of the origin', iff(ret, le(a, hi)), h)
    pair = lambda u, w: and_(*[eq(x[0][k], (O + d * u)[k]) for k in range(3)], *[eq(x[1][k], (O + d * w)[k]) for k in range(3)])
    P_ = [a, b, c]
    v.ensure('the ends are those of the part ahead of the origin', or_(*[and_(pair(s, t), or_(and_(eq(s, lo), eq(t, hi)), and_(eq(s, hi), eq(t, lo)))) for s in P_ for t in P_]), h + [ret])
onaxis(RY, SG, SG, 'collinear', ('a', '+'), ('b', 'c'), ray_segment)
def segments(v, ret, pc, x, A, tol, O, d, ex):
    a, b, c, e = [A[k] for k in 'abce']; lo, hi = maxr(minr(a, b), minr(c, e)), minr(maxr(a, b), maxr(c, e)); h = [pc]
    v.ensure('throws nothing', not_(ex)); v.ensure('reported exactly when they overlap, or are apart by no more than half the tolerance', iff(ret, le(scale(sub(lo, hi), 2), tol)), h)
    near = lambda s, t: le(scale(absr(sub(s, t)), 2), tol); P_ = [a, b, c, e]
    pt_ = lambda i, s: and_(*[eq(x[i][k], (O + d * s)[k]) for k in range(3)])
    v.ensure('the ends are ends of the segments, within half the tolerance of those of the common part', or_(*[and_(pt_(0, s), pt_(1, t), or_(and_(near(s, lo), near(t, hi)), and_(near(s, hi), near(t, lo)))) for s in P_ for t in P_]), h + [ret])
onaxis(SG, SG, SG, 'collinear', ('a', 'b'), ('c', 'e'), segments)
# ---------------------------------------------------------------- compositions in one plane
LnTri, RySg, SgSg = Prim(LN, TRI, SG), Prim(RY, SG, SG), Prim(SG, SG, SG)
def straight_triangle(x, second):
    @spec('P25', '%s and coplanar triangle: the part between the crossed edges that is on it' % x[6:])
    def _(v):
        tol = var('tol'); p, q, out = v.sym('straight', x), v.sym('triangle', TRI), v.sym('out', SG); LnTri.assume(v); second.assume(v)
        a, t = entity(v, State(), p, x), entity(v, State(), q, TRI)
        if x == SG: A, B = pts(a); v.assume += [lt(0, (B - A).norm2())]; L = list(A) + list((B - A) / (B - A).norm())
        else: L = a
        r = v.run(isig(x, TRI, SG), [p, q, out, tol]); v.nothrow(r); v.safe(r); v.frame(r, [out])
        i = L + t + [tol]; j = a + LnTri.out(i) + [tol]; k = LnTri.out(i) + a + [tol] if x == SG else j
        rt = samecalls(r.ret, [(LnTri, i), (second, j)]); pc = samecalls(r.pc, [(LnTri, i), (second, j)])
        v.ensure('reported exactly when its line crosses the triangle and the part between the crossings meets it', iff(rt, and_(LnTri.hit(i), second.hit(j))), [pc])
        for n, (y, z) in enumerate(zip(entity(v, r.st, out, SG), second.out(j))): v.ensure('number %d of the result' % n, eq(samecalls(y, [(LnTri, i), (second, j)]), z), [pc, rt])
def samecalls(t, calls):
    """identify applications of a contract whose arguments are identical as rational functions with those of the given call"""
    m = {}
    for pr, ins in calls:
        for u in subterms(t):
            if u.op == 'uf' and u.args[0].startswith(pr.name + '.') and len(u.args) - 1 == len(ins) and u.args[1:] != tuple(ins):
                b = [P.replace(x, m) if x.__class__ is T else x for x in u.args[1:]]
                if all(P.zero(sub(P.simp(x, {c: TRUE for c in conds(x)}), y)) for x, y in zip(b, ins)): m[u] = mk('uf', (u.args[0],) + tuple(ins), u.sort)
    return P.replace(t, m) if m else t
def conds(x):
    c = P.find_ite(x); return [c] if c is not None else []
from p17 import subterms
straight_triangle(RY, RySg); straight_triangle(SG, SgSg)
def straight_disk(x):
    @spec('P25', '%s and disk: the crossing with the plane of the disk, inside the disk' % x[6:])
    def _(v):
        tol = var('tol'); p, q, out = v.sym('straight', x), v.sym('disk', DK), v.sym('out', PT)
        pr = Prim(PL, SG, PT) if x == SG else Prim(x, PL, PT); pr.assume(v)
        a, e = entity(v, State(), p, x), entity(v, State(), q, DK); pl = e[1:]; i = (pl + a if x == SG else a + pl) + [tol]
        r = v.run(isig(x, DK, PT), [p, q, out, tol]); v.nothrow(r); v.safe(r); v.frame(r, [out])
        X_ = Vec(*pr.out(i)); c, n = pts(pl); v.assume += [eq(n.norm2(), 1)]
        v.ensure('reported exactly when the crossing exists, within the radius and the tolerance', iff(r.ret, and_(pr.hit(i), lt(absr(n.dot(X_ - c)), tol), le((c - X_).norm(), e[0]))), [r.pc])
        v.veq('the reported point is the crossing', r.pt(out), X_, [r.pc, r.ret])
for x in K: straight_disk(x)
@spec('P25', 'ray in the plane of a disk: the part inside the disk')
def _(v):
    tol = var('tol'); p, q, out = v.sym('ray', RY), v.sym('disk', DK), v.sym('out', SG); e = entity(v, State(), q, DK); R_ = e[0]; c = Vec(*e[1:4])
    A, d = pts(entity(v, State(), p, RY)); v.assume += [lt(0, tol), le(0, R_), lt(0, d.norm2())]
    r = v.run(isig(RY, DK, SG), [p, q, out, tol]); v.nothrow(r); v.safe(r); v.frame(r, [out])
    w, N = A - c, d.norm2(); D = sub(sq(w.dot(d)), mul(sub(w.norm2(), sq(R_)), N)); t0 = neg(div(w.dot(d), N)); S_ = div(sqrt(D), N); lo, hi = sub(t0, S_), add(t0, S_)
    Dv, tv, lv, hv = [var(n) for n in ('D', 't0', 'lo', 'hi')]
    E = [(add(D, tol), add(Dv, tol)), (sub(absr(D), tol), sub(absr(Dv), tol)), (sub(D, tol), sub(Dv, tol)), (D, Dv), (t0, tv), (lo, lv), (hi, hv), (sub(lo, hi), sub(lv, hv))]
    mm = lambda t: match(t, E); ret, pc = mm(r.ret), mm(r.pc); cut, near = le(tol, Dv), lt(absr(Dv), tol)
    v.ensure('nothing is reported when the line misses the circle', not_(ret), [pc, lt(Dv, neg(tol))])
    v.ensure('tangent within the tolerance: reported exactly when the point closest to the centre is ahead', iff(ret, le(0, tv)), [pc, near])
    v.ensure('reported exactly when part of the ray is inside the circle', iff(ret, le(0, hv)), [pc, cut, le(lv, hv)])
    x = [Vec(*[mapite(z, mm) for z in y]) for y in pts(entity(v, r.st, out, SG))]; h = [pc, ret]
    for i, a, b in ((0, lo, lv), (1, hi, hv)):
        for k in range(3):
            f = [eq(x[i][k], y[k]) for y in (A, A + d * a)]
            v.ensure('end %d is that of the part inside the circle.%s' % (i, 'xyz'[k]), and_(implies(lt(b, 0), f[0]), implies(lt(0, b), f[1]), implies(eq(b, 0), or_(f[0], f[1]))), h + [cut, le(lv, hv)])
        v.veq('tangent within the tolerance: end %d is the point closest to the centre' % i, x[i], A + d * t0, h + [near])
# ---------------------------------------------------------------- triangles and disks in different planes
def planar_pair(x, lay):
    @spec('P25', '%s and %s in different planes' % (x[6:], x[6:]))
    def _(v):
        tol = var('tol'); p, q, out = v.sym('first', x), v.sym('second', x), v.sym('out', SG); PlPl = Prim(PL, PL, LN); LnX = Prim(LN, x, SG); PlPl.assume(v)
        def cut(ex, st, args):
            ins = entity(v, st, args[0], LN) + entity(v, st, args[1], x) + [args[3]]; old = entity(v, st, args[2], SG); h = LnX.hit(ins)
            put(v, st, args[2], SG, [ite(h, a, b) for a, b in zip(LnX.out(ins), old)]); return h      # a line that misses leaves the segment as it was
        v.contract(LnX.sig, cut)
        log = []
        def meet(ex, st, args):
            ins = entity(v, st, args[0], SG) + entity(v, st, args[1], SG) + [args[3]]; nan = or_(*[isnan_(t) for t in ins[:12]]); log.append(ins)
            put(v, st, args[2], SG, SgSg.out(ins)); return and_(not_(nan), SgSg.hit(ins))
        v.contract(SgSg.sig, meet)
        a, b = entity(v, State(), p, x), entity(v, State(), q, x)
        r = v.run(isig(x, x, SG), [p, q, out, tol]); v.nothrow(r); v.safe(r); v.frame(r, [out])
        us = [u for u in subterms(r.ret) if u.op == 'uf' and u.args[0] == PlPl.name + '.hit']
        if len(us) != 1: raise GiveUp('the two planes are not intersected once')
        i = list(us[0].args[1:]); L = PlPl.out(i)
        for k, (z, w) in enumerate(((a, i[:6]), (b, i[6:12]))):
            o, n = pts(w)
            if x == DK: v.ensure('the plane of disk %d is used' % k, and_(*[eq(s, t) for s, t in zip(w, z[1:])]))
            else:
                T_ = pts(z); N = (T_[1] - T_[0]).cross(T_[2] - T_[0]); v.ensure('the plane of triangle %d is used: a point of it' % k, eq(N.dot(o - T_[0]), 0), [lt(0, N.norm2())]); v.veq('the plane of triangle %d is used: its normal' % k, n.cross(N), Z3, [lt(0, N.norm2())])
        j = [L + a + [tol], L + b + [tol]]; m = LnX.out(j[0]) + LnX.out(j[1]) + [tol]
        both = and_(PlPl.hit(i), LnX.hit(j[0]), LnX.hit(j[1]))
        v.ensure('reported only when the common line crosses both', implies(r.ret, both), [r.pc])
        v.ensure('reported exactly when the two sections overlap', iff(r.ret, SgSg.hit(m)), [r.pc, both])
        for k, (y, z) in enumerate(zip(entity(v, r.st, out, SG), SgSg.out(m))): v.ensure('number %d of the result' % k, eq(y, z), [r.pc, r.ret])
def isnan_(t): return nanof(t) if 'nanof' in globals() else FALSE
planar_pair(TRI, None); planar_pair(DK, None)
# ---------------------------------------------------------------- two triangles, only whether they meet
@spec('P25', 'triangle and triangle: whether they meet')
def _(v):
    tol = var('tol'); p, q, out = v.sym('first', TRI), v.sym('second', TRI), v.sym('out', 'acme::none'); a, b = [entity(v, State(), x, TRI) for x in (p, q)]
    key = lambda l: sorted(l, key=lambda x: [show(canon(t)) for t in x]); flat = lambda l: [t for x in l for t in x]
    three = lambda x: [tuple(x[i:i + 3]) for i in range(0, len(x), 3)]
    # contracts (the crossing of two segments: P25, symmetric in the segments and in the ends of each; inside a triangle: P22)
    cross = lambda x, y: uf('cross', 'hit', flat(key([flat(key(three(x))), flat(key(three(y)))])) + [tol], 'B')
    ins = lambda t, x: uf('inside', 'hit', list(t) + list(x) + [tol], 'B')
    pair = lambda n, x, y: uf(n, 'hit', flat(key([x, y])) + [tol], 'B')
    sig = lambda n: v.ir.fns[v.ir.find(S(n))]['sig']
    def same_tol(ex, st, t): ex.obls.append((st.pc, eq(t, tol), 'with the given tolerance'))
    def cseg(ex, st, c):
        same_tol(ex, st, c[3]); i = entity(v, st, c[0], SG), entity(v, st, c[1], SG); put(v, st, c[2], PT, [fresh('x', 'R') for _ in range(3)]); return cross(*i)
    def cin(ex, st, c): same_tol(ex, st, c[2]); return ins(entity(v, st, c[0], TRI), entity(v, st, c[1], PT))
    def cop(ex, st, c): same_tol(ex, st, c[2]); return pair('coplanar', entity(v, st, c[0], TRI), entity(v, st, c[1], TRI))
    def seg(ex, st, c): same_tol(ex, st, c[3]); i = entity(v, st, c[0], TRI), entity(v, st, c[1], TRI); put(v, st, c[2], SG, [fresh('x', 'R') for _ in range(6)]); return pair('section', *i)
    v.contract(Prim(SG, SG, PT).sig, cseg); v.contract(sig('acme::triangle::isInside(acme::point const&, double) const'), cin)
    v.contract(sig('acme::IsCoplanar(acme::triangle const&, acme::triangle const&, double)'), cop); v.contract(Prim(TRI, TRI, SG).sig, seg)
    r = v.run('acme::Intersection(acme::triangle const&, acme::triangle const&, acme::none&, double)', [p, q, out, tol]); v.nothrow(r); v.safe(r)
    for n, z, c in (('first', p, a), ('second', q, b)):
        for i, (f, g) in enumerate(zip(entity(v, r.st, z, TRI), c)): v.ensure('the %s is unchanged: number %d' % (n, i), eq(f, g), [r.pc])
    A, B_ = three(a), three(b); edges = lambda T_: [list(T_[i] + T_[(i + 1) % 3]) for i in range(3)]
    meet = or_(*[cross(x, y) for x in edges(A) for y in edges(B_)], *[ins(a, x) for x in B_], *[ins(b, x) for x in A]); c = pair('coplanar', a, b)
    v.ensure('in one plane: they meet exactly when a vertex of one is inside the other or two edges cross', iff(r.ret, meet), [r.pc, c])
    v.ensure('in different planes: they meet exactly when there is a common segment', iff(r.ret, pair('section', a, b)), [r.pc, not_(c)])
@spec('P25', 'pairs with no supported result are rejected')
def _(v):
    for x, y in ((TRI, DK), (DK, DK), (BL, BL), (TRI, BL), (DK, BL)):
        w = v.sub(); p, q, out = w.sym('first', x), w.sym('second', y), w.sym('out', 'acme::none')
        r = w.run('acme::Intersection(%s const&, %s const&, acme::none&, double)' % (x, y), [p, q, out, var('tol')]); w.throws(r, TRUE); v.obl += w.obl
# ---------------------------------------------------------------- entities of unknown type
def unknown(x, y, o, call, **k):
    generic(x, y, o, call, 'P25', **k)
    if x != y: generic(y, x, o, call, 'P25', **k)
for x in K:
    for y in K:
        if K[x] <= K[y]: unknown(x, y, PT, (x, y, PT), coplanar=True)
unknown(LN, LN, LN, (LN, LN, LN), collinear=True); unknown(LN, RY, RY, (LN, RY, RY), collinear=True); unknown(LN, SG, SG, (LN, SG, SG), collinear=True)
unknown(RY, RY, RY, (RY, RY, RY), collinear=True, call2=(RY, RY, SG)); unknown(RY, SG, SG, (RY, SG, SG), collinear=True); unknown(SG, SG, SG, (SG, SG, SG), collinear=True)
unknown(LN, PL, LN, (LN, PL, LN), coplanar=True); unknown(RY, PL, RY, (RY, PL, RY), coplanar=True); unknown(PL, SG, SG, (PL, SG, SG), coplanar=True)
unknown(PL, PL, PL, (PL, PL, PL), coplanar=True); unknown(PL, TRI, TRI, (PL, TRI, TRI), coplanar=True); unknown(PL, DK, DK, (PL, DK, DK), coplanar=True)
for x in K: unknown(x, TRI, SG, (x, TRI, SG), coplanar=True); unknown(x, DK, SG, (x, DK, SG), coplanar=True); unknown(x, BL, SG, (x, BL, SG)); unknown(x, DK, PT, (x, DK, PT))
unknown(PL, BL, DK, (PL, BL, DK)); unknown(TRI, TRI, SG, (TRI, TRI, SG)); unknown(DK, DK, SG, (DK, DK, SG))
