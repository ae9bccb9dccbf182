from spec import *
from geom import *
import prove as P
import terms as _t
from p17 import isig, pts, match, put3, generic
RY, BL = 'acme::ray', 'acme::ball'
ASSUME = ['the tolerance is non-negative; directions and normals have unit length and triangles positive area where the contract says so']
def go(v, cls, p, q, tol, st=None):
    r = v.run('%s::isInside(acme::point const&, double) const' % cls, [p, q, tol], st); v.nothrow(r); v.safe(r); return r
def off(o, d, x): return (x - o).unit().cross(d)
for cls in (LN, RY):
    def mk_(cls):
        @spec('P22', '%s::isInside' % cls[6:])
        def _(v):
            tol = var('tol'); p, q = v.sym('self', cls), v.sym('pt', PT); o, d = pts(entity(v, State(), p, cls)); x = v.prep(q); w = x - o; L = w.norm()
            r = go(v, cls, p, q, tol); v.frame(r)
            ahead = le(0, w.dot(d)) if cls == RY else TRUE
            v.ensure('the origin is inside', r.ret, [r.pc, lt(0, tol), eq(w.norm2(), 0)])
            s = match(r.ret, [sub((w / L).cross(d).norm(), tol), w.norm2(), w.dot(d), div(w.dot(d), L)])
            v.ensure('any other point exactly when the unit vector towards it is parallel to the direction within the tolerance' + (' and it lies ahead of the origin' if cls == RY else ''),
                     iff(s, and_(lt((w / L).cross(d).norm(), tol), or_(lt(0, div(w.dot(d), L)), eq(div(w.dot(d), L), 0)) if cls == RY else TRUE)), [r.pc, lt(0, w.norm2())])
    mk_(cls)
@spec('P22', 'a point of a line or ray is inside it')
def _(v):
    tol, t = var('tol'), var('t'); st = State(); v.assume += [lt(0, tol)]
    for cls in (LN, RY):
        p, q = v.sym('self' + cls[6:], cls), v.sym('pt', PT); o, d = pts(entity(v, State(), p, cls)); put3(v, st, q, o + d * t)
        r = go(v, cls, p, q, tol, st)
        v.ensure('%s: inside' % cls[6:], r.ret, [r.pc, eq(d.norm2(), 1)] + ([le(0, t)] if cls == RY else []))
        if cls == RY: v.ensure('%s: a point behind the origin is not' % cls[6:], not_(r.ret), [r.pc, eq(d.norm2(), 1), lt(t, 0)])
@spec('P22', 'segment::isInside')
def _(v):
    tol = var('tol'); p, q = v.sym('self', SG), v.sym('pt', PT); a, b = pts(entity(v, State(), p, SG)); x = v.prep(q)
    r = go(v, SG, p, q, tol); v.frame(r)
    v.ensure('exactly when the distances from the two ends add up to the length within the tolerance', iff(r.ret, le(absr(sub((b - a).norm(), add((x - a).norm(), (x - b).norm()))), tol)), [r.pc])
@spec('P22', 'plane::isInside, disk::isInside, ball::isInside')
def _(v):
    tol = var('tol'); q = v.sym('pt', PT); x = v.prep(q)
    p = v.sym('plane', PL); o, n = pts(entity(v, State(), p, PL)); r = go(v, PL, p, q, tol); v.frame(r)
    v.ensure('plane: distance below the tolerance', iff(r.ret, lt(absr(n.dot(x - o)), tol)), [r.pc, eq(n.norm2(), 1)])
    p = v.sym('disk', DK); e = entity(v, State(), p, DK); o, n = pts(e[1:]); r = go(v, DK, p, q, tol); v.frame(r)
    v.ensure('disk: distance from its plane below the tolerance and no farther than the radius from the centre', iff(r.ret, and_(lt(absr(n.dot(x - o)), tol), le((o - x).norm(), e[0]))), [r.pc, eq(n.norm2(), 1)])
    p = v.sym('ball', BL); R_ = v.pre(v.at(p, BL, 'm_radius')); o = v.prep(v.at(p, BL, 'm_center')); r = go(v, BL, p, q, tol); v.frame(r)
    v.ensure('ball: no farther than the radius from the centre', iff(r.ret, le((o - x).norm(), R_)), [r.pc])
def inabs(t, D, h, memo=None):
    """rewrite absolute values of expressions identical to +-D"""
    memo = {} if memo is None else memo
    if t in memo: return memo[t]
    if t.op == 'abs' and any(P.zero(sub(t.args[0], scale(D, s))) for s in (1, -1)): r = absr(D)
    elif any(x.__class__ is T for x in _t.walk_args(t.args)): r = _t.rebuild(t, lambda y: inabs(y, D, h, memo))
    else: r = t
    memo[t] = r; return r
@spec('P22', 'triangle::isInside')
def _(v):
    tol = var('tol'); st = State(); p, q = v.sym('self', TRI), v.sym('pt', PT); A, B, C = pts(entity(v, State(), p, TRI)); U, W_, h = var('U'), var('W'), var('h')
    e1, e2 = B - A, C - A; N = e1.cross(e2); v.assume += [lt(0, N.norm2()), le(0, tol)]
    put3(v, st, q, A + e1 * U + e2 * W_ + N * h)      # every point of space, for a non-degenerate triangle
    r = go(v, TRI, p, q, tol, st); one = add(ONE, tol); w0 = sub(sub(ONE, U), W_); D = mul(h, N.norm())
    E = [add(U, tol), sub(one, U), add(W_, tol), sub(one, W_), add(w0, tol), sub(one, w0), sub(absr(D), tol), sub(absr(mul(h, N.norm2())), mul(tol, N.norm())), sub(D, tol), add(D, tol), sub(mul(h, N.norm2()), mul(tol, N.norm())), add(mul(h, N.norm2()), mul(tol, N.norm()))]
    ret = match(inabs(match(r.ret, []), D, h), E)
    v.ensure('exactly when the barycentric coordinates are within the tolerance of [0, 1] and the point within the tolerance of the plane',
             iff(ret, and_(*[and_(ge(a, neg(tol)), le(a, one)) for a in (U, W_, w0)], lt(absr(D), tol))), [r.pc])
def point_with(cls):
    @spec('P22', 'Intersection(point, %s)' % cls[6:])
    def _(v):
        tol = var('tol'); q, p, out = v.sym('pt', PT), v.sym('other', cls), v.sym('out', PT)
        r = v.run(isig(PT, cls, PT), [q, p, out, tol]); v.nothrow(r); v.safe(r); v.frame(r, [out])
        if cls == PT:
            x, y = v.prep(q), v.prep(p); v.ensure('reported exactly when the points agree within the relative tolerance', iff(r.ret, le((x - y).norm2(), mul(sq(tol), minr(x.norm2(), y.norm2())))), [r.pc])
        else:
            a = v.run('%s::isInside(acme::point const&, double) const' % cls, [p, q, tol])
            v.ensure('reported exactly when the point is inside', iff(r.ret, a.ret), [r.pc, a.pc])
        v.veq('the reported point is the point', r.pt(out), v.prep(q), [r.pc, r.ret])
for c in (PT, LN, RY, PL, SG, TRI, DK): point_with(c)
for c in (LN, RY, PL, SG, TRI, DK): generic(PT, c, PT, (PT, c, PT), 'P22'); generic(c, PT, PT, (PT, c, PT), 'P22')
generic(PT, PT, PT, (PT, PT, PT), 'P22')
