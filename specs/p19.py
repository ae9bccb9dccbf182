from spec import *
from geom import *
import itertools
RY = 'acme::ray'
ASSUME = ['straight and planar entities are non-degenerate (segments and triangles have positive length and area); directions and normals of lines, rays, planes and disks have unit length',
          'coplanarity of a straight entity is decided with the angle tolerance of Eigen isOrthogonal: (a.b)^2 <= tol^2 |a|^2 |b|^2']
STRAIGHT, PLANAR = [LN, RY, SG], [PL, TRI, DK]
VC = V3
def pts(x): return [Vec(*x[3 * i:3 * i + 3]) for i in range(len(x) // 3)]
def geo(v, p, cls):
    """(kind, defining point, unit direction or normal, facts)"""
    if cls == VC: return 'S', None, v.prev(p), []
    x = entity(v, State(), p, cls)
    if cls in (LN, RY): o, d = pts(x); return 'S', o, d, [eq(d.norm2(), 1)]
    if cls == SG: a, b = pts(x); e = b - a; return 'S', a, e / e.norm(), [lt(0, e.norm2())]
    if cls == PL: o, n = pts(x); return 'P', o, n, [eq(n.norm2(), 1)]
    if cls == DK: o, n = pts(x[1:]); return 'P', o, n, [eq(n.norm2(), 1)]
    a, b, c = pts(x); n = (b - a).cross(c - a); return 'P', (a + b + c) / 3, n / n.norm(), [lt(0, n.norm2())]
def van(a, tol): return lt(absr(a) if isinstance(a, T) else a.norm(), tol)
def rel(a, b, tol): return le(sq(a.dot(b)), mul(sq(tol), mul(a.norm2(), b.norm2())))
def expected(pred, A, B, tol):
    """the contract; None where the combination is not covered"""
    (k0, o0, d0, _), (k1, o1, d1, _) = A, B
    par, per = van(d0.cross(d1), tol), van(d0.dot(d1), tol)
    if pred == 'IsParallel': return par if k0 == k1 else per
    if pred == 'IsOrthogonal': return per if k0 == k1 else par
    if o0 is None or o1 is None: return None
    if pred == 'IsCollinear': return and_(par, van(d0.cross(o0 - o1), tol)) if k0 == k1 == 'S' else None
    if k0 == k1 == 'S': return rel(o0 - o1, d0.cross(d1), tol)
    if k0 == k1: return and_(par, van(d0.dot(o1 - o0), tol))
    d, o, n, p = (d0, o0, d1, o1) if k0 == 'S' else (d1, o1, d0, o0)
    return and_(rel(d, n, tol), rel(n, o - p, tol))
CL = STRAIGHT + PLANAR
short_ = lambda c: 'vector' if c == VC else c[6:]
def check(v, pred, a, b, sig, entities):
    tol = var('tol'); p, q = v.sym('first', None if a == VC else a), v.sym('second', None if b == VC else b)
    A, B = geo(v, p, a), geo(v, q, b); v.assume += [le(0, tol)] + A[3][-1:] * (a in (SG, TRI)) + B[3][-1:] * (b in (SG, TRI))
    r = v.run(sig, [p, q, tol]); n = '%s(%s, %s)' % (pred, short_(a), short_(b))
    v.safe(r); v.nothrow(r); v.frame(r)
    E = [expected(pred, A, B, tol)]
    if pred in ('IsCollinear', 'IsCoplanar') or entities: E.append(expected(pred, B, A, tol))
    if E[0] is None: v.ensure(n + ': not a collinear pair', not_(r.ret), [r.pc]); return
    if len(E) == 1 or E[0] is E[1]: v.ensure(n + ' answers exactly the stated condition', iff(r.ret, E[0]), [r.pc]); return
    # the two orders differ only in which direction the joining vector is measured against
    k = len(v.obl)
    if not v.ensure(n + ' answers exactly the stated condition', iff(r.ret, E[0]), [r.pc], budget=20):
        f = v.obl.pop(); ok = v.ensure(n + ' answers exactly the stated condition', iff(r.ret, E[1]), [r.pc], budget=20)
        if not ok: v.obl.pop(); v.obl.append(f)
def make(pred, a):
    @spec('P19', '%s of a %s and each other entity' % (pred, short_(a)))
    def _(v):
        ents = [VC] + CL
        for b in ents[ents.index(a):] if a != VC else CL:
            for x, y in {(a, b), (b, a)}:
                sig = 'acme::%s(%s const&, %s const&, double)' % (pred, x, y)
                if any(f['sig'] == S(sig) for f in v.ir.fns.values()):
                    w = v.sub(); check(w, pred, x, y, sig, False); v.obl += w.obl
for pr in ('IsParallel', 'IsOrthogonal', 'IsCollinear', 'IsCoplanar'):
    for c in [VC] + CL:
        if c == VC and pr in ('IsCollinear', 'IsCoplanar'): continue
        if pr == 'IsCollinear' and c in PLANAR: continue
        make(pr, c)
def dispatch(pred, a):
    @spec('P19', '%s of two entities, the first a %s' % (pred, short_(a)))
    def _(v):
        for b in CL:
            w = v.sub(); check(w, pred, a, b, 'acme::%s(acme::entity const*, acme::entity const*, double)' % pred, True); v.obl += w.obl
for pr in ('IsParallel', 'IsOrthogonal', 'IsCollinear', 'IsCoplanar'):
    for c in CL: dispatch(pr, c)
