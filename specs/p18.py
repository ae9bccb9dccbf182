from spec import *
from geom import *
import math
PIC = Fraction(math.pi); BL = 'acme::ball'; RY = 'acme::ray'
def verts(v, p, cls, st=None):
    x = entity(v, st or State(), p, cls); return [Vec(*x[3 * i:3 * i + 3]) for i in range(len(x) // 3)]
def run(v, sig, args, allowed=()):
    r = v.run(sig, args); v.nothrow(r); v.safe(r); v.frame(r, allowed); return r
def const_times(v, name, val, power, want, hyps):
    """val = c * power with |c - want| negligible (the closest machine constant)"""
    c = div(val, power)
    if c.op == 'num': v.fact('%s: constant factor' % name, abs(c.args[0] - want) <= abs(want) / 10**14, show(c)); v.ensure(name, eq(val, mul(c, power)), hyps)
    else: v.ensure(name, eq(val, mul(R(want), power)), hyps)
@spec('P18', 'segment length and centroid')
def _(v):
    p = v.sym('self', SG); a, b = verts(v, p, SG)
    r = run(v, 'acme::segment::length() const', [p]); v.ensure('length is the distance of the ends', eq(r.ret, (b - a).norm()), [r.pc])
    r = run(v, 'acme::segment::centroid() const', [p]); v.veq('centroid is the mid point', r.pt(r.retp), (a + b) / 2, [r.pc])
    r = run(v, 'acme::segment::toVector() const', [p]); v.veq('toVector', r.vec(r.retp), b - a, [r.pc])
    r = run(v, 'acme::segment::toUnitVector() const', [p]); v.veq('toUnitVector', r.vec(r.retp), (b - a).unit(), [r.pc])
@spec('P18', 'triangle perimeter, area, centroid')
def _(v):
    p = v.sym('self', TRI); a, b, c = verts(v, p, TRI); e = (b - a).cross(c - a)
    r = run(v, 'acme::triangle::perimeter() const', [p]); v.ensure('perimeter is the sum of the side lengths', eq(r.ret, add((b - a).norm(), (c - b).norm(), (a - c).norm())), [r.pc])
    r = run(v, 'acme::triangle::area() const', [p]); v.ensure('area is half the norm of the cross product of two sides', eq(mul(R(2), r.ret), e.norm()), [r.pc])
    r = run(v, 'acme::triangle::centroid() const', [p]); v.veq('centroid is the mean of the vertices', r.pt(r.retp), (a + b + c) / 3, [r.pc])
    r = run(v, 'acme::triangle::normal() const', [p]); n = r.vec(r.retp)
    v.ensure('normal is perpendicular to the sides', and_(eq(n.dot(b - a), 0), eq(n.dot(c - a), 0)), [r.pc]); v.ensure('normal has unit length', eq(n.norm2(), 1), [r.pc, lt(0, e.norm2())]); v.ensure('normal is oriented by the vertex order', lt(0, n.dot(e)), [r.pc, lt(0, e.norm2())])
    r = run(v, 'acme::triangle::layingPlane() const', [p]); q = entity(v, r.st, r.retp, PL)
    for i, x in enumerate((a, b, c)): v.ensure('laying plane contains vertex %d' % i, eq(Vec(*q[3:]).dot(x - Vec(*q[:3])), 0), [r.pc])
@spec('P18', 'triangle edges')
def _(v):
    p = v.sym('self', TRI); w = verts(v, p, TRI)
    for i in range(3):
        r = run(v, 'acme::triangle::edge(int) const', [p, I(i)]); q = verts(v, r.retp, SG, r.st)
        v.veq('edge %d starts at vertex %d' % (i, i), q[0], w[i], [r.pc]); v.veq('edge %d ends at the next vertex' % i, q[1], w[(i + 1) % 3], [r.pc])
@spec('P18', 'triangle barycentric coordinates')
def _(v):
    p = v.sym('self', TRI); a, b, c = verts(v, p, TRI); q = v.sym('pt', PT); x = v.prep(q); o = [v.sym(n) for n in 'uvw']
    r = run(v, 'acme::triangle::barycentric(', [p, q] + o, o); u, vv, w = [r.get(z) for z in o]; e1, e2 = b - a, c - a
    den = sub(mul(e1.norm2(), e2.norm2()), sq(e1.dot(e2))); nz = [r.pc, lt(0, den)]
    v.ensure('coordinates add up to one', eq(add(u, vv, w), 1), [r.pc])
    y = a * u + b * vv + c * w
    v.ensure('the combination differs from the point by a vector orthogonal to side 01', eq((x - y).dot(e1), 0), nz)
    v.ensure('the combination differs from the point by a vector orthogonal to side 02', eq((x - y).dot(e2), 0), nz)
@spec('P18', 'disk perimeter and area')
def _(v):
    p = v.sym('self', DK); R_ = v.pre(v.at(p, DK, 'm_radius'))
    r = run(v, 'acme::disk::perimeter() const', [p]); const_times(v, 'perimeter is 2 pi r', r.ret, R_, 2 * PIC, [r.pc])
    r = run(v, 'acme::disk::area() const', [p]); const_times(v, 'area is pi r^2', r.ret, sq(R_), PIC, [r.pc])
@spec('P18', 'ball surface and volume')
def _(v):
    p = v.sym('self', BL); R_ = v.pre(v.at(p, BL, 'm_radius'))
    r = run(v, 'acme::ball::area() const', [p]); const_times(v, 'surface is 4 pi r^2', r.ret, sq(R_), 4 * PIC, [r.pc])
    r = run(v, 'acme::ball::volume() const', [p]); const_times(v, 'volume is 4/3 pi r^3', r.ret, mul(R_, R_, R_), 4 * PIC / 3, [r.pc])
@spec('P18', 'plane distances')
def _(v):
    p = v.sym('self', PL); o, n = verts(v, p, PL); q = v.sym('pt', PT); x = v.prep(q); d = n.dot(x - o)
    v.assume += [eq(n.norm2(), 1)]
    r = run(v, 'acme::plane::signedDistance(', [p, q]); sd = r.ret
    v.ensure('signed distance', eq(sd, d), [r.pc])
    foot = x - n * sd
    v.ensure('the point displaced by the signed distance along the normal is on the plane', eq(n.dot(foot - o), 0), [r.pc])
    m = Vec(var('mx'), var('my'), var('mz')); y = foot + m
    v.ensure('any other point of the plane is at squared distance d^2 + |offset|^2', eq((x - y).norm2(), add(sq(sd), m.norm2())), [r.pc, eq(n.dot(m), 0)])
    r = run(v, 'acme::plane::distance(', [p, q]); v.ensure('distance is the absolute value', eq(r.ret, absr(d)), [r.pc])
    r = run(v, 'acme::plane::squaredDistance(', [p, q]); v.ensure('squared distance', eq(r.ret, sq(d)), [r.pc])
    r = run(v, 'acme::plane::d() const', [p]); v.ensure('d is the offset of the plane equation', eq(add(n.dot(x), r.ret), d), [r.pc])
    r = run(v, 'acme::plane::isInside(', [p, q, var('tol')]); v.ensure('isInside', iff(r.ret, lt(absr(d), var('tol'))), [r.pc])
def nums(v, st, p, cls):
    return ([v.rd(st, v.at(p, BL, 'm_radius'))] + list(v.rp(st, v.at(p, BL, 'm_center')))) if cls == BL else entity(v, st, p, cls)
MOVED = {PT: (0,), SG: (0, 3), TRI: (0, 3, 6), LN: (0,), RY: (0,), PL: (0,), DK: (1,), BL: (1,)}
def mk_(cls):
    @spec('P18', '%s::translate' % cls[6:])
    def _(v):
        p, q = v.sym('self', cls), v.sym('t'); t = v.prev(q); x = nums(v, State(), p, cls)
        r = run(v, '%s::translate(' % cls, [p, q], [p]); y = nums(v, r.st, p, cls)
        mv = {k + i: t[i] for k in MOVED[cls] for i in range(3)}
        for i in range(len(x)): v.ensure('defining number %d %s' % (i, 'moves by the vector' if i in mv else 'is unchanged'), eq(y[i], add(x[i], mv.get(i, ZERO))), [r.pc])
        for f in {SG: ['length'], TRI: ['perimeter', 'area'], DK: ['perimeter', 'area'], BL: ['area', 'volume']}.get(cls, []):
            a = v.run('%s::%s() const' % (cls, f), [p]); b = v.run('%s::%s() const' % (cls, f), [p], r.st)
            v.ensure('%s is unchanged' % f, eq(a.ret, b.ret), [r.pc])
for c in MOVED: mk_(c)
