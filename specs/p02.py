from spec import *
from p20 import nanvar
CLS = 'enve::triangleground'
def result(v, r, p, tid, mu, q):
    c = (q[1] - q[0]).cross(q[2] - q[0]); N = lt(0, c.norm2())
    for i in range(3): v.veq('vertex %d kept' % i, r.pt(padd(v.at(p, 'acme::triangle', 'm_vertex'), 32 * i)), q[i], [r.pc])
    v.ensure('id kept', eq(r.get(v.at(p, CLS, 'm_id'), 'i32'), tid), [r.pc])
    v.ensure('friction kept', eq(r.get(v.at(p, CLS, 'm_friction')), mu), [r.pc])
    n = r.vec(v.at(p, CLS, 'm_normal'))
    v.ensure('normal never points downward', le(0, n[2]), [r.pc])
    v.ensure('normal is of unit length', eq(n.norm2(), 1), [r.pc, N])
    v.ensure('normal perpendicular to edge 01', eq(n.dot(q[1] - q[0]), 0), [r.pc])
    v.ensure('normal perpendicular to edge 02', eq(n.dot(q[2] - q[0]), 0), [r.pc])
    b = v.at(p, CLS, 'm_bbox')
    lo, hi = r.pt(v.at(b, 'acme::aabb', 'm_min')), r.pt(v.at(b, 'acme::aabb', 'm_max'))
    for i, x in enumerate('xyz'):
        v.ensure('box minimum %s is the least vertex coordinate' % x, and_(*[le(lo[i], a[i]) for a in q], or_(*[eq(lo[i], a[i]) for a in q])), [r.pc])
        v.ensure('box maximum %s is the greatest vertex coordinate' % x, and_(*[le(a[i], hi[i]) for a in q], or_(*[eq(hi[i], a[i]) for a in q])), [r.pc])
def bad(mu): return or_(nanof(mu), lt(mu, 0))
@spec('P02', 'triangleground(id, friction, 9 scalars)')
def _(v):
    p = v.sym('self'); mu = nanvar('mu'); t = var('id', 'I'); c = [var('c%d' % i) for i in range(9)]
    r = v.run('enve::triangleground::triangleground(int, double, double', [p, t, mu] + c)
    v.throws(r, bad(mu), text='friction negative or NaN'); v.safe(r); v.frame(r, [p])
    result(v, r, p, t, mu, [Vec(*c[3*i:3*i+3]) for i in range(3)])
@spec('P02', 'triangleground(id, friction, 3 points)')
def _(v):
    p = v.sym('self'); mu = nanvar('mu'); t = var('id', 'I'); a = [v.sym('a%d' % i, 'acme::point') for i in range(3)]
    r = v.run('enve::triangleground::triangleground(int, double, {pt} const&', [p, t, mu] + a)
    v.throws(r, bad(mu), text='friction negative or NaN'); v.safe(r); v.frame(r, [p])
    result(v, r, p, t, mu, [v.prep(x) for x in a])
@spec('P02', 'triangleground(id, friction, point array)')
def _(v):
    p = v.sym('self'); mu = nanvar('mu'); t = var('id', 'I'); a = v.sym('a')
    r = v.run('enve::triangleground::triangleground(int, double, {pt} const*', [p, t, mu, a])
    v.throws(r, bad(mu), text='friction negative or NaN'); v.safe(r); v.frame(r, [p])
    result(v, r, p, t, mu, [v.prep(padd(a, 32 * i)) for i in range(3)])
@spec('P02', 'accessors')
def _(v):
    p = v.sym('self', CLS)
    for f, m in (('friction', 'm_friction'), ('id', 'm_id'), ('bbox', 'm_bbox'), ('normal', 'm_normal')):
        r = v.run('enve::triangleground::%s() const' % f, [p]); v.nothrow(r); v.safe(r); v.frame(r)
        v.fact('%s() is the stored member' % f, r.ret is v.at(p, CLS, m), show(r.ret))
    for i in range(3):
        r = v.run('enve::triangleground::vertex(unsigned long) const', [p, I(i)]); v.nothrow(r); v.safe(r); v.frame(r)
        v.fact('vertex(%d) is the stored vertex' % i, r.ret is padd(v.at(p, 'acme::triangle', 'm_vertex'), 32 * i), show(r.ret))
