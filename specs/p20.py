from spec import *
CLS = 'enve::ground::flat'
def nanvar(n):
    x = var(n); MAYBENAN[x] = var(n + '_isnan', 'B'); return x
def result(v, r, p, mu, o, n):
    v.ensure('friction stored', eq(r.get(v.at(p, CLS, 'm_friction')), mu), [r.pc])
    v.veq('origin stored', r.pt(v.at(p, 'acme::plane', 'm_origin')), o, [r.pc])
    m = r.vec(v.at(p, 'acme::plane', 'm_normal'))
    v.veq('normal has the given direction, scaled to unit length', m, n / n.norm(), [r.pc])
    v.ensure('|normal| = 1', eq(m.norm2(), 1), [r.pc])
    v.ensure('normal points upward', lt(0, m[2]), [r.pc])
@spec('P20', 'flat(friction, 6 scalars)')
def _(v):
    p = v.sym('self'); mu = nanvar('mu'); o = Vec(var('ox'), var('oy'), var('oz')); n = Vec(var('nx'), var('ny'), nanvar('nz'))
    r = v.run('{flat}::flat(double, double, double, double', [p, mu, *o, *n])
    bad = or_(nanof(mu), lt(mu, 0), nanof(n[2]), le(n[2], 0))
    v.throws(r, bad, text='friction negative or NaN, or normal not upward'); v.safe(r); v.frame(r, [p])
    result(v, r, p, mu, o, n)
@spec('P20', 'flat(friction, point, vec3)')
def _(v):
    p = v.sym('self'); mu = nanvar('mu'); op = v.sym('o', 'acme::point'); np_ = v.sym('n'); o = v.prep(op); n = v.prev(np_)
    MAYBENAN[n[2]] = var('nz_isnan', 'B')
    r = v.run('{flat}::flat(double, {pt} const&, {V3} const&', [p, mu, op, np_])
    v.throws(r, or_(nanof(mu), lt(mu, 0), nanof(n[2]), le(n[2], 0)), text='friction negative or NaN, or normal not upward'); v.safe(r); v.frame(r, [p])
    result(v, r, p, mu, o, n)
@spec('P20', 'flat(friction, plane)')
def _(v):
    p = v.sym('self'); mu = nanvar('mu'); q = v.sym('pl', 'acme::plane'); o = v.prep(v.at(q, 'acme::plane', 'm_origin')); n = v.prev(v.at(q, 'acme::plane', 'm_normal'))
    MAYBENAN[n[2]] = var('nz_isnan', 'B')
    r = v.run('{flat}::flat(double, acme::plane const&', [p, mu, q])
    v.throws(r, or_(nanof(mu), lt(mu, 0), nanof(n[2]), le(n[2], 0)), text='friction negative or NaN, or normal not upward'); v.safe(r); v.frame(r, [p])
    result(v, r, p, mu, o, n)
@spec('P20', 'accessors and plane::normalize')
def _(v):
    p = v.sym('self', CLS)
    r = v.run('{flat}::friction() const', [p]); v.nothrow(r); v.safe(r); v.frame(r)
    v.ensure('friction() is the stored friction', eq(r.get(r.ret), v.pre(v.at(p, CLS, 'm_friction'))), [r.pc])
    r = v.run('{flat}::layingPlane() const', [p]); v.nothrow(r); v.safe(r); v.frame(r)
    v.fact('layingPlane() is the plane itself', r.ret is p, show(r.ret))
    for f, m, k in (('origin', 'm_origin', 'p'), ('normal', 'm_normal', 'v')):
        q = v.sym('pl', 'acme::plane')
        r = v.run('acme::plane::%s() const' % f, [q]); v.nothrow(r); v.safe(r); v.frame(r)
        v.fact('plane::%s() is the stored member' % f, r.ret is v.at(q, 'acme::plane', m), show(r.ret))
    q = v.sym('pl2', 'acme::plane'); n = v.prev(v.at(q, 'acme::plane', 'm_normal'))
    r = v.run('acme::plane::normalize(', [q]); v.nothrow(r); v.safe(r)
    v.veq('normalize', r.vec(v.at(q, 'acme::plane', 'm_normal')), n.unit(), [r.pc])
    v.veq('normalize keeps the origin', r.pt(v.at(q, 'acme::plane', 'm_origin')), v.prep(v.at(q, 'acme::plane', 'm_origin')), [r.pc])
