from spec import *
TITLE = 'profile'
def shape_(v, cls='enve::shape', p=None):
    p = p or v.sym('self', cls)
    g = lambda m: v.pre(v.at(p, 'enve::shape', m))
    return p, g('m_r_x'), g('m_m_x'), g('m_r_y'), g('m_m_y'), g('m_l_y')
def pw(a, b): return fn('pow', a, b)
def radius(Rx, Mx, Ry, My, y): return Rx * pw(1 - pw(absr(y) / Ry, My), 1 / Mx)
def slope(Rx, Mx, Ry, My, y, tol):
    a = absr(y); t = pw(a / Ry, My)
    # d/dy Rx (1-(|y|/Ry)^My)^(1/Mx) = -sgn(y) Rx/Mx (1-t)^(1/Mx-1) My t/|y|
    d = -(Rx / Mx) * pw(1 - t, 1 / Mx - 1) * My * t / a
    sg = ite(lt(ZERO, y), R(1), R(-1))
    return ite(lt(tol, a), sg * d, ZERO)
@spec('P04', 'shape::surfaceRadius')
def _(v):
    p, Rx, Mx, Ry, My, Ly = shape_(v); y = var('y')
    r = v.run('enve::shape::surfaceRadius(', [p, y])
    v.throws(r, lt(Ly, absr(y)), text='|y| > Ly'); v.safe(r); v.frame(r)
    v.ensure('radius = Rx (1-(|y|/Ry)^My)^(1/Mx)', eq(r.ret, radius(Rx, Mx, Ry, My, y)), [r.pc])
@spec('P04', 'shape::surfaceDerivative')
def _(v):
    p, Rx, Mx, Ry, My, Ly = shape_(v); y = var('y'); tol = var('tol')
    v.assume += [not_(eq(Mx, 0)), le(0, tol)]
    r = v.run('enve::shape::surfaceDerivative(', [p, y, tol])
    v.throws(r, lt(Ly, absr(y)), text='|y| > Ly'); v.safe(r); v.frame(r)
    v.ensure('slope is the derivative of the radius (zero within tolerance)', eq(r.ret, slope(Rx, Mx, Ry, My, y, tol)), [r.pc])
@spec('P04', 'shape::surfaceAngle')
def _(v):
    p, Rx, Mx, Ry, My, Ly = shape_(v); y = var('y'); tol = var('tol')
    v.assume += [not_(eq(Mx, 0)), le(0, tol)]
    r = v.run('enve::shape::surfaceAngle(', [p, y, tol])
    v.throws(r, lt(Ly, absr(y)), text='|y| > Ly'); v.safe(r); v.frame(r)
    v.ensure('angle = atan(slope)', eq(r.ret, fn('atan', slope(Rx, Mx, Ry, My, y, tol))), [r.pc])
@spec('P04', 'slope: odd in y (lemma over the contract)')
def _(v):
    p, Rx, Mx, Ry, My, Ly = shape_(v); y = var('y'); tol = var('tol')
    v.assume += [not_(eq(Mx, 0)), le(0, tol)]
    a = v.run('enve::shape::surfaceDerivative(', [p, y, tol]); b = v.run('enve::shape::surfaceDerivative(', [p, neg(y), tol])
    v.ensure('slope(-y) = -slope(y)', eq(a.ret, neg(b.ret)), [a.pc, b.pc])
    c = v.run('enve::shape::surfaceRadius(', [p, y]); d = v.run('enve::shape::surfaceRadius(', [p, neg(y)])
    v.ensure('radius(-y) = radius(y)', eq(c.ret, d.ret), [c.pc, d.pc])
@spec('P04', 'shape: maximum radius and half width')
def _(v):
    p, Rx, Mx, Ry, My, Ly = shape_(v)
    for f, x in (('surfaceMaxRadius', Rx), ('surfaceMaxWidth', Ly), ('surfaceWidth', Ly)):
        r = v.run('enve::shape::%s(' % f, [p]); v.nothrow(r); v.safe(r); v.frame(r)
        v.ensure(f, eq(r.get(r.ret), x), [r.pc])
@spec('P04', 'shell forwarding to its profile')
def _(v):
    p = v.sym('self', 'enve::shell'); q = v.at(p, 'enve::shell', 'm_shape')
    sp = v.pre(q, 'ptr')      # shared_ptr<shape>: target
    g = lambda m: v.pre(v.at(sp, 'enve::shape', m))
    Rx, Mx, Ry, My, Ly = [g(m) for m in ('m_r_x', 'm_m_x', 'm_r_y', 'm_m_y', 'm_l_y')]
    y = var('y'); tol = var('tol'); v.assume += [not_(eq(Mx, 0)), le(0, tol)]
    for f, x in (('surfaceMaxRadius', Rx), ('surfaceMaxWidth', Ly), ('surfaceWidth', Ly)):
        r = v.run('enve::shell::%s(' % f, [p]); v.nothrow(r); v.safe(r); v.frame(r)
        v.ensure('shell ' + f, eq(r.get(r.ret) if r.ret.sort == 'P' else r.ret, x), [r.pc])
    for f, a, x in (('surfaceRadius', [y], radius(Rx, Mx, Ry, My, y)), ('surfaceDerivative', [y, tol], slope(Rx, Mx, Ry, My, y, tol)),
                    ('surfaceAngle', [y, tol], fn('atan', slope(Rx, Mx, Ry, My, y, tol)))):
        r = v.run('enve::shell::%s(' % f, [p] + a)
        v.throws(r, lt(Ly, absr(y)), text='|y| > Ly'); v.safe(r); v.frame(r)
        v.ensure('shell %s' % f, eq(r.ret, x), [r.pc])
@spec('P04', 'shape constructor stores the parameters')
def _(v):
    p = v.sym('self'); a = [var(n) for n in ('Rx', 'Mx', 'Ry', 'My', 'Ly')]
    r = v.run('enve::shape::shape(double', [p] + a); v.nothrow(r); v.safe(r)
    for x, m, f in zip(a, ('m_r_x', 'm_m_x', 'm_r_y', 'm_m_y', 'm_l_y'), ('Rx', 'Mx', 'Ry', 'My', 'Ly')):
        v.ensure('%s stored' % f, eq(r.get(v.at(p, 'enve::shape', m)), x), [r.pc])
        q = v.sym('self', 'enve::shape'); g = v.run('enve::shape::%s() const' % f, [q])
        v.ensure('%s() returns it' % f, eq(g.get(g.ret), v.pre(v.at(q, 'enve::shape', m))), [g.pc])
