from spec import *
from shellc import *
from p04 import radius, slope
def params(v, s): return [v.pre(v.at(s.shapep, 'enve::shape', m)) for m in ('m_r_x', 'm_m_x', 'm_r_y', 'm_m_y', 'm_l_y')]
def rib_spec(par, n, k):
    """contract of rib k of a shell with n ribs: (y, width, radius, angle, defined)"""
    Rx, Mx, Ry, My, L = par
    nn = toreal(n); w = 2 * L / nn; y = -L + (2 * toreal(k) + 1) * L / nn
    R_ = radius(Rx, Mx, Ry, My, y); d = slope(Rx, Mx, Ry, My, y, EPS)
    good = and_(le(absr(y), L), not_(nanof(R_)), lt(0, R_), not_(nanof(d)))
    return y, w, R_, fn('atan', d), good
def rib_post(v, r, Q, Qo, Qc, par, n, pc):
    i = var('i', 'I'); hy = pc + [le(0, i), lt(i, n)]
    v.ensure('exactly n ribs', eq(qlen(Q), n), pc); v.ensure('exactly n result slots', eq(qlen(Qo), n), pc); v.ensure('exactly n candidate lists', eq(qlen(Qc), n), pc)
    y, w, R_, a, good = rib_spec(par, n, i)
    v.ensure('rib i: id i', eq(rcell(v, Q, i, 'm_id'), i), hy)
    v.ensure('rib i: radius is the profile radius at its lateral position', eq(rcell(v, Q, i, 'radius'), R_), hy)
    v.ensure('rib i: inclination is the profile angle at its lateral position', eq(rcell(v, Q, i, 'm_angle'), a), hy)
    v.ensure('rib i: width 2L/n', eq(rcell(v, Q, i, 'm_width'), w), hy)
    v.ensure('rib i: lateral coordinate', eq(rcell(v, Q, i, 'm_y'), y), hy)
    v.veq('rib i: centre (0, -L+(2i+1)L/n, 0)', rcell(v, Q, i, 'origin'), Vec(R(0), y, R(0)), hy)
    v.veq('rib i: disk in the x-z plane', rcell(v, Q, i, 'normal'), E2, hy)
    k = fresh('k', 'I'); yk, wk, Rk, ak, gk = rib_spec(par, n, k)
    v.ensure('returns normally exactly when n > 0 and every rib has a well defined positive radius (throws otherwise)', iff(r.pc, and_(not_(eq(n, I(0))), Forall(n, k, gk))))
    v.ensure('rib radius positive', lt(0, rcell(v, Q, i, 'radius')), hy + [good])
def mx(v, s): return [not_(eq(v.pre(v.at(s.shapep, 'enve::shape', 'm_m_x')), 0))]
@spec('P03', 'shell::resize')
def _(v):
    s = shell(v, inv=False); n = var('size', 'I'); v.assume += [le(0, n)] + mx(v, s)
    r = v.run('enve::shell::resize(', [s.p, n], hyps=[le(0, n)]); v.frame(r, [s.p])
    v.safe(r)
    Q = [r.get(x, 'q') for x in (s.ribsp, s.outp, s.candp)]
    rib_post(v, r, *Q, params(v, s), n, [r.pc])
@spec('P03', 'resize leaves the candidate lists empty')
def _(v):
    s = shell(v, inv=False); n = var('size', 'I'); i = var('i', 'I'); v.assume += [le(0, n)] + mx(v, s)
    r = v.run('enve::shell::resize(', [s.p, n], hyps=[le(0, n)])
    v.ensure('candidate list i is empty', eq(qlen(sel(r.get(s.candp, 'q'), i, 0, 'q')), I(0)), [r.pc, le(0, i), lt(i, n)])
@spec('P03', 'shell constructor')
def _(v):
    p = v.sym('self'); n = var('size', 'I'); a = [var(x) for x in ('Rx', 'Mx', 'Ry', 'My', 'Ly')]; v.assume += [le(0, n), not_(eq(a[1], 0))]
    r = v.run('enve::shell::shell(unsigned long', [p, n] + a, hyps=[le(0, n)]); v.safe(r); v.frame(r, [p])
    sp = r.get(v.at(p, C, 'm_shape'), 'ptr')
    for x, m in zip(a, ('m_r_x', 'm_m_x', 'm_r_y', 'm_m_y', 'm_l_y')): v.ensure('profile parameter %s kept' % m, eq(r.get(v.at(sp, 'enve::shape', m)), x), [r.pc])
    Q = [r.get(v.at(p, C, m), 'q') for m in ('m_ribs', 'm_out', 'm_candidates')]
    rib_post(v, r, *Q, a, n, [r.pc])
    A, T_ = r.aff(v.at(p, C, 'm_affine'))
    for k, e in enumerate((E1, E2, E3)): v.veq('initial pose is the identity (column %d)' % k, A.c[k], e, [r.pc])
    v.veq('initial pose is the identity (origin)', T_, Z3, [r.pc])
@spec('P03', 'rib readings')
def _(v):
    s = shell(v); i = var('i', 'I'); v.assume += [le(0, i), lt(i, s.n)]
    for f, w in (('ribRadius', rcell(v, s.ribs, i, 'radius')), ('ribWidth', rcell(v, s.ribs, i, 'm_width')), ('ribAngle', rcell(v, s.ribs, i, 'm_angle'))):
        r = v.run('enve::shell::%s(' % f, [s.p, i]); v.nothrow(r); v.safe(r); v.frame(r); v.ensure('%s(i)' % f, eq(r.ret, w), [r.pc])
    r = v.run('enve::shell::ribCenter(', [s.p, i]); v.nothrow(r); v.safe(r); v.frame(r); v.veq('ribCenter(i)', r.pt(r.retp), rcell(v, s.ribs, i, 'origin'), [r.pc])
    r = v.run('enve::shell::size(', [s.p]); v.nothrow(r); v.safe(r); v.frame(r); v.ensure('size()', eq(r.ret, s.n), [r.pc])
@spec('P03', 'rib constructor')
def _(v):
    p = v.sym('self'); k = var('id', 'I'); R_, y, w, a = [var(x) for x in ('R', 'y', 'w', 'a')]
    r = v.run('enve::rib::rib(int, double', [p, k, R_, y, w, a]); v.nothrow(r); v.safe(r); v.frame(r, [p])
    for m, x in (('m_y', y), ('m_width', w), ('m_angle', a)): v.ensure(m, eq(r.get(v.at(p, RB, m)), x), [r.pc])
    v.ensure('id', eq(r.get(v.at(p, RB, 'm_id'), 'i32'), k), [r.pc]); v.ensure('radius', eq(r.get(v.at(p, 'acme::disk', 'm_radius')), R_), [r.pc])
    pl = v.at(p, 'acme::disk', 'm_plane')
    v.veq('centre', r.pt(v.at(pl, 'acme::plane', 'm_origin')), Vec(R(0), y, R(0)), [r.pc]); v.veq('disk normal', r.vec(v.at(pl, 'acme::plane', 'm_normal')), E2, [r.pc])
