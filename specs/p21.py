from spec import *
from geom import *
BL, RY, BX = 'acme::ball', 'acme::ray', 'acme::aabb'
SH, RB, TG, FL = 'enve::shape', 'enve::rib', 'enve::triangleground', 'enve::ground::flat'
PT3 = [(8 + 8 * i, 'double') for i in range(3)]
def pt(n, o=0): return [('%s.%s' % (n, 'xyz'[i]), o + 8 + 8 * i, 'double') for i in range(3)]
def vc(n, o=0): return [('%s.%s' % (n, 'xyz'[i]), o + 8 * i, 'double') for i in range(3)]
def attrs(v, cls):
    """(name, offset, type) of every stored attribute"""
    o = lambda m: v.off(cls, m)
    if cls == PT: return pt('point')
    if cls in (LN, RY): return pt('origin', o('m_origin')) + vc('direction', o('m_direction'))
    if cls == PL: return pt('origin', o('m_origin')) + vc('normal', o('m_normal'))
    if cls in (SG, TRI): return [x for k in range(2 if cls == SG else 3) for x in pt('vertex%d' % k, o('m_vertex') + 32 * k)]
    if cls == DK: return [('radius', o('m_radius'), 'double')] + [(n, o('m_plane') + f, t) for n, f, t in attrs(v, PL)]
    if cls == BL: return [('radius', o('m_radius'), 'double')] + pt('center', o('m_center'))
    if cls == BX: return pt('min', o('m_min')) + pt('max', o('m_max')) + [('id', o('m_id'), 'i32'), ('pos', o('m_pos'), 'i32')]
    if cls == SH: return [(m, o(m), 'double') for m in ('m_r_x', 'm_m_x', 'm_r_y', 'm_m_y', 'm_l_y')]
    base = lambda c, b: [(n, v.lay[c]['b'][b] + f, t) for n, f, t in attrs(v, b)]
    if cls == RB: return base(RB, DK) + [('id', o('m_id'), 'i32'), ('y', o('m_y'), 'double'), ('width', o('m_width'), 'double'), ('angle', o('m_angle'), 'double')]
    if cls == TG: return base(TG, TRI) + [('id', o('m_id'), 'i32'), ('friction', o('m_friction'), 'double')] + vc('normal', o('m_normal')) + [('box ' + n, o('m_bbox') + f, t) for n, f, t in attrs(v, BX)]
    if cls == FL: return base(FL, PL) + [('friction', o('m_friction'), 'double')]
    raise GiveUp(cls)
def copyspec(cls, name, sig, fresh_dest):
    @spec('P21', name)
    def _(v):
        d = v.sym('dest', None if fresh_dest else cls); s = v.sym('source', cls)
        if cls == FL: n = [v.pre(padd(s, o)) for nm, o, t in attrs(v, FL) if nm.startswith('normal')]; v.assume += [eq(Vec(*n).norm2(), 1)]
        r = v.run(sig, [d, s]); v.nothrow(r); v.safe(r); v.frame(r, [d])
        for n, o, t in attrs(v, cls): v.ensure('%s is that of the source' % n, eq(r.get(padd(d, o), t), v.pre(padd(s, o), t)), [r.pc])
for c in (PT, LN, RY, PL, SG, TRI, DK, BL, BX):
    k = c[6:]; copyspec(c, '%s copy construction' % k, 'vp_cc_%s(' % k, True); copyspec(c, '%s assignment' % k, 'vp_as_%s(' % k, False)
copyspec(RB, 'rib copy construction', 'vp_cc_rib(', True); copyspec(SH, 'shape copy construction', 'vp_cc_shape(', True)
for c in (SH, RB, TG, FL): copyspec(c, '%s::copy' % c.split('::')[-1], c + '::copy(', False)
def nearr(a, b, tol): return lt(absr(sub(a, b)), tol)
def nearv(a, b, tol):
    """vectors agree within the (relative) tolerance"""
    return le((a - b).norm2(), mul(sq(tol), minr(a.norm2(), b.norm2())))
COMPARED = {  # which attributes each comparison covers
    LN: ['origin', 'direction'], RY: ['origin', 'direction'], PL: ['origin', 'normal'], SG: ['vertex0', 'vertex1'], TRI: ['vertex0', 'vertex1', 'vertex2'],
    DK: ['radius', 'origin', 'normal'], BL: ['radius', 'center'], BX: ['min', 'max'], SH: ['m_r_x', 'm_m_x', 'm_r_y', 'm_m_y', 'm_l_y'],
    RB: ['radius', 'origin', 'normal', 'id', 'y', 'width', 'angle'], TG: ['vertex0', 'vertex1', 'vertex2', 'friction'], FL: ['origin', 'normal', 'friction']}
def approxspec(cls):
    @spec('P21', '%s::isApprox' % cls.split('::')[-1])
    def _(v):
        a, b, tol = v.sym('a', cls), v.sym('b', cls), var('tol'); A = {n: (o, t) for n, o, t in attrs(v, cls)}
        r = v.run('%s::isApprox(' % cls, [a, b, tol]); v.nothrow(r); v.safe(r); v.frame(r)
        cs = []
        for n in COMPARED[cls]:
            if n in A:
                o, t = A[n]; x, y = v.pre(padd(a, o), t), v.pre(padd(b, o), t)
                if t != 'double': x, y = toreal(x), toreal(y)
                cs.append((n, nearr(x, y, tol)))
            else:
                f = lambda p: Vec(*[v.pre(padd(p, A['%s.%s' % (n, c)][0])) for c in 'xyz']); cs.append((n, nearv(f(a), f(b), tol)))
        for n, c in cs: v.ensure('not equal unless %s agrees within the tolerance' % n, implies(r.ret, c), [r.pc])
        v.ensure('equal when every compared attribute agrees', implies(and_(*[c for _, c in cs]), r.ret), [r.pc])
for c in COMPARED: approxspec(c)
