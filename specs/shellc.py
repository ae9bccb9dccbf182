"""shared views of the shell object"""
from spec import *
C = 'enve::shell'; O = 'enve::output'; RB = 'enve::rib'
class Sh: pass
def shell(v, name='self', inv=True):
    s = Sh(); s.p = v.sym(name, C); s.v = v
    s.ribsp, s.outp, s.candp = [v.at(s.p, C, m) for m in ('m_ribs', 'm_out', 'm_candidates')]
    s.ribs, s.out, s.cand = [v.pre(q, 'q') for q in (s.ribsp, s.outp, s.candp)]
    s.n = qlen(s.ribs)
    s.affp = v.at(s.p, C, 'm_affine'); s.A, s.T = v.affine(s.affp)
    s.shapep = v.pre(v.at(s.p, C, 'm_shape'), 'ptr'); s.bboxp = v.pre(v.at(s.p, C, 'm_bbox'), 'ptr')
    if inv: v.assume += [eq(qlen(s.out), s.n), eq(qlen(s.cand), s.n), le(1, s.n)]
    return s
def ocell(v, Q, i, m):
    """stored result field of slot i"""
    o = v.off(O, m)
    if m == 'point': return Vec(*[sel(Q, i, o + 8 + 8 * k, 'double') for k in range(3)])
    if m == 'normal': return Vec(*[sel(Q, i, o + 8 * k, 'double') for k in range(3)])
    return sel(Q, i, o, 'double')
def rcell(v, Q, i, m):
    if m == 'radius': return sel(Q, i, v.off('acme::disk', 'm_radius'), 'double')
    if m == 'origin':
        o = v.off('acme::disk', 'm_plane') + v.off('acme::plane', 'm_origin') + 8
        return Vec(*[sel(Q, i, o + 8 * k, 'double') for k in range(3)])
    if m == 'normal':
        o = v.off('acme::disk', 'm_plane') + v.off('acme::plane', 'm_normal')
        return Vec(*[sel(Q, i, o + 8 * k, 'double') for k in range(3)])
    if m == 'm_id': return sel(Q, i, v.off(RB, m), 'i32')
    return sel(Q, i, v.off(RB, m), 'double')
SCAL = ('friction', 'depth', 'area', 'volume')
def total(v, s, f):
    """Sum over all ribs of f(slot index) (scalar or vector valued)"""
    k = fresh('k', 'I'); b = f(k)
    if isinstance(b, Vec): return Vec(*[Sum(s.n, k, x) for x in b])
    return Sum(s.n, k, b)
def totals(v, s):
    """the contract of the shell totals (property P12)"""
    g = lambda m: (lambda k: ocell(v, s.out, k, m))
    vol = total(v, s, g('volume')); area = total(v, s, g('area'))
    small = lt(vol, EPS); nr = toreal(s.n)
    def mean(m):
        a = total(v, s, g(m)); b = total(v, s, lambda k: ocell(v, s.out, k, m) * ocell(v, s.out, k, 'volume'))
        if isinstance(a, Vec): return itev(small, a / nr, b / vol)
        return ite(small, div(a, nr), div(b, vol))
    n = mean('normal')
    return dict(volume=vol, area=area, point=mean('point'), normal=n.unit(), friction=mean('friction'), depth=mean('depth'), small=small)
def frame_of(v, s, n, pt_):
    """contact frame columns (x, y, z, origin)"""
    y = s.A.c[1]
    x = y.cross(n).unit(); return x, n.cross(x).unit(), n, pt_
PI_ = R(Fraction(3.141592653589793))
def euler(M):
    """Z-X-Y Euler angles of the matrix with columns M.c: M = Rz(a0) Rx(a1) Ry(a2), in the branch with a0 in [0, pi]"""
    m = lambda r, c: M.c[c][r]
    t = fn('atan2', m(0, 1), m(1, 1)); c2 = sqrt(sq(m(2, 2)) + sq(m(2, 0)))
    up = lt(0, t); r0 = ite(up, t - PI_, t)
    r1 = ite(up, fn('atan2', -m(2, 1), -c2), fn('atan2', -m(2, 1), c2))
    s1, c1 = fn('sin', r0), fn('cos', r0)
    r2 = fn('atan2', s1 * m(1, 2) - c1 * m(0, 2), c1 * m(0, 0) - s1 * m(1, 0))
    return Vec(-r0, -r1, -r2)
def matT(cols, A):
    """F^T A for F given by its columns"""
    return Mat(*[Vec(*[f.dot(a) for f in cols]) for a in A.c])
