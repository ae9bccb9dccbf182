"""shared contracts of the rib"""
from spec import *
from geom import *
from p10 import tri_of
RB = 'enve::rib'; FL = 'enve::ground::flat'; O = 'enve::output'; TG = 'enve::triangleground'
GEO, SAM = 'geometric', 'sampling'
class Rb: pass
def ribsym(v, kind):
    s = Rb(); s.v = v; s.kind = kind
    s.p = v.sym('rib', RB); s.posep = v.sym('pose'); s.o = v.sym('out', O)
    s.g = v.sym('ground', FL if kind == 'flat' else None)
    s.Rm, s.T = v.affine(s.posep)
    s.R = v.pre(v.at(s.p, 'acme::disk', 'm_radius')); pl = v.at(s.p, 'acme::disk', 'm_plane')
    s.c = v.prep(v.at(pl, PL, 'm_origin')); s.n = v.prev(v.at(pl, PL, 'm_normal')); s.w = v.pre(v.at(s.p, RB, 'm_width'))
    s.cg = s.T + s.Rm @ s.c; s.ng = s.Rm @ s.n
    s.disk = [s.R] + list(s.cg) + list(s.ng)
    if kind == 'flat':
        s.plane = entity(v, State(), s.g, PL); s.mu = v.pre(v.at(s.g, FL, 'm_friction'))
    else: s.Q = v.pre(s.g, 'q'); s.N = qlen(s.Q)
    return s
def envelop(v, s, method):
    """run rib::envelop with the given method name, Intersection and samplingLine under contract"""
    assume_all(v); sampling_contract(v)
    m = v.sym('method'); v.ex.streqs = getattr(v.ex, 'streqs', {})
    sig = 'enve::rib::envelop({%s} const&, {AFF} const&, {STR}' % ('flat' if s.kind == 'flat' else 'TGV')
    mt = v.pre(m, 'str')
    eqm = mk('streq', (mt, method), 'B')
    st = State(); st.pc = eqm
    v.assume.append(eqm)
    r = v.run(sig, [s.p, s.g, s.posep, m, s.o], st)
    r.m = mt
    return r
def sampling_contract(v):
    """samplingLine over a mesh / over flat ground through its contract (P10)"""
    def c1(ex, st, a):
        ins = [ex.load(st, a[1], 'q')] + entity(v, st, a[2], LN)
        put(v, st, a[3], PT, [uf('sline', 'o%d' % i, ins) for i in range(3)]); ex.store(st, a[4], 'double', uf('sline', 'mu', ins))
        return uf('sline', 'hit', ins, 'B')
    v.contract('enve::rib::samplingLine({TGV} const&', c1)
def sline(v, s, origin):
    """contract of a downward sampling line through a point: (hit, point, friction)"""
    L = list(origin) + [R(0), R(0), R(-1)]
    if s.kind == 'flat':
        ins = L + s.plane + [EPS]; return LinePlane.hit(ins), Vec(*LinePlane.out(ins)), s.mu
    ins = [s.Q] + L
    return uf('sline', 'hit', ins, 'B'), Vec(*[uf('sline', 'o%d' % i, ins) for i in range(3)]), uf('sline', 'mu', ins)
def out_of(v, r, s):
    g = lambda m: r.get(v.at(s.o, O, m))
    return dict(point=r.pt(v.at(s.o, O, 'point')), normal=r.vec(v.at(s.o, O, 'normal')), **{m: g(m) for m in ('friction', 'depth', 'area', 'volume')})
def neutral(s):
    """the no-contact result"""
    return dict(point=s.T + s.Rm @ (s.c - E3 * s.R), normal=s.Rm @ E3, friction=R(0), depth=R(0), area=R(0), volume=R(0))
def check_out(v, r, s, want, hyps, pre):
    got = out_of(v, r, s)
    for m, w in want.items():
        if isinstance(w, Vec): v.veq('%s: %s' % (pre, m), got[m], w, hyps)
        else: v.ensure('%s: %s' % (pre, m), eq(got[m], w), hyps)
def segm(s, d):
    """circular segment of height d: area of contact and volume"""
    h = sqrt(d * (2 * s.R - d))
    return 2 * h * s.w, (s.R * s.R * fn('acos', (s.R - d) / s.R) - (s.R - d) * h) * s.w
def geo_flat(v, s):
    ins = s.plane + s.disk + [EPS]
    o = PlaneDisk.out(ins); a, b = Vec(*o[:3]), Vec(*o[3:])
    contact = and_(PlaneDisk.hit(ins), lt(EPS, (a - b).norm()))
    p = (a + b) / 2; d = s.R - (p - s.cg).norm(); gn = Vec(*s.plane[3:])
    t = s.ng.cross(s.cg - p).unit()
    area, vol = segm(s, d)
    return contact, dict(point=p, depth=d, friction=s.mu, area=area, volume=vol, normal=(gn - t * gn.dot(t)).unit())
def sampling(v, s):
    dx, dy = R(Fraction(0.1)) * s.R, R(Fraction(0.3)) * s.w
    L = [sline(v, s, s.T + s.Rm @ (s.c + e)) for e in (E1 * dx, -(E1 * dx), E2 * dy, -(E2 * dy))]
    H = and_(*[h for h, _, _ in L]); q = [p for _, p, _ in L]
    p = (q[0] + q[1] + q[2] + q[3]) / 4; n = (q[0] - q[1]).cross(q[2] - q[3]).unit()
    ey = s.Rm.c[1].unit(); ex_ = n.cross(ey).unit(); ez = ey.cross(ex_).unit()
    d = s.R * absr(n.dot(ez)) - (p - s.cg).norm()
    area, vol = segm(s, d)
    mu = add(*[m for _, _, m in L]) / 4
    return and_(H, lt(0, d)), dict(point=p, normal=n, depth=d, friction=mu, area=area, volume=vol), H
PI_ = R(Fraction(3.14159265358979323846))
def geo_tri(v, s, i):
    """contribution of ground triangle i: (counts, area, volume, point, normal, friction)"""
    vs, mu = tri_of(v, s.Q, i); ins = vs + s.disk + [EPS]
    o = TriDisk.out(ins); A, B_ = Vec(*o[:3]), Vec(*o[3:])
    pa, pb = s.Rm.t(A - s.cg), s.Rm.t(B_ - s.cg)
    ta0, tb0 = fn('atan2', pa[2], pa[0]), fn('atan2', pb[2], pb[0])
    lo, hi = minr(ta0, tb0), maxr(ta0, tb0)
    wrap = lt(PI_, hi - lo)
    ta, tb = ite(wrap, hi, lo), ite(wrap, lo + 2 * PI_, hi)
    tc, td = (ta + tb) / 2, (tb - ta) / 2
    ln = (A - B_).norm()
    counts = and_(TriDisk.hit(ins), not_(and_(lt(tb - ta, EPS), lt(ln, EPS))))
    ra, rb_ = minr(s.R, pa.norm()), minr(s.R, pb.norm())
    rc = minr(s.R, maxr(R(0), 2 * ra * rb_ / maxr(EPS, ra + rb_) * fn('cos', td)))
    sec = s.R * s.R * td - ra * rb_ * fn('sin', tb - ta) / 2
    C_, S_ = fn('cos', tc), fn('sin', tc)
    p = s.T + s.Rm @ (s.c + Vec(C_, R(0), S_) * rc)
    nt = s.Rm @ Vec(-C_, R(0), -S_)
    ref = sel(s.Q, i, 0, 'ref'); gn = Vec(*[fld(ref, v.off(TG, 'm_normal') + 8 * k, 'double') for k in range(3)])
    nn = (nt + s.ng * (gn - nt).dot(s.ng)).unit()
    return counts, ln * s.w, sec * s.w, p, nn, mu
