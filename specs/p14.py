from spec import *
from shellc import *
def checkframe(v, r, o, want, name):
    F, T_ = r.aff(o)
    for k, (c, w) in enumerate(zip(list(F.c) + [T_], want)): v.veq('%s: %s' % (name, ('x axis = unit(lateral x normal)', 'y axis = unit(normal x x axis)', 'z axis = contact normal', 'origin = contact point')[k]), c, w, [r.pc])
    for k in range(4): v.ensure('%s: last row entry %d' % (name, k), eq(r.get(padd(o, 32 * k + 24)), 1 if k == 3 else 0), [r.pc])
def run_total(v, s, sig, args):
    """run with the contracts of the shell totals (P12: proved there and again below): the total contact point and
    normal are fixed functions of the shell's results; code that computes them in another way is run as it stands"""
    got = {}
    for sg, m, o in (('enve::shell::contactPoint({pt}&) const', 'point', 8), ('enve::shell::contactNormal({V3}&) const', 'normal', 0)):
        got[m] = Vec(*[fresh('total_' + m, 'R') for k in range(3)])
        def c(ex, st, a, m=m, o=o):
            if a[0] is not s.p or v.rd(st, s.outp, 'q') is not s.out or v.rd(st, s.ribsp, 'q') is not s.ribs: raise GiveUp('total of another shell')
            for k in range(3): ex.store(st, padd(a[1], o + 8 * k), 'double', got[m][k])
        v.contract(sg, c)
    r = v.run(sig, args)
    if len(v.ex.used_contracts) == 2: return r, got
    v.ex.contracts.clear(); v.ex.used_contracts.clear()
    return v.run(sig, args), totals(v, s)
@spec('P14', 'shell::contactPointAffine (rib)')
def _(v):
    s = shell(v); i = var('i', 'I'); v.assume += [le(0, i), lt(i, s.n)]
    o = v.sym('result'); r = v.run('enve::shell::contactPointAffine(unsigned long, {AFF}&) const', [s.p, i, o]); v.nothrow(r); v.safe(r); v.frame(r, [o])
    checkframe(v, r, o, frame_of(v, s, ocell(v, s.out, i, 'normal'), ocell(v, s.out, i, 'point')), 'frame of rib i')
@spec('P14', 'shell::contactPointAffine (shell)')
def _(v):
    s = shell(v); o = v.sym('result')
    r, t = run_total(v, s, 'enve::shell::contactPointAffine({AFF}&) const', [s.p, o]); v.nothrow(r); v.safe(r); v.frame(r, [o])
    checkframe(v, r, o, frame_of(v, s, t['normal'], t['point']), 'frame of the shell')
@spec('P14', 'shell::relativeAngles (rib)')
def _(v):
    s = shell(v); i = var('i', 'I'); v.assume += [le(0, i), lt(i, s.n)]
    o = v.sym('result'); r = v.run('enve::shell::relativeAngles(unsigned long, {V3}&) const', [s.p, i, o]); v.nothrow(r); v.safe(r); v.frame(r, [o])
    x, y, z, _ = frame_of(v, s, ocell(v, s.out, i, 'normal'), ocell(v, s.out, i, 'point'))
    e = euler(matT((x, y, z), s.A)); a = rcell(v, s.ribs, i, 'm_angle')
    v.veq('Z-X-Y angles of the shell in the contact frame, first reduced by the rib inclination', r.vec(o), Vec(e[0] - a, e[1], e[2]), [r.pc])
@spec('P14', 'shell::relativeAngles (shell)')
def _(v):
    s = shell(v); o = v.sym('result')
    r, t = run_total(v, s, 'enve::shell::relativeAngles({V3}&) const', [s.p, o]); v.nothrow(r); v.safe(r); v.frame(r, [o])
    x, y, z, _ = frame_of(v, s, t['normal'], t['point'])
    v.veq('Z-X-Y angles of the shell in the contact frame', r.vec(o), euler(matT((x, y, z), s.A)), [r.pc])
include('P14', 'P12', 'shell::contactPoint', 'shell::contactNormal')
