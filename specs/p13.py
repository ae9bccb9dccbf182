from spec import *
from shellc import *
from p12 import NAMES
def mkspec(m):
    @spec('P13', 'shell::%s (per rib and vector)' % NAMES[m])
    def _(v):
        s = shell(v); i = var('i', 'I'); v.assume += [le(0, i), lt(i, s.n)]
        ty = {'point': '{pt}', 'normal': '{V3}'}.get(m, 'double')
        vt = {'point': '{VP}', 'normal': '{VV}'}.get(m, '{VR}')
        o = v.sym('result', 'acme::point' if m == 'point' else None)
        r = v.run('enve::shell::%s(unsigned long, %s&) const' % (NAMES[m], ty), [s.p, i, o]); v.nothrow(r); v.safe(r); v.frame(r, [o])
        want = ocell(v, s.out, i, m)
        if m == 'point': v.veq('single reading of rib i is its stored result', r.pt(o), want, [r.pc])
        elif m == 'normal': v.veq('single reading of rib i is its stored result', r.vec(o), want, [r.pc])
        else: v.ensure('single reading of rib i is its stored result', eq(r.get(o), want), [r.pc])
        w = v.sym('vec'); r = v.run('enve::shell::%s(%s&) const' % (NAMES[m], vt), [s.p, w]); v.nothrow(r); v.safe(r); v.frame(r, [w])
        Q = r.get(w, 'q')
        v.ensure('one element per rib', eq(qlen(Q), s.n), [r.pc])
        offs = {'point': (8, 16, 24), 'normal': (0, 8, 16)}.get(m, (0,))
        wl = list(want) if isinstance(want, Vec) else [want]
        for of, x in zip(offs, wl): v.ensure('element i is the reading of rib i (+%d)' % of, eq(sel(Q, i, of, 'double'), x), [r.pc])
for m in NAMES: mkspec(m)
@spec('P13', 'shell::contactPointAffine (vector)')
def _(v):
    s = shell(v); i = var('i', 'I'); v.assume += [le(0, i), lt(i, s.n)]
    o = v.sym('result'); r = v.run('enve::shell::contactPointAffine(unsigned long, {AFF}&) const', [s.p, i, o]); v.nothrow(r); v.safe(r); v.frame(r, [o])
    w = v.sym('vec'); q = v.run('enve::shell::contactPointAffine({VA}&) const', [s.p, w]); v.nothrow(q); v.safe(q); v.frame(q, [w])
    Q = q.get(w, 'q'); v.ensure('one element per rib', eq(qlen(Q), s.n), [q.pc])
    for k in range(16):
        v.ensure('element i is the reading of rib i (entry %d)' % k, eq(sel(Q, i, 8 * k, 'double'), r.get(padd(o, 8 * k))), [r.pc, q.pc])
@spec('P13', 'shell::relativeAngles (vector)')
def _(v):
    s = shell(v); i = var('i', 'I'); v.assume += [le(0, i), lt(i, s.n)]
    o = v.sym('result'); r = v.run('enve::shell::relativeAngles(unsigned long, {V3}&) const', [s.p, i, o]); v.nothrow(r); v.safe(r); v.frame(r, [o])
    w = v.sym('vec'); q = v.run('enve::shell::relativeAngles({VV}&) const', [s.p, w]); v.nothrow(q); v.safe(q); v.frame(q, [w])
    Q = q.get(w, 'q'); v.ensure('one element per rib', eq(qlen(Q), s.n), [q.pc])
    for k in range(3): v.ensure('element i is the reading of rib i (entry %d)' % k, eq(sel(Q, i, 8 * k, 'double'), r.get(padd(o, 8 * k))), [r.pc, q.pc])
