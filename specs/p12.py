from spec import *
from shellc import *
NAMES = dict(point='contactPoint', normal='contactNormal', friction='contactFriction', depth='contactDepth', area='contactArea', volume='contactVolume')
def mkspec(m):
    @spec('P12', 'shell::%s (total)' % NAMES[m])
    def _(v):
        s = shell(v); t = totals(v, s)
        ty = {'point': '{pt}&', 'normal': '{V3}&'}.get(m, 'double&')
        o = v.sym('result', 'acme::point' if m == 'point' else None)
        r = v.run('enve::shell::%s(%s) const' % (NAMES[m], ty), [s.p, o]); v.nothrow(r); v.safe(r); v.frame(r, [o])
        if m == 'point': v.veq('total contact point is the (weighted) mean', r.pt(o), t[m], [r.pc])
        elif m == 'normal': v.veq('total contact normal is the normalised (weighted) mean', r.vec(o), t[m], [r.pc])
        else: v.ensure('total %s' % m, eq(r.get(o), t[m]), [r.pc])
for m in NAMES: mkspec(m)
