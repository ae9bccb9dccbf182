from ribc import *
from p11 import aggregate
ASSUME = ['the Intersection primitives and samplingLine over a mesh are used through their contracts (P17, P10)']
for kind in ('flat', 'mesh'):
    for meth in (GEO, SAM):
        @spec('P05', 'rib::envelop(%s, %s)' % (kind, meth))
        def _(v, kind=kind, meth=meth):
            s = ribsym(v, kind); r = envelop(v, s, meth); v.safe(r); v.nothrow(r); v.frame(r, [s.o])
            contact = sampling(v, s)[0] if meth == SAM else (geo_flat if kind == 'flat' else aggregate)(v, s)[0]
            v.ensure('returns true exactly when there is contact', iff(r.ret, contact), [r.pc])
            check_out(v, r, s, neutral(s), [r.pc, not_(r.ret)], 'no contact')
@spec('P05', 'rib::envelop without ground')
def _(v):
    s = ribsym(v, 'flat'); r = v.run('enve::rib::envelop({AFF} const&', [s.p, s.posep, s.o]); v.safe(r); v.nothrow(r); v.frame(r, [s.o])
    v.ensure('returns false', not_(r.ret), [r.pc]); check_out(v, r, s, neutral(s), [r.pc], 'neutral')
@spec('P05', 'shell::setup on a mesh: no triangle near, nothing of an earlier contact is left')
def _(v):
    import p06
    s = p06.setup(v, 'mesh'); r = s.r; s.i = var('i', 'I'); v.assume.append(eq(s.N, I(0)))
    v.nothrow(r); v.ensure('returns false', not_(r.ret), [r.pc])
    ins = p06.ribargs(v, s.ribs, s.i) + p06.posevals(v, State(), s.posep)
    p06.slots(v, s, [uf('envelop_none', k, ins) for k in p06.OUTC], [], 'slot i holds the no-contact result of rib i')
