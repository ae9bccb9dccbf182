from ribc import *
ASSUME = ['samplingLine over a mesh is used through its contract (proved by P10); Intersection(line, plane) through its contract (proved by P17)']
for kind in ('flat', 'mesh'):
    @spec('P09', 'rib::envelop(%s, sampling)' % kind)
    def _(v, kind=kind):
        s = ribsym(v, kind); r = envelop(v, s, SAM)
        v.safe(r); v.nothrow(r); v.frame(r, [s.o])
        contact, want, H = sampling(v, s)
        v.ensure('contact only if all four samples hit', implies(r.ret, H), [r.pc])
        v.ensure('contact exactly when all four hit and the depth is positive', iff(r.ret, contact), [r.pc])
        check_out(v, r, s, want, [r.pc, contact], 'contact')
include('P09', 'P10', 'rib::samplingLine')
include('P09', 'P17', 'line and plane', 'line and triangle')
