from ribc import *
ASSUME = ['Intersection(plane, disk) is used through its contract (proved by P17)']
@spec('P08', 'rib::envelop(flat, geometric)')
def _(v):
    s = ribsym(v, 'flat'); r = envelop(v, s, GEO)
    v.safe(r); v.nothrow(r); v.frame(r, [s.o])
    contact, want = geo_flat(v, s)
    v.ensure('contact exactly when the disk meets the plane in a chord longer than the tolerance', iff(r.ret, contact), [r.pc])
    check_out(v, r, s, want, [r.pc, contact], 'contact')
include('P08', 'P17', 'plane and plane', 'the reported line', 'line in the plane of a disk', 'the ends of the chord', 'plane and disk')
