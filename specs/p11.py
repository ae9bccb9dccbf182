from ribc import *
ASSUME = ['Intersection(triangle, disk) is used through its contract (proved by P17), as a function of the defining numbers of triangle and disk']
def aggregate(v, s):
    k = fresh('k', 'I'); cnt, a, vol, p, n, mu = geo_tri(v, s, k)
    tot = lambda x: Sum(s.N, k, ite(cnt, x, R(0)))
    A, V_ = tot(a), tot(vol)
    wm = lambda x: Vec(*[tot(vol * c) / V_ for c in x]) if isinstance(x, Vec) else tot(vol * x) / V_
    contact = and_(Exists(s.N, k, cnt), lt(0, V_), or_(lt(EPS, A), lt(EPS, V_)))
    P_ = wm(p)
    return contact, dict(area=A, volume=V_, point=P_, normal=wm(n).unit(), friction=wm(mu), depth=s.R - (P_ - s.cg).norm())
@spec('P11', 'rib::envelop(mesh, geometric)')
def _(v):
    s = ribsym(v, 'mesh'); r = envelop(v, s, GEO)
    v.safe(r); v.nothrow(r); v.frame(r, [s.o])
    contact, want = aggregate(v, s)
    v.ensure('contact exactly when counted triangles have positive total volume and area or volume above the tolerance', iff(r.ret, contact), [r.pc])
    check_out(v, r, s, want, [r.pc, contact], 'contact')
include('P11', 'P17', 'plane and plane', 'line and coplanar', 'plane and triangle', 'segment in the plane of a disk', 'segment inside a disk', 'triangle and disk')
