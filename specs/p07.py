from spec import *
from shellc import *
from geom import *
from p06 import setup, GEOM
ASSUME = ['the result of mesh::intersection is an arbitrary list of triangles here (its contents are P01)', 'rib::envelop is used through its contract (it does not change the candidate lists)',
          'the lateral axis of the pose is a unit vector and rib centres lie on the local y axis (P03)']
def vert(v, ref, k): return v.refv(ref, v.off(TRI, 'm_vertex') + 32 * k + 8)
def base(v):
    s = setup(v, 'mesh'); s.i = var('i', 'I')
    v.assume += [lt(0, s.N), le(0, s.i), lt(s.i, s.n), eq(s.Ap.c[1].norm2(), 1), s.r.pc]
    s.Qc = s.r.get(s.candp, 'q'); s.got = sel(s.Qc, s.i, 0, 'q')
    s.geo = mk('streq', (s.mt, GEOM), 'B'); s.refine = and_(s.geo, lt(3, s.N))
    return s
@spec('P07', 'refined candidate lists')
def _(v):
    s = base(v); k = fresh('k', 'I'); ref = sel(s.local, k, 0, 'ref')
    yc = rcell(v, s.ribs, s.i, 'origin')[1]; u = s.Ap.c[1]
    d = [u.dot(vert(v, ref, j) - s.Tp) - yc for j in range(3)]
    keep = not_(or_(and_(*[lt(0, x) for x in d]), and_(*[lt(x, 0) for x in d])))
    want = qfilter(s.N, k, keep, qelem(s.local, k))
    v.seq('candidate list of rib i: the local triangles crossing its mid plane, in order, each once', s.got, want, [s.refine])
@spec('P07', 'unrefined candidate lists')
def _(v):
    s = base(v)
    v.seq('candidate list of rib i is the whole local list', s.got, s.local, [not_(s.refine)])
@spec('P07', 'one list per rib, local list untouched')
def _(v):
    s = base(v)
    v.ensure('one candidate list per rib', eq(qlen(s.Qc), s.n)); v.seq('ribs unchanged', s.r.get(s.ribsp, 'q'), s.ribs)
include('P07', 'P01', 'aabb::intersects', 'AABBtree::intersection', 'mesh::intersection')
