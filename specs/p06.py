from spec import *
from shellc import *
from geom import *
ASSUME = ['the result of mesh::intersection is an arbitrary list of triangles here (its contents are P01)', 'rib::envelop is used through its contract: a function of the rib, the candidates or ground, the pose and the method (P05, P08-P11), raising an exception exactly for an unknown method']
GEOM, SAMP = 'geometric', 'sampling'
def ribargs(v, Q, i):
    return [rcell(v, Q, i, 'radius')] + list(rcell(v, Q, i, 'origin')) + list(rcell(v, Q, i, 'normal')) + [rcell(v, Q, i, m) for m in ('m_y', 'm_width', 'm_angle')]
def ribvals(v, st, p):
    pl = v.at(p, DK, 'm_plane')
    return [v.rd(st, v.at(p, DK, 'm_radius'))] + list(v.rp(st, v.at(pl, PL, 'm_origin'))) + list(v.rv(st, v.at(pl, PL, 'm_normal'))) + [v.rd(st, v.at(p, RB, m)) for m in ('m_y', 'm_width', 'm_angle')]
def posevals(v, st, p): return [v.rd(st, padd(p, 32 * c + 8 * r)) for c in range(4) for r in range(3)]
OUTC = ['point0', 'point1', 'point2', 'normal0', 'normal1', 'normal2', 'friction', 'depth', 'area', 'volume']
def outcells(v, p): return [padd(v.at(p, O, 'point'), 8 + 8 * k) for k in range(3)] + [padd(v.at(p, O, 'normal'), 8 * k) for k in range(3)] + [v.at(p, O, m) for m in SCAL]
def okm(mt): return or_(mk('streq', (mt, GEOM), 'B'), mk('streq', (mt, SAMP), 'B'))
def contracts(v, local=None):
    """mesh::intersection and rib::envelop through their contracts"""
    info = {'inter': []}
    def evl(kind):
        def c(ex, st, a):
            ins = ribvals(v, st, a[0])
            if kind == 'none': ins += posevals(v, st, a[1]); o = a[2]; mt = None
            else:
                ins += [ex.load(st, a[1], 'q')] if kind == 'mesh' else entity(v, st, a[1], PL) + [v.rd(st, v.at(a[1], 'enve::ground::flat', 'm_friction'))]
                ins += posevals(v, st, a[2]); mt = ex.load(st, a[3], 'str'); ins.append(mt); o = a[4]
                ex.throws.append((and_(st.pc, not_(okm(mt))), 'unknown method')); st.pc = and_(st.pc, okm(mt))
            for cell, k in zip(outcells(v, o), OUTC): ex.store(st, cell, 'double', uf('envelop_' + kind, k, ins))
            return FALSE if kind == 'none' else uf('envelop_' + kind, 'hit', ins, 'B')
        return c
    v.contract('enve::rib::envelop({TGV} const&, {AFF} const&, {STR}', evl('mesh'))
    v.contract('enve::rib::envelop({flat} const&, {AFF} const&, {STR}', evl('flat'))
    v.contract('enve::rib::envelop({AFF} const&, {out}&)', evl('none'))
    if local is not None:
        def inter(ex, st, a):
            b = ex.load(st, a[1], 'ptr')
            info['inter'].append((st.pc, v.rp(st, v.at(b, 'acme::aabb', 'm_min')), v.rp(st, v.at(b, 'acme::aabb', 'm_max')), ex.load(st, a[2], 'q'), a[0]))
            ex.store(st, a[2], 'q', local); return lt(I(0), qlen(local))
        v.contract('enve::ground::mesh::intersection({BOXP}, {TGV}&) const', inter)
    return info
class Set: pass
def setup(v, kind):
    s = shell(v); s.posep = v.sym('pose'); s.m = v.sym('method'); s.mt = v.pre(s.m, 'str'); s.Ap, s.Tp = v.affine(s.posep)
    s.Rmax = v.pre(v.at(s.shapep, 'enve::shape', 'm_r_x')); v.assume.append(le(0, s.Rmax))
    s.g = v.sym('ground', 'enve::ground::flat' if kind == 'flat' else None)
    if kind == 'mesh': s.lp = v.sym('local'); s.local = v.pre(s.lp, 'q'); s.N = qlen(s.local)
    s.info = contracts(v, s.local if kind == 'mesh' else None)
    s.r = v.run('enve::shell::setup(%s const&, {AFF} const&, {STR}' % ('enve::ground::flat' if kind == 'flat' else 'enve::ground::mesh'), [s.p, s.g, s.posep, s.m])
    return s
def common(v, s):
    r = s.r; v.frame(r, [s.p, s.bboxp])
    for k in range(16): v.ensure('pose entry %d adopted' % k, eq(r.get(padd(s.affp, 8 * k)), v.pre(padd(s.posep, 8 * k))), [r.pc])
    lo, hi = r.pt(v.at(s.bboxp, 'acme::aabb', 'm_min')), r.pt(v.at(s.bboxp, 'acme::aabb', 'm_max')); e = Vec(s.Rmax, s.Rmax, s.Rmax)
    v.veq('bounding cube recentred, minimum', lo, s.Tp - e, [r.pc]); v.veq('bounding cube recentred, maximum', hi, s.Tp + e, [r.pc])
    v.seq('ribs unchanged', r.get(s.ribsp, 'q'), s.ribs, [r.pc])
    v.ensure('one result per rib', eq(qlen(r.get(s.outp, 'q')), s.n), [r.pc])
def slots(v, s, want, hyps, name):
    i = s.i; Qo = s.r.get(s.outp, 'q'); base = {'point': 8, 'normal': 0}
    got = list(ocell(v, Qo, i, 'point')) + list(ocell(v, Qo, i, 'normal')) + [ocell(v, Qo, i, m) for m in SCAL]
    for k, g, w in zip(OUTC, got, want): v.ensure('%s: %s' % (name, k), eq(g, w), hyps + [s.r.pc, le(0, i), lt(i, s.n)])
@spec('P06', 'shell::setup on flat ground')
def _(v):
    s = setup(v, 'flat'); r = s.r; common(v, s); v.safe(r); s.i = var('i', 'I')
    v.throws(r, not_(okm(s.mt)), text='the method is unknown')
    ins = lambda i: ribargs(v, s.ribs, i) + entity(v, State(), s.g, PL) + [v.pre(v.at(s.g, 'enve::ground::flat', 'm_friction'))] + posevals(v, State(), s.posep) + [s.mt]
    slots(v, s, [uf('envelop_flat', k, ins(s.i)) for k in OUTC], [], 'slot i holds the evaluation of rib i on the flat ground')
    k = fresh('k', 'I')
    v.ensure('true exactly when a rib reports contact', iff(r.ret, Exists(s.n, k, uf('envelop_flat', 'hit', ins(k), 'B'))), [r.pc])
@spec('P06', 'shell::setup on a mesh: no triangle near the shell')
def _(v):
    s = setup(v, 'mesh'); r = s.r; s.i = var('i', 'I'); emp = eq(s.N, I(0)); v.assume.append(emp)
    v.nothrow(r); v.safe(r); common(v, s)
    ins = ribargs(v, s.ribs, s.i) + posevals(v, State(), s.posep)
    slots(v, s, [uf('envelop_none', k, ins) for k in OUTC], [], 'slot i holds the no-contact result of rib i')
    v.ensure('returns false', not_(r.ret), [r.pc])
def query(v, s):
    v.fact('the local ground is queried', len(s.info['inter']) >= 1)
    e = Vec(s.Rmax, s.Rmax, s.Rmax)
    for pc, lo, hi, q, g in s.info['inter']:
        v.veq('query box minimum is the recentred cube', lo, s.Tp - e, [pc]); v.veq('query box maximum is the recentred cube', hi, s.Tp + e, [pc])
        v.ensure('the list given to the query is empty', eq(qlen(q), I(0)), [pc]); v.fact('the queried mesh is the given ground', g is s.g)
@spec('P06', 'shell::setup on a mesh')
def _(v):
    s = setup(v, 'mesh'); r = s.r; s.i = var('i', 'I'); v.assume.append(lt(0, s.N)); query(v, s)
    v.safe(r); common(v, s); v.throws(r, not_(okm(s.mt)), text='the method is unknown')
    Qc = r.get(s.candp, 'q')
    ins = lambda i: ribargs(v, s.ribs, i) + [sel(Qc, i, 0, 'q')] + posevals(v, State(), s.posep) + [s.mt]
    slots(v, s, [uf('envelop_mesh', k, ins(s.i)) for k in OUTC], [], 'slot i holds the evaluation of rib i against its own candidates')
    k = fresh('k', 'I')
    v.ensure('true exactly when a rib reports contact', iff(r.ret, Exists(s.n, k, uf('envelop_mesh', 'hit', ins(k), 'B'))), [r.pc])
include('P06', 'P01', 'aabb::intersects', 'AABBtree::intersection', 'mesh::intersection')
include('P06', 'P05', 'rib::envelop without ground')
