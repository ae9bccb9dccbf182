from spec import *
from geom import *
from prove import replace
RB = 'enve::rib'; TG = 'enve::triangleground'
ASSUME = ['Intersection(line, triangle) and Intersection(line, plane) are used through their contracts (proved by P17), modelled here as functions of the defining numbers of the two entities and the tolerance']
def tri_of(v, Q, i):
    """defining numbers and friction of ground triangle i"""
    ref = sel(Q, i, 0, 'ref'); o = v.off(TRI, 'm_vertex')
    vs = [fld(ref, o + 32 * k + 8 + 8 * j, 'double') for k in range(3) for j in range(3)]
    return vs, fld(ref, v.off(TG, 'm_friction'), 'double')
def leaves(t, out=None):
    """index terms of the elements a value is read from"""
    out = set() if out is None else out
    if t.op == 'ite': leaves(t.args[1], out); leaves(t.args[2], out)
    elif t.op == 'sel': out.add(t.args[1])
    else:
        for x in walk_args(t.args): leaves(x, out)
    return out
from terms import walk_args
def source(t, Q):
    """the element index a value was read from, as a term following the same cases"""
    if t.op == 'ite':
        a, b = source(t.args[1], Q), source(t.args[2], Q)
        return a if b is None else b if a is None else ite(t.args[0], a, b)
    if t.op == 'fld' and t.args[0].op == 'sel' and t.args[0].args[0] is Q: return t.args[0].args[1]
    return None
@spec('P10', 'rib::samplingLine over a mesh')
def _(v):
    LineTri.assume(v); LinePlane.assume(v)
    rb = v.sym('rib', RB); g = v.sym('ground'); l = v.sym('line', LN); cp = v.sym('cp', PT); cf = v.sym('cf')
    r = v.run('enve::rib::samplingLine({TGV} const&', [rb, g, l, cp, cf])
    Q = v.pre(g, 'q'); n = qlen(Q); L = entity(v, State(), l, LN)
    ins = lambda i: L + tri_of(v, Q, i)[0] + [EPS]
    hit = lambda i: LineTri.hit(ins(i)); out = lambda i: Vec(*LineTri.out(ins(i)))
    v.safe(r); v.frame(r, [cp, cf]); v.nothrow(r)
    k = fresh('k', 'I'); E = Exists(n, k, hit(k))
    v.ensure('succeeds exactly when the line meets at least one triangle', iff(r.ret, E), [r.pc])
    P_, F_ = r.pt(cp), r.get(cf)
    w = source(F_, Q)
    if w is None: raise GiveUp('friction is not read from a ground triangle')
    hy = [r.pc, r.ret, E]
    z = P_[2]; i = var('i', 'I')
    eqs = [v.foldlast(F) for F in v.folds(z)]
    eqs = [e for e in eqs if e is not None]
    v.ensure('reported triangle is one of the candidates', and_(le(0, w), lt(w, n)), hy)
    v.ensure('reported triangle is hit by the line', hit(w), hy)
    v.veq('contact point is the hit point of that triangle', P_, out(w), hy + eqs)
    v.ensure('friction is that of the very same triangle', eq(F_, tri_of(v, Q, w)[1]), hy)
    # greatest height
    rank = Sum(i, k, ite(hit(k), I(1), I(0))); tot = Sum(n, k, ite(hit(k), I(1), I(0)))
    lem = implies(and_(le(0, i), lt(i, n), hit(i)), and_(lt(rank, tot), le(0, rank), eq(FIdx(n, rank, k, hit(k)), i)))
    facts = []
    for F in v.folds(z):
        if F.sort == 'I':     # the index of the best hit so far
            zf = lambda ac: subst(replace(z, {F: bestv}), {bestv: ac[F.args[1]]}); bestv = fresh('best', 'I')
            facts.append(v.induct('greatest height over the hits', F, lambda ac, j, d: and_(le(0, ac[F.args[1]]), lt(ac[F.args[1]], add(j, I(d))), implies(and_(le(0, rank), lt(rank, add(j, I(d)))), le(out(FIdx(n, rank, k, hit(k)))[2], zf(ac)))), shifts=(1, 0), hyps=[E]))
            continue
        d0 = v.pos(F, Q)
        at = lambda q: out(FIdx(n, q, k, hit(k)))[2]
        if d0: facts.append(v.induct('greatest height over the hits', F, lambda ac, j, d: implies(and_(le(0, rank), lt(rank, add(j, I(d)))), le(at(rank), ac[F.args[1]]))))
        else:
            bs = [c for c, x in enumerate(F.args[2]) if x.sort == 'B']
            f = lambda ac, j, d: and_(implies(and_(le(0, i), lt(i, add(j, I(d))), hit(i)), and_(le(out(i)[2], ac[F.args[1]]), *[ac[c] for c in bs])), *[implies(not_(ac[c]), eq(ac[F.args[1]], F.args[2][F.args[1]])) for c in bs])
            facts.append(v.induct('greatest height over the triangles', F, f))
    v.ensure('no candidate is hit higher', le(out(i)[2], z), hy + facts + [le(0, i), lt(i, n), hit(i), lem])
@spec('P10', 'rib::samplingLine over flat ground')
def _(v):
    LineTri.assume(v); LinePlane.assume(v)
    FL = 'enve::ground::flat'
    rb = v.sym('rib', RB); g = v.sym('ground', FL); l = v.sym('line', LN); cp = v.sym('cp', PT); cf = v.sym('cf')
    r = v.run('enve::rib::samplingLine({flat} const&', [rb, g, l, cp, cf])
    ins = entity(v, State(), l, LN) + entity(v, State(), g, PL) + [EPS]
    v.safe(r); v.frame(r, [cp, cf]); v.nothrow(r)
    v.ensure('succeeds exactly when the line meets the plane', iff(r.ret, LinePlane.hit(ins)), [r.pc])
    v.veq('yields the crossing point', r.pt(cp), Vec(*LinePlane.out(ins)), [r.pc, r.ret])
    v.ensure('friction of the ground', eq(r.get(cf), v.pre(v.at(g, FL, 'm_friction'))), [r.pc, r.ret])
include('P10', 'P17', 'line and plane', 'line and triangle')
