from spec import *
from geom import uf
BX, TR, MS, TG = 'acme::aabb', 'acme::AABBtree', 'enve::ground::mesh', 'enve::triangleground'
PAIRV = vecsig('std::pair<%s, %s>' % (BOXP, BOXP))
ASSUME = ['weights over the leaves of a box tree are defined by structural recursion (the leaf boxes weighted by an arbitrary function, summed over the children); box trees are finite',
          'boxes handed to a tree are well formed (minimum not above maximum), as every box built from vertices is']
class Box:
    """the bounds of a box"""
    def __init__(s, lo, hi): s.lo, s.hi = lo, hi
    def overlap(a, b): return and_(*[and_(le(x, Y), le(y, X)) for x, X, y, Y in zip(a.lo, a.hi, b.lo, b.hi)])
    def inside(a, b): return and_(*[and_(le(y, x), le(X, Y)) for x, X, y, Y in zip(a.lo, a.hi, b.lo, b.hi)])
    def valid(a): return and_(*[le(x, X) for x, X in zip(a.lo, a.hi)])
    def eq(a, b): return and_(a.lo.eq(b.lo), a.hi.eq(b.hi))
def box(v, p, st=None):
    st = st or State()
    return Box(v.rp(st, v.at(p, BX, 'm_min')), v.rp(st, v.at(p, BX, 'm_max')))
def elem(v, q, i): return sel(q, i, 0, 'ptr')
def putbox(v, st, p, b, id_, pos):
    for m, x in (('m_min', b.lo), ('m_max', b.hi)):
        for k in range(3): v.ex.store(st, padd(v.at(p, BX, m), 8 + 8 * k), 'double', x[k])
    v.ex.store(st, v.at(p, BX, 'm_id'), 'i32', id_); v.ex.store(st, v.at(p, BX, 'm_pos'), 'i32', pos)
SIGHULL = 'acme::aabb::aabb({BOXV} const&, int, int)'
SIGBUILD = 'acme::AABBtree::build({BOXV} const&)'

@spec('P01', 'aabb::intersects')
def _(v):
    a, b = v.sym('self', BX), v.sym('other', BX)
    r = v.run('acme::aabb::intersects(acme::aabb const&) const', [a, b])
    v.safe(r); v.nothrow(r); v.frame(r)
    v.ensure('true exactly when the boxes overlap or touch', iff(r.ret, box(v, a).overlap(box(v, b))), [r.pc])

def folds(v, ts):
    out = []
    def go(t):
        for F in v.folds(t):
            if F not in out: out.append(F)
    for t in ts: go(t)
    return out
def invariants(v, name, F, cands):
    """the first of the candidate invariants that holds (kept as obligations)"""
    for inv, inst in cands:
        n = len(v.obl); f = v.induct(name, F, inv, inst)
        if f is not TRUE: return f
        del v.obl[n:]
    v.obl.append((name + ': no invariant of the expected form', 'undecided', 'z3', 0.0, show(F, 8)[:1500])); return TRUE
@spec('P01', 'aabb(boxes): the hull of the boxes')
def _(v):
    p = v.sym('self'); bp = v.sym('boxes'); q = v.pre(bp, 'q'); n = qlen(q); v.assume += [le(1, n)]
    r = v.run(SIGHULL, [p, bp, var('id', 'I'), var('pos', 'I')], hyps=[le(1, n)])
    el = lambda i: box(v, elem(v, q, i))
    j = var('j', 'I'); B = Box(Vec(*[var('Blo%d' % i) for i in range(3)]), Vec(*[var('Bhi%d' % i) for i in range(3)]))
    v.assume += [implies(and_(le(0, j), lt(j, n)), el(j).valid()), el(I(0)).valid()]
    out = box(v, p, r.st); lem = []
    tgt = [((lambda c, lo: lambda i: (el(i).lo if lo else el(i).hi)[c])(c, lo), lo, (B.lo if lo else B.hi)[c], c) for c in range(3) for lo in (True, False)]
    for F in folds(v, list(out.lo) + list(out.hi)):
        m = F.args[1]; t0 = [t for t in tgt if F.args[2][m] is t[0](I(0))] or tgt
        bnd = lambda lo, a, b: le(a, b) if lo else le(b, a)
        for i, nm in ((j, 'bounds every box'), (I(0), 'bounds the first box')):
            lem.append(invariants(v, 'running bound %s' % nm, F, [((lambda x, lo: lambda a, k, d: implies(and_(le(0, i), lt(i, add(k, I(d)))), bnd(lo, a[m], x(i))))(x, lo), lambda k: []) for x, lo, bd, c in t0]))
        lem.append(invariants(v, 'running bound within any box containing all', F, [((lambda lo, bd: lambda a, k, d: bnd(lo, bd, a[m]))(lo, bd), (lambda x, lo, bd: lambda k: [bnd(lo, bd, x(I(0) if k is None else k))])(x, lo, bd)) for x, lo, bd, c in t0]))
    v.safe(r); v.nothrow(r); v.frame(r, [p])
    v.ensure('contains every box of the list', implies(and_(le(0, j), lt(j, n)), el(j).inside(out)), lem + [r.pc])
    v.ensure('contained in every box that contains them all', out.inside(B), lem + [r.pc, el(I(0)).inside(B)])
    v.ensure('identifier and position stored', and_(eq(r.get(v.at(p, BX, 'm_id'), 'i32'), var('id', 'I')), eq(r.get(v.at(p, BX, 'm_pos'), 'i32'), var('pos', 'I'))), [r.pc])

def seqsum(v, q, w):
    """sum of w(element) over a sequence; w takes an accessor of the element's cells"""
    o = q.op
    if o == 'qempty': return I(0)
    if o == 'qapp1': return add(seqsum(v, q.args[0], w), w(lambda off, ty: recget(q.args[1], off, ty)))
    if o == 'qcat': return add(seqsum(v, q.args[0], w), seqsum(v, q.args[1], w))
    if o == 'ite': return ite(q.args[0], seqsum(v, q.args[1], w), seqsum(v, q.args[2], w))
    if o == 'qfilter':
        k = fresh('k', 'I'); g = lambda x: map_t(x, {bv(q.args[-1], 'I'): k})
        return Sum(q.args[0], k, ite(g(q.args[1]), w(lambda off, ty: recget(g(q.args[2]), off, ty)), I(0)))
    if o in ('qtake', 'qdrop'):      # a prefix and the rest of one sequence: the prefix sum is left abstract
        a = uf('prefixsum', 0, [norm_id(q.args[0]), q.args[1]], 'I')
        return a if o == 'qtake' else sub(seqsum(v, q.args[0], w), a)
    k = fresh('k', 'I'); return Sum(qlen(q), k, w(lambda off, ty: sel(q, k, off, ty)))
def norm_id(q): return mk('uf', ('seq', q), 'I')
def seqall(v, q, p):
    """a condition implying that p holds of every element of a sequence; also the side conditions of cutting it"""
    o = q.op
    if o == 'qempty': return TRUE
    if o == 'qapp1': return and_(seqall(v, q.args[0], p), p(lambda off, ty: recget(q.args[1], off, ty)))
    if o == 'qcat': return and_(seqall(v, q.args[0], p), seqall(v, q.args[1], p))
    if o == 'ite': return ite(q.args[0], seqall(v, q.args[1], p), seqall(v, q.args[2], p))
    if o == 'qfilter':
        k = fresh('k', 'I'); g = lambda x: map_t(x, {bv(q.args[-1], 'I'): k})
        return implies(and_(le(0, k), lt(k, q.args[0]), g(q.args[1])), p(lambda off, ty: recget(g(q.args[2]), off, ty)))
    if o in ('qtake', 'qdrop'): return and_(le(0, q.args[1]), le(q.args[1], qlen(q.args[0])), seqall(v, q.args[0], p))
    k = fresh('k', 'I'); return implies(and_(le(0, k), lt(k, qlen(q))), p(lambda off, ty: sel(q, k, off, ty)))
def complements(v, ts, n):
    """lemma: two complementary filters of one list select as many elements as the list has"""
    from terms import walk_args
    ss, seen, out = [], set(), []
    def go(x):
        if x in seen: return
        seen.add(x)
        if x.op == 'Sum' and x.args[0] is n: ss.append(x)
        for y in walk_args(x.args): go(y)
    for t in ts: go(t)
    k = fresh('k', 'I'); body = lambda S: map_t(S.args[1], {bv(S.args[-1], 'I'): k})
    for i, a in enumerate(ss):
        for b in ss[i + 1:]:
            if a.sort == b.sort == 'I' and prove([], eq(add(body(a), body(b)), I(1)), 1000, 5).ok:
                f = eq(add(a, b), n); v.ensure('complementary selections partition the list', f); out.append(f)
    return out
GH = 4096       # ghost cell of a tree: the sum of the weights of its leaves
def inst(h, ts, q):
    """instances of a fact about the elements of q at every index occurring in the terms"""
    out, seen = [], set()
    def go(x):
        if x in seen: return
        seen.add(x)
        if x.op == 'sel' and x.args[0] is q and not any(y.op in ('bv', 'av') for y in [x.args[1]]): out.append(h(x.args[1]))
        for y in walk_args_(x.args): go(y)
    for t in ts: go(t)
    return out
def walk_args_(a):
    from terms import walk_args
    return walk_args(a)
@spec('P01', 'AABBtree::build: the leaves are the given boxes', limit=400)
def _(v):
    p = v.sym('self', TR); bp = v.sym('boxes'); q = v.pre(bp, 'q'); n = qlen(q); v.assume += [le(1, n)]
    wt = lambda acc: uf('weight', 0, [acc(0, 'ptr')], 'I')
    H = []; req = []
    def hull(ex, st, a):       # contract of aabb(boxes, id, pos)
        qq = v.rd(st, a[1], 'q'); B = Box(Vec(*[fresh('hlo', 'R') for _ in range(3)]), Vec(*[fresh('hhi', 'R') for _ in range(3)]))
        ex.obls.append((st.pc, le(1, qlen(qq)), 'hull of at least one box'))
        putbox(v, st, a[0], B, a[2], a[3]); H.append((qq, B)); return None
    def build(ex, st, a):      # contract of the recursive call
        qq = v.rd(st, a[1], 'q'); c = dict(q=qq, tree=a[0], pc=st.pc)
        req.append(c)
        ref = mk('var', ('childbox%d' % len(req),), 'F'); c['box'] = box(v, wrap_ptr(ref))
        ne = lt(0, qlen(qq))
        v.ex.store(st, v.at(a[0], TR, 'm_ptrbox'), 'ptr', ite(ne, wrap_ptr(ref), NULL))
        v.ex.store(st, v.at(a[0], TR, 'm_children'), 'q', ite(ne, mk('qvar', ('children%d' % len(req),), 'Q'), QEMPTY))
        v.ex.store(st, padd(a[0], GH), 'i64', seqsum(v, qq, wt)); return None
    v.contract(SIGHULL, hull); v.contract(SIGBUILD, build)
    r = v.run(SIGBUILD, [p, bp], hyps=[le(1, n)])
    el = lambda i: box(v, elem(v, q, i)); rng = lambda i: and_(le(0, i), lt(i, n))
    B = Box(Vec(*[var('Blo%d' % i) for i in range(3)]), Vec(*[var('Bhi%d' % i) for i in range(3)]))
    v.safe(r); v.nothrow(r); v.frame(r, [p])
    for k, (qq, hb) in enumerate(H): v.fact('the hull is taken over the given boxes #%d' % (k + 1), qq is q)
    own = r.get(v.at(p, TR, 'm_ptrbox'), 'ptr'); kids = r.get(v.at(p, TR, 'm_children'), 'q'); ob = box(v, own, r.st)
    v.ensure('the tree has a box', not_(peq(own, NULL)), [r.pc])
    member = lambda i: [implies(rng(i), el(i).inside(hb)) for _, hb in H] + [implies(rng(i), el(i).inside(B))]     # contract of the hull; B contains the given boxes
    facts = [hb.inside(B) for _, hb in H] + member(I(0))
    inside = lambda X: (lambda acc: box(v, acc(0, 'ptr')).inside(X))
    lem = []; cnt = complements(v, [qlen(c['q']) for c in req], n)
    for k, c in enumerate(req):
        m = 'recursive call %d' % (k + 1)
        v.ensure('%s: on fewer boxes than given, at least one' % m, and_(le(1, qlen(c['q'])), lt(qlen(c['q']), n)), [c['pc']] + cnt, budget=120)
        for _, hb in H:
            g = seqall(v, c['q'], inside(hb))
            v.ensure('%s: on boxes of the given list, cut within bounds' % m, g, [c['pc']] + inst(lambda i: and_(*member(i)), [g], q), budget=120)
            lem.append(implies(c['pc'], c['box'].inside(hb)))      # contract of build: inside every box containing its boxes
    w0 = lambda i: wt(lambda off, ty: sel(q, i, off, ty)); k = fresh('k', 'I')
    tot = ite(eq(n, I(1)), w0(I(0)), Sum(n, k, w0(k)))
    kid = seqsum(v, kids, lambda acc: v.rd(r.st, padd(acc(0, 'ptr'), GH), 'i64'))
    v.ensure('every given box is a leaf exactly once', eq(ite(eq(qlen(kids), I(0)), uf('weight', 0, [own], 'I'), kid), tot), [r.pc] + cnt, budget=120)
    v.ensure('contained in every box that contains the given boxes', ob.inside(B), [r.pc] + facts)
    kbox = lambda acc: v.rd(r.st, v.at(acc(0, 'ptr'), TR, 'm_ptrbox'), 'ptr')
    v.ensure('every child has a box, contained in the box of the tree', seqall(v, kids, lambda acc: and_(not_(peq(kbox(acc), NULL)), box(v, kbox(acc), r.st).inside(ob))), [r.pc] + lem, budget=120)

@spec('P01', 'AABBtree::build: no boxes give the empty tree')
def _(v):
    p = v.sym('self', TR); bp = v.sym('boxes'); q = v.pre(bp, 'q'); v.assume += [eq(qlen(q), 0)]
    v.contract(SIGHULL, lambda ex, st, a: ex.obls.append((st.pc, FALSE, 'no hull of no boxes'))); v.contract(SIGBUILD, lambda ex, st, a: ex.obls.append((st.pc, FALSE, 'no recursion')))
    r = v.run(SIGBUILD, [p, bp], hyps=[eq(qlen(q), 0)]); v.safe(r); v.nothrow(r); v.frame(r, [p])
    v.ensure('the tree is empty', and_(peq(r.get(v.at(p, TR, 'm_ptrbox'), 'ptr'), NULL), eq(qlen(r.get(v.at(p, TR, 'm_children'), 'q')), 0)), [r.pc])

SIGINT = 'acme::AABBtree::intersection(acme::AABBtree const&'
def W(a, b, swap):
    """weight of all pairs (leaf of a, leaf of b) whose boxes overlap, the pairs ordered (b, a) when swapped"""
    return ite(swap, uf('pairs', 0, [b, a], 'I'), uf('pairs', 0, [a, b], 'I'))
def pairw(x, y): return uf('pairweight', 0, [x, y], 'I')
@spec('P01', 'AABBtree::intersection: the pairs of overlapping leaves', limit=400)
def _(v):
    t, s_ = v.sym('self', TR), v.sym('tree', TR); lp = v.sym('list'); sw = var('swap', 'B'); sig = v.ir.fns[v.ir.find(S(SIGINT))]['sig']
    def tree(p): return v.pre(v.at(p, TR, 'm_ptrbox'), 'ptr'), v.pre(v.at(p, TR, 'm_children'), 'q')
    (tb, tq), (sb, sq_) = tree(t), tree(s_); tn, sn = qlen(tq), qlen(sq_); TB, SB = box(v, tb), box(v, sb)
    def rec_(ex, st, a):      # contract of the recursive call: the children are well formed trees with a box
        ex.obls.append((st.pc, B(a[2] is lp), 'the recursive call extends the same list'))
        ex.obls.append((st.pc, B(part(a[0]) and part(a[1]) and not (a[0] in (t, s_) and a[1] in (t, s_))), 'recursion on a child of one of the trees'))
        sw_ = a[3] if a[3].sort == 'B' else not_(eq(a[3], 0))
        ex.store(st, padd(a[2], GH), 'i64', add(v.rd(st, padd(a[2], GH), 'i64'), W(a[0], a[1], sw_))); return None
    part = lambda x: x in (t, s_) or (x.op == 'ptr' and x.args[0].op == 'sel' and x.args[0].args[0] in (tq, sq_))
    v.contract(sig, rec_); st = State(); v.ex.store(st, padd(lp, GH), 'i64', I(0)); q0 = v.pre(lp, 'q')
    none = [var('selfempty', 'B'), var('treeempty', 'B')]      # a tree may be empty: it has no box, and then no children
    for p, b, e, n in ((t, tb, none[0], tn), (s_, sb, none[1], sn)):
        v.ex.store(st, v.at(p, TR, 'm_ptrbox'), 'ptr', ite(e, NULL, b)); v.assume += [implies(e, eq(n, 0))]
    some = and_(not_(none[0]), not_(none[1])); start = {(rid, o): x[1] for rid, c in st.mem.items() for o, x in c.items()}
    r = v.run(sig, [t, s_, lp, sw], st)
    v.safe(r); v.nothrow(r); v.frame(r, [lp], start)
    kid = lambda q, i: sel(q, i, 0, 'ptr')
    # unfolding of the weight of all pairs, and the lemma that trees with separate boxes have no pairs
    i, j = fresh('i', 'I'), fresh('j', 'I'); leafT, leafS = eq(tn, 0), eq(sn, 0)
    pw = ite(sw, pairw(sb, tb), pairw(tb, sb)); ov = TB.overlap(SB)
    unfold = ite(leafT, ite(leafS, ite(ov, pw, I(0)), Sum(sn, j, W(t, kid(sq_, j), sw))),
                        ite(leafS, Sum(tn, i, W(kid(tq, i), s_, sw)), Sum(tn, i, Sum(sn, j, W(kid(tq, i), kid(sq_, j), sw)))))
    X, Y, C, D = [Box(Vec(*[var('%slo%d' % (m, k)) for k in range(3)]), Vec(*[var('%shi%d' % (m, k)) for k in range(3)])) for m in 'XYCD']
    v.ensure('lemma: separate boxes contain no overlapping boxes', implies(and_(C.inside(X), D.inside(Y), C.overlap(D)), X.overlap(Y)))
    v.ensure('lemma: overlap is symmetric', iff(X.overlap(Y), Y.overlap(X)))
    new = add(v.rd(r.st, padd(lp, GH), 'i64'), grown(v, r.get(lp, 'q'), q0))
    goal = ite(and_(some, ov), unfold, I(0))
    both = Sum(tn, i, Sum(sn, j, W(kid(tq, i), kid(sq_, j), sw)))
    alt = [implies(and_(some, not_(leafT), not_(leafS)), and_(eq(both, Sum(tn, i, W(kid(tq, i), s_, sw))), eq(both, Sum(sn, j, W(t, kid(sq_, j), sw)))))]
    v.ensure('the list grows by exactly the pairs of overlapping leaves', eq(new, goal), [r.pc] + alt, budget=120, depth=20)
def grown(v, q, q0):
    """weight of the pairs a sequence has gained"""
    if q is q0: return I(0)
    if q.op == 'ite': return ite(q.args[0], grown(v, q.args[1], q0), grown(v, q.args[2], q0))
    if q.op == 'qapp1': return add(grown(v, q.args[0], q0), pairw(recget(q.args[1], 0, 'ptr'), recget(q.args[1], 16, 'ptr')))
    raise GiveUp('pair list')

def intersect_contract(v, tree, log):
    """contract of the query of the tree of a mesh with a tree of one box: the list receives pairs (leaf, query box); for
    every weight of the pairs its sum over the list is the sum over the boxes the tree was built from that overlap the query"""
    def c(ex, st, a):
        ex.obls.append((st.pc, B((a[0] is tree) != (a[1] is tree)), 'query of the tree of the mesh'))
        o = a[1] if a[0] is tree else a[0]
        qb = v.rd(st, v.at(o, TR, 'm_ptrbox'), 'ptr'); kids = v.rd(st, v.at(o, TR, 'm_children'), 'q')
        ex.obls.append((st.pc, and_(not_(peq(qb, NULL)), eq(qlen(kids), 0)), 'the query tree is one box'))
        ex.obls.append((st.pc, eq(qlen(v.rd(st, a[2], 'q')), 0), 'the pair list is empty'))
        sw = a[3] if a[3].sort == 'B' else not_(eq(a[3], 0))
        if sw not in (TRUE, FALSE): raise GiveUp('order of the pairs')
        first = (a[0] is tree) == (sw is FALSE)
        L = mk('qvar', ('pairs%d' % len(log),), 'Q'); ex.store(st, a[2], 'q', L); log.append((L, 0 if first else 16, qb)); return None
    v.contract(v.ir.fns[v.ir.find(S(SIGINT))]['sig'], c)
def tribox(v, ts, i): return box(v, v.at(sel(ts, i, 0, 'ptr'), TG, 'm_bbox'))
def bid(v, p, st=None): return v.rd(st or State(), v.at(p, BX, 'm_id'), 'i32')
def one(c): return ite(c, I(1), I(0))
@spec('P01', 'mesh::intersection: exactly the overlapping triangles, once each', limit=300)
def _(v):
    p = v.sym('self', MS); bp = v.sym('box'); op = v.sym('out'); ts = v.pre(v.at(p, MS, 'm_triangles'), 'q'); bs = v.pre(v.at(p, MS, 'm_bboxes'), 'q'); n = qlen(ts)
    tree = v.pre(v.at(p, MS, 'm_AABBtree'), 'ptr'); qb = v.pre(bp, 'ptr'); v.assume += [eq(qlen(bs), n)]; log = []
    intersect_contract(v, tree, log)
    r = v.run('enve::ground::mesh::intersection(', [p, bp, op])
    v.fact('the tree is queried once', len(log) == 1)
    L, off, q = log[0]; out = r.get(op, 'q'); Q = box(v, qb); rng = lambda i: and_(le(0, i), lt(i, n))
    v.fact('with the given box', q is qb)
    bx = lambda i: sel(bs, i, 0, 'ptr'); hit = lambda i: tribox(v, ts, i).overlap(Q); pid = lambda k: bid(v, sel(L, k, off, 'ptr'))
    inv = lambda i: [implies(rng(i), and_(box(v, bx(i)).eq(tribox(v, ts, i)), eq(bid(v, bx(i)), i)))]      # invariant of the mesh (established below)
    member = lambda k: implies(and_(le(0, k), lt(k, qlen(L))), rng(pid(k)))                                  # every leaf is a box of the mesh
    k, i, j = fresh('k', 'I'), fresh('i', 'I'), var('j', 'I')
    v.safe(r, inst(member, [x for pc, c, _ in r.obls for x in (pc, c)], L)); v.nothrow(r); v.frame(r, [op])
    v.seq('the result lists the triangles named by the leaves found', out, qfilter(qlen(L), k, TRUE, rec({0: ('ptr', sel(ts, pid(k), 0, 'ptr')), 8: ('ptr', sel(ts, pid(k), 8, 'ptr'))})), [r.pc])
    # contract of the query, weight 1 for the pairs of the box with identifier j
    v.ensure('weight of box i', eq(one(and_(box(v, bx(i)).overlap(Q), eq(bid(v, bx(i)), j))), ite(eq(i, j), one(hit(i)), I(0))), inv(i) + [rng(i)])
    m = var('m', 'I')
    v.ensure('lemma: a sum with one non-zero term (induction)', and_(eq(ite(and_(le(0, j), lt(j, I(0))), one(hit(j)), I(0)), 0),
        eq(ite(and_(le(0, j), lt(j, m)), one(hit(j)), I(0)) + ite(eq(m, j), one(hit(m)), I(0)), ite(and_(le(0, j), lt(j, m + 1)), one(hit(j)), I(0)))), [le(0, m)])
    found = Sum(qlen(L), k, one(eq(pid(k), j)))
    v.ensure('triangle j is returned once when its box overlaps the query, and not otherwise', eq(found, one(hit(j))), [rng(j), eq(found, ite(rng(j), one(hit(j)), I(0)))])
    # weight 1 for every pair
    v.ensure('overlap of box i', iff(box(v, bx(i)).overlap(Q), hit(i)), inv(i) + [rng(i)])
    v.ensure('as many results as overlapping boxes; true exactly when there is one', and_(eq(qlen(out), Sum(n, i, one(hit(i)))), iff(r.ret, Exists(n, i, hit(i)))), [r.pc, eq(qlen(L), Sum(n, i, one(hit(i))))])

def mesh_invariant(v, p, st, ts, built):
    """the invariant of a mesh: box i has the bounds of triangle i and identifier i, and the tree was built from the boxes"""
    bs = v.rd(st, v.at(p, MS, 'm_bboxes'), 'q'); n = qlen(ts); i = var('i', 'I'); rng = and_(le(0, i), lt(i, n))
    bp = sel(bs, i, 0, 'ptr'); q, t = built[-1] if built else (None, None)
    same = seq_same(v.rd(st, v.at(p, MS, 'm_triangles'), 'q'), ts)
    return [('the triangles are kept, in order', same),
            ('one box per triangle', eq(qlen(bs), n)),
            ('box i has the bounds of triangle i', implies(rng, box(v, bp, st).eq(tribox(v, ts, i)))),
            ('box i has identifier i', implies(rng, eq(bid(v, bp, st), i))),
            ('the tree of the mesh was built from these boxes', and_(B(len(built) >= 1 and q is bs), peq(t, v.rd(st, v.at(p, MS, 'm_AABBtree'), 'ptr')) if built else FALSE))]
def seq_same(a, b):
    if a is b: return TRUE
    i = var('i', 'I')
    return and_(eq(qlen(a), qlen(b)), implies(and_(le(0, i), lt(i, qlen(b))), peq(sel(a, i, 0, 'ptr'), sel(b, i, 0, 'ptr'))))
def build_contract(v):
    built = []
    def c(ex, st, a): built.append((v.rd(st, a[1], 'q'), a[0])); return None
    v.contract(SIGBUILD, c); return built
@spec('P01', 'mesh(triangles): establishes the invariant')
def _(v):
    p = v.sym('self'); tp = v.sym('triangles'); ts = v.pre(tp, 'q'); built = build_contract(v)
    r = v.run('enve::ground::mesh::mesh({TGV} const&)', [p, tp])
    v.safe(r); v.nothrow(r); v.frame(r, [p])
    for t, g in mesh_invariant(v, p, r.st, ts, built): v.ensure(t, g, [r.pc])
@spec('P01', 'mesh::copy: establishes the invariant')
def _(v):
    p = v.sym('self', MS); o = v.sym('other', MS); ts = v.pre(v.at(o, MS, 'm_triangles'), 'q'); built = build_contract(v)
    r = v.run('enve::ground::mesh::copy(', [p, o])
    v.safe(r); v.nothrow(r); v.frame(r, [p])
    for t, g in mesh_invariant(v, p, r.st, ts, built): v.ensure(t, g, [r.pc])
@spec('P01', 'mesh::clear: leaves the empty mesh')
def _(v):
    p = v.sym('self', MS); tree = v.pre(v.at(p, MS, 'm_AABBtree'), 'ptr'); ts = v.pre(v.at(p, MS, 'm_triangles'), 'q')
    r = v.run('enve::ground::mesh::clear(', [p])
    v.safe(r); v.nothrow(r); v.frame(r, [p, tree])
    for m in ('m_triangles', 'm_bboxes'): v.ensure('%s is empty' % m, eq(qlen(r.get(v.at(p, MS, m), 'q')), 0), [r.pc])
    t = r.get(v.at(p, MS, 'm_AABBtree'), 'ptr')
    v.ensure('the tree is empty', and_(peq(r.get(v.at(t, TR, 'm_ptrbox'), 'ptr'), NULL), eq(qlen(r.get(v.at(t, TR, 'm_children'), 'q')), 0)), [r.pc])
include('P01', 'P02', 'triangleground(')
include('P01', 'P23', 'aabb::clamp', 'aabb constructors', 'aabb::updateMaxMin')
