from spec import *
from geom import *
from p18 import run
CO, EN = 'acme::collection', 'acme::entity'
ASSUME = ['the kind, degeneracy and bounds an entity in a collection reports are arbitrary functions of the entity (each class establishes them in P27); the bounds are ordered; entities of a collection are not null',
          'std::map built from a list of names and numbers answers each name with its number; the pairs intersected are of supported kinds',
          'std::remove_if keeps the elements that do not satisfy the predicate, in order, at the front of the range']
KINDS = ['None', 'Point', 'Line', 'Ray', 'Plane', 'Segment', 'Triangle', 'Disk', 'Ball', 'Clampable', 'NonClampable', 'Degenerated']
tol = var('tolerance')
def setup(v):
    p = v.sym('self', CO); q = v.pre(v.at(p, CO, 'm_entities'), 'q')
    v.ex.abstract = {EN: 'acme::point'}; v.ex.refclass.append((lambda b: True, EN))
    for k in KINDS:
        def c(ex, st, a, k=k): return uf('is%s' % k, 0, [a[0]] + list(a[1:]), 'B')
        v.ex.contracts['virtual acme::entity::is%s(%s) const' % (k, 'double' if k == 'Degenerated' else '')] = c
    return p, q
def elem(q, i): return rec({0: ('ptr', sel(q, i, 0, 'ptr')), 8: ('ptr', sel(q, i, 8, 'ptr'))})
def mkk(k):
    A = [tol] if k == 'Degenerated' else []; ty = 'double' if A else ''
    P = lambda q, i: uf('is%s' % k, 0, [sel(q, i, 0, 'ptr')] + A, 'B')
    @spec('P29', 'contain, are, is, count %s' % k)
    def _(v):
        p, q = setup(v); n = qlen(q); i = fresh('i', 'I'); j = var('j', 'I')
        r = run(v, '%s::contain%s(%s) const' % (CO, k, ty), [p] + A); v.ensure('contain%s: some entity is' % k, iff(r.ret, Exists(n, i, P(q, i))), [r.pc])
        r = run(v, '%s::are%s(%s) const' % (CO, k, ty), [p] + A); v.ensure('are%s: every entity is' % k, iff(r.ret, not_(Exists(n, i, not_(P(q, i))))), [r.pc])
        r = run(v, '%s::count%s(%s) const' % (CO, k, ty), [p] + A); v.ensure('count%s: how many are' % k, eq(r.ret, Sum(n, i, ite(P(q, i), I(1), I(0)))), [r.pc])
        v.assume += [le(I(0), j), lt(j, n)]
        r = run(v, '%s::is%s(int%s) const' % (CO, k, ', ' + ty if ty else ''), [p, j] + A); v.ensure('is%s(j): entity j is' % k, iff(r.ret, P(q, j)), [r.pc])
    @spec('P29', 'remove %s' % k)
    def _(v):
        p, q = setup(v); n = qlen(q); i = fresh('i', 'I')
        r = run(v, '%s::remove%s(%s)' % (CO, k, ty), [p] + A, [v.at(p, CO, 'm_entities')])
        v.seq('exactly the others remain, in order', r.get(v.at(p, CO, 'm_entities'), 'q'), qfilter(n, i, not_(P(q, i)), elem(q, i)), [r.pc])
for k in KINDS: mkk(k)
from p01 import BX, TR, box, bid, putbox, BOXP, PAIRV, SIGINT, SIGBUILD, seq_same
GH = 256
def each(name, sig, virt, args, read):
    @spec('P29', 'collection::%s' % name)
    def _(v):
        p, q = setup(v); a = args(v); g = v.sym('ghost'); G = padd(g, 0); want = read(v, State(), [p] + a)
        def c(ex, st, x):
            y = read(v, st, x); cells = {0: ('ptr', x[0])}
            for i, t in enumerate(y): cells[8 + 8 * i] = ('double', t)
            ex.store(st, G, 'q', qapp1(v.rd(st, G, 'q'), rec(cells))); return None
        v.ex.contracts[S(virt)] = c
        st = State(); v.ex.store(st, G, 'q', QEMPTY)
        r = v.run(CO + '::' + sig, [p] + a, st); v.safe(r); v.nothrow(r); v.frame(r, [g])
        i = fresh('i', 'I'); cells = {0: ('ptr', sel(q, i, 0, 'ptr'))}
        for k, t in enumerate(want): cells[8 + 8 * k] = ('double', t)
        v.seq('every entity once, in order, with the given arguments', r.get(G, 'q'), qfilter(qlen(q), i, TRUE, rec(cells)), [r.pc])
each('translate', 'translate({V3} const&)', 'virtual acme::entity::translate({V3} const&)', lambda v: [v.sym('input')], lambda v, st, a: list(v.rv(st, a[1])))
each('rotate', 'rotate(double, {V3} const&)', 'acme::entity::rotate(double, {V3} const&)', lambda v: [var('angle'), v.sym('axis')], lambda v, st, a: [a[1]] + list(v.rv(st, a[2])))
def affs(v, st, a): A, t = v.affine(a[1], st); return [x for c in A.c for x in c] + list(t)
each('transform', 'transform({AFF} const&)', 'virtual acme::entity::transform({AFF} const&)', lambda v: [v.sym('matrix')], affs)

def clampable(e): return uf('isClampable', 0, [e], 'B')
def low(e): return Vec(*[uf('lo', k, [e]) for k in range(3)])
def high(e): return Vec(*[uf('hi', k, [e]) for k in range(3)])
def clamp_contract(v):
    def c(ex, st, a):
        for p, w in ((a[1], low(a[0])), (a[2], high(a[0]))):
            old = v.rv(st, p)
            for k in range(3): ex.store(st, padd(p, 8 * k), 'double', ite(clampable(a[0]), w[k], old[k]))
        return clampable(a[0])
    v.ex.contracts[S('virtual acme::entity::clamp({V3}&, {V3}&) const')] = c
def boxes_ok(v, st, bs, q, pc):
    n = qlen(q); i = fresh('i', 'I'); j = var('j', 'I'); rng = [le(I(0), j), lt(j, n)]; b = sel(bs, j, 0, 'ptr'); e = sel(q, j, 0, 'ptr'); B_ = box(v, b, st)
    v.ensure('one box per entity', eq(qlen(bs), n), [pc])
    v.ensure('box j has the bounds of entity j', and_(B_.lo.eq(low(e)), B_.hi.eq(high(e))), [pc] + rng + [le(x, y) for x, y in zip(low(e), high(e))] + [or_(Exists(n, i, not_(clampable(sel(q, i, 0, 'ptr')))), clampable(e))])
    v.ensure('box j has identifier j', eq(bid(v, b, st), j), [pc] + rng)
@spec('P29', 'collection::clamp')
def _(v):
    p, q = setup(v); clamp_contract(v); out = v.sym('boxes'); i = fresh('i', 'I'); n = qlen(q)
    r = v.run('acme::collection::clamp(', [p, out]); v.safe(r); v.frame(r, [out])
    v.throws(r, Exists(n, i, not_(clampable(sel(q, i, 0, 'ptr')))))
    boxes_ok(v, r.st, r.get(out, 'q'), q, r.pc)
@spec('P29', 'collection::buildAABBtree')
def _(v):
    p, q = setup(v); clamp_contract(v); i = fresh('i', 'I'); n = qlen(q); log = []; tree = v.pre(v.at(p, CO, 'm_AABBtree'), 'ptr')
    def c(ex, st, a): log.append((a[0], v.rd(st, a[1], 'q'), st.copy())); return None
    v.contract(v.ir.fns[v.ir.find(S(SIGBUILD))]['sig'], c)
    r = v.run('acme::collection::buildAABBtree(', [p]); v.safe(r); v.frame(r)
    v.throws(r, Exists(n, i, not_(clampable(sel(q, i, 0, 'ptr')))))
    v.fact('the tree of the collection is built, once', len(log) == 1 and log[0][0] is tree)
    boxes_ok(v, log[0][2], log[0][1], q, r.pc)

def query(v, own, log, other=None):
    """contract of AABBtree::intersection (P01): an empty list receives pairs (box of the first tree, box of the second), swapped on demand"""
    def c(ex, st, a):
        sw = a[3] if a[3].sort == 'B' else not_(eq(a[3], 0))
        if sw not in (TRUE, FALSE): raise GiveUp('order of the pairs')
        ex.obls.append((st.pc, B((a[0] is own) != (a[1] is own)), 'query of the tree of the collection'))
        ex.obls.append((st.pc, eq(qlen(v.rd(st, a[2], 'q')), 0), 'the pair list is empty'))
        first = (a[0] is own) == (sw is FALSE); L = mk('qvar', ('pairs%d' % len(log),), 'Q'); ex.store(st, a[2], 'q', L)
        log.append((L, 0 if first else 16, a[1] if a[0] is own else a[0], st.copy())); return None
    v.contract(v.ir.fns[v.ir.find(S(SIGINT))]['sig'], c)
def ids(v, L, off, n):
    """invariant of a collection whose tree is built: every leaf has the identifier of an entity"""
    def m(k): return implies(and_(le(0, k), lt(k, qlen(L))), and_(le(0, bid(v, sel(L, k, off, 'ptr'))), lt(bid(v, sel(L, k, off, 'ptr')), n)))
    return m
def found(v, q, L, off):
    k = fresh('k', 'I'); return qfilter(qlen(L), k, TRUE, elem(q, bid(v, sel(L, k, off, 'ptr'))))
def inst(v, r, L, off, n):
    from p01 import inst as I_
    return I_(ids(v, L, off, n), [x for pc, c, _ in r.obls for x in (pc, c)], L)
@spec('P29', 'collection::intersection with a tree')
def _(v):
    p, q = setup(v); tp = v.sym('tree'); out = v.sym('candidates', CO); own = v.pre(v.at(p, CO, 'm_AABBtree'), 'ptr'); log = []; query(v, own, log)
    r = v.run('acme::collection::intersection(std::shared_ptr<acme::AABBtree> const&', [p, tp, out]); op = v.at(out, CO, 'm_entities')
    v.fact('one query, with the given tree', len(log) == 1 and log[0][2] is v.pre(tp, 'ptr')); L, off = log[0][:2]
    v.safe(r, inst(v, r, L, off, qlen(q))); v.nothrow(r); v.frame(r, [out])
    v.seq('the entities named by the leaves found, in order', r.get(op, 'q'), found(v, q, L, off), [r.pc])
    v.ensure('true exactly when there is one', iff(r.ret, lt(0, qlen(L))), [r.pc])
@spec('P29', 'collection::intersection with boxes')
def _(v):
    for one_ in (False, True):
        w = v.sub(); p, q = setup(w); bp = w.sym('box'); out = w.sym('candidates', CO); own = w.pre(w.at(p, CO, 'm_AABBtree'), 'ptr'); log = []; built = []; query(w, own, log)
        def c(ex, st, a): built.append((a[0], w.rd(st, a[1], 'q'))); return None
        w.contract(w.ir.fns[w.ir.find(S(SIGBUILD))]['sig'], c)
        r = w.run('acme::collection::intersection(' + ('std::shared_ptr<acme::aabb const>,' if one_ else '{BOXV} const&,'), [p, bp, out])
        w.fact('one tree is built and used for the query', len(log) == 1 and len(built) == 1 and built[0][0] is log[0][2]); L, off = log[0][:2]
        if one_: x = w.pre(bp, 'ptr'); w.ensure('the tree is built from the box', and_(eq(qlen(built[0][1]), 1), peq(sel(built[0][1], I(0), 0, 'ptr'), x)), [r.pc])
        else: w.fact('the tree is built from the boxes', built[0][1] is w.pre(bp, 'q'))
        w.safe(r, inst(w, r, L, off, qlen(q))); w.nothrow(r); w.frame(r, [out])
        w.seq('the entities named by the leaves found, in order', r.get(w.at(out, CO, 'm_entities'), 'q'), found(w, q, L, off), [r.pc])
        w.ensure('true exactly when there is one', iff(r.ret, lt(0, qlen(L))), [r.pc])
        v.obl += w.obl

@spec('P29', 'collection::intersection of two collections')
def _(v):
    p, q = setup(v); op = v.sym('entities', CO); q2 = v.pre(v.at(op, CO, 'm_entities'), 'q'); out = v.sym('candidates', CO)
    own = v.pre(v.at(p, CO, 'm_AABBtree'), 'ptr'); other = v.pre(v.at(op, CO, 'm_AABBtree'), 'ptr'); log = []; query(v, own, log)
    r = v.run('acme::collection::intersection(acme::collection&, acme::collection&)', [p, op, out]); k = fresh('k', 'I')
    v.fact('one query, with the tree of the other collection', len(log) == 1 and log[0][2] is other); L, off = log[0][:2]
    v.safe(r, inst(v, r, L, off, qlen(q)) + inst(v, r, L, 16 - off, qlen(q2))); v.nothrow(r); v.frame(r, [out])
    x = r.get(v.at(out, CO, 'm_entities'), 'q'); j = var('j', 'I'); rng = [le(I(0), j), lt(j, qlen(L))]
    v.ensure('two entities for each pair', eq(qlen(x), scale(qlen(L), 2)), [r.pc])
    a = bid(v, sel(L, j, off, 'ptr')); b = bid(v, sel(L, j, 16 - off, 'ptr'))
    v.ensure('entity 2j is the one of this collection named by pair j', peq(sel(x, scale(j, 2), 0, 'ptr'), sel(q, a, 0, 'ptr')), [r.pc] + rng)
    v.ensure('entity 2j+1 is the one of the other collection named by pair j', peq(sel(x, add(scale(j, 2), I(1)), 0, 'ptr'), sel(q2, b, 0, 'ptr')), [r.pc] + rng)
    v.ensure('true exactly when there is one', iff(r.ret, lt(0, qlen(L))), [r.pc])
@spec('P29', 'a collection is a list')
def _(v):
    p = v.sym('self', CO); E = v.at(p, CO, 'm_entities'); q = v.pre(E, 'q'); i = var('i', 'I'); n = qlen(q); ep = v.sym('entity')
    r = run(v, 'acme::collection::size() const', [p]); v.ensure('size', eq(r.ret, n), [r.pc])
    r = run(v, 'acme::collection::clear()', [p], [p]); v.fact('clear', r.get(E, 'q') is QEMPTY)
    r = run(v, 'acme::collection::push_back(', [p, ep], [p, ep]); v.seq('push_back appends the entity', r.get(E, 'q'), qapp1(q, rec({0: ('ptr', v.pre(ep, 'ptr')), 8: ('ptr', v.pre(padd(ep, 8), 'ptr'))})), [r.pc])
    m = var('m', 'I'); v.assume += [le(I(0), m)]
    r = run(v, 'acme::collection::resize(int)', [p, m], [p]); x = r.get(E, 'q'); v.ensure('resize: as many as asked', eq(qlen(x), m), [r.pc])
    v.ensure('resize keeps the entities that remain', peq(sel(x, i, 0, 'ptr'), sel(q, i, 0, 'ptr')), [r.pc, le(I(0), i), lt(i, m), lt(i, n)])
    c = v.sym('new'); w = v.sym('list'); lq = v.pre(w, 'q')
    r = run(v, 'acme::collection::collection(std::vector<', [c, w], [c]); v.seq('constructed from a list: the list', r.get(v.at(c, CO, 'm_entities'), 'q'), lq, [r.pc])
    r = run(v, 'acme::collection::collection()', [c], [c]); v.fact('constructed empty', r.get(v.at(c, CO, 'm_entities'), 'q') is QEMPTY)
    v.assume += [le(I(0), i), lt(i, n)]
    for sfx in ('', ' const'):
        r = run(v, 'acme::collection::operator[](int)' + sfx, [p, i]); v.ensure('operator[]: entity i', peq(r.get(r.ret, 'ptr'), sel(q, i, 0, 'ptr')), [r.pc])
include('P29', 'P01', 'aabb::intersects', 'aabb(boxes)', 'AABBtree::build', 'AABBtree::intersection')
@spec('P29', 'collection::count: the counts by name')
def _(v):
    p, q = setup(v); n = qlen(q); i = fresh('i', 'I'); log = []
    def ins(ex, st, a):      # std::map(initializer list): receives the list of names and counts
        b, e = a[1:3]; k = next((j for j in range(64) if padd(b, 40 * j) is e), None)
        if k is None: raise GiveUp('list of counts')
        log.append([(v.rd(st, padd(b, 40 * j), 'str'), v.rd(st, padd(b, 40 * j + 32), 'i32')) for j in range(k)]); return None
    fn = [f['sig'] for k, f in v.ir.fns.items() if k.startswith('_ZNSt8_Rb_tree') and '_M_insert_range_unique' in k and 'pairIKS5_iE' in k]
    if len(fn) != 1: raise GiveUp('std::map of counts')
    v.contract(fn[0], ins)
    r = v.run('acme::collection::count[abi:cxx11](double) const', [p, tol]); v.nothrow(r); v.safe(r); v.frame(r)
    if len(log) != 1: raise GiveUp('map of the counts')
    names = {('non-clampable' if k == 'NonClampable' else k.lower()): k for k in KINDS}
    given = {x[0]: x[1] for x in log[0]}; v.fact('one count for each kind, under its name', len(given) == len(log[0]) == len(names) and all(mk('strc', (w,), 'S') in given for w in names))
    for w, k in names.items():
        A = [tol] if k == 'Degenerated' else []; c = given.get(mk('strc', (w,), 'S'), I(-1))
        v.ensure('count of %s' % w, eq(c, Sum(n, i, ite(uf('is%s' % k, 0, [sel(q, i, 0, 'ptr')] + A, 'B'), I(1), I(0)))), [r.pc])
@spec('P29', 'collection::intersection of all pairs')
def _(v):
    p, q = setup(v); n = qlen(q); out = v.sym('entities', CO)
    def c(ex, st, a): return wrap_ptr(mk('uf', ('meet', a[0], a[1], a[2]), 'F'))
    v.contract('acme::Intersection(acme::entity const*, acme::entity const*, double)', c)
    r = v.run('acme::collection::intersection(acme::collection&, double) const', [p, out, tol]); v.nothrow(r); v.safe(r); v.frame(r, [out])
    x = r.get(v.at(out, CO, 'm_entities'), 'q'); i, j = var('i', 'I'), var('j', 'I'); A = fresh('rows', 'Q')
    if x.op != 'Fold' or x.args[0] is not n: raise GiveUp('list of the results')
    m, lv = x.args[1], x.args[4]; v.fact('the list starts empty', x.args[2][m] is QEMPTY)
    st_ = map_t(x.args[3][m], {mk('av', (lv, m), 'Q'): A, bv(lv, 'I'): i})      # what one entity does to the list
    if st_.op != 'qcat' or st_.args[0] is not A: raise GiveUp('list of the results')
    R = st_.args[1]; h = [r.pc, le(I(0), i), lt(i, n)]
    v.ensure('entity i adds as many results as there are entities from i on', eq(qlen(R), sub(n, i)), h)
    v.ensure('the results of entity i: with itself and each later one, in order', peq(sel(R, j, 0, 'ptr'), wrap_ptr(mk('uf', ('meet', sel(q, i, 0, 'ptr'), sel(q, add(i, j), 0, 'ptr'), tol), 'F'))), h + [le(I(0), j), lt(j, sub(n, i))])
