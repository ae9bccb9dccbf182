from spec import *
B = 'acme::aabb'
def box(v, p): return v.prep(v.at(p, B, 'm_min')), v.prep(v.at(p, B, 'm_max'))
def rbox(v, r, p): return r.pt(v.at(p, B, 'm_min')), r.pt(v.at(p, B, 'm_max'))
def overlap(a, b): return and_(*[and_(le(a[0][i], b[1][i]), le(b[0][i], a[1][i])) for i in range(3)])
def ordered(r): return and_(*[le(r[0][i], r[1][i]) for i in range(3)])
def tight(v, r, lo, hi, pts):
    for i, x in enumerate('xyz'):
        v.ensure('minimum %s is the least' % x, and_(*[le(lo[i], a[i]) for a in pts], or_(*[eq(lo[i], a[i]) for a in pts])), [r.pc])
        v.ensure('maximum %s is the greatest' % x, and_(*[le(a[i], hi[i]) for a in pts], or_(*[eq(hi[i], a[i]) for a in pts])), [r.pc])
@spec('P23', 'aabb::intersects')
def _(v):
    p, q = v.sym('a', B), v.sym('b', B); a, b = box(v, p), box(v, q)
    r = v.run('acme::aabb::intersects(', [p, q]); v.nothrow(r); v.safe(r); v.frame(r)
    v.ensure('closed intervals overlap on all three axes', iff(r.ret, overlap(a, b)), [r.pc])
    s = v.run('acme::aabb::intersects(', [q, p])
    v.ensure('symmetric', iff(r.ret, s.ret))
@spec('P23', 'Intersection(aabb, aabb)')
def _(v):
    p, q, o = v.sym('a', B), v.sym('b', B), v.sym('out', B); a, b = box(v, p), box(v, q)
    r = v.run('acme::Intersection(acme::aabb const&, acme::aabb const&', [p, q, o, var('tol')]); v.nothrow(r); v.safe(r); v.frame(r, [o])
    v.ensure('true exactly when they overlap', iff(r.ret, overlap(a, b)), [r.pc])
    lo, hi = rbox(v, r, o)
    v.veq('minimum is the maximum of minima', lo, Vec(*[maxr(x, y) for x, y in zip(a[0], b[0])]), [r.pc, r.ret])
    v.veq('maximum is the minimum of maxima', hi, Vec(*[minr(x, y) for x, y in zip(a[1], b[1])]), [r.pc, r.ret])
def glb(v, r, res, Q, n, name):
    """res: (min, max) vectors; every box inside, and smallest"""
    for m, off in ((0, 'm_min'), (1, 'm_max')):
        for i, ax in enumerate('xyz'):
            o = v.off(B, off) + 8 + 8 * i
            x = lambda k: fld(sel(Q, k, 0, 'ref'), o, 'double')
            less = (lambda a, b: le(a, b)) if m == 0 else (lambda a, b: le(b, a))
            t = res[m][i]; j = var('j', 'I'); c = var('c'); nm = '%s %s %s' % (name, off, ax)
            facts, gfacts = [], []
            for F in v.folds(t):
                facts.append(v.induct(nm + ' bounds every element', F, lambda ac, k, d: implies(and_(le(0, j), lt(j, add(k, I(d)))), less(ac[F.args[1]], x(j))), hyps=[lt(0, n)]))
                gfacts.append(v.induct(nm + ' is the tightest bound', F, lambda ac, k, d: less(c, ac[F.args[1]]), lambda k: [less(c, x(I(0)))] + ([less(c, x(k))] if k is not None else []), hyps=[lt(0, n)]))
            v.ensure(nm + ': box j is inside the union', less(t, x(j)), [r.pc, le(0, j), lt(j, n)] + facts)
            v.ensure(nm + ': no smaller box contains all', less(c, t), [r.pc, lt(0, n), less(c, x(I(0)))] + gfacts)
@spec('P23', 'aabb::merged')
def _(v):
    p, b = v.sym('self', B), v.sym('boxes'); Q = v.pre(b, 'q'); n = qlen(Q)
    r = v.run('acme::aabb::merged(', [p, b]); v.nothrow(r); v.safe(r); v.frame(r, [p])
    glb(v, r, rbox(v, r, p), Q, n, 'union')
@spec('P23', 'aabb(list of boxes)')
def _(v):
    p, b = v.sym('self'), v.sym('boxes'); Q = v.pre(b, 'q'); n = qlen(Q); i1, i2 = var('id', 'I'), var('pos', 'I')
    r = v.run('acme::aabb::aabb(std::vector', [p, b, i1, i2]); v.nothrow(r); v.safe(r); v.frame(r, [p])
    # the constructor reorders the corners; members are boxes with min <= max
    v.fact('id stored', r.get(v.at(p, B, 'm_id'), 'i32') is i1); v.fact('pos stored', r.get(v.at(p, B, 'm_pos'), 'i32') is i2)
    m = v.run('acme::aabb::merged(', [p, b]); want = rbox(v, m, p); got = rbox(v, r, p)
    for k in range(2): v.veq('%s corner is that of merged() reordered' % ('min', 'max')[k], got[k], Vec(*[(minr, maxr)[k](x, y) for x, y in zip(*want)]), [r.pc])
@spec('P23', 'aabb::clamp')
def _(v):
    p = v.sym('self'); a = [v.sym('p%d' % i, 'acme::point') for i in range(3)]
    r = v.run('acme::aabb::clamp(acme::point const&', [p] + a); v.nothrow(r); v.safe(r); v.frame(r, [p])
    tight(v, r, *rbox(v, r, p), [v.prep(x) for x in a])
    q = v.sym('arr'); r = v.run('acme::aabb::clamp(acme::point const*', [p, q]); v.nothrow(r); v.safe(r); v.frame(r, [p])
    tight(v, r, *rbox(v, r, p), [v.prep(padd(q, 32 * i)) for i in range(3)])
@spec('P23', 'aabb::isInside')
def _(v):
    p, q = v.sym('self', B), v.sym('pt', 'acme::point'); a = box(v, p); x = v.prep(q)
    r = v.run('acme::aabb::isInside(', [p, q, var('tol')]); v.nothrow(r); v.safe(r); v.frame(r)
    v.ensure('closed containment', iff(r.ret, and_(*[and_(le(a[0][i], x[i]), le(x[i], a[1][i])) for i in range(3)])), [r.pc])
def reordered(v, r, p, a, pre=''):
    lo, hi = rbox(v, r, p)
    for i, x in enumerate('xyz'):
        sw = lt(a[1][i], a[0][i])
        v.ensure(pre + 'component %s' % x, and_(eq(lo[i], ite(sw, a[1][i], a[0][i])), eq(hi[i], ite(sw, a[0][i], a[1][i]))), [r.pc])
@spec('P23', 'aabb::updateMaxMin, checkMaxMin')
def _(v):
    p = v.sym('self', B); a = box(v, p)
    r = v.run('acme::aabb::updateMaxMin(', [p]); v.nothrow(r); v.safe(r); v.frame(r, [p]); reordered(v, r, p, a, 'swap exactly if min > max: ')
    v.ensure('reports whether nothing was swapped', iff(r.ret, ordered(a)), [r.pc])
    r = v.run('acme::aabb::checkMaxMin(', [p]); v.nothrow(r); v.safe(r); v.frame(r); v.ensure('checkMaxMin', iff(r.ret, ordered(a)), [r.pc])
@spec('P23', 'aabb constructors')
def _(v):
    p = v.sym('self'); c = [var('c%d' % i) for i in range(6)]; i1, i2 = var('id', 'I'), var('pos', 'I')
    r = v.run('acme::aabb::aabb(double', [p] + c + [i1, i2]); v.nothrow(r); v.safe(r); v.frame(r, [p]); reordered(v, r, p, (Vec(*c[:3]), Vec(*c[3:])), 'scalars: ')
    v.fact('id, pos stored', r.get(v.at(p, B, 'm_id'), 'i32') is i1 and r.get(v.at(p, B, 'm_pos'), 'i32') is i2)
    a, b = v.sym('mn', 'acme::point'), v.sym('mx', 'acme::point')
    r = v.run('acme::aabb::aabb(acme::point const&', [p, a, b, i1, i2]); v.nothrow(r); v.safe(r); v.frame(r, [p]); reordered(v, r, p, (v.prep(a), v.prep(b)), 'points: ')
    v.fact('id, pos stored', r.get(v.at(p, B, 'm_id'), 'i32') is i1 and r.get(v.at(p, B, 'm_pos'), 'i32') is i2)
    q = v.sym('src', B); r = v.run('acme::aabb::aabb(acme::aabb const&', [p, q]); v.nothrow(r); v.safe(r); v.frame(r, [p])
    for k in range(2): v.veq('copy constructor', rbox(v, r, p)[k], box(v, q)[k], [r.pc])
@spec('P23', 'aabb::translate')
def _(v):
    p, q = v.sym('self', B), v.sym('t', 'acme::point'); a = box(v, p); t = v.prep(q)
    r = v.run('acme::aabb::translate(', [p, q]); v.nothrow(r); v.safe(r); v.frame(r, [p])
    for k in range(2): v.veq('both corners move by the vector', rbox(v, r, p)[k], a[k] + t, [r.pc])
@spec('P23', 'aabb distances')
def _(v):
    p, q = v.sym('self', B), v.sym('pt', 'acme::point'); a = box(v, p); x = v.prep(q)
    r = v.run('acme::aabb::exteriorDistance(', [p, q]); v.nothrow(r); v.safe(r); v.frame(r)
    d = Vec(*[maxr(absr(x[i] - a[0][i]), absr(x[i] - a[1][i])) for i in range(3)])
    v.ensure('exteriorDistance is the distance of the farthest corner', eq(r.ret, d.norm()), [r.pc, and_(*[le(a[0][i], a[1][i]) for i in range(3)])])
    r = v.run('acme::aabb::centerDistance(', [p, q]); v.nothrow(r); v.safe(r); v.frame(r); ok = [r.pc, and_(*[le(a[0][i], a[1][i]) for i in range(3)])]
    d = Vec(*[maxr(R(0), maxr(a[0][i] - x[i], x[i] - a[1][i])) for i in range(3)])
    v.ensure('centerDistance is the distance of the box (zero inside)', eq(r.ret, d.norm()), ok)
@spec('P23', 'aabb::isDegenerated')
def _(v):
    p = v.sym('self', B); a = box(v, p); tol = var('tol'); r = v.run('acme::aabb::isDegenerated(', [p, tol]); v.nothrow(r); v.safe(r); v.frame(r)
    ordered = and_(*[le(a[0][i], a[1][i]) for i in range(3)]); e = a[1] - a[0]
    v.ensure('degenerated exactly when the corners coincide within the tolerance relative to the smaller one', iff(r.ret, le(e.norm2(), mul(sq(tol), minr(a[0].norm2(), a[1].norm2())))), [r.pc, ordered])
