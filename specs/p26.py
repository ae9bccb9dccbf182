from spec import *
from geom import *
from p18 import nums, run
from shellc import shell
ALL = (PT, LN, RY, PL, SG, TRI, DK, BL)
# which triples of defining numbers are positions and which are directions; everything else (radii) is unchanged
POS = {PT: (0,), SG: (0, 3), TRI: (0, 3, 6), LN: (0,), RY: (0,), PL: (0,), DK: (1,), BL: (1,)}
DIR = {LN: 3, RY: 3, PL: 3, DK: 4}
def nm(c): return c[6:]
def tri(x, k): return Vec(*x[k:k + 3])
def moved(v, r, p, cls, x, A, T_, hyps=()):
    hyps = list(hyps)
    y = nums(v, r.st, p, cls); seen = set()
    for k in POS[cls]: v.veq('position %d is mapped by the transformation' % (k // 3), tri(y, k), A @ tri(x, k) + T_, [r.pc] + hyps); seen |= {k, k + 1, k + 2}
    if cls in DIR: k = DIR[cls]; v.veq('direction is mapped by the linear part only', tri(y, k), A @ tri(x, k), [r.pc] + hyps); seen |= {k, k + 1, k + 2}
    for i in range(len(x)):
        if i not in seen: v.ensure('defining number %d is unchanged' % i, eq(y[i], x[i]), [r.pc])
def rodrigues(c, s, k):
    f = lambda w: w * c + k.cross(w) * s + k * mul(k.dot(w), sub(R(1), c))
    return Mat(*[f(Vec(*[R(1 if i == j else 0) for j in range(3)])) for i in range(3)])
def mktr(cls):
    @spec('P26', '%s::transform' % nm(cls))
    def _(v):
        p, q = v.sym('self', cls), v.sym('pose'); A, T_ = v.affine(q); x = nums(v, State(), p, cls)
        r = run(v, '%s::transform(' % cls, [p, q], [p]); moved(v, r, p, cls, x, A, T_)
    @spec('P26', '%s rotated about the origin' % nm(cls))
    def _(v):
        p, q = v.sym('self', cls), v.sym('axis'); th, k = var('angle'), v.prev(q); x = nums(v, State(), p, cls)
        r = run(v, 'acme::entity::rotate(', [p, th, q], [p])
        moved(v, r, p, cls, x, rodrigues(fn('cos', th), fn('sin', th), k), Vec(0, 0, 0), [eq(k.norm2(), 1)])
for c in ALL: mktr(c)
@spec('P26', 'none: moving nothing does nothing')
def _(v):
    p = v.sym('self', 'acme::none')
    for f in ('translate', 'transform'): run(v, 'acme::none::%s(' % f, [p, v.sym('in')])
@spec('P26', 'rotation is rigid (lemma)')
def _(v):
    th, k, w = var('angle'), Vec(var('kx'), var('ky'), var('kz')), Vec(var('wx'), var('wy'), var('wz')); c, s = fn('cos', th), fn('sin', th)
    y = rodrigues(c, s, k) @ w; u = [eq(k.norm2(), 1)]
    v.ensure('the component along the axis is kept', eq(k.dot(y), k.dot(w)), u)
    K, W_, d = k.norm2(), w.norm2(), k.dot(w); cs = sub(add(sq(c), sq(s)), R(1))
    v.ensure('lengths change only by the excess of |axis| and of sin^2 + cos^2 over one', eq(sub(y.norm2(), W_), add(mul(cs, sub(W_, sq(d))), mul(sub(K, R(1)), add(mul(sq(s), W_), mul(sq(d), sq(sub(R(1), c))))))))
@spec('P26', 'Transform of a vector')
def _(v):
    o, q = v.sym('vec'), v.sym('pose'); A, _t = v.affine(q); x = v.prev(o)
    r = run(v, 'acme::Transform(', [o, q], [o]); v.veq('linear part applied', r.vec(o), A @ x, [r.pc])
@spec('P26', 'Angle between vectors')
def _(v):
    a, b = v.sym('a'), v.sym('b'); x, y = v.prev(a), v.prev(b)
    r = run(v, 'acme::Angle(', [a, b]); c = r.ret
    if c.op == 'fn' and c.args[0] == 'acos': v.ensure('arc cosine of the normalised dot product', eq(mul(c.args[1], mul(x.norm(), y.norm())), x.dot(y)), [r.pc, lt(0, x.norm2()), lt(0, y.norm2())])
    else: v.fact('arc cosine', False, show(c)[:200])
def mkdir(cls):
    k = DIR[cls]
    @spec('P26', '%s::reverse' % nm(cls))
    def _(v):
        p = v.sym('self', cls); x = nums(v, State(), p, cls); r = run(v, '%s::reverse(' % cls, [p], [p]); y = nums(v, r.st, p, cls)
        v.veq('direction is reversed', tri(y, k), -tri(x, k), [r.pc])
        for i in range(len(x)):
            if not k <= i < k + 3: v.ensure('defining number %d is unchanged' % i, eq(y[i], x[i]), [r.pc])
    @spec('P26', '%s::normalize' % nm(cls))
    def _(v):
        p = v.sym('self', cls); x = nums(v, State(), p, cls); d = tri(x, k); r = run(v, '%s::normalize(' % cls, [p], [p]); y = nums(v, r.st, p, cls); n = tri(y, k)
        v.ensure('unit length', eq(n.norm2(), 1), [r.pc, lt(0, d.norm2())])
        v.veq('same direction', n * d.norm(), d, [r.pc, lt(0, d.norm2())])
        for i in range(len(x)):
            if not k <= i < k + 3: v.ensure('defining number %d is unchanged' % i, eq(y[i], x[i]), [r.pc])
for c in DIR: mkdir(c)
for c, f in ((LN, 'toVector'), (RY, 'toVector')):
    def go(c, f):
        @spec('P26', '%s::toVector, toUnitVector' % nm(c))
        def _(v):
            p = v.sym('self', c); d = tri(nums(v, State(), p, c), 3)
            r = run(v, '%s::toVector() const' % c, [p]); v.veq('toVector is the direction', r.vec(r.retp), d, [r.pc])
            r = run(v, '%s::toUnitVector() const' % c, [p]); v.veq('toUnitVector is the unit direction', r.vec(r.retp) * d.norm(), d, [r.pc, lt(0, d.norm2())])
    go(c, f)
@spec('P26', 'plane::unitNormal')
def _(v):
    p = v.sym('self', PL); d = tri(nums(v, State(), p, PL), 3)
    r = run(v, 'acme::plane::unitNormal() const', [p]); v.veq('unit normal', r.vec(r.retp) * d.norm(), d, [r.pc, lt(0, d.norm2())])
@spec('P26', 'segment::swap')
def _(v):
    p = v.sym('self', SG); x = nums(v, State(), p, SG); r = run(v, 'acme::segment::swap(', [p], [p]); y = nums(v, r.st, p, SG)
    v.veq('first vertex', tri(y, 0), tri(x, 3), [r.pc]); v.veq('second vertex', tri(y, 3), tri(x, 0), [r.pc])
@spec('P26', 'triangle::swap')
def _(v):
    p = v.sym('self', TRI); x = nums(v, State(), p, TRI)
    for i in range(3):
        for j in range(3):
            r = run(v, 'acme::triangle::swap(', [p, I(i), I(j)], [p]); y = nums(v, r.st, p, TRI)
            for k in range(3): m = j if k == i else i if k == j else k; v.veq('swap(%d,%d): vertex %d is the former vertex %d' % (i, j, k, m), tri(y, 3 * k), tri(x, 3 * m), [r.pc])
@spec('P26', 'shell::rotate')
def _(v):
    s = shell(v); q = v.sym('axis'); th, k = var('angle'), v.prev(q); M = rodrigues(fn('cos', th), fn('sin', th), k)
    r = run(v, 'enve::shell::rotate(double, {V3} const&)', [s.p, th, q], [s.p]); A, T_ = r.aff(s.affp)
    for i in range(3): v.veq('axis %d: earlier pose times the rotation' % i, A.c[i], s.A @ M.c[i], [r.pc])
    v.veq('origin is unchanged', T_, s.T, [r.pc])
include('P26', 'P24', 'shell::translate')
