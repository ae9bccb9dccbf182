from spec import *
from geom import *
from p18 import nums, run, verts
NO = 'acme::none'
KINDS = {NO: 'None', PT: 'Point', LN: 'Line', RY: 'Ray', PL: 'Plane', SG: 'Segment', TRI: 'Triangle', DK: 'Disk', BL: 'Ball'}
CLAMP, OPEN = (PT, SG, TRI, DK, BL), (LN, RY, PL)
LEVEL = {NO: 0, PT: 1, LN: 3, RY: 4, PL: 5, SG: 6, TRI: 7, DK: 8, BL: 9}
def nm(c): return c[6:]

def minl(xs, f):
    y = xs[0]
    for x in xs[1:]: y = f(y, x)
    return y
def mkk(cls):
    @spec('P27', '%s: kind, level' % nm(cls))
    def _(v):
        p = v.sym('self', cls)
        for c, k in KINDS.items():
            r = run(v, '%s::is%s() const' % (cls, k), [p]); v.ensure('is%s' % k, iff(r.ret, B(c == cls)), [r.pc])
        r = run(v, '%s::isClampable() const' % cls, [p]); v.ensure('isClampable exactly for bounded entities', iff(r.ret, B(cls in CLAMP)), [r.pc])
        r = run(v, '%s::isNonClampable() const' % cls, [p]); v.ensure('isNonClampable exactly for lines, rays and planes', iff(r.ret, B(cls in OPEN)), [r.pc])
        r = run(v, '%s::level() const' % cls, [p]); v.ensure('level', eq(r.ret, I(LEVEL[cls])), [r.pc])
        r = run(v, '%s::type[abi:cxx11]() const' % cls, [p]); t = v.rd(r.st, r.retp, 'str'); v.fact('type() is the name of the kind', t is mk('strc', (nm(cls),), 'S'), show(t))
for c in KINDS: mkk(c)
def bounds(v, p, cls):
    if cls in (DK, BL):
        x = nums(v, State(), p, cls); c, e = Vec(*x[1:4]), Vec(x[0], x[0], x[0]); return c - e, c + e
    xs = verts(v, p, cls)
    return Vec(*[minl([x[i] for x in xs], minr) for i in range(3)]), Vec(*[minl([x[i] for x in xs], maxr) for i in range(3)])
def mkc(cls):
    @spec('P27', '%s::clamp' % nm(cls))
    def _(v):
        p = v.sym('self', cls); lo, hi = bounds(v, p, cls)
        a, b = v.sym('min'), v.sym('max'); r = run(v, '%s::clamp({V3}&, {V3}&) const' % cls, [p, a, b], [a, b])
        v.ensure('true', r.ret, [r.pc]); v.veq('minimum corner', r.vec(a), lo, [r.pc]); v.veq('maximum corner', r.vec(b), hi, [r.pc])
        o = [v.sym('o%d' % i) for i in range(6)]; r = run(v, '%s::clamp(double&, double&, double&, double&, double&, double&) const' % cls, [p] + o, o); y = [r.get(x) for x in o]
        v.ensure('true (numbers)', r.ret, [r.pc]); v.veq('minimum corner (numbers)', Vec(*y[:3]), lo, [r.pc]); v.veq('maximum corner (numbers)', Vec(*y[3:]), hi, [r.pc])
for c in CLAMP: mkc(c)
def mko(cls):
    @spec('P27', '%s::clamp' % nm(cls))
    def _(v):
        p = v.sym('self', cls); a, b = v.sym('min'), v.sym('max'); r = run(v, '%s::clamp({V3}&, {V3}&) const' % cls, [p, a, b])
        v.ensure('false: unbounded, nothing written', not_(r.ret), [r.pc])
        o = [v.sym('o%d' % i) for i in range(6)]; r = run(v, '%s::clamp(double&, double&, double&, double&, double&, double&) const' % cls, [p] + o)
        v.ensure('false: unbounded, nothing written (numbers)', not_(r.ret), [r.pc])
for c in OPEN + (NO,): mko(c)
def mkd(cls):
    @spec('P27', '%s::isDegenerated' % nm(cls))
    def _(v):
        p = v.sym('self', cls); tol = var('tol'); r = run(v, '%s::isDegenerated(double) const' % cls, [p, tol]); small = lambda d: lt(d.norm(), tol)
        if cls == PT: w = FALSE
        else:
            x = nums(v, State(), p, cls); V = lambda k: Vec(*x[k:k + 3])
            w = (small(V(3)) if cls in OPEN else small(V(3) - V(0)) if cls == SG else or_(small(V(0) - V(3)), small(V(3) - V(6)), small(V(6) - V(0))) if cls == TRI else
                 or_(lt(absr(x[0]), tol), small(V(4))) if cls == DK else lt(absr(x[0]), tol))
        v.ensure('degenerated exactly when its size is below the tolerance', iff(r.ret, w), [r.pc])
for c in KINDS:
    if c != NO: mkd(c)
@spec('P27', 'none::isDegenerated')
def _(v):
    r = run(v, 'acme::none::isDegenerated(double) const', [v.sym('self', NO), var('tol')]); v.ensure('nothing is always degenerated', r.ret, [r.pc])
@spec('P27', 'disk and ball boxes contain every point (lemma)')
def _(v):
    c, x, R_ = Vec(var('cx'), var('cy'), var('cz')), Vec(var('x'), var('y'), var('z')), var('r'); e = Vec(R_, R_, R_)
    for i in range(3):
        v.ensure('coordinate %d' % i, and_(le((c - e)[i], x[i]), le(x[i], (c + e)[i])), [le(0, R_), le((x - c).norm2(), sq(R_))])
