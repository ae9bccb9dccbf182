"""contracts of the intersection primitives, as uninterpreted functions of the values of the entities
(each primitive is proved against its geometric contract by P17)"""
from spec import *
import prove as P
PL, LN, SG, TRI, DK, PT = 'acme::plane', 'acme::line', 'acme::segment', 'acme::triangle', 'acme::disk', 'acme::point'
RY, BL = 'acme::ray', 'acme::ball'
def entity(v, st, p, cls):
    """the defining numbers of an entity"""
    if cls == PT: return list(v.rp(st, p))
    if cls in (LN, PL, 'acme::ray'):
        return list(v.rp(st, v.at(p, cls, 'm_origin'))) + list(v.rv(st, v.at(p, cls, 'm_normal' if cls == PL else 'm_direction')))
    if cls in (SG, TRI):
        q = v.at(p, cls, 'm_vertex'); return [x for k in range(2 if cls == SG else 3) for x in v.rp(st, padd(q, 32 * k))]
    if cls == DK: return [v.rd(st, v.at(p, DK, 'm_radius'))] + entity(v, st, v.at(p, DK, 'm_plane'), PL)
    if cls == BL: return [v.rd(st, v.at(p, BL, 'm_radius'))] + list(v.rp(st, v.at(p, BL, 'm_center')))
    raise GiveUp(cls)
def canon(t):
    """polynomial normal form, so that equal inputs written differently are one term"""
    return P.norm_q(t) if t.sort == 'R' and t.op in ('lin', 'prod') else t
def uf(name, k, ins, sort='R'): return mk('uf', ('%s.%s' % (name, k),) + tuple(canon(t) for t in ins), sort)
NOUT = {PT: 3, SG: 6, LN: 6, RY: 6, PL: 6, TRI: 9, DK: 7}
def outs(name, ins, cls): return [uf(name, 'o%d' % i, ins) for i in range(NOUT[cls])]
def put(v, st, p, cls, xs):
    if cls == PT: cells = [padd(p, 8 + 8 * i) for i in range(3)]
    elif cls in (SG, TRI): cells = [padd(v.at(p, cls, 'm_vertex'), 32 * k + 8 + 8 * i) for k in range(2 if cls == SG else 3) for i in range(3)]
    elif cls == DK: v.ex.store(st, v.at(p, DK, 'm_radius'), 'double', xs[0]); return put(v, st, v.at(p, DK, 'm_plane'), PL, xs[1:])
    elif cls in (LN, PL, RY): cells = [padd(v.at(p, cls, 'm_origin'), 8 + 8 * i) for i in range(3)] + [padd(v.at(p, cls, 'm_normal' if cls == PL else 'm_direction'), 8 * i) for i in range(3)]
    else: raise GiveUp(cls)
    for c, x in zip(cells, xs): v.ex.store(st, c, 'double', x)
class Prim:
    def __init__(s, a, b, o): s.a, s.b, s.o = a, b, o; s.name = 'I_%s_%s' % (a[6:], b[6:]) + '_' + o[6:]; s.sig = 'acme::Intersection(%s const&, %s const&, %s&, double)' % (a, b, o)
    def hit(s, ins): return uf(s.name, 'hit', ins, 'B')
    def out(s, ins): return outs(s.name, ins, s.o)
    def assume(s, v):
        def c(ex, st, args):
            ins = entity(v, st, args[0], s.a) + entity(v, st, args[1], s.b) + [args[3]]
            put(v, st, args[2], s.o, s.out(ins)); return s.hit(ins)
        v.contract(s.sig, c)
PlaneDisk, TriDisk = Prim(PL, DK, SG), Prim(TRI, DK, SG)
LinePlane, LineTri = Prim(LN, PL, PT), Prim(LN, TRI, PT)
def assume_all(v):
    for x in (PlaneDisk, TriDisk, LinePlane, LineTri): x.assume(v)
