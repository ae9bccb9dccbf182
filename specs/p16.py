from spec import *
from geom import uf
import terms as _t
from p20 import nanvar
C = 'enve::shell'; IB, OB = 'EnveInputBus', 'EnveOutputBus'; RB = 'enve::rib'
ASSUME = ['for enve_sfun_out: enve_sfun_init has succeeded (the three global pointers refer to the mesh, flat and shell it built, and the shell has at least one rib)',
          'shell::setup, contactPointAffine, contactDepth and contactFriction are used through contracts (properties P06, P12, P13, P14, P24): functions of the shell state, which setup replaces; setup raises nothing for the two known methods',
          'the input and output buses are distinct objects']
def code(v, st, p):
    m = v.rd(st, p, 'str')
    e = v.ex.streq
    return ite(e(m, mk('strc', ('geometric',), 'S')), I(1), ite(e(m, mk('strc', ('sampling',), 'S')), I(2), I(0)))
def world(v):
    """shell, mesh, flat and the ghost state of the shell"""
    st = State(); w = {}
    for g, n, c in (('ShellPtr', 'shell', C), ('MeshPtr', 'mesh', 'enve::ground::mesh'), ('FlatPtr', 'flat', 'enve::ground::flat')):
        w[n] = v.sym(n, c); v.ex.store(st, ptr(region('@' + g), 0), 'ptr', w[n])
    w['ghost'] = v.sym('ghost'); ex = v.ex
    ex.store(st, w['ghost'], 'i64', var('state0', 'I'))
    tok = lambda st: v.rd(st, w['ghost'], 'i64')
    n = qlen(v.pre(v.at(w['shell'], C, 'm_ribs'), 'q')); w['n'] = n; v.assume += [le(1, n)]
    pose = lambda st, p: [v.rd(st, padd(p, 8 * i)) for i in range(16)]
    def setup(kind):
        def c(ex, st, a):
            ex.obls.append((st.pc, B(a[0] is w['shell'] and a[1] is w[kind]), 'setup of the shell on the %s ground' % kind))
            ins = [tok(st)] + pose(st, a[2]) + [code(v, st, a[3])]
            ex.obls.append((st.pc, not_(eq(ins[-1], I(0))), 'setup with a known method'))
            ex.store(st, w['ghost'], 'i64', uf('setup_' + kind, 'state', ins, 'I')); return uf('setup_' + kind, 'hit', ins, 'B')
        v.contract('enve::shell::setup(enve::ground::%s const&, {AFF} const&, {STR})' % kind, c)
    setup('mesh'); setup('flat')
    def getter(sig, name, rib, aff):
        def c(ex, st, a):
            ex.obls.append((st.pc, B(a[0] is w['shell']), 'query of the shell'))
            ins = [tok(st)] + ([a[1]] if rib else [])
            if rib: ex.obls.append((st.pc, and_(le(0, a[1]), lt(a[1], n)), 'rib index in range'))
            for i in range(16 if aff else 1): ex.store(st, padd(a[-1], 8 * i), 'double', uf(name, i, ins))
        v.contract(sig, c)
    getter('enve::shell::contactPointAffine({AFF}&) const', 'frame', False, True); getter('enve::shell::contactPointAffine(unsigned long, {AFF}&) const', 'ribframe', True, True)
    for m in ('Depth', 'Friction'):
        getter('enve::shell::contact%s(double&) const' % m, m, False, False); getter('enve::shell::contact%s(unsigned long, double&) const' % m, 'rib' + m, True, False)
    return st, w
@spec('P16', 'enve_sfun_out')
def _(v):
    st, w = world(v); ib, ob = v.sym('in', IB), v.sym('out', OB); mp, fp = v.sym('method'), v.sym('flat_enable')
    m, f = nanvar('method'), nanvar('selector')
    v.ex.store(st, mp, 'double', m); v.ex.store(st, fp, 'double', f)
    r = v.run('enve_sfun_out', [ib, ob, mp, fp], st)
    r.sig = 'enve_sfun_out'
    is01 = lambda x: and_(not_(nanof(x)), or_(eq(x, 0), eq(x, 1)))
    v.throws(r, not_(and_(is01(m), is01(f))), text='the method or the ground selector is unknown')
    v.safe(r); v.frame(r, [ob, mp, fp, w['ghost'], ptr(region('@ShellPtr'), 0), ptr(region('@MeshPtr'), 0), ptr(region('@FlatPtr'), 0)])
    for x, p, t in (('method', mp, m), ('ground selector', fp, f)): v.fact('%s unchanged' % x, r.get(p) is t)
    for g in ('ShellPtr', 'MeshPtr', 'FlatPtr'): v.fact('%s unchanged' % g, v.rd(r.st, ptr(region('@' + g), 0), 'ptr') is w[g[:-3].lower()])
    pose = [v.pre(padd(v.at(ib, IB, 'HubAffine'), 8 * (c * 4 + k))) for c in range(4) for k in range(4)]
    mc = ite(eq(m, 0), I(1), I(2)); s0 = var('state0', 'I')
    im = [s0] + pose + [mc]; sm, hit = uf('setup_mesh', 'state', im, 'I'), uf('setup_mesh', 'hit', im, 'B')
    fl = lambda s: uf('setup_flat', 'state', [s] + pose + [mc], 'I')
    cells = {k: v.at(ob, OB, k) for k in ('ShellAffine', 'ShellRho', 'ShellFriction', 'RibsAffine', 'RibsRho', 'RibsFriction', 'InMesh')}
    n = w['n']
    for cn, cond, s in (('mesh contact', and_(eq(f, 0), hit), sm), ('mesh without contact: flat ground', and_(eq(f, 0), not_(hit)), fl(sm)), ('flat ground', eq(f, 1), fl(s0))):
        h = [r.pc, cond]; g = lambda p: r.get(p)
        v.ensure('%s: in-mesh flag' % cn, eq(g(cells['InMesh']), 0 if 'without' in cn else 1), h)
        v.ensure('%s: shell depth' % cn, eq(g(cells['ShellRho']), uf('Depth', 0, [s])), h)
        v.ensure('%s: shell friction' % cn, eq(g(cells['ShellFriction']), uf('Friction', 0, [s])), h)
        v.ensure('%s: shell frame, column by column' % cn, and_(*[eq(g(padd(cells['ShellAffine'], 8 * i)), uf('frame', i, [s])) for i in range(16)]), h)
        for k in range(20):
            v.ensure('%s: slot %d holds the values of rib %d' % (cn, k, k), and_(eq(g(padd(cells['RibsRho'], 8 * k)), uf('ribDepth', 0, [s, I(k)])), eq(g(padd(cells['RibsFriction'], 8 * k)), uf('ribFriction', 0, [s, I(k)])),
                     *[eq(g(padd(cells['RibsAffine'], 128 * k + 8 * i)), uf('ribframe', i, [s, I(k)])) for i in range(16)]), h + [lt(k, n)])
    for k in range(20):
        x = [r.get(padd(cells['RibsRho'], 8 * k)), r.get(padd(cells['RibsFriction'], 8 * k))] + [r.get(padd(cells['RibsAffine'], 128 * k + 8 * i)) for i in range(16)]
        v.ensure('slot %d is NaN without a rib %d' % (k, k), and_(*[nanof(y) for y in x]), [r.pc, le(n, k)])
FLC, MSC = 'enve::ground::flat', 'enve::ground::mesh'
def samestr(a, b): return ite(a.args[0], samestr(a.args[1], b), samestr(a.args[2], b)) if a.op == 'ite' else B(a is b)
@spec('P16', 'enve_sfun_init')
def _(v):
    import exec as X
    env = v.sym('environment'); path = mk('svar', ('path',), 'S'); isset = var('isset', 'B'); st = State(); made = {}; asked = []
    def getenv(ex, st, a): asked.append(ex.cstr(a[0], st)); return ite(isset, env, NULL)
    v.ex.contracts['getenv'] = getenv; old = v.ex.cstr
    v.ex.cstr = lambda p, st: path if p is env else old(p, st)
    def maker(name, sig, vals):
        def c(ex, st, a):
            made.setdefault(name, []).append((st.pc, a[0], vals(st, a))); bad = var('rejected_' + name, 'B')
            ex.throws.append((and_(st.pc, bad), 'rejected')); st.pc = and_(st.pc, not_(bad)); return None
        v.contract(sig, c)
    mat = lambda st, p: [v.rd(st, padd(p, 8 * i)) for i in range(16)]
    maker('rdf', 'enve::ground::mesh::mesh({STR} const&, {AFF} const&)', lambda st, a: [v.rd(st, a[1], 'str')] + mat(st, a[2]))
    maker('obj', 'enve::ground::mesh::mesh({STR} const&, double', lambda st, a: [v.rd(st, a[1], 'str')] + mat(st, a[3]) + [a[2]])
    maker('flat', 'enve::ground::flat::flat(double, acme::point const&, {V3} const&)', lambda st, a: [a[1]] + list(v.rp(st, a[2])) + list(v.rv(st, a[3])))
    maker('shell', 'enve::shell::shell(unsigned long', lambda st, a: list(a[1:]))
    names = ['size', 'Rx', 'Mx', 'Ry', 'My', 'Ly', 'height', 'friction']; ps = [v.sym(n) for n in names]; x = {n: v.pre(p) for n, p in zip(names, ps)}
    v.assume += [le(0, x['size'])]
    r = v.run('enve_sfun_init', ps, st); r.sig = 'enve_sfun_init'
    v.safe(r); v.frame(r, [ptr(region('@' + g), 0) for g in ('ShellPtr', 'MeshPtr', 'FlatPtr')])
    n = mk('uf', ('strlen', path), 'I'); suf = lambda t: and_(le(4, n), mk('streq', (X.ssub(path, sub(n, I(4)), I(4)), t), 'B'))
    v.fact('the variable read is ENVE_GROUND_PATH', len(asked) == 1 and asked[0] is mk('strc', ('ENVE_GROUND_PATH',), 'S'))
    rej = lambda k: var('rejected_' + k, 'B')
    bad = or_(not_(isset), not_(or_(suf('.rdf'), suf('.obj'))), and_(suf('.rdf'), rej('rdf')), and_(suf('.obj'), rej('obj')), rej('flat'), rej('shell'))
    two = not_(and_(suf('.rdf'), suf('.obj')))
    v.throws(r, bad, [two], text='the variable is missing, the file has another extension, or the mesh, flat ground or shell is rejected')
    one = [R(1 if i % 5 == 0 else 0) for i in range(16)]
    glob = lambda g: v.rd(r.st, ptr(region('@' + g), 0), 'ptr')
    want = {'rdf': [path] + one, 'obj': [path] + one + [R(1)], 'flat': [x['friction'], R(0), R(0), x['height'], R(0), R(0), R(1)],
            'shell': [_t.toint(x['size'])] + [x[n] for n in names[1:6]]}
    for k, g in (('rdf', 'MeshPtr'), ('obj', 'MeshPtr'), ('flat', 'FlatPtr'), ('shell', 'ShellPtr')):
        h = [r.pc, two] + ([suf('.' + k)] if k in ('rdf', 'obj') else [])
        v.ensure('%s: built, and kept for the steps' % k, or_(*[and_(pc, peq(glob(g), p)) for pc, p, _ in made.get(k, [])]), h)
        for pc, p, vals in made.get(k, []):
            for i, (a, b) in enumerate(zip(vals, want[k])):
                v.ensure('%s: argument %d' % (k, i), samestr(a, b) if a.sort == 'S' else eq(a, b), h + [pc])
include('P16', 'P06', 'shell::setup')
include('P16', 'P12', 'shell::contact')
include('P16', 'P14', 'shell::contactPointAffine')
