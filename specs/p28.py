from spec import *
from geom import *
from p18 import nums, run
BX, SH, RB, TG, FL, MS = 'acme::aabb', 'enve::shape', 'enve::rib', 'enve::triangleground', 'enve::ground::flat', 'enve::ground::mesh'
def nm(c): return c.split('::')[-1]
# accessor -> path of members; a trailing () const is read access, () write access
ACC = [(LN, 'origin', (LN, 'm_origin')), (LN, 'direction', (LN, 'm_direction')), (RY, 'origin', (RY, 'm_origin')), (RY, 'direction', (RY, 'm_direction')), (PL, 'origin', (PL, 'm_origin')), (PL, 'normal', (PL, 'm_normal')),
       (BL, 'radius', (BL, 'm_radius')), (BL, 'center', (BL, 'm_center')), (DK, 'radius', (DK, 'm_radius')), (DK, 'layingPlane', (DK, 'm_plane')), (DK, 'center', (DK, 'm_plane', PL, 'm_origin')), (DK, 'normal', (DK, 'm_plane', PL, 'm_normal')),
       (BX, 'min', (BX, 'm_min')), (BX, 'max', (BX, 'm_max')), (BX, 'id', (BX, 'm_id')), (BX, 'pos', (BX, 'm_pos')),
       (SH, 'Rx', (SH, 'm_r_x')), (SH, 'Mx', (SH, 'm_m_x')), (SH, 'Ry', (SH, 'm_r_y')), (SH, 'My', (SH, 'm_m_y')), (SH, 'Ly', (SH, 'm_l_y')),
       (RB, 'width', (RB, 'm_width')), (RB, 'angle', (RB, 'm_angle')), (FL, 'friction', (FL, 'm_friction')), (FL, 'layingPlane', (FL,))]
READ = [(TG, 'id', (TG, 'm_id')), (TG, 'friction', (TG, 'm_friction')), (TG, 'normal', (TG, 'm_normal')), (TG, 'bbox', (TG, 'm_bbox'))]
def path(v, p, ms):
    for i in range(0, len(ms) - 1, 2): p = v.at(p, ms[i], ms[i + 1])
    return p
def mka(cls, f, ms, suffixes):
    @spec('P28', '%s::%s' % (nm(cls), f))
    def _(v):
        p = v.sym('self', cls)
        for sfx in suffixes:
            r = run(v, '%s::%s()%s' % (cls, f, sfx), [p], [] if sfx else [p])
            v.fact('the %s accessor refers to the stored value' % ('reading' if sfx else 'writing'), r.ret is path(v, p, ms), show(r.ret))
            if not sfx: v.frame(r)
for c, f, ms in ACC: mka(c, f, ms, ('', ' const'))
for c, f, ms in READ: mka(c, f, ms, (' const',))
def mki(cls, fs, n, arg):
    @spec('P28', '%s vertex access' % nm(cls))
    def _(v):
        p = v.sym('self', cls); q = v.at(p, TRI if cls == TG else cls, 'm_vertex')
        for f in fs:
            for i in range(n):
                r = run(v, '%s::%s' % (cls, f.replace('#', arg)), [p, I(i)]); v.fact('%s of %d refers to vertex %d' % (f.replace('#', ''), i, i), r.ret is padd(q, 32 * i), show(r.ret))
mki(SG, ('vertex(#)', 'vertex(#) const', 'operator[](#)', 'operator[](#) const'), 2, 'int')
mki(TRI, ('vertex(#)', 'vertex(#) const', 'operator[](#)', 'operator[](#) const'), 3, 'int')
mki(TG, ('vertex(#) const', 'operator[](#) const'), 3, 'unsigned long')
def mkv(cls, fs, arg):
    @spec('P28', '%s vertex index out of range' % nm(cls))
    def _(v):
        p = v.sym('self', cls); i = var('i', 'I'); v.assume += [le(0, i)]
        for f in fs:
            r = v.run('%s::%s' % (cls, f.replace('#', arg)), [p, i]); v.throws(r, le(3, i))
mkv(TRI, ('vertex(#) const', 'operator[](#) const'), 'int')
@spec('P28', 'aabb coordinates')
def _(v):
    p = v.sym('self', BX)
    for m in ('min', 'max'):
        for i in range(3):
            for sfx in ('', ' const'):
                r = run(v, 'acme::aabb::%s(int)%s' % (m, sfx), [p, I(i)]); v.fact('%s(%d)%s refers to the stored coordinate' % (m, i, sfx), r.ret is padd(v.at(p, BX, 'm_' + m), 8 + 8 * i), show(r.ret))
        x = Vec(var('x'), var('y'), var('z')); o = 'min' if m == 'max' else 'max'
        r = run(v, 'acme::aabb::%s(double, double, double)' % m, [p] + list(x), [p]); v.veq('%s(x,y,z) sets that corner' % m, r.pt(v.at(p, BX, 'm_' + m)), x, [r.pc])
        v.veq('%s(x,y,z) keeps the other corner' % m, r.pt(v.at(p, BX, 'm_' + o)), v.prep(v.at(p, BX, 'm_' + o)), [r.pc])
        for n in ('m_id', 'm_pos'): v.ensure('%s(x,y,z) keeps %s' % (m, n), eq(r.get(v.at(p, BX, n), 'i32'), v.pre(v.at(p, BX, n), 'i32')), [r.pc])
N3, V3 = 'double, double, double', '{V3} const&'
CT = {LN: [((N3 + ', ' + N3), 'nn'), ('{pt} const&, ' + V3, 'pv')], RY: [((N3 + ', ' + N3), 'nn'), ('{pt} const&, ' + V3, 'pv')], PL: [((N3 + ', ' + N3), 'nn'), ('{pt} const&, ' + V3, 'pv')],
      SG: [((N3 + ', ' + N3), 'nn'), ('{pt} const&, {pt} const&', 'pp'), ('{pt} const*', 'a2')], TRI: [(', '.join([N3] * 3), 'nnn'), ('{pt} const&, {pt} const&, {pt} const&', 'ppp'), ('{pt} const*', 'a3')],
      DK: [('double, ' + N3 + ', ' + N3, '1nn'), ('double, {pt} const&, ' + V3, '1pv'), ('double, acme::plane const&', '1P')], BL: [('double, ' + N3, '1n'), ('double, {pt} const&', '1p')],
      PT: [('double const&, double const&, double const&', 'rrr')]}
def mkct(cls):
    @spec('P28', '%s construction' % nm(cls))
    def _(v):
        for sg, form in CT[cls]:
            p = v.sym('self', None); args, want = [], []
            for k, f in enumerate(form):
                if f == 'n': x = [var('n%d%s' % (k, c)) for c in 'xyz']; args += x; want += x
                elif f == '1': x = var('r'); args.append(x); want.append(x)
                elif f == 'r': q = v.sym('r%d' % k); args.append(q); want.append(v.pre(q))
                elif f == 'p': q = v.sym('p%d' % k, PT); args.append(q); want += list(v.prep(q))
                elif f == 'v': q = v.sym('v%d' % k); args.append(q); want += list(v.prev(q))
                elif f == 'P': q = v.sym('plane', PL); args.append(q); want += entity(v, State(), q, PL)
                elif f == 'a': q = v.sym('arr'); args.append(q); want += [x for j in range(int(form[1])) for x in v.prep(padd(q, 32 * j))]; break
            r = run(v, '%s::%s(%s)' % (cls, nm(cls), sg), [p] + args, [p]); got = nums(v, r.st, p, cls)
            for i, (g, w) in enumerate(zip(got, want)): v.ensure('%s: defining number %d' % (form, i), eq(g, w), [r.pc])
            v.fact('%s: every defining number is given' % form, len(got) == len(want))
for c in CT: mkct(c)
@spec('P28', 'aabb::clear empties the box')
def _(v):
    p = v.sym('self', BX); r = run(v, 'acme::aabb::clear()', [p], [p])
    for m in ('m_min', 'm_max'):
        for i, x in enumerate(r.pt(v.at(p, BX, m))): v.fact('%s[%d] is not a number' % (m, i), x is NAN, show(x))
@spec('P28', 'shell::checkWidthBound')
def _(v):
    from shellc import shell
    s = shell(v); y = var('y'); r = run(v, 'enve::shell::checkWidthBound(', [s.p, y]); q = v.run('enve::shape::checkWidthBound(', [s.shapep, y])
    v.ensure('the bound of the profile', iff(r.ret, q.ret), [r.pc])
    v.ensure('true exactly on [-Ly, Ly]', iff(r.ret, le(absr(y), v.pre(v.at(s.shapep, SH, 'm_l_y')))), [r.pc])
@spec('P28', 'mesh triangle access')
def _(v):
    p = v.sym('self', MS); tp = v.at(p, MS, 'm_triangles'); ts = v.pre(tp, 'q'); i = var('i', 'I'); v.assume += [le(0, i), lt(i, qlen(ts))]
    for f in ('ptrTriangleground(unsigned long) const', 'operator[](unsigned long) const'):
        r = run(v, MS + '::' + f, [p, i]); v.fact('%s is the i-th triangle' % f, r.get(r.retp, 'ptr') is sel(ts, i, 0, 'ptr'), show(r.get(r.retp, 'ptr')))
    r = run(v, MS + '::vecptrTriangleground(', [p]); v.fact('vecptrTriangleground() is the stored list', r.ret is tp, show(r.ret)) if r.ret is not None else v.seq('vecptrTriangleground() is the stored list', r.get(r.retp, 'q'), ts)
    r = run(v, MS + '::size() const', [p]); v.ensure('size() is the number of triangles', eq(r.ret, qlen(ts)), [r.pc])
def mkd(cls, ms):
    @spec('P28', '%s: nothing given' % nm(cls))
    def _(v):
        p = v.sym('self', cls); r = run(v, '%s::%s()' % (cls, nm(cls)), [p], [p])
        for path_, k in ms:
            q = path(v, p, path_); xs = r.pt(q) if k == 'pt' else [r.get(padd(q, 8 * i), 'double') for i in range(k)]
            for i, x in enumerate(xs): v.ensure('%s[%d] is not a number' % (path_[-1], i), TRUE if x is NAN else FALSE, [r.pc])
DSK = [((DK, 'm_radius'), 1), ((DK, 'm_plane', PL, 'm_origin'), 'pt'), ((DK, 'm_plane', PL, 'm_normal'), 3)]
for c, ms in ((SH, [((SH, m), 1) for m in ('m_r_x', 'm_m_x', 'm_r_y', 'm_m_y', 'm_l_y')]), (BL, [((BL, 'm_radius'), 1), ((BL, 'm_center'), 'pt')]),
              (FL, [((FL, 'm_friction'), 1), ((PL, 'm_origin'), 'pt'), ((PL, 'm_normal'), 3)]), (RB, DSK + [((RB, m), 1) for m in ('m_y', 'm_width', 'm_angle')]),
              (TG, [((TG, 'm_friction'), 1), ((TG, 'm_normal'), 3)] + [((TG, 'm_bbox', BX, m), 'pt') for m in ('m_min', 'm_max')])): mkd(c, ms)
