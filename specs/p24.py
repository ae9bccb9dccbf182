from spec import *
from shellc import *
ASSUME = ['Eigen::JacobiSVD::compute (used by Transform::rotation) is trusted: for an orthogonal matrix M, unit singular values and U V^T = M']
B = 'acme::aabb'
@spec('P24', 'shell::transform')
def _(v):
    s = shell(v); q = v.sym('pose'); A, T_ = v.affine(q)
    r = v.run('enve::shell::transform(', [s.p, q]); v.nothrow(r); v.safe(r); v.frame(r, [s.p])
    for k in range(16): v.ensure('pose entry %d adopted' % k, eq(r.get(padd(s.affp, 8 * k)), v.pre(padd(q, 8 * k))), [r.pc])
    for m, x in (('m_ribs', s.ribs), ('m_out', s.out), ('m_candidates', s.cand)): v.seq('%s unchanged' % m, r.get(v.at(s.p, C, m), 'q'), x)
@spec('P24', 'pose accessors')
def _(v):
    s = shell(v)
    def acc(sig, want, name):
        r = v.run(sig, [s.p]); v.nothrow(r); v.safe(r); v.frame(r)
        v.veq(name, r.vec(r.retp), want, [r.pc])
    acc('enve::shell::translation(', s.T, 'translation() is the pose translation')
    for k, f in enumerate('xyz'): acc('enve::shell::%s() const' % f, s.A.c[k], '%s() is column %d of the linear part' % (f, k))
    r = v.run('enve::shell::linear(', [s.p]); v.nothrow(r); v.safe(r); v.frame(r)
    for k in range(3): v.veq('linear() column %d' % k, r.vec(padd(r.retp, 24 * k)), s.A.c[k], [r.pc])
    r = v.run('enve::shell::transformation(', [s.p]); v.nothrow(r); v.safe(r); v.frame(r)
    v.fact('transformation() is the stored pose', r.ret is s.affp, show(r.ret))
    o = v.sym('ang'); r = v.run('enve::shell::eulerAngles(', [s.p, o]); v.nothrow(r); v.safe(r); v.frame(r, [o])
    v.veq('eulerAngles() are the Z-X-Y angles of the linear part', r.vec(o), euler(s.A), [r.pc])
@spec('P24', 'shell::updateBBox')
def _(v):
    s = shell(v); R_ = v.pre(v.at(s.shapep, 'enve::shape', 'm_r_x')); v.assume.append(le(0, R_))
    r = v.run('enve::shell::updateBBox(', [s.p]); v.nothrow(r); v.safe(r); v.frame(r, [s.bboxp])
    lo, hi = r.pt(v.at(s.bboxp, B, 'm_min')), r.pt(v.at(s.bboxp, B, 'm_max'))
    e = Vec(R_, R_, R_)
    v.veq('minimum corner', lo, s.T - e, [r.pc]); v.veq('maximum corner', hi, s.T + e, [r.pc])
    r = v.run('enve::shell::bbox(', [s.p]); v.nothrow(r); v.safe(r)
    v.fact('bbox() is the stored box', r.get(r.retp, 'ptr') is s.bboxp, show(r.get(r.retp, 'ptr')))
@spec('P24', 'history: transform then updateBBox (lemma)')
def _(v):
    s = shell(v); R_ = v.pre(v.at(s.shapep, 'enve::shape', 'm_r_x')); v.assume.append(le(0, R_)); q = v.sym('pose'); A, T_ = v.affine(q)
    r1 = v.run('enve::shell::transform(', [s.p, q]); r = v.run('enve::shell::updateBBox(', [s.p], st=r1.st)
    lo, hi = r.pt(v.at(s.bboxp, B, 'm_min')), r.pt(v.at(s.bboxp, B, 'm_max')); e = Vec(R_, R_, R_)
    v.veq('minimum corner follows the new pose', lo, T_ - e, [r.pc]); v.veq('maximum corner follows the new pose', hi, T_ + e, [r.pc])
    v.veq('shape of the cube is independent of earlier poses', hi - lo, e + e, [r.pc])
@spec('P24', 'shell::translate')
def _(v):
    s = shell(v); q = v.sym('vec'); t = v.prev(q)
    r = v.run('enve::shell::translate(', [s.p, q]); v.nothrow(r); v.safe(r); v.frame(r, [s.p])
    A, T_ = r.aff(s.affp)
    v.veq('translation moves by linear part times vector', T_, s.T + s.A @ t, [r.pc])
    for k in range(3): v.veq('linear part column %d unchanged' % k, A.c[k], s.A.c[k], [r.pc])
@spec('P24', 'shell::rotation of a rigid pose')
def _(v):
    # trusted: Eigen's singular value decomposition.  For a rotation M every decomposition has unit singular values and
    # U V^T = M; the rotation of the pose depends on U V^T only, so that U = M, V = 1 stands for all of them.
    s = shell(v); A = s.A
    for i in range(3):
        for j in range(i, 3): v.assume.append(eq(A.c[i].dot(A.c[j]), 1 if i == j else 0))
    v.assume.extend(eq(A.c[0].cross(A.c[1])[k], A.c[2][k]) for k in range(3))
    log = []
    def svd(ex, st, a):
        M = [ex.load(st, padd(a[1], 8 * k), 'double') for k in range(9)]; log.append((st.pc, M))
        for k in range(9): ex.store(st, padd(a[0], 8 * k), 'double', M[k]); ex.store(st, padd(a[0], 72 + 8 * k), 'double', R(1 if k % 4 == 0 else 0))
        for k in range(3): ex.store(st, padd(a[0], 144 + 8 * k), 'double', R(1))
        for k, x in ((172, 1), (173, 1), (174, 0), (175, 1), (176, 0), (177, 1), (178, 0)): ex.store(st, padd(a[0], k), 'i8', I(x))
        return a[0]
    v.contract('Eigen::JacobiSVD<Eigen::Matrix<double, 3, 3, 0, 3, 3>, 2>::compute(', svd)
    r = v.run('enve::shell::rotation(', [s.p])
    for pc, M in log:
        c = [Vec(*M[3 * k:3 * k + 3]) for k in range(3)]
        for i in range(3):
            for j in range(i, 3): v.ensure('an orthogonal matrix is decomposed (%d%d)' % (i, j), eq(c[i].dot(c[j]), 1 if i == j else 0), [pc])
    v.nothrow(r); v.safe(r); v.frame(r)
    for k in range(3): v.veq('rotation() column %d is that of the pose' % k, r.vec(padd(r.retp, 24 * k)), A.c[k], [r.pc])
