import re
import exec as X
from spec import *
from geom import uf
from p01 import mesh_invariant, build_contract, BX
PT, TR, MS, TG = 'acme::point', 'acme::triangle', 'enve::ground::mesh', 'enve::triangleground'
GH = 1 << 16        # ghost cells of a stream: the path it was opened on, the number of lines read
C0 = lambda x: mk('strc', (x,), 'S')
LINE = lambda path, k: mk('uf', ('line', path, k), 'S')
NLINES = lambda path: mk('len', (mk('uf', ('lines', path), 'Q'),), 'I')
TOKEN = lambda l: mk('uf', ('firsttoken', l), 'S')
TAIL = lambda l: mk('uf', ('tail', l), 'S')
NF = lambda l: mk('uf', ('fields', l), 'I')
FIELD = lambda l, i: mk('uf', ('field', l, i), 'S')
ISNUM, ISINT = lambda t: mk('uf', ('isnumber', t), 'B'), lambda t: mk('uf', ('isinteger', t), 'B')
NUM, INT = lambda t: mk('uf', ('number', t), 'R'), lambda t: mk('uf', ('integer', t), 'I')
READABLE = lambda p: mk('uf', ('readable', p), 'B')
def library(v):
    """contracts of the library and of the private string helpers of the loader"""
    ex = v.ex; ir = v.ir
    def con(pat, f, n=None):
        hit = [s for s in [x['sig'] for x in ir.fns.values()] + list(ir.decls.values()) if re.match(pat, s)]
        for s in hit: ex.contracts[s] = f
        if not hit: raise GiveUp('no function ' + pat)
    st_ = lambda st, p: ex.load(st, p, 'str')
    vt = ptr(region(ex.new('alloca', 'vt')), 64); ios = ptr(region(ex.new('alloca', 'ios')), 0)
    def op(ex, st, a): ex.store(st, a[0], 'ptr', vt); ex.store(st, padd(vt, -24), 'i64', I(0)); ex.store(st, padd(a[0], GH), 'str', st_(st, a[1])); ex.store(st, padd(a[0], GH + 64), 'i64', I(0)); return None
    con(r'^std::basic_ifstream<.*>::basic_ifstream\(std::__cxx11', op)
    con(r'^std::basic_ifstream<.*>::is_open\(\)', lambda ex, st, a: READABLE(st_(st, padd(a[0], GH))))
    con(r'^std::basic_ios<.*>::widen\(', lambda ex, st, a: a[1])
    def getline(ex, st, a):
        p = st_(st, padd(a[0], GH)); k = v.rd(st, padd(a[0], GH + 64), 'i64'); c = lt(k, NLINES(p))
        ex.store(st, a[1], 'str', LINE(p, k)); ex.store(st, padd(a[0], GH + 64), 'i64', add(k, I(1)))
        ex.store(st, ios, 'ptr', vt); ex.store(st, padd(vt, -24), 'i64', I(0)); ex.store(st, padd(ios, 8), 'i1', c); return ios
    con(r'^std::getline<char', getline)
    con(r'^bool\(\) const', lambda ex, st, a: v.rd(st, padd(a[0], 8), 'i1'))
    def num(is_, val):
        def f(ex, st, a):
            t = st_(st, a[0]); c = is_(t); ex.throws.append((and_(st.pc, not_(c)), 'not a number')); st.pc = and_(st.pc, c)
            return val(t)
        return f
    con(r'^std::__cxx11::stod\(', num(ISNUM, NUM)); con(r'^std::__cxx11::stoi\(', num(ISINT, INT))
    ret = lambda f: (lambda ex, st, a: ex.store(st, a[0], 'str', f(st_(st, a[2]))))
    con(r'^enve::ground::mesh::firstToken\(', ret(TOKEN)); con(r'^enve::ground::mesh::tail\(', ret(TAIL))
    def split(ex, st, a):
        l = st_(st, a[1]); k = fresh('k', 'I'); ex.obls.append((st.pc, B(st_(st, a[3]) is C0(' ')), 'fields are separated by blanks'))
        ex.store(st, a[2], 'q', qfilter(NF(l), k, TRUE, rec({0: ('str', FIELD(l, k))}))); return None
    con(r'^enve::ground::mesh::split\(', split)
    def tri(ex, st, a):          # contract of the triangle constructor (P02)
        c = lt(a[2], 0); ex.throws.append((and_(st.pc, c), 'negative friction')); st.pc = and_(st.pc, not_(c))
        q = [v.rp(st, x) for x in a[3:6]]
        for k in range(3):
            for i in range(3): ex.store(st, padd(v.at(a[0], TR, 'm_vertex'), 32 * k + 8 + 8 * i), 'double', q[k][i])
        ex.store(st, v.at(a[0], TG, 'm_id'), 'i32', a[1]); ex.store(st, v.at(a[0], TG, 'm_friction'), 'double', a[2])
        b = v.at(a[0], TG, 'm_bbox')
        for i in range(3):
            ex.store(st, padd(v.at(b, BX, 'm_min'), 8 + 8 * i), 'double', minr(minr(q[0][i], q[1][i]), q[2][i]))
            ex.store(st, padd(v.at(b, BX, 'm_max'), 8 + 8 * i), 'double', maxr(maxr(q[0][i], q[1][i]), q[2][i]))
        return None
    v.contract('enve::triangleground::triangleground(int, double, {pt} const&', tri)
# The private helpers are verified below against what the loader relies on:
#   TOKEN(l)   the first run of characters other than blank, tab, CR, LF       (firstToken)
#   TAIL(l)    what follows the first token, without blanks or tabs around it  (tail)
#   NF(l), FIELD(l, i)   the maximal runs of non-blank characters, in order    (split by " ")
MODE = lambda path, k: mk('uf', ('mode', path, k), 'I')
def any_(f, n): return or_(*[f(i) for i in range(n)])
class Format:
    """the lines of a file; a line is a node line, an element line or neither"""
    def __init__(s, path, ext): s.path, s.ext = path, ext
    def line(s, k): return LINE(s.path, k)
    def tok(s, k, *ws):
        t = TOKEN(s.line(k)); return or_(*[mk('streq', (t, w), 'B') for w in ws])
    def first(s, k, *cs):
        c = fld(mk('strchar', (TOKEN(s.line(k)), I(0)), 'F'), 0, 'i8'); return or_(*[eq(c, ord(x)) for x in cs])
    def nodebad(s, k):
        l = s.nodes(k); return or_(not_(eq(NF(l), 3)), any_(lambda i: not_(ISNUM(FIELD(l, I(i)))), 3))
    def node(s, k, i): return NUM(FIELD(s.nodes(k), I(i)))
    def nn(s, k): j = fresh('j', 'I'); return Sum(k, j, ite(s.isnode(j), I(1), I(0)))
    def index(s, k, i): return sub(INT(FIELD(s.elem(k), I(i))), I(s.base))
    def elembad(s, k):
        l = s.elem(k); x = [not_(eq(NF(l), s.nfields)), any_(lambda i: not_(ISINT(FIELD(l, I(i)))), 3), any_(lambda i: or_(lt(s.index(k, i), 0), le(s.nn(k), s.index(k, i))), 3)]
        return or_(*(x + s.frictionbad(k)))
    def malformed(s, k): return or_(and_(s.isnode(k), s.nodebad(k)), and_(s.iselem(k), s.elembad(k)))
class Rdf(Format):
    base, nfields = 0, 4
    def hn(s, k): return s.tok(k, '[NODES]', 'NODES')
    def he(s, k): return s.tok(k, '[ELEMENTS]', 'ELEMENTS')
    def mode(s, k): return MODE(s.path, k)
    def data(s, k): return and_(not_(s.hn(k)), not_(s.he(k)), not_(s.first(k, '{', '%', '#', '\r')))
    def isnode(s, k): return and_(s.data(k), eq(s.mode(k), 1))
    def iselem(s, k): return and_(s.data(k), eq(s.mode(k), 2))
    def nodes(s, k): return TAIL(s.line(k))
    def elem(s, k): return s.line(k)
    def friction(s, k): return NUM(FIELD(s.line(k), I(3)))
    def frictionbad(s, k): return [not_(ISNUM(FIELD(s.line(k), I(3)))), lt(s.friction(k), 0)]
    def step(s, k): return eq(s.mode(add(k, I(1))), ite(s.hn(k), I(1), ite(s.he(k), I(2), s.mode(k))))
    def start(s): return eq(s.mode(I(0)), 0)
class Obj(Format):
    base, nfields = 1, 3
    def isnode(s, k): return s.tok(k, 'v')
    def iselem(s, k): return and_(not_(s.tok(k, 'v')), s.tok(k, 'f'))
    def nodes(s, k): return TAIL(s.line(k))
    elem = nodes
    def friction(s, k): return s.mu
    def frictionbad(s, k): return [lt(s.mu, 0)]
def sections(v, F, t, memo):
    """replace the recurrences that track the section of the file by the section itself (lemma by induction)"""
    K = var('K', 'I')
    def lemma(x):
        f = mk('Fold', (K,) + x.args[1:], x.sort); m = memo.get(f)
        if m is None:
            m = memo[f] = 0; n = x.args[1]
            for c in (1, 2):
                i0 = len(v.obl)
                r = v.induct('section of a line #%d' % (len(memo)), f, lambda a, k, d: iff(a[n], eq(F.mode(k), c)), lambda k: [F.start()] if k is None else [F.step(k)], shifts=(0,)) if len(x.args[2]) == 1 else TRUE
                if r is not TRUE: memo[f] = m = c; break
                del v.obl[i0:]
            else:
                if len(x.args[2]) > 1:
                    pass
        return m
    done = {}
    def go(x):
        r = done.get(x)
        if r is not None: return r
        if x.op == 'Fold' and x.sort == 'B':
            c = lemma(x); r = eq(F.mode(go(x.args[0])), c) if c else rebuild(x, go)
        else: r = rebuild(x, go)
        done[x] = r; return r
    return go(t)
def top(t, ops):
    """applications of the given binders in a term, outermost first"""
    out, seen = [], set()
    def go(x):
        if x in seen: return
        seen.add(x)
        if x.op in ops: out.append(x); return
        for y in walk_args(x.args): go(y)
    go(t); return out
def congruence(v, name, t, n, F):
    """lemma: the tests that end the loop over the lines amount to 'malformed' at the first line where either holds"""
    Es = [x for x in top(t, ('Exists', 'First')) if x.op == 'Exists' and x.args[0] is n]; k = fresh('k', 'I'); b = []
    for x in Es:
        j, g = open_(x); b.append(subst(g(x.args[1]), {j: k}))
    if v.ensure(name, iff(canonical(v, n, F, k)(or_(*b)), F.malformed(k)), [le(0, k), lt(k, n)], budget=120): v.assume.append(iff(or_(*Es), Exists(n, k, F.malformed(k))))
def canonical(v, n, F, upto=None):
    """rewriting under 'no line (before upto) is malformed': counts and searches of lines by the class they amount to"""
    memo = {}; done = {}; ranges = {n} if upto is None else {upto}
    def cls(c, g, j):
        k = fresh('k', 'I'); ranges.add(k); c = go(subst(g(c), {j: k}))
        if (c, k) not in memo:
            memo[c, k] = None
            for f in (F.isnode, F.iselem):
                if P.prove(list(v.assume) + [le(0, k), lt(k, n), not_(F.malformed(k))], iff(c, f(k)), v.timeout, 30).ok: memo[c, k] = f; break
        return memo[c, k], k
    def go(x):
        r = done.get(x)
        if r is not None: return r
        ok = x.op in ('FIdx', 'Sum', 'qfilter') and (x.args[0] in ranges or x.args[0].op == 'FIdx')
        if ok and x.op == 'FIdx':
            j, g = open_(x); f, k = cls(x.args[2], g, j)
            if f: r = FIdx(go(x.args[0]), go(x.args[1]), k, f(k))
        elif ok and x.op == 'Sum' and x.args[1].op == 'ite' and {x.args[1].args[1], x.args[1].args[2]} == {I(1), I(0)}:
            j, g = open_(x); c = x.args[1]; f, k = cls(c.args[0] if c.args[1] is I(1) else not_(c.args[0]), g, j)
            if f: r = Sum(go(x.args[0]), k, ite(f(k), I(1), I(0)))
        elif ok and x.op == 'qfilter' and x.args[1] is not TRUE:
            j, g = open_(x); f, k = cls(x.args[1], g, j)
            if f: r = qfilter(go(x.args[0]), k, f(k), go(subst(g(x.args[2]), {j: k})))
        if r is None: r = rebuild(x, go)
        done[x] = r; return r
    return go
def loaded(v, F, p, r, built, pose, rw):
    n = NLINES(F.path); k = fresh('k', 'I'); s4 = mk('uf', ('strlen', F.path), 'I'); nel = Sum(n, k, ite(F.iselem(k), I(1), I(0)))
    suffix = mk('streq', (X.ssub(F.path, sub(s4, I(4)), I(4)), F.ext), 'B')
    bad = or_(lt(s4, 4), not_(suffix), not_(READABLE(F.path)), Exists(n, k, F.malformed(k)), eq(nel, 0))
    r.obls = [(rw(a), rw(b), t) for a, b, t in r.obls]; v.safe(r); thr = rw(r.throws); pc = rw(r.pc)
    congruence(v, 'the loader gives up exactly at a malformed line', thr, n, F)
    congruence(v, 'the loader reaches the end exactly when no line is malformed', pc, n, F)
    cn = canonical(v, n, F); full = lambda t: cn(rw(t))
    nomal = not_(Exists(n, k, F.malformed(k)))
    v.ensure('returns only when no line is malformed', implies(pc, nomal), budget=120)
    v.ensure('otherwise returns exactly when the file is accepted', iff(cn(pc), not_(bad)), [nomal], budget=120)
    v.ensure('throws only when the file is rejected', implies(cn(thr), bad), [nomal], budget=120)
    v.ensure('returns true', r.ret, [r.pc])
    pc = [not_(bad)]; q = full(r.get(v.at(p, MS, 'm_triangles'), 'q')); i = var('i', 'I')
    v.ensure('as many triangles as element lines', eq(qlen(q), nel), pc, budget=120)
    e = FIdx(n, i, k, F.iselem(k)); t = sel(q, i, 0, 'ptr'); H = pc + [le(0, i), lt(i, nel)]; M, T = v.affine(pose)
    for m in range(3):
        g = FIdx(e, F.index(e, m), k, F.isnode(k)); Y = Vec(*[F.node(g, j) for j in range(3)])
        v.veq('vertex %d of triangle i is the node named by its element line, in the given pose' % m, Vec(*[full(x) for x in v.rp(r.st, padd(v.at(t, TR, 'm_vertex'), 32 * m))]), M @ Y + T, H, budget=120)
    v.ensure('friction of triangle i', eq(full(v.rd(r.st, v.at(t, TG, 'm_friction'))), F.friction(e)), H, budget=120)
    v.ensure('identifiers count up from zero', eq(full(v.rd(r.st, v.at(t, TG, 'm_id'), 'i32')), i), H, budget=120)
    for t, g in mesh_invariant(v, p, r.st, r.get(v.at(p, MS, 'm_triangles'), 'q'), built): v.ensure(t, full(g), pc)
@spec('P15', 'load(rdf)', limit=400)
def _(v):
    p = v.sym('self', MS); path = v.sym('path'); pose = v.sym('pose'); library(v); built = build_contract(v)
    st = State(); v.ex.store(st, v.at(p, MS, 'm_triangles'), 'q', QEMPTY)
    r = v.run('enve::ground::mesh::load({STR} const&, {AFF} const&)', [p, path, pose], st)
    F = Rdf(v.pre(path, 'str'), '.rdf'); memo = {}
    loaded(v, F, p, r, built, pose, lambda t: sections(v, F, t, memo))
@spec('P15', 'load(obj)', limit=400)
def _(v):
    p = v.sym('self', MS); path = v.sym('path'); pose = v.sym('pose'); library(v); built = build_contract(v)
    st = State(); v.ex.store(st, v.at(p, MS, 'm_triangles'), 'q', QEMPTY)
    F = Obj(v.pre(path, 'str'), '.obj'); F.mu = var('mu')
    r = v.run('enve::ground::mesh::load({STR} const&, double', [p, path, F.mu, pose], st)
    loaded(v, F, p, r, built, pose, lambda t: t)

# ------------------------------------------------------------------ the private helpers
def span(t):
    """a part of the line as (start, length)"""
    if t.op == 'ite':
        a, b = span(t.args[1]), span(t.args[2]); return tuple(ite(t.args[0], x, y) for x, y in zip(a, b))
    if t.op == 'strc' and not t.args[0]: return I(0), I(0)
    if t.op == 'uf' and t.args[0] == 'substr': return t.args[2], t.args[3]
    raise GiveUp('not a part of the line: ' + show(t)[:80])
def same_part(x, y):
    a, b = span(x), span(y); return and_(eq(a[1], b[1]), or_(eq(a[1], 0), eq(a[0], b[0])))
def helper(v, f):
    p = v.sym('self', MS); a = v.sym('in'); l = v.pre(a, 'str'); n = X.slen(l); k = fresh('k', 'I')
    r = v.run('enve::ground::mesh::%s({STR} const&' % f, [p, a]); v.safe(r); v.nothrow(r); v.ensure('returns', r.pc)
    return r, l, n, k, r.get(r.retp, 'str')
def charset(l, cs): return lambda i: or_(*[eq(X.schar(l, i), ord(c)) for c in cs])
def runs(l, n, k, cs):
    """first token [A, b) of the line, whether there is one, whether a blank follows, and the defining facts"""
    bl = charset(l, cs); nb = lambda i: not_(bl(i)); A = First(n, k, nb(k)); has = Exists(n, k, nb(k)); m = sub(n, A); d = First(m, k, bl(add(A, k))); more = Exists(m, k, bl(add(A, k))); b = add(A, d)
    return bl, nb, A, has, b, more, [implies(has, and_(le(0, A), lt(A, n), nb(A))), implies(more, and_(le(0, d), lt(b, n), bl(b)))]
def parts(v, s, cases, ax):
    st, ln = span(s)
    for t, h, S0, L0 in cases:
        v.ensure('length of the result: ' + t, eq(ln, L0), [h] + ax); v.ensure('start of the result: ' + t, or_(eq(L0, 0), eq(st, S0)), [h] + ax)
@spec('P15', 'firstToken: the first run of non-blank characters')
def _(v):
    r, l, n, k, s = helper(v, 'firstToken'); bl, nb, A, has, b, more, ax = runs(l, n, k, ' \t\r\n')
    parts(v, s, [('no token', not_(has), I(0), I(0)), ('up to the next blank', and_(has, more), A, sub(b, A)), ('up to the end', and_(has, not_(more)), A, sub(n, A))], ax)
@spec('P15', 'tail: what follows the first token')
def _(v):
    r, l, n, k, s = helper(v, 'tail'); bl, nb, A, has, b, more, ax = runs(l, n, k, ' \t')
    m = sub(n, b); d = First(m, k, nb(add(b, k))); rest = Exists(m, k, nb(add(b, k))); c = add(b, d); z = LIdx(n, k, nb(k))
    ax += [implies(rest, and_(le(0, d), lt(c, n), nb(c))), implies(has, and_(le(0, z), lt(z, n), nb(z))), implies(and_(le(0, c), lt(c, n), nb(c)), le(c, z))]
    parts(v, s, [('at most one token', not_(and_(has, more, rest)), I(0), I(0)), ('the rest, blanks removed', and_(has, more, rest), c, add(sub(z, c), I(1)))], ax)
@spec('P15', 'split: the maximal runs of non-blank characters, in order')
def _(v):
    p = v.sym('self', MS); a = v.sym('in'); o = v.sym('out'); t = v.sym('token'); st = State(); v.ex.store(st, t, 'str', C0(' '))
    l = v.pre(a, 'str'); n = X.slen(l); blank = lambda k: eq(X.schar(l, k), 32); last = sub(n, I(1)); open_end = and_(lt(0, n), not_(blank(last)))
    start = lambda k: mk('uf', ('start', l, k), 'I')             # one past the last blank before k, by recursion:
    define = lambda k: [eq(start(I(0)), 0), eq(start(add(k, I(1))), ite(blank(k), add(k, I(1)), start(k)))]
    run = lambda k: mk('uf', ('substr', l, start(k), sub(k, start(k))), 'S'); ends = lambda k: and_(blank(k), lt(start(k), k))
    r = v.run('enve::ground::mesh::split({STR} const&', [p, a, o, t], st); v.safe(r); v.nothrow(r); v.frame(r, [o, t])
    k = fresh('k', 'I'); v.ensure('a run starts no later than where it is: initially', le(start(I(0)), 0), define(k)); v.ensure('a run starts no later than where it is: preserved', le(start(add(k, I(1))), add(k, I(1))), define(k) + [le(start(k), k)])
    join = lambda a, b: ite(a.args[0], join(a.args[1], b), join(a.args[2], b)) if a.op == 'ite' else X.sapp(a, b)
    lem, cm, done = {}, {}, {}
    def collected(x):
        """lemma by induction: the characters collected so far are the run that ends here"""
        if x.sort != 'S' or len(x.args[2]) != 1: return False
        key = x.args[2:4]
        if key not in lem:
            k, accs, steps = open_fold(x); i = len(lem) + 1
            lem[key] = v.ensure('characters collected #%d: initially' % i, same_part(go(x.args[2][0]), run(I(0))), define(k)) and \
                v.ensure('characters collected #%d: preserved' % i, same_part(go(subst(steps[0], {accs[0]: run(k)})), run(add(k, I(1)))), define(k) + [le(0, k), lt(k, n), le(start(k), k)])
        return lem[key]
    def cls(x):
        j, g = open_(x); k = fresh('k', 'I'); c = go(subst(g(x.args[1]), {j: k}))
        if c not in cm:
            cm[c] = None
            for nm, f in (('end of a field', ends), ('open end', lambda k: and_(eq(k, last), not_(blank(k))))):
                if P.prove(v.assume + [le(0, k), lt(k, n), le(start(k), k)], iff(c, f(k)), v.timeout, 30).ok: cm[c] = nm; break
        return cm[c]
    def go(x):
        r = done.get(x)
        if r is not None: return r
        if x.op == 'Fold' and collected(x): r = run(go(x.args[0]))
        elif x.op in ('Exists', 'First') and x.args[0] is n and cls(x) == 'open end': r = open_end if x.op == 'Exists' else ite(open_end, last, n)
        elif x.op == 'qfilter' and cls(x) == 'end of a field':
            j, g = open_(x); r = qfilter(go(x.args[0]), j, ends(j), go(g(x.args[2])))
        if r is None:
            r = rebuild(x, go)
            if r.op == 'uf' and r.args[0] == 'concat': r = join(r.args[1], r.args[2])
            if r.op == 'streq' and r.args[1] == '': r = eq(X.slen(r.args[0]), 0)
        done[x] = r; return r
    q = go(r.get(o, 'q')); v.ensure('returns', go(r.pc)); i = var('i', 'I')
    for nm, h, N in (('the line ends in a field', open_end, last), ('the line ends in a blank', not_(open_end), n)):
        nf = Sum(N, k, ite(ends(k), I(1), I(0))); v.ensure(nm + ': number of fields', eq(qlen(q), add(nf, I(1)) if N is last else nf), [h])
        v.ensure(nm + ': field i', same_part(sel(q, i, 0, 'str'), run(FIdx(N, i, k, ends(k)))), [h, le(0, i), lt(i, nf)])
        if N is last: v.ensure(nm + ': last field', same_part(sel(q, nf, 0, 'str'), run(n)), [h, eq(start(n), start(last))])
# ------------------------------------------------------------------ constructors
def ctor(v, load, args, sig):
    p = v.sym('self', MS); calls = []
    def con(ex, st, a):
        bad = var('rejected', 'B'); ex.throws.append((and_(st.pc, bad), 'rejected')); calls.append((st.pc, list(a), v.rd(st, v.at(a[0], MS, 'm_triangles'), 'q'))); st.pc = and_(st.pc, not_(bad)); ex.store(st, v.at(a[0], MS, 'm_triangles'), 'q', LOADED); return TRUE
    LOADED = mk('svar', ('loaded',), 'Q'); v.contract(load, con)
    r = v.run(sig, [p] + args); v.safe(r)
    v.ensure('the file is loaded once, into an empty mesh, with the arguments given', and_(B(len(calls) == 1), *[and_(pc, *[peq(x, y) if x.sort == 'P' else eq(x, y) for x, y in zip(a, [p] + args)], eq(qlen(q), 0)) for pc, a, q in calls]))
    v.ensure('an exception exactly when the file is rejected', iff(r.throws, var('rejected', 'B'))); v.ensure('otherwise it returns', iff(r.pc, not_(var('rejected', 'B'))))
    v.ensure('what was loaded is kept', B(r.get(v.at(p, MS, 'm_triangles'), 'q') is LOADED)); v.frame(r, [p])
@spec('P15', 'mesh(path, pose)')
def _(v): ctor(v, 'enve::ground::mesh::load({STR} const&, {AFF} const&)', [v.sym('path'), v.sym('pose')], 'enve::ground::mesh::mesh({STR} const&, {AFF} const&)')
@spec('P15', 'mesh(path, friction, pose)')
def _(v): ctor(v, 'enve::ground::mesh::load({STR} const&, double', [v.sym('path'), var('mu'), v.sym('pose')], 'enve::ground::mesh::mesh({STR} const&, double')
include('P15', 'P02', 'triangleground(')
include('P15', 'P23', 'aabb::clamp', 'aabb constructors', 'aabb::updateMaxMin')
ASSUME = ['the file system: std::ifstream opens a readable file, std::getline delivers its lines in order and then fails; std::stod and std::stoi either convert the text or throw (their values are functions of the text)',
          'a number in the file converts to a real number: a field spelled nan is only covered by the replay harness', 'std::string find_first_of, find_first_not_of, find_last_not_of, substr, +=, [], compare as documented']
