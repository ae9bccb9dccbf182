"""Contract layer: specifications of the real functions, written over the verifier's terms.
A specification runs one function symbolically for all inputs satisfying its precondition and
states its postcondition, its exceptional condition, its frame and its safety obligations."""
from terms import *
import prove as P
from prove import prove, Result
import numeric
import exec as X
from exec import Ex, State, GiveUp
import time, traceback
from terms import MAYBENAN
V3 = 'Eigen::Matrix<double, 3, 1, 0, 3, 1>'
M4 = 'Eigen::Matrix<double, 4, 4, 0, 4, 4>'
AFF = 'Eigen::Transform<double, 3, 2, 0>'
AL = lambda t: '%s, std::allocator<%s%s>' % (t, t, ' ' if t.endswith('>') else '')
SP = lambda t: 'std::shared_ptr<%s>' % t
VEC = lambda t: 'std::vector<%s, std::allocator<%s%s> %s>' % (t, t, ' ' if t.endswith('>') else '', '')
def vecsig(t):
    a = 'std::allocator<%s>' % (t + (' ' if t.endswith('>') else ''))
    return 'std::vector<%s, %s>' % (t, a + (' ' if a.endswith('>') else ''))
TGP = 'std::shared_ptr<enve::triangleground const>'
TGV = vecsig(TGP)
BOXP = 'std::shared_ptr<acme::aabb const>'
STR = 'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >'
ABB = dict(V3=V3, M4=M4, AFF=AFF, TGV=TGV, STR=STR, BOXP=BOXP, VR=vecsig('double'), VP=vecsig('acme::point'), VV=vecsig(V3), VA=vecsig(AFF),
           BOXV=vecsig(BOXP), flat='enve::ground::flat', mesh='enve::ground::mesh', line='acme::line', pt='acme::point', out='enve::output')
def S(sig):
    for k, v in ABB.items(): sig = sig.replace('{%s}' % k, v)
    while '> >' in sig: sig = sig.replace('> >', '>>')
    return sig
EPS = R(Fraction(2) ** -26)
KNOWN = {  # members by ordinal and type, used when a private member was renamed
}
import terms as _t
def _srt(a, b): return a.sort if a.__class__ is T else (b.sort if b.__class__ is T else 'R')
def _l2(f): return lambda a, b: f(lift(a, _srt(a, b)), lift(b, _srt(a, b)))
eq, lt, le, gt, ge = [_l2(f) for f in (_t.eq, _t.lt, _t.le, _t.gt, _t.ge)]
def sq(a): return mul(a, a)
def minr(a, b): return ite(lt(b, a), b, a)
def maxi(a, b): return ite(lt(a, b), b, a)
def maxr(a, b): return ite(lt(a, b), b, a)
class Vec:
    __slots__ = ('v',)
    def __init__(s, *v): s.v = tuple(lift(x) for x in (v[0] if len(v) == 1 else v))
    def __getitem__(s, i): return s.v[i]
    def __iter__(s): return iter(s.v)
    def __add__(a, b): return Vec(*[add(x, y) for x, y in zip(a, b)])
    def __sub__(a, b): return Vec(*[sub(x, y) for x, y in zip(a, b)])
    def __neg__(a): return Vec(*[neg(x) for x in a])
    def __mul__(a, k): return Vec(*[mul(x, lift(k)) for x in a])
    __rmul__ = __mul__
    def __truediv__(a, k): return Vec(*[div(x, lift(k)) for x in a])
    def dot(a, b): return add(*[mul(x, y) for x, y in zip(a, b)])
    def cross(a, b): return Vec(a[1]*b[2]-a[2]*b[1], a[2]*b[0]-a[0]*b[2], a[0]*b[1]-a[1]*b[0])
    def norm2(a): return a.dot(a)
    def norm(a): return sqrt(a.norm2())
    def unit(a):
        """Eigen's normalized(): unchanged when the norm is zero"""
        n = a.norm2(); c = lt(ZERO, n)
        return Vec(*[ite(c, div(x, sqrt(n)), x) for x in a])
    def eq(a, b): return and_(*[eq(x, y) for x, y in zip(a, b)])
    def map(a, f): return Vec(*[f(x) for x in a])
E1, E2, E3, Z3 = Vec(1, 0, 0), Vec(0, 1, 0), Vec(0, 0, 1), Vec(0, 0, 0)
def itev(c, a, b): return Vec(*[ite(c, x, y) for x, y in zip(a, b)])
class Mat:
    """3x3 by columns"""
    def __init__(s, c0, c1, c2): s.c = (c0, c1, c2)
    def __matmul__(s, v): return s.c[0] * v[0] + s.c[1] * v[1] + s.c[2] * v[2]
    def t(s, v): return Vec(s.c[0].dot(v), s.c[1].dot(v), s.c[2].dot(v))
class Run: pass

class V:
    def __init__(s, ir, lay, name, deadline, havoc=()):
        s.ir, s.lay, s.name = ir, lay, name
        s.ex = Ex(ir); s.ex.lay = lay; s.ex.init_globals(); s.ex.deadline = deadline; s.ex.set_havoc(havoc)
        s.obl = []          # (name, status, how, seconds, detail)
        s.assume = []       # facts assumed (preconditions)
        s.notes = []
        s.timeout = 4000; s.budget = 60.0; s.depth = 14
    def sub(s):
        """a fresh verification context for one more function"""
        w = V(s.ir, s.lay, s.name, s.ex.deadline, s.ex.havoc); w.ex.gwrites = s.ex.gwrites; w.timeout, w.budget, w.depth = s.timeout, s.budget, s.depth
        w.ex.calls, w.ex.used_contracts = s.ex.calls, s.ex.used_contracts
        return w
    # ------------------------------------------------------- layout
    def off(s, cls, mem):
        c = s.lay[cls]
        if mem in c['m']: return c['m'][mem][0]
        if mem in c['b']: return c['b'][mem]
        base = KNOWNLAY.get(cls, {}).get('m', {}).get(mem)
        if base is not None:
            for k, (o, ty) in c['m'].items():
                if o == base[0] and ty == base[1]: return o
        for b, o in c['b'].items():
            if b in s.lay and mem in s.lay[b]['m']: return o + s.lay[b]['m'][mem][0]
        raise GiveUp('no member %s in %s' % (mem, cls))
    def at(s, p, cls, *mems):
        """pointer to a (nested) member"""
        for m in mems:
            o = s.off(cls, m)
            p = padd(p, o)
            cls = (s.lay[cls]['m'].get(m) or [0, None])[1]
        return p
    def sym(s, name, cls=None): return s.ex.sym(name, cls)
    def new(s, name='tmp'):
        rid = s.ex.new('alloca', name); s.st.mem[rid] = {}
        return ptr(region(rid), 0)
    # ------------------------------------------------------- reading memory
    def rd(s, st, p, ty='double'):
        ex = s.ex; n = len(ex.obls); o = st.pc
        try: return ex.load(st, p, ty)
        finally: del ex.obls[n:]; st.pc = o
    def rv(s, st, p):
        return Vec(*[s.rd(st, padd(p, 8 * i)) for i in range(3)])
    def rp(s, st, p): return s.rv(st, padd(p, 8))      # acme::point: data follow the vtable pointer
    def pre(s, p, ty='double'): return s.rd(State(), p, ty)
    def prev(s, p): return s.rv(State(), p)
    def prep(s, p): return s.rp(State(), p)
    def affine(s, p, st=None):
        st = st or State()
        cols = [s.rv(st, padd(p, 32 * i)) for i in range(4)]
        return Mat(*cols[:3]), cols[3]
    def refv(s, ref, off): return Vec(*[fld(ref, off + 8 * i, 'double') for i in range(3)])
    # ------------------------------------------------------- running
    def run(s, sig, args, st=None, hyps=()):
        ex = s.ex
        n = ex.ir.find(S(sig)); f = ex.ir.fns[n]
        r = Run(); r.sig = f['sig']; r.V = s
        st = st or State()
        args = list(args); r.retp = None
        if f['args'] and f['args'][0].get('sret'):
            rid = ex.new('alloca', 'ret'); st.mem[rid] = {}; st.own.add(rid); r.retp = ptr(region(rid), 0); args = [r.retp] + args
        if len(args) != len(f['args']): raise GiveUp('arity of %s changed' % sig)
        no, nt = len(ex.obls), len(ex.throws)
        if hyps: ex.hyps = and_(*hyps)
        st2, v = ex.run(f, args, st)
        ex.hyps = TRUE
        r.obls = ex.obls[no:]; r.thr = ex.throws[nt:]
        r.throws = or_(*[c for c, _ in r.thr]); r.pc = st2.pc if st2 else FALSE
        r.st = st2; r.ret = v
        r.get = lambda p, ty='double': s.rd(st2, p, ty)
        r.vec = lambda p: s.rv(st2, p)
        r.pt = lambda p: s.rp(st2, p)
        r.aff = lambda p: s.affine(p, st2)
        return r
    def contract(s, sig, fn): s.ex.contracts[s.ir.fns[s.ir.find(S(sig))]['sig']] = fn
    # ------------------------------------------------------- obligations
    def ensure(s, name, goal, hyps=(), **kw):
        t = time.time()
        if isinstance(goal, Vec): raise TypeError('vector goal')
        # once the time of the specification is used up, or several obligations have failed, only cheap proofs are still tried
        nfail = sum(o[1] == 'refuted' for o in s.obl)
        budget = min(kw.get('budget', s.budget), max(2.0, s.ex.deadline - t), 60.0 if nfail < 3 else 6.0)
        r = prove(list(s.assume) + list(hyps), goal, kw.get('timeout', s.timeout), budget, kw.get('depth', s.depth))
        if r.status == 'undecided' and not kw.get('nonum'):
            # the provers gave up: look for an interpretation that refutes the obligation
            try: w = numeric.refute(list(s.assume) + list(hyps), goal, 6.0 if nfail < 3 else 2.0)
            except Exception: w = None
            if w is not None: r = Result('refuted', 'numeric model', str(r.detail)[:1500] + '\n  ' + w)
        s.obl.append((name, r.status, r.how, time.time() - t, None if r.ok else str(r.detail)[:3000] + (('\nmodel: ' + str(r.model)[:1500]) if r.model is not None else '')))
        return r.ok
    def veq(s, name, a, b, hyps=(), **kw):
        for i, c in enumerate('xyz'): s.ensure('%s.%s' % (name, c), eq(a[i], b[i]), hyps, **kw)
    def seq(s, name, a, b, hyps=(), **kw):
        """equality of sequences"""
        t = time.time()
        old = P.DEADLINE[0]; P.DEADLINE[0] = t + min(kw.get('budget', s.budget), max(2.0, s.ex.deadline - t))
        try: ok = P.seq_eq(list(s.assume) + list(hyps), a, b, s.timeout, s.depth)
        except P.Timeout: ok = False
        finally: P.DEADLINE[0] = old
        if ok: s.obl.append((name, 'proved', 'sequence extensionality', time.time() - t, None)); return True
        s.obl.append((name, 'undecided', 'sequence extensionality', time.time() - t, 'sequences not shown equal:\n  %s\n  %s' % (show(a, 8)[:1200], show(b, 8)[:1200])))
        return False
    def safe(s, r, hyps=(), **kw):
        """no assertion failure, null dereference or out-of-bounds access"""
        k = {}
        for pc, c, t in r.obls:
            if pc is FALSE or c is TRUE: continue
            k[t] = k.get(t, 0) + 1
            s.ensure('%s: safety: %s #%d' % (short(r.sig), t, k[t]), implies(pc, c), hyps, **kw)
        if not k: s.obl.append(('%s: safety: no unsafe access on any path' % short(r.sig), 'proved', 'syntactic', 0.0, None))
    def nothrow(s, r, hyps=(), **kw):
        s.ensure('%s: throws nothing' % short(r.sig), not_(r.throws), hyps, **kw)
    def throws(s, r, cond, hyps=(), **kw):
        s.ensure('%s: throws exactly when %s' % (short(r.sig), kw.pop('text', 'precondition violated')), iff(r.throws, cond), hyps, **kw)
        s.ensure('%s: returns normally otherwise' % short(r.sig), iff(r.pc, not_(cond)), hyps, **kw)
    def frame(s, r, allowed=(), start=None):
        """only the listed regions (objects named by their pointers) may change; start: cells given a value before the run"""
        al = set()
        for p in allowed:
            al.add(p.args[0].args[0] if p.__class__ is T else p)
        bad = []
        for rid, c in (r.st.mem if r.st else {}).items():
            if not isinstance(rid, str):
                bad.append(str(rid)); continue
            k = s.ex.regs.get(rid, {}).get('kind')
            if rid in al or rid in s.ex.havoc or rid.startswith('@_ZGV') or k in ('alloca', 'heap'): continue
            for o, x in c.items():
                if not isinstance(o, int): continue
                if start and (rid, o) in start:
                    if start[rid, o] is not x[1]: bad.append('%s+%d' % (rid, o))
                    continue
                w = x[1]; ty = {'R': 'double', 'I': 'i64', 'B': 'i1', 'P': 'ptr', 'Q': 'q', 'S': 'str'}.get(w.sort)
                if ty is None:
                    if w.op == 'rawsym' and w.args[:2] == (rid, o): continue
                    bad.append('%s+%d' % (rid, o)); continue
                try: old = s.pre(ptr(region(rid), o), ty)
                except Unsupported: old = None
                if old is not w:
                    if isinstance(x[0], str) and x[0] in SORT:
                        try: old = s.pre(ptr(region(rid), o), x[0])
                        except Unsupported: pass
                    if old is not None and old.sort == w.sort and prove(list(s.assume) + [r.pc], eq(old, w), 1000, 5).ok: continue
                    bad.append('%s+%d' % (rid, o))
        s.obl.append(('%s: frame: nothing else is modified' % short(r.sig), 'undecided' if bad else 'proved', 'syntactic', 0.0, ' '.join(bad)[:500] if bad else None))
    def folds(s, t):
        """innermost Fold applications of a term"""
        out, seen = [], set()
        def go(x):
            if x in seen: return
            seen.add(x)
            if x.op == 'Fold': out.append(x); return
            for y in _t.walk_args(x.args): go(y)
        go(t); return out
    def foldlast(s, F):
        """lemma: a component updated as ite(c, g, old) with g free of the accumulators holds the value
        assigned at the last iteration whose condition was true"""
        n, comp = F.args[0], F.args[1]
        k, accs, steps = open_fold(F); a = accs[comp]
        import summary
        lv, conds = summary.tree(steps[comp])
        if any(x is not a and (x.fv & set(accs)) for x in lv): return None
        g = summary.dropleaf(steps[comp], a)
        if g is None or (g.fv & set(accs)): return None
        c = summary.mapleaves(steps[comp], lambda l: FALSE if l is a else TRUE)
        j = fresh('j', 'I')
        m = {x: mk('Fold', (j, i) + F.args[2:], x.sort) for i, x in enumerate(accs)}
        m[k] = j
        return eq(F, _t.Last(n, j, subst(c, m), subst(g, {k: j}), F.args[2][comp]))
    def pos(s, F, Q):
        """does the recurrence run over the elements of a filtered sequence (rather than over Q itself)?"""
        for x in F.args[3]:
            seen = []
            def go(t):
                if t.op == 'FIdx': seen.append(t)
                for y in _t.walk_args(t.args): go(y)
            go(x)
            if seen: return True
        return False
    def induct(s, name, F, inv, inst=lambda k: [], hyps=(), shifts=(0, 1)):
        """loop invariant of a recurrence: inv(accs, i, d) holds initially and is preserved; returns
        inv at the final state.  i counts the elements consumed; d is the index of the first one."""
        n = F.args[0]; why = ''
        for d in shifts:
            k, accs, steps = open_fold(F)
            inits = list(F.args[2])
            h = list(s.assume) + list(hyps)
            t = time.time()
            a = prove(h + inst(None), inv(inits, I(0), d), s.timeout, s.budget)
            if not a.ok: why = 'initially: %r' % a; continue
            b = prove(h + inst(k + d) + [le(0, k), lt(k, n), inv(accs, k, d)], inv(steps, add(k, I(1)), d), s.timeout, s.budget)
            if not b.ok: why = 'preserved: %r' % b; continue
            s.obl.append((name + ': invariant initially', 'proved', a.how, 0.0, None)); s.obl.append((name + ': invariant preserved', 'proved', b.how, time.time() - t, None))
            fin = [mk('Fold', (F.args[0], c, F.args[2], F.args[3], F.args[4]), x.sort) for c, x in enumerate(F.args[2])]
            return inv(fin, maxi(n, I(0)), d)
        s.obl.append((name + ': invariant', 'undecided', 'z3', 0.0, why[:2500])); return TRUE
    def fact(s, name, ok, detail=''):
        """a structural fact established by the executor itself"""
        s.obl.append((name, 'proved' if ok else 'undecided', 'syntactic', 0.0, None if ok else detail))
KNOWNLAY = {}
def short(sig):
    x = sig.split('(')[0].split('::')
    return '::'.join(x[-2:]) + '(' + str(sig.count(',') + 1 if '()' not in sig else 0) + ')' if False else '::'.join(x[-2:])
# ---------------------------------------------------------------- registry
SPECS = {}
def spec(pid, name, limit=200):
    def d(fn):
        SPECS.setdefault(pid, []).append((name, fn, limit)); return fn
    return d

DEP = 'relies on '
def include(pid, frm, *names):
    """the contracts of functions this property depends on, verified again under this property; a contract of a
    dependency that no longer holds raises an alarm only when a failing input of this property is found"""
    import importlib
    importlib.import_module(frm.lower())
    for n, fn, limit in list(SPECS[frm]):
        if not n.startswith(DEP) and (not names or any(n.startswith(x) for x in names)): SPECS.setdefault(pid, []).append(('%s%s: %s' % (DEP, frm, n), fn, limit))
