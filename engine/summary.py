"""Loop summarisation: the accumulators of a loop (header phis and memory cells the body modifies)
are given closed forms by solving their recurrences; the exit iteration follows from the header
condition (a monotone bound) and the first iteration at which a break or throw happens."""
from terms import *
from prove import literals, simp, zcheck

def conj(t): return set(t.args[0]) if t.op == 'and' else (set() if t is TRUE else {t})
def rel(pc, base): return and_(*(conj(pc) - conj(base)))

class Acc:
    __slots__ = ('where', 'var', 'rep', 'init', 'ty', 'step', 'closed', 'kind', 'base')

class SmallLoop(Exception): pass     # at most a known small number of iterations: better unrolled
class Summary:
    def __init__(s, ex, p, L, st, hint=False):
        s.hint = hint
        from exec import GiveUp
        s.ex, s.p, s.L, s.st = ex, p, L, st
        s.GiveUp = GiveUp
        s.k = fresh('k', 'I')
        s.accs = []
    def mkacc(s, where, ty, init, sort):
        a = Acc(); a.where, a.ty, a.init, a.closed, a.step, a.base = where, ty, init, None, None, None
        nm = 'acc'
        if init is not None and init.op == 'undef' and init.sort != sort: init = a.init = mk('undef', init.args, sort)
        if sort == 'I' and init is not None and boolrep(init) is not None and s.boolhint(where):
            a.kind = 'bool01'; a.var = fresh(nm, 'B'); a.rep = ite(a.var, I(1), I(0)); a.init = boolrep(init)
        elif sort == 'P' and init is not None and init.op == 'ptr':
            a.kind = 'ptr'; a.base = init.args[0]; a.var = fresh(nm, 'I'); a.rep = mk('ptr', (a.base, a.var), 'P'); a.init = init.args[1]
            if a.base.op == 'vbuf':
                ix, f = s.ex.split(a.base, a.init)
                if f == 0: a.init = ix; a.rep = mk('ptr', (a.base, scale(a.var, a.base.args[1])), 'P')
        else:
            a.kind = 'val'; a.var = fresh(nm, sort); a.rep = a.var
        return a
    def boolhint(s, where):
        return where not in s.nobool
    def run_generic(s):
        ex = s.ex
        g = s.st.copy()
        g.pc = and_(s.st.pc, le(I(0), s.k))
        for a in s.accs: s.put(g, a, a.rep)
        s.g = g
        no, nt, nr = len(ex.obls), len(ex.throws), len(s.rets)
        base = g.copy()
        back, exits = ex.body(s.p, s.L, g, s.rets)
        if len(s.rets) != nr: raise s.GiveUp('return inside loop')
        s.gthrows = ex.throws[nt:]
        del ex.obls[no:]; del ex.throws[nt:]
        return base, back, exits
    def put(s, st, a, v):
        if a.where[0] == 'env': st.env[a.where[1]] = v
        else:
            c = s.ex.cells(st, a.where[1]); c[a.where[2]] = (a.ty, v)
    def repof(s, a, v):
        if a.kind == 'bool01': return ite(v, I(1), I(0))
        if a.kind == 'ptr': return mk('ptr', (a.base, scale(v, a.base.args[1]) if a.rep.args[1] is not a.var else v), 'P')
        return v
    def exits(s, rets):
        ex = s.ex; s.rets = rets
        s.nobool = set()
        for attempt in range(6):
            r = s.fix()
            if r: break
        else: raise s.GiveUp('loop accumulators do not stabilise')
        s.solve()
        return s.finish()
    def fix(s):
        ex = s.ex
        phis = [i for i in s.p.f['blocks'][s.L['header']] if i['op'] == 'phi']
        s.accs = []
        known = set()
        for i in phis:
            init = s.st.env[i['id']]
            a = s.mkacc(('env', i['id']), i['ty'], init, init.sort); s.accs.append(a)
        for rnd in range(12):
            base, back, exits = s.run_generic()
            if back is None: raise s.GiveUp('loop body never continues')
            new = False
            for rid, c in back.mem.items():
                if isinstance(rid, tuple):
                    if base.mem.get(rid) is not c: raise s.GiveUp('external object modified in loop')
                    continue
                b = base.mem.get(rid)
                if b is c: continue
                if rid not in base.mem and ex.regs.get(rid, {}).get('kind') in ('alloca', 'heap') and rid not in ex.glob0: continue
                b = b or {}
                for o, x in c.items():
                    if o == 'zero': continue
                    y = b.get(o)
                    if y is not None and (y is x or y[1] is x[1]): continue
                    if ('cell', rid, o) in known: continue
                    ty, v = x
                    if ty == 'raw':
                        try: v = ex.resolve(v, 'double'); ty = 'double'
                        except Unsupported: raise s.GiveUp('raw accumulator')
                    try: init = ex.resolve(y[1], ty) if y is not None else ex.cellget(s.st, rid, o, ty)
                    except Unsupported: init = mk('undef', (rid, o), v.sort)
                    known.add(('cell', rid, o)); new = True
                    s.accs.append(s.mkacc(('cell', rid, o), ty, init, v.sort))
            if not new: break
        else: raise s.GiveUp('too many modified cells')
        s.base, s.back, s.gexits = base, back, exits
        for a in s.accs:
            v = back.env[a.where[1]] if a.where[0] == 'env' else back.mem[a.where[1]][a.where[2]][1]
            if v.sort == 'W': v = ex.resolve(v, a.ty)
            if a.kind == 'bool01':
                b = boolrep(v, a)
                if b is None: s.nobool.add(a.where); return False
                v = b
            elif a.kind == 'ptr':
                v = ptroff(v, a.base)
                if v is None: raise s.GiveUp('pointer accumulator')
                if a.rep.args[1] is not a.var: v = mapleaves(v, lambda l: s.ex.split(a.base, l)[0])
            if v.sort != a.var.sort:
                if v.op == 'undef': v = mk('undef', v.args, a.var.sort)
                elif a.init.op == 'undef':
                    raise s.GiveUp('accumulator sort')
                else: raise s.GiveUp('accumulator sort %s %s' % (show(v)[:40], a.var))
            a.step = s.freeze(v, back) if v.sort == 'Q' else v
        return True
    def freeze(s, t, st):
        """objects allocated by one iteration and kept in a sequence: pointers to them become pointers to
        values that carry the contents at the end of the iteration and the iteration they belong to"""
        ex = s.ex; memo = {}
        def local(b): return b.op == 'reg' and isinstance(b.args[0], str) and b.args[0] not in s.base.mem and b.args[0] not in ex.glob0 and ex.regs.get(b.args[0], {}).get('kind') == 'heap'
        def go(t):
            r = memo.get(t)
            if r is not None: return r
            if t.op == 'ptr' and local(t.args[0]):
                if t.args[1].op != 'num': raise s.GiveUp('offset into an object made by a loop')
                c = st.mem.get(t.args[0].args[0], {})
                memo[t] = t
                r = mk('ptr', (mk('newobj', (rec({o: (ty, go(v)) for o, (ty, v) in c.items() if isinstance(o, int)}), s.k), 'F'), t.args[1]), 'P')
            else: r = rebuild(t, go)
            memo[t] = r
            return r
        return go(t)
    # ------------------------------------------------------------ recurrences
    def solve(s):
        un = list(s.accs); k = s.k
        sol = {}
        def sub_(t):
            m = {v: c for v, c in sol.items() if v in t.fv}
            return subst(t, m) if m else t
        while un:
            prog = False
            uv = {a.var for a in un}
            for a in list(un):
                st = sub_(a.step); a.step = st
                others = (st.fv & uv) - {a.var}
                if others: continue
                c = s.closed(a, st)
                if c is not None:
                    a.closed = c; sol[a.var] = c; un.remove(a); uv.discard(a.var); prog = True
            if prog: continue
            # strongly connected group -> fold
            dep = {a.var: {b for b in (a.step.fv & uv)} for a in un}
            reach = {}
            def clo(v):
                seen = set(); stk = [v]
                while stk:
                    x = stk.pop()
                    for y in dep[x]:
                        if y not in seen: seen.add(y); stk.append(y)
                return seen
            R = {v: clo(v) for v in dep}
            best = None
            for v in dep:
                comp = R[v] | {v}
                if best is None or len(comp) < len(best): best = comp
            grp = [a for a in un if a.var in best]
            if any(a.init.op == 'undef' for a in grp):
                for a in grp:
                    if a.init.op == 'undef' and a.init.sort in 'RIB': a.init = {'R': ZERO, 'I': I(0), 'B': FALSE}[a.init.sort]
            for n, a in enumerate(grp):
                a.closed = Fold(k, k_inner(k), n, [b.var for b in grp], [b.init for b in grp], [subst(b.step, {k: k_inner(k)}) for b in grp])
            for a in grp: sol[a.var] = a.closed; un.remove(a)
        s.sol = sol
    def closed(s, a, st):
        """closed form at iteration k of v' = st(k, v), or None"""
        v, k, init = a.var, s.k, a.init
        if st is v: return init
        if v not in st.fv:
            g = subst(st, {k: sub(k, I(1))})
            if init.op == 'undef': return g
            if g is init: return init
            return ite(le(k, I(0)), init, g)
        j = k_inner(k)
        at = lambda t: subst(t, {k: j})
        if v.sort in 'RI':
            leaves, conds = tree(st)
            if any(v in c.fv for c in conds): return None
            d = mapleaves(st, lambda l: sub(l, v))
            if d is not None and v not in d.fv:
                if k not in d.fv: return add(init, mul(d, toreal(k) if v.sort == 'R' else k))
                return add(init, Sum(k, j, at(d)))
            if all(l is v or v not in l.fv for l in leaves):
                c = mapleaves(st, lambda l: FALSE if l is v else TRUE)
                g = dropleaf(st, v)
                if init.op == 'undef': init = {'R': ZERO, 'I': I(0)}[v.sort]
                return Last(k, j, at(c), at(g), init)
            return None
        if v.sort == 'B':
            c1, c0 = subst(st, {v: TRUE}), subst(st, {v: FALSE})
            if init.op == 'undef': init = FALSE
            if c1 is TRUE: return or_(init, Exists(k, j, at(c0)))
            if c0 is FALSE: return and_(init, not_(Exists(k, j, at(not_(c1)))))
            return None
        if v.sort == 'Q': return s.closedq(a, st)
        if v.sort in 'PS':
            leaves, conds = tree(st)
            if any(v in c.fv for c in conds): return None
            if all(l is v or v not in l.fv for l in leaves):
                c = mapleaves(st, lambda l: FALSE if l is v else TRUE)
                return Last(k, j, at(c), at(dropleaf(st, v)), init)
        return None
    def closedq(s, a, st):
        v, k, init = a.var, s.k, a.init
        j = k_inner(k); at = lambda t: subst(t, {k: j})
        pw = s.pointwise(a, st)
        if pw is not None: return pw
        # conditional append
        ap = appends(st, v)
        if ap is not None:
            c, r = ap
            if v in c.fv or v in r.fv: return None
            return qcat(init, qfilter(k, j, at(c), at(r)))
        # indexed stores
        ws = writes(st, v)
        if ws is not None and ws:
            idx = ws[0][0]
            if any(w[0] is not idx for w in ws): return None
            if v in idx.fv: return None
            d = sub(idx, k); b = None
            if k not in d.fv: sign = 1; b = d
            else:
                d = add(idx, k)
                if k not in d.fv: sign = -1; b = d
            if b is None: return None
            cells = {}
            for i, off, val in ws:
                cells.setdefault(off, (STYPE(val.sort), val))   # outermost store wins
            # every reference to v must be to its own element
            m = {}
            for off, (ty, val) in cells.items():
                for x in selfrefs(val, v):
                    if x.op != 'sel' or x.args[0] is not v or x.args[1] is not idx: return None
                    m[x] = sel(init, idx, x.args[2], x.args[3])
            cells = {off: (ty, replace(val, m)) for off, (ty, val) in cells.items()}
            for off, (ty, val) in cells.items():
                if v in val.fv: return None
            e = fresh('e', 'I')
            it = sub(e, b) if sign == 1 else sub(b, e)
            r = rec({off: (ty, subst(val, {k: it})) for off, (ty, val) in cells.items()})
            if sign == 1: return qupd(init, b, add(k, b), e, r)
            return qupd(init, add(sub(b, k), I(1)), add(b, I(1)), e, r)
        return None
    def pointwise(s, a, st):
        """every iteration updates the elements lo..hi-1 independently of each other: the recurrence is
        solved for the element at a fixed index"""
        v, k, init = a.var, s.k, a.init
        parts = []; x = st                      # nested updates, outermost first
        while x is not v:
            if x.op != 'qupd' or x.args[3].op != 'rec': return None
            parts.append(x); x = x.args[0]
        if not parts: return None
        lo, hi = parts[0].args[1:3]
        if any(q.args[1] is not lo or q.args[2] is not hi for q in parts): return None
        if k in lo.fv or k in hi.fv or v in lo.fv or v in hi.fv: return None
        e = fresh('e', 'I'); cells = {}
        for q in reversed(parts):
            for off, ty, val in q.args[3].args[0]: cells[off] = (ty, map_t(val, {bv(q.args[4], 'I'): e}))
        acc = {}; new = {}
        for off, (ty, val) in cells.items():
            for x in selfrefs(val, v):
                if x.op != 'sel' or x.args[0] is not v or x.args[1] is not e: return None
                if x.args[2] not in cells: continue
                if x.args[2] not in acc:
                    b = Acc(); b.where, b.ty, b.kind, b.base, b.closed = None, x.args[3], 'val', None, None
                    b.var = fresh('el', x.sort); b.rep = b.var; b.init = sel(init, e, x.args[2], x.args[3]); acc[x.args[2]] = (x, b)
        m = {x: b.var for x, b in acc.values()}
        out = {}
        for off, (ty, val) in cells.items():
            val = replace(val, m)
            if v in val.fv: return None
            if off in acc: b = acc[off][1]
            else:
                b = Acc(); b.where, b.ty, b.kind, b.base, b.closed = None, ty, 'val', None, None
                b.var = fresh('el', val.sort); b.rep = b.var; b.init = sel(init, e, off, ty)
            if (val.fv & {y.var for _, y in acc.values()}) - {b.var}: return None
            if val.sort != b.var.sort: return None
            c = s.closed(b, val)
            if c is None: return None
            out[off] = (ty, c)
        return qupd(init, lo, hi, e, rec(out))
    # ------------------------------------------------------------ exit
    def at(s, t, kv):
        m = {v: c for v, c in s.sol.items() if v in t.fv}
        t = subst(t, m) if m else t
        return subst(t, {s.k: kv}) if kv is not s.k and s.k in t.fv else t
    def state(s, kv, pc):
        g = s.st.copy(); g.pc = pc
        for a in s.accs:
            v = a.closed
            if kv is not s.k and s.k in v.fv: v = subst(v, {s.k: kv})
            s.put(g, a, s.repof(a, v))
        return g
    def finish(s):
        ex, k, st, L = s.ex, s.k, s.st, s.L
        H = L['header']
        nat = lambda f, t: f == H
        if not any(nat(f, t) for f, t, x in s.gexits):        # the loop test is in a later block (the header ends in a call)
            for f, t, x in s.gexits:
                c = not_(s.at(rel(x.pc, s.base.pc), k))
                if any(bound(y, k) is not None for y in conj(c)): nat = (lambda e: lambda f, t: (f, t) == e)((f, t)); break
        late = not any(f == H for f, t, x in s.gexits)
        hx = or_(*[s.at(rel(x.pc, s.base.pc), k) for f, t, x in s.gexits if nat(f, t)])
        h = not_(hx)
        bounds = []; rest = []
        for c in conj(h):
            b = bound(c, k)
            if b is not None: bounds.append(b)
            else: rest.append(c)
        if not bounds: raise s.GiveUp('no loop bound from %s' % show(h)[:120])
        n = None
        for N in bounds:
            c = ex.decide(st, le(I(0), N))
            if c is not TRUE: N = I(0) if c is FALSE else ite(le(I(0), N), N, I(0))
            if n is None: n = N
            elif n is not N: n = ite(lt(n, N), n, N)
        if s.hint and n.op == 'num' and n.args[0] <= 8: raise SmallLoop()
        # generic iteration with the closed forms: obligations, throws and break conditions
        rng = and_(le(I(0), k), lt(k, n))
        nt = len(ex.throws); no = len(ex.obls)
        g = s.state(k, and_(st.pc, rng)); gpc = g.pc
        back, exits = ex.body(s.p, L, g, s.rets)
        thr = ex.throws[nt:]; del ex.throws[nt:]
        d = literals([rng])
        kinds = []
        for f, t, x in exits:
            c = simp(rel(x.pc, gpc), d)
            if nat(f, t) and c is not FALSE:
                c2 = ex.decide(g0(ex, gpc), c)
                if c2 is FALSE: continue
            if c is FALSE: continue
            kinds.append(((f, t), c))
        tc = or_(*[simp(rel(pc, gpc), d) for pc, _ in thr])
        if tc is not FALSE: kinds.append((None, tc))
        brk = or_(*[c for _, c in kinds])
        out = []
        s.ex.loopinfo_ok = getattr(s.ex, 'loopinfo_ok', 0) + 1
        if brk is FALSE:
            f = n; pcn = st.pc; E = FALSE
        else:
            j = k_inner(k)
            b = subst(brk, {k: j})
            E = Exists(n, j, b); f = First(n, j, b)
            if f.op == 'First':
                import prove
                fb = subst(brk, {k: f})
                prove.FACTS.setdefault(f, [iff(E, lt(f, n)), implies(E, fb)])
            pcn = and_(st.pc, not_(E))
            # break exits
            quiet = ex.obl_on; ex.obl_on = False
            no2, nt2 = len(ex.obls), len(ex.throws)
            try:
                gb = s.state(f, and_(st.pc, E))
                bb, bex = ex.body(s.p, L, gb, s.rets)
            finally: ex.obl_on = quiet
            bthr = ex.throws[nt2:]
            del ex.obls[no2:]; del ex.throws[nt2:]
            real = [e for e, c in kinds]
            for fr, t, x in bex:
                if (fr, t) not in real: continue
                c = TRUE
                if len(kinds) > 1:
                    c = or_(*[subst(cc, {k: f}) for e, cc in kinds if e == (fr, t)])
                x.pc = and_(st.pc, E, c)
                if x.pc is not FALSE: out.append((fr, t, x))
            for e, cc in kinds:
                if e is None: ex.throws.append((and_(st.pc, E, subst(cc, {k: f}) if len(kinds) > 1 else TRUE), thr[0][1]))
        # natural exit
        g = s.state(n, pcn)
        if pcn is not FALSE:
            quiet = ex.obl_on; ex.obl_on = False
            no2, nt2 = len(ex.obls), len(ex.throws)
            try:
                if late: out += [e for e in ex.body(s.p, L, g, s.rets)[1] if nat(e[0], e[1])]
                else: out += s.header_exit(g)
            finally: ex.obl_on = quiet
            del ex.obls[no2:]
            if not late: del ex.throws[nt2:]
        return out
    def header_exit(s, g):
        ex, p, L = s.ex, s.p, s.L
        H = L['header']; ins = p.f['blocks'][H]
        for i in ins[:-1]:
            if i['op'] == 'phi': continue
            if i['op'] in ('call', 'invoke'):
                if not ex.call(p, i, g): raise s.GiveUp('call in header')
                continue
            if 'id' in i: g.env[i['id']] = ex.instr(g, i)
            else: ex.effect(g, i)
        t = ins[-1]
        if t['op'] == 'invoke': raise s.GiveUp('invoke ends header')
        tg = [b for b in p.succ[H] if b not in L['blocks']]
        if len(tg) != 1: raise s.GiveUp('header exits')
        return [(H, tg[0], g)]

def g0(ex, pc):
    from exec import State
    x = State(); x.pc = pc; return x
_ki = {}
def k_inner(k):
    j = _ki.get(k)
    if j is None: j = _ki[k] = fresh('j', 'I')
    return j
def STYPE(sort): return {'R': 'double', 'I': 'i64', 'B': 'i1', 'P': 'ptr', 'Q': 'q', 'S': 'str', 'W': 'raw'}[sort]
def boolrep(v, a=None):
    """0/1 integer term as boolean"""
    if v.sort == 'B': return v
    if v.op == 'num': return B(v.args[0] == 1) if v.args[0] in (0, 1) else None
    if v.op == 'undef': return FALSE
    if v.op == 'ite':
        x, y = boolrep(v.args[1], a), boolrep(v.args[2], a)
        if x is None or y is None: return None
        return ite(v.args[0], x, y)
    return None
def ptroff(v, base):
    if v.op == 'ptr' and v.args[0] is base: return v.args[1]
    if v.op == 'ite':
        x, y = ptroff(v.args[1], base), ptroff(v.args[2], base)
        return None if x is None or y is None else ite(v.args[0], x, y)
    return None
def tree(t):
    leaves = []; conds = []
    def go(t):
        if t.op == 'ite': conds.append(t.args[0]); go(t.args[1]); go(t.args[2])
        else: leaves.append(t)
    go(t); return leaves, conds
def mapleaves(t, f):
    if t.op == 'ite':
        a, b = mapleaves(t.args[1], f), mapleaves(t.args[2], f)
        return ite(t.args[0], a, b)
    return f(t)
def dropleaf(t, v):
    """value of the tree on the paths that do not end in v"""
    if t.op == 'ite':
        a, b = dropleaf(t.args[1], v), dropleaf(t.args[2], v)
        if a is None: return b
        if b is None: return a
        return ite(t.args[0], a, b)
    return None if t is v else t
def appends(t, v):
    """(condition, record) when t conditionally appends one record to v"""
    if t is v: return FALSE, None
    if t.op == 'qapp1' and t.args[0] is v: return TRUE, t.args[1]
    if t.op == 'ite':
        a, b = appends(t.args[1], v), appends(t.args[2], v)
        if a is None or b is None: return None
        c = ite(t.args[0], a[0], b[0])
        if a[1] is None: return c, b[1]
        if b[1] is None: return c, a[1]
        r = rec_ite(t.args[0], a[1], b[1])
        if r is None: return None
        return c, r
    return None
def rec_ite(c, a, b):
    if a is b: return a
    if a.op == 'rec' and b.op == 'rec' and [x[0] for x in a.args[0]] == [x[0] for x in b.args[0]]:
        return rec({x[0]: (x[1], ite(c, x[2], y[2]) if x[2].sort != 'W' else mk('ite', (c, x[2], y[2]), 'W')) for x, y in zip(a.args[0], b.args[0])})
    return mk('ite', (c, a, b), 'C')
def writes(t, v):
    """list of (index, field, value), outermost first; conditional stores become conditional values"""
    if t is v: return []
    if t.op == 'qstore':
        w = writes(t.args[0], v)
        if w is None: return None
        return [(t.args[1], t.args[2], t.args[3])] + w
    if t.op == 'ite':
        a, b = writes(t.args[1], v), writes(t.args[2], v)
        if a is None or b is None: return None
        keys = []
        for i, o, x in a + b:
            if (i, o) not in keys: keys.append((i, o))
        if len({i for i, o in keys}) > 1: return None
        out = []
        for i, o in keys:
            xa = next((x for ii, oo, x in a if oo == o), None); xb = next((x for ii, oo, x in b if oo == o), None)
            ty = STYPE((xa if xa is not None else xb).sort)
            old = sel(v, i, o, ty)
            out.append((i, o, ite(t.args[0], xa if xa is not None else old, xb if xb is not None else old)))
        return out
    return None
def selfrefs(t, v):
    """minimal subterms applied directly to v"""
    out = []; seen = set()
    def go(t):
        if t in seen or v not in t.fv: return
        seen.add(t)
        if t.op in ('sel', 'len') and t.args[0] is v: out.append(t); 
        elif t is v: out.append(t)
        if t.op == 'sel' and t.args[0] is v:
            go(t.args[1]); return
        for x in walk_args(t.args): go(x)
    go(t); return out
def replace(t, m):
    if not m: return t
    from prove import replace as r
    return r(t, m)
def bound(c, k):
    """N such that (for integers) c(k) <=> k < N, or None"""
    if k not in c.fv: return None
    if c.op in ('lt0', 'le0') or (c.op == 'not' and c.args[0].op == 'eq0'):
        d = c.args[0] if c.op != 'not' else c.args[0].args[0]
        if d.sort != 'I': return None
        a = sub(subst(d, {k: I(1)}), subst(d, {k: I(0)}))
        if a.op != 'num': return None
        a = int(a.args[0]); e = subst(d, {k: I(0)})
        if sub(d, add(scale(k, a), e)) is not I(0): return None
        if c.op == 'not':
            if a == 1: return neg(e)
            if a == -1: return e
            return None
        if a <= 0: return None
        if a == 1: return neg(e) if c.op == 'lt0' else add(neg(e), I(1))
    return None
