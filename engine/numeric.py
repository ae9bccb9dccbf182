"""Numeric refutation of obligations the provers give up on: a concrete interpretation (random numbers for the
variables, finite random functions for the uninterpreted ones, short sequences) under which every hypothesis holds
and the goal is false by a clear margin.  Used only to turn "gave up" into "refuted"; it never proves anything."""
import math, random, time
import numpy as np
from terms import *
class Skip(Exception): pass
class Unsup(Exception): pass
_fb = {}
def fb(t):
    """free bound variables of a term"""
    r = _fb.get(t)
    if r is None:
        if t.op == 'bv': r = frozenset([t])
        elif t.op == 'av': r = frozenset([t])
        else:
            s = set()
            for a in walk_args(t.args): s |= fb(a)
            if t.op in BINDERS:
                lv = t.args[-1]; s = {x for x in s if x.args[0] != lv}
            r = frozenset(s)
        _fb[t] = r
    return r
def skel(k, fl):
    if k.__class__ is float: fl.append(k); return 'R'
    return tuple(skel(x, fl) for x in k) if k.__class__ is tuple else k
def rnd(v): return float('%.9g' % v) + 0.0 if v.__class__ is float else v
MATH = {'cos': math.cos, 'sin': math.sin, 'tan': math.tan, 'acos': math.acos, 'asin': math.asin, 'atan': math.atan, 'atan2': math.atan2, 'pow': math.pow, 'exp': math.exp, 'log': math.log}
class Model:
    def __init__(s, rng): s.rng = rng; s.val = {}; s.slot = {}; s.tab = {}; s.mode = rng.choice('ggghuu'); s.maxlen = rng.choice((1, 1, 2, 2, 3)); s.fresh_eval()
    def fresh_eval(s): s.cache = {}; s.log = None
    def draw(s, sort):
        g = s.rng
        if sort == 'R':
            if s.mode == 'g': return g.gauss(0, 1)
            if s.mode == 'h': return g.choice((-2, -1.5, -1, -.5, 0, .5, 1, 1, 2)) * 1.0
            return g.uniform(-1, 1) if g.random() < .8 else abs(g.gauss(0, 3))
        if sort == 'I': return g.choice((0, 0, 1, 1, 2, 3))
        if sort == 'B': return g.random() < .6
        if sort == 'P': return ('ptr', ('obj', g.randrange(10**9)), 0)
        return ('obj', g.randrange(10**9))
    def atom(s, ident, key, sort, len_=False):
        """the value of an uninterpreted term: ident names the occurrence, key the function and its evaluated arguments"""
        k = s.slot.get(ident)
        if k is None:
            k = s.tab.setdefault(key, ident); s.slot[ident] = k
        if k not in s.val: s.val[k] = s.rng.randrange(s.maxlen + 1) if len_ and s.rng.random() < .2 else s.maxlen if len_ else s.draw(sort)
        if s.log is not None: s.log.add(k)
        if s.chk is not None and key.__class__ is tuple:
            # functions must be functions: occurrences with (nearly) equal arguments have equal values
            fl = []; st = skel(key, fl)
            for fl2, k2 in s.chk.setdefault(st, []):
                if k2 != k and s.val[k2] != s.val[k] and all(abs(x - y) < 1e-6 for x, y in zip(fl, fl2)): raise Skip('not a function')
            s.chk[st].append((fl, k))
        return s.val[k]
    chk = None
    def ev(s, t, env=None):
        f = fb(t)
        ck = (t, tuple(env[x] for x in sorted(f))) if f else t
        r = s.cache.get(ck)
        if r is None: r = s.cache[ck] = s._ev(t, env or {})
        return r
    def cmp(s, t, env):
        x = t.args[0]
        if t.op == 'eq0' and x.sort not in 'RI': raise Unsup(x.sort)
        v = s.ev(x, env)
        if v.__class__ is int: return v
        mag = abs(v)
        if x.op == 'lin':
            mag = abs(float(x.args[0]))
            for y, k in x.args[1]: mag += abs(float(k) * s.ev(y, env))
        if v != 0 and abs(v) < s.tol * max(mag, 1e-3): 
            if t.op == 'eq0' and s.soft: return 0
            raise Skip('close')
        return v
    tol = 1e-9; soft = True
    def _ev(s, t, env):
        o, a = t.op, t.args; ev = s.ev
        if o == 'num': return float(a[0]) if t.sort == 'R' else int(a[0])
        if o == 'true': return True
        if o == 'false': return False
        if o in ('bv', 'av'): return env[t]
        if o == 'lin':
            v = float(a[0]) if t.sort == 'R' else int(a[0])
            for x, k in a[1]: v += (float(k) if t.sort == 'R' else int(k)) * ev(x, env)
            return v
        if o == 'prod':
            v = 1.0 if t.sort == 'R' else 1
            for b, e in a[0]:
                x = ev(b, env)
                if e < 0 and abs(x) < 1e-7: raise Skip('division')
                v *= x ** e
            if v.__class__ is float and (v != v or abs(v) > 1e12): raise Skip('range')
            return v
        if o == 'and':
            for x in a[0]:
                if not ev(x, env): return False
            return True
        if o == 'or':
            for x in a[0]:
                if ev(x, env): return True
            return False
        if o == 'not': return not ev(a[0], env)
        if o == 'ite': return ev(a[1], env) if ev(a[0], env) else ev(a[2], env)
        if o == 'lt0': return s.cmp(t, env) < 0
        if o == 'le0': return s.cmp(t, env) <= 0
        if o == 'eq0': return s.cmp(t, env) == 0
        if o == 'sqrt':
            x = ev(a[0], env)
            if x < 0: raise Skip('sqrt')
            return math.sqrt(x)
        if o == 'abs': return abs(ev(a[0], env))
        if o == 'toreal': return float(ev(a[0], env))
        if o == 'toint': return int(ev(a[0], env))
        if o == 'idiv': return ev(a[0], env) // (a[1] if a[1].__class__ is not T else ev(a[1], env))
        if o == 'fn':
            f = MATH.get(a[0])
            if f is None: raise Unsup('fn ' + str(a[0]))
            try: v = f(*[ev(x, env) for x in a[1:]])
            except (ValueError, OverflowError, ZeroDivisionError): raise Skip('domain')
            if v.__class__ is complex: raise Skip('domain')
            return v
        if o == 'same': return ev(a[0], env) == ev(a[1], env)
        if o == 'ptr': return ('ptr', ev(a[0], env), ev(a[1], env))
        if o == 'null': return ('null',)
        if o == 'reg': return ('reg', a[0])
        if o == 'strc': return ('strc', a[0])
        if o == 'streq': return ev(a[0], env) == ev(lift_s(a[1]), env)
        if o in ('Sum', 'Exists', 'First', 'LIdx', 'FIdx', 'Fold'):
            n = ev(a[0], env)
            if n > 12: raise Skip('long')
            lv = a[-1]; kb = bv(lv, 'I')
            if o == 'Fold':
                acc = [ev(x, env) for x in a[2]]
                for j in range(n):
                    e = dict(env); e[kb] = j
                    for i, x in enumerate(a[2]): e[mk('av', (lv, i), x.sort)] = acc[i]
                    acc = [ev(x, e) for x in a[3]]
                return acc[a[1]]
            b = a[2] if o == 'FIdx' else a[1]; r = 0 if b.sort == 'I' else 0.0; hits = []
            for j in range(n):
                e = dict(env); e[kb] = j; v = ev(b, e)
                if o == 'Sum': r += v
                elif v: hits.append(j)
            if o == 'Sum': return r
            if o == 'Exists': return bool(hits)
            if o == 'First': return hits[0] if hits else n
            if o == 'LIdx':
                if not hits: raise Skip('no last')
                return hits[-1]
            q = ev(a[1], env)
            if not 0 <= q < len(hits): raise Skip('no such index')
            return hits[q]
        f = fb(t); ident = (t, tuple(env[x] for x in sorted(f))) if f else t
        if o == 'var':
            if a[0] == '+inf': raise Unsup('inf')
            return s.atom(ident, ident, t.sort)
        if o in ('qvar', 'svar'): return ('seq', a[0]) if t.sort != 'S' else s.atom(ident, ident, 'S')
        if o == 'len': q = ev(a[0], env); return s.atom(ident, ('len', q), 'I', True)
        if o in ('sel', 'fld', 'uf', 'isnull'):
            if o == 'sel' and a[0].op not in ('qvar', 'svar', 'sel', 'fld', 'uf'): raise Unsup('sel of ' + a[0].op)
            k = (o,) + tuple(rnd(ev(x, env)) if x.__class__ is T else x for x in a)
            if t.sort == 'Q': return ('seq', k)
            if o == 'isnull': return False
            return s.atom(ident, k, t.sort)
        if o in ('undef', 'rawsym') and t.sort in 'RIBP': return s.atom(ident, ident, t.sort)
        raise Unsup(o)
def lift_s(x): return x if x.__class__ is T else mk('strc', (x,), 'S')
def eqs_of(h, out):
    if h.op == 'and':
        for x in h.args[0]: eqs_of(x, out)
    elif h.op == 'eq0' and h.args[0].sort == 'R': out.append(h.args[0])
    return out
def flat(hs):
    out = []
    for h in hs:
        if h.op == 'and': out += flat(h.args[0])
        elif h is not TRUE: out.append(h)
    return out
def strconsts(t, out, seen):
    if t in seen: return
    seen.add(t)
    if t.op == 'streq':
        for x in t.args:
            if x.__class__ is not T: out.add(x)
            elif x.op == 'strc': out.add(x.args[0])
    for x in walk_args(t.args): strconsts(x, out, seen)
def newton(m, eqs):
    for _ in range(25):
        m.fresh_eval(); m.log = set(); r = np.array([m.ev(x) for x in eqs]); log = m.log
        if np.max(np.abs(r)) < 1e-13: return True
        ks = [k for k in log if m.val[k].__class__ is float]
        if not ks or len(ks) > 80: return False
        J = np.zeros((len(eqs), len(ks)))
        for j, k in enumerate(ks):
            v = m.val[k]; h = 1e-6 * max(1, abs(v)); m.val[k] = v + h; m.fresh_eval(); up = np.array([m.ev(x) for x in eqs])
            m.val[k] = v - h; m.fresh_eval(); J[:, j] = (up - np.array([m.ev(x) for x in eqs])) / (2 * h); m.val[k] = v
        d = np.linalg.lstsq(J, -r, rcond=1e-9)[0]
        if not np.all(np.isfinite(d)) or np.max(np.abs(d)) > 50: return False
        for k, x in zip(ks, d): m.val[k] += float(x)
    return False
def refute(hyps, goal, seconds=6.0, seed=1, need=2, stats_out=None):
    """None, or a description of an interpretation that satisfies the hypotheses and falsifies the goal"""
    if goal is TRUE: return None
    stats = [0, 0, 0]
    if stats_out is not None: stats_out.append(None); stats_out[:] = stats; stats = stats_out
    hyps = flat(hyps); t0 = time.time(); rng = random.Random(seed); found = 0; eqs = []; strs = set(); seen = set()
    for h in hyps: eqs_of(h, eqs); strconsts(h, strs, seen)
    strconsts(goal, strs, seen); strs = sorted(strs)
    while time.time() - t0 < seconds and not (stats[0] > 400 and stats[1] == 0):
        m = Model(rng); stats[0] += 1
        if strs:
            w = rng.choice(strs); od = m.draw
            m.draw = lambda sort, od=od, w=w: ('strc', w) if sort == 'S' else od(sort)
        try:
            good = False
            for it in range(40):
                if time.time() - t0 > seconds: break
                bad = None; m.fresh_eval(); ne = False
                for h in hyps:
                    m.log = set(); m.cache = {}
                    try: ok = m.ev(h)
                    except Skip: ok = False
                    if not ok: bad = (h, m.log); break
                if bad is None: good = True; break
                h, log = bad
                if h.op == 'eq0' and h.args[0].sort == 'R':
                    if not newton(m, eqs): break
                    continue
                ks = sorted(log, key=lambda k: str(k.args[0] if k.__class__ is T else k)[:50])
                if not ks: break
                for k in (ks if rng.random() < .3 else rng.sample(ks, min(len(ks), rng.choice((1, 1, 2, 3))))):
                    v = m.val[k]; sort = 'R' if v.__class__ is float else 'B' if v.__class__ is bool else 'I' if v.__class__ is int else None
                    if sort == 'B': m.val[k] = not v
                    elif sort: m.val[k] = m.draw(sort)
                    elif v and v[0] == 'strc' and strs: m.val[k] = ('strc', rng.choice(strs))
            if not good: continue
            m.fresh_eval(); m.soft = False; m.tol = 1e-7; m.chk = {}
            v = m.ev(goal); m.soft = True
            for h in hyps: m.ev(h)
            stats[1] += 1
            if v: stats[2] += 1; continue
            found += 1
            if found >= need:
                vals = sorted(((show_key(k), v) for k, v in m.val.items() if v.__class__ in (float, int, bool)), key=lambda x: x[0])
                return 'random evaluation: ' + ', '.join('%s = %s' % (a, ('%.6g' % b) if b.__class__ is float else b) for a, b in vals[:60])
        except Skip: continue
        except (OverflowError, ZeroDivisionError): continue
    return None
def show_key(k):
    t = k if k.__class__ is T else k[0]
    return show(t)[:80] + ('' if k.__class__ is T else '@%s' % (k[1],))
