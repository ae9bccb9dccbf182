"""Verification-condition generator: symbolic execution of the LLVM IR of the real sources.
Paths are merged at every join; loops are summarised by solving their recurrences (closed forms,
sums, quantifiers, maps/filters over sequences, folds); callees are entered or replaced by a
registered contract."""
from terms import *
import prove as P
from prove import literals, simp, zcheck
import json, struct, heapq, re

ENTRY = '__raw'
class GiveUp(Unsupported): pass

class State:
    __slots__ = ('mem', 'own', 'pc', 'env', 'prev')
    def __init__(s): s.mem = {}; s.own = set(); s.pc = TRUE; s.env = {}; s.prev = None
    def copy(s):
        n = State(); n.mem = dict(s.mem); n.own = set(); s.own = set(); n.pc = s.pc; n.env = dict(s.env); n.prev = s.prev
        return n
    def cells(s, rid):
        c = s.mem.get(rid)
        if c is None: c = {}; s.mem[rid] = c; s.own.add(rid)
        elif rid not in s.own: c = dict(c); s.mem[rid] = c; s.own.add(rid)
        return c

def replace_known(x, pc):
    """a conjunct of a path condition under the others"""
    o = conj(pc) - {x}
    return x if not o else simp_under(x, o)
def simp_under(x, others):
    from prove import simp
    m = {}
    for c in others:
        if c.op == 'not': m[c.args[0]] = FALSE
        else: m[c] = TRUE
    return simp(x, m)
def conj(t): return set(t.args[0]) if t.op == 'and' else (set() if t is TRUE else {t})

_OPTOK = re.compile(r'\(\)|\[\]|<<=|>>=|<<|>>|<=|>=|==|!=|->|&&|\|\||\+\+|--|[-+*/%^&|]=|[-+*/%^&|~!=<>]')
def strip_ret(d):
    """name part of a demangled signature"""
    depth = 0; last = 0; i = 0
    while i < len(d):
        c = d[i]
        if d.startswith('operator', i) and (i == 0 or d[i-1] in ': '):
            m = _OPTOK.match(d, i + 8)
            j = m.end() if m else i + 8
            i = j; continue
        if d.startswith('(anonymous namespace)', i): i += 21; continue
        if c == '<': depth += 1
        elif c == '>': depth -= 1
        elif c == '(' and depth == 0: break
        elif c == ' ' and depth == 0: last = i + 1
        i += 1
    return d[last:]

class Fn:
    pass

class IR:
    def __init__(s, path):
        d = json.load(open(path))
        s.fns = {}; s.bydem = {}; s.globs = {}; s.decls = {}
        s.aliases = d['aliases']; s.structs = d['structs']
        for f in d['functions']:
            f['sig'] = strip_ret(f['dem'])
            s.fns[f['name']] = f; s.bydem.setdefault(f['sig'], f['name'])
        for a, b in s.aliases.items():
            if b in s.fns: s.fns.setdefault(a, s.fns[b])
        for g in d['globals']: s.globs[g['name']] = g
        for n, dm in d['decls']: s.decls[n] = strip_ret(dm)
        def root(c):
            while isinstance(c, list) and c and c[0] == 'gep': c = c[1]
            return c[1] if isinstance(c, list) and c and c[0] == 'g' else None
        s.mutable = set()      # namespace-scope variables some function assigns
        for n, f in s.fns.items():
            if n.startswith(('_GLOBAL__sub_I_', '__cxx_global_var_init')): continue
            for b in f['blocks']:
                for i in b:
                    if i['op'] == 'store':
                        g = root(i['ops'][1])
                        if g is not None and g in s.globs and not s.globs[g]['const'] and not g.startswith(('_ZZ', '_ZGV')): s.mutable.add('@' + g)
        s.gmap = {n: i for i, n in enumerate(s.globs)}
        s.prep = {}
    def find(s, sig):
        """function name by (prefix of) its demangled signature"""
        if sig in s.bydem: return s.bydem[sig]
        c = [n for d, n in s.bydem.items() if d.startswith(sig)]
        if len(c) == 1: return c[0]
        if not c: raise GiveUp('no function ' + sig)
        raise GiveUp('ambiguous function ' + sig + ' ' + str([s.fns[x]['sig'] for x in c])[:300])
    def prepare(s, f):
        p = s.prep.get(f['name'])
        if p: return p
        nb = len(f['blocks'])
        succ = []
        for b in f['blocks']:
            t = b[-1]
            if t['op'] == 'br': x = [t['t'], t['f']] if 'cond' in t else [t['t']]
            elif t['op'] == 'invoke': x = [t['normal']]
            elif t['op'] == 'switch': x = [t['def']] + [c[1] for c in t['cases']]
            else: x = []
            succ.append(x)
        # loops
        hdr = {}
        for l in f['loops']:
            hdr[l['header']] = dict(header=l['header'], blocks=set(l['blocks']), depth=l['depth'])
        # rpo ignoring back edges
        seen = set(); order = []
        st = [(0, iter(succ[0]))]; seen.add(0)
        while st:
            b, it = st[-1]
            for x in it:
                if x in hdr and b in hdr[x]['blocks']: continue
                if x not in seen:
                    seen.add(x); st.append((x, iter(succ[x]))); break
            else:
                order.append(b); st.pop()
        rpo = {b: i for i, b in enumerate(reversed(order))}
        inner = {}
        for h, l in hdr.items():
            for b in l['blocks']:
                if b not in inner or inner[b]['depth'] < l['depth']: inner[b] = l
        for b in f['blocks']:       # eight byte copies that may move two adjacent four byte members
            ld = {}
            for i in b:
                o = i['op']
                if o == 'load' and i['ty'] == 'i64': ld[i['id']] = i['ops'][0]
                elif o == 'store':
                    x = i['ops'][0]
                    if i['vty'] == 'i64' and x[0] == 'v' and x[1] in ld: i['copysrc'] = ld[x[1]]
                    ld = {}
                elif o in ('call', 'invoke', 'fence'): ld = {}
        p = Fn(); p.succ = succ; p.hdr = hdr; p.rpo = rpo; p.inner = inner; p.f = f
        s.prep[f['name']] = p
        return p

EIGENALLOC = ('_Znwm', '_Znam', 'malloc')
NOOP = re.compile(r'^(std::__shared_count<\(__gnu_cxx::_Lock_policy\)2>::(~|operator=|__shared_count\(std)|std::_Sp_counted_base|std::__cxx11::basic_o?stringstream|std::basic_o?stream|std::ostream|std::basic_ios|std::ios_base|operator delete|free|std::allocator|__gnu_cxx::new_allocator|std::ostream::|std::basic_ostream)')

def structnn(a):
    """an integer term that cannot be negative"""
    if a.op == 'num': return a.args[0] >= 0
    if a.op in ('len', 'First', 'LIdx', 'FIdx'): return True
    if a.op == 'ite': return structnn(a.args[1]) and structnn(a.args[2])
    if a.op == 'lin': return a.args[0] >= 0 and all(k >= 0 and structnn(x) for x, k in a.args[1])
    return False
def slen(a):
    if a.op == 'strc': return I(len(a.args[0]))
    if a.op == 'ite': return ite(a.args[0], slen(a.args[1]), slen(a.args[2]))
    if a.op == 'uf' and a.args[0] == 'substr': return a.args[3]
    return mk('uf', ('strlen', a), 'I')
def schar(a, i):
    if a.op == 'uf' and a.args[0] == 'substr': return schar(a.args[1], add(a.args[2], i))
    if a.op == 'strc' and i.op == 'num' and 0 <= i.args[0] < len(a.args[0]): return I(ord(a.args[0][int(i.args[0])]))
    return fld(mk('strchar', (a, i), 'F'), 0, 'i8')
def ssub(a, p, n, pc=TRUE):
    """n characters of a from p on, as far as there are (n < 0: all of them)"""
    r = sub(slen(a), p)
    if not (n.op == 'num' and n.args[0] < 0): r = ite(and_(le(I(0), n), le(n, r)), n, r)
    if r.op == 'num' and r.args[0] == 0: return mk('strc', ('',), 'S')
    if a.op == 'uf' and a.args[0] == 'substr': return mk('uf', ('substr', a.args[1], add(a.args[2], p), r), 'S')
    return mk('uf', ('substr', a, p, r), 'S')
def sapp(a, b):
    """concatenation"""
    if a.op == 'strc' and not a.args[0]:
        if b.op == 'uf' and b.args[0] == 'chr' and b.args[1].op == 'fld' and b.args[1].args[0].op == 'strchar': return mk('uf', ('substr',) + b.args[1].args[0].args + (I(1),), 'S')
        return b
    if b.op == 'strc' and not b.args[0]: return a
    if a.op == 'uf' and a.args[0] == 'substr':
        e = add(a.args[2], a.args[3])
        if b.op == 'uf' and b.args[0] == 'substr' and b.args[1] is a.args[1] and b.args[2] is e: return mk('uf', ('substr', a.args[1], a.args[2], add(a.args[3], b.args[3])), 'S')
        if b.op == 'uf' and b.args[0] == 'chr' and b.args[1] is schar(a.args[1], e): return mk('uf', ('substr', a.args[1], a.args[2], add(a.args[3], I(1))), 'S')
    return mk('uf', ('concat', a, b), 'S')
class Ex:
    def __init__(s, ir):
        s.ir = ir
        s.contracts = {}       # demangled signature -> python contract
        s.obls = []            # (pc, cond, text)
        s.throws = []          # (pc, text)
        s.regs = {}            # rid -> dict(kind,...)
        s.nreg = 0
        s.glob0 = {}           # initial global memory
        s.gwrites = set()      # globals written other than by their own initialisation
        s.havoc = frozenset()  # globals whose contents are arbitrary when the function starts
        s.depth = 0
        s.calls = set()        # functions executed
        s.used_contracts = set()
        s.bounded = None       # unrolling bound in bounded mode
        s.bounded_used = set()
        s.zprune = True
        s.abstract = {}        # class known only by its base -> a concrete class giving the names of the virtual functions
        s.refclass = []        # [(predicate on ref term, class)]
        s.assume_nonnull = True
        s.loopinfo = []
        s.noinline = set()
        s.deadline = None
        s.hyps = TRUE
        s.raw = set()
        s._gl_ready = False
        s.obl_on = True
    # ---------------------------------------------------------- regions
    def new(s, kind, name='r'):
        s.nreg += 1
        rid = '%s#%d' % (name, s.nreg)
        s.regs[rid] = dict(kind=kind)
        return rid
    def sym(s, name, cls=None):
        s.regs[name] = dict(kind='sym', cls=cls)
        return ptr(region(name), 0)
    def vtable(s, cls):
        """vtable address point of a class given as 'enve::rib'"""
        for g, o in s.ir.globs.items():
            if o['dem'] == 'vtable for ' + cls: return ptr(region('@' + g), 16)
        return None
    def vslot(s, cls, off):
        """virtual function of an object known only by its abstract class: the name is taken from the table of a
        concrete class that has only this base; it must be given a contract 'virtual <class>::<method>'"""
        if off.op != 'num': raise GiveUp('virtual slot')
        d = s.abstract[cls]; t = s.globcells('@' + next(g for g, o in s.ir.globs.items() if o['dem'] == 'vtable for ' + d))
        c = t.get(int(off.args[0]))
        if not c or c[1].op != 'fptr': raise GiveUp('virtual slot of ' + cls)
        n = s.ir.aliases.get(c[1].args[0], c[1].args[0]); g = s.ir.fns.get(n); sig = g['sig'] if g else s.ir.decls.get(n, n)
        return mk('fptr', ('virtual ' + re.sub(r'\b%s::' % re.escape(d), cls + '::', sig, 1),), 'P')
    def polyat(s, cls, off):
        """class of the polymorphic object (member or array element) whose vtable pointer is at the offset"""
        if off == 0: return cls
        L = s.lay.get(cls) if s.lay else None
        if L is None: return None
        for m, (o, ty) in L['m'].items():
            n = re.match(r'(.*)\[(\d+)\]$', ty); e = n.group(1) if n else ty
            for c in (e, 'acme::' + e, 'enve::' + e):
                z = s.lay.get(c, {}).get('size')
                if z and o <= off < o + z * (int(n.group(2)) if n else 1): return s.polyat(c, (off - o) % z)
        for b, o in L['b'].items():
            if o <= off < o + s.lay.get(b, {}).get('size', 0): return s.polyat(b, off - o)
        return None
    def dyntype(s, rid, st):
        """class of a polymorphic object: declared, or given by its vtable pointer"""
        cls = s.regs[rid].get('cls')
        c = (st.mem.get(rid) or {}).get(0) if not cls and st is not None else None
        if c and c[1].op == 'ptr' and c[1].args[0].op == 'reg' and c[1].args[1] is I(16):
            d = s.ir.globs.get(str(c[1].args[0].args[0]).lstrip('@'), {}).get('dem', '')
            if d.startswith('vtable for '): cls = d[11:]
        return cls
    def dyncast(s, args, st=None):
        """dynamic_cast between polymorphic classes with their bases at offset zero"""
        p, dst = args[0], args[2]
        if p.op != 'ptr' or p.args[0].op != 'reg' or p.args[1] is not I(0): raise GiveUp('dynamic_cast of an unknown object')
        cls = s.dyntype(p.args[0].args[0], st)
        n = dst.args[0].args[0].lstrip('@') if dst.op == 'ptr' and dst.args[0].op == 'reg' else None
        d = s.ir.globs.get(n, {}).get('dem', '')
        if not cls or not d.startswith('typeinfo for ') or s.lay is None: raise GiveUp('dynamic_cast of an unknown object')
        seen = [cls]
        while seen:
            c = seen.pop()
            if c == d[13:]: return p
            seen += [b for b, o in s.lay.get(c, {}).get('b', {}).items() if o == 0]
        return NULL
    # ---------------------------------------------------------- globals
    def const(s, c, ty=None):
        k = c[0]
        if k == 'i':
            v = int(c[1])
            return B(v & 1) if c[2] == 1 else I(v)
        if k == 'f':
            d = struct.unpack('<d', struct.pack('<Q', int(c[1])))[0]
            if d != d: return NAN
            if d == float('inf'): return INF
            if d == float('-inf'): return neg(INF)
            return R(Fraction(d))
        if k == 'null': return NULL
        if k == 'undef': return s.undef(ty)
        if k == 'g':
            if c[1] in s.ir.globs: return ptr(region('@' + c[1]), 0)
            return mk('fptr', (c[1],), 'P')
        if k == 'gep': return padd(s.const(c[1]), c[2])
        if k == 'zero': return ('zero',)
        raise GiveUp('constant ' + str(c)[:60])
    def undef(s, ty):
        so = SORT.get(ty, 'I') if isinstance(ty, str) else 'I'
        return mk('undef', ('u', 0), so)
    def flat(s, c, ty, off, out):
        if c[0] == 'cs':
            for o, cc, t in c[1]: s.flat(cc, t, off + o, out)
        elif c[0] == 'zero': out['zero', off] = True
        elif c[0] == 'str': out[off] = ('str', c[1])
        elif c[0] in ('undef',): pass
        else:
            try: out[off] = (ty, s.const(c, ty))
            except (GiveUp, Unsupported): pass
    def globcells(s, rid):
        c = s.glob0.get(rid)
        if c is None:
            g = s.ir.globs[rid[1:]]; out = {}
            if 'init' in g: s.flat(g['init'], g['ty'], 0, out)
            z = [k for k in out if isinstance(k, tuple)]
            for k in z: del out[k]
            c = {k: v for k, v in out.items()}
            s.glob0[rid] = c
        return c
    def init_globals(s):
        """execute the C++ global initialisers of the linked modules once"""
        if s._gl_ready: return
        s._gl_ready = True
        st = State()
        for n, f in s.ir.fns.items():
            if n.startswith('_GLOBAL__sub_I_'):
                try: r = s.run(f, [], st); st = r[0]
                except Unsupported as e: s.loopinfo.append('global init %s: %s' % (n, e))
        for rid, c in st.mem.items():
            if rid.startswith('@'): s.glob0[rid] = {**s.globcells(rid), **c}
            elif s.regs.get(rid, {}).get('kind') == 'heap': s.glob0[rid] = c
        s.obls.clear(); s.throws.clear(); s.gwrites.clear()
        s._ginit_mem = {rid: c for rid, c in s.glob0.items()}
    def set_havoc(s, rids):
        """globals with a history: whatever earlier calls left in them (their guards say initialised)"""
        s.havoc = frozenset(rids)
        for rid in rids:
            s.glob0.pop(rid, None); s.regs[rid] = dict(kind='sym', cls=None)
            g = '@_ZGV' + rid[3:]
            if rid.startswith('@_ZZ') and g[1:] in s.ir.globs: s.glob0[g] = {0: ('i8', I(1))}
    def gwrite(s, st, rid):
        if rid[0] != '@' or rid.startswith('@_ZGV'): return
        g = '@_ZGV' + rid[3:]
        if rid.startswith('@_ZZ') and g[1:] in s.ir.globs and s.cellget(st, g, 0, 'i8') is I(0): return
        s.gwrites.add(rid)
    # ---------------------------------------------------------- memory
    def resolve(s, v, ty):
        """adapt a raw value to the type of the access"""
        o = v.op
        if v.sort == 'W':
            if o == 'ite': return ite(v.args[0], s.resolve(v.args[1], ty), s.resolve(v.args[2], ty))
            if o == 'raw': return s.resolve(v.args[0], ty)
            if o == 'rawsym': return s.lazy(v.args[0], v.args[1], ty)
            if o == 'rawsel': return sel(v.args[0], v.args[1], v.args[2], ty)
            if o == 'rawfld': return fld(v.args[0], v.args[1], ty)
            if o == 'zero': return {'R': ZERO, 'I': I(0), 'B': FALSE, 'P': NULL, 'Q': QEMPTY}[SORT[ty]]
            raise GiveUp('raw value ' + o)
        w = SORT[ty] if isinstance(ty, str) else None
        if w == v.sort: return v
        if o == 'undef': return mk('undef', v.args, w)
        if w == 'R' and v.sort == 'I' and v is I(0): return ZERO
        if w == 'P' and v is I(0): return NULL
        if w == 'I' and v.sort == 'B': return ite(v, I(1), I(0))
        if w == 'B' and v.sort == 'I': return not_(eq(v, I(0)))
        if w == 'I' and v.sort in 'RPQS': return mk('raw', (v,), 'W')
        if w == 'Q' and v.sort == 'P' and v is NULL: return QEMPTY
        raise GiveUp('type mismatch %s as %s' % (show(v)[:60], ty))
    def lazy(s, rid, off, ty):
        nm = '%s+%d' % (rid, off)
        if ty == 'ptr':
            sub_ = nm
            if sub_ not in s.regs: s.regs[sub_] = dict(kind='sym', cls=None)
            return ptr(region(sub_), 0)
        if ty == 'q': return mk('qvar', (nm,), 'Q')
        if ty == 'str': return mk('svar', (nm,), 'S')
        t = SORT[ty]
        return var(nm + ('' if t == 'R' else ':' + t), t)
    def cellget(s, st, rid, off, ty):
        c = st.mem.get(rid)
        if c is not None:
            x = c.get(off)
            if x is not None: return s.resolve(x[1], ty)
            if off % 8 == 4 and ty in ('i32', 'i8', 'i1'):
                y = c.get(off - 4)      # upper half of an eight byte granule copied by memcpy
                if y is not None and y[1].op in ('rawsym', 'rawsel', 'rawfld'):
                    w = y[1]; return s.resolve(mk(w.op, w.args[:-1] + (w.args[-1] + 4,), 'W'), ty)
        if rid in s.glob0 and (c is None or not s.regs.get(rid)):
            x = s.glob0[rid].get(off)
            if x is not None: return s.resolve(x[1], ty)
        if rid[0] == '@' and rid not in s.havoc:
            x = s.globcells(rid).get(off)
            if x is not None:
                if x[0] == 'str': raise GiveUp('load from string constant')
                return s.resolve(x[1], ty)
            for o, x in s.globcells(rid).items():
                if x[0] == 'str' and o <= off < o + len(x[1]) + 1 and ty == 'i8':
                    t = x[1] + '\0'
                    return I(ord(t[off - o]))
            return s.resolve(mk('zero', (), 'W'), ty)
        k = s.regs[rid]['kind']
        if k == 'sym':
            if ty == 'ptr' and s.regs[rid].get('cls'):
                c_ = s.polyat(s.regs[rid]['cls'], off); v = c_ and s.vtable(c_)
                if v is not None: return v
            return s.lazy(rid, off, ty)
        if c is not None and c.get('zero'):
            for lo, hi in c['zero'][1]:
                if lo <= off < hi: return s.resolve(mk('zero', (), 'W'), ty)
        if ty == 'q': return QEMPTY
        if ty == 'str': return mk('undef', (rid, off), 'S')
        return mk('undef', (rid, off), SORT[ty])
    def split(s, base, off):
        """vbuf offset -> (index term, field offset)"""
        stride = base.args[1]
        c, d = (off.args[0], {}) if off.op == 'num' else ((off.args[0], dict(off.args[1])) if off.op == 'lin' else (0, {off: 1}))
        f = int(c) % stride
        idx = _int_lin(int(c) // stride, d, stride)
        return idx, f
    def qget(s, st, hdr):
        """sequence stored in the vector whose header is at pointer hdr"""
        return s.load(st, hdr, 'q')
    def load(s, st, p, ty):
        if p.op == 'ite':
            a = s._load_br(st, p.args[1], ty, p.args[0]); b = s._load_br(st, p.args[2], ty, not_(p.args[0]))
            return ite(p.args[0], a, b)
        if p is NULL: 
            s.oblige(st, FALSE, 'null dereference')
            return mk('undef', ('null', 0), SORT[ty])
        if p.op != 'ptr':
            if p.op == 'undef':
                return mk('undef', ('wild', 0), SORT[ty])
            raise GiveUp('load through ' + show(p)[:60])
        base, off = p.args
        if base.op == 'reg':
            if base.args[0].startswith('@abstract '): return s.vslot(base.args[0][10:], off)
            if off.op == 'num': return s.cellget(st, base.args[0], int(off.args[0]), ty)
            return s.symoff_load(st, base.args[0], off, ty)
        if base.op == 'vbuf':
            i, f = s.split(base, off)
            q = s.qget(st, base.args[0])
            s.oblige(st, and_(le(I(0), i), lt(i, qlen(q))), 'vector index in bounds')
            return s.resolve(sel(q, i, f, ty), ty)
        if base.op == 'newobj':
            return s.resolve(recget(base.args[0], int(off.args[0]), ty), ty)
        if base.sort == 'F':
            if off.op != 'num': raise GiveUp('symbolic offset in external object')
            o = int(off.args[0])
            ov = st.mem.get(('ref', base))
            if ov is not None and o in ov: return s.resolve(ov[o][1], ty)
            if ty == 'ptr':
                for pr, cls in s.refclass:
                    if pr(base):
                        if cls in s.abstract and o == 0: return ptr(region('@abstract ' + cls), 16)
                        c_ = s.polyat(cls, o); v = c_ and s.vtable(c_)
                        if v is not None: return v
            if base in NULLABLE: s.oblige(st, not_(mk('isnull', (base,), 'B')), 'null dereference')
            return fld(base, o, ty)
        raise GiveUp('load from ' + base.op)
    def _load_br(s, st, p, ty, c):
        old = st.pc
        st.pc = and_(st.pc, c)
        try:
            if st.pc is FALSE: return s.load(st, p, ty) if p.op == 'ptr' and p.args[0].op == 'reg' else mk('undef', ('dead', 0), SORT[ty])
            return s.load(st, p, ty)
        finally: st.pc = old
    def symoff_load(s, st, rid, off, ty):
        c, stride, d = _symoff(off)
        n = s.regs.get(rid, {}).get('size')
        if n is None: raise GiveUp('symbolic offset into %s' % rid)
        i = _int_lin(0, d, stride)
        r = None
        cnt = (n - c + stride - 1) // stride
        if cnt > 64: raise GiveUp('symbolic offset')
        for j in reversed(range(cnt)):
            v = s.cellget(st, rid, c + j * stride, ty)
            r = v if r is None else ite(eq(i, I(j)), v, r)
        s.oblige(st, and_(le(I(0), i), lt(i, I(cnt))), 'array index in bounds')
        return r
    def store(s, st, p, ty, v):
        if p.op == 'ite':
            for c, q in ((p.args[0], p.args[1]), (not_(p.args[0]), p.args[2])):
                if and_(st.pc, c) is FALSE or q is NULL: continue
                o = s.load(st, q, ty); s.store(st, q, ty, ite(c, v, o))
            return
        if p is NULL: s.oblige(st, FALSE, 'null dereference (write)'); return
        if p.op != 'ptr': raise GiveUp('store through ' + show(p)[:60])
        base, off = p.args
        if base.op == 'reg':
            rid = base.args[0]
            if off.op != 'num':
                c, stride, d = _symoff(off); n = s.regs.get(rid, {}).get('size')
                if n is None: raise GiveUp('symbolic store offset into %s' % rid)
                i = _int_lin(0, d, stride); cnt = (n - c + stride - 1) // stride
                if cnt > 64: raise GiveUp('symbolic offset')
                s.oblige(st, and_(le(I(0), i), lt(i, I(cnt))), 'array index in bounds (write)')
                for j in range(cnt):
                    o = s.cellget(st, rid, c + j * stride, ty)
                    s.setcell(st, rid, c + j * stride, ty, ite(eq(i, I(j)), v, o))
                return
            s.setcell(st, rid, int(off.args[0]), ty, v); return
        if base.op == 'vbuf':
            i, f = s.split(base, off)
            q = s.qget(st, base.args[0])
            s.oblige(st, and_(le(I(0), i), lt(i, qlen(q))), 'vector index in bounds (write)')
            s.store(st, base.args[0], 'q', qstore(q, i, f, v))
            return
        if base.op == 'newobj': raise GiveUp('store to an object made by a loop')
        if base.sort == 'F' and off.op == 'num':
            key = ('ref', base)
            c = dict(st.mem.get(key, {})); c[int(off.args[0])] = (ty, v); st.mem[key] = c
            if not s.regs.get('allow_ref_store'): raise GiveUp('store to external object ' + show(base)[:60])
            return
        raise GiveUp('store to ' + base.op)
    def setcell(s, st, rid, off, ty, v):
        c = s.cells(st, rid)
        w = 8 if ty in ('double', 'ptr', 'i64') else {'i32': 4, 'i16': 2, 'i8': 1, 'i1': 1, 'q': 24, 'str': 32}.get(ty, 8)
        if w < 8 or off % 8:
            pass
        c[off] = (ty, v)
    def cells(s, st, rid):
        if rid.__class__ is str and rid[0] == '@': s.gwrite(st, rid)
        c = st.mem.get(rid)
        if c is None and rid in s.glob0:
            st.mem[rid] = dict(s.glob0[rid]); st.own.add(rid)
            return st.mem[rid]
        return st.cells(rid)
    def oblige(s, st, cond, text):
        if cond is TRUE or not s.obl_on: return
        s.obls.append((st.pc, cond, text))
    def memcpy(s, st, dst, src, n):
        if n.op != 'num': raise GiveUp('memcpy of symbolic size')
        n = int(n.args[0])
        if src.op == 'ite' or dst.op == 'ite' or src.op != 'ptr' or dst.op != 'ptr': raise GiveUp('memcpy pointers %s %s' % (show(dst)[:80], show(src)[:80]))
        sb, so = src.args
        out = {}
        if sb.op == 'reg' and so.op == 'num':
            rid = sb.args[0]; so = int(so.args[0])
            c = st.mem.get(rid, {}) or s.glob0.get(rid, {})
            if rid[0] == '@' and not c and rid not in s.havoc: c = s.globcells(rid)
            have = {}
            for o, x in c.items():
                if isinstance(o, int) and so <= o < so + n: out[o - so] = x; have[o - so] = 24 if x[0] == 'q' else 32 if x[0] == 'str' else 8 if x[0] in ('double', 'ptr', 'i64') else 4
            k = s.regs.get(rid, {}).get('kind')
            if k == 'sym':
                for o in range(0, n, 8):
                    if not any(h <= o < h + w for h, w in have.items()): out[o] = ('raw', mk('rawsym', (rid, so + o), 'W'))
            elif rid[0] == '@':
                for o in range(0, n, 8):
                    if not any(h <= o < h + w for h, w in have.items()): out[o] = ('raw', mk('zero', (), 'W'))
        elif sb.op == 'vbuf':
            i, f = s.split(sb, so); q = s.qget(st, sb.args[0])
            s.oblige(st, and_(le(I(0), i), lt(i, qlen(q))), 'vector index in bounds')
            for o in range(0, n, 8): out[o] = ('raw', mk('rawsel', (q, i, f + o), 'W'))
        elif sb.sort == 'F' and so.op == 'num':
            for o in range(0, n, 8): out[o] = ('raw', mk('rawfld', (sb, int(so.args[0]) + o), 'W'))
        else: raise GiveUp('memcpy source')
        db, do = dst.args
        if db.op == 'reg' and do.op == 'num':
            rid = db.args[0]; c = s.cells(st, rid); do = int(do.args[0])
            for o in list(c):
                if isinstance(o, int) and do <= o < do + n: del c[o]
            for o, x in out.items(): c[do + o] = x
        elif db.op == 'vbuf':
            for o, (ty, v) in out.items():
                if v.sort == 'W': v = s.resolve(v, 'double'); ty = 'double'
                s.store(st, padd(dst, o), ty, v)
        else: raise GiveUp('memcpy destination')
    def memset(s, st, dst, val, n):
        if n.op != 'num' or not (val.op == 'num' and val.args[0] == 0): raise GiveUp('memset')
        n = int(n.args[0]); b, o = dst.args
        if b.op != 'reg' or o.op != 'num': raise GiveUp('memset dest')
        c = s.cells(st, b.args[0]); o = int(o.args[0])
        for k in list(c):
            if isinstance(k, int) and o <= k < o + n: del c[k]
        z = c.get('zero', (None, ()))[1]
        c['zero'] = ('zero', z + ((o, o + n),))
    # ---------------------------------------------------------- merging
    def merge(s, a, b):
        if a.pc is FALSE: return b
        if b.pc is FALSE: return a
        ca, cb = conj(a.pc), conj(b.pc)
        com = ca & cb
        ra, rb = and_(*(ca - com)), and_(*(cb - com))
        c = ra
        if P_size(rb) < P_size(ra): c = not_(rb)
        r = State(); r.pc = and_(and_(*com), or_(ra, rb)); r.prev = None
        cache = {}
        def m(x, y):
            if x is y: return x
            k = (x, y)
            z = cache.get(k)
            if z is None:
                z = s.ite(c, x, y)
                cache[k] = z
            return z
        for rid in a.mem.keys() | b.mem.keys():
            x, y = a.mem.get(rid), b.mem.get(rid)
            if x is y: r.mem[rid] = x; continue
            if x is None or y is None:
                kd = s.regs.get(rid, {}).get('kind') if not isinstance(rid, tuple) else 'ref'
                if kd in ('alloca', 'heap') :
                    r.mem[rid] = x if y is None else y; continue
                x = x or {}; y = y or {}
            out = {}
            for o in x.keys() | y.keys():
                u, v = x.get(o), y.get(o)
                if u is v or (u is not None and v is not None and u[1] is v[1]): out[o] = u if u is not None else v; continue
                if o == 'zero':
                    zu, zv = (u or (0, ()))[1], (v or (0, ()))[1]
                    out[o] = ('zero', tuple(z for z in zu if z in zv)); 
                    if zu != zv: out.pop(o)
                    continue
                ty = (u or v)[0]
                if ty == 'raw' and u is not None and v is not None: ty = u[0] if u[0] != 'raw' else v[0]
                if u is not None and v is not None and u[0] != v[0] and 'raw' not in (u[0], v[0]):
                    ty = v[0] if u[1].op == 'undef' else u[0]
                if ty == 'raw':
                    if u is None or v is None:
                        kd = s.regs.get(rid, {}).get('kind') if isinstance(rid, str) else None
                        if kd in ('alloca', 'heap'): out[o] = u or v; continue
                    uu = u[1] if u else mk('rawsym', (rid, o), 'W'); vv = v[1] if v else mk('rawsym', (rid, o), 'W')
                    out[o] = ('raw', mk('ite', (c, uu, vv), 'W')); continue
                try:
                    uu = s.resolve(u[1], ty) if u else s.default(a, rid, o, ty)
                    vv = s.resolve(v[1], ty) if v else s.default(b, rid, o, ty)
                    out[o] = (ty, m(uu, vv))
                except Unsupported:
                    if isinstance(rid, str) and s.regs.get(rid, {}).get('kind') == 'alloca': continue
                    raise
            r.mem[rid] = out; r.own.add(rid)
        ea, eb = a.env, b.env
        for k in ea.keys() & eb.keys():
            x, y = ea[k], eb[k]
            if x is y: r.env[k] = x
            elif x.__class__ is T and y.__class__ is T:
                try: r.env[k] = m(x, y)
                except Unsupported: pass
            elif x == y: r.env[k] = x
        for k in ea.keys() ^ eb.keys(): r.env[k] = ea.get(k, eb.get(k))
        return r
    def default(s, st, rid, o, ty):
        if isinstance(rid, tuple): return fld(rid[1], o, ty)
        return s.cellget(st, rid, o, ty)
    def ite(s, c, x, y):
        if x.sort != y.sort:
            if x.op == 'undef': x = mk('undef', x.args, y.sort)
            elif y.op == 'undef': y = mk('undef', y.args, x.sort)
            elif x.sort == 'W' or y.sort == 'W': return mk('ite', (c, x, y), 'W')
            elif x.sort == 'B' and y.sort == 'I': x = ite(x, I(1), I(0))
            elif y.sort == 'B' and x.sort == 'I': y = ite(y, I(1), I(0))
            else: raise GiveUp('merge of %s and %s' % (show(x)[:40], show(y)[:40]))
        if x.op == 'undef': return y
        if y.op == 'undef': return x
        return ite(c, x, y)
    def mergeall(s, l):
        l = [x for x in l if x.pc is not FALSE]
        if not l: return None
        # merge pairs with the longest common path condition first
        while len(l) > 1:
            best = None
            for i in range(len(l)):
                ci = conj(l[i].pc)
                for j in range(i + 1, len(l)):
                    cj = conj(l[j].pc); com = ci & cj
                    compl = and_(*(ci - com)) is not_(and_(*(cj - com)))
                    sc = (compl, len(com))
                    if best is None or sc > best[0]: best = (sc, i, j)
            _, i, j = best
            x = s.merge(l[i], l[j])
            l = [y for k, y in enumerate(l) if k not in (i, j)] + [x]
        return l[0]
    # ---------------------------------------------------------- decisions
    def decide(s, st, c):
        """simplify condition under the path condition"""
        if c is TRUE or c is FALSE: return c
        pc = and_(s.hyps, st.pc)
        if pc is not TRUE:
            c = simp(c, literals([pc]))
            if c is TRUE or c is FALSE: return c
        if s.zprune and pc is not TRUE and P_size(pc) < 4000:
            if zcheck((pc, c), 80)[0] == 'unsat': return FALSE
            if zcheck((pc, not_(c)), 80)[0] == 'unsat': return TRUE
        return c
    # ---------------------------------------------------------- functions
    def run(s, f, args, st, fresh_env=True):
        """execute function f; returns (state or None, return value)"""
        if s.deadline and __import__('time').time() > s.deadline: raise GiveUp('time limit')
        s.depth += 1
        if s.depth > 60: s.depth = 0; raise GiveUp('call depth')
        p = s.ir.prepare(f)
        s.calls.add(f['sig'])
        oldenv = st.env
        st = st.copy() if fresh_env else st
        st.env = {('a', i): v for i, v in enumerate(args)}
        st.prev = None
        try:
            rets = []
            s.region(p, [(0, st)], None, rets, None, None)
            if not rets: return None, None
            if len(rets) == 1: r, v = rets[0]
            else:
                for x, v in rets: x.env = {'ret': v} if v is not None else {}
                r = s.mergeall([x for x, v in rets]); v = r.env.get('ret')
            r.env = oldenv
            return r, v
        finally: s.depth -= 1
    def region(s, p, entries, loop, rets, back, exits):
        """process blocks in topological order.  loop: the loop whose body is processed (or None).
        back: list receiving states that reach the loop header again; exits: list receiving (from,to,state)"""
        pend = {}; heap = []
        def push(b, st, frm):
            if st.pc is FALSE: return
            if loop is not None and frm is not None:
                if b == loop['header']:
                    s.phis(p, b, frm, st); back.append(st); return
                if b not in loop['blocks']:
                    exits.append((frm, b, st)); return
            if frm is not None: s.phis(p, b, frm, st)
            if b not in pend: pend[b] = []; heapq.heappush(heap, (p.rpo[b], b))
            pend[b].append(st)
        for b, st in entries: push(b, st, None)
        while heap:
            _, b = heapq.heappop(heap)
            st = s.mergeall(pend.pop(b))
            if st is None: continue
            if b in p.hdr and p.hdr[b] is not loop:
                for frm, to, x in s.loop(p, p.hdr[b], st, rets): 
                    push(to, x, frm)
                continue
            s.block(p, b, st, push, rets)
    def phis(s, p, b, frm, st):
        vals = []
        for i in p.f['blocks'][b]:
            if i['op'] != 'phi': break
            for f, v in i['in']:
                if f == frm: vals.append((i['id'], s.val(st, v, i['ty']))); break
            else: raise GiveUp('phi')
        for k, v in vals: st.env[k] = v
    def val(s, st, v, ty=None):
        k = v[0]
        if k == 'v':
            try: return st.env[v[1]]
            except KeyError: raise GiveUp('undefined SSA value')
        if k == 'a': return st.env['a', v[1]]
        return s.const(v, ty)
    def block(s, p, b, st, push, rets):
        ins = p.f['blocks'][b]
        for n, i in enumerate(ins):
            op = i['op']
            if op == 'phi': continue
            if op == 'br':
                if 'cond' not in i: push(i['t'], st, b); return
                c = s.decide(st, s.val(st, i['cond'], 'i1'))
                if c is TRUE: push(i['t'], st, b); return
                if c is FALSE: push(i['f'], st, b); return
                if i['t'] == i['f']:
                    push(i['t'], st, b); return
                s2 = st.copy(); s2.pc = and_(st.pc, not_(c)); st.pc = and_(st.pc, c)
                push(i['t'], st, b); push(i['f'], s2, b); return
            if op == 'ret':
                v = s.val(st, i['ops'][0], i['oty'] if isinstance(i.get('oty'), str) else None) if i['ops'] else None
                rets.append((st, v)); return
            if op == 'unreachable': return
            if op == 'switch':
                x = s.toI(s.val(st, i['cond'], 'i32')); rest = st
                for c, tgt in i['cases']:
                    cc = s.decide(rest, eq(x, s.const(c)))
                    if cc is FALSE: continue
                    if cc is TRUE: push(tgt, rest, b); return
                    s2 = rest.copy(); s2.pc = and_(rest.pc, cc); rest = rest.copy(); rest.pc = and_(rest.pc, not_(cc))
                    push(tgt, s2, b)
                push(i['def'], rest, b); return
            if op in ('resume', 'landingpad'): return
            if op in ('call', 'invoke'):
                if not s.call(p, i, st): return
                if op == 'invoke': push(i['normal'], st, b); return
                continue
            if 'id' in i: st.env[i['id']] = s.instr(st, i)
            else: s.effect(st, i)
    def effect(s, st, i):
        if i['op'] == 'store':
            p = s.val(st, i['ops'][1], 'ptr'); ty = i['vty']
            v = s.val(st, i['ops'][0], ty)
            if isinstance(v, tuple) or not isinstance(ty, str): raise GiveUp('aggregate store')
            if 'copysrc' in i:
                q = s.val(st, i['copysrc'], 'ptr')
                if all(z.op == 'ptr' and z.args[0].op == 'reg' and z.args[1].op == 'num' for z in (p, q)):
                    rid, so = q.args[0].args[0], int(q.args[1].args[0])
                    c = st.mem.get(rid, {}); x = c.get(so)
                    if so + 4 in c or (x is not None and x[0] in ('i32', 'raw')) or (x is None and s.regs.get(rid, {}).get('kind') == 'sym'): s.memcpy(st, p, q, I(8)); return
            if v.sort == 'W': ty = 'raw'
            s.store(st, p, ty, v)
        elif i['op'] == 'fence': pass
        else: raise GiveUp('instruction ' + i['op'])
    def instr(s, st, i):
        op = i['op']; ty = i['ty']
        V = lambda n: s.val(st, i['ops'][n], i.get('oty') if isinstance(i.get('oty'), str) else None)
        if op == 'load':
            p = s.val(st, i['ops'][0], 'ptr')
            if not isinstance(ty, str): raise GiveUp('aggregate load')
            return s.loadty(st, p, ty)
        if op == 'getelementptr':
            b = s.val(st, i['base'], 'ptr')
            off = I(i['off'])
            for x, k in i['idx']:
                t = s.val(st, x, 'i64')
                off = add(off, scale(t, k))
            return padd(b, off)
        if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            a, b = V(0), V(1)
            if op == 'fadd': return add(a, b)
            if op == 'fsub': return sub(a, b)
            if op == 'fmul': return s.fmul(a, b)
            if op == 'fdiv': return s.fdiv(a, b)
        if op == 'fneg': return neg(V(0))
        if op in ('add', 'sub', 'mul'):
            a, b = V(0), V(1)
            if ty == 'i1': raise GiveUp('i1 arithmetic')
            if a.sort == 'B' or b.sort == 'B': raise GiveUp('bool arithmetic')
            if a.sort != 'I' or b.sort != 'I': raise GiveUp('arithmetic on raw value')
            if op == 'add': return add(a, b)
            if op == 'sub': return sub(a, b)
            return mul(a, b)
        if op in ('sdiv', 'udiv', 'ashr', 'lshr', 'shl', 'srem', 'urem'):
            a, b = V(0), V(1)
            if b.op != 'num' or a.sort != 'I': raise GiveUp(op)
            k = int(b.args[0])
            if op == 'shl': return scale(a, 2 ** k)
            if op in ('ashr', 'lshr'): k = 2 ** k
            if op in ('srem', 'urem'): return sub(a, scale(idiv(a, k), k))
            return s.idiv_exact(a, k)
        if op in ('and', 'or', 'xor'):
            a, b = V(0), V(1)
            if ty == 'i1' or (a.sort == 'B' and b.sort == 'B'):
                if a.sort == 'I': a = not_(eq(a, I(0)))
                if b.sort == 'I': b = not_(eq(b, I(0)))
                if op == 'and': return and_(a, b)
                if op == 'or': return or_(a, b)
                return ite(a, not_(b), b)
            a = s.toI(a); b = s.toI(b)
            return s.bitop(op, a, b)
        if op == 'icmp': return s.icmp(i['pred'], V(0), V(1), st)
        if op == 'fcmp': return s.fcmp(i['pred'], V(0), V(1))
        if op == 'select':
            c = s.val(st, i['ops'][0], 'i1'); a = s.val(st, i['ops'][1], ty); b = s.val(st, i['ops'][2], ty)
            if c.sort == 'I': c = not_(eq(c, I(0)))
            return s.ite(c, a, b)
        if op == 'zext' or op == 'sext':
            a = V(0)
            if a.sort == 'B' and ty != 'i1': return ite(a, I(1 if op == 'zext' else -1), I(0))
            return a
        if op == 'trunc':
            a = V(0)
            if ty == 'i1' and a.sort == 'I':
                r = s.boolish(a)
                if r is not None: return r
                raise GiveUp('trunc to i1')
            return a
        if op in ('sitofp', 'uitofp'): return toreal(s.toI(V(0)))
        if op in ('fptosi', 'fptoui'): return toint(V(0))
        if op == 'alloca':
            rid = s.new('alloca', 'al')
            c = s.val(st, i['count'], 'i64')
            if c.op != 'num': raise GiveUp('dynamic alloca')
            s.regs[rid]['size'] = i['size'] * int(c.args[0])
            st.mem[rid] = {}; st.own.add(rid)
            return ptr(region(rid), 0)
        if op == 'ptrtoint': 
            a = V(0)
            return s.p2i(a)
        if op == 'freeze': return V(0)
        if op == 'extractvalue':
            a = V(0)
            for k in i['path']: a = a[k]
            return a
        if op == 'insertvalue':
            a = s.val(st, i['ops'][0], None); b = s.val(st, i['ops'][1], None)
            a = list(a) if isinstance(a, (tuple, list)) else [None] * 4
            if len(i['path']) != 1: raise GiveUp('insertvalue')
            a[i['path'][0]] = b
            return tuple(a)
        if op == 'atomicrmw': return I(1)
        raise GiveUp('instruction ' + op)
    def loadty(s, st, p, ty):
        return s.load(st, p, ty)
    def toI(s, a):
        if a.sort == 'B': return ite(a, I(1), I(0))
        if a.sort != 'I': raise GiveUp('integer expected')
        return a
    def p2i(s, a):
        if a is NULL: return I(0)
        if a.op == 'ite': return ite(a.args[0], s.p2i(a.args[1]), s.p2i(a.args[2]))
        if a.op == 'ptr': return add(mk('p2i', (a.args[0],), 'I'), a.args[1])
        raise GiveUp('ptrtoint')
    def idiv_exact(s, a, k):
        return idiv(a, k)
    def boolish(s, a):
        """an integer term with 0/1 leaves as a boolean"""
        if a.sort == 'B': return a
        if a.op == 'num': return B(int(a.args[0]) & 1)
        if a.op == 'undef': return FALSE
        if a.op == 'var': return not_(eq(a, I(0)))
        if a.op == 'ite':
            x, y = s.boolish(a.args[1]), s.boolish(a.args[2])
            if x is None or y is None: return None
            return ite(a.args[0], x, y)
        if a.op in ('sel', 'fld', 'Last', 'uf', 'Fold', 'fn'): return not_(eq(a, I(0)))
        return None
    def bitop(s, op, a, b):
        if a.op == 'num' and b.op != 'num': a, b = b, a
        if a.op == 'num' and b.op == 'num':
            x, y = int(a.args[0]), int(b.args[0])
            return I(x & y if op == 'and' else x | y if op == 'or' else x ^ y)
        from summary import tree, mapleaves
        la, lb = tree(a)[0], tree(b)[0]
        if all(x.op == 'num' for x in la + lb):
            return mapleaves(a, lambda x: mapleaves(b, lambda y: s.bitop(op, x, y)))
        if b.op == 'num':
            k = int(b.args[0])
            if op == 'and' and k == 1:
                r = s.boolish(a)
                if r is not None: return ite(r, I(1), I(0))
            if op == 'and' and k == 0: return I(0)
            if op == 'or' and k == 0: return a
            if op == 'xor' and k == 0: return a
            if op == 'xor' and k == 1:
                r = s.boolish(a)
                if r is not None: return ite(r, I(0), I(1))
            if op == 'and' and k in (255, 0xffffffff, -1): return a
            if op == 'xor' and k == -1: return sub(I(-1), a)
        if any(x.op == 'num' and x.args[0] not in (0, 1) for x in la + lb): raise GiveUp('bit operation')
        r1, r2 = s.boolish(a), s.boolish(b)
        if r1 is not None and r2 is not None and a.op in ('ite', 'num') and b.op in ('ite', 'num'):
            r = {'and': and_, 'or': or_, 'xor': lambda x, y: ite(x, not_(y), y)}[op](r1, r2)
            return ite(r, I(1), I(0))
        raise GiveUp('bit operation %s %s %s' % (op, show(a)[:40], show(b)[:40]))
    def fmul(s, a, b): return mul(a, b)
    def fdiv(s, a, b): return div(a, b)
    def icmp(s, pred, a, b, st=None):
        if a.sort == 'P' or b.sort == 'P':
            if a.sort == 'I' and a is I(0): a = NULL
            if b.sort == 'I' and b is I(0): b = NULL
            if pred in ('eq', 'ne'):
                r = s.peq(a, b)
                return r if pred == 'eq' else not_(r)
            if a.op == 'ptr' and b.op == 'ptr' and a.args[0] is b.args[0]: a, b = a.args[1], b.args[1]
            else: raise GiveUp('pointer comparison')
        if a.sort == 'W' or b.sort == 'W': raise GiveUp('comparison of raw value')
        if a.sort == 'B' and b.sort == 'B':
            r = iff(a, b)
            if pred == 'eq': return r
            if pred == 'ne': return not_(r)
        a, b = s.toI(a), s.toI(b)
        if pred[0] == 'u' and st is not None:   # unsigned: a negative mathematical value stands for a huge one
            na, nb = s.nonneg(st, a), s.nonneg(st, b)
            if na is not TRUE or nb is not TRUE:
                if pred[1:] in ('gt', 'ge'): return s.ult(b, a, nb, na, pred == 'uge')
                return s.ult(a, b, na, nb, pred == 'ule')
        if pred == 'eq': return eq(a, b)
        if pred == 'ne': return not_(eq(a, b))
        if pred[1:] == 'lt': return lt(a, b)
        if pred[1:] == 'le': return le(a, b)
        if pred[1:] == 'gt': return lt(b, a)
        if pred[1:] == 'ge': return le(b, a)
        raise GiveUp('icmp ' + pred)
    def ult(s, a, b, na, nb, orequal):
        c = le(a, b) if orequal else lt(a, b)
        return or_(and_(na, nb, c), and_(na, not_(nb)), and_(not_(na), not_(nb), c))
    def nonneg(s, st, a):
        if structnn(a): return TRUE
        return s.decide(st, le(I(0), a))
    def peq(s, a, b):
        if a.op == 'undef' or b.op == 'undef': return mk('undef', ('pcmp', 0), 'B') if False else FALSE
        if a.op == 'ptr' and b.op == 'ptr' and a.args[0].op == 'vbuf' and a.args[0] is b.args[0]:
            k = a.args[0].args[1]
            return eq(idiv(a.args[1], k), idiv(b.args[1], k))
        return peq(a, b)
    def fcmp(s, pred, a, b):
        u = pred[0] == 'u'
        if pred == 'true': return TRUE
        if pred == 'false': return FALSE
        if pred == 'uno': return or_(nanof(a), nanof(b))
        if pred == 'ord': return not_(or_(nanof(a), nanof(b)))
        p = pred[1:]
        if u:
            inv = {'lt': 'ge', 'le': 'gt', 'gt': 'le', 'ge': 'lt', 'eq': 'ne', 'ne': 'eq'}[p]
            return not_(s.fcmp('o' + inv, a, b))
        if p == 'lt': return flt(a, b)
        if p == 'le': return fle(a, b)
        if p == 'gt': return flt(b, a)
        if p == 'ge': return fle(b, a)
        if p == 'eq': return feq(a, b)
        if p == 'ne': return and_(not_(nanof(a)), not_(nanof(b)), not_(eq(a, b)))
        raise GiveUp('fcmp ' + pred)
    # ---------------------------------------------------------- calls
    def call(s, p, i, st):
        """returns False when the path ends here"""
        name = i.get('callee')
        if name is None:
            fp = i['fptr']
            t = s.val(st, fp, 'ptr')
            if fp[0] == 'g': name = fp[1]
            elif t.op == 'fptr': name = t.args[0]
            elif t.op == 'ite': return s.callsplit(p, i, st, t)
            else: raise GiveUp('indirect call in %s' % p.f['sig'][:80])
        return s.callnamed(name, i, st)
    def callsplit(s, p, i, st, t):
        """a call through one of several functions: one path for each"""
        if t.op == 'fptr': return s.callnamed(t.args[0], i, st)
        if t.op != 'ite': raise GiveUp('indirect call in %s' % p.f['sig'][:80])
        live = []
        for c, u in ((t.args[0], t.args[1]), (not_(t.args[0]), t.args[2])):
            n = st.copy(); n.pc = and_(st.pc, c); n.pc = and_(*[replace_known(x, n.pc) for x in conj(n.pc)])
            if n.pc is FALSE: continue
            if s.callsplit(p, i, n, u): live.append(n)
        if not live: return False
        r = live[0] if len(live) == 1 else s.merge(*live)
        st.mem, st.env, st.pc, st.own = r.mem, r.env, r.pc, set(); r.own = set()
        return True
    def callnamed(s, name, i, st):
        if name.startswith('llvm.'):
            r = s.intrinsic(name, i, st)
            if r is False: return False
            if 'id' in i: st.env[i['id']] = r
            return True
        args = [s.val(st, a, 'ptr') if a[0] != 'md' else None for a in i['args']]
        r = s.invoke(name, args, st, i)
        if r is False: return False
        if 'id' in i: st.env[i['id']] = r if r is not None else s.undef(i['ty'])
        return True
    def invoke(s, name, args, st, i=None):
        name = s.ir.aliases.get(name, name)
        f = s.ir.fns.get(name)
        sig = f['sig'] if f else s.ir.decls.get(name, name)
        c = s.contracts.get(sig)
        if c is not None:
            s.used_contracts.add(sig)
            return c(s, st, args)
        r = s.library(name, sig, f, args, st, i)
        if r is not NotImplemented: return r
        if f is None: raise GiveUp('call of unknown function ' + sig[:100])
        st2, v = s.run(f, args, st)
        if st2 is None: return False
        st.mem = st2.mem; st.own = set(); st.pc = st2.pc
        return v
    def callsig(s, sig, args, st):
        n = s.ir.find(sig)
        r = s.invoke(n, args, st)
        return r
    def intrinsic(s, name, i, st):
        A = lambda n, ty=None: s.val(st, i['args'][n], ty)
        b = name.split('.')[1]
        if b in ('lifetime', 'dbg', 'assume', 'experimental', 'invariant', 'prefetch'): return None
        if b == 'expect': return A(0)
        if b == 'fabs': return absr(A(0))
        if b in ('sqrt', 'sin', 'cos', 'exp', 'log', 'floor', 'ceil', 'trunc', 'rint', 'round'): return fn(b, A(0))
        if b in ('pow',): return s.pow(A(0), A(1))
        if b == 'powi': 
            e = A(1)
            if e.op == 'num': return powi(A(0), int(e.args[0]))
            raise GiveUp('powi')
        if b in ('maxnum', 'minnum'):
            x, y = A(0), A(1)
            return ite(flt(x, y), y, x) if b == 'maxnum' else ite(flt(y, x), y, x)
        if b == 'copysign':
            return ite(lt(A(1), ZERO), neg(absr(A(0))), absr(A(0)))
        if b in ('memcpy', 'memmove'): s.memcpy(st, A(0), A(1), A(2)); return None
        if b == 'memset': s.memset(st, A(0), A(1), A(2)); return None
        if b in ('smax', 'umax'): x, y = A(0), A(1); return ite(lt(x, y), y, x)
        if b in ('smin', 'umin'): x, y = A(0), A(1); return ite(lt(x, y), x, y)
        if b == 'abs': x = A(0); return ite(lt(x, I(0)), neg(x), x)
        if b == 'fmuladd': return add(mul(A(0), A(1)), A(2))
        if name.startswith('llvm.is.fpclass'):
            m = A(1)
            if m.op == 'num' and int(m.args[0]) == 3: return nanof(A(0))
            if m.op == 'num' and int(m.args[0]) & 3 == 0 and int(m.args[0]) & 0x204 == 0: return not_(nanof(A(0)))
            if m.op == 'num' and int(m.args[0]) == 504: return not_(nanof(A(0)))
            raise GiveUp('fpclass %s' % show(m))
        if b in ('trap', 'ubsantrap'): return False
        if b == 'umul': # with overflow
            return (mul(A(0), A(1)), FALSE)
        if b == 'vector' or b == 'x86': raise GiveUp(name)
        if b == 'objectsize': return I(-1)
        if b == 'eh': return I(1)
        if b in ('stacksave',): return NULL
        if b in ('stackrestore',): return None
        raise GiveUp('intrinsic ' + name)
    def pow(s, x, y):
        if y.op == 'num' and x is not NAN:
            k = y.args[0]
            if k == Fraction(1, 2): return sqrt(x)
            if k.denominator == 1 and abs(k) <= 8: return powi(x, int(k))
        return fn('pow', x, y)
    # library functions with assumed contracts
    def library(s, name, sig, f, args, st, i):
        if name in ('sqrt', 'sin', 'cos', 'tan', 'acos', 'asin', 'atan', 'exp', 'log', 'floor', 'ceil', 'fabs', 'cbrt'): return fn('abs' if name == 'fabs' else name, args[0])
        if name == 'atan2': return fn('atan2', args[0], args[1])
        if name == 'pow': return s.pow(args[0], args[1])
        if name == 'hypot': return sqrt(add(mul(args[0], args[0]), mul(args[1], args[1])))
        if name in ('__cxa_allocate_exception',):
            return ptr(region(s.new('heap', 'exc')), 0)
        if name in ('__cxa_throw', '__cxa_rethrow') or sig.startswith('std::__throw_'):
            s.throws.append((st.pc, 'throw')); return False
        if name == '__assert_fail' or sig.startswith('std::__glibcxx_assert_fail') or sig.startswith('std::terminate') or name == 'abort':
            s.obls.append((st.pc, FALSE, 'assertion failure')); return False
        if name in ('__clang_call_terminate',): return False
        if name in EIGENALLOC:
            rid = s.new('heap', 'heap'); st.mem[rid] = {}; st.own.add(rid)
            if args[0].op == 'num': s.regs[rid]['size'] = int(args[0].args[0])
            return ptr(region(rid), 0)
        if name in ('_ZdlPv', '_ZdlPvm', '_ZdaPv', 'free', '__cxa_free_exception', '__cxa_atexit', '__cxa_begin_catch', '__cxa_end_catch'):
            return I(0) if name == '__cxa_atexit' else None
        if name in ('memcpy', 'memmove'): s.memcpy(st, args[0], args[1], args[2]); return args[0]
        if name == '__dynamic_cast': return s.dyncast(args, st)
        if name in ('bcmp', 'memcmp'):
            a, b, n = args
            t = s.cstr(b, st)
            if n.op == 'num' and t.op == 'strc' and len(t.args[0]) == int(n.args[0]):
                x = s.load(st, a, 'str')
                return ite(s.streq(x, t), I(0), I(1))
            raise GiveUp('memory comparison')
        if name == 'memset': s.memset(st, args[0], args[1], args[2]); return args[0]
        if name in ('__libc_single_threaded',): return I(1)
        if sig.startswith('std::operator==<char') or sig.startswith('std::operator!=<char'):
            a = s.load(st, args[0], 'str')
            b = s.cstr(args[1], st) if 'char const*)' in sig else s.load(st, args[1], 'str')
            r = s.streq(a, b)
            return r if '==' in sig else not_(r)
        m = re.search(r'\bstd::(remove_if|count_if|any_of|all_of|none_of|find_if)<__gnu_cxx::__normal_iterator<(.*)', sig)
        if m: return s.algorithm(m.group(1), sig, f, args, st)
        if sig.startswith('std::vector<'): return s.vector(name, sig, f, args, st, i)
        if sig.startswith('std::__cxx11::basic_string<'): return s.string(name, sig, f, args, st, i)
        if sig.startswith('std::__shared_count<'):
            m = sig.split('>::', 1)[1] if '>::' in sig else ''
            if m.startswith('__shared_count<'):      # make_shared: execute the real body
                return NotImplemented
            if m.startswith('__shared_count(std::__shared_count') or m.startswith('__shared_count()') or m.startswith('operator=') or m.startswith('_M_swap') or m.startswith('~__shared_count'):
                if m.startswith('__shared_count()'): s.store(st, args[0], 'ptr', NULL); return None
                if m.startswith('~'): return None
                if m.startswith('_M_swap'):
                    a, b = s.load(st, args[0], 'ptr'), s.load(st, args[1], 'ptr')
                    s.store(st, args[0], 'ptr', b); s.store(st, args[1], 'ptr', a); return None
                s.store(st, args[0], 'ptr', s.load(st, args[1], 'ptr'))
                return args[0]
            raise GiveUp('shared_count ' + m[:60])
        if sig.startswith('std::_Sp_counted_base<'):
            if '::_M_' in sig: return I(1)
            return NotImplemented if f else None
        if f is None and ('ostream' in sig or 'ios_base' in sig or 'std::locale' in sig or 'basic_ios' in sig or 'std::flush' in sig or 'std::endl' in sig):
            if i is not None and i['ty'] == 'void': return None
            return args[0] if args else None
        if re.match(r'^std::(__cxx11::)?basic_(o|i)?(string|f)?stream', sig) or sig.startswith('std::ostream') or sig.startswith('std::basic_ios') or sig.startswith('std::ios_base') or sig.startswith('std::operator<<') or sig.startswith('std::basic_ostream'):
            if i is not None and i['ty'] == 'void': return None
            return args[0] if args else None
        if sig.startswith('std::runtime_error::') or sig.startswith('std::exception') or sig.startswith('std::logic_error'): return None
        if f is None and NOOP.match(sig): return args[0] if args else None
        return NotImplemented
    # ---------------------------------------------------------- std::string
    def string(s, name, sig, f, args, st, i):
        m = sig.split('::')[-1]
        me = re.search(r'>::(~?\w+|operator.*?)(<.*?>)?\(', sig)
        m = sig[sig.rindex('>::') + 3:] if '>::' in sig else sig
        m0 = m.split('(')[0].split('<')[0]
        if m0 == 'basic_string':
            if len(args) == 1: s.store(st, args[0], 'str', mk('strc', ('',), 'S')); return None
            if 'char const*' in m:
                t = s.cstr(args[1], st)
                s.store(st, args[0], 'str', t); return None
            if 'basic_string' in m: s.store(st, args[0], 'str', s.load(st, args[1], 'str')); return None
        if m0.startswith('~'): return None
        if m0 == 'operator=':
            if 'char const*' in m: s.store(st, args[0], 'str', s.cstr(args[1], st))
            else: s.store(st, args[0], 'str', s.load(st, args[1], 'str'))
            return args[0]
        if m0 == 'compare' and 'char const*' in m:
            a = s.load(st, args[0], 'str'); b = s.cstr(args[1], st)
            return ite(s.streq(a, b), I(0), I(1))
        if m0 == 'compare' and 'basic_string' in m and len(args) == 2:
            return ite(s.streq(s.load(st, args[0], 'str'), s.load(st, args[1], 'str')), I(0), I(1))
        if m0 in ('empty',): return s.streq(s.load(st, args[0], 'str'), mk('strc', ('',), 'S'))
        if m0 in ('c_str', 'data'): return args[0]
        if m0 in ('size', 'length'): return slen(s.load(st, args[0], 'str'))
        if m0 == 'clear': s.store(st, args[0], 'str', mk('strc', ('',), 'S')); return None
        if m0 in ('operator+=', 'append', 'push_back') and len(args) == 2 and not m0.startswith('append(unsigned'):
            b = mk('uf', ('chr', args[1]), 'S') if args[1].sort == 'I' else s.cstr(args[1], st) if 'char const*' in m else s.load(st, args[1], 'str')
            s.store(st, args[0], 'str', sapp(s.load(st, args[0], 'str'), b)); return args[0]
        if m0 in ('operator+=', 'append', 'push_back', '_M_append', '_M_replace', 'insert', 'replace', '_M_assign', '_M_construct'):
            s.store(st, args[0], 'str', mk('svar', ('tmp%d' % st.pc.id,), 'S')); return args[0]
        if m0 in ('_M_dispose', '_M_destroy'): return None
        if m0 == 'substr':
            a = s.load(st, args[1], 'str'); n = slen(a)
            bad = or_(lt(args[2], I(0)), lt(n, args[2]))
            s.throws.append((and_(st.pc, bad), 'substr position')); st.pc = and_(st.pc, not_(bad))
            s.store(st, args[0], 'str', ssub(a, args[2], args[3], st.pc)); return None
        if m0 == 'operator[]':
            a = s.load(st, args[0], 'str')
            if not (args[1].op == 'num' and args[1].args[0] == 0): s.oblige(st, and_(le(I(0), args[1]), le(args[1], slen(a))), 'string index in bounds')
            return ptr(mk('strchar', (a, args[1]), 'F'), 0)
        mf = re.match(r'find_(first|last)_(not_)?of\(char const\*, unsigned long\)', m)
        if mf:
            a = s.load(st, args[0], 'str'); cs = s.cstr(args[1], st); p = args[2]
            if cs.op != 'strc': raise GiveUp('character set')
            test = lambda i: (not_ if mf.group(2) else (lambda x: x))(or_(*[eq(schar(a, i), I(ord(c) if ord(c) < 128 else ord(c) - 256)) for c in cs.args[0]]))
            n = slen(a); k = fresh('k', 'I')
            if mf.group(1) == 'first':
                r = sub(n, p); f = test(add(p, k))
                return ite(and_(le(I(0), p), lt(p, n), Exists(r, k, f)), add(p, First(r, k, f)), I(-1))
            if p.op == 'num' and p.args[0] < 0: return ite(Exists(n, k, test(k)), LIdx(n, k, test(k)), I(-1))
        raise GiveUp('string operation ' + m[:60])
    def cstr(s, p, st):
        if p.op == 'ite': return ite(p.args[0], s.cstr(p.args[1], st), s.cstr(p.args[2], st))
        if p.op == 'ptr' and p.args[0].op == 'ite' and p.args[1] is I(0): return ite(p.args[0].args[0], s.cstr(ptr(p.args[0].args[1], 0), st), s.cstr(ptr(p.args[0].args[2], 0), st))
        if p.op == 'ptr' and p.args[0].op == 'reg' and p.args[0].args[0][0] == '@':
            c = s.globcells(p.args[0].args[0]).get(0)
            if c is not None and c[0] == 'str': return mk('strc', (c[1],), 'S')
            if c is None: return mk('strc', ('',), 'S')
        return mk('svar', ('cstr%d' % p.id,), 'S')
    def streq(s, a, b):
        if a.op == 'ite': return ite(a.args[0], s.streq(a.args[1], b), s.streq(a.args[2], b))
        if b.op == 'ite': return ite(b.args[0], s.streq(a, b.args[1]), s.streq(a, b.args[2]))
        if a.op == 'strc' and b.op == 'strc': return B(a.args[0] == b.args[0])
        if a.op == 'strc': a, b = b, a
        if b.op == 'strc' and not b.args[0] and a.op in ('svar', 'uf'): return eq(slen(a), I(0))
        if b.op == 'strc' and a.op == 'uf' and a.args[0] == 'substr' and len(b.args[0]) == 1: return and_(eq(a.args[3], I(1)), eq(schar(a.args[1], a.args[2]), I(ord(b.args[0]))))
        if b.op == 'strc': return mk('streq', (a, b.args[0]), 'B')
        return mk('same', (a, b) if a.id < b.id else (b, a), 'B')
    # ---------------------------------------------------------- std::vector
    _stride = None
    def stride(s, sig):
        cls = vec_class(sig)
        if s._stride is None: s._stride = {}
        if cls in s._stride: return s._stride[cls]
        el = vec_elem(cls); r = None
        for want in ('operator[](unsigned long)', 'operator[](unsigned long) const'):
            n = s.ir.bydem.get(cls + '::' + want)
            if n:
                for b in s.ir.fns[n]['blocks']:
                    for x in b:
                        if x['op'] == 'getelementptr' and x['idx']: r = abs(x['idx'][0][1])
        if r is None:
            if el.startswith('std::shared_ptr'): r = 16
            elif el.startswith('std::pair<std::shared_ptr'): r = 32
            elif el in ('double', 'long', 'unsigned long') or el.endswith('*'): r = 8
            elif el in ('int', 'unsigned int'): r = 4
            elif el.startswith('std::vector'): r = 24
            elif el.startswith('std::__cxx11::basic_string'): r = 32
            elif 'class.' + el in s.ir.structs: r = s.ir.structs['class.' + el]
            elif 'struct.' + el in s.ir.structs: r = s.ir.structs['struct.' + el]
            elif el.startswith('Eigen::Matrix<double, 3, 1'): r = 24
            elif el.startswith('Eigen::Matrix<double, 3, 3'): r = 72
            elif el.startswith('Eigen::Matrix<double, 4, 4') or el.startswith('Eigen::Transform<double, 3, 2'): r = 128
            elif el == 'bool': raise GiveUp('std::vector<bool>')
            elif el in ('char', 'unsigned char'): r = 1
            elif el == 'acme::line': r = 64
            else: raise GiveUp('element size of ' + el)
        s._stride[cls] = r
        return r
    def israw(s, p): return p.op == 'ptr' and p.args[0].op == 'reg' and p.args[0].args[0] in s.raw
    def elem_by(s, st, f, extra, k):
        """contents of the element a real append-like method f(this, extra...) creates"""
        hid = s.new('alloca', 'hdr'); tid = s.new('alloca', 'elt')
        s.raw.add(hid)
        st.mem[hid] = {}; st.mem[tid] = {}
        h = ptr(region(hid), 0); t = ptr(region(tid), 0)
        s.store(st, h, 'ptr', t); s.store(st, padd(h, 8), 'ptr', t); s.store(st, padd(h, 16), 'ptr', padd(t, k * 64))
        r = s.run(f, [h] + extra, st)
        if r[0] is None: raise GiveUp('append does not return')
        st.mem = r[0].mem; st.own = set(); st.pc = r[0].pc
        fin = s.load(st, padd(h, 8), 'ptr')
        if fin is not padd(t, k): raise GiveUp('append model')
        cells = {o: x for o, x in st.mem[tid].items()}
        z = cells.pop('zero', None)
        if z:
            for lo, hi in z[1]:
                for o in range(lo, hi, 8):
                    if o not in cells: cells[o] = ('raw', mk('zero', (), 'W'))
        return rec(cells)
    def vector(s, name, sig, f, args, st, i):
        if args and s.israw(args[0]): return NotImplemented
        cls = vec_class(sig); m = sig[len(cls) + 2:]
        m0 = m.split('(')[0]
        if m0.startswith('_S_') or m0 in ('max_size',): return NotImplemented
        b0 = m0.split('<')[0]
        h = args[0]
        k = s.stride(sig)
        if h.op == 'ite': 
            if b0 in ('operator[]', 'size', 'begin', 'end', 'cbegin', 'cend', 'empty', 'front', 'back', 'at'):
                old = st.pc
                a = s.vector(name, sig, f, [h.args[1]] + args[1:], st, i); b = s.vector(name, sig, f, [h.args[2]] + args[1:], st, i)
                st.pc = old
                return ite(h.args[0], a, b)
            a = st.copy(); b = st.copy()
            a.pc = and_(st.pc, h.args[0]); b.pc = and_(st.pc, not_(h.args[0])); a.env = {}; b.env = {}
            ra = s.vector(name, sig, f, [h.args[1]] + args[1:], a, i); rb = s.vector(name, sig, f, [h.args[2]] + args[1:], b, i)
            if ra is NotImplemented or rb is NotImplemented: raise GiveUp('vector method on conditional object')
            if ra is not None and rb is not None: a.env = {'ret': ra}; b.env = {'ret': rb}
            m_ = s.mergeall([a, b])
            st.mem = m_.mem; st.own = set(); st.pc = m_.pc
            return m_.env.get('ret')
        if h.op != 'ptr': raise GiveUp('vector object ' + show(h)[:60])
        vb = vbuf(h, k)
        Q = lambda: s.qget(st, h)
        setq = lambda q: s.store(st, h, 'q', q)
        if b0 == 'vector':
            if len(args) == 1: setq(QEMPTY); return None
            if m.startswith('vector(std::vector') or m.startswith('vector(' + cls): 
                setq(s.qget(st, args[1]))
                if '&&' in m: s.store(st, args[1], 'q', QEMPTY)
                return None
            if m.startswith('vector(unsigned long, std::allocator'):
                setq(qresize(QEMPTY, args[1], s.default_elem(st, cls, k))); return None
            if m.startswith('vector(std::initializer_list'):
                n = args[2]; 
                if n.op != 'num': raise GiveUp('initializer list')
                q = QEMPTY
                for j in range(int(n.args[0])): q = qapp1(q, s.snapshot(st, padd(args[1], j * k), k))
                setq(q); return None
            if m.startswith('vector(unsigned long, '):
                setq(qresize(QEMPTY, args[1], s.snapshot(st, args[2], k))); return None
            raise GiveUp('vector constructor ' + m[:80])
        if b0 == '~vector': return None
        if b0 == 'operator=':
            setq(s.qget(st, args[1]))
            if '&&' in m: s.store(st, args[1], 'q', QEMPTY)
            return h
        if b0 == 'operator[]': return ptr(vb, scale(args[1], k))
        if b0 == 'at':
            q = Q()
            c = s.decide(st, and_(le(I(0), args[1]), lt(args[1], qlen(q))))
            if c is not TRUE:
                s.throws.append((and_(st.pc, not_(c)), 'out_of_range')); st.pc = and_(st.pc, c)
                if st.pc is FALSE: return False
            return ptr(vb, scale(args[1], k))
        if b0 == 'size': return qlen(Q())
        if b0 == 'empty': return eq(qlen(Q()), I(0))
        if b0 in ('begin', 'cbegin', 'data', 'front'): return ptr(vb, 0)
        if b0 in ('end', 'cend'): return ptr(vb, scale(qlen(Q()), k))
        if b0 == 'back': return ptr(vb, scale(sub(qlen(Q()), I(1)), k))
        if b0 in ('reserve', 'shrink_to_fit'): return None
        if b0 == 'capacity':
            c = fresh('capacity', 'I'); st.pc = and_(st.pc, le(qlen(Q()), c)); return c
        if b0 == 'clear': setq(QEMPTY); return None
        if b0 == 'pop_back': q = Q(); setq(s.qtake(q, sub(qlen(q), I(1)))); return None
        if b0 == 'swap':
            a, b = Q(), s.qget(st, args[1]); setq(b); s.store(st, args[1], 'q', a); return None
        if b0 in ('push_back', 'emplace_back'):
            if not (f and f['sig'] == sig): raise GiveUp('append body')
            q = Q()
            setq(qapp1(q, s.elem_by(st, f, args[1:], k)))
            return ptr(vb, scale(qlen(q), k))
        if b0 == 'resize':
            q = Q(); n = args[1]
            d = s.default_elem(st, cls, k) if len(args) == 2 else s.snapshot(st, args[2], k)
            setq(s.resize(st, q, n, d)); return None
        if b0 == 'assign' and m.startswith('assign(unsigned long'):
            setq(qresize(QEMPTY, args[1], s.snapshot(st, args[2], k))); return None
        if b0 == 'erase':
            lo = idiv(sub(args[1].args[1], I(0)), k) if args[1].op == 'ptr' and args[1].args[0] is vb else None
            if lo is None: raise GiveUp('erase')
            q = Q()
            if len(args) == 2: setq(qcat(qtake(q, lo), qdrop(q, add(lo, I(1)))))
            else:
                hi = idiv(args[2].args[1], k)
                setq(qcat(s.qtake(q, lo), s.qdrop(q, hi)))
            return args[1]
        if b0 == 'insert' and len(args) == 4:   # range insert (this, pos, first, last)
            pos, a, b = args[1:]
            if pos.op == 'ptr' and a.op == 'ptr' and b.op == 'ptr' and a.args[0] is b.args[0] and a.args[0].op == 'vbuf' and pos.args[0] is vb:
                q = Q(); q2 = s.qget(st, a.args[0].args[0])
                lo, hi = idiv(a.args[1], k), idiv(b.args[1], k); at = idiv(pos.args[1], k)
                part = s.qdrop(qtake(q2, hi), lo)
                if at is qlen(q): setq(qcat(q, part))
                else: setq(qcat(qcat(qtake(q, at), part), s.qdrop(q, at)))
                return ptr(vb, scale(at, k))
        raise GiveUp('vector method ' + m[:80])
    def algorithm(s, what, sig, f, args, st):
        """standard algorithm over a range of a vector with a side-effect free predicate"""
        lam = targs(sig[sig.index('std::%s<' % what):])[1]
        a, b = args[0], args[1]
        if not (a.op == b.op == 'ptr' and a.args[0] is b.args[0] and a.args[0].op == 'vbuf'): return NotImplemented
        vb = a.args[0]; k = vb.args[1]; lo, hi = idiv(a.args[1], k), idiv(b.args[1], k); n = sub(hi, lo); vp = vb.args[0]; q = s.qget(st, vp)
        ops = [x for x in s.ir.fns.values() if x['sig'].startswith(lam + '::operator()(')]
        if len(ops) != 1: raise GiveUp('predicate of ' + what)
        cid = s.new('alloca', 'closure'); st.mem[cid] = {}; st.own.add(cid)
        if len(args) > 2 and args[2] is not None and args[2].op != 'undef': s.store(st, ptr(region(cid), 0), f['args'][2]['ty'], args[2])
        i = fresh('i', 'I'); s2 = st.copy(); s2.pc = and_(st.pc, le(I(0), i), lt(i, n)); nt = len(s.throws)
        r, c = s.run(ops[0], [ptr(region(cid), 0), ptr(vb, scale(add(lo, i), k))], s2)
        if r is None or len(s.throws) > nt: raise GiveUp('predicate of %s raises' % what)
        if s.qget(r, vp) is not q: raise GiveUp('predicate of %s changes the range' % what)
        if c.sort != 'B': c = not_(eq(c, I(0)))
        if what == 'count_if': return Sum(n, i, ite(c, I(1), I(0)))
        if what == 'find_if': return ptr(vb, scale(add(lo, First(n, i, c)), k))
        if what == 'any_of': return Exists(n, i, c)
        if what == 'all_of': return not_(Exists(n, i, not_(c)))
        if what == 'none_of': return not_(Exists(n, i, c))
        if lo is not I(0) or hi is not qlen(q): raise GiveUp('remove_if on part of a vector')
        s2 = st.copy(); s2.pc = and_(st.pc, le(I(0), i), lt(i, n)); keep = qfilter(n, i, not_(c), s.snapshot(s2, ptr(vb, scale(i, k)), k)); m = qlen(keep)
        rest = mk('qvar', ('moved#%d' % s.nreg,), 'Q'); QLENOF[rest] = sub(n, m)
        s.store(st, vp, 'q', qcat(keep, rest))
        return ptr(vb, scale(m, k))
    def qdrop(s, q, n):
        if n is qlen(q): return QEMPTY
        return qdrop(q, n)
    def qtake(s, q, n):
        if q.op in ('qapp1', 'qcat') and n is qlen(q.args[0]): return q.args[0]
        return qtake(q, n)
    def resize(s, st, q, n, d):
        c = s.decide(st, le(qlen(q), n))
        if c is FALSE: return qtake(q, n)
        return qresize(q, n, d)
    def default_elem(s, st, cls, k):
        el = vec_elem(cls)
        if el in ('double',): return rec({0: ('double', ZERO)})
        if el in ('int', 'unsigned int'): return rec({0: ('i32', I(0))})
        if el in ('long', 'unsigned long'): return rec({0: ('i64', I(0))})
        if el.startswith('std::shared_ptr'): return rec({0: ('ptr', NULL), 8: ('ptr', NULL)})
        if el.startswith('std::vector'): return rec({0: ('q', QEMPTY)})
        if el.startswith('Eigen::'): return mk('undefrec', ('%s' % el[:20],), 'C')
        if el.startswith('std::__cxx11::basic_string'): return rec({0: ('str', mk('strc', ('',), 'S'))})
        n = s.ir.bydem.get(el + '::' + el.split('::')[-1] + '()') 
        if n:
            tid = s.new('alloca', 'elt'); st.mem[tid] = {}
            r = s.invoke(n, [ptr(region(tid), 0)], st)
            return s.snapshot(st, ptr(region(tid), 0), k)
        if el == 'enve::output':
            # implicit constructor: point() followed by in-class initialisers; run point's and leave the rest undefined
            pass
        # execute the library's own default construction
        for nm, ff in s.ir.fns.items():
            if ff['sig'].startswith(cls + '::_M_default_append'):
                return s.elem_by(st, ff, [I(1)], k)
        raise GiveUp('default element of ' + el)
    def snapshot(s, st, p, k):
        """record of the k bytes at p"""
        if p.op != 'ptr': raise GiveUp('snapshot')
        b, o = p.args
        tid = s.new('alloca', 'snap'); st.mem[tid] = {}
        s.memcpy(st, ptr(region(tid), 0), p, I(k))
        return rec({x: y for x, y in st.mem[tid].items() if isinstance(x, int)})
    # ---------------------------------------------------------- loops
    MAXUNROLL = 64
    def loop(s, p, L, st, rets):
        r = s.unroll(p, L, st.copy(), rets)
        if r is not None: return r
        nr = len(rets); no, nt = len(s.obls), len(s.throws)
        try:
            try: return Summary(s, p, L, st.copy(), True).exits(rets)
            except SmallLoop:
                del rets[nr:]; del s.obls[no:]; del s.throws[nt:]
                r = s.unroll(p, L, st.copy(), rets, True)
                if r is not None: return r
                return Summary(s, p, L, st.copy()).exits(rets)
        except Unsupported as e:
            s.loopinfo.append('%s: %s' % (p.f['sig'][:60], e))
            del rets[nr:]; del s.obls[no:]; del s.throws[nt:]
            if s.bounded is None: raise
            s.bounded_used.add(p.f['sig'])
            return s.unroll_bounded(p, L, st.copy(), rets)
    def body(s, p, L, st, rets):
        """one iteration from the header; returns (back state or None, exits)"""
        back = []; exits = []
        s.region(p, [(L['header'], st)], L, rets, back, exits)
        b = s.mergeall(back)
        return b, [(f, t, x) for f, t, x in exits if x.pc is not FALSE]
    def unroll(s, p, L, st, rets, early=False):
        """full unrolling when the header decides concretely; None otherwise"""
        out = []; no, nt, nr = len(s.obls), len(s.throws), len(rets)
        def fail():
            del s.obls[no:]; del s.throws[nt:]; del rets[nr:]
            return None
        cur = st
        for it in range(12 if early else s.MAXUNROLL):
            base = cur.pc
            probe = cur.copy()
            pre = (len(s.obls), len(s.throws), len(rets))
            try: b, ex = s.body(p, L, probe, rets)
            except Unsupported:
                fail(); return None
            hx = [x for f, t, x in ex if f == L['header']]
            if b is None:
                return out + ex
            if not early and hx and len(p.succ[L['header']]) > 1:
                return fail()
            if not early and not hx and len(p.succ[L['header']]) < 2 and ex:
                return fail()
            if ex and not s.header_concrete(p, L, cur): return fail()
            out += ex
            cur = b
        return fail()
    def header_concrete(s, p, L, st):
        return True
    def unroll_bounded(s, p, L, st, rets):
        out = []; cur = st
        for it in range(s.bounded + 1):
            b, ex = s.body(p, L, cur, rets)
            out += ex
            if b is None: return out
            cur = b
        return out    # longer runs are cut off: bounded

def P_size(t): return size(t)
def _symoff(off):
    c, d = (off.args[0], dict(off.args[1])) if off.op == 'lin' else (0, {off: 1})
    import math
    g = 0
    for k in d.values(): g = math.gcd(g, abs(int(k)))
    return int(c), g, d
def _int_lin(c, d, k):
    """c + sum(d)/k"""
    out = I(c)
    for x, v in d.items():
        v = int(v)
        if v % k == 0: out = add(out, scale(x, v // k))
        elif x.op == 'ite':
            out = add(out, ite(x.args[0], _div(scale(x.args[1], v), k), _div(scale(x.args[2], v), k)))
        elif x.op == 'idiv' : raise GiveUp('buffer offset')
        else: raise GiveUp('buffer offset %s' % show(x)[:60])
    return out
def _div(t, k):
    c, d = (t.args[0], {}) if t.op == 'num' else ((t.args[0], dict(t.args[1])) if t.op == 'lin' else (0, {t: 1}))
    if int(c) % k: raise GiveUp('buffer offset')
    return _int_lin(int(c) // k, d, k)
def vec_class(sig):
    """'std::vector<...>' prefix of a signature"""
    d = 0
    for i, c in enumerate(sig):
        if c == '<': d += 1
        elif c == '>':
            d -= 1
            if d == 0: return sig[:i + 1]
    return sig
def targs(t):
    """template arguments of the template-id at the start of the text"""
    i = t.index('<') + 1; out = []; d = 0; a = i
    while True:
        c = t[i]
        if t.startswith('operator', i): i += 8; d += 0; i += {'(': 2, '<': 1, '>': 1}.get(t[i], 0); continue
        if c in '<({[': d += 1
        elif c in ')}]' or c == '>' and t[i - 1] != '-':
            if d == 0: out.append(t[a:i].strip()); return out
            d -= 1
        elif c == ',' and d == 0: out.append(t[a:i].strip()); a = i + 1
        i += 1
def vec_elem(cls):
    inner = cls[len('std::vector<'):-1]; d = 0
    for i, c in enumerate(inner):
        if c in '<(': d += 1
        elif c in '>)': d -= 1
        elif c == ',' and d == 0: return inner[:i].strip()
    return inner.strip()
from summary import Summary, SmallLoop
