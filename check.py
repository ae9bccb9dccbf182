#!/usr/bin/env python3-vt
"""check.py <property> [--tier quick|thorough]
Decides one property: builds the IR of the current tree, generates and discharges every proof
obligation of the property's contracts; on failure replays against the real code."""
import sys, os, json, time, pickle, signal, resource, select, subprocess, importlib, traceback, argparse, gc
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT + '/engine'); sys.path.insert(0, ROOT + '/specs')
sys.setrecursionlimit(200000)
import build, spec as SP, prove as P
from exec import IR, GiveUp
from terms import Unsupported
ASSUME = ['IEEE-754 doubles are treated as mathematical reals (plus a NaN constant where the contract mentions NaN); rounding is not modelled',
          'int, size_t and pointer arithmetic are treated as mathematical integers',
          'the front end clang 18 (flags %s) and the IR reader / symbolic executor / prover under /verif/engine are trusted' % ' '.join(build.IRFLAGS),
          'objects passed through distinct parameters do not alias; heap allocation never fails; x/0 is an unconstrained real',
          'trusted models of libstdc++ (std::vector, std::shared_ptr, std::string, exceptions, streams) and libm (pow, sqrt, sin, cos, asin, acos, atan, atan2 as functions with their stated axioms)']

class Stream(list):
    """obligations, reported to the parent one by one so that a killed worker loses none"""
    def __init__(s, f): s.f = f
    def append(s, o): list.append(s, o); pickle.dump(o, s.f); s.f.flush()
    def extend(s, l):
        for o in l: s.append(o)
    def __iadd__(s, l): s.extend(l); return s
    def cut(s): pickle.dump(len(s), s.f)      # retracted ones (another form of the same statement is tried)
    def __delitem__(s, k): list.__delitem__(s, k); s.cut()
    def pop(s, *a): o = list.pop(s, *a); s.cut(); return o
def worker(pid, i, ir, lay, q, f):
    name, fn, limit = SP.SPECS[pid][i]
    t = time.time(); out = dict(spec=name, error=None, why=None)
    v = None
    try:
        havoc = set(ir.mutable)
        for _ in range(3):
            v = SP.V(ir, lay, name, t + limit, havoc)
            v.quick = q; err = None; v.obl = Stream(f); pickle.dump('start', f)
            try: fn(v)
            except (GiveUp, Unsupported) as e: err = e
            if v.ex.gwrites <= havoc: break
            havoc |= v.ex.gwrites       # state that outlives the call: verify again, its contents arbitrary at the start
            v.notes.append('verified with arbitrary initial contents of ' + ', '.join(sorted(havoc)))
        if err is not None: raise err
    except (GiveUp, Unsupported) as e: out['error'] = 'unsupported'; out['why'] = '%s: %s' % (type(e).__name__, e)
    except P.Timeout as e: out['error'] = 'timeout'; out['why'] = 'time budget'
    except RecursionError as e: out['error'] = 'unsupported'; out['why'] = 'recursion depth'
    except MemoryError as e: out['error'] = 'timeout'; out['why'] = 'memory'
    except Exception as e: out['error'] = 'unsupported'; out['why'] = traceback.format_exc()[-1500:]
    if v is not None:
        out.update(obl=list(v.obl), calls=sorted(v.ex.calls)[:400], contracts=sorted(v.ex.used_contracts), notes=v.notes, bounded=sorted(v.ex.bounded_used) if hasattr(v.ex, 'bounded_used') else [])
    out['wall'] = time.time() - t
    out['stats'] = dict(P.STATS)
    return out

def frames(buf):
    """the final result of a worker (if it got there) and the obligations it reported"""
    import io
    f = io.BytesIO(buf); part = []
    while True:
        try: o = pickle.load(f)
        except Exception: return None, part
        if o == 'start': part = []
        elif isinstance(o, dict): return o, part
        elif isinstance(o, int): del part[o:]
        else: part.append(o)

def run_specs(pid, ir, lay, tier, only=None):
    todo = [i for i in range(len(SP.SPECS[pid])) if only is None or only in SP.SPECS[pid][i][0]]
    todo.sort(key=lambda i: -SP.SPECS[pid][i][2])
    run = {}; res = {}; end = time.time() + 540       # no check may use up its time on proofs alone
    ncpu = int(os.environ.get('VP_JOBS', '8'))
    gc.collect(); gc.freeze()
    while todo or run:
        if todo and time.time() > end - 20:
            for i in todo: res[i] = dict(spec=SP.SPECS[pid][i][0], error='timeout', why='time of the whole check', obl=[])
            todo = []
        while todo and len(run) < ncpu:
            i = todo.pop(0); r, w = os.pipe(); p = os.fork()
            if p == 0:
                os.close(r); signal.signal(signal.SIGINT, signal.SIG_DFL)
                resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
                with os.fdopen(w, 'wb') as f:
                    try: o = worker(pid, i, ir, lay, tier == 'quick', f)
                    except BaseException: o = dict(spec=SP.SPECS[pid][i][0], error='unsupported', why=traceback.format_exc()[-1500:], obl=[])
                    pickle.dump(o, f)
                os._exit(0)
            os.close(w); run[r] = [p, i, min(time.time() + SP.SPECS[pid][i][2] + 30, end), b'']
        rl, _, _ = select.select(list(run), [], [], 0.5)
        for r in rl:
            b = os.read(r, 1 << 20)
            if b: run[r][3] += b; continue
            p, i, dl, buf = run.pop(r); os.close(r); os.waitpid(p, 0)
            o, part = frames(buf)
            res[i] = o or dict(spec=SP.SPECS[pid][i][0], error='timeout', why='worker died', obl=part)
        for r in list(run):
            p, i, dl, buf = run[r]
            if time.time() > dl:
                os.kill(p, signal.SIGKILL); os.waitpid(p, 0); os.close(r); del run[r]
                res[i] = dict(spec=SP.SPECS[pid][i][0], error='timeout', why='hard time limit', obl=frames(buf)[1])
    return [res[i] for i in sorted(res)]

def run_harness(pid, seed, secs, jobs):
    """bounded search for a failing input on the real code"""
    exe = build.harness(pid)
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99')
    import tempfile, shutil
    work = tempfile.mkdtemp(prefix='vp_%s_' % pid)
    try:
        ps = [(k, subprocess.Popen([exe, str(seed * 1000 + k), str(secs)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, cwd=work)) for k in range(jobs)]
        fails = []; ran = 0; unclear = []
        for k, p in ps:
            try: o, _ = p.communicate(timeout=secs * 3 + 60)
            except subprocess.TimeoutExpired:
                p.kill(); o, _ = p.communicate(); unclear.append('seed %d did not finish' % (seed * 1000 + k)); continue
            o = o.decode(errors='replace')
            for l in o.split('\n'):
                if l.startswith('CASES '): ran += int(l.split()[1])
            if p.returncode == 0: continue
            fails.append((seed * 1000 + k, p.returncode, o[-6000:]))
        return fails, ran, unclear
    finally: shutil.rmtree(work, ignore_errors=True)

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick')); ap.add_argument('--only'); ap.add_argument('-v', action='store_true')
    ap.add_argument('--noharness', action='store_true')
    a = ap.parse_args(); pid = a.pid; t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    mod = importlib.import_module(pid.lower())
    os.makedirs(ROOT + '/evidence', exist_ok=True); os.makedirs(ROOT + '/replays', exist_ok=True)
    buildfail = None; res = []
    try:
        irp = build.ir(); lay = build.layout(); SP.KNOWNLAY.update(json.load(open(ROOT + '/engine/knownlayout.json')))
        ir = IR(irp)
        res = run_specs(pid, ir, lay, a.tier, a.only)
    except build.BuildError as e: buildfail = str(e)
    obl = [(r['spec'],) + tuple(o) for r in res for o in r.get('obl', [])]
    proved = [o for o in obl if o[2] == 'proved']
    failed = [o for o in obl if o[2] in ('refuted', 'undecided') and o[3] != 'timeout']
    own = [o for o in failed if not o[0].startswith(SP.DEP)]
    tout = [o for o in obl if o[2] != 'proved' and o[3] == 'timeout']
    gaps = [(r['spec'], r['error'], r['why']) for r in res if r['error']]
    empty = [r['spec'] for r in res if not r.get('obl') and not r['error']]
    for e in empty: gaps.append((e, 'vacuous', 'no obligation generated'))
    if buildfail: gaps.append(('build', 'build', buildfail))
    if a.v:
        for o in obl: print('  %-9s %-22s %6.2fs %s | %s' % (o[2], o[3][:22], o[4], o[0], o[1]) + ('' if o[2] == 'proved' else '\n      ' + str(o[5])[:1800]))
        for r in res: print('  spec %-40s %5.1fs %s' % (r['spec'], r.get('wall', 0), r['error'] or ''), r['why'] or '')
    viol = []; hran = None; hfails = []; unclear = []
    need = bool(failed or tout or gaps)
    if (need or a.tier == 'thorough') and not a.noharness:
        try:
            secs = 40 if a.tier == 'quick' else 120
            hfails, hran, unclear = run_harness(pid, seed, secs, int(os.environ.get('VP_JOBS', '8')))
        except build.BuildError as e: unclear.append('harness does not build: ' + str(e)[-800:])
        except FileNotFoundError as e: unclear.append('no harness: %s' % e)
    rp = '%s/replays/%s.txt' % (ROOT, pid)
    def detail():
        s = ''
        for o in failed[:12]: s += 'FAILED OBLIGATION [%s] %s\n  verifier: %s by %s\n  %s\n' % (o[0], o[1], o[2], o[3], o[5])
        for g in gaps[:12]: s += 'NOT VERIFIED [%s] %s: %s\n' % g
        for o in tout[:12]: s += 'TIME-OUT [%s] %s\n' % (o[0], o[1])
        return s
    if hfails:
        with open(rp, 'w') as f:
            f.write('property %s: failing input on the real code\nreplay: python3-vt %s/replay.py %s %d\n' % (pid, ROOT, pid, hfails[0][0]))
            for sd, rc, o in hfails[:3]: f.write('--- harness seed %d, exit %d\n%s\n' % (sd, rc, o))
            f.write('\n' + detail())
        viol.append('VIOLATION property=%s replay=%s' % (pid, rp))
    elif own:
        with open(rp, 'w') as f:
            f.write('property %s: obligation(s) not accepted by the verifier; no failing input found (%s harness cases)\n\n%s' % (pid, hran, detail()))
        viol.append('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, rp))
    spec_assume = list(getattr(mod, 'ASSUME', []))
    notes = sorted({n for r in res for n in r.get('notes', [])})
    back = {}
    for o in proved:
        for h in str(o[3]).split('+'): back[h] = back.get(h, 0) + 1
    level = 'proof' if not (gaps or tout or failed) else 'other'
    calls = sorted({c for r in res for c in r.get('calls', []) if c.startswith(('enve', 'acme'))})
    known = []
    kf = ROOT + '/KNOWN_FINDINGS'
    if os.path.exists(kf):
        for l in open(kf):
            if l.startswith('finding: property=%s ' % pid): known.append(l.split(' ', 2)[2].strip())
    for k in known: print('KNOWN-FINDING: property=%s %s' % (pid, k))
    cov = dict(obligations=len(obl), discharged=len(proved), checker_cmd='python3-vt /verif/check.py %s --tier %s' % (pid, a.tier),
               trusted_base=['clang-18 front end', '/verif/engine (IR reader, symbolic executor, loop summariser, term normaliser)', 'z3', 'libstdc++/libm contracts'],
               functions_under_contract=calls, assumed_contracts=sorted({c for r in res for c in r.get('contracts', [])}),
               backends=back, solver_seconds=round(sum(o[4] for o in obl), 2), specs=[dict(spec=r['spec'], obligations=len(r.get('obl', [])), wall_s=round(r.get('wall', 0), 2), error=r['error'], why=r['why']) for r in res],
               undischarged=[dict(spec=o[0], obligation=o[1], status=o[2], by=o[3]) for o in failed + tout], not_verified=[dict(spec=g[0], kind=g[1], why=str(g[2])[:500]) for g in gaps],
               bounded_stand_in=None if hran is None else dict(kind='random replay on the real code', cases=hran, unclear=unclear, label='bounded, never counted as proved'), loops=notes, known_findings=known)
    lv = level
    if lv == 'other': cov['explanation'] = 'some obligations were not discharged on this tree (see undischarged / not_verified); those parts were only searched by the bounded replay harness'
    ev = dict(property=pid, tier=a.tier, seed=seed, level=lv, coverage=cov, wall_s=round(time.time() - t0, 2), assumptions=ASSUME + spec_assume, violations=[dict(replay=rp, line=x) for x in viol])
    if not a.only: json.dump(ev, open('%s/evidence/%s.json' % (ROOT, pid), 'w'), indent=1)
    print('%s: %d obligations, %d discharged, %d failed, %d timed out, %d specs not verified, harness cases %s, %.1f s' % (pid, len(obl), len(proved), len(failed), len(tout), len(gaps), hran, time.time() - t0))
    for g in gaps: print('  not verified (bounded stand-in only): [%s] %s: %s' % (g[0], g[1], str(g[2]).strip().split('\n')[-1][:300]))
    for o in tout: print('  timed out: [%s] %s' % (o[0], o[1]))
    for o in failed: print('  failed obligation: [%s] %s (%s by %s)' % (o[0], o[1], o[2], o[3]))
    for u in unclear: print('  ' + u)
    for l in viol: print(l)
    sys.exit(1 if viol else 0)
if __name__ == '__main__': main()
