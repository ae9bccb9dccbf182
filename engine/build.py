"""Builds, from the current working tree of the repository, (1) the LLVM IR dump the verifier reads,
(2) the class layouts, (3) the static library the replay harnesses link.  Everything is cached by
content hash under /verif/build (not committed)."""
import os, sys, hashlib, subprocess, glob, json, re, fcntl, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get('VP_REPO', '/repo')
OUT = os.environ.get('VP_BUILD', os.path.join(ROOT, 'build'))
ENVE = ('shape', 'rib', 'shell', 'flat', 'mesh', 'triangleground')
INC = ['-I%s/src' % REPO, '-I%s/toolbox/src' % REPO, '-I%s/sfun/include_sfun' % REPO, '-I/usr/include/eigen3']
IRFLAGS = '-std=gnu++11 -O1 -Xclang -disable-llvm-passes -D_USE_MATH_DEFINES -DEIGEN_DONT_VECTORIZE -fno-math-errno -ffp-contract=off -fno-threadsafe-statics -w'.split()
REALFLAGS = '-std=gnu++11 -O1 -g1 -D_USE_MATH_DEFINES -D_GLIBCXX_ASSERTIONS -fsanitize=address -w'.split()
def sources():
    l = sorted(glob.glob(REPO + '/src/*.cc')) + sorted(glob.glob(REPO + '/sfun/src_sfun/*.cc'))
    l += [f for f in sorted(glob.glob(REPO + '/toolbox/src/*.cc')) if os.path.basename(f)[:-3] not in ENVE]
    return l
def sha(*parts):
    h = hashlib.sha256()
    for p in parts: h.update(p if isinstance(p, bytes) else p.encode()); h.update(b'\0')
    return h.hexdigest()[:24]
def read(f): return open(f, 'rb').read()
def headers_hash():
    l = []
    for pat in ('/src/*.hh', '/src/*/*.hxx', '/toolbox/src/acme.hh', '/toolbox/src/acme/*', '/sfun/include_sfun/*'):
        l += sorted(glob.glob(REPO + pat))
    return sha(*[x for f in l if os.path.isfile(f) for x in (f, read(f))])
class Lock:
    def __enter__(s):
        os.makedirs(OUT, exist_ok=True)
        s.f = open(OUT + '/lock', 'w'); fcntl.flock(s.f, fcntl.LOCK_EX)
    def __exit__(s, *a): s.f.close()
def sh(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode: raise BuildError(' '.join(cmd)[:300] + '\n' + r.stdout.decode(errors='replace')[-3000:])
class BuildError(Exception): pass
def irdump():
    src = HERE + '/irdump.cpp'
    exe = OUT + '/irdump-' + sha(read(src))
    if not os.path.exists(exe):
        sh(['g++', '-O1', '-w', '-std=c++17', src, '-o', exe + '.tmp', '-I/usr/lib/llvm-18/include', '-D_GNU_SOURCE', '-D__STDC_CONSTANT_MACROS',
            '-D__STDC_FORMAT_MACROS', '-D__STDC_LIMIT_MACROS', '-L/usr/lib/llvm-18/lib', '-lLLVM-18'])
        os.rename(exe + '.tmp', exe)
    return exe
def prune(d, keep):
    fs = sorted((os.path.join(d, f) for f in os.listdir(d)), key=os.path.getmtime)
    for f in fs[:-keep] if len(fs) > keep else []:
        try: os.remove(f)
        except OSError: pass
def ir():
    """path of the JSON dump of the linked IR of the current tree"""
    with Lock():
        hh = headers_hash(); d = OUT + '/bc'; os.makedirs(d, exist_ok=True); os.makedirs(OUT + '/ir', exist_ok=True)
        jobs = []
        for f in sources() + [HERE + '/inst.cc']:
            o = '%s/%s-%s.bc' % (d, os.path.basename(f), sha(hh, f, read(f), ' '.join(IRFLAGS)))
            jobs.append((f, o))
        def one(j):
            if not os.path.exists(j[1]):
                sh(['clang++-18'] + IRFLAGS + INC + ['-c', '-emit-llvm', j[0], '-o', j[1] + '.tmp']); os.rename(j[1] + '.tmp', j[1])
            else: os.utime(j[1])
        with ThreadPoolExecutor(8) as ex:
            fd = ex.submit(irdump)
            list(ex.map(one, jobs)); dump = fd.result()
        key = sha(dump, *[o for _, o in jobs])
        p = '%s/ir/%s.json' % (OUT, key)
        if not os.path.exists(p):
            sh([dump, p + '.tmp'] + [o for _, o in jobs]); os.rename(p + '.tmp', p)
        else: os.utime(p)
        prune(OUT + '/ir', 4); prune(d, 120)
        return p
LAYSRC = r'''
#include "enve.hh"
#include "enve_sfun_interface.h"
int x[] = {sizeof(enve::shell), sizeof(enve::rib), sizeof(enve::output), sizeof(enve::ground::flat), sizeof(enve::ground::mesh), sizeof(enve::triangleground), sizeof(enve::shape), sizeof(acme::AABBtree), sizeof(acme::aabb), sizeof(acme::ball), sizeof(acme::line), sizeof(acme::ray), sizeof(acme::segment), sizeof(acme::plane), sizeof(acme::disk), sizeof(acme::triangle), sizeof(acme::point), sizeof(acme::collection), sizeof(EnveInputBus), sizeof(EnveOutputBus)};
'''
def layout():
    with Lock():
        p = '%s/layout-%s.json' % (OUT, sha(headers_hash(), LAYSRC))
        if not os.path.exists(p):
            src = OUT + '/layout.cc'; open(src, 'w').write(LAYSRC)
            r = subprocess.run(['clang++-18', '-std=gnu++11', '-w', '-fsyntax-only', '-Xclang', '-fdump-record-layouts', '-D_USE_MATH_DEFINES'] + INC + [src],
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            if r.returncode: raise BuildError(r.stderr.decode()[-2000:])
            json.dump(parse_layout(r.stdout.decode()), open(p, 'w'))
        return json.load(open(p))
def parse_layout(text):
    recs = {}; cur = None
    for l in text.split('\n'):
        m = re.match(r'\s*(\d+) \| ( *)(.*)$', l)
        if not m:
            m2 = re.search(r'\[sizeof=(\d+)', l)
            if m2 and cur: recs[cur]['size'] = int(m2.group(1))
            continue
        off, ind, txt = int(m.group(1)), len(m.group(2)), m.group(3).rstrip()
        if ind == 0:
            cur = None
            if off: continue
            name = re.sub(r'^(class|struct|union) ', '', re.sub(r' \(empty\)$', '', txt))
            if name in recs or not name.startswith(('enve::', 'acme::', 'Enve')): continue
            cur = name; recs[cur] = {'m': {}, 'b': {}}
        elif cur and ind == 2:
            if 'base)' in txt:
                b = re.sub(r'^(class|struct) ', '', re.sub(r' \((primary )?base\).*', '', txt)); recs[cur]['b'][b] = off
            elif not txt.startswith('('):
                ty, nm = txt.rsplit(' ', 1); recs[cur]['m'][nm] = [off, re.sub(r'^(class|struct) ', '', ty)]
    return recs
def reallib():
    """static library of the real sources, with address sanitizer and libstdc++ assertions"""
    with Lock():
        hh = headers_hash(); d = OUT + '/obj'; os.makedirs(d, exist_ok=True)
        jobs = [(f, '%s/%s-%s.o' % (d, os.path.basename(f), sha(hh, f, read(f), ' '.join(REALFLAGS)))) for f in sources()]
        def one(j):
            if not os.path.exists(j[1]):
                sh(['g++'] + REALFLAGS + INC + ['-c', j[0], '-o', j[1] + '.tmp']); os.rename(j[1] + '.tmp', j[1])
            else: os.utime(j[1])
        with ThreadPoolExecutor(8) as ex: list(ex.map(one, jobs))
        os.makedirs(OUT + '/lib', exist_ok=True)
        p = '%s/lib/lib%s.a' % (OUT, sha(*[o for _, o in jobs]))
        if not os.path.exists(p):
            sh(['ar', 'rcs', p + '.tmp'] + [o for _, o in jobs]); os.rename(p + '.tmp', p)
        else: os.utime(p)
        prune(OUT + '/lib', 4); prune(d, 120)
        return p
def harness(pid):
    """compiled replay harness of a property"""
    lib = reallib()
    src = '%s/harness/%s.cc' % (ROOT, pid.lower()); com = ROOT + '/harness/common.hh'
    with Lock():
        os.makedirs(OUT + '/har', exist_ok=True)
        exe = '%s/har/%s-%s' % (OUT, pid, sha(read(src), *[read(h) for h in sorted(glob.glob(ROOT + '/harness/*.hh'))], lib, headers_hash()))
        if not os.path.exists(exe):
            sh(['g++', '-fno-access-control'] + REALFLAGS + ['-std=gnu++14'] + INC + ['-I' + ROOT + '/harness', src, lib, '-o', exe + '.tmp']); os.rename(exe + '.tmp', exe)
        prune(OUT + '/har', 40)
        return exe
if __name__ == '__main__':
    t = time.time()
    print(ir(), time.time() - t); print(len(layout()), time.time() - t)
    if len(sys.argv) > 1: print(reallib(), time.time() - t)
    if 'setup' in sys.argv[1:]:
        ps = [os.path.basename(f)[:-3].upper() for f in sorted(glob.glob(ROOT + '/harness/p*.cc'))]
        for p in ps: print(harness(p))
