"""Process-level exploration: every command line of a bounded grammar, run on the
compiled programs, against the reference."""
import os, re, time, itertools, subprocess, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
from common import *

def run_cases(c, label, cases, run):
    """cases: list of (description, data); run(data, cwd) raises AssertionError."""
    rp = c.replay
    if rp is not None:
        if rp.get('label') != label:
            return
        cases = [x for x in cases if x[0] == rp['case']]
    failed = []
    def one(x, again=False):
        if failed and not again:
            return None
        d = tempfile.mkdtemp(dir=c.work)
        try:
            run(x[1], d)
            return None
        except AssertionError as e:
            failed.append(x)
            return x, str(e)
        finally:
            shutil.rmtree(d, True)
    t0 = time.time()
    with ThreadPoolExecutor(NCPU) as ex:
        res = [r for r in ex.map(one, cases) if r]
    if os.environ.get('MC_TIME'): print('TIME %6.1f %s' % (time.time() - t0, label), flush=True)
    for desc, data in cases[:1] + cases[-1:]:
        c.sample('%s: %s' % (label, desc))
    c.stat('states', len(cases)); c.stat('transitions', len(cases)); c.stat('traces', len(cases))
    if res:
        (x, what) = res[0]
        for _ in range(5): # threads of the system run as they please
            again = one(x, True)
            if again: break
        if again is None:
            raise CheckError('violation did not replay: %s %s %s' % (label, x[0], what))
        raise Violation('%s: [%s] %s' % (label, x[0], what), {'property': c.pid, 'label': label, 'case': x[0], 'what': what, 'tier': c.tier})

# ---------------------------------------------------------------- C17
import sys
sys.path.insert(0, os.path.join(MC, 'py'))
import vtk

def stale(cwd):
    for f in ('up.vtk', 'up0.vtk', 'up1.vtk'): vtk.stale(os.path.join(cwd, f))
def files(cwd): return sorted(f for f in os.listdir(cwd) if vtk.written(os.path.join(cwd, f)))

_cache = {}
def upwind_field(n, steps, courant=0.1):
    """The field after some steps on an n x n x n grid (velocity 1, lengths 1)."""
    k = (n, steps)
    if k not in _cache:
        if steps > 600:
            o = upwind_field(n, 600); f = upwind_field(n, 599)
            if max(abs(a - b) for a, b in zip(o, f)) > 1e-15: raise ValueError('not uniform yet')
        elif steps == 0:
            f = [0.0] * n ** 3; f[0] = 1.0
        else:
            o = upwind_field(n, steps - 1); f = []
            for x in range(n):
                for y in range(n):
                    for z in range(n):
                        i = (x * n + y) * n + z; s = o[i]
                        s += courant * (o[((x - 1) % n * n + y) * n + z] - o[i])
                        s += courant * (o[(x * n + (y - 1) % n) * n + z] - o[i])
                        s += courant * (o[(x * n + y) * n + (z - 1) % n] - o[i])
                        f.append(s)
        _cache[k] = f
    return _cache[k]

def check_upwind_output(out, n, steps, std, threads=None):
    m = re.findall(r'number of cells:\s*\[?\s*(\d+)[ ,]+(\d+)[ ,]+(\d+)', out)
    assert m == [(str(n),) * 3], 'cells reported: %s instead of %d' % (m, n)
    m = re.findall(r'number of time steps:\s*(-?\d+)', out)
    assert m == [str(steps)], 'steps reported: %s instead of %d' % (m, steps)
    m = re.findall(r'check sum:\s*(\S+)', out)
    assert len(m) == 1 and abs(float(m[0]) - 1) < 2e-5, 'check sum reported: %s' % m
    m = re.findall(r'^std\s*:\s*(\S+)', out, re.M)
    if std and n <= 70:
        f = upwind_field(n, steps); mean = sum(f) / len(f)
        w = (sum((x - mean) ** 2 for x in f) / len(f)) ** .5
        assert len(m) == 1 and abs(float(m[0]) - w) <= 2e-5 * abs(w) + 1e-12, 'std reported: %s instead of %g' % (m, w)
    elif std:
        assert len(m) == 1, 'std not reported'
    else:
        assert not m, 'std reported though not asked for'

def check_vtk_file(fn, n, steps):
    try:
        k = vtk.read(fn)
    except vtk.VtkError as e:
        raise AssertionError('%s: %s' % (os.path.basename(fn), e))
    assert k.dims == [n + 1] * 3, '%s: dimensions %s' % (os.path.basename(fn), k.dims)
    f = upwind_field(n, steps)
    for i in range(len(f)):
        assert abs(k.val[i] - f[i]) <= 2e-5 * abs(f[i]) + 1e-14, '%s: value %d is %g instead of %g' % (os.path.basename(fn), i, k.val[i], f[i])
