"""C19: upwindMPI.py on stand-in MPI.  mode = field | sched | hist | prog; C26: time"""
import sys, os, itertools
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import hx, vtk, fakempi
import numpy
hx.init()
def stat(k, n=1):
    hx.stat(k, n)
    if k == 'schedules': hx.kick()
fakempi.install()
PY = os.path.join(hx.opts['repo'], 'upwind', 'python')
sys.path.insert(0, PY)
import mpinum
SRC = os.path.join(PY, 'upwindMPI.py')
CODE = compile(open(SRC).read(), SRC, 'exec')
mode = hx.opts['mode']

def module(name='upwindMPI'):
    d = {'__name__': name, '__file__': SRC, '__builtins__': __builtins__}
    exec(CODE, d)
    return d

class Ref:
    def __init__(self, v, l, n):
        self.v, self.l, self.n = v, l, n
        self.f = numpy.zeros(n); self.f[0, 0, 0] = 1
    def step(self, dt):
        g = self.f.copy()
        for j in range(3):
            g += abs(self.v[j]) * dt * self.n[j] / self.l[j] * (numpy.roll(self.f, 1 if self.v[j] >= 0 else -1, axis=j) - self.f)
        self.f = g

def divisors(n): return [k for k in range(1, n + 1) if n % k == 0]
def decomposable(p, n): return any(a * b * c == p for a in divisors(n[0]) for b in divisors(n[1]) for c in divisors(n[2]))

def cmp_field(got, want, when):
    if got is None: return when + ': nothing gathered on the root'
    g = numpy.asarray(got, dtype=float)
    if g.shape != want.shape: return '%s: gathered shape %s instead of %s' % (when, g.shape, want.shape)
    d = numpy.abs(g - want); ok = d <= 1e-12 * max(1, numpy.abs(want).max())
    if not ok.all():
        i = numpy.unravel_index(int(numpy.argmax(~ok)), g.shape)
        return '%s: cell %s is %.15g instead of %.15g' % (when, tuple(int(x) for x in i), g[i], want[i])
    return None

def make(mod, v, l, n): return mod['Upwind'](numpy.array(v, numpy.float64), numpy.array(l, numpy.float64), list(n))
OPN = ['advect', 'advect by half', 'check sum', 'gather', 'advect a second solver', 'print']

def run(p, n, v, l, dt, ops, modes, dev):
    """ops: list of operations; after each of them the root holds what it returned"""
    if not hx.take(): return
    hx.progress('%d processes cells=%s velocity=%s lengths=%s dt=%g: %s' % (p, n, v, l, dt, ', '.join(OPN[o] for o in ops)))
    n2, v2 = n[::-1], [-x for x in v]
    ok2 = decomposable(p, n2)
    def body(rank):
        mod = module(); res = []; u2 = None
        u = make(mod, v, l, n)
        for o in ops:
            if o == 0: u.advect(dt); res.append(None)
            elif o == 1: u.advect(dt * .5); res.append(None)
            elif o == 2: res.append(u.checksum())
            elif o == 3: res.append(u.gatherRoot())
            elif o == 4:
                if u2 is None: u2 = make(mod, v2, l, n2)
                u2.advect(dt); res.append(None)
            elif o == 5: u.printOut(); res.append(None)
        last = (u.checksum(), u.gatherRoot(), u2.gatherRoot() if u2 is not None else None)
        del u, u2
        return res, last
    ref, ref2, want = Ref(v, l, n), None, []
    for o in ops:
        if o == 0: ref.step(dt)
        elif o == 1: ref.step(dt * .5)
        elif o == 4:
            if ref2 is None: ref2 = Ref(v2, l, n2)
            ref2.step(dt)
        want.append(ref.f)
    hx.stat('configurations')
    def after(w):
        if any(w.exc): return 'process %d ends with %r' % next((r, e) for r, e in enumerate(w.exc) if e)
        res, (cs, ga, ga2) = w.result[0]
        if cs is None or any(o == 2 and res[i] is None for i, o in enumerate(ops)): return 'no check sum on the root'
        for i, o in enumerate(ops):
            when = 'operation %d (%s)' % (i + 1, OPN[o])
            if o == 2 and not abs(res[i] - want[i].sum()) <= 1e-12 * (1 + numpy.abs(want[i]).sum()): return '%s: check sum %r instead of %.15g' % (when, res[i], want[i].sum())
            if o == 3:
                e = cmp_field(res[i], want[i], when)
                if e: return e
        e = cmp_field(ga, ref.f, 'at the end')
        if e: return e
        if not abs(cs - ref.f.sum()) <= 1e-12 * (1 + numpy.abs(ref.f).sum()): return 'at the end: check sum %r instead of %.15g' % (cs, ref.f.sum())
        if ref2 is not None:
            e = cmp_field(ga2, ref2.f, 'second solver')
            if e: return e
        for r in range(1, p):
            if w.result[r][1][1] is not None: return 'gatherRoot returns something on process %d' % r
        return None
    bad = fakempi.explore(p, modes, dev, body, after, stat)
    if bad: hx.violation('%s [schedule: %s]' % bad)
    hx.sample(hx.cur)

def nodecomp(p, n):
    if not hx.take(): return
    hx.progress('%d processes cells=%s, no decomposition' % (p, n))
    def body(rank): make(module(), [1., 1., 1.], [1., 1., 1.], n); return 'made'
    def after(w):
        if any(w.result): return 'a solver is made although no decomposition exists'
        if 'decomposition' not in (''.join(map(''.join, w.out + w.err))).lower() and not any('decomposition' in str(e).lower() for e in w.exc): return 'nothing is reported'
    bad = fakempi.explore(p, fakempi.MODES, 1 if p < 6 else 0, body, after, stat)
    if bad: hx.violation('%s [schedule: %s]' % bad)

def prog(p, argv, modes, dev):
    if not hx.take(): return
    hx.progress('program on %d processes: %s' % (p, ' '.join(argv)))
    if os.path.exists('upMPI.vtk'): os.unlink('upMPI.vtk')
    if hx.case % 2: vtk.stale('upMPI.vtk')
    def body(rank):
        d = module('__main__'); return 'finished'
    N = int(argv[0]) if argv else 0
    M = int(argv[1]) if len(argv) > 1 else 100
    v = len(argv) > 2 and argv[2] == 'vtk'
    if argv and decomposable(p, [N] * 3):
        ref = Ref([1.] * 3, [1.] * 3, [N] * 3)
        for i in range(M): ref.step(.1 / N)
    def after(w):
        out = [''.join(o) for o in w.out]
        files = [f for f in sorted(os.listdir('.')) if vtk.written(f)]
        for f in files: 
            if f != 'upMPI.vtk': return 'unexpected file ' + f
        if not argv:
            if any(w.result): return 'ends normally without arguments'
            if 'must specify number of cells' not in ''.join(out) + ''.join(map(''.join, w.err)): return 'no usage message'
            return 'writes a file' if files else None
        if not decomposable(p, [N] * 3):
            if any(w.result): return 'ends normally although no decomposition exists'
            if 'decomposition' not in ''.join(out).lower(): return 'nothing is reported'
            if 'check sum' in ''.join(out): return 'prints a check sum although no decomposition exists'
            return 'writes a file' if files else None
        if any(w.exc): return 'process %d ends with %r' % next((r, e) for r, e in enumerate(w.exc) if e)
        if sum(o.count('check sum') for o in out) != 1: return 'the check sum is printed %d times' % sum(o.count('check sum') for o in out)
        import re
        m = re.search(r'check sum:\s*(\S+)', out[0])
        if not m: return 'no check sum printed by the root'
        cs = float(re.sub(r'^.*\(|\)$', '', m.group(1)))
        if not abs(cs - ref.f.sum()) <= 1e-12: return 'check sum %s' % m.group(1)
        m = re.search(r'^number of cells:\s*\[([^]]*)\]', out[0], re.M)
        if not m or [int(x) for x in re.findall(r'\d+', m.group(1))] != [N] * 3: return 'the number of cells is not reported'
        if files != (['upMPI.vtk'] if v else []): return 'files written: %s' % files
        if v:
            try: k = vtk.read('upMPI.vtk')
            except vtk.VtkError as e: return str(e)
            if hx.case % 2: vtk.stale('upMPI.vtk')
            else: os.unlink('upMPI.vtk')
            if list(k.dims) != [N + 1] * 3: return 'DIMENSIONS %s' % (k.dims,)
            for a in range(3):
                for i in range(N + 1):
                    if not vtk.near(k.ax[a][i], i / N, 2e-5): return 'coordinate %d of axis %s is %g instead of %g' % (i, 'XYZ'[a], k.ax[a][i], i / N)
            for i, x in enumerate(ref.f.ravel()):
                if not vtk.near(k.val[i], x, 2e-5): return 'value %d of the file is %.10g instead of %.10g' % (i, k.val[i], x)
        return None
    sys.argv = [SRC] + argv
    bad = fakempi.explore(p, modes, dev, body, after, stat)
    if bad: hx.violation('%s [schedule: %s]' % bad)
    hx.sample(hx.cur)

def timed(p, N, M, modes, dev):
    """the time the root reports is the one it measured, around all transfers of all steps"""
    if not hx.take(): return
    import re
    hx.progress('program on %d processes: %d %d' % (p, N, M))
    def body(rank): module('__main__'); return 'finished'
    def after(w):
        if any(w.exc): return 'process %d ends with %r' % next((r, e) for r, e in enumerate(w.exc) if e)
        m = [x for o in w.out for x in re.findall(r'Wall clock time spent in advection loop:\s*(\S+)', ''.join(o))]
        if len(m) != 1: return 'the time is reported %d times' % len(m)
        t = w.times[0]
        if not any(w.times): return None    # measured with another clock: nothing to compare with
        if len(t) < 2: return 'the root asks for the time %d times' % len(t)
        if t[0][1]: return 'the clock is started after %d transfers' % t[0][1]
        if t[-1][1] < w.started[0]: return 'the clock is stopped before %d of the transfers' % (w.started[0] - t[-1][1])
        want = (t[-1][0] - t[0][0], sum(b[0] - a[0] for a, b in zip(t[::2], t[1::2])))
        if not any(abs(float(m[0]) - x) <= 1e-9 * x for x in want): return 'time reported: %s instead of %s' % (m[0], want[0])
    sys.argv = [SRC, str(N), str(M)]
    bad = fakempi.explore(p, modes, dev, body, after, stat)
    if bad: hx.violation('%s [schedule: %s]' % bad)
    hx.sample(hx.cur)

def main():
    T = hx.thorough
    V, L = [1., .75, .4], [[1., 1., 1.], [1., 2., .5], [.7, .3, 11.]]
    M = fakempi.MODES; TWO = [M[0], M[7]]
    def dtof(n, v, l, c=.9): return c / (sum(abs(v[j]) * n[j] / l[j] for j in range(3)) or 1)
    if mode == 'field':
        mx = 5 if T else 4
        for p in range(1, 13 if T else 9):
            for n in itertools.product(range(1, mx + 1), repeat=3):
                n = list(n)
                if not decomposable(p, n):
                    if sum(n) <= 6 or p == 7: nodecomp(p, n)
                    continue
                for i, sg in enumerate(itertools.product((1, -1), repeat=3)):
                    v = [sg[j] * V[j] for j in range(3)]; l = L[1 + (i + sum(n)) % 2]
                    run(p, n, v, l, dtof(n, v, l, 1. if i % 2 else .6), [3, 0, 3, 0, 3, 2, 0], TWO, 0)
        for p, n in ((1, [3, 2, 2]), (2, [2, 3, 2]), (4, [2, 2, 3]), (8, [2, 2, 2]), (6, [3, 2, 4])):
            for sg in itertools.product((-1, 0, 1), repeat=3):
                v = [sg[j] * V[j] for j in range(3)]
                run(p, n, v, L[0], dtof(n, v, L[0], 1.), [0, 0, 3, 0], TWO, 0)
        for p, n in ((8, [8, 8, 8]), (12, [6, 4, 10]), (16, [8, 4, 4]), (16, [16, 1, 3]), (9, [1, 9, 5]), (5, [3, 2, 25]), (27, [3, 6, 9]), (24, [4, 6, 3])):
            for sg in ((1, 1, 1), (-1, 1, -1), (-1, -1, -1), (1, -1, 1)):
                v = [sg[j] * V[j] for j in range(3)]
                run(p, n, v, L[1], dtof(n, v, L[1]), [0] * 6, TWO, 0)
    elif mode == 'sched':
        for p, n, ops, dev in ((1, [2, 1, 1], [0, 3, 0, 2], 2), (2, [2, 1, 1], [0, 0], 1), (2, [2, 1, 1], [0], 2), (2, [2, 2, 1], [0, 2, 0, 3], 1), (2, [1, 1, 2], [0, 3, 0], 1), (3, [1, 3, 1], [0, 0], 1), (3, [3, 1, 2], [0, 3], 1),
                               (4, [2, 2, 1], [0, 0], 1), (4, [1, 1, 4], [0, 2], 1), (4, [4, 1, 1], [0, 4], 1), (6, [3, 2, 1], [0], 1), (2, [2, 1, 1], [0, 4, 2, 0], 1)):
            for i, sg in enumerate(((1, -1, 1), (-1, 1, -1), (1, 1, 1), (-1, -1, -1)) if T else ((1, -1, 1), (-1, 1, -1)) if p < 4 else ((1, -1, 1),)):
                v = [sg[j] * V[j] for j in range(3)]
                for m in M:
                    if not T and dev > 1 and p > 1 and (i or m.rev): continue
                    run(p, n, v, L[1], dtof(n, v, L[1]), ops, [m], dev + (T and p < 3))
    elif mode == 'hist':
        for p, n in ((1, [2, 3, 2]), (2, [2, 1, 2]), (4, [2, 2, 1])):
            v = [1., -.75, .4]
            for ops in itertools.product(range(6), repeat=4 if T else 3): run(p, n, v, L[1], dtof(n, v, L[1]), list(ops), [M[1], M[6]], 0)
    elif mode == 'time':
        for p in range(1, 13 if T else 9):
            for N in (1, 2, 3, 4, 6):
                if decomposable(p, [N] * 3):
                    for k in (0, 1, 2, 5): timed(p, N, k, M if p < 5 else TWO, 1 if k < 2 and p < 3 + T else 0)
    else:
        for p in range(1, 9):
            prog(p, [], TWO, 1 if p < 3 else 0)
            for N in (1, 2, 3, 4, 6):
                for a in (['0'], ['1', 'vtk'], ['3', 'vtk'], ['5', 'other'], ['2']):
                    prog(p, [str(N)] + a, M if p < 5 else TWO, 0)
            prog(p, ['4'], TWO, 0); prog(p, ['2', '1', 'vtk'], TWO, 1)
        prog(12, ['12', '25', 'vtk'], TWO, 0); prog(16, ['8', '30', 'vtk'], TWO, 0); prog(27, ['9', '4', 'vtk'], TWO, 0); prog(2, ['2', '300', 'vtk'], [M[0]], 0); prog(8, ['2', '260', 'vtk'], [M[7]], 0)
    hx.done()
main()
