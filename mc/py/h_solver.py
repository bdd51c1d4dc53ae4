"""C03, C05, C15 for upwind.py.  mode = formula | stats | vtk"""
import sys, os, itertools, io, contextlib
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import hx, vtk
import numpy
hx.init()
cython = 'cython' in hx.opts        # the directory with the extension module built from upwind5.pyx
if cython:
    sys.path.insert(0, hx.opts['cython'])
    import upwind5 as upwind
else:
    sys.path.insert(0, os.path.join(hx.opts['repo'], 'upwind', 'python'))
    import upwind
mode = hx.opts['mode']
calls = [-1, 0]

class Ref:
    def __init__(self, v, l, n):
        self.v, self.l, self.n = v, l, n
        self.f = numpy.zeros(n); self.f[(0,) * len(n)] = 1; self.mag = self.f
    def step(self, dt):
        g, q = self.f.copy(), self.mag.copy()  # mag: what has been added up to each cell, a bound for rounding
        for j in range(len(self.n)):
            d = 1 if self.v[j] >= 0 else -1; c = abs(self.v[j]) * dt * self.n[j] / self.l[j]
            g += c * (numpy.roll(self.f, d, axis=j) - self.f); q += abs(c) * (numpy.roll(self.mag, d, axis=j) + self.mag)
        self.f, self.mag = g, q

def field(s):
    if not cython: return numpy.array(s.f, dtype=float).ravel()
    o = io.StringIO()
    with contextlib.redirect_stdout(o): s.printOut()
    r = []
    for k, x in enumerate(o.getvalue().split('\n')[:-1]):
        w = x.split()
        if len(w) != 2 or w[0] != str(k): hx.violation('line %d of the listing is "%s"' % (k + 1, x))
        r.append(float(w[1]))
    return numpy.array(r)

def observe(s, r, bounded, when):
    hx.stat('states')
    f = field(s); w = r.f.ravel()
    if mode == 'formula':
        if f.shape != w.shape: hx.violation('%s: field has %d cells instead of %d' % (when, f.size, w.size))
        d = numpy.abs(f - w); sc = max(1, numpy.abs(w).max())
        if not (d <= 1e-12 * numpy.minimum(sc, r.mag.ravel()) + 1e-290).all():
            i = int(numpy.argmax(d - 1e-12 * numpy.minimum(sc, r.mag.ravel()))); hx.violation('%s: cell %d is %.15g instead of %.15g' % (when, i, f[i], w[i]))
    elif mode == 'stats':
        tol = 1e-12 * (1 + numpy.abs(f).sum())
        if not abs(f.sum() - 1) <= tol: hx.violation('%s: the total is %.15g' % (when, f.sum()))
        if bounded and not (f.min() >= -1e-13 and f.max() <= 1 + 1e-13): hx.violation('%s: the field spans %.15g to %.15g' % (when, f.min(), f.max()))
        if not abs(s.checksum() - f.sum()) <= tol: hx.violation('%s: check sum %.15g but the cells add up to %.15g' % (when, s.checksum(), f.sum()))
        hx.stat('statistics')
    else:
        fn = 'py%d.vtk' % os.getpid()
        if calls[0] != hx.case: calls[:] = [hx.case, hx.case]
        calls[1] += 1
        if calls[1] % 2: vtk.stale(fn)  # every other time the file exists already
        s.saveVTK(fn); hx.stat('files')
        try: k = vtk.read(fn)
        except vtk.VtkError as e: hx.violation('%s: %s' % (when, e))
        if k.kind != 'RECTILINEAR_GRID': hx.violation(when + ': dataset ' + k.kind)
        nd = len(r.n)
        for a in range(3):
            j = 2 - a; used = j < nd
            want = r.n[j] + 1 if used else 1
            if k.dims[a] != want: hx.violation('%s: DIMENSIONS %s for grid %s' % (when, k.dims, r.n))
            for i in range(want):
                w = r.l[j] / r.n[j] * i if used else 0.
                if not vtk.near(k.ax[a][i], w, 2e-5): hx.violation('%s: coordinate %d of axis %s is %g instead of %g' % (when, i, 'XYZ'[a], k.ax[a][i], w))
        for i in range(f.size):
            if not vtk.near(k.val[i], f[i], 2e-5): hx.violation('%s: value %d is %.10g instead of %.10g' % (when, i, k.val[i], f[i]))
        os.unlink(fn)

def make(v, l, n):
    return upwind.Upwind(numpy.array(v, numpy.float64), numpy.array(l, numpy.float64), numpy.array(n, dtype=numpy.int64) if cython else list(n))

def config(n, v, l, dt, steps):
    if not hx.take(): return
    hx.progress('cells=%s velocity=%s lengths=%s dt=%g' % (n, v, l, dt))
    bounded = dt >= 0 and sum(abs(v[j]) * dt * n[j] / l[j] for j in range(len(n))) <= 1 + 1e-14
    s, r = make(v, l, n), Ref(v, l, n)
    observe(s, r, bounded, 'initially')
    for i in range(steps):
        s.advect(dt); r.step(dt); hx.stat('transitions')
        if steps <= 10 or i % 10 == 9: observe(s, r, bounded, 'after %d steps' % (i + 1))
    hx.stat('traces')
    hx.sample(hx.cur + ' %d steps' % steps)

def histories(n, v, l, dt, depth):
    if not hx.take(): return
    hx.progress('histories cells=%s velocity=%s lengths=%s dt=%g' % (n, v, l, dt))
    n2 = n[::-1]; v2 = [-x for x in v]
    bb = sum(abs(v2[j]) * dt * n2[j] / l[j] for j in range(len(n))) <= 1
    for ops in itertools.product(range(6), repeat=depth):
        a, ra, b, rb = make(v, l, n), Ref(v, l, n), None, None
        for i, o in enumerate(ops):
            when = 'after operation %d of %s' % (i, ops); hx.stat('transitions')
            if o == 0: a.advect(dt); ra.step(dt)
            elif o == 1: a.advect(dt * .5); ra.step(dt * .5)
            elif o == 2: a.checksum()
            elif o == 3:
                a.saveVTK('h%d.vtk' % os.getpid()); os.unlink('h%d.vtk' % os.getpid())
            elif o == 4:
                if b is None: b, rb = make(v2, l, n2), Ref(v2, l, n2)
                b.advect(dt); rb.step(dt)
            elif o == 5:
                with contextlib.redirect_stdout(io.StringIO()): a.printOut()
            observe(a, ra, True, when)
            if b is not None: observe(b, rb, bb, when + ' (second object)')
        hx.stat('traces')

def main():
    T = hx.thorough
    L = [[1., 1., 1.], [1., 2., .5], [.7, .3, 11.]]
    V = [1., .75, .4]
    isvtk = mode == 'vtk'
    for nd in (1, 2, 3):
        mx = {1: 12, 2: 6, 3: 4}[nd] if not isvtk else {1: 12, 2: 5, 3: 3}[nd]
        if T: mx += 1
        for n in itertools.product(range(1, mx + 1), repeat=nd):
            for sg in itertools.product((-1, 0, 1), repeat=nd):
                for il in ((1, 2) if not T else (0, 1, 2)):
                    if il == 2 and sg[0] != 1: continue
                    v = [sg[j] * V[j] for j in range(nd)]; l = L[il][:nd]
                    cs = [abs(v[j]) * n[j] / l[j] for j in range(nd)]
                    tot = sum(cs) or 1; mc = max(cs) or 1
                    dts = [1 / tot, .6 / mc] if mode == 'formula' else [1 / tot, .4 / tot]
                    if isvtk: dts = [.9 / tot] if il == 1 else [1e-60 / tot, 1e30 / tot]
                    for dt in dts: config(list(n), v, l, dt, 5 if not isvtk else 2)
    for n in [[300, 1, 1], [1, 300, 1], [1, 1, 300], [130, 3, 2], [2, 130, 3], [3, 2, 130], [17, 16, 15]] + ([] if isvtk else [[41, 41, 41], [40000, 1, 2], [70000, 1, 1], [1, 70000, 1], [1, 1, 70000]]):
        for sg in itertools.product((1, -1), repeat=3):
            v = [sg[j] * V[j] for j in range(3)]; l = L[1]
            config(n, v, l, .9 / sum(V[j] * n[j] / l[j] for j in range(3)), 3 if not isvtk else 1)
    for nd in (1, 2, 3):  # every length of one axis
        for a in range(nd):
            for k in range(1, (41 if isvtk else 300 if T else 136)):
                for sg in itertools.product((1, -1), repeat=nd):
                    if isvtk and min(sg) < 0: continue
                    n = [2] * nd; n[a] = k
                    if nd > 1: n[0 if a else 1] = 3
                    v = [sg[j] * V[j] for j in range(nd)]; l = L[1][:nd]
                    config(n, v, l, .9 / sum(V[j] * n[j] / l[j] for j in range(nd)), 3 if not isvtk else 1)
    SC = [[1e-9, 1e-9, 1e-9], [1e8, 1e8, 1e8], [1e-7, 1, 1e7], [1, 1e-40, 1e40], [1e-160, 1e-160, 1e-160], [1, 1, 1e-5], [1e5, 1, 1], [1e12, 1e-12, 1], [1, 1, 1]]
    for nd in (1, 2, 3):
        for a, b in itertools.product(range(9), repeat=2):
            if not T and a != b and a != 8 and b != 8: continue
            if isvtk and min(SC[b][:nd]) < 1e-30: continue
            for sg in itertools.product((-1, 0, 1), repeat=nd):
                n = [3, 2, 4][:nd]; v = [sg[j] * V[j] * SC[a][j] for j in range(nd)]; l = [L[1][j] * SC[b][j] for j in range(nd)]
                tot = sum(abs(v[j]) * n[j] / l[j] for j in range(nd)) or 1
                config(n, v, l, .9 / tot, 3)
                if a == b == 8: config(n, v, l, 0., 3); config(n, v, l, -.3 / tot, 3)
    for nd in (1, 2, 3):
        n = [2, 3, 2][:nd]; v = [1., -.75, .4][:nd]; l = L[1][:nd]
        dt = .9 / sum(V[j] * n[j] / l[j] for j in range(nd))
        config(n, v, l, dt, 300 if not isvtk else 20)
        histories(n, v, l, dt, (4 if not isvtk else 3) + T)
    hx.done()
main()
