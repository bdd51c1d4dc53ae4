"""mpi4py stand-in: the ranks are threads of this process, one of which runs at a time.
Every call that synchronises or communicates is a scheduling point; which rank goes on and
which one-sided transfer is carried out are choices, explored by explore()."""
import sys, types, threading, _thread, pickle, itertools, builtins
import numpy

class Fault(Exception):
    """the code under test broke a rule of MPI, or no rank can go on"""
class Unsupported(BaseException):
    """a part of mpi4py this stand-in does not have"""
def _missing(what):
    def f(*a):
        name = a[-1]
        if name.startswith('__'): raise AttributeError(name)
        raise Unsupported(what + name)
    return f
class Stop(BaseException):
    """unwinds the ranks of an abandoned execution"""

class Mode:
    def __init__(self, sync, early, rev):
        self.sync, self.early, self.rev = sync, early, rev
    def __str__(self):
        return '%s, %s transfers, %s rank first' % ('synchronising' if self.sync else 'not synchronising', 'early' if self.early else 'late', 'last' if self.rev else 'first')
MODES = [Mode(*m) for m in itertools.product((True, False), (False, True), (False, True))]
MAXP = 60000

class World:
    """One execution."""
    def __init__(self, n, mode, dev):
        self.n, self.mode, self.dev = n, mode, dev
        self.cur = None
        self.nalt = []
        self.state = ['ready'] * n      # ready, blocked, done
        self.cond = [None] * n
        self.where = [''] * n
        self.out = [[] for _ in range(n)]
        self.err = [[] for _ in range(n)]
        self.result = [None] * n
        self.exc = [None] * n
        self.fault = None
        self.ops = []                   # transfers not carried out yet
        self.coll = {}                  # comm id -> list of collective calls
        self.ncoll = {}                 # (comm id, rank) -> number of collectives entered
        self.wins = []
        self.over = False
        self.live = n
        self.transfers = 0
        self.ticks = [0] * n; self.started = [0] * n; self.times = [[] for _ in range(n)]
        self.open = [0] * n             # windows of the rank that others may access

    # ---- choices
    def choose(self, k):
        if k < 2: return 0
        p = len(self.nalt)
        if p >= MAXP: self.over = True; return 0
        self.nalt.append(k)
        c = self.dev.get(p, 0)
        return c if c < k else 0
    def can_run(self, r):
        return self.state[r] == 'ready' or (self.state[r] == 'blocked' and self.cond[r]())
    def pick(self, me_ok):
        """chooses what happens next; returns the rank that runs"""
        me = self.cur
        while True:
            rs = []
            if me_ok and self.can_run(me): rs.append(me)
            for k in range(self.n):
                r = (self.n - 1 - k) if self.mode.rev else k
                if r != me and self.can_run(r): rs.append(r)
            if not me_ok and self.state[me] == 'blocked' and self.can_run(me): rs.append(me)
            ts = [o for o in self.ops if o.possible()]
            alts = (ts + rs) if self.mode.early else (rs + ts)
            if not alts:
                if self.live == 0: return None
                raise Fault('no process can go on: ' + '; '.join('process %d is in %s' % (r, self.where[r]) for r in range(self.n) if self.state[r] == 'blocked'))
            a = alts[self.choose(len(alts))]
            if isinstance(a, int): return a
            a.carry_out()

def lock():
    l = _thread.allocate_lock(); l.acquire(); return l

class Runner:
    """Threads, reused from one execution to the next."""
    def __init__(self):
        self.threads, self.locks, self.jobs = [], [], []
        self.main = lock()
    def need(self, n):
        while len(self.threads) < n:
            i = len(self.threads)
            self.locks.append(lock()); self.jobs.append(None)
            t = threading.Thread(target=self.loop, args=(i,), daemon=True)
            self.threads.append(t); t.start()
    def loop(self, i):
        while True:
            self.locks[i].acquire()
            self.jobs[i]()
RUN = Runner()
W = None

def _hand_over(to):
    w = W
    me = w.cur
    if to == me: return
    w.cur = to
    RUN.locks[to].release()
    RUN.locks[me].acquire()
    if w.fault is not None: raise Stop()

def _fail(e):
    W.fault = e
    raise Stop()

def point():
    w = W
    if w.cur is None: return
    if w.fault is not None: raise Stop()
    try: to = w.pick(True)
    except Fault as e: _fail(e)
    _hand_over(to)

def quiet_point():
    """the point behind a call and before a collective one: left out when no transfer can touch this rank's
    memory, because then its next steps commute with everything the others do"""
    if W.fault is not None: raise Stop()
    if W.open[W.cur] or W.ops: point()

def wait(cond, where):
    w = W; me = w.cur
    if w.fault is not None: raise Stop()
    if cond(): return
    w.state[me] = 'blocked'; w.cond[me] = cond; w.where[me] = where
    try: to = w.pick(False)
    except Fault as e: _fail(e)
    _hand_over(to)
    w.state[me] = 'ready'; w.cond[me] = None

def fault(s): _fail(Fault('process %d: %s' % (W.cur, s)))

def execute(n, mode, dev, body):
    """body(rank) runs on every rank; returns the World"""
    global W
    w = W = World(n, mode, dev)
    RUN.need(n)
    def job(r):
        try:
            w.result[r] = body(r)
        except Stop: pass
        except BaseException as e:
            w.exc[r] = e.with_traceback(None)
            if not isinstance(e, SystemExit) and w.fault is None:
                w.fault = e
        w.state[r] = 'done'; w.live -= 1
        if w.fault is None:
            try: nx = w.pick(False)
            except Fault as e: w.fault = e
        if w.fault is not None:
            # let the others unwind, one at a time
            nx = next((k for k in range(n) if w.state[k] != 'done'), None)
        if nx is None: w.cur = None; RUN.main.release()
        else: w.cur = nx; RUN.locks[nx].release()
    def start(r):
        def f():
            if w.fault is not None: 
                # never started
                w.state[r] = 'done'; w.live -= 1
                nx = next((k for k in range(n) if w.state[k] != 'done'), None)
                if nx is None: w.cur = None; RUN.main.release()
                else: w.cur = nx; RUN.locks[nx].release()
                return
            job(r)
        return f
    for r in range(n): RUN.jobs[r] = start(r)
    w.cur = n - 1 if mode.rev else 0
    old = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = Split('out'), Split('err')
    try:
        RUN.locks[w.cur].release()
        RUN.main.acquire()
    finally:
        sys.stdout, sys.stderr = old
        W = None
    return w

class Split:
    """output kept apart by rank"""
    def __init__(self, what): self.what = what
    def write(self, s):
        w = W
        if w is not None and w.cur is not None: getattr(w, self.what)[w.cur].append(s)
        return len(s)
    def flush(self): pass
    def isatty(self): return False

# ---------------------------------------------------------------- communicators
class Datatype:
    def __init__(self, name, np): self.name, self.np = name, np
    def Get_size(self): return numpy.dtype(self.np).itemsize
def _rank():
    if W is None or W.cur is None: return 0
    return W.cur

class Comm:
    __getattr__ = _missing('Comm.')
    def __init__(self, cid): self.cid = cid
    def Get_rank(self): return _rank()
    def Get_size(self): return W.n
    rank = property(Get_rank); size = property(Get_size)
    def _call(self, name, arg, root=None, sync=None):
        """enters the next collective call; returns its record"""
        w = W; me = w.cur
        k = w.ncoll.get((self.cid, me), 0); w.ncoll[(self.cid, me)] = k + 1
        L = w.coll.setdefault(self.cid, [])
        if len(L) == k: L.append({'name': name, 'root': root, 'in': {}})
        c = L[k]
        if (c['name'], c['root']) != (name, root):
            fault('calls %s (root %s) where another process calls %s (root %s)' % (name, root, c['name'], c['root']))
        c['in'][me] = arg
        return c
    def _all(self, c, name): wait(lambda: len(c['in']) == W.n, name)
    def barrier(self):
        quiet_point(); c = self._call('barrier', None); self._all(c, 'barrier'); quiet_point()
    Barrier = barrier
    def gather(self, obj, root=0):
        quiet_point(); c = self._call('gather', pickle.dumps(obj), root)
        if W.cur == root:
            self._all(c, 'gather'); r = [pickle.loads(c['in'][i]) for i in range(W.n)]; quiet_point(); return r
        if W.mode.sync: self._all(c, 'gather')
        quiet_point(); return None
    def allgather(self, obj):
        quiet_point(); c = self._call('allgather', pickle.dumps(obj)); self._all(c, 'allgather'); r = [pickle.loads(c['in'][i]) for i in range(W.n)]; quiet_point(); return r
    def bcast(self, obj, root=0):
        quiet_point(); c = self._call('bcast', pickle.dumps(obj) if W.cur == root else None, root)
        if W.mode.sync: self._all(c, 'bcast')
        else: wait(lambda: root in c['in'], 'bcast')
        r = obj if W.cur == root else pickle.loads(c['in'][root]); quiet_point(); return r
    def scatter(self, obj, root=0):
        quiet_point(); c = self._call('scatter', [pickle.dumps(o) for o in obj] if W.cur == root else None, root)
        wait(lambda: root in c['in'], 'scatter'); r = pickle.loads(c['in'][root][W.cur]); quiet_point(); return r
    def _fold(self, c, op):
        v = [pickle.loads(c['in'][i]) for i in range(W.n)]; r = v[0]
        for x in v[1:]: r = op(r, x)
        return r
    def reduce(self, obj, op=None, root=0):
        quiet_point(); c = self._call('reduce', pickle.dumps(obj), root)
        r = None
        if W.cur == root: self._all(c, 'reduce'); r = self._fold(c, op or SUM)
        elif W.mode.sync: self._all(c, 'reduce')
        quiet_point(); return r
    def allreduce(self, obj, op=None):
        quiet_point(); c = self._call('allreduce', pickle.dumps(obj)); self._all(c, 'allreduce'); r = self._fold(c, op or SUM); quiet_point(); return r
    # buffers
    def Gather(self, send, recv, root=0):
        r = self.gather(numpy.array(_buf(send)), root)
        if r is not None: _buf(recv).reshape(-1)[:] = numpy.concatenate([x.reshape(-1) for x in r])
    def Allgather(self, send, recv): _buf(recv).reshape(-1)[:] = numpy.concatenate([x.reshape(-1) for x in self.allgather(numpy.array(_buf(send)))])
    def Bcast(self, b, root=0): _buf(b)[...] = self.bcast(numpy.array(_buf(b)), root)
    def Reduce(self, send, recv, op=None, root=0):
        r = self.reduce(numpy.array(_buf(send)), op, root)
        if r is not None: _buf(recv)[...] = r
    def Allreduce(self, send, recv, op=None): _buf(recv)[...] = self.allreduce(numpy.array(_buf(send)), op)
    # messages
    def send(self, obj, dest, tag=0):
        point(); w = W; m = {'from': w.cur, 'to': dest, 'tag': tag, 'data': pickle.dumps(obj), 'taken': False}
        w.__dict__.setdefault('msgs', []).append(m)
        if w.mode.sync: wait(lambda: m['taken'], 'send')
        quiet_point()
    def isend(self, obj, dest, tag=0):
        w = W; m = {'from': w.cur, 'to': dest, 'tag': tag, 'data': pickle.dumps(obj), 'taken': False}
        w.__dict__.setdefault('msgs', []).append(m); quiet_point(); return Request(lambda: None)
    def _match(self, me, source, tag):
        for m in W.__dict__.get('msgs', []):
            if not m['taken'] and m['to'] == me and source in (m['from'], ANY_SOURCE) and tag in (m['tag'], ANY_TAG): return m
        return None
    def recv(self, buf=None, source=-1, tag=-1, status=None):
        point(); me = W.cur
        wait(lambda: self._match(me, source, tag) is not None, 'recv')
        m = self._match(me, source, tag); m['taken'] = True; quiet_point(); return pickle.loads(m['data'])
    def sendrecv(self, obj, dest, sendtag=0, recvbuf=None, source=-1, recvtag=-1, status=None):
        self.isend(obj, dest, sendtag); return self.recv(None, source, recvtag)
    def irecv(self, buf=None, source=-1, tag=-1): return Request(lambda: self.recv(None, source, tag))
    def Dup(self):
        c = self._call('Dup', None); self._all(c, 'Dup')
        return Comm((self.cid, len(W.coll[self.cid])))
    Clone = Dup
    def Free(self): pass
    def Abort(self, code=1): raise SystemExit(code)
class Request:
    __getattr__ = _missing('Request.')
    def __init__(self, f): self.f, self.v, self.d = f, None, False
    def wait(self, status=None):
        if not self.d: self.v = self.f(); self.d = True
        return self.v
    Wait = wait
def _buf(b):
    if isinstance(b, (list, tuple)): b = b[0]
    return numpy.asarray(b)
ANY_SOURCE = ANY_TAG = -1
def SUM(a, b): return a + b
def PROD(a, b): return a * b
def MAX(a, b): return numpy.maximum(a, b) if isinstance(a, numpy.ndarray) else max(a, b)
def MIN(a, b): return numpy.minimum(a, b) if isinstance(a, numpy.ndarray) else min(a, b)

# ---------------------------------------------------------------- windows
NOCHECK, NOSTORE, NOPUT, NOPRECEDE, NOSUCCEED = 1024, 2048, 4096, 8192, 16384
class Op:
    def __init__(self, win, epoch, origin, target, f): self.win, self.epoch, self.origin, self.target, self.f = win, epoch, origin, target, f
    def possible(self): return self.win.entered[self.target] >= self.epoch
    def carry_out(self): W.ops.remove(self); W.transfers += 1; self.f()
class WinState:
    def __init__(self, n): self.mem = [None] * n; self.entered = [0] * n; self.asserts = {}; self.last = [None] * n; self.freed = [False] * n
class Win:
    __getattr__ = _missing('Win.')
    @staticmethod
    def Create(memory, disp_unit=1, info=None, comm=None):
        comm = comm or WORLD
        quiet_point(); c = comm._call('Win.Create', None)
        if 'win' not in c: c['win'] = WinState(W.n); W.wins.append(c['win'])
        me = W.cur; s = c['win']
        b = memory
        if isinstance(b, (list, tuple)): b = b[0]
        s.mem[me] = b
        if W.mode.sync: comm._all(c, 'Win.Create')
        x = Win(); x.s, x.comm = s, comm
        quiet_point(); return x
    @staticmethod
    def Allocate(size, disp_unit=1, info=None, comm=None): return Win.Create(numpy.zeros(size, numpy.uint8), disp_unit, info, comm)
    def _alive(self):
        if self.s.freed[W.cur]: fault('uses a window it has freed')
    def Fence(self, assertion=0):
        point(); self._alive(); w, s, me = W, self.s, W.cur
        k = s.entered[me] + 1
        mine = [o for o in w.ops if o.win is s and o.origin == me]
        if assertion & NOPRECEDE and s.last[me] is not None and s.last[me][1]: fault('a fence says that no transfer precedes, after one has been started')
        for bit, nm in ((NOPRECEDE, 'NOPRECEDE'), (NOSUCCEED, 'NOSUCCEED')):
            v = s.asserts.setdefault((k, bit), bool(assertion & bit))
            if v != bool(assertion & bit): fault('only some processes pass MODE_%s to a fence' % nm)
        if s.last[me] is not None and not s.last[me][0] & NOSUCCEED: w.open[me] -= 1
        if not assertion & NOSUCCEED: w.open[me] += 1
        s.entered[me] = k; s.last[me] = [assertion, False]
        if not assertion & NOPRECEDE:
            wait(lambda: min(s.entered) >= k and not any(o.win is s and o.epoch < k and me in (o.origin, o.target) for o in w.ops), 'a fence')
        elif w.mode.sync: wait(lambda: min(s.entered) >= k, 'a fence')
        quiet_point()
    def _epoch(self):
        self._alive(); s, me = self.s, W.cur
        if s.last[me] is None: fault('transfers before the first fence of a window')
        if s.last[me][0] & NOSUCCEED: fault('transfers after a fence that says that none succeeds')
        s.last[me][1] = True
        return s.entered[me]
    def _loc(self, s, t, target, n, disp_item):
        m = s.mem[t].reshape(-1); d = 0
        if isinstance(target, int): d = target
        elif isinstance(target, (list, tuple)) and target: d = int(target[0])
        d = d // m.itemsize if d else 0
        if d < 0 or d + n > m.size: fault('a transfer of %d items at %d exceeds the window of %d items of process %d' % (n, d, m.size, t))
        return d
    def Get(self, origin, target_rank, target=None):
        e = self._epoch(); w, s, me, t = W, self.s, W.cur, int(target_rank)
        if not 0 <= t < w.n: fault('reads from process %d of %d' % (t, w.n))
        w.started[me] += 1
        dst = _buf(origin); flat = dst.reshape(-1)
        if flat.size and not numpy.shares_memory(flat, dst): fault('receives into memory that is not contiguous')
        if s.mem[t] is None: wait(lambda: s.mem[t] is not None, 'Win.Create of another process')
        if not s.mem[t].flags['C_CONTIGUOUS']: fault('a window on memory that is not contiguous')
        d = self._loc(s, t, target, flat.size, None)
        if flat.dtype.kind == 'f': flat[:] = numpy.nan     # undefined until the transfer is over
        def f():
            if s.freed[t]: raise Fault('a transfer reads a window that process %d has freed' % t)
            flat[:] = s.mem[t].reshape(-1)[d:d + flat.size]
        w.ops.append(Op(s, e, me, t, f)); quiet_point()
    def Put(self, origin, target_rank, target=None):
        e = self._epoch(); w, s, me, t = W, self.s, W.cur, int(target_rank)
        w.started[me] += 1
        src = _buf(origin)
        if s.mem[t] is None: wait(lambda: s.mem[t] is not None, 'Win.Create of another process')
        d = self._loc(s, t, target, src.size, None)
        def f(): s.mem[t].reshape(-1)[d:d + src.size] = src.reshape(-1)
        w.ops.append(Op(s, e, me, t, f)); quiet_point()
    def Free(self):
        quiet_point(); self._alive(); c = self.comm._call('Win.Free', None)
        c.setdefault('win', self.s)
        if c['win'] is not self.s: fault('frees another window than the other processes')
        if any(o.win is self.s and W.cur in (o.origin, o.target) for o in W.ops): fault('frees a window with a transfer under way')
        self.comm._all(c, 'Win.Free')
        s, me = self.s, W.cur
        s.freed[me] = True
        if s.last[me] is not None and not s.last[me][0] & NOSUCCEED: W.open[me] -= 1
        quiet_point()

WORLD = Comm(0)
def install():
    sys.unraisablehook = lambda *a: None
    m = types.ModuleType('mpi4py'); M = types.ModuleType('mpi4py.MPI')
    for n, t in (('DOUBLE', 'f8'), ('FLOAT', 'f4'), ('INT64_T', 'i8'), ('INT32_T', 'i4'), ('INT16_T', 'i2'), ('INT8_T', 'i1'), ('BYTE', 'u1'), ('INT', 'i4'), ('LONG', 'i8'), ('BOOL', '?')):
        setattr(M, n, Datatype(n, t))
    M.COMM_WORLD, M.COMM_SELF = WORLD, None
    M.Win, M.Comm = Win, Comm
    M.MODE_NOCHECK, M.MODE_NOSTORE, M.MODE_NOPUT, M.MODE_NOPRECEDE, M.MODE_NOSUCCEED = NOCHECK, NOSTORE, NOPUT, NOPRECEDE, NOSUCCEED
    M.SUM, M.PROD, M.MAX, M.MIN = SUM, PROD, MAX, MIN
    M.ANY_SOURCE = M.ANY_TAG = -1
    def wtime(): # every process has a clock of its own speed, which advances with its transfers and calls
        r = W.cur; W.ticks[r] += 1
        t = 1000. * (r + 1) + (1 + (r * 5 + 3) % 7) * .25 * (W.ticks[r] + 2 * W.started[r])
        W.times[r].append((t, W.started[r])); return t
    M.Wtime = wtime
    M.Is_initialized = lambda: True; M.Is_finalized = lambda: False; M.Finalize = lambda: None; M.Init = lambda: None
    M.Get_processor_name = lambda: 'node'
    M.__getattr__ = _missing('MPI.')
    m.MPI = M; m.rc = types.SimpleNamespace()
    sys.modules['mpi4py'] = m; sys.modules['mpi4py.MPI'] = M

# ---------------------------------------------------------------- exploration
def explore(n, modes, maxdev, body, after, stat, cap=200000):
    """every execution with at most maxdev departures from each base schedule; after(world)
    returns an error text or None.  Returns (error, schedule) or None."""
    left = [cap]
    for mode in modes:
        def rec(dev, start, more):
            left[0] -= 1
            if left[0] < 0: stat('capped'); return None
            w = execute(n, mode, dev, body)
            stat('schedules'); stat('traces'); stat('transitions', len(w.nalt) + w.transfers + 1); stat('states', len(w.nalt) + 1)
            txt = '%s%s' % (mode, ''.join(', at point %d choice %d' % x for x in sorted(dev.items())))
            if w.fault is not None:
                e = w.fault
                if isinstance(e, Unsupported): print('not supported: %s' % e); sys.stdout.flush(); import os; os._exit(12)
                return ('%s' % e if isinstance(e, Fault) else '%s: %s' % (type(e).__name__, e)), txt
            if w.over: stat('capped')
            e = after(w)
            if e: return e, txt
            if more:
                nalt = w.nalt; del w
                for p in range(start, len(nalt)):
                    for a in range(1, nalt[p]):
                        d = dict(dev); d[p] = a
                        r = rec(d, p + 1, more - 1)
                        if r: return r
            return None
        r = rec({}, 0, maxdev)
        if r: return r
    return None
