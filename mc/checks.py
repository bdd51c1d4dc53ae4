"""One function per property."""
import os, sys, glob, json, re, itertools, subprocess
from common import *

H = os.path.join(MC, 'h')
FILL = '-ftrivial-auto-var-init=pattern' # what the code leaves undefined is not accidentally zero
FINIT = ['-finit-real=snan', '-finit-integer=-1234567', '-finit-logical=true']
CXX = ['g++', '-O1', '-g', FILL, '-I' + H, '-I' + os.path.join(REPO, 'cxx')]
ASAN = ['-fsanitize=address', '-fno-omit-frame-pointer']
ASAN_ENV = {'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=0:max_malloc_fill_size=1073741824:malloc_fill_byte=190', 'MALLOC_PERTURB_': '65'}
CHECKS = {}

def check(pid):
    def deco(f):
        CHECKS[pid] = f
        return f
    return deco

def repo(*a):
    return os.path.join(REPO, *a)

def lib(*names):
    return [repo('cxx', n + '.cpp') for n in names]

# ---------------------------------------------------------------- C06 .. C09
@check('C06')
def c06(c):
    exe = c.path('h_iter')
    c.build(CXX + ASAN + [os.path.join(H, 'h_iter.cpp')] + lib('MultiArrayIter') + ['-o', exe])
    c.harness(exe, env=ASAN_ENV)
    c.bounds.append('boxes: 1-3 dimensions, all extents up to 9/5/3 and low ends up to 2/2/1, 4-8 dimensions with small extents, operation sequences of length 3 (4 thorough); every length of one axis up to 300 (1100); boxes of up to 1e15 cells at positions around every power of two, low ends up to 2^52')

def decomp(c, mode, *args):
    exe = c.path('h_decomp')
    c.build(CXX + ASAN + [os.path.join(H, 'h_decomp.cpp')] + lib('MultiArrayIter', 'CubeDecomp') + ['-o', exe])
    c.harness(exe, args=['--mode', mode] + list(args), env=ASAN_ENV)
    c.bounds.append('1-24 processes (64 thorough; neighbours: 12/24) with every grid of 1-4 dimensions up to 40/12/6/3 cells per axis, 5 and 6 dimensions with up to 2-3 cells on 1-8 (24) processes, 5 grids of 5-8 dimensions on 1-36, 15 process counts up to 128 with realistic sizes, 9 up to 1000 (neighbours: thorough), grids whose processor-grid product exceeds 32 bits')

@check('C07')
def c07(c):
    decomp(c, 'tile')

@check('C08')
def c08(c):
    decomp(c, 'optimal')

@check('C09')
def c09(c):
    decomp(c, 'neighbor', '--reach', '5' if c.thorough else '3')
    c.bounds.append('all displacements with up to 3 (5 thorough) sub-domains per axis (1 from 5 dimensions on), and up to 2^30 along one, two and all axes')

# ---------------------------------------------------------------- C16
@check('C16')
def c16(c):
    exe = c.path('h_args')
    c.build(CXX + ['-O2', os.path.join(H, 'h_args.cpp')] + ASAN + lib('CmdLineArgParser') + ['-o', exe])
    c.harness(exe, env=ASAN_ENV)
    c.bounds.append('8 sets of declared options, every argument sequence of length up to 4 (5 thorough) over 11-17 arguments; every option before every one of 40 values, and pairs of such; lists of 6, 23 and 40 arguments with one special argument at every position')

# ---------------------------------------------------------------- C01, C02, C05, C15
CXX_SOLVERS = [('upwind', False), ('upwindOMPTasks', False), ('upwindAcc', True), ('upwindAcc2', True), ('upwindOMP5', True)]
F_SOLVERS = ['upwind', 'upwindF03', 'upwindF08', 'upwindF08Gpu']

def cxx_solver_cmd(c, name, only3d):
    exe = c.path('solver_' + name)
    return exe, CXX + ASAN + ['-w', '-I' + repo('upwind', 'cxx'), '-DSRC="%s"' % repo('upwind', 'cxx', name + '.cxx')] + \
        (['-DONLY3D'] if only3d else []) + [os.path.join(H, 'h_solver.cpp')] + lib('CmdLineArgParser') + ['-o', exe]

def fortran_objects(c, name, flags, sub='f', src=None):
    """Compile a Fortran solver and the C interface in a directory of its own."""
    d = c.path('%s_%s' % (sub, name))
    os.makedirs(d, exist_ok=True)
    c.sh(['gfortran', '-cpp', '-c', '-g', '-O1', '-J' + d] + FINIT + flags + [src or repo('upwind', 'fortran', name + '.F90'), '-o', os.path.join(d, 'src0.o')], cwd=d, ok=(0,))
    c.sh(['objcopy', '--redefine-sym', 'main=mc_f_main', '--redefine-sym', 'MAIN__=mc_F_MAIN', os.path.join(d, 'src0.o'), os.path.join(d, 'src.o')], ok=(0,))
    c.sh(['gfortran', '-c', '-g', '-O1', '-I' + d, '-J' + d] + [f for f in flags if not f.startswith('-D')] + [os.path.join(H, 'solver_f.f90'), '-o', os.path.join(d, 'wrap.o')], cwd=d, ok=(0,))
    return [os.path.join(d, 'src.o'), os.path.join(d, 'wrap.o')]

def f_solver(c, name):
    exe = c.path('solver_f_' + name)
    objs = fortran_objects(c, name, ASAN + ['-fcheck=bounds'])
    c.sh(CXX + ASAN + ['-DFORTRAN', os.path.join(H, 'h_solver.cpp')] + objs + ['-lgfortran', '-o', exe], ok=(0,))
    return exe

def build_solvers(c, cxx=True, fortran=True):
    res = []
    with ThreadPoolExecutor(NCPU) as ex:
        fs = []
        if cxx:
            for n, o in CXX_SOLVERS:
                exe, cmd = cxx_solver_cmd(c, n, o)
                fs.append((n + '.cxx', ex.submit(lambda cmd=cmd, exe=exe: (c.sh(cmd, ok=(0,)), exe)[1])))
        if fortran:
            for n in F_SOLVERS:
                fs.append((n + '.F90', ex.submit(f_solver, c, n)))
        return [(n, f.result()) for n, f in fs]

SOLVER_BOUNDS = 'all grids up to 12 / 6x6 / 4x4x4 cells (1 to 3 dimensions, as far as the solver supports them), all sign patterns of the velocity including zero components, 3 sets of lengths, 2-3 time steps, 4 ways of splitting 5 steps; 8 large grids up to 68921 cells, every length of one axis up to 135, axes of 70000 cells; 260 to 70000 steps on small grids; velocities and lengths scaled by 1e-160 to 1e40, zero and negative time steps; 200 steps on small grids; all sequences of 4 operations on up to two objects'

@check('C01')
def c01(c):
    for n, exe in build_solvers(c, fortran=False):
        c.harness(exe, args=['--mode', 'formula'], env=ASAN_ENV, label=n, cwd_each=True)
    c.bounds.append(SOLVER_BOUNDS)

@check('C02')
def c02(c):
    for n, exe in build_solvers(c, cxx=False):
        c.harness(exe, args=['--mode', 'formula'], env=ASAN_ENV, label=n, cwd_each=True)
    c.bounds.append(SOLVER_BOUNDS)

def py(*needs):
    """An interpreter that has the modules."""
    for p in [VENV_PY, '/opt/veriftools/pyvenv/bin/python', sys.executable]:
        if os.path.exists(p) and subprocess.call([p, '-B', '-c', 'import sys, importlib.util as u; sys.exit(any(u.find_spec(m) is None for m in %r))' % (needs,)], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, cwd='/') == 0:
            return p
    raise CheckError('no python with ' + ','.join(needs))

def py_solver(c, mode):
    c.harness([py('numpy'), '-B', os.path.join(MC, 'py', 'h_solver.py'), '--repo', REPO], args=['--mode', mode], label='upwind.py', cwd_each=True,
              env={'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1'})

@check('C03')
def c03(c):
    py_solver(c, 'formula')
    c.bounds.append(SOLVER_BOUNDS.replace('4 ways of splitting 5 steps', '5 steps'))

def threaded(c, mode):
    """The same observations under every schedule of the threads, see C04."""
    for n, exe in omp_build(c, [('upwind', False), ('upwindOMPTasks', False)], ['upwind', 'upwindF03', 'upwindF08Gpu']):
        c.harness(exe, args=['--mode', mode], label=n + ', threads', cwd_each=True)
    c.bounds.append('with threads: 13 (16 thorough) grids of 1-8 (12) cells and one of 60, teams of 1-4 (6) and 8 threads, every schedule with up to 1-2 departures from 5 (8) base schedules')
    c.assumptions += OMP_ASSUME

@check('C05')
def c05(c):
    for n, exe in build_solvers(c):
        c.harness(exe, args=['--mode', 'stats'], env=ASAN_ENV, label=n, cwd_each=True)
    py_solver(c, 'stats')
    threaded(c, 'stats')
    c.bounds.append(SOLVER_BOUNDS)

@check('C15')
def c15(c):
    for n, exe in build_solvers(c):
        c.harness(exe, args=['--mode', 'vtk'], env=ASAN_ENV, label=n, cwd_each=True)
    py_solver(c, 'vtk')
    threaded(c, 'vtk')
    c.bounds.append(SOLVER_BOUNDS.replace('4 ways of splitting 5 steps', 'files after 0, 2 and 4 steps') + '; fields with values from 1e-155 to 1e30')

# ---------------------------------------------------------------- C20
import progs
@check('C20')
def c20(c):
    d = c.path('mm'); os.makedirs(d)
    fl = ['-g', '-O1', '-fcheck=bounds', '-J' + d, '-I' + d] + ASAN
    c.sh(['gfortran', '-cpp', '-c'] + fl + [repo('matmult', 'fortran', 'matmult.F90'), '-o', d + '/m0.o'], cwd=d, ok=(0,))
    c.sh(['objcopy', '--redefine-sym', 'main=mc_f_main', d + '/m0.o', d + '/m.o'], ok=(0,))
    c.sh(['gfortran', '-c'] + fl + [os.path.join(H, 'matmult_f.f90'), '-o', d + '/w.o'], cwd=d, ok=(0,))
    exe = c.path('h_matmult')
    c.sh(CXX + ASAN + [os.path.join(H, 'h_matmult.cpp'), d + '/m.o', d + '/w.o', '-lgfortran', '-o', exe], ok=(0,))
    c.harness(exe, env=ASAN_ENV)
    # the program: every command line of up to 3 sizes; uninitialised variables get a value that is not 0
    prog = c.path('matmult')
    c.sh(['gfortran', '-cpp', '-O1', '-finit-integer=77', '-fcheck=bounds'] + [repo('matmult', 'fortran', 'matmult.F90'), '-o', prog], cwd=d, ok=(0,))
    cases = []
    for k in range(4):
        for a in itertools.product(['1', '2', '7', '012'] if not c.thorough else ['0', '1', '2', '5', '7', '012', '33'], repeat=k):
            cases.append((' '.join(a), list(a)))
    def run(args, cwd):
        rc, out, err = c.sh([prog] + args, cwd=cwd, timeout=60)
        want = [int(x) for x in args] + [3, 4, 5][len(args):]
        m = re.search(r'matrix sizes:\s*(-?\d+)\s*x\s*(-?\d+)\s*x\s*(-?\d+)', out)
        assert rc == 0, 'exit status %s %s' % (rc, err[-200:])
        assert m and [int(x) for x in m.groups()] == want, 'sizes %s reported as: %s' % (want, out.strip()[:200])
        assert out.count('SUCCESS') == 1 and 'ERROR' not in out, 'no success reported: ' + out.strip()[:200]
    progs.run_cases(c, 'matmult', cases, run)
    c.bounds.append('all shapes up to 6x6x6 (9 thorough) with contiguous and strided storage, all pairs of unit matrices of the smaller ones, all contents over {-1,0,2} up to 2x2x2, 8 large shapes; every command line of up to 3 sizes over 4 (7) values')

# ---------------------------------------------------------------- C17
OMPF = ['-O2', '-w', '-fopenmp', '-DHAVE_OPENMP']
@check('C17')
def c17(c):
    cxx = {n: c.path('p_' + n) for n, _ in CXX_SOLVERS}
    ff = {n: c.path('pf_' + n) for n in F_SOLVERS}
    cmds = [['g++', FILL] + OMPF + ['-foffload=disable', '-I' + repo('cxx'), '-I' + repo('upwind', 'cxx'), repo('upwind', 'cxx', n + '.cxx')] + lib('CmdLineArgParser') + ['-o', e] for n, e in cxx.items()]
    for n, e in ff.items():
        os.makedirs(e + '.d')
        cmds.append(['gfortran'] + FINIT + OMPF + ['-foffload=disable', '-J' + e + '.d', repo('upwind', 'fortran', n + '.F90'), '-o', e])
    c.build(*cmds)
    T = c.thorough
    cells = [1, 2, 3, 5] if T else [1, 3]
    steps = [0, 1, 4, 11] if T else [0, 4]
    # ---- C++: every order of every subset of the options, repeated options
    for n in cxx:
        has_std = n != 'upwindAcc'
        toks = lambda N, M: [('-numCells', str(N)), ('-numSteps', str(M)), ('-vtk',)] + ([('-std',)] if has_std else [])
        cases = []
        def add(parts, th, only_err=False):
            a = [t for p in parts for t in p]
            N, M, v, s = 128, 10, False, False
            for p in parts:
                if p[0] == '-numCells' and len(p) > 1: N = int(p[1])
                if p[0] == '-numSteps' and len(p) > 1: M = int(p[1])
                if p[0] == '-vtk': v = not v
                if p[0] == '-std': s = not s
            h = sum(1 for p in parts if p[0] == '-h') % 2 == 1
            bad = any(p[0] in ('-nope', '-numcells', '--vtk') for p in parts)
            cases.append(('%d threads: %s' % (th, ' '.join(a)), (a, N, M, v, s, h, bad, th)))
        for N in cells:
            for M in steps:
                t = toks(N, M)
                for k in range(1, len(t)):
                    for perm in itertools.permutations(t[1:], k):
                        for pos in range(k + 1):
                            if not T and pos not in (0, k): continue
                            add(perm[:pos] + (t[0],) + perm[pos:], 1 + (len(cases) % 3))
        add([('-numCells', '4')], 2); add([('-numSteps', '1')], 4); add([('-numCells', '2'), ('-numSteps', '3'), ('-numCells', '3')], 1)
        add([('-vtk',), ('-numCells', '2'), ('-vtk',)], 2); add([('-numSteps', '7'), ('-numCells', '2'), ('-numSteps', '2'), ('-vtk',)], 2)
        add([('-numCells', '12'), ('-numSteps', '25'), ('-vtk',)], 4); add([('-numCells', '7'), ('-numSteps', '13'), ('-vtk',)], 16)
        for N, M, th in ((33, 3, 3), (70, 1, 8), (17, 8, 5), (4, 101, 2), (1, 300, 1), (2, 70000, 1)):
            add([('-numCells', str(N)), ('-numSteps', str(M)), ('-vtk',)] + ([('-std',)] if has_std else []), th)
        add([('-numCells', '5'), ('-numSteps', '20')], 33); add([('-numCells', '100'), ('-numSteps', '2')], 6)
        for w in ('-h', '-nope', '-numcells', '--vtk'):
            add([(w,)], 1); add([('-numCells', '3'), (w,)], 2); add([(w,), ('-vtk',), ('-numCells', '3')], 1)
        add([('-h',), ('-h',), ('-numCells', '3')], 1)
        def run(data, cwd, n=n):
            a, N, M, v, s, h, bad, th = data
            if (len(a) + N + M) % 2: progs.stale(cwd)
            rc, out, err = c.sh([cxx[n]] + a, cwd=cwd, timeout=100, env={'OMP_NUM_THREADS': str(th), 'MALLOC_PERTURB_': '65'})
            files = progs.files(cwd)
            if h or bad:
                assert rc in (0, 1), 'exit status %s' % rc
                assert 'check sum' not in out and not files, 'computed something: %s %s' % (out[-200:], files)
                assert 'Usage' in out and '-numCells' in out and '-numSteps' in out, 'no usage printed: ' + out[-200:]
                if bad: assert 'ERROR' in err, 'no error reported'
                return
            assert rc == 0, 'exit status %s %s' % (rc, err[-200:])
            progs.check_upwind_output(out, N, M, s)
            if not v:
                assert not files, 'files written though not asked for: %s' % files
                return
            fin = 'up1.vtk' if n in ('upwind', 'upwindOMPTasks') else 'up.vtk'
            assert fin in files, 'no file %s: %s' % (fin, files)
            progs.check_vtk_file(os.path.join(cwd, fin), N, M)
            for f in files:
                if f != fin:
                    assert f == 'up0.vtk', 'unexpected file ' + f
                    progs.check_vtk_file(os.path.join(cwd, f), N, 0)
        progs.run_cases(c, n + '.cxx', cases, run)
    # ---- Fortran and Python: positional arguments
    interp = py('numpy')
    tests = [(n + '.F90', [ff[n]]) for n in F_SOLVERS] + [('upwind.py', [interp, '-B', repo('upwind', 'python', 'upwind.py')])]
    for n, cmd in tests:
        cases = [('', ([], 0, 0, False, 1))]
        for N in [1, 2, 3, 5] + ([4, 6] if T else []):
            cases.append(('%d' % N, ([str(N)], N, 100, False, 2)))
            for M in [0, 1, 4, 11]:
                for v in (False, True):
                    th = 1 + len(cases) % 4
                    cases.append(('%d threads: %d %d %s' % (th, N, M, 'vtk' if v else ''), ([str(N), str(M)] + (['vtk'] if v else []), N, M, v, th)))
        cases.append(('12 25 vtk', (['12', '25', 'vtk'], 12, 25, True, 4)))
        for N, M, th in ((33, 3, 3), (40, 1, 8), (17, 8, 5), (4, 101, 33), (1, 300, 1)) + (((2, 70000, 1),) if n.endswith('90') else ()):
            cases.append(('%d threads: %d %d vtk' % (th, N, M), ([str(N), str(M), 'vtk'], N, M, True, th)))
        cases.append(('100 2', (['100', '2'], 100, 2, False, 6)))
        cases.append(('3 2 other', (['3', '2', 'other'], 3, 2, False, 4)))
        def run(data, cwd, cmd=cmd):
            a, N, M, v, th = data
            if (N + M) % 2: progs.stale(cwd)
            rc, out, err = c.sh(cmd + a, cwd=cwd, timeout=100, env={'OMP_NUM_THREADS': str(th), 'MALLOC_PERTURB_': '65'})
            files = progs.files(cwd)
            if not a:
                assert 'must specify number of cells' in out + err, 'no usage message: ' + out[-200:]
                assert 'check sum' not in out and not files and rc in (0, 1), 'computed something'
                return
            assert rc == 0, 'exit status %s %s' % (rc, err[-200:])
            progs.check_upwind_output(out, N, M, False)
            assert files == (['up.vtk'] if v else []), 'files written: %s' % files
            if v: progs.check_vtk_file(os.path.join(cwd, 'up.vtk'), N, M)
        progs.run_cases(c, n, cases, run)
    c.bounds.append('C++: every order of every subset of the options with %s cells and %s steps, repeated, wrong and help options, 1-4 and 16 threads, up to 100 cells and 70000 steps; Fortran and Python: 4-6 cell counts, default and 4 step counts, with and without a file' % (cells, steps))
    c.assumptions.append('programs are compiled with -O2 -fopenmp as in the default build; thread schedules are covered by C04')

# ---------------------------------------------------------------- C10 .. C14, C18
RT = os.path.join(MC, 'rt')
def mpi_host(asan):
    return ['g++', '-std=c++17', '-O1', '-g', '-w', '-rdynamic', '-I' + os.path.join(RT, 'mpi'), '-I' + H] + (ASAN if asan else [])
def mpi_code(asan):
    return ['g++', '-std=c++17', '-O1', '-g', '-w', FILL, '-fPIC', '-fno-gnu-unique', '-I' + os.path.join(RT, 'mpi'), '-I' + repo('cxx'), '-I' + H] + (ASAN if asan else [])

def mpi_build(c, asan, filt=True, programs=(), extra=(), code=(), link=()):
    """The explorer and shared objects with the code under test."""
    t = 'A' if asan else ''
    exe = c.path('h_mpi' + t)
    objs, cmds = {}, []
    def obj(src, name, flags=()):
        o = c.path(name + t + '.o')
        cmds.append(mpi_code(asan) + list(code) + list(flags) + ['-c', src, '-o', o])
        return o
    libs = [obj(s, 'lib_' + os.path.basename(s)) for s in sorted(glob.glob(repo('cxx', '*.cpp')))]
    if filt:
        objs['filter'] = obj(os.path.join(H, 'r_filter.cpp'), 'r_filter')
    for p in programs:
        objs[os.path.basename(p)] = obj(repo(p + '.cxx'), 'p_' + os.path.basename(p), ['-include', os.path.join(H, 'rankmain.h'), '-Dmain=mc_rank_main'])
    cmds.append(mpi_host(asan) + list(extra) + ['-c', os.path.join(H, 'h_mpi.cpp'), '-o', c.path('host%s.o' % t)])
    cmds.append(mpi_host(asan) + [x for x in extra if x.startswith('-D_GLIBCXX')] + ['-c', os.path.join(RT, 'mpirt.cpp'), '-o', c.path('rt%s.o' % t)])
    c.build(*cmds)
    res = {n: c.path(n + t + '.so') for n in objs}
    c.build(mpi_host(asan) + list(link) + [c.path('host%s.o' % t), c.path('rt%s.o' % t), '-ldl', '-o', exe],
            *[['g++', '-shared', '-Wl,--wrap=exit'] + (ASAN if asan else []) + list(link) + [objs[n]] + libs + ['-o', res[n]] for n in objs])
    return exe, res

MPI_ENV = {'ASAN_OPTIONS': 'detect_leaks=0:detect_odr_violation=0:exitcode=99:detect_stack_use_after_return=0:max_malloc_fill_size=1073741824:malloc_fill_byte=190', 'MALLOC_PERTURB_': '65'}
def mpi_run(c, exe, so, mode, label, *args, **kw):
    # the files differ from run to run, so they are not part of what identifies a case
    c.harness([exe, '--so', so], args=['--mode', mode] + list(args), env=kw.pop('env', MPI_ENV), label=label, cwd_each=True, timeout=850, **kw)

MPI_ASSUME = ['ranks interleave at MPI calls; between two calls a rank touches only its own memory and the data it exposes, whose changes are compared at every call',
              'transfers happen as a whole at any moment the standard allows; the runtime rt/mpirt.cpp models the calls the code uses with all freedom the standard gives (calls that may synchronise do and do not)']

@check('C10')
def c10(c):
    exe, so = mpi_build(c, True)
    mpi_run(c, exe, so['filter'], 'apply', 'filter')
    c.bounds.append('1-D grids up to 9 (12 thorough) cells with every set of up to 3 (4) offsets of reach 3, 2-D up to 6x6 (7x7) with every pair (triple) of offsets of reach 2 and the full stencils, 3-D up to 3x3x3 (4x4x4), 1-6/6/8 (12) processes; 21 larger grids of up to 2052 cells along an axis with reach up to 8, 4 grids in 4 dimensions; two schedules each (schedules: C12)')
    c.assumptions += MPI_ASSUME

@check('C11')
def c11(c):
    exe, so = mpi_build(c, False)
    mpi_run(c, exe, so['filter'], 'hist', 'filter')
    c.bounds.append('every sequence of %d operations out of 11 that starts by setting the input, on 8 process grids; 12 long sequences of up to 121 operations each; every sequence of %d steps (make, destroy, set, apply, copy) with two fields on 5 pairs of grids' % ((5, 5) if c.thorough else (4, 4)))
    c.assumptions += MPI_ASSUME

@check('C12')
def c12(c):
    exe, so = mpi_build(c, False)
    mpi_run(c, exe, so['filter'], 'sched', 'filter')
    c.bounds.append('13 configurations of 1-6 processes, 4 base schedules (synchronising or not, early or late transfers, both orders of the processes), every execution with at most %s departures from the base schedule' % ('2-5' if c.thorough else '1-3'))
    c.assumptions += MPI_ASSUME

MPI_PROGS = ['upwind/cxx/upwindMpi', 'laplacian/cxx/laplacian', 'laplacian/cxx/testStencil2d']
@check('C13')
def c13(c):
    exe, so = mpi_build(c, False, programs=MPI_PROGS)
    mpi_run(c, exe, so['filter'], 'res', 'filter')
    for p in MPI_PROGS:
        n = os.path.basename(p)
        mpi_run(c, exe, so[n], 'prog', n, '--prog', n, '--purpose', 'res')
    c.bounds.append('the configurations of C12 with up to 1 departure, every 9th (3rd thorough) case of C10, 8 grids without decomposition, the command lines of C18, help and wrong options')
    c.assumptions += MPI_ASSUME

@check('C14')
def c14(c):
    exe, so = mpi_build(c, True)
    mpi_run(c, exe, so['filter'], 'vtk', 'filter')
    c.bounds.append('distributed fields: every grid up to 12 / 6x6 / 4x4x4 cells on 1-12/8/8 processes with a valid decomposition, 4 large grids; the writer alone: every grid up to 20 / 9x9 / 5x5x5 cells with 4 boxes and fields; 4 to 6 dimensions')
    c.assumptions += MPI_ASSUME

@check('C18')
def c18(c):
    exe, so = mpi_build(c, False, filt=False, programs=MPI_PROGS)
    for p in MPI_PROGS:
        n = os.path.basename(p)
        mpi_run(c, exe, so[n], 'prog', n, '--prog', n, '--purpose', 'answer')
    c.bounds.append('1-6 (8) cells per axis on 1-8 (12) processes, several step counts, with and without file, with every departure from the base schedules up to 1-2 for small cases; larger grids on 1-16 processes')
    c.assumptions += MPI_ASSUME

# ---------------------------------------------------------------- C04, C21, C22
TSAN = ['-fsanitize=thread', '-O0', '-g', '-w']
WRAP = ['-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset']
def omp_build(c, cxx, fortran, flags=('-fopenmp', '-DHAVE_OPENMP', '-foffload=disable'), tag='', srcdir=None):
    """Solvers compiled with OpenMP, linked with rt/omprt.cpp in place of libgomp."""
    rt = c.path('omprt.o')
    if not os.path.exists(rt):
        c.sh(['g++', '-std=c++17', '-O2', '-g', '-w', '-c', os.path.join(RT, 'omprt.cpp'), '-o', rt], ok=(0,))
        # its own copies are not observed, and it shares no template instance with the code under test
        c.sh(['objcopy'] + ['--redefine-sym=%s=__real_%s' % (f, f) for f in ('memcpy', 'memmove', 'memset')] + [rt], ok=(0,))
        c.sh(['ld', '-r', '--force-group-allocation', rt, '-o', rt + '.r'], ok=(0,))
        c.sh(['objcopy', '--wildcard'] + ['--keep-global-symbol=' + g for g in ('GOMP_*', 'GOACC_*', 'omp_*', '__tsan_*', '__wrap_*', 'mc_switch', '_ZN5omprt7explore*', '_ZN5omprt6inside*', '_ZN5omprt6g_loadE')] + [rt + '.r', rt], ok=(0,))
        # controls: programs whose outcome is known
        t = c.path('omp_self')
        c.sh(['g++', '-std=c++17', '-O0', '-g', '-w', '-fopenmp', '-foffload=disable', '-fsanitize=thread', '-c', os.path.join(H, 'omp_self.cpp'), '-o', t + '.o'], ok=(0,))
        c.sh(['g++'] + WRAP + [t + '.o', rt, '-o', t], ok=(0,))
        rc, out, err = c.sh([t], timeout=300)
        if rc != 0:
            raise CheckError('the controls of the OpenMP runtime fail: ' + out + err)
        m = re.search(r'(\d+) controls, (\d+) executions', out)
        c.stat('controls', int(m.group(1))); c.stat('control_schedules', int(m.group(2)))
    flags = list(flags)
    src = lambda sub, f: os.path.join(srcdir, f) if srcdir else repo('upwind', sub, f)
    def one(n, kind, only3d):
        exe = c.path('omp%s_%s_%s' % (tag, kind, n))
        if kind == 'cxx':
            c.sh(['g++', '-std=c++17'] + TSAN + flags + ['-I' + H, '-I' + repo('cxx'), '-I' + repo('upwind', 'cxx'), '-DSRC="%s"' % src('cxx', n + '.cxx')] + (['-DONLY3D'] if only3d else []) +
                 ['-c', os.path.join(H, 'h_omp.cpp'), '-o', exe + '.o'], ok=(0,))
            c.sh(['g++', '-O1', '-w', '-I' + repo('cxx'), '-c'] + lib('CmdLineArgParser') + ['-o', exe + '.a.o'], ok=(0,))
            objs = [exe + '.a.o']
        else:
            objs = fortran_objects(c, n, TSAN + flags, sub='omp' + tag, src=src('fortran', n + '.F90'))
            c.sh(['g++', '-std=c++17', '-O1', '-g', '-w', '-DFORTRAN', '-I' + H, '-c', os.path.join(H, 'h_omp.cpp'), '-o', exe + '.o'], ok=(0,))
        c.sh(['g++'] + WRAP + [exe + '.o'] + objs + [rt] + (['-lgfortran'] if kind == 'f' else []) + ['-o', exe], ok=(0,))
        return exe
    with ThreadPoolExecutor(NCPU) as ex:
        fs = [(n + '.cxx', ex.submit(one, n, 'cxx', o)) for n, o in cxx] + [(n + '.F90', ex.submit(one, n, 'f', False)) for n in fortran]
        return [(n, f.result()) for n, f in fs]

OMP_ASSUME = ['threads interleave at the accesses to memory and the OpenMP calls of the code as compiled without optimisation, in a sequentially consistent memory',
              'memory touched inside the C, C++ and Fortran run-time libraries (output, allocation) is not observed, except memcpy, memmove and memset']

@check('C04')
def c04(c):
    for n, exe in omp_build(c, [('upwind', False), ('upwindOMPTasks', False)], ['upwind', 'upwindF03', 'upwindF08Gpu']):
        c.harness(exe, args=['--mode', 'field'], label=n, cwd_each=True)
    c.bounds.append('13 (16 thorough) grids of 1-8 (12) cells and larger ones up to 64 cells, teams of 1-4 (6), 7, 8, 16, 31-33, 64, 65 and 130 threads, 2-3 steps, 5 (8) base schedules; all schedules with up to 1-3 departures from them, switching threads at OpenMP calls, at every access that races with another one, and (up to 4 (6) cells) at every access to memory several threads use')
    c.assumptions += OMP_ASSUME

@check('C21')
def c21(c):
    for n, exe in omp_build(c, [('upwind', False), ('upwindOMPTasks', False)], ['upwind', 'upwindF03']):
        c.harness(exe, args=['--mode', 'report'], label=n, cwd_each=True)
    c.bounds.append('whole programs on 1-2 cells per axis, teams of 1-5 (8 thorough), 16 and 23 threads, as large as the maximum or smaller; all schedules with up to 1-4 departures from 5 (8) base schedules, switching threads at OpenMP calls, at racing accesses and at every access to shared memory')
    c.assumptions += OMP_ASSUME

import acc2omp
def acc_sources(c):
    """OpenACC sources as gcc accepts them, and restated in OpenMP.  Returns (plain, restated, problems)."""
    plain, omp, probs = c.path('acc'), c.path('acc2omp'), []
    for d in (plain, omp):
        for sub in ('cxx', 'k', 'p'):
            os.makedirs(os.path.join(d, sub))
    for f in glob.glob(repo('upwind', 'cxx', '*')):
        if not os.path.isfile(f):
            continue
        t = open(f, errors='replace').read()
        open(os.path.join(plain, 'cxx', os.path.basename(f)), 'w').write(acc2omp.plain_cxx(t))
        if f.endswith(('.cxx', '.h', '.cpp')):
            try:
                t = acc2omp.cxx(t)
            except acc2omp.Unknown as e:
                if os.path.basename(f) in ('upwindAcc.cxx', 'upwindAcc2.cxx'):
                    probs.append('%s: %s' % (os.path.basename(f), e))
                continue
        open(os.path.join(omp, 'cxx', os.path.basename(f)), 'w').write(t)
    n = 'upwindF08Gpu.F90'
    t = acc2omp.plain_fortran(open(repo('upwind', 'fortran', n)).read())
    for sub, d in (('p', []), ('k', ['-DHAVE_OPENACC_KERNELS'])):
        f = os.path.join(plain, sub, n)
        open(f, 'w').write(t)
        _, out, _ = c.sh(['gfortran', '-cpp', '-E', '-P', '-DHAVE_OPENACC', '-D_THREADS_PER_TEAM=32', '-D_TEAMS=128'] + d + [f], ok=(0,))
        try:
            open(os.path.join(omp, sub, n), 'w').write(acc2omp.fortran(out))
        except acc2omp.Unknown as e:
            probs.append('%s: %s' % (n, e))
    return plain, omp, probs

@check('C22')
def c22(c):
    defs = ['-D_THREADS_PER_TEAM=32', '-D_TEAMS=128', '-foffload=disable']
    off = ['-fopenmp', '-DHAVE_OPENMP', '-DHAVE_OPENMP_OFFLOAD'] + defs
    acc = ['-fopenacc', '-DHAVE_OPENACC'] + defs
    plain, omp, probs = acc_sources(c)
    for p in probs:
        c.exhaustive = False
        c.bounds.append('not restated in OpenMP, concurrency not explored: ' + p)
    jobs = [(' (OpenMP)', [('upwindOMP5', True)], ['upwindF08Gpu'], off, 'off', None)]
    jobs += [(' (OpenACC)', [('upwindAcc', True), ('upwindAcc2', True)], [], acc, 'acc', os.path.join(plain, 'cxx')),
             (' (OpenACC)', [], ['upwindF08Gpu'], acc, 'accp', os.path.join(plain, 'p')),
             (' (OpenACC kernels)', [], ['upwindF08Gpu'], acc + ['-DHAVE_OPENACC_KERNELS'], 'acck', os.path.join(plain, 'k'))]
    has = lambda *a: os.path.exists(os.path.join(omp, *a))
    jobs += [(' (OpenACC, concurrent)', [(n, True) for n in ('upwindAcc', 'upwindAcc2') if has('cxx', n + '.cxx')], [], ['-fopenmp'] + defs, 'accc', os.path.join(omp, 'cxx'))]
    jobs += [(' (OpenACC %sconcurrent)' % t, [], ['upwindF08Gpu'], ['-fopenmp'] + defs, 'acc' + k + 'c', os.path.join(omp, k)) for t, k in (('', 'p'), ('kernels, ', 'k')) if has(k, 'upwindF08Gpu.F90')]
    for label, cx, fo, fl, tag, src in jobs:
        for n, exe in omp_build(c, cx, fo, fl, tag, src):
            c.harness(exe, args=['--mode', 'device'], label=n + label, cwd_each=True)
    c.bounds.append('13 (16 thorough) grids of 1-8 (12) cells and larger ones up to 64 cells, 1-3 teams of 1-4 (6), 7, 8, 16, 33 and 130 threads on a device with its own memory, undefined at first; all schedules with up to 1-3 departures from 5 (8) base schedules')
    c.assumptions += OMP_ASSUME + ['OpenACC: the code gcc generates for -fopenacc is run as it is for the movement of data (iterations in order); for concurrent iterations the directives are restated in OpenMP (acc2omp.py), the loops are compiled unchanged',
                                   'array sections in private clauses and indented preprocessor lines, which gcc does not accept, are put in the form it does']

# ---------------------------------------------------------------- C19
@check('C19')
def c19(c):
    cmd = [py('numpy', 'mpinum'), '-B', os.path.join(MC, 'py', 'h_pympi.py'), '--repo', REPO]
    for mode in ('field', 'hist', 'prog', 'sched'):
        c.harness(cmd, args=['--mode', mode], label='upwindMPI.py', cwd_each=True, env={'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1'}, timeout=850)
    c.bounds.append('3-D grids up to 4x4x4 (5x5x5) cells on 1-8 (12) processes with every sign pattern, 8 larger ones on up to 27; every sequence of 3 (4) operations out of 6 on 1, 2 and 4 processes; programs on 1-27 processes; 12 small configurations with every execution that departs at most once or twice (one more in the thorough tier) from 8 base schedules')
    c.assumptions += ['ranks interleave at MPI calls; between two calls a rank touches only its own memory and what it exposes', 'mpinum and numpy are used as installed; mpi4py is replaced by py/fakempi.py']

# ---------------------------------------------------------------- C24
import doconc
@check('C24')
def c24(c):
    loops, ARGS = 0, '-fallow-argument-mismatch'
    for rel in ['matmult/fortran/matmult.F90'] + ['upwind/fortran/%s.F90' % n for n in F_SOLVERS]:
        n = os.path.basename(rel)
        raw = c.sh(['gfortran', '-cpp', '-E', '-P', repo(*rel.split('/'))], ok=(0,))[1]
        if not re.search(r'^[^!]*\bdo\s+concurrent\b', raw, re.I | re.M):
            continue
        d = c.path('dc_' + n); os.makedirs(d)
        try:
            t, k = doconc.restate(raw)
        except doconc.Unknown as e:
            raise CheckError('%s: do concurrent in a form that is not known: %s' % (n, e))
        loops += k
        src = os.path.join(d, n); open(src, 'w').write(t)
        # in every order; and observing which iteration defines and uses what
        for tag, fl, link, defs in (('order', ['-g', '-O1', '-fcheck=bounds', ARGS] + ASAN, ASAN, []), ('dep', TSAN + [ARGS], WRAP, ['-DDEP'])):
            o = os.path.join(d, tag); os.makedirs(o)
            exe = os.path.join(o, 'exe')
            if rel.startswith('matmult'):
                c.sh(['gfortran', '-cpp', '-c', '-J' + o, '-I' + o] + fl + [src, '-o', o + '/m0.o'], cwd=o, ok=(0,))
                c.sh(['objcopy', '--redefine-sym', 'main=mc_f_main', o + '/m0.o', o + '/m.o'], ok=(0,))
                c.sh(['gfortran', '-c', '-J' + o, '-I' + o] + fl + [os.path.join(H, 'matmult_f.f90'), '-o', o + '/w.o'], cwd=o, ok=(0,))
                objs = [o + '/m.o', o + '/w.o']
            else:
                objs, defs = fortran_objects(c, n[:-4], fl, sub='dc' + tag, src=src), defs + ['-DSOLVER', '-DFORTRAN']
            c.sh(CXX + defs + ['-c', os.path.join(H, 'h_doconc.cpp'), '-o', o + '/h.o'] + (ASAN if tag == 'order' else []), ok=(0,))
            c.sh(['g++'] + link + [o + '/h.o'] + objs + ['-lgfortran', '-o', exe], ok=(0,))
            c.harness(exe, args=['--mode', tag], label=n, env=ASAN_ENV)
    c.stat('loops', loops)
    c.bounds.append('all permutations of up to 7 (8 thorough; 6 and 7 for the product) iterations, all pairs of permutations of up to 4 for consecutive steps; rotations, reversals, strides, single iterations moved, swaps and blocks of 2-16 threads in turns up to 210 iterations; grids of 1-3 dimensions, all signs of the velocity, 2-3 steps; matrices up to 5x5x5 and 3 larger ones')
    c.assumptions.append('do concurrent is restated as a loop in a given order (doconc.py), bodies unchanged; iterations do not overlap in time: that none uses what another defines is observed at every memory access of the compiled code, except by the run-time library and to memory allocated in the loop')

# ---------------------------------------------------------------- C25
@check('C25')
def c25(c):
    d = c.path('cython'); os.makedirs(d)
    shutil.copy(repo('upwind', 'cython', 'upwind5.pyx'), d)
    for p in ('/usr/bin/python3', VENV_PY, sys.executable):
        rc, out, err = c.sh([p, '-c', 'import numpy, sysconfig; print(numpy.get_include()); print(sysconfig.get_paths()["include"]); print(sysconfig.get_config_var("EXT_SUFFIX"))'])
        inc = out.split()
        if rc == 0 and len(inc) == 3 and os.path.exists(os.path.join(inc[1], 'Python.h')):
            break
    else:
        raise CheckError('no python with numpy and headers')
    exe = shutil.which('cython3') or shutil.which('cython')
    if not exe:
        raise CheckError('no Cython')
    c.sh([exe, '-3', 'upwind5.pyx'], cwd=d, ok=(0,))
    c.sh(['gcc', '-O1', '-g', '-w', '-shared', '-fPIC', '-I' + inc[0], '-I' + inc[1], 'upwind5.c', '-o', 'upwind5' + inc[2]], cwd=d, ok=(0,))
    for mode in ('formula', 'stats', 'vtk'):
        c.harness([p, '-B', os.path.join(MC, 'py', 'h_solver.py'), '--repo', REPO, '--cython', d], args=['--mode', mode], label='upwind5.pyx ' + mode, cwd_each=True,
                  env={'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1'})
    c.bounds.append(SOLVER_BOUNDS.replace('4 ways of splitting 5 steps', '5 steps') + '; for the files 1-D up to 12, 2-D up to 5x5, 3-D up to 3x3x3 cells')

# ---------------------------------------------------------------- C26
@check('C26')
def c26(c):
    progs_ = MPI_PROGS[:2]
    exe, so = mpi_build(c, False, filt=False, programs=progs_)
    for p in progs_:
        n = os.path.basename(p)
        mpi_run(c, exe, so[n], 'prog', n, '--prog', n, '--purpose', 'time')
    c.harness([py('numpy', 'mpinum'), '-B', os.path.join(MC, 'py', 'h_pympi.py'), '--repo', REPO], args=['--mode', 'time'], label='upwindMPI.py', cwd_each=True, env={'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1'}, timeout=850)
    c.bounds.append('the command lines of C18 (C++) and 1-8 (12) processes with 1-6 cells per axis and 0-5 steps (Python), every process with a clock of its own speed that advances with its MPI calls, the schedules of C18 and C19')
    c.assumptions += MPI_ASSUME

def mem_mpi_build(c, programs):
    """The explorer that also counts the memory in use, without what MPI itself needs."""
    names = sorted(set(re.findall(r'\b(MPI_[A-Z][a-z]\w*)\s*\(', open(os.path.join(RT, 'mpi', 'mpi.h')).read())))
    with open(c.path('mem_mpi.h'), 'w') as f:
        f.write('#pragma once\n#include <mpi.h>\nextern "C" { void mc_mem_in(); void mc_mem_out(); }\ntemplate <class T> T mc_mem_ret(T x) { mc_mem_out(); return x; }\n')
        f.write(''.join('#define %s(...) (mc_mem_in(), mc_mem_ret(%s(__VA_ARGS__)))\n' % (n, n) for n in names))
    return mpi_build(c, False, programs=programs, extra=['-DMEMCOUNT'], code=['-include', c.path('mem_mpi.h')])

# ---------------------------------------------------------------- C27
@check('C27')
def c27(c):
    # solvers and library
    jobs = []
    with ThreadPoolExecutor(NCPU) as ex:
        def cxx(n, only3d):
            exe = c.path('mem_' + n)
            c.sh(CXX + ['-w', '-I' + repo('upwind', 'cxx'), '-DSRC="%s"' % repo('upwind', 'cxx', n + '.cxx')] + (['-DONLY3D'] if only3d else []) + [os.path.join(H, 'h_mem.cpp')] + lib('CmdLineArgParser') + ['-o', exe], ok=(0,))
            return exe
        def fortran(n):
            exe = c.path('mem_f_' + n)
            c.sh(CXX + ['-DFORTRAN', os.path.join(H, 'h_mem.cpp')] + fortran_objects(c, n, [], sub='memf') + ['-lgfortran', '-o', exe], ok=(0,))
            return exe
        def library():
            exe = c.path('mem_lib')
            c.sh(CXX + ['-DLIB', os.path.join(H, 'h_mem.cpp')] + lib('CmdLineArgParser', 'CubeDecomp', 'MultiArrayIter') + ['-o', exe], ok=(0,))
            return exe
        jobs = [(n + '.cxx', ex.submit(cxx, n, o)) for n, o in CXX_SOLVERS] + [(n + '.F90', ex.submit(fortran, n)) for n in F_SOLVERS] + [('library', ex.submit(library))]
        jobs = [(n, j.result()) for n, j in jobs]
    for n, exe in jobs:
        c.harness(exe, label=n, cwd_each=True)
    # the distributed field and the MPI program that takes steps
    exe, so = mem_mpi_build(c, MPI_PROGS[:1])
    mpi_run(c, exe, so['filter'], 'mem', 'filter')
    mpi_run(c, exe, so['upwindMpi'], 'memprog', 'upwindMpi')
    c.bounds.append('solvers: every sequence of 3 (4 thorough) operations out of 7 on 7 grids, repeated 20 times on one object, on new objects and on pairs of objects, up to 400 steps at once; iterator, decomposition and parser: boxes up to 6x6 / 3x3x3x3, 1-12 (24) processes with grids up to 12 / 6x6 / 4x4x4, argument lists of up to 4 (5) out of 9; distributed field: every sequence of 3 (4) operations out of 7 on 6 process grids, repeated 8 times; upwindMpi with 2, 3, 40 and 600 steps on 1-8 processes')
    c.assumptions += MPI_ASSUME + ['memory is what the process obtains through the allocation functions of the C library; for the MPI programs what they obtain themselves, not inside MPI']

@check('C28')
def c28(c):
    for n, exe in omp_build(c, [('upwind', False), ('upwindOMPTasks', False)], ['upwind', 'upwindF03', 'upwindF08Gpu']):
        c.harness(exe, args=['--mode', 'share'], label=n, cwd_each=True)
    defs = ['-D_THREADS_PER_TEAM=32', '-D_TEAMS=128', '-foffload=disable']
    for n, exe in omp_build(c, [('upwindOMP5', True)], ['upwindF08Gpu'], ['-fopenmp', '-DHAVE_OPENMP', '-DHAVE_OPENMP_OFFLOAD'] + defs, 'off'):
        c.harness(exe, args=['--mode', 'devshare'], label=n + ' (device)', cwd_each=True)
    exe, so = mem_mpi_build(c, MPI_PROGS[:2])
    mpi_run(c, exe, so['filter'], 'share', 'filter')
    for n in ('upwindMpi', 'laplacian'):
        mpi_run(c, exe, so[n], 'shareprog', n, '--prog', n)
    c.bounds.append('OpenMP and offload (OpenMP) solvers: every grid whose axes are multiples of the number of threads, up to 8 (16) x / 4x4 (6x6) x / 2x2x2 x that number and 9000 (40000) cells, 1-16 (32) threads, 1-4 teams on a device, 1 and 3 steps, four schedules in which the threads take turns; filter: 1-D grids up to 32 (64), 2-D up to 12x12, 3-D up to 4x4x8 and four of 65536-131072 cells, 1-8 and 16 processes, two histories and eight schedules; upwindMpi and laplacian on 1-16 processes')
    c.assumptions += OMP_ASSUME[:1] + MPI_ASSUME + ['the work of a thread is counted in accesses to memory of the code compiled without optimisation', 'OpenACC: how iterations are shared is up to the compiler, so only the data they use is checked (C22)']

# ---------------------------------------------------------------- C29
UBSAN = ASAN + ['-fsanitize=undefined,float-cast-overflow', '-fno-sanitize=vptr', '-fno-sanitize-recover=all', '-D_GLIBCXX_DEBUG', '-w']
FUB = ASAN + ['-fsanitize=undefined', '-fno-sanitize-recover=all', '-fcheck=bounds,do,mem,pointer,recursion']
UB_ENV = dict(ASAN_ENV, UBSAN_OPTIONS='halt_on_error=1:print_stacktrace=1')
@check('C29')
def c29(c):
    T = c.thorough
    up = ['-I' + repo('upwind', 'cxx')]
    def cxx(name, src, *more):
        exe = c.path('ub_' + name)
        c.sh(CXX + UBSAN + list(src) + list(more) + ['-o', exe], ok=(0,))
        return exe
    def fortran(n):
        exe = c.path('ub_f_' + n)
        c.sh(CXX + UBSAN + ['-DFORTRAN', os.path.join(H, 'h_solver.cpp')] + fortran_objects(c, n, FUB, sub='ubf') + ['-lgfortran', '-o', exe], ok=(0,))
        return exe
    def fprog(n, src):
        exe = c.path('ub_p_' + n + '_f')
        os.makedirs(exe + '.d')
        c.sh(['gfortran', '-cpp', '-g', '-O1'] + FINIT + FUB + ['-J' + exe + '.d', src, '-o', exe], ok=(0,))
        return exe
    with ThreadPoolExecutor(NCPU + 1) as ex:
        dist = ex.submit(mpi_build, c, True, programs=MPI_PROGS, extra=UBSAN, code=UBSAN, link=UBSAN)
        h = lambda n: os.path.join(H, n + '.cpp')
        J = [('iterator', [], ex.submit(cxx, 'iter', [h('h_iter')], *lib('MultiArrayIter')))]
        J += [('parser', [], ex.submit(cxx, 'args', [h('h_args')], *lib('CmdLineArgParser')))]
        d = ex.submit(cxx, 'decomp', [h('h_decomp')], *lib('MultiArrayIter', 'CubeDecomp'))
        J += [('decomposition', ['--mode', 'tile'], d), ('neighbours', ['--mode', 'neighbor', '--reach', '1'], d)]
        for n, o in CXX_SOLVERS:
            e = ex.submit(cxx, n, up + ['-DSRC="%s"' % repo('upwind', 'cxx', n + '.cxx')] + (['-DONLY3D'] if o else []) + [h('h_solver')], *lib('CmdLineArgParser'))
            J += [(n + '.cxx ' + m, ['--mode', m], e) for m in ('formula', 'stats', 'vtk')]
        for n in F_SOLVERS:
            e = ex.submit(fortran, n)
            J += [(n + '.F90 ' + m, ['--mode', m], e) for m in ('formula', 'stats', 'vtk')]
        P = [(n + '.cxx', False, ex.submit(cxx, 'p_' + n, up + [repo('upwind', 'cxx', n + '.cxx')], *lib('CmdLineArgParser'))) for n, _ in CXX_SOLVERS]
        P += [(n + '.F90', True, ex.submit(fprog, n, repo('upwind', 'fortran', n + '.F90'))) for n in F_SOLVERS]
        P += [('matmult.F90', True, ex.submit(fprog, 'matmult', repo('matmult', 'fortran', 'matmult.F90')))]
        P += [(n + '.cxx', None, ex.submit(cxx, 'p_' + n, [repo('laplacian', 'cxx', n + '.cxx')], *lib('CmdLineArgParser', 'CubeDecomp', 'MultiArrayIter'))) for n in ('testCubeDecomp', 'testMultiArrayIter')]
        J = [(n, a, e.result()) for n, a, e in J]
        P = [(n, f, e.result()) for n, f, e in P]
    for n, a, exe in J:
        c.harness(exe, args=a, env=UB_ENV, label=n, cwd_each=True, ub=True)
    # whole programs: every sequence of up to 3 arguments
    for n, f, exe in P:
        if f is None: toks, k = [[]], 0
        elif f: toks, k = ['1', '3', '0012', 'vtk', '2'], 3
        else: toks, k = ['-numCells', '3', '-numSteps', '2', '-vtk', '-std', '-h', '-nope', '1.5', ''], 3 + T
        cases = [(' '.join(map(repr, a)), list(a)) for j in range(k + 1) for a in itertools.product(toks, repeat=j)]
        # at least one cell; the default of 128 cells per axis is covered once
        if f is False:
            def cells(a):
                if a.count('-h') % 2 or '-nope' in a or ('-std' in a and n == 'upwindAcc.cxx'): return 3
                v = [y for x, y in zip(a, a[1:]) if x == '-numCells']
                return 0 if not v or v[-1] not in ('3', '2', '1.5') else 3
            cases = [(d, a) for d, a in cases if cells(a)] + [("'-numSteps' '1'", ['-numSteps', '1'])]
        elif f and n != 'matmult.F90':
            cases = [(d, a) for d, a in cases if not a or a[0] != 'vtk']
        def run(a, cwd, exe=exe):
            rc, out, err = c.sh([exe] + a, cwd=cwd, timeout=200, env=UB_ENV)
            m = UNDEFINED.search(err)
            assert not m and rc not in (99, -4, -7, -8, -11), 'undefined behaviour: ' + (err[m.start():][:300] if m else 'status %s' % rc)
        progs.run_cases(c, n + ' program', cases, run)
    # distributed
    exe, so = dist.result()
    env = dict(MPI_ENV, UBSAN_OPTIONS='halt_on_error=1')
    for m, each in ('hist', 13), ('vtk', 3), ('res', 3):
        mpi_run(c, exe, so['filter'], m, 'filter ' + m, '--each', '1' if T else str(each), env=env, ub=True)
    mpi_run(c, exe, so['filter'], 'apply', 'filter apply', '--each', '1' if T else '7', env=env, ub=True)
    for p in MPI_PROGS:
        n = os.path.basename(p)
        mpi_run(c, exe, so[n], 'prog', n, '--prog', n, '--purpose', 'res', '--each', '1' if T else '9', env=env, ub=True)
    c.bounds.append('the spaces of C01, C02, C05, C15 (solvers), C06, C07, C09 (one neighbour away), C16; every 13th case of C11, every 3rd of C13 and C14, every 9th command line of C13, every 7th of C10 (thorough: all); every sequence of up to 3 (C++: 4 thorough) arguments out of 5 (10) for the programs')
    c.assumptions += MPI_ASSUME[1:] + ['undefined behaviour is what AddressSanitizer, UndefinedBehaviorSanitizer, the debug mode of libstdc++ and the run-time checks of gfortran detect; data races are left to C04, C12 and C22']

# ---------------------------------------------------------------- C30
@check('C30')
def c30(c):
    exe, so = mpi_build(c, False)
    mpi_run(c, exe, so['filter'], 'halo', 'filter')
    c.bounds.append('every 3rd (thorough: every) grid, number of processes and stencil of C10, one history each; every sequence of 4 (5) operations out of set (4 functions), apply, copy and look on 7 process grids; every side of the stencil, data of the process next door and of the next rank; 4 base schedules, small cases with every execution that departs at most once (2) from them')
    c.assumptions += MPI_ASSUME
