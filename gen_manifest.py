#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
BOUND = 'Exhaustive within the stated bounds (evidence: coverage.bounds), on the real code; nothing is claimed beyond them. '
CH = {
 'C01': ('bounded exhaustive exploration of solver behaviours (grid x velocity x time step x call sequence), real C++ code against a reference transition system', BOUND + 'Trusts the reference scheme (h/upref.h), AddressSanitizer for memory errors and tolerance 1e-12.'),
 'C02': ('bounded exhaustive exploration of solver behaviours, real Fortran code against a reference transition system', BOUND + 'Trusts the reference scheme, the C interface in h/solver_f.f90, AddressSanitizer and bounds checks.'),
 'C03': ('bounded exhaustive exploration of solver behaviours, real Python code against a reference transition system', BOUND + 'Trusts numpy and the reference in py/h_solver.py.'),
 'C05': ('bounded exhaustive exploration of solver behaviours with the invariants (total, bounds, statistics) checked in every state', BOUND + 'Tolerance 1e-12 on sums and 1e-13 on bounds.'),
 'C06': ('explicit-state exploration of all operation sequences on the real iterator against a position model', BOUND),
 'C07': ('bounded exhaustive enumeration of process counts, grids and query orders on the real decomposition', BOUND),
 'C08': ('bounded exhaustive enumeration against a brute-force search over all processor grids', BOUND),
 'C09': ('bounded exhaustive enumeration of ranks and directions on the real decomposition', BOUND),
 'C10': ('exhaustive enumeration of grids, process counts and stencils on the real filter under a controlled MPI runtime, against a single-array model', BOUND + 'Trusts the MPI runtime rt/mpirt.cpp; schedules beyond two per case are decided by C12.'),
 'C11': ('exhaustive enumeration of operation histories up to a depth on the real filter under a controlled MPI runtime, against a single-array model', BOUND + 'Trusts the MPI runtime rt/mpirt.cpp.'),
 'C12': ('stateless exploration of process interleavings, synchronisation and transfer moments with bounded deviations, real filter under a controlled MPI runtime', BOUND + 'Trusts the MPI runtime rt/mpirt.cpp; scheduling points at MPI calls, data races by epoch rules.'),
 'C13': ('stateless exploration of the real filter and MPI programs under a controlled MPI runtime that tracks every window, allocation and collective call', BOUND + 'Trusts the MPI runtime rt/mpirt.cpp.'),
 'C14': ('bounded exhaustive exploration of grids and process counts under a controlled MPI runtime, every written file read back and compared with the field', BOUND + 'Trusts the strict VTK reader h/vtk.h.'),
 'C18': ('exhaustive enumeration of command lines and process counts with deviation-bounded schedules, real programs under a controlled MPI runtime, against a reference', BOUND + 'Trusts the MPI runtime rt/mpirt.cpp.'),
 'C15': ('bounded exhaustive exploration of solver behaviours, every written file read back and compared with the state', BOUND + 'Trusts the strict VTK readers h/vtk.h and py/vtk.py.'),
 'C16': ('exhaustive enumeration of argument sequences up to a length on the real parser against a model', BOUND),
 'C17': ('exhaustive enumeration of command lines of a bounded grammar on the compiled programs against a reference', BOUND + 'One thread schedule per run; schedules are decided by C04.'),
 'C19': ('stateless exploration of process interleavings and transfer moments with bounded departures, and bounded exhaustive enumeration of grids, process counts and histories, real Python code under a controlled stand-in for mpi4py, against a reference', BOUND + 'Trusts the stand-in py/fakempi.py, numpy and mpinum as installed.'),
 'C20': ('bounded exhaustive enumeration of shapes and contents on the real Fortran routines, and of command lines on the program', BOUND + 'do concurrent as gfortran runs it, in order; other orders are decided by C24.'),
 'C04': ('stateless exploration of thread interleavings of the real solvers under a controlled OpenMP runtime, switching at OpenMP calls, racing accesses and all accesses to shared memory, with bounded departures', BOUND + 'Trusts the OpenMP runtime rt/omprt.cpp (42 controls run with every check); sequentially consistent memory, code compiled without optimisation.'),
 'C21': ('stateless exploration of thread interleavings of the whole programs under a controlled OpenMP runtime with bounded departures', BOUND + 'Trusts the OpenMP runtime rt/omprt.cpp; output calls are atomic.'),
 'C22': ('stateless exploration of the offloaded loops under a controlled OpenMP/OpenACC runtime with a separate, initially undefined device memory, deferred transfers and concurrent iterations, with bounded departures', BOUND + 'Trusts the runtime rt/omprt.cpp and, for concurrent OpenACC iterations, the restatement of the directives in OpenMP (mc/acc2omp.py).'),
 'C24': ('exhaustive exploration of the orders of iterations of the real loops (all permutations up to a size), with the accesses of every iteration monitored, against a reference', BOUND + 'Trusts the restatement of do concurrent as a loop in a given order (mc/doconc.py, bodies unchanged); iterations are atomic: that they do not interfere is monitored at every access the compiled code makes.'),
 'C25': ('bounded exhaustive exploration of solver behaviours and operation sequences, real Cython code compiled for Python 3, against a reference transition system', BOUND + 'Trusts numpy, Cython, the reference in py/h_solver.py and the strict VTK reader py/vtk.py.'),
 'C26': ('exhaustive enumeration of command lines, process counts and steps with deviation-bounded schedules and clocks of different speeds, real programs under a controlled MPI runtime, against the recorded clock readings', BOUND + 'Trusts the MPI runtime rt/mpirt.cpp and the stand-in py/fakempi.py; programs that do not use the clock of MPI are not judged.'),
 'C27': ('bounded exhaustive exploration of operation sequences and object lifetimes on the real code, with the invariant that memory in use recurs checked after every repetition', BOUND + 'Memory is what the process obtains through the allocation functions of the C library (and MPI_Alloc_mem of the controlled MPI runtime).'),
 'C28': ('exhaustive enumeration of grids, thread, team and process counts and turn-taking schedules on the real code under controlled OpenMP and MPI runtimes that count the accesses of each thread and the data of each process', BOUND + 'Trusts the runtimes rt/omprt.cpp and rt/mpirt.cpp; the work of a thread is counted in memory accesses of the unoptimised code; OpenACC variants are not judged (the compiler decides).'),
 'C29': ('bounded exhaustive exploration of inputs, operation sequences, process counts and command lines on the real code, every execution monitored for undefined behaviour (AddressSanitizer, UndefinedBehaviorSanitizer, checked containers, Fortran run-time checks)', BOUND + 'Undefined behaviour is what these monitors detect; data races are decided by C04, C12 and C22.'),
 'C30': ('bounded exhaustive exploration of stencils, grids, process counts and operation sequences with deviation-bounded schedules on the real filter under a controlled MPI runtime, against a single-array model', BOUND + 'Trusts the MPI runtime rt/mpirt.cpp; the boundaries of the sub-domains are those CubeDecomp gives (C07).'),
}
NA = {
 'C23': 'No Julia interpreter is installed, so the implementation cannot be executed.',
}
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': 'true', 'checks': [], 'not_applicable': []}
for p in props:
    if p in CH:
        m['checks'].append({'property': p, 'quick_cmd': 'python3 mc/check.py %s --tier quick' % p, 'thorough_cmd': 'python3 mc/check.py %s --tier thorough' % p,
                            'technique': 'model checking: ' + CH[p][0], 'level': 'model_checking', 'level_note': CH[p][1]})
    else:
        m['not_applicable'].append({'property': p, 'reason': NA.get(p, 'Not claimed yet: its check is being built.')})
m['notes'] = 'No hooks in /repo: the checks compile the sources as they are. See DESIGN.md; known_findings.txt lists repaired defects.'
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
