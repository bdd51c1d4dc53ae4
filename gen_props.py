#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text is easy to review)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
            mechanism=[dict(name=a, where=b) for a, b in mechanism],
            observe_at=observe or [], hook_needed=hook)))

UC = "upwind/cxx/"
p("C01", "C++ upwind solvers follow the upwind formula on every grid",
  "For every 3-D grid shape (equal or unequal cell counts, including 1 cell on an axis, as long as a default integer can count the cells), every velocity (any sign per axis), domain lengths, time step and number of steps, each C++ solver (upwind, upwindOMPTasks, upwindAcc, upwindAcc2, upwindOMP5), starting from a unit pulse in the lowest cell, produces the field of the first-order upwind scheme: every cell changes by the sum over axes of Courant number times (upwind neighbour minus itself), all taken from the previous step, with periodic wrap-around on every axis. The solvers written for a general number of dimensions (upwind, upwindOMPTasks) do so in 1, 2 and 3 dimensions. Advancing by several steps at once equals advancing one step at a time, and no memory outside the solver's arrays is touched.",
  ["inputs", "configurations", "histories"],
  "all grid shapes, velocity sign patterns, Courant numbers, step counts and ways of splitting the steps into calls",
  "The tests run one cubic grid with velocity (1,1,1) and look only at the first character of the check sum, which is 1 for many wrong schemes; unequal shapes, negative velocities and the field itself are never looked at.",
  [UC+"upwind.cxx", UC+"upwindOMPTasks.cxx", UC+"upwindAcc.cxx", UC+"upwindAcc2.cxx", UC+"upwindOMP5.cxx", UC+"compute_index_set.h", UC+"compute_flat_index_offset_x.h", UC+"compute_flat_index_offset_y.h", UC+"compute_flat_index_offset_z.h"],
  [("Upwind::advect", UC+"upwind.cxx"), ("flat index <-> index set, last index fastest", UC+"upwind.cxx getIndexSet/getFlatIndex, compute_*.h"), ("upwind direction from the velocity sign", UC+"upwind.cxx constructor")],
  [("f, oldF", "field after / before the step", UC+"upwind.cxx")], ["Upwind::print", "Upwind::saveVTK", "program output"])
UF = "upwind/fortran/"
p("C02", "Fortran upwind solvers follow the upwind formula on every grid",
  "For every number of dimensions (1 to 3), grid shape (as long as a default integer can count the cells), velocity (any sign per axis), domain lengths, time step and number of steps, each Fortran solver (upwind, upwindF03, upwindF08, upwindF08Gpu), starting from a unit pulse in the lowest cell, produces the field of the first-order upwind scheme with periodic wrap-around on every axis. Several solver objects may exist one after the other or side by side without influencing each other, and no memory outside the solver's arrays is touched.",
  ["inputs", "configurations", "histories"],
  "all dimensions, grid shapes, velocity sign patterns, Courant numbers and step counts",
  "The tests run one 32^3 grid with velocity (1,1,1) for 10 steps and match only the first character of the check sum.",
  [UF+"upwind.F90", UF+"upwindF03.F90", UF+"upwindF08.F90", UF+"upwindF08Gpu.F90"],
  [("upwind_advect", UF+"upwind.F90 and the other three"), ("getIndexSet / getFlatIndex", UF+"*.F90"), ("upwind_new", UF+"*.F90")],
  [("f, oldF", "field after / before the step", UF+"*.F90")], ["field component of the solver object", "saveVTK"])
p("C03", "Python upwind solver follows the upwind formula on every grid",
  "For every number of dimensions (1 to 3), grid shape (as long as a default integer can count the cells), velocity (any sign per axis), domain lengths, time step and number of steps, the Python solver (upwind.py), starting from a unit pulse in the lowest cell, produces the field of the first-order upwind scheme with periodic wrap-around on every axis.",
  ["inputs", "configurations", "histories"],
  "all dimensions, grid shapes, velocity sign patterns, Courant numbers and step counts",
  "The test runs one 32^3 grid with velocity (1,1,1) and matches only the first character of the check sum.",
  ["upwind/python/upwind.py"],
  [("Upwind.advect with precomputed index sets", "upwind/python/upwind.py")], [("f", "flat field, last index fastest", "upwind/python/upwind.py")], ["f, checksum()"])
p("C04", "OpenMP solvers give the same field for every thread count and interleaving",
  "For every number of OpenMP threads, including more threads than cells, every assignment of loop iterations to threads the program allows and every interleaving of the threads' memory accesses, the OpenMP solvers (C++ upwind and upwindOMPTasks; Fortran upwind, upwindF03, upwindF08Gpu) produce the same field as with one thread. No schedule deadlocks.",
  ["schedules", "inputs", "configurations"],
  "all team sizes, interleavings at memory-access granularity, grid shapes and step counts",
  "The tests run 1, 2, 4 and 8 threads once each under whatever schedule the machine picks and look at the first character of the check sum.",
  [UC+"upwind.cxx", UC+"upwindOMPTasks.cxx", UF+"upwind.F90", UF+"upwindF03.F90", UF+"upwindF08Gpu.F90"],
  [("implicit barriers between the copy loop and the update loop", UC+"upwind.cxx advect"), ("PRIVATE clauses of the parallel loops", UF+"upwind.F90, upwindF03.F90, upwindF08Gpu.F90")],
  [("oldF / f", "arrays shared by the team", UC+"upwind.cxx")], ["field after advect"])
p("C05", "Total is conserved, field stays within bounds, statistics are truthful",
  "In every upwind solver (C++, Fortran, Python) and for every configuration, the sum of the field stays 1 after any number of steps, and when the Courant numbers add up to at most 1 every cell stays between 0 and 1. The reported check sum is the sum over all cells of the current field, and the reported spread (std) is the population standard deviation of the current field, whatever the number of threads and their schedule.",
  ["inputs", "configurations", "histories"],
  "all grid shapes, velocities, Courant numbers up to 1 and step counts",
  "A check sum is printed, but the tests accept any text starting with 1, 0, 9, '.' or '|', at one grid size; the spread is never looked at.",
  [UC+"upwind.cxx", UC+"upwindAcc.cxx", UC+"upwindAcc2.cxx", UC+"upwindOMPTasks.cxx", UC+"upwindOMP5.cxx", UF+"upwind.F90", "upwind/python/upwind.py"],
  [("flux form of the update", "advect in every solver"), ("checksum / std", UC+"upwind.cxx")], None, ["checksum", "std", "print"])
p("C06", "Multi-dimensional iterator visits every index set exactly once, in order",
  "For every box of indices (any number of dimensions from 1, any low and high ends with at least one cell per axis) and both storage orders, the iterator reports the number of cells in the box, visits every index set in the box exactly once in storage order (last axis fastest for row major, first axis fastest for column major), and can be rewound and moved to any position. Computing the flat position of the index set at position k gives k, for signed and unsigned index types.",
  ["inputs", "histories"],
  "all boxes, storage orders and sequences of begin/next/move",
  "The only driver (testMultiArrayIter) prints one box and is not registered as a test.",
  ["cxx/MultiArrayIter.h", "cxx/MultiArrayIter.cpp"],
  [("strides from the extents", "cxx/MultiArrayIter.cpp build"), ("getIndices / computeBigIndex", "cxx/MultiArrayIter.h")],
  [("big index", "position of the iterator", "cxx/MultiArrayIter.h")], ["getIndices", "computeBigIndex", "getNumberOfTerms"])
p("C07", "Domain decomposition tiles the grid exactly",
  "For every process count and every global grid, whenever a decomposition is reported valid, the number of sub-domains equals the process count, the boxes [begin, end) of the ranks are all of equal shape, do not overlap and together cover every cell of the grid exactly once. Ranks are laid out in row-major order over the processor grid, and asking about one rank never changes the answer for another.",
  ["inputs", "configurations", "histories"],
  "all process counts, grid shapes and query orders",
  "The only driver (testCubeDecomp) prints three cases and is not registered as a test; the MPI tests use 4 processes on 32-cell cubes.",
  ["cxx/CubeDecomp.h", "cxx/CubeDecomp.cpp"],
  [("divisor enumeration", "cxx/CubeDecomp.cpp computeOptimalDecomp, getPrimeFactors"), ("getBegIndices / getEndIndices", "cxx/CubeDecomp.cpp")],
  [("decomp, local dims", "processor grid, sub-domain shape", "cxx/CubeDecomp.h")], ["getDecomp", "getBegIndices", "getEndIndices"])
p("C08", "Decomposition is found whenever one exists and has minimal surface/volume",
  "For every process count and every global grid, a decomposition is reported valid exactly when some processor grid of that many processes divides the grid evenly on every axis. The decomposition returned minimises the ratio of sub-domain surface to sub-domain volume among all such processor grids.",
  ["inputs", "configurations"],
  "all process counts and grid shapes",
  "No test looks at which decomposition is chosen.",
  ["cxx/CubeDecomp.cpp"],
  [("search over all divisor combinations with a cost", "cxx/CubeDecomp.cpp computeOptimalDecomp, computeCost")], None, ["build", "getDecomp"])
p("C09", "Neighbour ranks wrap periodically and are always valid ranks",
  "For every valid decomposition, rank and displacement vector (any size, positive, negative or zero per axis), the neighbour is the rank whose position in the processor grid is the displaced position wrapped periodically on every axis. It is therefore always a valid rank, the zero displacement gives the rank itself, and displacing back returns to the start.",
  ["inputs", "configurations"],
  "all decompositions, ranks and displacement vectors",
  "testCubeDecomp prints unit displacements for three cases and checks nothing; the MPI tests use unit displacements only.",
  ["cxx/CubeDecomp.cpp"],
  [("getNeighborRank", "cxx/CubeDecomp.cpp")], None, ["getNeighborRank"])
p("C10", "Distributed stencil equals the serial periodic stencil on any process grid",
  "For every number of processes with a valid decomposition, every grid shape (any cell counts, not only powers of two) in 1 to 3 dimensions and every stencil of offsets along the axes whose reach fits in a sub-domain (any mix of reaches, signs and weights, several offsets on the same side included), applying the filter gives in every cell the weighted sum of the periodically displaced input cells, exactly as on one process. This stays true for repeated application, and no memory outside the field and halo buffers is touched.",
  ["configurations", "inputs", "histories"],
  "all process counts, grid shapes, axis-aligned stencils and numbers of applications",
  "The tests use 4 processes on 32-cell (power of two) grids with reach-1 stencils and compare no numbers at all (text 'Check sums:' or exit code only).",
  ["cxx/Filter.cpp", "cxx/Filter.h", "cxx/CubeDecomp.cpp", "cxx/MultiArrayIter.h"],
  [("applyFilter: local part and halo part", "cxx/Filter.cpp"), ("halo windows sized by the stencil's reach per side", "cxx/Filter.cpp constructor, newWindow, getWindowIter"), ("periodic wrap of global indices", "cxx/Filter.cpp applyFilter")],
  [("inData, outData, window buffers", "field before/after, exposed halo copies", "cxx/Filter.h")], ["printOutData", "computeCheckSum", "saveVTK"])
p("C11", "Any history of operations on a distributed field matches a serial model",
  "For every sequence of operations on a distributed filter that starts by setting the input (set the input from positions, set it from indices, apply, copy output to input, compute input and output check sums, look up a cell position), on any process count, the input, output and check sums are those of a single-array model: setting the input replaces it everywhere including what neighbours see, applying changes only the output and may be repeated with the same result, copying makes the output the new input everywhere, check sums on the root are the sums over all cells of all ranks, and positions are cell centres. Queries change nothing. Several fields can be alive at a time, on the same or on other grids, and be created and destroyed in any order (the same on all ranks) without affecting each other.",
  ["histories", "configurations"],
  "all operation sequences up to a depth, process counts and grids",
  "The tests run one fixed sequence per program and check no values.",
  ["cxx/Filter.cpp"],
  [("setInData / setInDataByIndices refresh the exposed halo copies", "cxx/Filter.cpp"), ("copyOutToIn", "cxx/Filter.cpp"), ("computeCheckSum", "cxx/Filter.cpp")],
  [("inData/outData/winData", "field and halo copies", "cxx/Filter.h")], ["printInData", "printOutData", "computeCheckSum"])
p("C12", "Halo exchange is correct under every schedule MPI allows",
  "For every order in which the processes run and every moment at which MPI is allowed to carry out a one-sided transfer, the distributed filter terminates without deadlock and gives the same field. No process modifies data it has exposed, or reads or writes a buffer being filled, while a transfer may still touch it, and every synchronisation call is consistent across processes with the assertions it makes.",
  ["schedules", "configurations"],
  "all process interleavings and transfer times the MPI standard allows",
  "A test run sees one schedule of one MPI library, where transfers complete inside the fences whatever the code asserts.",
  ["cxx/Filter.cpp"],
  [("fence - get - fence per window", "cxx/Filter.cpp fetch"), ("exposed copies only written between epochs", "cxx/Filter.cpp copyOutToIn, setInData*")],
  [("windows", "one MPI window per stencil side", "cxx/Filter.h")], ["MPI calls made", "printOutData"])
p("C13", "MPI resources are released properly and every run terminates cleanly",
  "On every path through the MPI programs and the filter (valid and invalid decompositions, help, wrong options, any stencil), every process makes the same collective calls in the same order, reaches MPI_Finalize, frees every window and every MPI allocation exactly once, and keeps memory exposed through a window alive until that window is freed. When no valid decomposition exists this is reported, nothing is computed and all processes still finish normally.",
  ["configurations", "histories", "schedules"],
  "all process counts, grids, stencils and command lines",
  "The tests never run an invalid decomposition, help or a wrong option, and leaks or early frees go unnoticed in a short run.",
  ["cxx/Filter.cpp", "laplacian/cxx/laplacian.cxx", "laplacian/cxx/testStencil2d.cxx", "upwind/cxx/upwindMpi.cxx"],
  [("destructor frees windows", "cxx/Filter.cpp ~Filter, deleteWindow"), ("isDecompValid guards", "laplacian.cxx, upwindMpi.cxx")],
  [("windows, winData", "live windows and MPI memory", "cxx/Filter.h")], ["MPI calls made", "exit status", "error text"])
p("C14", "Parallel VTK output holds the global field, each value in its cell",
  "For every process count, grid in 1 to 3 dimensions and domain box, the VTK file written for a distributed or global field declares the right numbers of points and cells, places the points on the uniform grid of the domain box, and lists every cell's value exactly once in the order of the declared grid (first axis fastest), independent of the decomposition. The file holds nothing else, also when a file of that name existed before. A field in more than 3 dimensions is refused with a warning.",
  ["configurations", "inputs"],
  "all process counts, grid shapes, domain boxes and field values",
  "No test writes or reads a VTK file.",
  ["cxx/Filter.cpp", "cxx/writeVTK.cpp"],
  [("gather and reassemble by rank box", "cxx/Filter.cpp saveVTK"), ("writeVTK", "cxx/writeVTK.cpp")], None, ["file contents"])
p("C15", "Solver VTK files are well formed and hold the field, axes matching",
  "For every grid shape, domain lengths and field, the VTK file written by the C++, Fortran and Python upwind solvers is a well-formed rectilinear grid: the declared dimensions equal the lengths of the three coordinate lists, each coordinate list is the uniform axis it stands for (the fastest-varying axis of the field is X), and the values are separate numbers, one per cell, in storage order. The file holds nothing else, also when a file of that name existed before, and reading it back gives the field to the printed precision.",
  ["inputs", "configurations"],
  "all grid shapes (cubic or not), domain lengths and fields, in every implementation",
  "No test writes or reads a VTK file.",
  [UC+"saveVTK.h", UF+"upwind.F90", UF+"upwindF03.F90", UF+"upwindF08.F90", UF+"upwindF08Gpu.F90", "upwind/python/saveVTK.py", "upwind/python/upwind.py"],
  [("saveVTK", UC+"saveVTK.h"), ("upwind_saveVTK", UF+"*.F90"), ("rectilinear", "upwind/python/saveVTK.py")], None, ["file contents"])
p("C16", "Command-line parser: every argument sequence gives the documented values",
  "For every declared set of options and every sequence of arguments, parsing fails exactly when some argument that looks like an option (starts with '-' followed by a non-digit) is not declared; otherwise every integer, real or string option has the argument that follows its last occurrence with an argument after it (its default if there is no such occurrence) and every boolean option is its default flipped once per occurrence. The order of options is irrelevant, options do not influence each other, negative numbers are values and not options, and asking for an undeclared name or a wrong type gives the documented fallback value. The help shows the purpose, the name of the program and every option with its present value and its description.",
  ["inputs", "histories"],
  "all option declarations and argument sequences",
  "The tests pass at most two options; unknown options, repeats, order, negative values, missing values and string or real options are never exercised.",
  ["cxx/CmdLineArgParser.h", "cxx/CmdLineArgParser.cpp"],
  [("parse", "cxx/CmdLineArgParser.h"), ("get<T>", "cxx/CmdLineArgParser.cpp")], [("typed maps", "current option values", "cxx/CmdLineArgParser.h")], ["parse result", "get", "help text"])
p("C17", "Upwind programs honour their command line and agree across languages",
  "Every upwind program (C++, Fortran, Python) runs the number of cells and steps it was given, in any order its interface allows, reports them, uses Courant number 0.1, prints the check sum of the resulting field and writes the resulting field to a VTK file when asked and only then. For the same numbers of cells and steps all programs end with the same field. Defaults apply to what is not given, help and wrong options print usage and compute nothing.",
  ["configurations", "inputs"],
  "all command lines, cell counts, step counts and thread counts",
  "The tests use one grid; the C++ tests pass arguments that are ignored and so run the defaults; outputs are not compared between programs.",
  [UC+"upwind.cxx", UC+"upwindOMPTasks.cxx", UC+"upwindAcc.cxx", UC+"upwindAcc2.cxx", UF+"upwind.F90", UF+"upwindF03.F90", UF+"upwindF08.F90", UF+"upwindF08Gpu.F90", "upwind/python/upwind.py"],
  [("main of each program", UC+"*.cxx, "+UF+"*.F90, upwind/python/upwind.py")], None, ["program output", "VTK files", "exit status"])
p("C18", "MPI programs give the same answer on any number of processes",
  "For every number of processes for which the grid can be decomposed and every cell count, number of dimensions and number of steps (at least one), the MPI programs (upwindMpi, laplacian, testStencil2d) compute and report the same field and check sums as on one process: upwindMpi the field of the upwind scheme at Courant number 0.1, laplacian ten applications of the periodic second-difference stencil to the product of sines, testStencil2d the x-forward minus y-backward neighbour. Results go to standard output from the root only, once, with the number of processes, the grid and the processor grid in use.",
  ["configurations", "inputs", "schedules"],
  "all process counts, cell counts, dimensions, step counts and process interleavings",
  "The tests use 4 processes and 32 cells, never compare with one process and never run upwindMpi.",
  [UC+"upwindMpi.cxx", "laplacian/cxx/laplacian.cxx", "laplacian/cxx/testStencil2d.cxx", "cxx/Filter.cpp"],
  [("stencil assembly in main", "upwindMpi.cxx, laplacian.cxx, testStencil2d.cxx"), ("Filter", "cxx/Filter.cpp")], None, ["program output", "VTK files"])
p("C19", "Python MPI solver gives the same field on any number of processes",
  "For every number of processes for which the grid can be decomposed, every 3-D grid shape, step count and velocity (any sign per axis), and every order in which the processes run and one-sided transfers are carried out, the Python MPI solver produces the field of the upwind scheme, its check sum on the root is the sum over the whole field, and gathering to the root puts every cell in its place. When no decomposition exists it reports this and stops.",
  ["configurations", "schedules", "inputs"],
  "all process counts, grid shapes, velocities, step counts and MPI schedules",
  "The test runs 4 processes on one 32^3 grid with velocity (1,1,1) and matches the first character of the check sum.",
  ["upwind/python/upwindMPI.py", "upwind/python/saveVTK.py"],
  [("advect: local part, then halo part per axis", "upwind/python/upwindMPI.py"), ("gatherRoot", "upwind/python/upwindMPI.py")], [("f, fOld", "distributed ghosted arrays", "upwind/python/upwindMPI.py")], ["f, checksum(), gatherRoot()"])
p("C20", "Matrix multiplication variants give the exact product for all sizes",
  "For every n, m and l, the matrices are filled with 1, 2, 3, ... column by column (first all of the left matrix, then all of the right one), and both the naive and the parallel variant return the exact matrix product of their arguments, for any contents and for rectangular shapes, without touching memory outside the matrices. The program uses exactly the sizes given on its command line (3, 4, 5 for those not given), reports them and reports success.",
  ["inputs", "configurations"],
  "all matrix sizes, contents and command lines",
  "The test runs the default sizes only and checks that no ERROR is printed; two equally wrong products pass.",
  ["matmult/fortran/matmult.F90"],
  [("matmult0 / matmult1 / initmat", "matmult/fortran/matmult.F90"), ("argument parsing", "matmult/fortran/matmult.F90")], None, ["product matrices", "program output"])
p("C21", "OpenMP programs report their thread team exactly once, in every schedule",
  "For every number of threads and every interleaving, an OpenMP upwind program (C++ upwind and upwindOMPTasks; Fortran upwind and upwindF03) prints its thread report exactly once, with the actual team size and the maximum number of threads.",
  ["schedules", "configurations"],
  "all team sizes and interleavings of the reporting region",
  "The tests never look at the report, and a single run sees one interleaving.",
  [UC+"upwind.cxx", UC+"upwindOMPTasks.cxx", UF+"upwind.F90", UF+"upwindF03.F90"],
  [("parallel region printing on thread 0", "main of each program")], [("thread id and counts", "must be private to each thread", "main of each program")], ["program output"])
p("C22", "Offload directives move the right data and share no per-cell scratch",
  "When the directives of the offloadable solvers (upwindAcc, upwindAcc2, upwindOMP5, upwindF08Gpu with OpenACC or OpenMP offload) are honoured by a device with its own memory that runs loop iterations concurrently, in any order, the field copied back to the host is that of the upwind scheme for every grid and number of steps. Every array the device uses is mapped, results are copied back, and nothing written per cell is shared between iterations.",
  ["schedules", "configurations", "inputs"],
  "all grids and step counts, device memory initially undefined, and all iteration orders and interleavings",
  "The tests compile these programs without offloading, so the directives are ignored.",
  [UC+"upwindAcc.cxx", UC+"upwindAcc2.cxx", UC+"upwindOMP5.cxx", UF+"upwindF08Gpu.F90"],
  [("acc / omp target data clauses", UC+"upwindAcc2.cxx, upwindAcc.cxx, upwindOMP5.cxx"), ("private clauses", UC+"upwindAcc*.cxx, "+UF+"upwindF08Gpu.F90")], None, ["field after advect"])
p("C23", "Julia solvers follow the upwind formula",
  "For every grid shape, velocity and step count the Julia solvers (upwind.jl, upwind3.jl) produce the field of the first-order upwind scheme with periodic wrap-around.",
  ["inputs", "configurations"],
  "all grid shapes, velocities and step counts",
  "The Julia tests are only registered where julia is installed and look at the first characters of the check sum.",
  ["upwind/julia/upwind.jl", "upwind/julia/upwind3.jl"],
  [("advect", "upwind/julia/upwind.jl, upwind/julia/upwind3.jl")])
p("C24", "do concurrent loops give the same result in every order of iterations",
  "The loops written as do concurrent (the parallel matrix product of matmult.F90 and the update of upwindF08.F90 built without offloading) keep the promise the construct makes to the compiler: for every order in which their iterations are executed, the product is exact and the field is that of the upwind scheme, and no iteration uses a value that another iteration of the same loop defines (an iteration may use a variable that it has itself defined before).",
  ["schedules", "inputs", "configurations"],
  "all orders of the iterations of each loop, all matrix and grid shapes",
  "gfortran executes the iterations one after the other in increasing order, so no test here ever sees another order; compilers that vectorise or offload do concurrent use other orders.",
  ["matmult/fortran/matmult.F90", UF+"upwindF08.F90"],
  [("do concurrent over columns", "matmult/fortran/matmult.F90 matmult1"), ("do concurrent over cells", UF+"upwindF08.F90 upwind_advect")],
  [("inds, oldIndex, upI", "work variables an iteration must define before using them", UF+"upwindF08.F90 upwind_advect")], ["product matrix", "field component of the solver object"])
p("C25", "Cython solver follows the upwind formula and reports its field faithfully",
  "For every number of dimensions (1 to 3), grid shape (as long as a default integer can count the cells), velocity (any sign per axis), domain lengths, time step and number of steps, the Cython solver (upwind5.pyx), starting from a unit pulse in the lowest cell, produces the field of the first-order upwind scheme with periodic wrap-around on every axis. The total stays 1 and, for Courant numbers that add up to at most 1, all values stay within [0, 1]; the check sum is the total; the listing gives every cell in order; the VTK file is a valid rectilinear grid with the coordinates of the domain and one value per cell, last axis fastest.",
  ["inputs", "configurations", "histories"],
  "all dimensions, grid shapes, velocity sign patterns, Courant numbers, step counts and sequences of operations on one or two objects",
  "No test builds or runs the Cython solver.",
  ["upwind/cython/upwind5.pyx"],
  [("Upwind.advect with precomputed index sets", "upwind/cython/upwind5.pyx"), ("saveVTK, checksum, printOut", "upwind/cython/upwind5.pyx")],
  [("f, oldF, inds, indsUp", "field after / before the step, index sets of the cells and of their upwind neighbours", "upwind/cython/upwind5.pyx")], ["printOut", "checksum", "saveVTK"])
p("C26", "Reported times are those the processes measured",
  "For every number of processes, grid and number of steps, and whatever the clocks of the processes show, the MPI programs upwindMpi and laplacian report, once and on the root, the smallest, the largest and the mean of the wall-clock times the processes measured, in this order, and upwindMPI.py reports the time the root measured. Every process starts its clock before the first halo transfer of the time loop and stops it after the last one.",
  ["configurations", "histories", "schedules"],
  "all process counts, grids, step counts and values of the clocks",
  "Tests look at check sums only; what the clocks show differs from run to run, so no test can know what should be reported.",
  [UC+"upwindMpi.cxx", "laplacian/cxx/laplacian.cxx", "upwind/python/upwindMPI.py"],
  [("MPI_Wtime around the loop, MPI_Reduce with MPI_SUM, MPI_MIN, MPI_MAX", UC+"upwindMpi.cxx, laplacian/cxx/laplacian.cxx"), ("Wtime around the loop", "upwind/python/upwindMPI.py")], [("walltime, minTime, maxTime, sumTime", "measured on every process, reduced on the root", "main of each program")], ["program output"])
p("C27", "Memory use does not grow with use",
  "A C++ or Fortran solver, distributed field (Filter), iterator, decomposition or command-line parser occupies the same amount of memory however many steps or operations it has performed; taking more time steps needs no more memory than taking one; when it is destroyed it gives back all it obtained, so that objects can be created and destroyed any number of times, one or several at a time and in any order; no block is given back twice. The MPI program upwindMpi needs no more memory for more time steps.",
  ["configurations", "histories"],
  "all grids, sequences and repetitions of operations, numbers of steps and process counts",
  "Tests take a few steps with one object and never look at memory; a leak shows only in long runs.",
  [UC+"upwind.cxx", UC+"upwindMpi.cxx", "cxx/Filter.cpp", "upwind/fortran/upwind.F90"],
  [("the arrays of each solver", UC+"*.cxx, upwind/fortran/*.F90"), ("Filter: MPI_Alloc_mem, MPI_Win_create and their counterparts", "cxx/Filter.cpp"), ("MultiArrayIter, CubeDecomp, CmdLineArgParser", "cxx")],
  [("f, oldF", "field and its copy before the step", UC+"upwind.cxx"), ("halo buffers and windows", "per side", "cxx/Filter.h")], ["memory in use after each operation"])
p("C28", "Work and data are shared out among threads, teams and processes",
  "With several OpenMP threads (upwind and upwindOMPTasks in C++; upwind, upwindF03 and upwindF08Gpu in Fortran), and with several teams of threads on an offload device (upwindOMP5, upwindF08Gpu), every thread takes its share of the cell updates of every time step: on grids, however small, whose axes are multiples of the number of threads, and with threads that advance at the same pace, no thread makes much more or much less than an even share of the memory accesses. With several processes, each process evaluates the initial condition at most once for each of its own cells and of those in its halos, holds its own sub-domain and halos but never the whole field (the root while a file is written excepted), and receives in one application of the filter no more than the halo layer of that side for each offset of the stencil; upwindMpi and laplacian send nothing beyond that but the reductions they print (and the field when a file is asked for).",
  ["configurations", "schedules"],
  "all thread, team and process counts, grids, stencils and schedules in which the threads take turns",
  "A program whose work is done by one thread, or whose field is copied to every process, gives the right numbers: tests that look at results or exit codes cannot see it, yet scaling is what a benchmark measures.",
  [UC+"upwind.cxx", UC+"upwindOMPTasks.cxx", UC+"upwindOMP5.cxx", "cxx/Filter.cpp", "upwind/fortran/upwind.F90", "upwind/fortran/upwindF08Gpu.F90"],
  [("OpenMP work-sharing directives of the time loop", UC+"*.cxx, upwind/fortran/*.F90"), ("Filter: constructor, newWindow, fetch, setInData", "cxx/Filter.cpp")],
  [("f, oldF", "field and its copy before the step", UC+"upwind.cxx"), ("inData, outData, halo buffers", "local parts", "cxx/Filter.h")], ["memory accesses per thread", "evaluations, bytes received and memory in use per process"])
p("C29", "No program steps outside its data or relies on undefined behaviour",
  "Whatever the grid, velocity, lengths, time step, number of steps, stencil, process count, matrix shapes, sequence of operations and command line (with at least one cell per axis, no more cells than a default integer can count, at least one dimension, three for the offload programs, and a time step and grid for which the numbers stay finite), the C++ and Fortran solvers, programs and library classes never read or write outside an array or object or after its release, never go past the end of a container or take a reference to an element that does not exist, and never compute an integer, shift, conversion or pointer that the language leaves undefined, even where the result would not be used. This includes every process of a distributed run, also those that have nothing to contribute to an operation, and grids without a valid decomposition.",
  ["inputs", "configurations", "histories"],
  "all grids, velocities, stencils, process counts, sequences of operations and command lines",
  "Reading one element too many or taking the address of an element of an empty container usually goes unnoticed: the tests, compiled without any checks, pass.",
  [UC+"upwind.cxx", "cxx/Filter.cpp", "cxx/CubeDecomp.cpp", "cxx/MultiArrayIter.cpp", "cxx/CmdLineArgParser.h", "upwind/fortran/upwind.F90", "matmult/fortran/matmult.F90"],
  [("index arithmetic of the solvers", UC+"*.cxx, upwind/fortran/*.F90"), ("computeBigIndex, getWindowIter, halo buffers, gathering of the field", "cxx/Filter.cpp"), ("parse", "cxx/CmdLineArgParser.h")],
  [("f, oldF, inData, outData, halo buffers, index sets", "arrays", "solvers, cxx/Filter.h")], ["normal end under AddressSanitizer, UndefinedBehaviorSanitizer, library assertions and Fortran run-time checks"])
p("C30", "Halos show each process the boundary cells of any other",
  "For every stencil along the axes, grid, number of processes and history of setting the input, applying the filter and copying the output to the input: at every moment the data a process exposes on a side of its sub-domain are the values of the current input in exactly the cells of the layer along that side, as thick as the farthest branch of the stencil that reaches across it (applying the filter does not change them, copying the output to the input does). fetch, called by all processes, brings the values exposed by the process asked for, whichever it is, in the order of the cells that getWindowIter lists for that process; the listings of the source and destination windows show these cells and values; getSideFromOffset and getNumberOfGhostsFromOffset give the side (opposite to the branch) and the reach of a branch.",
  ["inputs", "configurations", "histories", "schedules"],
  "all stencils, grids, process counts, sequences of operations and schedules",
  "Tests look at check sums after one application with reach 1; they never look into the halos, fetch from another process or print the windows.",
  ["cxx/Filter.cpp", "cxx/Filter.h"],
  [("newWindow, getWindowIter, fetch, setInData, setInDataByIndices, copyOutToIn", "cxx/Filter.cpp"), ("printSrcDataWindow, printDstDataWindow, getSideFromOffset, getNumberOfGhostsFromOffset", "cxx/Filter.cpp")],
  [("winData, winIter, winNumGhosts", "halo buffers, cells and thickness per side", "cxx/Filter.h")], ["fetch", "getWindowIter", "printSrcDataWindow", "printDstDataWindow"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
