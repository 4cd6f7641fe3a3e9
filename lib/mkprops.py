#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 lib/mkprops.py)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=qtext), why_tests_cant=why,
        anchors=dict(files=list(files),
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mechanism],
            observe_at=list(observe), hook_needed=hook)))

TP = "include/nuSQuIDS/ThreadPool.h"; MA = "include/nuSQuIDS/marray.h"; AA = "include/nuSQuIDS/aligned_alloc.h"
TH = "include/nuSQuIDS/tools.h"; TC = "src/tools.cpp"; TD = "src/taudecay.cpp"; TDH = "include/nuSQuIDS/taudecay.h"
AQ = "include/nuSQuIDS/AdaptiveQuad.h"; RS = "src/resources.cpp"
BH = "include/nuSQuIDS/body.h"; BC = "src/body.cpp"; XH = "include/nuSQuIDS/xsections.h"; XC = "src/xsections.cpp"
NH = "include/nuSQuIDS/nuSQuIDS.h"; NC = "src/nuSQuIDS.cpp"

# ---------------------------------------------------------------- thread pool
prop("P01", "Every accepted pool task runs exactly once and delivers its outcome",
 "For every pool with at least one worker and every interleaving of submission, execution and destruction, each task accepted by the pool is executed exactly once, on a worker of that pool, and its future becomes ready only after the task has finished and yields exactly the value it returned or the exception it threw. A task that throws disturbs neither the worker that ran it nor any other task.",
 ["schedules", "histories"], "all thread interleavings (including spurious wake-ups) and all client histories of submissions from clients and from tasks, waits and destruction, for any number of workers",
 "No repository test exercises the pool directly (it is reached only by an atmospheric test that needs SQuIDS and runs one uncontrolled schedule).",
 [TP], [("task queue and worker loop", TP+":ThreadPool(size_t)"), ("packaged task and future", TP+":enqueue")],
 [("tasks", "accepted tasks not yet started, oldest first", TP), ("stop", "shutdown requested", TP)],
 ["enqueue() return", "task body entry and exit", "future::wait_for/get"])
prop("P02", "Pool shutdown drains the queue, never deadlocks, and stays fair and parallel",
 "In every interleaving, destroying the pool returns only after every accepted task has finished and always returns when the tasks themselves terminate; tasks are started in the order in which they were accepted, and a pool of n workers lets any n accepted tasks run at the same time (so n mutually dependent tasks cannot deadlock). Once destruction has begun, a new submission is refused with an exception and its task never runs.",
 ["schedules", "histories"], "all thread interleavings and spurious wake-ups, all client histories, n >= 1 workers",
 "Lost wake-ups, early worker exit and lock-order problems show up only in particular interleavings; existing tests run one schedule and never test shutdown with queued work.",
 [TP], [("condition variable wait predicate and notifications", TP+":ThreadPool(size_t), enqueue, ~ThreadPool"), ("stop flag set under the queue mutex", TP+":~ThreadPool")],
 [("stop", "shutdown requested", TP), ("tasks", "FIFO of accepted tasks", TP)],
 ["enqueue() return or throw", "destructor call and return", "task body entry and exit", "global progress of all threads"])

# ---------------------------------------------------------------- marray
prop("M01", "Multi-dimensional arrays keep row-major contents through any edit history",
 "After any sequence of construction, element writes, fills, insertions, erasures, resizes and reshapes (within their asserted preconditions), an array's shape, size, emptiness and every element read through any access path (indices, flat data, iterators, coordinates reported by iterators, sub-array views, first/last element) equal those of a mathematical row-major array: surviving coordinates keep their value, new coordinates hold the requested fill (a default value when none is given), and an operation given a shape or source of the wrong rank, size or nesting is refused with an exception leaving contents unchanged.",
 ["inputs", "histories"], "all finite histories of array operations for every rank, shape, axis and position",
 "The array tests in the tree check a handful of hand-written shapes and are not among the tests that run here.",
 [MA], [("strides and index arithmetic", MA+":operator[], coordinates"), ("resize/insert/erase copy loops", MA+":resize, insert, erase")],
 [("extents", "shape", MA), ("data", "row-major buffer", MA)], ["public accessors after every call"])
prop("M02", "Array copies, moves and swaps transfer values and never alias",
 "Copy construction and copy assignment produce arrays equal to their source and independent of it; move and swap transfer the contents (leaving the moved-from array empty or otherwise valid and reusable), including self-assignment, unequal shapes and every allocator propagation policy (except swapping arrays whose unequal allocators do not propagate), and the allocator that owns each buffer is the one that frees it. Two distinct arrays never share element storage.",
 ["histories", "configurations"], "all histories of copy/move/swap/assign/modify/destroy over several arrays, for propagating and non-propagating, equal and unequal allocators",
 "Tests use one default allocator and one shape per operation; aliasing or a mismatched free manifests only through particular sequences.",
 [MA], [("assignment dispatch on allocator traits", MA+":copy_assign, move_assign"), ("swap", MA+":swap")],
 [("data", "owned buffer", MA), ("allocator", "allocator that owns the buffer", MA)], ["public accessors, allocator allocate/deallocate log"])
prop("M03", "Array arithmetic is element-wise with exact broadcasting and axis sums",
 "For arrays of any shape, each arithmetic operator and compound assignment, between two arrays or an array and a scalar on either side, and each unary function, yields the element-wise mathematical result at every coordinate with the operands unmodified (except the compound-assigned one); binary functions apply along the trailing or matching axes as documented, and the sum over an axis (or all of them) equals the mathematical sum. Operands whose shapes cannot be combined are refused with an exception.",
 ["inputs", "programs"], "all operand shapes, element types, value categories and operator/operand orders",
 "Existing tests do not evaluate most operator and scalar-side combinations.",
 [MA], [("operator templates", MA+":arithmetic operators"), ("sum over axes", MA+":sum")], [], ["returned arrays, operand contents after the call"])
prop("M04", "Array operations survive allocation and element-copy failures without leaks",
 "If memory allocation or an element copy/assignment throws at any point inside an array operation, the exception reaches the caller, every element object constructed is destroyed exactly once, every block allocated is released exactly once with the size and allocator it was obtained with, and every array involved remains valid and destructible; a failed insertion, erasure, one-axis resize, copy construction or copy assignment leaves the contents as they were.",
 ["fault_sequences", "histories"], "every fault position in every array operation, in every state reached by an operation history",
 "No test injects failures.",
 [MA], [("catch blocks that destroy partial work", MA+":constructors, copy_assign, move_assign, resize, insert, erase")],
 [("live elements", "constructed element objects", MA)], ["allocator log, element construction/destruction log"])
prop("M05", "Aligned allocation returns disjoint, usable blocks with the alignment asked for",
 "For every size and every supported power-of-two alignment (one byte to 2^31), an aligned allocation returns memory at an address with at least that alignment whose whole extent is usable and disjoint from all other live allocations, and releasing it returns exactly the memory obtained from the system; requests whose size overflows are refused.",
 ["inputs", "histories"], "all allocation sizes and alignments, all histories of interleaved allocations and releases",
 "Whether the stashed offset and padding suffice depends on the address the system allocator happens to return.",
 [AA], [("padding and stashed offset", AA+":allocate, deallocate")], [], ["addresses returned, system allocation log"])

# ---------------------------------------------------------------- numerics
prop("N01", "Adaptive quadrature is exact, orientation-correct and honest about tolerance",
 "The adaptive integrator returns the exact integral (to rounding) of every polynomial of degree up to nine on every interval, negates it when the limits are swapped, evaluates the integrand only inside the closed interval, and uses supplied endpoint values, each at the end it belongs to whatever the direction, instead of evaluating there. The sub-intervals it accepts tile the interval, their rule estimates add up to the value returned, and each has two rule estimates that agree within the requested tolerance; it reports being out of tolerance exactly when a sub-interval that cannot be divided further has estimates that differ by more. A tolerance below machine precision and an interval too narrow to divide are refused with an exception.",
 ["inputs"], "all integrands, limits, tolerances and optional endpoint values",
 "One integrator test compares a few fixed integrals.",
 [AQ], [("7/13 point rules and subdivision stack", AQ+":integrate, Interval::evaluate")], [], ["returned value, Options outputs, integrand evaluation log"])
prop("N02", "Spline interpolation reproduces its nodes, is local, and exact for lines",
 "An Akima spline built from any strictly increasing abscissas takes the tabulated value at every node, follows the Akima definition on every segment (hence a continuous first derivative, except at a corner where two straight runs of points meet), reports derivatives consistent with its values, reproduces straight lines, and depends only on nearby points. Fewer than the minimum number of points, mismatched sizes and unordered or repeated abscissas are refused with an exception, and a spline can be re-initialised with other data.",
 ["inputs", "histories"], "all node sets, evaluation points (inside and outside the range) and re-initialisation histories",
 "The spline is tested only indirectly with a few smooth functions.",
 [TH, TC], [("segment coefficients", TC+":AkimaSpline::initialize"), ("segment selection", TH+":AkimaSpline::operator()")], [], ["values at nodes and rational points"])
prop("N03", "Bicubic and tricubic interpolators reproduce grids of every shape",
 "For every grid (including different numbers of points and spacings per axis) the two- and three-dimensional interpolators take exactly the tabulated value at every node, are exact for functions that are linear in each coordinate, agree with the Hermite-cubic interpolant built from spline derivatives along each axis inside every cell, and treat axes symmetrically for products of one-variable functions. Data whose shape does not match the coordinates, unordered coordinates or too few of them are refused with an exception.",
 ["inputs", "configurations"], "all grid shapes, spacings, data and evaluation points",
 "The tricubic test uses one grid and a smooth function with loose tolerance; wrong mixed derivatives or non-cubic grids are not seen.",
 [TH, TC], [("derivative tables", TC+":BiCubicInterpolator, TriCubicInterpolator constructors"), ("cell evaluation", TC+":operator(), get_coeffs, evaluate_polynomial")], [], ["interpolated values"])
prop("N04", "Linear and logarithmic grids hit both ends and are evenly spaced",
 "A requested grid has exactly the requested number of points, starts and ends exactly at the requested limits (whichever is larger; a single point is the upper limit), is strictly monotonic when the spacing exceeds rounding, and its intermediate points divide the range evenly in value (linear) or in ratio (logarithmic); zero points are refused with an exception.",
 ["inputs"], "all limits (ascending or descending) and numbers of points",
 "Tests use a few grids as inputs to other tests and do not check them.",
 [TC], [("linspace and logspace", TC+":linspace, logspace")], [], ["returned arrays"])
prop("N05", "Complex matrix helpers conjugate and change basis exactly, touching nothing else",
 "The matrix helpers replace their target by its complex conjugate, by U M U-dagger or by U-dagger M U respectively, for every complex matrix of every size, and leave the transformation matrix unchanged; the two basis changes are mutually inverse for unitary U.",
 ["inputs"], "all complex matrices of any dimension",
 "Never tested on their own.",
 [TC], [("gsl helpers", TC+":gsl_matrix_complex_*")], [], ["matrix entries after the call"])

# ---------------------------------------------------------------- files
prop("F01", "Text tables survive a write/read round trip and malformed files are refused",
 "Writing any two-dimensional table of finite numbers (at least one row and column) to a text file, replacing whatever was there, and reading it back yields the same shape and the same values to fifteen significant digits; reading decimal text yields the nearest representable numbers; reading ignores blank lines wherever they are, accepts any white-space separation, and refuses missing files and ragged tables with an exception. Writing to a place that cannot be opened is refused with an exception.",
 ["inputs", "histories"], "all table shapes and values, all arrangements of blank lines, separators and ragged rows",
 "Tests read only the well-formed tables shipped with the project.",
 [TC], [("quickread/quickwrite", TC+":quickread, quickwrite")], [], ["file contents, returned array"])
prop("F02", "HDF5 arrays and attributes round-trip exactly, compressed or not",
 "Arrays of any rank, shape and supported element type and attributes (numbers and text) written to an HDF5 location read back with identical shape and values (converted to the requested element types), at every compression level and for any interleaving of writes and reads of several names; existence queries agree with what was written. Nothing is ever overwritten: writing to a name that exists is refused with an exception. Reading a missing name, a name of another rank or an attribute of another type is refused with an exception.",
 ["inputs", "histories"], "all element types, ranks, shapes, compression levels and sequences of named writes and reads",
 "State files are checked only through one end-to-end test that cannot run here.",
 [TH, TC], [("writeArrayH5/readArrayH5", TH), ("addH5Attribute/readH5Attribute", TH+", "+TC)], [("file objects", "datasets and attributes by name", TH)], ["values read back"])
prop("F03", "HDF5 objects are released exactly once on every path",
 "Every HDF5 object opened by the helpers or owned by a handle or file wrapper is closed exactly once, whatever sequence of constructions, moves, assignments, destructions, successes and failures occurs, so that no helper call leaves additional open objects behind (error paths included); a moved-from or empty wrapper closes nothing, and a handle refuses an invalid identifier with an exception.",
 ["histories", "fault_sequences"], "all histories of wrapper operations and of helper calls that succeed or fail",
 "A leaked or doubly closed identifier is invisible to value-based tests.",
 [TH, TC], [("H5Handle and H5File", TH), ("close calls on error paths", TH+":readArrayH5, readH5Attribute")], [("open ids", "identifiers currently open in the HDF5 library", TH)], ["close log, open object counts"])
prop("F04", "The data directory is found by a fixed precedence",
 "The resource location is the value of the environment override whenever it is set, otherwise the install location if the library is marked as installed and the source location if not, re-evaluated on every call; file existence queries agree with the file system.",
 ["configurations", "histories"], "all histories of environment changes and file creation or deletion",
 "Tests run in one environment.",
 [RS, TC], [("getResourcePath", RS), ("fexists", TC)], [], ["returned paths"])

# ---------------------------------------------------------------- tau decay
prop("T01", "Tau decay spectra and their tables follow the published kinematics",
 "The decay spectra into each channel equal the documented functions of the energy fraction (including their kinematic end points, polarisation and branching ratios), the total is the branching-weighted sum of the channels, and after initialisation on any energy grid every table entry equals the corresponding spectrum divided by the right energy factor, for neutrinos and antineutrinos. Indices beyond the grid and neutrino types other than the two are refused with an exception, and re-initialising with another grid replaces everything.",
 ["inputs", "histories"], "all energies, grids, indices and re-initialisation histories",
 "Tests only plot or print these functions.",
 [TD, TDH], [("channel formulae", TD), ("table filling and bounds checks", TD+":Init, dNd*")], [], ["returned values"])

# ---------------------------------------------------------------- bodies
prop("B01", "Bodies report the density and composition they were built with everywhere",
 "At every position of every track, a body reports the density and electron fraction defined by its construction data: zero in vacuum, the constant of a uniform body, for a layered or variable body the Akima interpolation of its tables (the tabulated value at every node) at the track position or at the distance from the centre as a fraction of the body's radius (for the Earth with atmosphere: of its radius including the atmosphere), with the documented extension beyond the table (first value inwards of it, last value or zero outwards, the exponential atmosphere above the surface), and it is flagged constant exactly when it is uniform by construction or declared so. Construction data of mismatched or insufficient size is refused with an exception.",
 ["inputs", "configurations"], "all bodies, construction tables, tracks and positions",
 "Tests evaluate a few shipped profiles at a few points, and need the external SQuIDS library.",
 [BH, BC], [("density/ye of each body", BC)], [("track position", "distance along the track", BH)], ["density(track), ye(track), isConstantDensity()"])
prop("B02", "Tracks keep exact geometry and position under every sequence of updates",
 "A track starts at its initial position, moves only to positions it is given, reports initial and final positions and baseline consistent with its construction (for chords and atmospheric paths: the chord length and impact geometry of the body's own radius and atmosphere height), and reversing it swaps travel direction without changing its geometry. Copies are independent and continue from the same position.",
 ["inputs", "histories"], "all track types, construction arguments and sequences of position updates and reversals",
 "Geometry is only observed through end-to-end probabilities.",
 [BH, BC], [("Track base class", BH), ("EarthAtm, Earth, Sun tracks", BH+", "+BC)], [("x, xini, xend", "position and limits", BH)], ["GetX, GetInitialX, GetFinalX, GetBaseline, density along the track"])
prop("B03", "Bodies and tracks round-trip through files and parameter lists",
 "Every body and every track type, saved to a file group and restored from it, gives an object of the same type that reports the same density, composition, constancy, reported parameter list, geometry, direction and position as the original at every point, and leaves no HDF5 identifier open; an unknown type name is refused.",
 ["inputs", "configurations"], "all body and track types, all construction arguments and current positions",
 "Round trips are tested for one track through a whole saved simulation, which cannot run here.",
 [BH, BC], [("Serialize/Deserialize of each class", BC), ("registration tables", BH)], [], ["restored object's public accessors"])

# ---------------------------------------------------------------- cross sections
prop("X01", "Cross-section lookups match their tables and reject out-of-range requests",
 "Within the tabulated range a cross-section object reports the tabulated value at every tabulated point for each active flavour, neutrino type and current (charged or neutral), interpolates between neighbouring points (never mixing flavours, types or currents), treats both ends of the range as inside, refuses energies above it, scales total cross sections linearly below it down to 10 GeV, and is zero for sterile flavours; averages evaluate it only inside the requested interval and lie between the values found there; files that are missing, incomplete or inconsistent are refused.",
 ["inputs", "configurations"], "all tables, energies, flavours, neutrino types and currents",
 "Tests compare the shipped tables at a few energies and need SQuIDS.",
 [XH, XC], [("table classes", XC)], [], ["total and differential cross sections returned"])
prop("X02", "Cross-section tables round-trip through text and HDF5 unchanged",
 "Saving cross sections to text files or an HDF5 file and loading them again yields the same tables (to the precision of the format: all digits in text, single precision in HDF5 for the cubic tables) for every flavour, neutrino type, current and energy pair, whatever the table shape and whether or not flavours share tables; tables the format cannot represent, and files that cannot be written, are reported and not silently altered.",
 ["inputs", "configurations"], "all table contents and shapes, all formats, shared or distinct flavour tables",
 "No test writes tables.",
 [XH, XC], [("ReadText/WriteText/ReadHDF/WriteHDF", XC)], [], ["files written, values read back"])
prop("X03", "The cross-section library serves exactly what was registered for each target",
 "A cross-section library answers queries for exactly the targets registered in it with the cross section registered for each, refuses to redefine a target, is independent of its copies, reports the absence of other targets without failing, and the electron-resonance cross section is non-zero only for electron antineutrinos and consistent between its total and differential forms.",
 ["histories", "inputs"], "all registration histories and all queries",
 "Not tested on its own.",
 [XH, XC], [("CrossSectionLibrary", XH), ("GlashowResonanceCrossSection", XC)], [], ["library queries"])

# ---------------------------------------------------------------- simulation core
prop("S01", "The simulation refuses operations made out of order or out of range",
 "Every history of construction, configuration, evolution, evaluation, saving and moving of a simulation either gives each call what it needs (a body, a track, energies and a state set since the mixing parameters or energies last changed before evolving; a state before evaluating; usable cross sections when interactions are on; energies, flavours and neutrino types in range) and the call succeeds with its documented effect, or the call throws and leaves every later answer as if it had not been made.",
 ["histories", "inputs"], "all call histories and arguments for single- and multi-energy simulations with neutrinos, antineutrinos or both",
 "Tests follow the documented order.",
 [NH, NC], [("guard flags", NC)], [("inusquids/ibody/itrack/istate/ienergy/iinteraction", "what has been configured", NH)], ["exceptions, getters after the call"])
prop("S02", "Oscillation follows the exact unitary evolution in vacuum and matter",
 "Without interactions, the flavour and mass content evaluated after evolving any initial state through vacuum, uniform matter or a sequence of uniform layers equals exact unitary evolution with the configured masses, mixing angles, phases and matter potential (opposite sign for antineutrinos), at every energy and for three to six flavours, whichever basis and shortcuts are chosen and whether evolved forwards or backwards; between energies the vacuum phases of the asked energy are put onto the interpolated states; the total over flavours is conserved and every probability lies between zero and one, within the requested accuracy.",
 ["inputs", "configurations"], "all mixing parameters, energies, path lengths, densities, initial states and neutrino types",
 "End-to-end tests compare a few parameter sets and need SQuIDS.",
 [NH, NC], [("Hamiltonian and evolution", NC+":HI, H0, EvolveState, EvalFlavor")], [("state", "density matrices by energy and type", NH)], ["EvalFlavor, EvalMass, EvalFlavorAtNode, GetHamiltonian"])
prop("S03", "Evolving in pieces, with or without observation, equals evolving at once",
 "Evolving a state through consecutive tracks gives the same result as evolving through their union, going back undoes it, evaluating, saving and moving between them change nothing, each evolution covers exactly the length of the track from where it stands and asks the body only about positions there, and replacing the track or the state between evolutions restarts exactly what is documented.",
 ["histories", "inputs"], "all splittings of a path into tracks and all interleavings of evaluations with evolution",
 "Tests evolve once per object.",
 [NH, NC], [("clock and track bookkeeping", NC+":Set_Track, Set_initial_state, EvolveState")], [("time_offset, t", "clock", NH)], ["EvalFlavor after each step"])
prop("S04", "A simulation saved at any point restores to an equivalent simulation",
 "Saving a simulation at any point of any history and restoring it, into a new object or one with any past, yields a simulation with the same energies, parameters, interactions, body, track position, basis and state, which evaluates and continues to evolve identically; saves in other places of the file stay as they were, and a location which already holds a state is only replaced when asked to.",
 ["crash_points", "histories", "configurations"], "every point of every history at which the state is saved, all configurations",
 "One read/write consistency test covers a single configuration and needs SQuIDS.",
 [NH, NC], [("WriteStateHDF5/ReadStateHDF5", NC)], [], ["getters, EvalFlavor, continued evolution of the restored object"])
prop("S05", "Moving a simulation transfers everything and leaves the source unusable but safe",
 "A simulation constructed or assigned by move behaves in every later operation exactly as the original would have, whatever the target was before, and the moved-from object refuses use with an exception, can be assigned a new simulation and can be destroyed.",
 ["histories"], "every point of every history at which a move happens",
 "Tests move objects only right after construction.",
 [NH, NC], [("move constructor and assignment", NC)], [], ["all public operations after the move"])
prop("S06", "Interactions redistribute neutrinos with exact bookkeeping",
 "With interactions on, each neutrino is removed at the total rate of its own flavour and type in the matter it traverses and re-appears only at lower energies through neutral currents, tau decay and electron-resonance decay as dictated by the configured cross sections and decay spectra, so that switching a process off removes exactly its contribution; a body's emission is added once, at the node, type and flavour it is given for; and the evolved states are those of these terms.",
 ["inputs", "configurations"], "all cross-section tables, energy grids, targets, switches and states",
 "End-to-end tests compare stored numbers for one configuration.",
 [NH, NC], [("interaction arrays and source terms", NC+":UpdateInteractions, GammaRho, InteractionsRho")], [], ["decay and source terms, evolved states"])
prop("S07", "An atmospheric set behaves as independent single-angle simulations",
 "A simulation over many zenith angles gives, at every tabulated angle, what an independent simulation with that angle's track through the Earth would give, for any number of worker threads; between angles it interpolates the neighbouring ones only, configuration calls reach every angle, an error in any of them reaches the caller, and saving, restoring and moving the set keep all of it.",
 ["schedules", "configurations", "histories"], "all angle grids, configurations, thread counts and schedules",
 "One end-to-end test with a single thread count, needing SQuIDS.",
 [NH, NC], [("nuSQUIDSAtm", NH)], [], ["EvalFlavor at and between nodes, exceptions"])

if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in P: f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
