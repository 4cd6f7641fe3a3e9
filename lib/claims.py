NOT = {}
claim("P01", "TLA+ model checking (TLC) with refinement; controlled-scheduler trace validation against the TLA+ API spec",
 "The design spec (mutex, condition variable, spurious wake-ups, nested and throwing tasks) is model checked exhaustively for small constants and refines the client-visible spec; thousands of controlled schedules of the real pool (bounded-preemption DFS and seeded random) are validated event by event against that spec. Bounded programs and schedules; memory between synchronisation operations is assumed race-free.")
claim("P02", "TLA+ model checking incl. liveness (TLC); controlled-scheduler trace validation with deadlock detection",
 "As P01, with liveness (destruction returns, accepted tasks run) checked on the design under fairness, and deadlock, early shutdown, FIFO order, n-way parallelism and refusal after shutdown checked on every explored schedule of the real pool.")

claim("M01", "TLA+ array algebra model checked (TLC); trace validation of recorded operation histories against it",
 "Row-major algebra (insert, erase, resize, reshape, coordinates) model checked for ranks 1-3 with small extents; seeded histories of every public array operation over 11 element/rank types are executed on the real class and every observation (shape, size, contents through ten access paths) is validated by TLC. Extents up to 7, at most 64 elements, ranks 1-4.")
claim("M02", "TLA+ array and allocator-ledger spec (TLC); trace validation of recorded histories with logging allocators",
 "Histories of copy/move/swap/assign/destroy over four slots and all eight propagation policies; the specification tracks which allocator owns each buffer and rejects aliasing, mismatched frees and wrong contents.")
claim("M03", "TLA+ broadcasting/sum specification (TLC); trace validation of recorded calls",
 "Operators, compound assignments, unary/binary functions and sums over random shapes, element types and value categories; integer results are computed by the specification, floating-point results compared bitwise with the scalar operation.")
claim("M04", "TLA+ small-step fault model of array operations (TLC); fault-injection histories validated against the ledger spec",
 "Every allocation and element copy/assignment of every operation in the histories is made to fail in turn; the ledger spec requires exact destruction and deallocation and unchanged contents where promised.")
claim("M05", "TLA+ design of the aligned allocator (TLC, exhaustive small addresses); trace validation with a steered system allocator",
 "The design is model checked over all small addresses, sizes and alignments; the real allocator runs over an arena that returns chosen residues, with guard bytes, and every event is validated (64-bit limb arithmetic in TLA+). Alignments 1..2^31.")

claim("N01", "TLA+ spec of the adaptive rule and its subdivision (TLC, exact rational arithmetic); trace validation of every integrand evaluation",
 "The 7/13-point rules' exactness (degree 9), tiling and termination are model checked in exact arithmetic; recorded runs of the real integrator (polynomials, kinks, steps, singular and random integrands, both directions, every combination of supplied end values) are replayed point by point against the specification: abscissas, accept/divide decisions and the reported total, uncertainty and out-of-tolerance flag. Decisions within rounding of the threshold may go either way.")
claim("N02", "TLA+ definition of the Akima spline (TLC, exact rational arithmetic); trace validation of recorded evaluations",
 "The definition's own properties (nodes, continuity, lines, locality) are model checked over all small integer data sets in exact arithmetic; real splines on random and degenerate data are evaluated at nodes, inside and outside the range, and every value and derivative is compared by TLC with the exact definition within an explicit rounding bound.")
claim("N03", "TLA+ definition of bicubic/tricubic Hermite interpolation over Akima derivatives (TLC, exact arithmetic); trace validation",
 "Recorded evaluations on grids of unequal shape and spacing are compared by TLC with the exact interpolant; node values, multilinear exactness, axis exchange and refusals (with nothing left behind) are required. Values at corners of straight runs are excluded where the one-sided derivative is ambiguous.")
claim("N04", "TLA+ specification of grids (TLC, exact arithmetic); trace validation of recorded grids",
 "Linear and logarithmic grids over ascending, descending, negative, equal, huge and tiny limits with 0..400 points, checked point by point in exact arithmetic.")
claim("N05", "TLA+ complex matrix algebra (TLC, exact arithmetic); trace validation of recorded calls",
 "Random complex matrices up to dimension 7 with integer and general entries (including permutation and unitary transformations): result entries, the untouched operand and the round trip are decided in exact arithmetic.")

claim("T01", "TLA+ specification of the spectra and of table histories (TLC, exact arithmetic); trace validation of recorded histories",
 "Normalisation, positivity, end points and branching ratios are checked on the specification itself; every channel of the real class is compared on dense energy fractions around each end point, and histories of init/re-init/copy/move over three objects are validated entry by entry, index refusals included. Energy ratios within 1e-15 of an end point may fall on either side.")

claim("F01", "TLA+ specification of a directory of text tables (TLC); trace validation of recorded write/read histories",
 "Seeded histories over four files, written by the library or put there as raw text with blank lines, tabs, CRLF, missing final newlines, ragged rows and 17+ digit numbers; every table read back and every file written is compared value by value by TLC. Finite values below 1e307.")
claim("F02", "TLA+ specification of named arrays and attributes in files (TLC); trace validation of recorded histories",
 "Histories over two files with groups, soft links, re-opening and re-creation; arrays of rank 1-4, four element types in all write/read combinations, zero extents, 0 to 560 kB, compression 0-9; attributes of five types. Large arrays are compared through a digest of all elements.")
claim("F03", "TLA+ ledger of owned identifiers model checked (TLC); trace validation of wrapper histories and of helper calls with failures",
 "Exactly-once closing is model checked exhaustively for 3 wrappers and 4 identifiers and validated on histories of real wrappers (logging deleters, real files); every helper call of histories rich in failures (missing names, wrong ranks and types, allocation failure, unconvertible types) must leave no identifier of any kind open.")
claim("F04", "TLA+ specification of the resource lookup and of file existence (TLC); trace validation of recorded histories",
 "Histories of environment changes (set, set empty, unset, initially set or not) with lookups in a not-installed and an installed binary (the install rule's byte patch), and of file creation and deletion.")
claim("B01", "TLA+ specification of bodies, tracks and their profiles (TLC); trace validation of recorded histories in exact arithmetic",
 "Histories over all seven body types built from random vectors, model files and defaults, with positions at nodes, ends, centre, surface, top of the atmosphere and beyond the table; every density and composition is compared by TLC with the Akima value of the recorded table, with an error bound from rounding. HDF5 and SQuIDS constants come from a clean-room shim of the absent SQuIDS library (harness/shim).")
claim("B02", "TLA+ specification of track geometry and position updates model checked (TLC); trace validation of recorded histories",
 "The life of a track (set, reverse, copy, restore) is model checked; recorded histories cover all track types and every constructor, cosines from -1 to 1 including the horizon, impact parameters from 0 to the radius, changed atmosphere heights. Uses the clean-room SQuIDS constants shim.")
claim("B03", "TLA+ specification of saving and restoring bodies and tracks (TLC); trace validation of recorded histories",
 "Every type is saved through Serialize and restored through the registration tables by its type name, before and after moves, reversal, changed heights and declared constancy; restored objects go on living in the history and every query of them is judged. Open HDF5 identifiers are counted after every call.")

claim("X01", "TLA+ specification of cross-section tables and their interpolation (TLC); trace validation of recorded lookups in exact arithmetic",
 "Both table classes, text and HDF5 layouts, shared and distinct flavours, unequal axes, zero entries; every file of a set in turn missing, of another range or width. Every total and differential value is compared by TLC with the Akima/bicubic or linear interpolant of the file's content; averages are judged through the energies at which the class was evaluated and, for power laws, their exact value.")
claim("X02", "TLA+ specification of the saved formats (TLC); trace validation of recorded save/load chains",
 "Chains of up to four generations through text and HDF5 (compression 0-9) over all ways flavours share tables; every generation is judged at its nodes and between them against the specification's round trip, refusals included.")
claim("X03", "TLA+ specification of registration histories (TLC); trace validation of recorded library histories",
 "Histories of registering by value and by pointer, copying, redefinition, the default library over changing data directories, and queries for present and absent targets; the resonance cross section is compared with its formula in exact arithmetic for all quantum numbers.")

SHIM = " The SQuIDS library is absent here: harness/shim/SQuIDS is a clean-room stand-in for it (dense SU(N) algebra, rk8 integrator)."
claim("S01", "TLA+ state machine of a simulation model checked (TLC); trace validation of recorded wild histories",
 "The state machine (what each call needs, what it changes) is model checked to a bounded depth; random histories over several simulations, with arguments in and out of range, are executed on the real class under sanitizers and every acceptance, refusal and answer is judged by TLC, numbers to 2e-6." + SHIM)
claim("S02", "TLA+ specification of unitary evolution (TLC, 80-digit arithmetic); trace validation of recorded evolutions",
 "The specification's own laws (unitarity, conservation, composition, conjugation, vacuum limits) are model checked; random parameters, energies, layers, states, bases and shortcuts are evolved by the real class and every flavour and mass weight, at and between nodes, and the Hamiltonian are compared by TLC within 2e-6." + SHIM)
claim("S03", "TLA+ clock and track state machine model checked (TLC); trace validation of twin histories",
 "Twins, one evolved at once and one in random pieces with evaluations, saves, moves and reversals in between, are judged against the exact composition; the positions at which the body is asked are recorded and judged too." + SHIM)
claim("S04", "TLA+ specification of stored states model checked (TLC); trace validation of recorded save/load histories",
 "Saves into several files and groups, with and without overwriting, at random points; loads into fresh and used objects, which are queried and evolved further. Not held by files, and so outside: the uniform-density shortcut, positivity and source switches and injected emission." + SHIM)
claim("S05", "TLA+ specification of moves model checked (TLC); trace validation of recorded move histories",
 "Move construction and assignment between simulations in every state (empty, half configured, evolved, with interactions, self-assignment); targets and sources are used, evolved and rebuilt afterwards, under address and undefined-behaviour sanitizers." + SHIM)
claim("S06", "TLA+ specification of the coupled transport equations (TLC, high-precision arithmetic); trace validation of recorded terms and evolutions",
 "Random cross-section tables over 2-5 nodes, proton/neutron and isoscalar targets, tau regeneration, resonance, emission, with and without oscillations: loss and gain terms of every node, type and flavour, and the states after evolving, are compared by TLC with the exponential of the exact linear system." + SHIM)
claim("S07", "TLA+ specification of an atmospheric set model checked (TLC); trace validation of recorded histories with threads",
 "Random angle grids, Earth models, thread counts, failures in one member, saves, loads and moves; every node is judged as an independent simulation on its own track and values between angles by linear interpolation of the neighbours." + SHIM)
