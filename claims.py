"""What is claimed, by which check, at which level.  mkmanifest.py turns this
into MANIFEST.json."""
TECH = "static analysis: abstract interpretation over the resolved Clang AST (trace partitioning, loop summaries, value-graph normal forms)"
NOTE = ("Every partition of the analysed functions (all paths, loops summarised or instantiated) is compared with the specified "
        "decision table / formula in the domain of polynomial-rational normal forms, sign sets and affine facts; an alarm needs a "
        "concrete witness valuation of those normal forms. Real arithmetic is assumed (no rounding); obligations the domain cannot "
        "settle are listed as undecided in the evidence and do not alarm. Trusted: Clang's AST, the models of xtensor/std calls.")
CLAIMS = {}


def claim(pid, check, floor, expl, note="", tech=TECH):
    CLAIMS[pid] = {"check": check, "floor": floor, "explanation": expl, "level": "other",
                   "technique": tech, "level_note": (note + " " if note else "") + NOTE}


claim("P01", "drivers.p01", 15, "The feasibility driver is instantiated over declared-only oracle and space types; its loop is summarised and every back and exit partition is compared with the decision table of the property.")
claim("P02", "drivers.p02", 30, "As P01, for the optimisation driver: best-point bookkeeping, query arguments, exits and result record per partition.")
claim("P03", "drivers.p03", 80, "As P01, for the discrete driver: retry flag against the previous cut's status through the loop-carried values of consecutive iterations, exits and result record.")
claim("P04", "drivers.p04", 25, "Every driver's loop: the number of oracle queries per iteration and the loop test as a function of the iteration index, for every unsigned budget including zero; the parametric search for budgets 0 to 2 (thorough 3).")
claim("P05", "drivers.p05", 25, "Bisection over an integer and a real bracket with a declared-only predicate: every partition's tested point, bracket update, stop condition and result.")
claim("P06", "drivers.p06", 20, "The bisection adaptor over declared-only types: order and arguments of the calls on oracle, copy and original; what is written back.")
claim("P07", "ell.p07", 80, "Every rejecting partition of both update instances (plain: any dimension; factorised: dimensions 2 and 3 instantiated): centre, scale and shape after the call equal those before, elementwise.")
claim("P08", "ell.p08", 40, "Every accepting partition of the plain update, any dimension: the reaching writes of an arbitrary element (i,j) are resolved through the loop nest and compared with the update formula of the matching kind of cut; every denominator occurring in the resulting state is nonzero on that partition.")
claim("P09", "ell.p09", 60, "Accepting partitions of the factorised updates (single cut at dimensions 2 to 5, thorough 6, parallel cut at 2 and 3, thorough 4; every zero pattern of the transformed gradient up to dimension 4, everything else symbolic): scale, every centre component, every pivot and every factor entry against the rank-one update of the represented matrix, every denominator of the resulting state nonzero, and (dimension 2) determinant and represented matrix.", "The dimension is instantiated; the matrix entries are not.")
claim("P11", "ell.p11", 80, "Every partition of both update instances against the status decision table (conditions in tau, beta, n), and the returned size measure.")

claim("P17", "frac.p17", 150, "Every operation, comparison and mixed form a client can write over the wide instance of the rational type (boost-generated operators included) is summarised; exact value as a rational-function identity with gcd kept symbolic, positive denominator, lowest terms by a coprimality calculus; the Euclidean step; no integral narrowing in any function of the wide instance.")
claim("P18", "csd.p18", 300, "Both encoders' loops are summarised for every way of entering them and every iteration partition is checked against the digit recurrence: one digit per iteration, its weight from the position of the point, the remainder invariant |r| <= 2/3 of the next weight, adjacency, budget and termination; the decoder per character class, and the final scaling.", "Remainder invariants are inductive over an arbitrary iteration; 2^ceil(log2 y) >= y is the only lemma used.")

claim("P23", "small.p23", 150, "Compile-time witnesses over the public types (no implicit copy, no overwrite, owning return types); the explicit copies, centre accessors and constructors are summarised and compared field by field, elementwise at arbitrary indices and for every dimension.", tech="static analysis: compile-time type assertions plus abstract interpretation of copies, accessors and constructors")
claim("P24", "bgl.p24", 40, "The adaptor is instantiated over an opaque graph whose interface is declared only; every view and accessor is compared with the operation of the underlying graph it stands for, insertion with exactly one insertion of the given ends, and views must refer to the graph instead of holding a copy.", "The underlying graph library is modelled by its declared interface.")
claim("P25", "small.p25", 25, "The one-dimensional update's partitions are compared with the interval semantics for every radius, centre, nonzero gradient and offset.")
claim("P26", "small.p26", 150, "Every object with static storage duration of the library (namespace scope, static members, function statics, thread-locals) with its initialiser's dependences and uses, every call to functions with process-wide hidden state, and every data member's type.", tech="static analysis: query over declarations, initialiser dependences, uses and calls in the resolved Clang AST")
claim("P13", "ldlt.p13", 1500, "Every pivot pattern of a symmetric matrix (both variants, dimensions up to 3/4 quick, 4/6 thorough), from every previous outcome with otherwise arbitrary previous contents: answer, interval, independence of earlier state, re-reads, and which results may be read.", "The dimension is instantiated; the matrix entries are not (they are written through their own pivots and multipliers, which covers every symmetric matrix).", tech="static analysis: abstract interpretation with symbolic matrix entries per pivot pattern, typestate of the factorisation object")
claim("P14", "ldlt.p14", 100, "Per pivot pattern (as P13): v'Av = -ep <= 0, v nonzero, sym_quad(M) = v'Mv for a symbolic symmetric M, R'R = A entry by entry and R upper triangular, as polynomial identities in the pivots and multipliers.", "The dimension is instantiated; the matrix entries are not.", tech="static analysis: abstract interpretation with polynomial normal forms per pivot pattern")

claim("P12", "oracle.p12", 800, "Every oracle (networks, matrix-inequality, quadratic matrix-inequality, least-squares, likelihood, filter, profit and their robust and discrete variants) is summarised per partition with symbolic coefficients, instantiated dimensions and the factorisation as a contract; each returned cut is compared with the value and symbolic derivative of a constraint or objective function at the queried point, and no cut may be returned when every constraint holds.", "Convexity of the constraint functions themselves is mathematics, not checked.")
claim("P19", "oracle.p19", 800, "The filter oracle's three band scans are followed for every band layout, every cursor position and every sign of each constraint on instantiated grids: which samples are read, in which order, where a scan resumes, where it wraps, and that every index lies in its band.", "Grid sizes are instantiated (up to 3 samples per band), sample values are not.")
claim("P20", "oracle.p20", 800, "As P12, for the optimising oracles: on every partition the target is written exactly when an improvement is announced, with the objective value at the queried or rounded point, and an announced improvement satisfies every constraint the oracle checks.")
claim("P21", "pylib.p21", 80, "Clients using each container operation once are summarised with the library's code inlined; what they return, pass on or leave behind is compared with the mathematical interval, map or set for every argument.", "Standard containers are modelled by their specification.")
claim("P15", "network.p15", 800, "The search is followed on explicit small graphs (cycles, self-loops, parallel edges, tails, several vertex and edge orders) with symbolic weights and distances: on every partition the result is compared with the specified relaxation - distances, whether a cycle of recorded edges is reported, that it is closed, simple, made of the graph's edges and of negative total weight - also for a second search with the same finder.", "Graphs are instantiated (quick: up to 4 nodes; thorough: every graph with 3 nodes and up to 4 edges), weights and distances are not.")
claim("P16", "network.p16", 120, "The parametric solver and the minimum cycle ratio with the cycle search as a contract (any cycle or none, arbitrary distances left behind): weights asked at the current parameter, parameter and cycle updated together, stop conditions, and the ratio as total cost over total time, real and integer.", "Budgets up to 2 (thorough 3) iterations.")

claim("P30", "xnet.p30", 300, "Clients using each operation of the undirected and directed graph classes once, with and without edge data, are summarised with the library's code inlined, on an arbitrary graph (adjacency rows, edge count and node range symbolic), on a new one and on a moved-to one; every partition is compared with the mathematical graph for every node, edge and datum.", "Standard containers are modelled by their specification; lists of edges have up to two elements; nodes are those of an integer range; a directed graph's successor rows are its adjacency rows (established by its constructors, checked on new and moved-to graphs).")

claim("P22", "samples.p22", 250, "The functions are followed on instantiated site counts, sample counts and degrees with symbolic coordinates. A random expression gives a new value at every evaluation and containers evaluate once: the estimate must be symmetric as a polynomial in the draws, a sum of squares group by group, with the scaled kernel as expectation; grid points, distances and powers entry by entry; what the fits hand to the search and return.", "Site counts up to 3 (thorough 5), samples up to 2 (3), degrees up to 4 (5).")

LATER = "Machinery for this property is being built; not claimed yet."
NOT_APPLICABLE = {
    "P27": "Convergence within an iteration bound quantifies over the geometry of arbitrary convex problems and the limit behaviour of the iteration; no sound static argument over the source bounds it (the per-step facts it rests on are P07-P12).",
    "P28": "Definiteness under rounding depends on accumulated floating-point error over unbounded runs; the analysis works over the reals and no static rounding analysis in reach bounds a rank-one update recurrence.",
    "P29": "spectral_fact.cpp is not part of the build here (its dependency is missing) and its correctness is a limit statement about FFT sampling density; there is no compiled construct to analyse.",
}
