#!/usr/bin/env python3
"""writes properties.jsonl (one record per property)"""
import json
import os
I = "lib/include/ellcpp/"
S = "lib/src/"
PROPS = []


def p(id, title, statement, over, text, why, files, mech, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe:
        a["observe_at"] = observe
    PROPS.append({"id": id, "title": title, "statement": statement,
                  "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})


CP = I + "cutting_plane.hpp"
p("P01", "The feasibility search reports exactly what happened",
  "Every iteration of the feasibility search queries the oracle once, at the search space's current centre, and hands exactly the returned cut to the space. "
  "It reports feasible if and only if the oracle returned no cut for the last queried centre, which is then still the centre of the space; otherwise it continues until a cut is rejected, the size measure falls strictly below the tolerance or the budget ends. "
  "The reported status is the rejecting status, the too-small status, or success in the remaining cases.",
  ["inputs", "histories"], "every oracle, search space, tolerance and budget, and every sequence of oracle answers and cut results",
  "The tests run one convergent history per example; a wrong reaction to a rejected cut, to an exact tolerance tie or a stale query point needs a history they never produce.",
  [CP, I + "cut_config.hpp"], [("cutting_plane_feas", CP)])
p("P02", "The optimisation search tracks the best point and reports truthfully",
  "Every iteration of the optimisation search queries the oracle once at the current centre with the current target value and applies the returned cut. "
  "The returned point is the centre of the last query for which the oracle announced an improvement (empty if there was none), recorded before the cut moves the centre, and the search is reported feasible exactly when the target differs from its initial value. "
  "It stops at a rejected cut with that status, or as too small when the size measure is strictly below the tolerance, and otherwise uses its budget.",
  ["inputs", "histories"], "every oracle, search space, tolerance, budget and sequence of oracle answers and cut results",
  "Existing tests only check final flags and iteration counts of a few convergent runs.",
  [CP], [("cutting_plane_dc", CP)])
p("P03", "The discrete search asks for alternatives and keeps the best discrete point",
  "Every iteration of the discrete search queries the oracle at the current centre, telling it to retry exactly when the preceding cut had no effect, and applies the returned cut. "
  "The returned point is the discrete point supplied with the last announced improvement. "
  "A cut without effect ends the search only if the oracle has no alternative left, an infeasible cut or a too-small space ends it with that status, and any other exit reports that no solution was proven.",
  ["inputs", "histories"], "every oracle, search space, tolerance, budget and sequence of oracle answers and cut results",
  "The retry protocol only matters after a cut without effect, which the discrete examples rarely or never reach.",
  [CP], [("cutting_plane_q", CP)])
p("P04", "Iteration budgets are honoured for every budget value",
  "A search with an iteration budget asks the oracle at most that many times for every budget, zero included, and every run ends when oracle and space end. "
  "The reported iteration count is the number of the iteration that ended the search and never exceeds the budget by more than one.",
  ["inputs", "configurations"], "every budget (0, 1 and the maximum included) and every oracle",
  "Tests use the default budget or one that is large enough; budget 0 and 1 are never tried.",
  [CP, I + "cut_config.hpp"], [("cutting_plane_feas / _dc / _q / bsearch", CP)])
p("P05", "Bisection keeps the bracket and halves it",
  "Bisection tests only points between the current lower and upper end, at half the bracket, replaces the upper end by the tested point when the predicate holds and the lower end otherwise, and moves neither otherwise. "
  "It stops as too small exactly when the half width is strictly below the tolerance, and it reports feasible exactly when the upper end moved.",
  ["inputs", "histories"], "every monotone predicate, integer or real bracket, tolerance and budget",
  "Only one or two predicates are bisected by tests.",
  [CP, I + "half_nonnegative.hpp"], [("bsearch", CP), ("half_nonnegative", I + "half_nonnegative.hpp")])
p("P06", "Bisection over a feasibility problem works on copies",
  "Testing a target value informs the oracle of that value first, searches on a copy of the search space with the configured options and answers whether that search was feasible. "
  "The original space changes only in its centre and only after a feasible search, to the feasible point found; the reported best point is the centre of that space.",
  ["inputs", "histories"], "every oracle, space, options and sequence of tested values",
  "Whether an infeasible trial leaves the original space untouched is invisible to the single end-to-end test.",
  [CP], [("bsearch_adaptor", CP)])
p("P07", "A rejected cut leaves the ellipsoid unchanged",
  "If a cut is rejected (no solution, or no effect) the represented ellipsoid - its centre, its scale and its shape matrix - is exactly what it was before the call. "
  "This holds for single and parallel cuts and for the plain and the factorised representation.",
  ["inputs", "histories"], "every ellipsoid of every dimension (factorised variant: instantiated dimensions), every gradient and offsets",
  "Callers retry after a rejection; tests stop there and never compare the state.",
  [S + "ell.cpp", S + "ell_stable.cpp"], [("ell::update", S + "ell.cpp"), ("ell_stable::update", S + "ell_stable.cpp")])
p("P08", "An accepted cut produces the minimum-volume enclosing ellipsoid",
  "After an accepted cut with gradient g and offset(s), the centre has moved by -(rho/omega)Qg, and scale times shape equals delta*kappa*(Q - (sigma/omega) Qg(Qg)'), with omega = g'Qg and rho, sigma, delta the textbook coefficients of the deep, central or parallel cut. "
  "In particular the shape stays symmetric, and the result does not depend on whether the scale is folded into the shape, and it is well defined (no division by zero) for every accepted cut. ",
  ["inputs"], "every dimension >= 2, every symmetric shape, scale > 0, gradient and cut offsets",
  "Tests only observe that runs converge; a wrong coefficient for one kind of cut, or an unsymmetric entry, still converges on the examples.",
  [S + "ell.cpp", I + "ell.hpp"], [("ell::update", S + "ell.cpp"), ("ell::_calc_*", S + "ell.cpp"), ("constructor constants", I + "ell.hpp")])
p("P09", "The factorised ellipsoid performs the same update",
  "An accepted cut changes the ellipsoid represented by the factorised variant - centre, scale, volume and represented matrix - exactly as the plain variant's update formula demands, and the result is well defined for every accepted cut, whatever components of the gradient vanish.",
  ["inputs"], "every factorisation with positive pivots, every gradient and offset, in the instantiated dimensions",
  "The only test compares an iteration count.",
  [S + "ell_stable.cpp"], [("ell_stable::update", S + "ell_stable.cpp")])
p("P11", "The verdict on a cut follows the geometry, in order",
  "For offset beta against tau = sqrt(kappa g'Qg): a cut beyond the ellipsoid is reported as no solution, one that does not reach it as no effect, anything else is accepted; crossed parallel cuts are no solution, and a second cut outside the ellipsoid, a disabled parallel mode or a single offset reduce to the single cut. "
  "The returned size measure is always kappa g'Qg of the ellipsoid before the update.",
  ["inputs"], "every ellipsoid, gradient and offset vector",
  "The decision boundaries (equal to tau, -tau/n, crossed offsets) are measure-zero or rare on the test problems.",
  [S + "ell.cpp", I + "ell.hpp", S + "ell_stable.cpp"], [("ell::_calc_ll_core, _calc_dc, _calc_cc, _calc_ll_cc", S + "ell.cpp")])
OR = I + "oracles/"
p("P12", "Every cut an oracle returns is a valid cutting plane",
  "Every cut (g, beta) an oracle returns is the value and a (sub)gradient, at the queried point, of one of the problem's constraint or objective functions, so that g'(z-x)+beta <= 0 for every feasible (better) z by convexity. "
  "No cut is produced for a point that satisfies every constraint.",
  ["inputs"], "every queried point and every problem data",
  "Tests verify convergence only; a wrong subgradient component or sign in a rarely active constraint goes unnoticed.",
  [S + "lmi_oracle.cpp", S + "lmi0_oracle.cpp", S + "lmi_old_oracle.cpp", S + "qmi_oracle.cpp", S + "profit_oracle.cpp", S + "lowpass_oracle.cpp", S + "lsq_corr_ell.cpp", OR + "network_oracle.hpp", OR + "optscaling_oracle.hpp", OR + "cycle_ratio_oracle.hpp"],
  [("oracle call operators", S)])
p("P13", "The factorisation is consistent whenever its results are read",
  "A factorisation answers positive definiteness by the last factorised matrix only: after any call the reported interval is the one on which the factorisation failed (or empty), a square root is only handed out for a successful (definite) factorisation, a witness only for a failed one, and neither depends on earlier factorisations.",
  ["histories"], "every sequence of factorisations and reads",
  "Stale state from an earlier factorisation shows only in particular sequences.",
  [OR + "ldlt_ext.hpp", S + "ldlt_ext.cpp"], [("ldlt_ext", OR + "ldlt_ext.hpp")])
p("P14", "Factorisation, square root and witness satisfy their equations",
  "A successful factorisation of a symmetric matrix A satisfies A = L D L' with positive pivots, and the square root R satisfies A = R'R with R upper triangular. "
  "A failed one yields a vector v and value ep with v'Av = -ep <= 0 on the reported interval, and the quadratic form of a matrix over that vector is v'Mv; the semidefinite variant accepts zero pivots.",
  ["inputs"], "every symmetric matrix, in the instantiated dimensions",
  "Tests factorise a handful of 3x3 and 4x4 matrices.",
  [OR + "ldlt_ext.hpp", S + "ldlt_ext.cpp"], [("ldlt_ext::factor / factorize / witness / sqrt / sym_quad", OR + "ldlt_ext.hpp")])
p("P15", "Negative-cycle search relaxes exactly and reports real cycles",
  "Relaxation updates the distance of an edge's head exactly when going through the tail is strictly shorter, to that shorter value, recording the edge, and reports whether anything changed; every edge is considered in every pass. "
  "A reported cycle is the closed sequence of recorded edges through its start vertex, every edge exactly once, and the search reports none exactly when no pass changes a distance before a cycle of recorded edges appears.",
  ["inputs", "histories"], "every directed graph, weight function and initial distances",
  "Tests use two small graphs.",
  ["lib/include/netoptim/neg_cycle.hpp"], [("negCycleFinder", "lib/include/netoptim/neg_cycle.hpp")])
p("P16", "The parametric solver returns the critical ratio and its cycle",
  "The parametric search lowers the parameter only to the value computed from a negative cycle found at the current parameter, only when that value is strictly smaller, and remembers that cycle. "
  "The returned value and cycle belong together, and the minimum cycle ratio is total cost divided by total time of the cycle, with weights cost - r*time.",
  ["inputs"], "every graph, cost and time function and initial parameter",
  "Tests check one or two final values.",
  ["lib/include/netoptim/parametric.hpp", "lib/include/netoptim/min_cycle_ratio.hpp"],
  [("max_parametric", "lib/include/netoptim/parametric.hpp"), ("min_cycle_ratio", "lib/include/netoptim/min_cycle_ratio.hpp")])
FR = "lib/include/py2cpp/fractions.hpp"
p("P17", "Rational arithmetic is exact and normalised",
  "Every constructor and operation of the rational type yields the mathematically exact value, in lowest terms with a positive denominator. "
  "Comparisons order the values of the rationals, mixed operations with integers agree with the all-rational ones, and no operand is narrowed on the way.",
  ["inputs"], "every pair of representable rationals whose intermediate products do not overflow",
  "Tests use a few small positive fractions; negative divisors and unreduced operands are not tried.",
  [FR], [("Fraction", FR)])
CS = S + "csd.cpp"
p("P18", "Canonical signed digit conversion round-trips",
  "Converting a number to signed digits with k places and back yields a number within two thirds of a unit of the last place, every digit being the sign of a remainder exceeding two thirds of the current weight, and no two adjacent digits are nonzero. "
  "The fixed-count variant produces at most the requested number of nonzero digits and terminates for every input, and decoding adds each digit with the weight of its position.",
  ["inputs"], "every finite number, every place count from zero on and digit budget, every digit string",
  "Five examples are tested.",
  [CS], [("to_csd, to_csdfixed, to_decimal", CS)])
p("P19", "The filter oracle scans every constraint and never reads out of range",
  "Over successive calls the lowpass oracle checks every sample of the passband, the stopband and the no-man's land before it accepts a point, resumes each scan after the last violated sample, and wraps to the start of that band. "
  "Every sample index lies in its band.",
  ["histories", "inputs"], "every call history and every number of samples and band edges",
  "Round-robin state only matters across particular sequences of violations.",
  [S + "lowpass_oracle.cpp", OR + "lowpass_oracle.hpp"], [("lowpass_oracle::operator()", S + "lowpass_oracle.cpp")])
p("P20", "Optimising oracles change the target only with an announced improvement",
  "An optimising oracle changes the target value exactly when it announces an improvement, then to the objective value attained at the queried (or rounded) point, and never to a worse value. "
  "An announced improvement comes with a point that satisfies every constraint the oracle checks.",
  ["inputs", "histories"], "every queried point, target and problem data",
  "A target that worsens on some infeasible point shows only in special histories.",
  [S + "profit_oracle.cpp", S + "lowpass_oracle.cpp", S + "lsq_corr_ell.cpp", OR + "optscaling_oracle.hpp", OR + "cycle_ratio_oracle.hpp"],
  [("optimising oracle call operators", S)])
PY = "lib/include/py2cpp/py2cpp.hpp"
p("P21", "The Python-style containers behave like their models",
  "A range yields start, start+1, ... up to but excluding stop and nothing when empty; enumeration pairs each element of the underlying container, by reference, with its position from 0. "
  "Dictionary and set membership, defaulted lookup and copies agree with the mathematical map and set they represent.",
  ["inputs", "programs"], "every range, container and key",
  "The container tests are not even built here.",
  [PY], [("py::range, enumerate, dict, set", PY)])
p("P22", "Correlation-fit data are built once and faithfully",
  "A covariance estimate built from random samples uses each sample as a single fixed value, so that the estimate is symmetric, positive semidefinite, has the kernel's expectation, and is the same on every call; site coordinates cover the requested grid, each point once; "
  "distance and power matrices hold the distances of the sites and their powers; the fits search over the coefficients of exactly these matrices and return the point, count and status the search found.",
  ["inputs"], "every sample count, random sequence, site set and degree",
  "Lazy expressions that are re-evaluated look random either way; the tests only look at iteration counts.",
  [S + "lsq_corr_ell.cpp"], [("create_2d_isotropic, create_2d_sites, construct_poly_matrix, lsq_corr_poly2, lsq_corr_poly, mle_corr_poly", S + "lsq_corr_ell.cpp")])
p("P23", "Search spaces are copied explicitly, completely and independently",
  "A search space cannot be copied or overwritten implicitly; the explicit copy represents the same space and shares no state with the original, and the centre handed out is a value that later updates cannot change. "
  "Constructors represent the given diagonal or scalar ellipsoid around the given centre.",
  ["programs", "inputs"], "every program using the public interface",
  "Implicit copies and aliasing are properties of all client programs, not of inputs.",
  [I + "ell.hpp", I + "ell_stable.hpp", I + "ell1d.hpp"], [("copy, xc, set_xc, constructors", I + "ell.hpp")])
NB = "lib/include/py2cpp/nx2bgl.hpp"
p("P24", "The graph adaptor shows exactly the underlying graph",
  "Iterating the adaptor, its edges or the neighbours of a vertex visits exactly the vertices, edges and out-edges of the graph it was built from, the end points of an edge are its source and its target in that order, and the counts and the null vertex are those of the graph. "
  "Inserting an edge inserts exactly that edge (parallel edges and self-loops included) into that graph, and no other access changes it. Views refer to the graph itself.",
  ["inputs", "programs"], "every directed graph, vertex and edge",
  "The tests adapt two or three fixed simple graphs with a few edges.",
  [NB], [("xn::grAdaptor, EdgeView, AtlasView, VertexView", NB)])
p("P25", "The one-dimensional search space keeps exactly the feasible half",
  "A cut on the one-dimensional space reports no solution, no effect or success by comparing the offset with the interval radius along the gradient direction. "
  "After success the interval is exactly the part of the old one on the feasible side, and after a rejection it is unchanged.",
  ["inputs"], "every interval, nonzero gradient and offset",
  "No test uses it beyond one run.",
  [S + "ell1d.cpp", I + "ell1d.hpp"], [("ell1d::update", S + "ell1d.cpp")])
p("P26", "Independent instances do not interfere",
  "Apart from the random test-data generator and data the caller passes by reference, no library object or function reads or writes mutable state shared between instances or calls, so distinct oracles, spaces and factorisations can be used side by side or in different threads.",
  ["schedules", "histories"], "every interleaving of calls on distinct objects",
  "Interference needs two live instances, which tests never have.",
  ["lib/include/ellcpp", "lib/include/netoptim", "lib/include/py2cpp", "lib/src"], [("namespace-scope and static data", "lib")])
XN = "lib/include/xnetwork/classes/"
p("P30", "The network containers behave like the graphs they represent",
  "A graph over a range of nodes holds exactly the nodes of that range and starts without edges. After adding an edge it has that edge - in both directions in an undirected graph, in the given direction only in a directed one - and every edge it had before, and no other; "
  "the number of edges grows by one exactly when the edge was not there; data given with an edge is what is found for it afterwards (in both directions in an undirected graph), adding it again without data keeps what was there, and the data of other edges does not change. "
  "Adding a list of edges with data adds each pair with the datum at its position. Degrees are the numbers of neighbours, successors are the edges leaving a node, and a moved-to graph has the nodes and edges of the original and is changed through its own operations only.",
  ["inputs", "histories", "programs"], "every node range, every graph built by any sequence of insertions, and every edge, datum and query",
  "The tests build fixed graphs and look at a handful of their edges; re-adding an edge, parallel and reversed pairs, self-loops and moved containers hardly occur.",
  [XN + "graph.hpp", XN + "digraphs.hpp"], [("Graph::add_edge, has_edge, degree, number_of_edges", XN + "graph.hpp"), ("DiGraphS::add_edge, successors, has_successor, construction", XN + "digraphs.hpp")])
p("P27", "Searches converge to the optimum within the volume bound",
  "On a convex problem whose solution set contains a ball, the search finds a point of it within the number of iterations given by the ellipsoid volume bound.",
  ["inputs"], "every convex problem", "Only a few problems are run.", [CP, S + "ell.cpp"], [("cutting_plane_*", CP)])
p("P28", "Rounding errors do not break positive definiteness",
  "In floating-point arithmetic the shape matrix stays positive definite over arbitrarily long runs.",
  ["inputs", "histories"], "every sequence of cuts", "Needs long ill-conditioned runs.", [S + "ell.cpp", S + "ell_stable.cpp"], [("update", S + "ell.cpp")])
p("P29", "The spectral factor reproduces the autocorrelation",
  "The spectral factor of a valid autocorrelation sequence is a minimum-phase sequence whose autocorrelation is the given one.",
  ["inputs"], "every autocorrelation sequence", "No test builds it.", [S + "spectral_fact.cpp"], [("spectral_fact", S + "spectral_fact.cpp")])

if __name__ == "__main__":
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as fh:
        for r in PROPS:
            fh.write(json.dumps(r) + "\n")
