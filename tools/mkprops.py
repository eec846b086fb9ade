#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so the text stays reviewable)."""
import json, os
H = "include/integratorxx/"
def P(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    return dict(id=id, title=title, statement=statement,
                quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                anchors=dict(files=[H + f if not f.startswith(("src", "README")) else f for f in files],
                             state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                             observe_at=observe, hook_needed=None))
S2 = ["quadratures/s2/lebedev_laikov.hpp", "quadratures/s2/delley.hpp",
      "quadratures/s2/ahrens_beylkin.hpp", "quadratures/s2/womersley.hpp"]
RAD = ["quadratures/radial/becke.hpp", "quadratures/radial/mhl.hpp",
       "quadratures/radial/muraknowles.hpp", "quadratures/radial/treutlerahlrichs.hpp"]
props = [
P("C01", "Angular size and order lookups are mutually consistent",
  "For each angular family (Lebedev-Laikov, Delley, Ahrens-Beylkin, Womersley) the lookups size->order and order->size are inverse to each other on everything the family supports and answer negative on everything else. Asking for the next available order at or above a requested one returns the smallest supported order that is not below the request (saturating: the largest supported order if the request is above it).",
  ["inputs"], "every 64-bit integer size and every 64-bit integer order (pairs of orders for minimality), all four families",
  "Tests look up a handful of sizes per family; a wrong entry for any other size, a gap in the next-order search or a bad answer for negative/huge arguments is never exercised.",
  S2, [("algebraic_order_by_npts", H + S2[0]), ("npts_by_algebraic_order", H + S2[0]), ("next_algebraic_order", H + S2[0])],
  ["quadrature_traits<...>::algebraic_order_by_npts / npts_by_algebraic_order / next_algebraic_order"]),
P("C02", "Every angular grid is exact up to its advertised order",
  "Every supported angular grid has exactly the requested number of points, all of unit length, and integrates every polynomial on the sphere whose degree does not exceed the order the library reports for that grid: the weighted sum equals the integral over the unit sphere (weights total 4*pi). This holds for every size of every family.",
  ["inputs", "configurations"], "every supported size of the four families, every polynomial (all coefficients in [-1,1] of the orthonormal real spherical harmonics) up to the reported order, points/weights as the constructor delivers them",
  "Tests construct three sizes per family and integrate a few random harmonics; over 200 tables and nearly all harmonics are never touched.",
  S2 + ["util/copy_grid.hpp"], [("generate", H + S2[0]), ("static tables", H + "quadratures/s2/*/"), ("copy_grid", H + "util/copy_grid.hpp")],
  ["points(), weights() of LebedevLaikov/Delley/AhrensBeylkin/Womersley"]),
P("C03", "Unsupported angular sizes are rejected",
  "Constructing an angular quadrature, directly, through the angular factory or as part of a spherical grid, with a number of points that the family does not provide raises an error; it never returns a grid. Supported sizes never raise.",
  ["inputs"], "every 64-bit size, all four families, all construction routes",
  "No test constructs an unsupported size; the documentation promises a failure for arbitrary sizes.",
  S2 + ["generators/impl/s2_factory.hpp", "generators/impl/unpruned_grid.hpp"], [("generate", H + S2[0]), ("S2Factory::generate", H + "generators/impl/s2_factory.hpp")],
  ["constructors", "S2Factory::generate", "SphericalGridFactory::generate_unpruned_grid"]),
P("C04", "Gauss-Legendre rules are exact to degree 2n-1",
  "A Gauss-Legendre quadrature of n points has n strictly increasing nodes inside (-1,1), symmetric about zero, with positive weights, and integrates every polynomial of degree at most 2n-1 over [-1,1] exactly to double precision.",
  ["inputs"], "every n in the bound (1..600 quick, 1..1500 thorough, sampled to 2100) and every polynomial of degree <= 2n-1 with Legendre coefficients in [-1,1]",
  "Tests compare a list of reference sizes and integrate random polynomials for n=10..13 only; other n and other polynomials are unconstrained.",
  ["quadratures/primitive/gausslegendre.hpp", "util/legendre.hpp"], [("generate (Newton iteration)", H + "quadratures/primitive/gausslegendre.hpp"), ("eval_Pn", H + "util/legendre.hpp")],
  ["GaussLegendre::points()/weights()"]),
P("C05", "Gauss-Lobatto rules are exact to degree 2n-3",
  "A Gauss-Lobatto quadrature of n>=2 points contains both end points -1 and 1, has strictly increasing nodes symmetric about zero, positive weights, and integrates every polynomial of degree at most 2n-3 over [-1,1] exactly to double precision.",
  ["inputs"], "every n in the bound (2..600 quick, 2..1500 thorough, sampled to 2100) and every polynomial of degree <= 2n-3 with Legendre coefficients in [-1,1]",
  "Tests compare a list of reference sizes and integrate random polynomials for n=10..13 only.",
  ["quadratures/primitive/gausslobatto.hpp", "util/legendre.hpp"], [("generate (Newton iteration)", H + "quadratures/primitive/gausslobatto.hpp"), ("eval_Pn", H + "util/legendre.hpp")],
  ["GaussLobatto::points()/weights()"]),
P("C06", "Gauss-Chebyshev rules are exact for their weight function",
  "Gauss-Chebyshev quadratures of the first, second and third kind have n strictly increasing nodes strictly inside (-1,1) (third kind: (0,1)) and positive weights, and, with the respective weight function 1/sqrt(1-x^2), sqrt(1-x^2), sqrt(x/(1-x)) put back, integrate every polynomial of degree at most 2n-1 exactly to double precision.",
  ["inputs"], "every n in the bound (1..400 or more quick, 1..800 or more thorough, sampled to 2100 and beyond), the three kinds, every polynomial of degree <= 2n-1 with Chebyshev coefficients in [-1,1]",
  "Tests use reference tables for some sizes and random polynomials for a range of n; small n, other sizes and node ordering are unconstrained.",
  ["quadratures/primitive/gausschebyshev1.hpp", "quadratures/primitive/gausschebyshev2.hpp", "quadratures/primitive/gausschebyshev3.hpp"],
  [("generate", H + "quadratures/primitive/gausschebyshev%d.hpp" % k) for k in (1, 2, 3)], ["points()/weights()"]),
P("C07", "Modified Chebyshev and uniform trapezoid rules are correct",
  "The modified second-kind Gauss-Chebyshev rule has n strictly increasing nodes in (-1,1), symmetric about zero, with positive symmetric weights, both equal to the published Perez-Jorda closed form, and (n>=2) integrates every linear function exactly. The uniform trapezoid rule on [lo,up] with n>=2 points has n equally spaced nodes from lo to up with half weight at the ends and integrates every linear function exactly.",
  ["inputs"], "every n in the bound (1..1100 and sampled to 8200; on [lo,up] 2..200 quick, 2..400 thorough), every real lo<up, every linear function",
  "Neither rule has a unit test; the trapezoid rule is only seen through one radial grid.",
  ["quadratures/primitive/gausschebyshev2modified.hpp", "quadratures/primitive/uniform.hpp"],
  [("generate", H + "quadratures/primitive/gausschebyshev2modified.hpp"), ("generate", H + "quadratures/primitive/uniform.hpp")], ["points()/weights()"]),
P("C08", "Radial transforms are the published maps and their Jacobians match",
  "For each radial scheme (Becke, Murray-Handy-Laming, Mura-Knowles, Treutler-Ahlrichs) the transform is the documented map of its base interval onto (0,inf), strictly increasing with positive values, and the Jacobian it reports is exactly the derivative of that map, at every point of the open base interval and for every positive scale and every admissible exponent.",
  ["inputs"], "every real x in the open base interval, every R>0, every alpha in [0,1] (MHL exponents m = 1,2,3,4), exact real arithmetic",
  "Tests integrate two Gaussians with R=1 defaults and compare two points of one grid; a Jacobian that is wrong for R!=1, other exponents or elsewhere on the interval passes.",
  RAD, [("radial_transform / radial_jacobian", H + f) for f in RAD], ["radial_transform(x), radial_jacobian(x) of the traits types"]),
P("C09", "Radial quadratures combine base rule and transform correctly",
  "A radial quadrature of n points has exactly n points, strictly increasing, finite and positive, with positive weights; point i is the scheme's transform of the i-th interior node of its base rule and weight i is that node's base weight times the transform's derivative there. Points and weights scale linearly with R, and omitted parameters take their documented defaults (R=1, alpha=0.6).",
  ["inputs"], "every n in the bound (1..150, Treutler-Ahlrichs 1..40, sampled to 2100), every R in [2^-10,2^10], alpha in a list of values against the published formula and symbolic in [0,2] for the composition, the four schemes",
  "Tests use n=150/350 with default parameters and Gaussian integrands, which small systematic errors survive.",
  ["quadratures/radial/radial_transform.hpp"] + RAD, [("generate", H + "quadratures/radial/radial_transform.hpp"), ("constructors", H + "quadratures/radial/radial_transform.hpp")],
  ["points()/weights() of Becke, MurrayHandyLaming, MuraKnowles, TreutlerAhlrichs"]),
P("C10", "Spherical product grids contain every radial-angular combination once",
  "A spherical grid built from a radial and an angular quadrature has exactly one point per (radial, angular) pair, located at centre + r*direction, with weight equal to radial weight * angular weight * r^2. This holds for arbitrary radial and angular rules and any centre.",
  ["inputs", "configurations"], "every real radial node/weight, angular vector/weight and centre; sizes up to 4 radial x 4 angular and eight large shapes",
  "Tests use one radial size, one angular size and the origin (or one fixed centre) with a Gaussian integrand.",
  ["composite_quadratures/spherical_quadrature.hpp", "composite_quadratures/product_quadrature.hpp"],
  [("ProductQuadrature traits generate", H + "composite_quadratures/product_quadrature.hpp"), ("SphericalQuadrature traits generate", H + "composite_quadratures/spherical_quadrature.hpp")],
  ["SphericalQuadrature::points()/weights()"]),
P("C11", "Pruned spherical grids use the right angular rule on every shell",
  "A pruned spherical grid contains, for each radial shell, exactly the points of the angular rule assigned to the region that shell belongs to, scaled by the shell radius and shifted to the centre, with weight radial*angular*r^2; every shell occurs in exactly one region and nothing is added or lost. A pruned grid with a single region equals the unpruned grid, and every valid contiguous division into non-empty regions (including one-shell regions) is accepted.",
  ["inputs", "configurations"], "every real radial and angular rule and centre; every division of up to 5 shells into contiguous non-empty regions, angular sizes up to 3, six larger arrangements of up to 100 shells, all accepted ways to build, copy, assign and walk the partition",
  "Tests build only the stock robust/Treutler divisions of 99 shells and compare with a re-implementation at the origin.",
  ["composite_quadratures/pruned_spherical_quadrature.hpp", "composite_quadratures/sub_quadrature.hpp", "generators/impl/pruned_grid.hpp"],
  [("RadialGridPartition", H + "composite_quadratures/pruned_spherical_quadrature.hpp"), ("PrunedSphericalQuadrature traits generate", H + "composite_quadratures/pruned_spherical_quadrature.hpp"), ("SubQuadrature traits generate", H + "composite_quadratures/sub_quadrature.hpp")],
  ["PrunedSphericalQuadrature::points()/weights()"]),
P("C12", "Centring, recentring and cloning preserve the grid",
  "A grid's reported centre is the one it was built with or last moved to, moving a grid translates every point by exactly new centre minus old centre and changes no weight, and any sequence of moves ends at the same grid as constructing at the last centre. Clones and copies are equal to the original and independent of it: moving or editing one never affects the other; this holds for unpruned and pruned grids, also through the common base interface.",
  ["inputs", "histories"], "every real points/weights/centres; every sequence of up to 3 recentre/clone/copy operations on grids of up to 4 points, of 2 operations on grids of up to 527",
  "One test recentres one grid once between two fixed centres; sequences, clones and pruned grids are untested.",
  ["composite_quadratures/spherical_quadrature.hpp", "composite_quadratures/pruned_spherical_quadrature.hpp"],
  [("recenter", H + "composite_quadratures/spherical_quadrature.hpp"), ("clone", H + "composite_quadratures/spherical_quadrature.hpp")], ["center(), points(), weights(), clone()"]),
P("C13", "Batching partitions the grid within the size limit and terminates",
  "Batching a spherical grid always terminates and yields consecutive, non-empty batches of at most the requested maximum size that together contain every original quadrature point exactly once with its own weight. This holds for every arrangement of points, including coinciding and collinear points, and every positive maximum size; a maximum size of zero is rejected.",
  ["inputs", "configurations"], "every arrangement of up to 4 collinear, 3 planar or 3 spatial lattice points, up to 10 coincident points, two clusters of up to 5 points, fixed arrangements and atomic grids of up to 1100 points; every maximum batch size; weights arbitrary reals",
  "One test batches one grid with one maximum size (512); degenerate geometry and other limits are never tried.",
  ["batch/spherical_micro_batcher.hpp"], [("generate_batches", H + "batch/spherical_micro_batcher.hpp"), ("partition_box", H + "batch/spherical_micro_batcher.hpp")],
  ["SphericalMicroBatcher begin()/end()/at()/nbatches()/npts()"]),
P("C14", "Pruning schemes assign the documented angular sizes to the radial range",
  "For every radial size and supported angular size, the robust and Treutler-Ahlrichs schemes produce contiguous, non-empty, ascending regions covering exactly all radial points: robust uses the smallest grid of order at least 7 up to and including shell n/4, the smallest grid of order at least (base order - 6) up to and including shell n/2 (base order itself when it is at most 6), and the requested size beyond; Treutler uses order at least 7 up to n/3, order at least 11 up to n/2 and the requested size beyond. The unpruned scheme is one region over everything; family, radial parameters and requested size are carried over unchanged.",
  ["inputs", "configurations"], "every radial size 1..2^40, every supported angular size of the four families, every scheme; unsupported angular sizes are rejected by the robust scheme",
  "Tests check one radial size (99) and one angular size per family.",
  ["generators/impl/robust_pruning.hpp", "generators/impl/treutler_pruning.hpp", "generators/impl/pruned_grid.hpp"],
  [("robust_psi4_pruning_scheme", H + "generators/impl/robust_pruning.hpp"), ("treutler_pruning_scheme", H + "generators/impl/treutler_pruning.hpp"), ("create_pruned_spec", H + "generators/impl/pruned_grid.hpp")],
  ["PrunedSphericalGridSpecification::pruning_regions"]),
P("C15", "Runtime factories build the same grids as the concrete types",
  "A radial, angular, unpruned or pruned spherical grid built through the runtime factories from enumerators, radial parameters and sizes is point-for-point and weight-for-weight the grid obtained by constructing the corresponding concrete types with the same parameters. Values that are not declared enumerators, radial parameters of a different scheme, mixed angular families in a pruned grid, an empty region list and missing radial parameters all raise an error.",
  ["inputs", "configurations"], "every 32-bit enumerator value, every pair of scheme and parameter type, every real R and alpha in [-8,8], radial sizes up to 12 and listed larger ones, every supported angular size, grids up to 50 x 302 points",
  "Tests check R=1 with two radial sizes and one angular size per family, and no error path.",
  ["generators/impl/radial_factory.hpp", "generators/impl/s2_factory.hpp", "generators/impl/unpruned_grid.hpp", "generators/impl/pruned_grid.hpp", "generators/radial_factory.hpp", "generators/spherical_factory.hpp", "src/spherical_factory.cxx"],
  [("RadialFactory::generate", H + "generators/impl/radial_factory.hpp"), ("S2Factory::generate", H + "generators/impl/s2_factory.hpp"), ("SphericalGridFactory", H + "generators/spherical_factory.hpp")],
  ["RadialFactory::generate, S2Factory::generate, SphericalGridFactory::generate_*, make_radial_traits"]),
P("C16", "Quadrature names parse exactly and case-insensitively",
  "A radial or angular quadrature name maps to its family exactly when it equals one of the accepted names or abbreviations of that family up to letter case; every other string, including prefixes, extensions and the empty string, raises an error. The enumerator reported for a concrete quadrature type is that type's own family.",
  ["inputs"], "every byte string of length 0..20",
  "Tests try each name in upper/lower/mixed case once and no rejected string.",
  ["generators/impl/radial_factory.hpp", "generators/impl/s2_factory.hpp", "generators/radial_factory.hpp", "generators/s2_factory.hpp"],
  [("radial_from_string", H + "generators/impl/radial_factory.hpp"), ("angular_from_string", H + "generators/impl/s2_factory.hpp")],
  ["radial_from_string, angular_from_string, radial_from_type, angular_from_type"]),
P("C17", "Grid specifications and radial parameters compare and copy by value",
  "Radial parameter objects compare equal exactly when they belong to the same scheme and have equal size, scale and exponent; pruning regions and pruned-grid specifications compare equal exactly when all their components do (both missing parameters counts as equal). Equality is symmetric, and copies, assignments and clones of specifications and parameters are equal to and independent of their source.",
  ["inputs"], "every size (64-bit), every real R and alpha, every enumerator value, up to 2 regions per specification, parameters present or missing on either side",
  "Tests compare a few equal specifications; inequality in each single component is barely tested.",
  ["generators/spherical_factory.hpp"] + RAD, [("operator==", H + "generators/spherical_factory.hpp"), ("compare", H + RAD[0])],
  ["operator==, compare, clone, copy construction, assignment"]),
P("C18", "Interval mapping preserves integrals for every kind of interval",
  "Mapping a quadrature node and weight from (-1,1) to an interval (finite, half-infinite on either side, or infinite) moves the node by a strictly increasing map onto the open target interval and multiplies the weight by exactly the derivative of that map at the node.",
  ["inputs"], "every real node in (-1,1), every weight, every real lo<up and every combination of infinite bounds, exact real arithmetic",
  "The mapping has no test.",
  ["util/bound_transform.hpp"], [("transform_minus_one_to_one", H + "util/bound_transform.hpp")], ["transform_minus_one_to_one"]),
P("C19", "Legendre evaluation returns the polynomial, derivative and predecessor",
  "Evaluating the Legendre polynomial of degree n at x returns the value of P_n(x), the value of its derivative and the value of P_{n-1}(x), for every x with x*x != 1.",
  ["inputs"], "every degree 0..24 and every real x in [-4,4] with x^2 != 1; every degree 1..200 (thorough 400), sampled to 1100, and every x in (-1,1); exact real arithmetic",
  "The evaluator is only exercised through Newton iterations near roots.",
  ["util/legendre.hpp"], [("eval_Pn", H + "util/legendre.hpp")], ["eval_Pn"]),
P("C20", "Element access is bounds-checked and sub-rules are exact slices",
  "Indexed access to the points or weights of any quadrature returns exactly the stored element for every valid index and raises an error for every other index, and point and weight storage always have equal size. A sub-quadrature over [b,e) consists of exactly the points and weights with indices b..e-1 in order, and equals the corresponding slice of its parent without altering it.",
  ["inputs"], "every 64-bit index; rules of up to 5 points and four larger ones (up to 1025) with arbitrary contents, scalar and three-dimensional; every 0<=b<e<=n",
  "Tests do not exercise out-of-range access or slices directly.",
  ["quadrature.hpp", "composite_quadratures/sub_quadrature.hpp"], [("points(i)/weights(i)", H + "quadrature.hpp"), ("SubQuadrature traits generate", H + "composite_quadratures/sub_quadrature.hpp")],
  ["points(i), weights(i), npts(), SubQuadrature"]),
P("C21", "Batch access reports tight boxes and consistent contents",
  "Iterating a batcher (also a const one), indexing it and its const access all deliver the same sequence of batches; each batch's box is the exact bounding box of that batch's points, and the batches concatenated are the batched grid's points and weights in storage order. Indexing beyond the last batch raises an error, a clone has the same batches and is independent of the original, and moving the grid translates all points and boxes while keeping the batches.",
  ["inputs", "histories"], "every arrangement of up to 4 points and every division of them into consecutive batches, five divisions of up to 257 points, every 64-bit batch index, arbitrary real weights and centres",
  "One test iterates one batching of one grid; indexing, const access, clones and recentring are untested.",
  ["batch/spherical_micro_batcher.hpp"], [("iterator", H + "batch/spherical_micro_batcher.hpp"), ("get_box_bounds_points", H + "batch/spherical_micro_batcher.hpp"), ("clone", H + "batch/spherical_micro_batcher.hpp")],
  ["begin(), end(), at(), nbatches(), clone(), recenter()"]),
P("C22", "Radial quadratures converge for decaying integrands",
  "With increasing number of points every radial quadrature converges to the exact integral over (0,inf) of r^2*f(r) for smooth f that decays on the length scale of the rule: for every combination, with coefficients in [-1,1], of normalised r^k*exp(-s*r/R) and r^k*exp(-(s*r/R)^2/2), k<=4 and s in {0.5,1,2,4} (Becke, Murray-Handy-Laming), {8,16,32} (Mura-Knowles) or {4,8,16} (Treutler-Ahlrichs, alpha 0 to 1), the error is below 1e-3 from 40 points on, 1e-5 from 60, 1e-6 from 80, 1e-8 from 160, 1e-10 from 320 and 1e-11 from 640.",
  ["inputs", "configurations"], "every combination of the stated functions (coefficients symbolic), every n to 160 (400), strided to 2100 (4200), six scales",
  "Tests integrate Gaussians at two sizes; convergence is a limit statement over a function space.",
  ["quadratures/radial/radial_transform.hpp"], [("generate", H + "quadratures/radial/radial_transform.hpp")], ["points()/weights()"]),
P("C23", "Rules and grids are values",
  "Copying, moving, storing in growing containers, copying or moving into the common base class and editing through the mutable accessors behaves by value for every rule and grid: a copy holds exactly the points and weights of its source at that moment, a move hands them over unchanged, and editing one object never changes another.",
  ["inputs", "histories"], "every sequence of 3 (thorough 4) such operations on rules of up to 2 (3) one- or three-dimensional elements with arbitrary contents and on slices; 2 (3) operations on the one-dimensional, radial and angular rules of the library and on grids",
  "Tests never copy a rule and never edit one.",
  ["quadrature.hpp"] + ["composite_quadratures/sub_quadrature.hpp", "composite_quadratures/spherical_quadrature.hpp", "composite_quadratures/pruned_spherical_quadrature.hpp"],
  [("copy/move constructors", H + "quadrature.hpp"), ("points()/weights()/points_data()/weights_data()", H + "quadrature.hpp")], ["points(), weights(), points_data(), weights_data(), npts()"]),
P("C24", "Results do not depend on what was requested before",
  "Every result of the library is a function of its arguments alone: the points, weights, orders, specifications, batches or errors a request delivers are bit-for-bit those it delivers as the first request of a new process, whatever was requested, refused, edited, moved or destroyed earlier in the same process. Repeating a request repeats its result.",
  ["histories", "inputs"], "33 kinds of request in up to 8 variants of sizes and parameters, real scale and exponent: every pair of variants of one kind with and without a refused request in between, every ordered pair of kinds, every triple of variants of one kind",
  "Tests run each request once or in one fixed order, and their tables are compared within tolerances: a cache with an incomplete key, or state left over from an earlier or refused request, shows only under particular sequences.",
  ["quadratures/primitive/gausslegendre.hpp", "quadratures/radial/radial_transform.hpp", "generators/impl/radial_factory.hpp", "generators/impl/s2_factory.hpp", "generators/impl/pruned_grid.hpp", "generators/impl/unpruned_grid.hpp", "batch/spherical_micro_batcher.hpp", "composite_quadratures/spherical_quadrature.hpp"] + S2,
  [("generate", H + "quadratures/radial/radial_transform.hpp"), ("factories", H + "generators/impl/pruned_grid.hpp")], ["every constructor, factory and lookup"]),
P("C25", "Concurrent construction and const use are free of data races",
  "Threads may construct rules, grids, specifications and batchers, look up orders and parse names at the same time, and may use one and the same rule, parameter object, specification, grid, batcher or partition through const access (reading, comparing, copying, cloning, building further grids from it) at the same time, without a data race.",
  ["schedules", "inputs"], "two threads; every pair of 33 kinds of request in up to 6 (8) variants; every pair of 4 to 6 const uses of one shared object of each kind; all interleavings (accesses are compared pairwise, whatever the order)",
  "No test starts a thread; a lazily filled cache or shared scratch buffer behind a const function is invisible to single-threaded tests.",
  ["quadrature.hpp", "quadratures/primitive/gausslegendre.hpp", "quadratures/radial/radial_transform.hpp", "generators/spherical_factory.hpp", "generators/impl/pruned_grid.hpp", "batch/spherical_micro_batcher.hpp", "composite_quadratures/spherical_quadrature.hpp"] + S2,
  [("generate", H + "quadratures/radial/radial_transform.hpp"), ("const accessors", H + "quadrature.hpp")], ["every constructor, factory, lookup and const member function"]),
P("C26", "Product rules combine every pair of factor elements once",
  "A product rule of two arbitrary rules under an arbitrary combining operation has exactly one element per pair of factor elements, whose point is the operation applied to the two points (first factor first) and whose weight is the operation applied to the two weights; the factors are unchanged and may be slices or empty.",
  ["inputs", "configurations"], "every real content of factors of 0..4 (thorough 6) elements and six shapes up to 1030 elements, scalar and three-dimensional points, a parametrised family of non-commutative operations",
  "The product is only exercised through one spherical grid, whose operation is bilinear.",
  ["composite_quadratures/product_quadrature.hpp", "composite_quadratures/spherical_quadrature.hpp"],
  [("ProductQuadrature traits generate", H + "composite_quadratures/product_quadrature.hpp")], ["quadrature_traits<ProductQuadrature<...>>::generate"]),
P("C27", "Single-precision rules agree with double precision",
  "Every rule and grid instantiated with float delivers, for every size, the nodes and weights of the double-precision rule to single-precision accuracy (one-dimensional nodes and weights 2e-6, trapezoid 4e-6, angular directions 2.5e-7 absolute and weights 1e-6 relative; radial nodes relative 2e-6+2e-7 n^2 and weights four times that; grids 1e-5), refuses exactly the sizes the double-precision rule refuses, and single-precision grids batch within the limit like double-precision ones.",
  ["inputs", "configurations"], "one-dimensional and radial rules n in 1..150 (thorough 400), strided to 600 (1000), Treutler-Ahlrichs and trapezoid 1..60 (200); every supported angular size, every 64-bit unsupported one; grids of 1..4 shells; every batch limit to 60",
  "No test instantiates the library with float; tolerances and tables tuned for double may never converge or lose digits.",
  ["quadratures/primitive/gausslegendre.hpp", "quadratures/primitive/gausslobatto.hpp", "quadratures/primitive/uniform.hpp", "util/legendre.hpp", "util/copy_grid.hpp"] + RAD + S2,
  [("generate (Newton iteration)", H + "quadratures/primitive/gausslegendre.hpp"), ("copy_grid", H + "util/copy_grid.hpp")], ["points()/weights() of the float instantiations"]),
P("C28", "Degenerate sizes are refused or give well-formed results",
  "Whatever size is requested, zero and one included, a rule or grid is either refused with an error or has exactly that many elements, all finite; atomic grids without shells and batches of empty grids are refused or empty; and no memory is accessed out of bounds. One-dimensional rules of two or more points and radial rules of one or more points are always provided, and batching an empty grid with a positive limit gives no batches.",
  ["inputs"], "sizes 0..12 (thorough 64) of the one-dimensional and radial rules, directly and through the factory; grids of 0..6 (12) shells with every pruning scheme; every 64-bit batch limit on empty grids",
  "No test requests a size of zero or one.",
  ["quadratures/primitive/gausslegendre.hpp", "quadratures/primitive/gausslobatto.hpp", "quadratures/primitive/uniform.hpp", "quadratures/radial/radial_transform.hpp", "generators/impl/pruned_grid.hpp", "batch/spherical_micro_batcher.hpp"],
  [("generate", H + "quadratures/primitive/uniform.hpp"), ("generate_batches", H + "batch/spherical_micro_batcher.hpp")], ["constructors, npts(), points(), weights(), nbatches()"]),
]
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in props:
        f.write(json.dumps(p) + "\n")
