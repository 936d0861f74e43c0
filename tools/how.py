# Per property: what is specified and explored, the oracle, the bounds. Filled into DESIGN.md by gen.py.
HOW = {
"C01": ("`Interp1d.tla` defines the value as the point of the segment between the two neighbouring samples, exactly; `Interp1dObj.tla` the object (method, samples in force).",
        "all histories of 4 calls make/initialise/evaluate over the sample lattices {-1,0,2} x {-2,1,3} and query points on, between and beyond the nodes, three methods",
        "2-200 samples, five spacing styles, real and complex ordinates, double and float, queries at nodes, their floating point neighbours and in between, vector queries, re-initialisation"),
"C02": ("same modules: outside the range the action of the method decides (end of the process, end ordinate, end segment's line).",
        "as C01, queries outside, unsupported methods",
        "query points one ulp outside to 1e300 and infinity, both sides, element by element in vector queries"),
"C03": ("`Lut1d.tla`: a table is a partial function name -> series (abscissae and ordinates captured at insertion), plus abscissae and method; moves empty the source.",
        "all histories of 6 operations on two tables and two names; simulation of 24 operations on three tables; temporal properties: a series never changes once added, a move conserves everything",
        "20-operation histories with up to five names, tables of 2-30 samples, Eval by name, all names, vector arguments"),
"C04": ("`Grid.tla` (bilinear value over an exact cell), `Lut2d.tla` (2-D interpolator objects).",
        "all histories of 7 operations on a 2x2..3x3 lattice; invariants: convexity, exactness at nodes, equality with the textbook form",
        "grids to 12x12 with unequal spacing and sizes, double and float, points on nodes, edges, corners, one ulp outside"),
"C05": ("`Lut2d.tla`: as C03 in two dimensions; an insertion that fails leaves the state unchanged (`UNCHANGED tab`).",
        "as C04 plus simulation of 20 operations on two tables, including failing insertions in any state",
        "histories of 25 operations with failing and duplicate insertions, changed axes and methods"),
"C06": ("`Grid.tla` multilinear value in d dimensions with clamping; `GridObj.tla` the object.",
        "all histories of 7 operations, dimensions 1-2 (3 in the deep model); invariants: convexity, clamping idempotent, exactness at nodes, monotone cells",
        "dimensions 1-4, C and Fortran storage order, points inside, on faces, outside, with and without bound checking, double and float"),
"C07": ("`GridObj.tla`: coordinates given so far, variable, validity; refused operations are `UNCHANGED`, copies are independent records.",
        "the same exploration with copies, assignments (over complete, partial and empty objects), destruction of the source and refused calls in every state; simulation to depth 18 with three objects",
        "histories of 20 operations for interpolator and nearest-node objects"),
"C08": ("`GridObj.tla`: per coordinate the nearest node, tie upwards.", "all histories of 6 operations over small lattices with points on nodes and midpoints; uniqueness of the nearest node as invariant",
        "dimensions 1-4, negative and tiny cells, exact midpoints and their neighbours, integer data, float coordinates"),
"C09": ("`GridObj.tla`: the ordered corners.", "as C08; the corners bracket the point", "as C08"),
"C10": ("`Quad.tla`: the trapezoidal rule over the samples in force; `MC_Quad` models the caching integrator with its validity flag and shows that every answer equals the value for the present limits.",
        "all histories of 5 operations on two integrators", "irregular and decreasing abscissae, polynomial callables, copies, changes of limits and method between questions"),
"C11": ("`Quad.tla`: exact integral of a polynomial over a triangle in space by its moments.",
        "every lattice triangle and exponent: additivity, symmetry, moments (the oracle's own correctness)", "orders 1-8, random and needle triangles, scales 1e-6..1e6, all monomials up to the order, complex and vector integrands; orders outside 1..8"),
"C12": ("`Poly.tla`, `Series.tla`: polynomials of mapped coordinates and their partial derivatives by the chain rule.",
        "all histories of 4 calls in 1, 2, 3 dimensions; derivative is the limit of difference quotients", "orders to 8, closed and half-open axes in every combination, infinity, precomputed coefficients interleaved between objects"),
"C13": ("`Series.tla`: the interpolant at the Chebyshev nodes as a Lagrange form, independent of the coefficient formula used in the code.",
        "all histories of compute/convert/evaluate; the specified series interpolates and reproduces", "polynomial functions below and above the order, orders to 18 (conversion refused beyond), recomputation"),
"C14": ("`Units.tla`: a register holds a physical quantity; a conversion keeps it.", "chains of 3 conversions over all units, exactly; monotonicity and round trips", "magnitudes 1e-6..1e6, both precisions, all named functions, constants, vector conversions"),
"C15": ("`Angles.tla`: congruence modulo the exact period (pi as an interval with 60 digits).", "degrees -300..300 in steps of 15, chains of normalisations", "multiples of fractions of the period and their floating point neighbours, denormals, 1e6 turns, integers"),
"C16": ("`Attitude.tla`: the denoted rotation matrix, from exact trigonometry.", "chains of 3 conversions over the 24 right-angle orientations and more", "random and special orientations, pitch to 1e-9 of 90 degrees, half turns, chains of 7"),
"C17": ("`Planar.tla`: registers of vectors; frame condition on every register not the target.", "all histories of 4 operations on two registers including every aliasing of target, operand and lever arm", "three registers, 14 operations, all units, default arguments"),
"C18": ("`Dense.tla`, `Linear.tla`: residuals of the defining equations, orthogonality, triangularity and permutation tests, relative to exact norms.",
        "all histories of 4 operations on two 2x2 registers with entries -1..2; algebraic laws as invariants", "1x1..8x8, tall and wide, rank deficient, graded, scaled 1e-100..1e100, 3x3 and 6x6, float"),
"C19": ("`Linear.tla`: A X = I, the four Moore-Penrose equations for the truncated matrix, optimality conditions A^T(Ax-b) = 0, Lagrange conditions for the constrained problem, characteristic polynomial/power sums for the eigenvalues.",
        "as C18", "condition numbers to 1e8, singular values on both sides of the tolerance, defective and complex spectra"),
"C20": ("`Vectors.tla`: ends, count, spacing.", "small arguments: laws of the generators", "counts 2-400, inexact steps, ranges 1e-300..1e300, refused arguments"),
"C21": ("`Vectors.tla`: registers of vectors and element-wise maps; shapes with their exact discontinuities.", "all histories of 4 operations with aliasing on two registers", "lengths 0-40, special values, integers beyond 2^53, closeness exactly at the threshold"),
"C22": ("`Fourier.tla`: the DFT with exact roots of unity (RatFun), switches as state.", "all histories of 4 calls for lengths 2 and 4; Parseval, round trip", "lengths 2-64 including primes, several objects, all frequency units"),
"C23": ("`Convol.tla`: the circular buffer's history and the trapezoidal sum.", "all histories of 5 pushes and convolutions", "buffers of 2-40, wrapped many times, kernels shorter and longer than the history"),
"C24": ("`BSpline.tla`: collocation with exact rational B-splines on the clamped averaged knots, solved exactly.", "small sample sets: interpolation, partition of unity, reproduction", "2-14 samples, degrees 1-5, ends and nodes, copies"),
"C25": ("`Special.tla`: defining power series summed exactly with a bound on the tail.", "Wronskians, recurrences and derivative identities at a set of orders and arguments", "orders 0-12 and half-integers, arguments to 60, zeros, types int/float/double"),
"C26": ("`Arrays.tla`.", "all histories of 4 in-place operations on two registers of length 3", "lengths 1-12, ties, negative dominant entries, pairs straddling the precision"),
"C27": ("`Linear.tla`.", "as C18", "matrices with one perturbed entry on either side of the stated precision, every triangle and shape"),
"C28": ("`Special.tla`: convergent series with exact tails, asymptotics excluded.", "functional equations at a set of arguments", "both sides of every switch (1, 3, 4, 6, 12, 18, 24), tiny and large arguments, refused ones"),
"C29": ("`Special.tla`: three-term recurrences in exact arithmetic, derivative polynomials.", "recurrence runs from every argument", "degrees 0-40, end points and their neighbours, interleaved runs"),
"C30": ("`Conc.tla`: the result a call has when made alone, and the call each thread is in; `MC_Conc` splits a call into locating and combining and interleaves threads in every way (with a cache in the object, its constant `Hint`, the invariants fail).",
        "every interleaving of two threads with two calls each (three threads in the thorough tier); the thread programs are exported", "real threads without synchronisation run those programs and longer ones (2-6 threads) on 21 kinds of objects; every call's begin and end is recorded and validated, the calls are repeated alone before and after in other orders; the driver is compiled with -fsanitize=thread, and a conflicting access ends the run, which no action of the specification explains"),
"C31": ("`Engine.tla`: the caller's arrays, engines over a copy or over the caller's array, one or 2^N samples per node, both interpolation rules in exact arithmetic.",
        "every history of 4 operations on one array and two engines and every point of a lattice around grids of 1-3 axes: samples fit, bounded by the samples, clamping, both rules equal on edges, affine functions reproduced, doubled samples without jumps equal single ones; behaviours ending in a query are replayed", "longer histories over random grids, points on and next to nodes and simplex boundaries, batches, cell and vertex look-ups, the C functions, wrong sizes"),
}
