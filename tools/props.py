# The list of properties: the single source of properties.jsonl and MANIFEST.json.
NA = []
NOTE = ("The specification is explored exhaustively by TLC for small constants; the implementation is bound to it by replaying those behaviours "
        "and seeded larger histories and validating every recorded call against the specification in exact rational arithmetic. "
        "Assurance for inputs beyond the explored ones rests on the sampling; rounding is allowed for by a stated multiple of the unit roundoff. "
        "Trusted: TLC, the Rat override (java/RatOverrides.java), the driver (drivers/), the compiler.")
SRC = "src/MathUtils/"
PROPS = []


def P(id, title, statement, over, text, why, files, mech, observe, spec, state=(), note=NOTE):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=[SRC + f for f in files],
                      mech=mech, observe=observe, spec=spec, state=list(state), note=note))


P("C01", "1-D interpolation is the exact piecewise-linear interpolant inside the samples",
  "For every set of at least two strictly increasing abscissae and matching real or complex ordinates, and every query point inside the sampled interval (nodes and end points included), a 1-D interpolator returns the point of the straight segment joining the two neighbouring samples, up to rounding, whatever its out-of-range method. "
  "Scalar evaluation, call syntax and vector evaluation agree point by point, and the reported range is the first and last abscissa. "
  "Samples that cannot form an interpolant (no samples, abscissae and ordinates of different lengths, abscissae out of order) are refused when given, by an exception or termination. "
  "After being initialised again an interpolator answers only from the new samples.",
  ["inputs", "histories"], "all sample sets (any length, spacing, magnitude, real/complex, double/float), all in-range query points, all sequences of initialise/evaluate calls",
  "test_interp1d evaluates one uniform 1000-point grid of sin and cos on one interpolator per method; it never re-initialises, never uses irregular spacing, single precision or points equal to nodes.",
  ["Interp1d.h"], [("segment search and coefficients", SRC + "Interp1d.h Interp1dLinearBase::Initialize/PrivEval"), ("factory", SRC + "Interp1d.h MakeInterp1d")],
  ["return value of Eval / operator() / GetXmin / GetXmax"], "Interp1d.tla, Interp1dObj.tla, MC_Interp1d.tla, Trace_Interp1d.tla",
  [("samples", "abscissae and ordinates given last", SRC + "Interp1d.h")])

P("C02", "1-D interpolation beyond the samples follows the selected method",
  "For a query point strictly outside the sampled interval, on either side, however near or far: the plain linear method never returns a value (the process ends with a failure status), the saturating method returns the ordinate of the nearest end sample (also for infinite arguments), and the extrapolating method returns the value of the end segment's straight line. "
  "The same holds for each element of a vector query. "
  "Asking for an unsupported method terminates the process with a failure status.",
  ["inputs", "histories"], "all sample sets, all out-of-range query points on both sides, scalar and vector queries, all methods",
  "test_interp1d looks at a few points below and above one grid; extrapolation above the range was never evaluated (it threw).",
  ["Interp1d.h"], [("range policies", SRC + "Interp1d.h Interp1dLinear/Extrapolate/Saturate::PrivEval")],
  ["return value or termination of Eval / operator()"], "Interp1d.tla, Interp1dObj.tla, MC_Interp1d.tla, Trace_Interp1d.tla")

P("C03", "1-D lookup table keeps independent named series through every history",
  "A 1-D lookup table maps each name to the first series successfully added under it, over the abscissae in force at that moment: adding a name again is refused (returns false) and changes nothing, changing the abscissae affects only series added later, and an unknown name is reported by an exception. "
  "Evaluating one series (scalar or vector) or all of them at once gives for each name exactly that series' interpolation under the table's method; the counts and ranges reported match; ordinates that do not match the abscissae in number, or abscissae out of order, are refused when the series is added. "
  "Moving a table (construction or assignment) transfers all of it, method included.",
  ["histories", "inputs"], "all sequences of create/set abscissae/add/evaluate/move/destroy operations on several tables, all names and sample sets",
  "test_lookup_table builds one table with two series and evaluates it at a few points; no duplicate names, no change of abscissae, no moves.",
  ["LookupTable1D.h", "Interp1d.h"], [("registry", SRC + "LookupTable1D.h AddY/GetIndex/Eval"), ("move operations", SRC + "LookupTable1D.h")],
  ["return values of AddY, Eval, GetNbSeries, GetX, GetXmin/GetXmax"], "Lut1d.tla, MC_Lut1d.tla, Trace_Lut1d.tla",
  [("registry", "name to index map, data and interpolators in step", SRC + "LookupTable1D.h")])

P("C04", "2-D interpolation is the exact bilinear interpolant, and only inside the samples",
  "For every rectangular grid of at least 2x2 strictly increasing coordinates with row-major data (x slow, y fast) and every point of the grid's rectangle (nodes, edges and corners included), the 2-D interpolator returns the bilinear combination of the four samples of the cell, up to rounding; scalar, call and vector evaluation agree. "
  "A point outside the rectangle never yields a value, and an unsupported method, too few data or coordinates out of order are refused. "
  "After being initialised again it answers only from the new samples.",
  ["inputs", "histories"], "all grids (any sizes, spacing, magnitudes, double/float), all points, all initialise/evaluate sequences",
  "test_interp2d checks one function on one square grid at a few points.",
  ["Interp2d.h"], [("cell search and coefficients", SRC + "Interp2d.h Interp2dLinear")], ["return value or termination of Eval / operator()"],
  "Grid.tla, Lut2d.tla, MC_Lut2d.tla, Trace_Lut2d.tla")

P("C05", "2-D lookup table keeps its named series; failed insertions leave no trace",
  "A 2-D lookup table maps each name to the first series successfully added under it over the axes in force at that moment; adding a known name is refused (returns false) without effect, and an insertion that fails (too few data, axes out of order, unsupported method) leaves the table exactly as it was, so that every later insertion and evaluation behaves as if it had not been attempted. "
  "Changing axes or method affects only series added later. "
  "Evaluating a name (by two coordinates, a coordinate vector or a list of points) gives that series' bilinear interpolation, an unknown name raises an exception, and membership, counts and axes reported match.",
  ["histories", "fault_sequences", "inputs"], "all sequences of set axis/set method/add (successful, duplicate, failing)/evaluate/query operations",
  "test_lookup_table adds one 2-D series and evaluates it; no failing insertion, no second series, no change of axes.",
  ["LookupTable2D.h", "Interp2d.h"], [("registry", SRC + "LookupTable2D.h AddData/GetIndex/Eval/HasSerie")],
  ["return values and exceptions of AddData, Eval, HasSerie, GetNbSeries, GetNbSample, GetX, GetY"], "Lut2d.tla, MC_Lut2d.tla, Trace_Lut2d.tla",
  [("registry", "name to index map, data and interpolators in step", SRC + "LookupTable2D.h")])

P("C06", "N-D regular-grid interpolation is multilinear, clamped outside, or bound-checked",
  "For every grid of 1 to 4 strictly increasing coordinate vectors and every variable on it, interpolation at a point inside the grid returns the multilinear combination of the 2^d surrounding samples, up to rounding, independently of the storage order of the array given. "
  "Outside the grid the point is first clamped to the grid in each coordinate, unless bound checking is requested, in which case exactly the points outside raise an exception. "
  "Evaluation by node indices returns the sample itself.",
  ["inputs"], "all dimensions 1..4, grids, variables, points inside/outside/on nodes, double and float",
  "test_regular_grid_interpolator interpolates a few functions on fixed grids at a few points.",
  ["RegularGridInterpolator.h", "thirdparty/linterp.h"], [("cell search and unit-cube recursion", SRC + "thirdparty/linterp.h InterpMultilinear"), ("bound check", SRC + "RegularGridInterpolator.h Interp")],
  ["return value or exception of Interp, EvalAtIndice"], "Grid.tla, GridObj.tla, MC_Grid.tla, Trace_Grid.tla")

P("C07", "Refused operations and copies never corrupt a regular-grid object",
  "A regular-grid interpolator is valid exactly from its first accepted variable on; a coordinate vector that is not strictly increasing and a variable whose shape is not that of the grid are refused with an exception and leave the object as it was (valid with its previous variable, or not yet valid), while too many coordinates, an incomplete grid or a coordinate index beyond the dimension terminate the process with a failure status. "
  "A copy or an assigned object equals its source at that moment, in any stage of construction, and afterwards the two are independent, also after the source is changed or destroyed (regular-grid nearest-node objects too). "
  "Coordinates, limits and dimension reported are those given.",
  ["histories", "fault_sequences"], "all sequences of construct/add coordinate/add variable/copy/assign/destroy/evaluate operations on several objects, including refused operations at any point",
  "The tests build complete objects once, copy one complete interpolator, and never let an operation fail.",
  ["RegularGridInterpolator.h", "RegularGridNearest.h", "thirdparty/linterp.h"], [("copy and rebuild", SRC + "RegularGridInterpolator.h operator=/_BuildInterpolator/AddVar/AddCoord")],
  ["IsValid, Interp, GetCoord, GetCoordMinVal, GetCoordMaxVal, exceptions, termination, sanitizer reports"], "GridObj.tla, MC_Grid.tla, Trace_Grid.tla",
  [("grid object", "coordinates, variable, validity", SRC + "RegularGridInterpolator.h")])

P("C08", "Nearest-node lookup returns the nearest node, consistently",
  "For every complete nearest-node grid and every point, the node returned is, independently in each coordinate, the nearest grid coordinate (an exact tie goes to the upper one; beyond the grid it is the end node). "
  "Its indices, coordinates and value belong together, and asking directly for the data gives that node's value.",
  ["inputs"], "all dimensions 1..4, all coordinate vectors (double, float, integer) and data (numbers, objects of class type), all points including nodes, midpoints and points outside",
  "test_regular_nearest looks up a handful of points of a 1-D and a 2-D grid; direct data access was never called (it returned nothing).",
  ["RegularGridNearest.h"], [("per-axis search", SRC + "RegularGridNearest.h Nearest")], ["indices, coords and val of the node returned, GetData"], "GridObj.tla, MC_Grid.tla, Trace_Grid.tla")

P("C09", "The surrounding nodes of a point are the ordered corners of its cell",
  "For every complete nearest-node grid of dimension d and every point, exactly 2^d nodes are returned, ordered with the first dimension varying slowest and the lower side first; in each coordinate they are the two neighbouring grid coordinates a <= x < b, or the end node on both sides when the point is below the first or at/above the last coordinate. "
  "Each node's indices, coordinates and value belong together.",
  ["inputs"], "all dimensions 1..4, all coordinate vectors and data, all points",
  "test_regular_nearest asks once for the nodes around one interior point of a 2-D grid; below the grid the wrong end was returned.",
  ["RegularGridNearest.h"], [("corner enumeration", SRC + "RegularGridNearest.h GetSurroundingGridNodes/GetNode")], ["the vector of nodes returned"], "GridObj.tla, MC_Grid.tla, Trace_Grid.tla")

P("C10", "Numerical integration is the trapezoidal rule of the current data and limits",
  "For every sampled or callable integrand and every sequence of changes of the lower limit, upper limit and method, an integrator's value is the trapezoidal rule for the samples (or the function at n equally spaced points) on the limits in force when it is asked for; it never returns a value computed before the last change, and an unsupported method yields an exception, never a value. "
  "The free trapezoid functions return the trapezoidal sum for every abscissa order (decreasing gives the opposite sign) and every uniform step, the default step being one. "
  "Copies are independent; limits and sizes reported are those set.",
  ["inputs", "histories"], "all sample vectors of length >= 2, limits in any order, polynomial integrands, all sequences of set/get/copy operations",
  "test_integration evaluates each integrator once on one fixed function; no change of limits or method afterwards, no decreasing abscissae, no irregular grid.",
  ["Integration1d.h"], [("lazy evaluation and invalidation", SRC + "Integration1d.h Integrate1d::Get/SetXmin/SetXmax/SetIntegrationMethod"), ("sum", SRC + "Integration1d.h Trapz, Integrate1d::Compute*")],
  ["return value or exception of Get, Trapz and the getters"], "Quad.tla, MC_Quad.tla, Trace_Quad.tla",
  [("integrator", "limits, method, integrand, whether the cached value is current", SRC + "Integration1d.h")])

P("C11", "Triangle quadrature is exact up to its order for every triangle",
  "For every quadrature order 1 to 8, every triangle in space (any position, orientation, size, needle-shaped or degenerate) and every polynomial integrand (real, complex or vector valued) of total degree not exceeding the order, the two-dimensional integration over the triangle returns the exact integral, up to rounding, and its orientation does not matter, nor what the same integrator computed before. "
  "An order outside 1..8 never yields a value. The table store returns, per order, the points and weights it was given.",
  ["inputs", "histories"], "all orders, all triangles, all polynomials up to the order's degree, all sequences of integrations with one integrator",
  "test_integration_2d integrates three functions on two right-angled triangles to loose tolerances.",
  ["Integration2dTriangle.h", "QuadratureTables.h"], [("Dunavant tables and mapping", SRC + "Integration2dTriangle.h, QuadratureTables.h")],
  ["return value or termination of the triangle integrator"], "Quad.tla, MC_Tri.tla, Trace_Quad.tla")

P("C12", "Power series and Horner evaluation equal the polynomial and its derivatives",
  "For every coefficient array in one, two or three variables, every axis kind (closed interval or half-line) and every point of the domain, a power series evaluates to the polynomial of the mapped coordinates, and its x, y and z derivative methods to the exact partial derivatives in the original coordinates. "
  "Evaluation at z = infinity is the limit; evaluation with coefficients precomputed for a z (or for infinity) equals evaluation at that z; the joint value-and-derivatives method agrees with the separate ones; coefficients, orders, limits and type reported are those given. "
  "Horner evaluation and Horner derivative (real or complex argument) equal the polynomial and its derivative.",
  ["inputs", "histories"], "all coefficient arrays, axis kinds and limits, points, and interleavings of precomputation and evaluation on several objects",
  "test_power_series compares a few series with a Chebyshev series at a few points; the derivative with predefined z was never called with x different from y.",
  ["PowerSeries1d.h", "PowerSeries2d.h", "PowerSeries3d.h", "Polynomial.h"], [("evaluation", SRC + "PowerSeries{1,2,3}d.h, Polynomial.h")],
  ["return values of Evaluate*, Horner, Horner_derivative, getters"], "Poly.tla, Series.tla, MC_Series.tla, Trace_Series.tla, Quad.tla, Trace_Quad.tla",
  [("series", "axes and coefficients", SRC + "PowerSeries{1,2,3}d.h")])

P("C13", "Chebyshev series are the interpolant at the Chebyshev nodes, however recomputed",
  "For every function, order and domain (closed intervals and half-lines, one to three variables) the Chebyshev series holds the coefficients of the polynomial interpolant at the Chebyshev nodes in the mapped coordinates: it reproduces every polynomial within its order, evaluates to the interpolant, its derivative methods give the interpolant's exact derivatives in the original coordinates, and computing the coefficients again changes nothing. "
  "The converted power series is the same function; conversion beyond order 18 is refused and never yields coefficients.",
  ["inputs", "histories"], "all polynomial test functions within and beyond the order, all orders, domains, points, and sequences of compute/evaluate/convert",
  "test_chebyshev_series compares one function per domain with its series at a few points, once per object.",
  ["ChebyshevSeries1d.h", "ChebyshevSeries2d.h", "ChebyshevSeries3d.h"], [("coefficient computation, evaluation and conversion", SRC + "ChebyshevSeries{1,2,3}d.h")],
  ["return values of Evaluate*, PowerSeriesCoefficients, termination"], "Poly.tla, Series.tla, MC_Series.tla, Trace_Series.tla",
  [("series", "axes, orders, coefficients, whether computed", SRC + "ChebyshevSeries{1,2,3}d.h")])

P("C14", "Unit conversions preserve the physical quantity, through any chain",
  "For every number and every pair of velocity units (m/s, knot of 1852 m per hour, km/h) or frequency units (hertz, rad/s, deg/s, deg/min, period in seconds, rpm), the generic and the named conversion functions return the number that denotes the same quantity in the target unit, up to rounding; hence any chain of conversions is path independent and a conversion to the same unit changes nothing. "
  "The vector conversions (degrees, radians, knots) convert every element, in place or by copy, and a copying conversion leaves its source alone. "
  "The unit constants have their mathematical values.",
  ["inputs", "histories"], "all non-zero numbers in double and float, all ordered pairs of units, all sequences of conversions, vectors of any length",
  "test_unit compares a few conversions at one value each; chains, periods and most pairs are never evaluated (rad2deg by copy did not even compile).",
  ["Unit.h", "Constants.h"], [("conversion tables", SRC + "Unit.h convert_velocity_unit/convert_frequency"), ("constants", SRC + "Constants.h")],
  ["return values and vectors after the call"], "Units.tla, MC_Units.tla, Trace_Units.tla", [("register", "a number and its unit", SRC + "Unit.h")])

P("C15", "Angle normalisation returns the congruent angle in its half-open interval",
  "For every finite angle, positive or negative, arbitrarily close to a multiple of the half period, in degrees or radians, double, float or (degrees) integer, each normalisation returns the angle congruent to it modulo one turn that lies in its interval: [0, 360[, [0, 2pi[, ]-180, 180], ]-pi, pi]; an angle already in a [0, period[ interval is returned unchanged. "
  "The trigonometric helper returns the cosine and sine of the angle in the unit given. "
  "A unit name other than DEG or RAD is refused and never yields a unit.",
  ["inputs", "histories"], "all finite angles and all sequences of normalisations",
  "test_angle checks ten hand-picked angles per function; negative angles went through the modulo functions unchanged, and tiny negative ones returned the period itself.",
  ["Angles.h"], [("modulo and normalisation", SRC + "Angles.h modulo2pi/modulo360/Normalize_*"), ("trigonometry", SRC + "Angles.h _GetTrigo")],
  ["return values, termination"], "Angles.tla, RatFun.tla, MC_Angles.tla, Trace_Angles.tla")

P("C16", "Attitude conversions never change the orientation",
  "For every orientation, converting between ZYX Euler angles (roll, pitch, yaw), unit quaternion and rotation matrix, in any order and any number of times, keeps the rotation it denotes up to rounding amplified by 1/cos(pitch): matrices stay rotations, quaternions keep unit norm, angles stay in [-pi, pi] (pitch in [-pi/2, pi/2]) and are always finite. "
  "At the gimbal lock the pitch is kept.",
  ["inputs", "histories"], "all orientations (half turns, quarter turns, pitch arbitrarily close to 90 degrees) and all sequences of conversions",
  "test_geometry converts one set of angles each way; round trips, w = 0 and pitch near 90 degrees (where the result was NaN) are never tried.",
  ["Geometry.h"], [("conversions", SRC + "Geometry.h")], ["values returned by the conversion functions"], "Attitude.tla, RatFun.tla, MC_Attitude.tla, Trace_Attitude.tla",
  [("register", "a representation of the orientation", SRC + "Geometry.h")])

P("C17", "Planar frame changes are rotations, in place or by copy, in any sequence",
  "For every planar vector, angle (degrees or radians) and sequence of operations: projection from the local to the north-east frame rotates the vector by the angle, the opposite projection is its inverse, the single-axis projections are the corresponding components, and building a vector from local components or from a velocity with units is the same as projecting it. "
  "Transporting a velocity adds rotation rate times lever arm, in the frequency unit given. "
  "A vector constructed from or assigned an algebraic expression of vectors has the components of the expression. The in-place, output-argument and returning forms agree; no operation changes a vector other than its target; the infinity norm is the largest absolute component and equality is relative to the precision given.",
  ["inputs", "histories"], "all vectors and angles in double and float, all sequences of in-place and copying operations on several vectors",
  "test_vector2d projects one vector at one angle; the norm with negative components, units other than the default and chains of operations are never checked.",
  ["Vector2d.h"], [("projection and transport", SRC + "Vector2d.h")], ["components of every vector after each call, returned values"], "Planar.tla, Units.tla, MC_Planar.tla, Trace_Planar.tla",
  [("vectors", "two components each", SRC + "Vector2d.h")])

P("C18", "Matrix decompositions satisfy their defining equations, or are refused",
  "For every real matrix (square, tall, wide, rank deficient, graded, any scale) of dynamic size, 3x3 or 6x6, in double or float: QR returns Q with orthonormal columns and upper triangular R with QR = A, in the thin and in the full shape; LU of a square matrix returns a permutation, a unit lower and an upper triangular matrix whose product is A; the SVD returns orthogonal U and V and non-increasing non-negative singular values with U S V^T = A; all up to rounding, and none of them changes the matrix. "
  "Cholesky returns a lower triangular L with L L^T = A when A is symmetric positive definite, and refuses (never returns a factor for) a matrix that is not square, not symmetric or not positive definite. "
  "The rank-one update returns the factor of A + s v v^T, by copy or in place.",
  ["inputs", "histories"], "all matrices and all sequences of decompositions, updates and element changes on the same object",
  "test_matrix decomposes one random square matrix of each kind; rectangular, rank deficient, ill scaled and non-symmetric ones are never tried.",
  ["Matrix.h", "Matrix33.h", "Matrix66.h"], [("decompositions", SRC + "Matrix.h GetQRDecomposition/GetLUDecomposition/GetCholeskyDecomposition/GetCholeskyUpdate/InPlaceCholeskyUpdate/GetSVDDecomposition and their Matrix33/66 counterparts")],
  ["returned factors, the matrix after the call, termination"], "Dense.tla, Linear.tla, MC_Linear.tla, Trace_Linear.tla", [("matrix", "rows of exact numbers per register", SRC + "Matrix.h")])

P("C19", "Inverses, pseudo inverses, solvers and eigenvalues satisfy their equations",
  "For every real matrix A and right-hand side (dynamic size, 3x3, 6x6, double or float), up to rounding amplified by the condition number: Inverse and GetInverse give X with A X = I, in place or by copy; the pseudo inverse satisfies the four Moore-Penrose equations for A with the singular values not exceeding the given tolerance dropped, in any shape; LUSolver returns x with A x = b; LeastSquareSolver minimises |A x - b|; LeastSquareSolverConstraint minimises it among the x with C x = d; the eigenvalues returned are those of A with multiplicity, complex ones included. "
  "None of the copying operations changes its operands.",
  ["inputs", "histories"], "all matrices and right-hand sides, all sequences of operations on the same object",
  "test_matrix inverts and solves one random well-conditioned square system; the 3x3 and 6x6 least-squares solvers aborted whenever they were called.",
  ["Matrix.h", "Matrix33.h", "Matrix66.h"], [("inverses and solvers", SRC + "Matrix.h Inverse/GetPseudoInverse/LUSolver/LeastSquareSolver/LeastSquareSolverConstraint/Eigenvalues and Matrix33/66 counterparts")],
  ["returned matrices, the matrix after the call, termination"], "Dense.tla, Linear.tla, MC_Linear.tla, Trace_Linear.tla", [("matrix", "rows of exact numbers per register", SRC + "Matrix.h")])

P("C20", "Generated sample vectors have the stated ends, count and spacing",
  "For every range in double or float: linspace returns exactly the number of points asked for, the first being start, the last stop, the others equally spaced up to rounding and never leaving the range; logspace returns base to the power of those points; arange returns start, start + step, start + 2 step, ... up to but excluding stop. "
  "Fewer than two points, a reversed range or a non-positive step is refused and never yields a vector.",
  ["inputs"], "all ranges, counts, steps and bases",
  "test_vector_generation compares a few exactly representable ranges; arange returned stop itself, or accumulated rounding until a sample was missing.",
  ["VectorGeneration.h"], [("generation", SRC + "VectorGeneration.h linspace/logspace/arange")], ["returned vector, termination"], "Vectors.tla, MC_Vectors.tla, Trace_Vectors.tla")

P("C21", "Element-wise vector arithmetic, signal shapes and scalar helpers are exact maps",
  "For every vector of any length, double or float: Add, Minus, Mult, Divide, adding a scalar, Scale, Negate, Pow, Sum and the real, imaginary, amplitude and phase (radians, degrees) maps of complex vectors act element by element, in place or by copy, change no vector other than their target (which may be one of the operands) and refuse vectors of different lengths. "
  "Sinc, Heaviside, Door, Dirac and Ramp take at every sample the value of the function they are named after, discontinuities and end points included. "
  "sgn, sgn_sqrt, Saturate, is_even/is_odd and the closeness tests (relative plus absolute tolerance, 1e-5 and 1e-8 unless given, scalar and vector, asserting form included) answer exactly for every number of every supported type.",
  ["inputs", "histories"], "all vectors, all aliasing patterns and sequences of in-place and copying operations, all scalars of double, float, int, long and unsigned type",
  "test_std_vector and test_functions try one vector per operation with distinct operands; negative numbers, large integers and samples at a discontinuity are never tried.",
  ["StdVector.h", "Functions.h", "Maths.h", "Check.h", "Complex.h"], [("maps", SRC + "StdVector.h, Complex.h"), ("shapes", SRC + "Functions.h"), ("scalars", SRC + "Maths.h, Check.h")],
  ["every vector after each call, returned values, termination"], "Vectors.tla, RatFun.tla, MC_Vectors.tla, Trace_Vectors.tla", [("registers", "vectors of exact numbers", SRC + "StdVector.h")])

P("C22", "The FFT equals the discrete Fourier transform under the switches in force",
  "For every real signal of length 2 or more (powers of two or not) in double or float, the forward transform returns the DFT, all bins, or the first n/2+1 of them in half-spectrum mode; the inverse transform of a conjugate-symmetric spectrum (of a half spectrum: of the even-length signal it stands for) returns the samples, divided by the length unless scaling was switched off; so inverse after forward is the identity. "
  "The frequency vector has one entry per bin, k fs / n in the frequency unit asked for. "
  "The result depends only on the input and on the switches in force, whatever the object transformed before.",
  ["inputs", "histories"], "all signals and lengths, all interleavings of switch changes and transforms on several objects",
  "test_fft transforms one cosine of one length, and never changes a switch on an object that was used before.",
  ["FFT.h"], [("transform object", SRC + "FFT.h")], ["spectra, samples and frequencies returned"], "Fourier.tla, Units.tla, MC_Fourier.tla, Trace_Fourier.tla", [("switches", "half spectrum, scaling", SRC + "FFT.h")])

P("C23", "The convolution equals the trapezoidal sum over the recorded history",
  "For every kernel, time step and history buffer (filled, partly filled, or wrapped round any number of times by pushes at either end), the convolution returns the trapezoidal integral of kernel times history, the history read newest-first or oldest-first as asked, up to rounding; it leaves the history as it was, and a history shorter than the kernel is refused and never yields a value.",
  ["inputs", "histories"], "all kernels and time steps, all sequences of pushes and convolutions on a circular buffer",
  "test_convolution convolves one history with one kernel, in one direction, before the buffer has wrapped.",
  ["Convolution.h"], [("convolution", SRC + "Convolution.h")], ["return value, the buffer after the call, termination"], "Convol.tla, MC_Convol.tla, Trace_Convol.tla", [("buffer", "capacity and samples", SRC + "Convolution.h")])

P("C24", "Splines interpolate their samples and are the clamped B-spline of their degree",
  "For every set of strictly increasing abscissae and samples and every degree 1 to 5, the spline passes through every sample, reproduces every polynomial of its degree (of degree n-1 when there are only n <= degree samples), and between the samples equals the interpolating spline on the clamped averaged knot vector, over the whole closed range, ends included. "
  "It does not matter in which container the samples were given, whether the object was copied, or what other splines were built before; the samples given are not changed.",
  ["inputs", "histories"], "all sample sets, degrees, evaluation points, and sequences of constructing, copying and evaluating",
  "test_spline builds one cubic spline of one function and compares it at a few points to a loose tolerance.",
  ["Spline.h"], [("spline", SRC + "Spline.h")], ["values returned by the spline"], "Dense.tla, BSpline.tla, MC_BSpline.tla, Trace_BSpline.tla", [("spline", "samples, degree, knots, coefficients", SRC + "Spline.h")])

P("C27", "Matrix manipulations and predicates are exact, in place or by copy",
  "For every matrix (dynamic size, 3x3, 6x6, double or float) and every sequence of operations: transposing in place or by copy, symmetrising from the upper or the lower triangle, setting to identity or zero, setting and reading elements, rows and columns give exactly the matrix they denote and change nothing else; a matrix constructed from or assigned an algebraic expression of matrices has the entries of the expression; randomising keeps the size and fills with values in [-1, 1]. "
  "IsSquare, IsSymmetric, IsIdentity, IsOrthogonal, IsPositiveSemiDefinite and IsEqual answer whether the matrix has the property to within the stated (or default) relative precision, and leave it unchanged; comparing is insensitive to which triangle or entry differs. Positive semi-definiteness is judged by the real parts of the eigenvalues, whether or not the matrix is symmetric.",
  ["inputs", "histories"], "all matrices and sequences of manipulations and questions",
  "test_matrix asks each predicate about one matrix that has the property; near misses, rectangular matrices and single differing entries are never tried.",
  ["Matrix.h", "Matrix33.h", "Matrix66.h"], [("manipulation and predicates", SRC + "Matrix.h, Matrix33.h, Matrix66.h")], ["matrices after the call, boolean answers"], "Dense.tla, Linear.tla, MC_Linear.tla, Trace_Linear.tla", [("matrix", "rows of exact numbers per register", SRC + "Matrix.h")])

P("C25", "Bessel and Hankel functions and their derivatives have their mathematical values",
  "For every integer order from 0 and half-integer order, and every argument in the domain, J, Y, I, K and the Hankel function of the first kind, and the derivative of each, return the value of the function they are named after, up to rounding (near a zero: relative to the neighbouring orders). "
  "J and I and their derivatives are also defined at zero and, for integer orders, at negative arguments; Y and K never yield a value there. "
  "The argument and order may be of integer, single or double precision type without changing which function is evaluated.",
  ["inputs"], "all orders 0..12 and half-integer orders, all arguments including zero and the neighbourhood of zeros, all argument types",
  "test_BoostFunctions compares each function with one six-digit value at x = 1.2345 and order 0 or 0.5; no derivative is ever evaluated (at x = 0 they were NaN).",
  ["BoostFunctions.h"], [("Bessel functions", SRC + "BoostFunctions.h Cyl_*")], ["return value or exception"], "Special.tla, RatFun.tla, MC_Special.tla, Trace_Special.tla")

P("C26", "Algebraic vectors: in-place changes and questions are exact through any history",
  "For every VectorN, Vector3d and Vector6d (double or float) and every sequence of operations: element access, setting, zeroing, filling with ones, sorting (both directions) and reversing change exactly the vector they are applied to, into exactly the components they denote; a vector constructed from or assigned an algebraic expression of vectors has the components of the expression; randomising keeps the size and fills with values in [-1, 1]; default construction of the fixed-size ones gives the null vector. "
  "The infinity norm is the largest absolute component; outer products, diagonal matrix and transposition have the entries, and the inner product the value, that define them, as member or free function; equality is relative to the norm and the precision given (or its default), whatever the order of the operands. "
  "Normalising keeps the direction and gives norm 1 (the null vector stays; components so small that their squares underflow are excluded), IsUnit answers whether the norm is 1 to the standard closeness, and the projected angles are those of the projections on the coordinate planes, in the unit asked for. "
  "Questions change nothing.",
  ["inputs", "histories"], "all vectors of all sizes, all sequences of operations on several vectors",
  "test_vectorN sorts and compares one random vector; test_vector3d checks a few constants; negative dominant components, equal-to-precision pairs, half-plane boundaries of the angles and outer products of different vectors are never checked.",
  ["VectorN.h", "Vector3d.h", "Vector6d.h"], [("vectors", SRC + "VectorN.h, Vector3d.h, Vector6d.h")], ["components of every vector after each call, returned values"], "Dense.tla, Arrays.tla, MC_Arrays.tla, Trace_Arrays.tla", [("vectors", "exact components per register", SRC + "VectorN.h")])

P("C28", "Exponential integrals, Struve and gamma functions have their values or refuse",
  "For every argument: Ei, E1 and exp(-x)Ei(x) return the exponential integrals up to rounding, over the whole range and across every internal switch of formula; the approximations of Ei and E1 agree with them to double precision for every positive argument (arguments below 1e-8 may be refused); the Struve functions of order 0 and 1 and the derivative of the former are within 4e-8 of their values for every non-negative argument; gamma and factorial return their values up to rounding. "
  "Arguments outside the domain (x <= 0 for E1 and the approximations, x = 0 for Ei, negative for Struve, poles and overflow of gamma and factorial) never yield a value.",
  ["inputs"], "all arguments, in particular on both sides of every formula switch (1, 3, 4, 6, 12, 24), tiny and large ones",
  "test_BoostFunctions compares Ei and E1 at a handful of points to 1e-5 or 1e-10; four mistyped coefficients (errors up to 9e-4) passed it.",
  ["BoostFunctions.h"], [("approximations", SRC + "BoostFunctions.h Ei/Ei_approximation/expEi/E1/E1_approximation/Struve_*/Gamma/Factorial")], ["return value or termination"], "Special.tla, RatFun.tla, MC_Special.tla, Trace_Special.tla")

P("C29", "Legendre and Chebyshev polynomials, derivatives and recurrence are exact",
  "For every degree and argument, the Legendre polynomial and its derivative on [-1, 1] (outside it: never a value), the Chebyshev polynomial, its derivative and the shifted Chebyshev polynomial T_n(2x-1), inside and outside [-1, 1], return the value of that polynomial up to rounding, in double or float. "
  "The next-Chebyshev function continues the recurrence: started from T_0 and T_1 it yields T_n for every n, for several interleaved runs.",
  ["inputs", "histories"], "all degrees (0..40), all arguments including the end points and beyond, all interleavings of recurrences",
  "test_BoostFunctions evaluates degree 3 at x = 0.25; the shifted polynomials, derivatives and the recurrence are never run.",
  ["BoostFunctions.h"], [("polynomials", SRC + "BoostFunctions.h Legendre_*/Chebyshev_*")], ["return value or exception"], "Special.tla, RatFun.tla, MC_Special.tla, Trace_Special.tla")
P("C30", "Objects that are only read can be shared by threads and keep no trace",
  "For every interpolator, lookup table, regular grid, power or Chebyshev series (computed), spline, triangle integrator, matrix and vector, and for the free functions: any number of threads may ask for values (the const methods) at the same time without synchronisation, on the same or on different objects. "
  "Each call returns what it returns when it is made alone, whatever calls were made before it or run at the same time, no two of them access memory in conflict, and the object answers as before afterwards. "
  "Excluded are the calls that change an object (setting, adding data, computing the coefficients, in-place operations) and the classes that compute on demand or own a plan (Integrate1d::Get and FFT objects shared by threads).",
  ["schedules", "histories"], "all interleavings of any number of threads making reading calls on shared and on different objects, and all orders of calls before them",
  "The tests are single-threaded and evaluate each object a few times in one order.",
  ["Interp1d.h", "Interp2d.h", "LookupTable1D.h", "LookupTable2D.h", "RegularGridInterpolator.h", "RegularGridNearest.h", "PowerSeries1d.h", "PowerSeries2d.h", "PowerSeries3d.h", "ChebyshevSeries1d.h", "ChebyshevSeries2d.h", "ChebyshevSeries3d.h", "Spline.h", "Integration2dTriangle.h", "BoostFunctions.h"],
  [("const evaluation without mutable or static state", SRC + "Interp1d.h PrivEval, Interp2d.h Eval, RegularGridInterpolator.h Interp, RegularGridNearest.h Nearest, PowerSeries*.h, ChebyshevSeries*.h Evaluate*, Integration2dTriangle.h Compute, BoostFunctions.h")],
  ["results of every call, begin and end times, data race reports"], "Conc.tla, MC_Conc.tla, Trace_Conc.tla",
  [("reader", "call a thread is in, and the result each call has alone", SRC + "Interp1d.h")])
P("C31", "The N-dimensional engines interpolate the samples they were given or refer to",
  "For every rectangular grid of 1 to 5 increasing axes (double or float, axes of a single node included) and every point, the multilinear engine (InterpMultilinear) returns the tensor product of linear interpolations and the simplicial one (InterpSimplex, and the C functions linterp_simplex_1/2/3) the value of the affine function on the simplex of the cell that contains the point (vertices added in decreasing order of the local coordinates), up to rounding; both agree along edges and reproduce the samples at the nodes, and beyond the grid both take the value of the nearest point of the grid. "
  "With one sample per side of each node and axis (Continuous = false, 2^N times as many samples), a cell uses the samples of its own sides, a node belongs to the cell after it, and the outermost samples count outside. "
  "A batch of points gives what the points give one by one. An engine that copies never depends on the caller's arrays afterwards, one that does not copy reads the samples the caller's array has at the time of the call (the axes are always copied); a second initialization replaces the first, and a number of samples that does not fit the grid throws.",
  ["inputs", "histories"], "all grids, sample arrays, points inside, at nodes and outside; all histories of building, initializing again, changing the caller's array, asking and destroying several engines",
  "No test uses the simplicial engine, batches, engines without a copy, or samples with jumps; the multilinear engine is reached through RegularGridInterpolator at a few points.",
  ["thirdparty/linterp.h"], [("engines", SRC + "thirdparty/linterp.h NDInterpolator, InterpSimplex, InterpMultilinear, linterp_simplex_*")], ["interpolated values, cell numbers, vertex samples, exceptions"], "Engine.tla, MC_Engine.tla, Trace_Engine.tla",
  [("engine", "grid and samples, own or the caller's", SRC + "thirdparty/linterp.h NDInterpolator")])
PROPS.sort(key=lambda p: p["id"])
