#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json (run by hand; both are committed)."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
S = "src/MathUtils/"


def p(id, title, statement, over, text, why, files, mech, observe=None, state=None, note=""):
    a = {"files": [S + f for f in files], "mechanism": [{"name": n, "where": S + w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": S + w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = None
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                   anchors=a), note))


p("C01", "1D linear interpolation reproduces the table and is linear in between",
  "Inside the tabulated range, every 1D linear interpolator (plain, extrapolating, saturating; real or complex ordinates) returns the tabulated ordinate at each abscissa and the straight line between the two neighbouring points everywhere else. This holds for any strictly increasing table of any size and at any position, in any order of evaluation, and evaluating a vector (by either call form) gives exactly the list of scalar evaluations. The reported bounds are the first and last abscissa.",
  ["inputs", "histories"], "all increasing tables (size, spacing, origin), all ordinates, all query points and query orders",
  "test_Interp1d checks one 1001-point sine table on a grid of queries with a 1e-? tolerance; no short tables, no uneven spacing, no node-exact or neighbour-of-node queries, no complex ordinates for every method.",
  ["Interp1d.h", "Interp.h"], [("segment search and coefficients", "Interp1d.h Interp1dLinearBase::Initialize/PrivEval")], ["return values of Eval / operator()"])
p("C02", "1D interpolation outside the table follows the chosen policy",
  "Outside the tabulated range the plain linear interpolator never returns a value (the process ends with a failure), the extrapolating one continues the first or last segment as a straight line, and the saturating one returns the first or last tabulated ordinate. The policy is selected by the method given to the factory, on both sides, at any distance, for real and complex ordinates and for scalar and vector queries alike, and queries exactly at either end of the table are never treated as outside. A method that has no 1D implementation is refused: no interpolator is produced.",
  ["inputs"], "all tables, all query points below, at and above the range, all methods",
  "The tests only query in-range points plus one saturation case; the failing exit and right-hand extrapolation are never exercised (right extrapolation was broken, see fixed findings).",
  ["Interp1d.h", "Interp.h"], [("out-of-range policies", "Interp1d.h Interp1dLinear*/PrivEval"), ("factory", "Interp1d.h MakeInterp1d")], ["return value or process ending of Eval"])
p("C03", "An interpolator depends only on its own latest initialisation",
  "After any history of initialisations, evaluations and copies over several 1D or 2D interpolators, each interpolator answers as a fresh one built from the table it was last initialised with. Evaluations, including those of other interpolators, never change later answers, and a copy answers like its source did when the copy was made, whatever happens to the source afterwards.",
  ["histories"], "all sequences of initialise / evaluate / copy operations over two interpolators and several tables of different sizes",
  "Every test initialises one interpolator once.", ["Interp1d.h", "Interp2d.h"],
  [("Initialize rebuilds coefficients", "Interp1d.h Interp1dLinearBase::Initialize"), ("Initialize rebuilds coefficients", "Interp2d.h Interp2dLinear::Initialize")],
  ["Eval, GetXmin/Xmax/Ymin/Ymax"], [("a, b, a1..a4", "per-segment coefficients", "Interp1d.h, Interp2d.h")])
p("C04", "A 1D lookup table is a faithful map from series names to interpolants",
  "After any history of adding series (with unique or repeated names), resetting the abscissae, evaluating and moving tables, each accepted series evaluates to the interpolation, with the table's method, of exactly the data it was added with over the abscissae in force at that time; adding an existing name returns false and changes nothing. Evaluating by name (scalar or vector), evaluating all series at once, the number of series, the number of samples, the abscissae and each series' bounds all agree with that map, and an unknown name is refused with an exception. A moved-to table behaves exactly like the original table did, including for series added afterwards.",
  ["histories", "inputs"], "all sequences of set-abscissae / add / duplicate add / evaluate / move over two tables, several names and methods",
  "test_LookupTable adds two series once and evaluates them; no duplicates with different data, no moves, no interleaving.",
  ["LookupTable1D.h", "Interp1d.h"], [("name index", "LookupTable1D.h assoc/AddY/GetIndex"), ("moves", "LookupTable1D.h move constructor/assignment")],
  ["AddY result, Eval (3 forms), GetNbSeries, GetNbSample, GetX, GetXmin/GetXmax"], [("assoc, Ydata, interpolators", "name to interpolant map", "LookupTable1D.h")])
p("C05", "A 2D lookup table is a faithful map from series names to surfaces",
  "After any history of setting axes, adding series (new or existing names, well-sized or too small, supported or unsupported method) and evaluating, each accepted series evaluates to the bilinear interpolation of exactly the data it was added with over the axes in force at that time. Adding an existing name returns false, and an addition that is refused with an exception leaves the table as it was. Evaluation by coordinates, by a coordinate vector and by a list of points agree, presence queries and counts agree with the map, and an unknown name is refused with an exception.",
  ["histories", "fault_sequences", "inputs"], "all sequences of set-axes / set-method / add / failing add / evaluate over two tables",
  "test_LookupTable2D adds one series and evaluates a few points.", ["LookupTable2D.h", "Interp2d.h"],
  [("name index", "LookupTable2D.h assoc/AddData/GetIndex/HasSerie")],
  ["AddData result, Eval (3 forms), HasSerie, GetNbSeries, GetNbSample, GetX, GetY"], [("assoc, MData, interpolators", "name to surface map", "LookupTable2D.h")])
p("C06", "2D linear interpolation is the bilinear interpolant of the enclosing cell",
  "Inside the grid, a 2D linear interpolator built on strictly increasing axes and row-major data (x slowest) returns the grid value at every node and the bilinear interpolant of the enclosing cell elsewhere, for any grid shape including non-square ones, any spacing and any evaluation order. Evaluating a list of points equals the list of point evaluations, and the reported bounds are the first and last coordinate of each axis. Outside the grid no value is ever returned when assertions are enabled, and a method without 2D implementation is refused with an exception.",
  ["inputs", "histories"], "all grid shapes, spacings, data and query points/orders",
  "test_Interp2d uses one grid and a few interior points.", ["Interp2d.h"],
  [("cell search and coefficients", "Interp2d.h Interp2dLinear::Initialize/Eval")], ["Eval, operator()"])
p("C07", "Regular-grid interpolation is multilinear inside and clamped outside",
  "In any dimension, a populated regular-grid interpolator returns the stored value at every grid node and the multilinear interpolant of the enclosing cell elsewhere, for any grid shape and spacing; beyond the grid each coordinate is replaced by the nearest bound. With bound checking requested, it throws exactly when at least one coordinate is strictly outside its axis and otherwise returns the same value. Stored values by index, axes, axis bounds and the dimension are reported back exactly as given, and an axis that is not strictly increasing is refused with an exception.",
  ["inputs"], "all grids up to 6 dimensions, all data, all query points (nodes, cell interiors, faces, outside in any subset of coordinates)",
  "test_regular_grid_interpolator samples random points of one smooth 3D function with a loose tolerance.",
  ["RegularGridInterpolator.h", "thirdparty/linterp.h"], [("cell search and weights", "thirdparty/linterp.h InterpMultilinear::interp"), ("bound check", "RegularGridInterpolator.h Interp")],
  ["Interp, EvalAtIndice, GetCoord*, GetDimension"])
p("C08", "Regular-grid interpolators keep value semantics through any history",
  "After any history of adding axes, setting or replacing the variable, failed additions (refused axis, variable whose shape does not match the axes), copies, assignments, self-assignments and destruction of the originals, every interpolator answers as one freshly built from the last axes and variable it accepted. Copies are independent of their source and of its lifetime, and an operation that is refused with an exception leaves the interpolator as it was. It reports itself valid exactly when a variable has been accepted, also in copies; a variable given before all axes, an axis too many or a dimension index out of range is refused.",
  ["histories", "fault_sequences"], "all operation sequences over two interpolators",
  "The test copies one populated interpolator once.", ["RegularGridInterpolator.h"],
  [("deep copy and rebuild", "RegularGridInterpolator.h operator=/_BuildInterpolator/AddVar")], ["Interp, EvalAtIndice, IsValid, GetCoord"],
  [("m_grid_list, m_data, c_interpolator", "axes, variable, evaluation object pointing into them", "RegularGridInterpolator.h")])
p("C09", "Nearest-node lookup returns the nearest node and the enclosing cell",
  "For any grid dimension, shape, spacing and any query point, the nearest-node lookup returns the node whose coordinate is closest along every axis (the upper one when exactly half-way, the end node outside the grid), with matching indices, coordinates and stored value, and the plain data lookup returns that same value. The surrounding-nodes query returns the 2^d corners of the enclosing cell in binary order (last axis fastest); along an axis where the point is below the grid, or at or above its end, the corners collapse onto the first or last coordinate. Copies and assigned objects answer like the original and independently of it. A variable given before all axes, an axis too many or a dimension index out of range is refused: the process ends with a failure.",
  ["inputs", "histories"], "all grids up to 5 dimensions, all value types, all query positions relative to nodes and mid-points",
  "test_RegularGridNearest checks a handful of interior points of a 2D grid.", ["RegularGridNearest.h"],
  [("nearest and cell index", "RegularGridNearest.h Nearest/GetSurroundingGridNodes/GetNode")], ["Nearest, GetData, GetSurroundingGridNodes, GetCoord*"])
p("C10", "Angle normalisation lands in its half-open range without changing the angle",
  "For every finite angle (positive, negative, many turns away, at and next to the range ends) each normalisation returns a value inside its documented range, 0 included and a full turn excluded for the positive ranges, minus half a turn excluded and half a turn included for the symmetric ones. The result differs from the input by a whole number of turns within rounding, an angle already in range is returned unchanged (within rounding), and normalising twice changes nothing more. Degree and radian versions agree with each other, cosine/sine of an angle are those of that angle in the stated unit, and a unit name that is neither DEG nor RAD is refused.",
  ["inputs"], "all finite angles, both units, both conventions",
  "test_Angles checks a few angles per function; the excluded ends were violated for tiny negative inputs (fixed).",
  ["Angles.h", "Unit.h", "Constants.h"], [("normalisations", "Angles.h Normalize_*")], ["return values"])
p("C11", "Unit conversions are consistent, invertible and transitive",
  "For every value and every ordered pair of units, converting velocities (m/s, knots, km/h) or frequencies (Hz, rad/s, deg/s, deg/min, rpm, period in seconds) gives the physically correct value, converting back restores it, and going through any third unit gives the same result. The individual named conversions agree with the generic ones. Vector degree/radian/knot conversions convert every element, in place or into another vector, leaving the source of a copy conversion untouched.",
  ["inputs"], "all unit triples and all magnitudes/signs, all vector lengths",
  "test_Units checks a few conversions of single values.", ["Unit.h", "Constants.h"],
  [("conversion tables", "Unit.h convert_velocity_unit/convert_frequency"), ("factors", "Constants.h")], ["return values and output vectors"])
p("C12", "Planar vectors change frame and transport consistently",
  "For every vector, angle and angle unit, projecting from local to North-East axes rotates by the angle, the reverse projection undoes it, norms are preserved, and the member, free-function, copy-out, in-place and per-axis forms all give the same components. Transporting a velocity adds the rotation-induced part for the given angular velocity in any frequency unit, identically in all forms, and a North-East velocity built from longitudinal and lateral speeds is their converted, rotated vector. Forms that produce a copy never modify their input, also when input and output are the same object.",
  ["inputs", "histories"], "all vectors, angles, units, point positions and call forms",
  "test_vector2d prints results and asserts nothing.", ["Vector2d.h", "Angles.h"],
  [("projections", "Vector2d.h ProjectLocalOnNED/ProjectNEDOnLocal/ProjectOn*"), ("transport", "Vector2d.h TransportAtPoint")], ["components"])
p("C13", "Fixed- and variable-size vectors implement ordinary vector algebra",
  "For every content and size, vector classes of size 2, 3, 6 and n set, read back and null their components exactly, report the maximum absolute component as infinity norm, and assign from and combine with other expressions without aliasing surprises. Normalising gives a unit vector of the same direction, unit tests and approximate equality answer according to the actual norm and difference, spherical-like angle queries return the angles of the projected vector. Sorting (ascending or descending), reversing, outer square, diagonal matrix and transposition of n-vectors, and inner and outer products of 3- and 6-vectors, equal their definitions for every permutation and repetition of entries.",
  ["inputs"], "all small vectors over value alphabets including signs, zeros, repeats and large/small magnitudes; all sizes",
  "test_vector3d/6d/N mostly print; infinity norm of negative components was wrong for size 2 (fixed).",
  ["Vector2d.h", "Vector3d.h", "Vector6d.h", "VectorN.h"], [("component access and norms", "Vector*.h"), ("sorting, products", "VectorN.h")], ["components and return values"])
p("C14", "Rotation representations convert into each other consistently",
  "For every orientation, including pitch of plus or minus 90 degrees and angles beyond one turn, Euler angles (roll, pitch, yaw; z-y-x order), unit quaternions and rotation matrices convert into each other so that all of them describe the same rotation: the one that composes yaw, then pitch, then roll. Matrices produced are orthonormal with determinant one, quaternions have unit norm, Euler angles produced are finite with pitch within a quarter turn, and converting there and back restores the orientation.",
  ["inputs"], "a full grid of orientations including gimbal-lock and all sign combinations of quaternions",
  "test_Geometry round-trips a few orientations; pitch at 90 degrees could give NaN (fixed).",
  ["Geometry.h"], [("closed-form conversions", "Geometry.h")], ["returned angles, quaternions, matrices"])
p("C15", "Matrix shape, structure predicates and accessors tell the truth",
  "For every matrix of every shape (dynamic, 3x3 and 6x6), the predicates symmetric, identity, square, orthogonal, positive semi-definite (of symmetric matrices) and approximately equal answer true exactly when the matrix has that property (within the stated tolerance) and false when a single entry clearly breaks it. Element, row, column and diagonal accessors and sizes return exactly the stored entries, writing one element changes only that one, transposition swaps indices, and symmetrising from the upper or lower triangle keeps that triangle and mirrors it. None of these queries modifies the matrix.",
  ["inputs"], "all small matrices over value alphabets, plus single-entry perturbations at every position of larger ones",
  "The matrix tests use random matrices and only the positive answers; symmetry always answered true (fixed).",
  ["Matrix.h", "Matrix33.h", "Matrix66.h"], [("predicates", "Matrix*.h IsSymmetric/IsOrthogonal/IsPositiveSemiDefinite/..."), ("accessors", "Matrix*.h at/GetRow/GetColumn/GetDiag")], ["return values"])
p("C16", "Matrix decompositions multiply back to the matrix with their factor shapes",
  "For every admissible matrix, thin and full QR give orthonormal Q and upper-triangular R with QR equal to the matrix, LU gives a permutation, unit-lower and upper factors with PA=LU, Cholesky gives a lower factor with positive diagonal and LL* equal to the matrix, SVD gives orthonormal factors and non-negative decreasing singular values reproducing the matrix. Cholesky refuses non-square, non-self-adjoint and indefinite matrices with an exception, and the rank-one Cholesky update equals the Cholesky factor of the updated matrix, in place or not. Decomposed matrices are left unmodified by the non-in-place forms, and output arguments may have any previous size or content.",
  ["inputs"], "all matrices over small integer alphabets up to 3x3, generic matrices of every shape up to 7x5 (and larger), rank-deficient, badly scaled, real and complex",
  "Tests decompose one random matrix per kind.", ["Matrix.h", "Matrix33.h", "Matrix66.h"],
  [("decompositions", "Matrix*.h Get*Decomposition, GetCholeskyUpdate, InPlaceCholeskyUpdate")], ["output factors, exceptions"])
p("C17", "Inverses and linear solvers solve the system they are given",
  "For every invertible matrix, the inverse (in place or as a copy) multiplies to the identity and the LU and QR solvers return the solution for every right-hand side, single or multiple columns. For every matrix of any shape and rank, the pseudo-inverse satisfies the four Moore-Penrose conditions (singular values below the tolerance being treated as zero) and the least-squares solution satisfies the normal equations with minimal norm. The constrained least-squares solution satisfies the constraint exactly and is optimal among all feasible points; no operation except the in-place inverse modifies its operands.",
  ["inputs"], "all small integer matrices, all shapes up to 6x4, all constraint counts, generic and rank-deficient data",
  "Tests solve one system per solver.", ["Matrix.h", "Matrix33.h", "Matrix66.h"],
  [("solvers", "Matrix*.h GetInverse/GetPseudoInverse/LUSolver/QRSolver/LeastSquareSolver/LeastSquareSolverConstraint")], ["solutions"])
p("C18", "Eigenvalue computation returns exactly the spectrum with multiplicity",
  "For every square real matrix, the returned eigenvalues are the roots of the characteristic polynomial counted with multiplicity: there are n of them, their sum is the trace, their product the determinant, and all elementary symmetric functions match. Complex eigenvalues come in conjugate pairs, and symmetric matrices get real ones. The dynamic, 3x3 and 6x6 versions agree and the matrix is not modified.",
  ["inputs"], "all matrices over a small integer alphabet up to 3x3 and structured matrices (triangular, block rotation, similarity transforms) up to 8x8",
  "The test checks one 2x2/3x3 matrix.", ["Matrix.h", "Matrix33.h", "Matrix66.h"], [("Eigenvalues", "Matrix*.h Eigenvalues")], ["returned spectrum"])
p("C19", "1D integration is the composite trapezoidal rule for the current settings",
  "For every sampled data of two or more points, range and number of points, the integrator and the stand-alone trapezoid functions (uniform or non-uniform spacing) return the composite trapezoidal sum over exactly the samples given, so they are exact for straight lines and additive over consecutive ranges. After any history of changing the bounds, changing the method and reading the result, a read returns the integral for the settings in force at that moment. An unimplemented method is refused with an exception at the read and never yields an earlier result.",
  ["inputs", "histories"], "all sample words over small alphabets, all lengths, ranges (also reversed or empty), all setter/reader sequences",
  "test_Integration1d integrates one function once per method; setters are never called after a read.",
  ["Integration1d.h"], [("cached result", "Integration1d.h Integrate1d::Get/Compute/Set*"), ("rules", "Integration1d.h Trapz")], ["Get, Trapz"],
  [("c_Computed, c_Result", "validity and value of the cached integral", "Integration1d.h")])
p("C20", "Triangle quadrature is exact for polynomials up to its order",
  "For every supported order, the triangle quadrature integrates every polynomial of total degree up to that order exactly over every triangle, whatever its size, position, shape, orientation or vertex ordering, in the plane and in space. Scaling the integrand scales the result, the integral of one is the area, and an order without a rule is refused: no result is returned. Reusing an integrator on other triangles, or alongside other integrators, gives the same result as a fresh one.",
  ["inputs", "configurations", "histories"], "all orders, all monomials up to the order, all triangles over a vertex grid, all 6 vertex orderings",
  "test_IntegrationTriangle integrates a few functions on a few triangles with loose tolerances.",
  ["Integration2dTriangle.h", "Integration2d.h", "QuadratureTables.h", "Integrand.h"], [("tables and mapping", "Integration2dTriangle.h, QuadratureTables.h")], ["Compute results"])
p("C21", "Horner evaluation equals the polynomial and its derivative",
  "For every non-empty coefficient list of any length and every argument, real or complex, Horner evaluation equals the sum of coefficient times power, and the derivative evaluation equals the derivative of that polynomial. The coefficient list is not modified.",
  ["inputs"], "all coefficient words over small alphabets, all degrees up to the bound, all arguments",
  "test_Polynomial evaluates a few fixed polynomials.", ["Polynomial.h"], [("Horner recurrences", "Polynomial.h")], ["return values"])
p("C22", "Chebyshev series reproduce polynomials and interpolate at Chebyshev points",
  "In one, two and three dimensions, over closed, half-open and mixed domains, a Chebyshev series computed at given orders reproduces exactly every function that is a polynomial of those orders in the mapped coordinates, and matches any function at the Chebyshev points of the domain. Its partial derivatives with respect to each variable are those of the series. Recomputing the coefficients, or evaluating in any order, never changes the results.",
  ["inputs", "configurations", "histories"], "all monomials up to the orders, all order combinations, all domain types and several domains",
  "The series tests approximate one or two smooth functions at one order with loose error bounds; recomputation accumulated coefficients (fixed).",
  ["ChebyshevSeries1d.h", "ChebyshevSeries2d.h", "ChebyshevSeries3d.h", "BoostFunctions.h"],
  [("coefficients", "ChebyshevSeries*d.h Compute_ai/aij/aijk"), ("evaluation and derivatives", "ChebyshevSeries*d.h Evaluate*")], ["Evaluate*, derivatives"])
p("C23", "Power series equal the Chebyshev series they come from",
  "In one, two and three dimensions, for every domain type, order combination and point, the power series built from converted Chebyshev coefficients has the same values and the same partial derivatives as the Chebyshev series; conversion above order 18 is refused. All evaluation variants (value only, single derivatives, value and derivatives together, coefficients contracted beforehand for a fixed third coordinate or for that coordinate at infinity) agree with each other. Evaluation order never matters and evaluation does not modify the coefficients.",
  ["inputs", "configurations", "histories"], "all order combinations up to the bound, all domain types, all points of a grid, all variants",
  "The tests compare a few variants at one point for one function; the y-derivative for a predefined z was wrong on a half-open y domain (fixed).",
  ["PowerSeries1d.h", "PowerSeries2d.h", "PowerSeries3d.h", "ChebyshevSeries1d.h", "ChebyshevSeries2d.h", "ChebyshevSeries3d.h", "Polynomial.h"],
  [("conversion", "ChebyshevSeries*d.h Compute_bi/bij/bijk"), ("Horner evaluation", "PowerSeries*d.h Evaluate*")], ["Evaluate* variants"])
p("C24", "Discrete Fourier transforms match their definition and invert each other",
  "For every real signal of every length from two, the forward transform equals the discrete Fourier sum (only the first half plus one bins when half spectrum is on) within rounding, and the inverse transform restores the signal with scaling on and the signal times its length with scaling off (for half spectra: of even-length signals). This holds after any history of toggling the two settings and of transforms of other lengths, each transformer having its own settings. The frequency vector has the sampling frequency divided by the length as increment, starts at zero, has as many entries as the spectrum, and is expressed in the requested unit.",
  ["inputs", "histories"], "all lengths up to the bound, unit impulses and generic signals, all toggle histories, all frequency units",
  "test_FFT transforms one signal.", ["FFT.h", "Unit.h"], [("flags", "FFT.h HalfSpectrumON/OFF, ScalingON/OFF"), ("frequency vector", "FFT.h GetFrequencyVector")], ["fft, ifft, GetFrequencyVector"])
p("C25", "Generated sequences have the requested ends, count and spacing",
  "For every admissible start, stop and count, the linear sequence has exactly that many entries, starts and ends exactly at the given ends, is non-decreasing and evenly spaced; the logarithmic sequence is the base raised to that linear sequence, for any base. For every real start, stop and positive step, the stepped sequence contains exactly start plus the multiples of the step that lie below stop.",
  ["inputs"], "all starts/stops/counts/steps/bases over a grid of magnitudes and signs",
  "test_vector_generation prints one of each; the stepped sequence had the wrong step (fixed).", ["VectorGeneration.h"],
  [("generation loops", "VectorGeneration.h linspace/logspace/arange")], ["returned vectors"])
p("C26", "Signal and vector helper functions follow their definitions",
  "For every argument, step, door, ramp, Dirac and cardinal-sine functions take the values of their definition for each abscissa independently of the others, also exactly at and right next to their break points. Complex-vector helpers return element-wise real part, imaginary part, modulus and argument, and standard-vector operations combine element-wise and leave their operands unmodified. The naive convolution equals the trapezoidal sum of kernel times signal history in buffer order (or in the opposite order when asked), for any state of the circular history.",
  ["inputs", "histories"], "all arguments around every break point, all short vectors, all circular-buffer histories up to the bound",
  "test_Functions samples a few points; convolution test asserts nothing.", ["Functions.h", "StdVector.h", "Complex.h", "Convolution.h"],
  [("definitions", "Functions.h, StdVector.h, Complex.h, Convolution.h")], ["return values"])
p("C27", "Special functions agree with their defining series, recurrences and limits",
  "For every order and argument of their domain, cylindrical Bessel and Hankel functions and their derivatives, Legendre and Chebyshev polynomials and derivatives, factorials, gamma and Struve functions agree with independent evaluations of their definitions and recurrences. The exponential-integral functions and their polynomial approximations agree with each other and with the defining series within the accuracy of those approximations, on both sides of every internal switching point and without jumps across it. Results do not depend on previous calls, and arguments outside the domain of Struve and approximated exponential-integral functions are refused.",
  ["inputs", "histories"], "all orders up to the bound and argument grids covering small, moderate and large values and every switching point",
  "test_BoostFunctions checks about one value per function.", ["BoostFunctions.h"], [("branches", "BoostFunctions.h")], ["return values"])
p("C28", "Splines pass through their data and reproduce polynomials of their degree",
  "For every strictly increasing set of abscissae and every ordinate list, a spline of any supported degree passes through every data point; data taken from a polynomial of degree not above the spline's is reproduced between the points too. Evaluation is independent of the order of evaluation and of other splines.",
  ["inputs", "histories"], "all node counts and spacings, all ordinates, degrees 1..5, both constructors",
  "test_Spline plots or checks one function.", ["Spline.h"], [("normalisation and evaluation", "Spline.h")], ["operator()"])
p("C29", "Scalar helpers classify and clamp every value correctly",
  "For every value, sign, saturation, sign-preserving square root, parity and closeness helpers return what their definition states, at the break points, on both sides of them, and for every supported number type. Saturation always returns a value inside the given bounds and leaves in-range values unchanged. Closeness holds for equal values and exactly when the difference is within the absolute tolerance plus the relative tolerance times the second value's magnitude; for vectors, exactly when it holds for every element; an undefined number is close to nothing.",
  ["inputs"], "all finite values, all bounds, all tolerances",
  "test_Maths checks a few values.", ["Functions.h", "Check.h", "Maths.h"], [("definitions", "Functions.h, Check.h, Maths.h")], ["return values"])

p("C30", "The n-dimensional interpolation engine is exact in both of its methods",
  "For every grid of any dimension, shape and spacing and every point, the simplicial interpolator returns the linear interpolant over that simplex of the enclosing cell which contains the point and the multilinear one the multilinear interpolant of the cell; both return the stored value at nodes, reproduce affine data, and replace each coordinate beyond the grid by the nearest bound. A batch of points gives exactly the list of single evaluations, the C interface agrees with the classes, and interpolators do not influence each other. An interpolator which copies its data is independent of the arrays it was built from, one which references its values follows them; an interpolator given new values or new axes answers as one freshly built from them, and a moved one as before; with two-sided values every side of a node uses its own limit; a value array of the wrong size is refused with an exception.",
  ["inputs", "histories"], "all grids up to 5 dimensions, all data, all query points and batches, both methods, copying and referencing",
  "No test instantiates the engine directly: only the referencing multilinear one is reached, through RegularGridInterpolator.",
  ["thirdparty/linterp.h"], [("corner walk and fractions", "thirdparty/linterp.h InterpSimplex::interp_vec, InterpMultilinear::linterp_nd_unitcube"), ("copies and references", "thirdparty/linterp.h NDInterpolator::set_grids/set_f_array")],
  ["interp, interp_vec, linterp_simplex_1..3"],
  [("m_F_copy, m_pF, m_grid_list", "own copy of the values, view of the values, axes", "thirdparty/linterp.h")])

p("C31", "Evaluations do not interfere: threads, nesting, other objects",
  "Non-modifying evaluations of one object and any operations on distinct objects (or on free functions) do not influence each other. Whether they are executed by several threads in any interleaving, nested inside one another through user-supplied functions (integrands, functions being approximated or integrated), or one after another in any order within one process, every operation gives the answer it gives when executed alone. No call leaves behind state that changes what a later, unrelated call returns.",
  ["schedules", "histories"], "all interleavings of two or three threads, all nestings through callbacks, all operation histories, over all parts of the library",
  "No test uses threads, none evaluates one object inside the callback of another, and each test is its own short process.",
  ["Interp1d.h", "Interp2d.h", "LookupTable1D.h", "LookupTable2D.h", "RegularGridInterpolator.h", "RegularGridNearest.h", "PowerSeries2d.h", "ChebyshevSeries2d.h", "Integration1d.h", "Integration2dTriangle.h", "BoostFunctions.h", "FFT.h", "thirdparty/linterp.h"],
  [("const evaluation paths", "Interp1d.h Eval, Interp2d.h Eval, LookupTable*.h Eval"), ("recursions without scratch state", "PowerSeries*d.h, ChebyshevSeries*d.h Evaluate*"), ("quadrature loops", "Integration*.h"), ("static data", "BoostFunctions.h, Integration2dTriangle.h")],
  ["return values of every thread, of nested calls and of each call of a history"])

p("C32", "One library in every translation unit and build",
  "Any number of translation units may include the umbrella headers (MathUtils.h, MathUtilsBoost.h) and thirdparty/linterp.h, in any order and repeatedly, and be linked into one program. Every operation gives the same answer, up to rounding, in every build: with and without assertions (NDEBUG), at every optimisation level, with g++ and clang++, as C++17 and C++20, and whatever memory contained before. A call which the library refuses with an exception or by ending the process is refused in every build.",
  ["configurations", "inputs"], "all combinations of compiler, optimisation level, assertions, language standard, vectorisation and previous contents of memory, for operations over all parts of the library",
  "The tests are single translation units built in one configuration, with assertions on.",
  ["MathUtils.h", "MathUtilsBoost.h", "thirdparty/linterp.h", "Interp1d.h", "LookupTable1D.h", "RegularGridInterpolator.h", "Matrix.h", "Integration1d.h", "BoostFunctions.h", "Geometry.h"],
  [("templates and inline functions, include guards", "*.h"), ("assertions without effects", "Matrix.h, Interp1d.h, Interp2d.h, VectorGeneration.h, StdVector.h, Functions.h, thirdparty/linterp.h"), ("refusals by exception or exit", "Interp1d.h, RegularGridInterpolator.h, Matrix.h, BoostFunctions.h")],
  ["linking of several translation units", "return values, exceptions and process endings in every build"])

NA = {}
TECH = {"C32": "explicit enumeration of build configurations x memory contents x operations on the real code, every execution compared with the reference configuration",
        "C31": "stateless model checking of the real code under a controlled scheduler (preemption-bounded depth-first exploration of thread interleavings), plus exhaustive enumeration of nestings and histories, against the operations executed alone"}
NOTE = {"C32": "Every configuration of the tier is compiled from the working tree (nine translation units each), linked and executed with three contents of fresh memory; every answer is compared with that of the unoptimised build with assertions.",
        "C31": "Every schedule within the preemption and schedule bounds of the evidence file is executed on the real headers (g++ thread-sanitizer instrumentation with our own scheduler as runtime, assert on, no AddressSanitizer) and every answer is compared with that of the same operation executed alone in a fresh process. Sequential consistency is assumed; pairs of operations that share no written memory have a single schedule class."}


def main():
    built = [q for q, _ in P if os.path.exists(os.path.join(H, "harness", q["id"].lower() + ".cpp"))]
    with open(os.path.join(H, "properties.jsonl"), "w") as f:
        for q, _ in P:
            assert len(q["title"]) <= 80, q["title"]
            f.write(json.dumps(q) + "\n")
    checks = []
    for q in built:
        i = q["id"]
        checks.append({"property": i, "quick_cmd": "python3 run.py %s quick" % i, "thorough_cmd": "python3 run.py %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": TECH.get(i, "explicit-state bounded model checking of the real code: exhaustive enumeration of histories/inputs against a reference model"),
                       "level": "model_checking",
                       "level_note": NOTE.get(i, "Every execution within the bounds listed in the evidence file is run on the real headers (g++, assert on, AddressSanitizer) and compared with an independent reference model; nothing is claimed for values outside the enumerated alphabets. Trusted: compiler, libm in long double, Eigen/Boost as installed, the reference model.")})
    na = [{"property": q["id"], "reason": NA.get(q["id"], "check not built yet")} for q, _ in P if q not in built]
    json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na},
              open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
    print(len(P), len(built))


main()
