"""Regenerates /verif/properties.jsonl (one-off authoring helper)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
        why_tests_cant=why, anchors=dict(files=files, state=state or [],
        mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe or [], hook_needed=None)))
S = "interpolation/splines/"
M = "interpolation/multilinear/"

p("C01", "Linear evaluators return the multilinear interpolant inside the grid",
  "For any cartesian grid (uniform, nonuniform or mixed dimensions, any number of nodes >= 2 per dimension, any bounds and spacing) and any node values, evaluating the order-1 spline at any point inside the grid returns the multilinear interpolant of the enclosing cell's node values; in particular it returns the node value at every node and is continuous across cells. All public linear evaluators (functional, object, compatibility and the alternative multilinear package) compute this same function.",
  ["inputs", "configurations"], "all grids, dimensions, node counts, node values, interior points, linear entry points",
  "Tests evaluate a few random points and mostly only check shapes or that something is returned; values are never compared to an independent interpolant, and only square grids on [0,1] appear.",
  [S+"codegen.py", S+"eval_splines.py", S+"multilinear.py", S+"multilinear_numba.py", M+"mlinterp.py", M+"fungen.py"],
  [("cell location (uniform floor/clamp, nonuniform search)", S+"codegen.py templates; "+M+"fungen.py get_index"),
   ("tensor reduction generator", S+"codegen.py get_values/gen_trex; "+M+"fungen.py")],
  observe=["eval_linear", "eval_spline(k=1)", "LinearSpline(s).__call__", "multilinear_interpolation", "mlinterp", "interp"])

p("C02", "Outside the grid, the requested extrapolation policy is applied exactly",
  "For linear and cubic splines, a point outside the grid is treated according to the selected policy: 'nearest' gives the result at the closest point of the grid, 'constant' gives 0 in every output slot, and 'linear' (the default) continues the spline linearly from the boundary, dimension by dimension, with the boundary value and slope. Points inside or exactly on the boundary are unaffected by the policy. This holds for every dimension (and combination of dimensions) that is out of range, every call form and both ways of naming the policy.",
  ["inputs", "configurations"], "all out-of-range points, policies, spline orders, grid kinds, dimensions, call forms",
  "One test compares call forms with each other in 1-d on a uniform grid, the others only check that the call returns; no test compares an extrapolated value with what the policy promises, nor covers nonuniform, multi-dimensional or cubic cases.",
  [S+"codegen.py", S+"eval_splines.py", S+"option_types.py"],
  [("extrap_mode blocks of the evaluation templates", S+"codegen.py eval_template, eval_template_vectorized"),
   ("linear continuation of the cubic basis", S+"codegen.py blending_formula"),
   ("option dispatch", S+"eval_splines.py __eval_linear/__eval_cubic")],
  observe=["eval_spline(extrap_mode=...)", "eval_linear/eval_cubic with extrap_options"])

p("C03", "Cubic prefiltering returns the unique natural interpolating coefficients",
  "For every uniform grid in 1 to 4 dimensions with at least 2 nodes per dimension and any values, prefiltering returns an array with two more entries per dimension whose cubic B-spline takes exactly the given value at every node and has zero second derivative across each boundary. The result is the same for scalar values and for each component of vector values, whether it is allocated or written into a supplied array, and for every prefiltering entry point.",
  ["inputs", "configurations"], "all grids, node counts, dimensions 1-4, values, entry points",
  "Tests only check the shape of the coefficient array.",
  [S+"prefilter_cubic.py", S+"filter_cubic.py"],
  [("banded solve per dimension", S+"prefilter_cubic.py solve_deriv_interp_1d/find_coefs_1d; "+S+"filter_cubic.py"),
   ("successive one-dimensional passes", S+"prefilter_cubic.py __filter_cubic; "+S+"filter_cubic.py filter_coeffs_*d")],
  observe=["prefilter", "filter_cubic", "filter_coeffs", "filter_mcoeffs"])

p("C04", "Cubic evaluation is the tensor-product B-spline of its coefficients",
  "For every uniform grid, dimension and coefficient array, evaluating the order-3 spline at any point inside the grid returns the tensor-product uniform cubic B-spline sum of those coefficients, hence a twice continuously differentiable function that depends linearly on the coefficients. Combined with prefiltering it returns the original value at every node.",
  ["inputs", "configurations"], "all grids, dimensions, coefficient arrays, interior points, cubic entry points",
  "Tests call cubic evaluation on random coefficients and check only that it returns something of the right rank.",
  [S+"codegen.py", S+"eval_splines.py", S+"eval_cubic.py", S+"splines.py"],
  [("cubic basis polynomials", S+"eval_splines.py Ad/dAd; "+S+"codegen.py blending_formula"),
   ("tensor reduction", S+"codegen.py get_values")],
  observe=["eval_cubic", "eval_spline(k=3)", "eval_cubic_spline(s)", "vec_eval_cubic_spline(s)", "CubicSpline(s)"])

p("C05", "Each requested partial derivative is delivered, exactly, in its own slot",
  "When a list of partial derivatives is requested, slot j of the output holds the j-th requested partial derivative of the same (extrapolated) spline that plain evaluation computes, in the units of the caller's coordinates. This holds for linear splines (any order; orders of two or more in one variable give 0) on uniform and nonuniform grids and for cubic splines (orders 0 and 1 in each variable), for any list including repetitions, mixed derivatives and order zero; at a kink of a linear spline either one-sided derivative is acceptable.",
  ["inputs", "configurations"], "all derivative lists, grids, dimensions, points, spline orders, call forms",
  "Derivative tests cover order-1 splines on nonuniform grids with one fixed list per dimension; uniform grids, cubic values, vector-valued and single-point forms are never compared with anything.",
  [S+"codegen.py", S+"eval_splines.py"],
  [("derivative basis and chain rule factor", S+"codegen.py blending_formula"),
   ("order lists to slots", S+"codegen.py templates, get_values")],
  observe=["eval_spline(diff=...)"])

p("C06", "Results do not depend on call form, batch, output buffer or memory layout",
  "For the same grid, coefficients, spline order, policy and derivative list, a point gets the same result whether it is passed alone (tuple or array) or as any row of a batch of any length, whether the function is called from Python or from compiled user code, whether coefficients are scalar- or vector-valued (each component independently), and whatever the memory layout, writability or strides of the arrays. The output has exactly the documented kind and shape, and when an output array is supplied it receives exactly that result in every cell, whatever it held before, with nothing written outside it.",
  ["inputs", "configurations"], "all combinations of call form, batch length, value rank, layout, preallocation, derivative list",
  "Tests compare a few forms on one 1-d and one 2-d grid; the space of form combinations is generated code, each combination being a different function.",
  [S+"codegen.py", S+"eval_splines.py"],
  [("two evaluation templates specialised per call type", S+"codegen.py eval_template, eval_template_vectorized"),
   ("output allocation", S+"eval_splines.py allocate_output")],
  observe=["eval_spline", "eval_linear", "eval_cubic"])

p("C07", "The interp/mlinterp interface: every call style, clamped or linear outside",
  "For any grid of 1-d arrays or uniform ranges and any values, the convenience interpolator returns the multilinear interpolant evaluated at the closest point of the grid, identically for scalars, tuples, a single point array, a list of points and (in one and two dimensions) a cartesian product of coordinate vectors, where entry (i,j) belongs to the i-th first and j-th second coordinate. The grid-tuple interpolator returns the same interpolant inside the grid and its multilinear continuation outside, for a tuple or a list of points.",
  ["inputs", "configurations"], "all grids, values, points inside and outside, dimensions, call styles",
  "Tests only assert that the result is not None for one call of each style.",
  [M+"mlinterp.py", M+"fungen.py"],
  [("argument-type detection and source generation", M+"mlinterp.py detect_types, make_mlinterp"),
   ("projection on the grid", M+"fungen.py project"), ("index and weights", M+"fungen.py get_index")],
  observe=["interp", "mlinterp"])

p("C08", "Evaluation and filtering are pure: no hidden state, arguments untouched",
  "Whatever the history of earlier calls, a functional call's result depends only on the current contents of its arguments, including contents the caller changed in place since an earlier call. No call modifies any of its arguments (grid, values, coefficients, points) other than a supplied output array, nor any array returned earlier.",
  ["histories", "inputs"], "all sequences of calls and in-place modifications by the caller, all argument contents",
  "Each test makes isolated calls on fresh arrays and never looks at its arguments afterwards.",
  [S+"codegen.py", S+"eval_splines.py", S+"prefilter_cubic.py", S+"filter_cubic.py", M+"mlinterp.py", S+"hermite.py", "interpolation/complete_poly.py", "interpolation/cartesian.py"],
  [("results allocated per call, arguments only read", "all evaluation and filtering functions")],
  state=[dict(name="caller's arrays", meaning="contents of every array the caller holds", where="numpy arrays passed to / returned by the library")],
  observe=["contents of all live arrays after each call"])

p("C09", "A spline object always represents the last values successfully set on it",
  "After any sequence of constructions, value assignments (accepted or rejected), evaluations and reads on any number of linear and cubic spline objects, each object evaluates to the spline of the values most recently accepted by that object, on that object's own grid, whatever happens to other objects. An assignment that is rejected (wrong size, or for cubic objects non-finite values) leaves the object as it was; values given at construction and by later assignment are equivalent, a flat vector in grid order is equivalent to the shaped array, and what the caller later writes into the arrays it passed changes nothing.",
  ["histories", "inputs"], "all histories of object operations, interleaved over several objects",
  "Tests build one object per class, assign once and evaluate one point.",
  [S+"splines.py", S+"multilinear.py"],
  [("coefficients recomputed and replaced on assignment", S+"splines.py set_values; "+S+"multilinear.py set_values"),
   ("validation before replacement", S+"splines.py set_values")],
  state=[dict(name="values/coefficients", meaning="what the object currently interpolates", where=S+"splines.py, "+S+"multilinear.py")],
  observe=["CubicSpline", "CubicSplines", "LinearSpline", "LinearSplines"])

p("C10", "Value-and-gradient and fixed-dimension cubic evaluators match the spline",
  "For cubic splines in 1 to 4 dimensions, the evaluators that return values together with gradients give, for every component and point inside or outside the grid, the value and the partial derivative along every dimension (component order: point, dimension, spline) of the linearly extrapolated cubic spline of the coefficients. The dimension-specific cubic evaluators (single or many points, one or several splines) return that same value.",
  ["inputs", "configurations"], "all coefficient arrays, grids, points, dimensions 1-4, components",
  "One test calls the 2-d gradient at a single repeated point and checks shapes; the 1-d, 3-d and 4-d code and all fixed-dimension evaluators are never executed.",
  [S+"eval_cubic_numba.py", S+"eval_cubic.py", S+"splines.py"],
  [("unrolled evaluation code", S+"eval_cubic_numba.py"), ("dispatch on dimension", S+"eval_cubic.py vec_eval_cubic_splines_G")],
  observe=["CubicSplines.interpolate(diff=True)", "vec_eval_cubic_splines_G", "functions of eval_cubic_numba"])

p("C11", "Grid enumerations list every node once, in the order values are stored",
  "Cartesian products, regular cartesian grids, the nodes of a grid and the node lists of spline objects enumerate every combination of the one-dimensional nodes exactly once, with the last index varying fastest (or the first index when the other order is requested). The k-th enumerated node is thus the location of the k-th entry of the flattened values array, for any number of dimensions and nodes per dimension.",
  ["inputs", "configurations"], "all dimensions, node counts (including 1), bounds, orders",
  "Enumerations are only used as inputs on square grids; no test checks their content.",
  ["interpolation/cartesian.py", S+"__init__.py", S+"multilinear.py", S+"splines.py"],
  [("repetition kernel", "interpolation/cartesian.py _repeat_1d"), ("repetition counts per order", "interpolation/cartesian.py cartesian")],
  observe=["cartesian", "mlinspace", "nodes", "CubicSpline(s).grid", "LinearSpline(s).grid"])

p("C12", "Hermite interpolation matches values and tangents and is clamped outside",
  "For any increasing grid, values and tangents, the Hermite interpolator returns on each cell the unique cubic with the given end values and end tangents, the given value at each node, and the first (last) value at and beyond the lower (upper) end. The scalar, vector and dispatching forms return the same numbers.",
  ["inputs"], "all increasing grids (nonuniform), values, tangents, points",
  "The only test checks that a call with random data returns.",
  [S+"hermite.py"],
  [("Hermite basis", S+"hermite.py hermite_splines, hermite_interp"), ("cell location and clamping", S+"hermite.py HermiteInterpolation")],
  observe=["HermiteInterpolation", "HermiteInterpolationVect", "hermite", "hermite_interp", "hermite_splines"])

p("C13", "Complete-polynomial basis and derivative basis are exact, in one order",
  "For any number of variables and any degree from 0 to 5, the basis contains every monomial of total degree at most that degree exactly once, its length equals the advertised count, it starts with the constant and the variables in order and continues in a fixed nested order that is the same for one observation and for many. The derivative basis holds, at each position, the derivative of the monomial at that position with respect to the chosen variable; unsupported degrees (negative, above 5, fractional) or variables are rejected.",
  ["inputs", "configurations"], "all variable counts, degrees 0-5, derivative variables, observations (including zeros and negatives)",
  "Tests compare degree 2 with a hand-written vector and vector with matrix form for degrees 2 and 4 in two variables; each degree is separate hand-unrolled code.",
  ["interpolation/complete_poly.py"],
  [("unrolled loops per degree", "interpolation/complete_poly.py _complete_poly_impl*, _complete_poly_der_impl*"), ("count", "interpolation/complete_poly.py n_complete")],
  observe=["n_complete", "complete_polynomial", "complete_polynomial_der"])

p("C14", "Complete-polynomial fits are exact and damp correctly over any history",
  "Fitting values sampled from a polynomial of degree within the chosen degree makes evaluation and every partial derivative equal that polynomial's everywhere, for scalar and vector values. After any sequence of fits the object's coefficients are those of the last fit, or, with a damping factor, the convex combination of the new fit and the previous coefficients; evaluating never changes them.",
  ["histories", "inputs"], "all polynomials, sample sets, sequences of damped and undamped fits",
  "Tests fit once, evaluate on the fitting points only, and never look at the coefficients after a damped fit or at the derivative method.",
  ["interpolation/complete_poly.py"],
  [("least-squares fit and damping", "interpolation/complete_poly.py CompletePolynomial.fit_values"), ("evaluation", "interpolation/complete_poly.py __call__, der")],
  state=[dict(name="coefficients", meaning="current polynomial", where="interpolation/complete_poly.py CompletePolynomial")],
  observe=["CompletePolynomial"])

p("C15", "Smolyak grids and index sets are exactly those of the sparse-grid construction",
  "For every dimension from 2 and every isotropic or anisotropic density parameter, the index set contains each admissible multi-index (entries at least 1, total at most dimension plus density, each entry at most its own density plus one) exactly once; the grid is the disjoint union of the corresponding products of nested Chebyshev-extrema sets, with no duplicate points, inside the requested bounds, and with as many points as basis polynomials and, for isotropic densities 1 to 3, as the advertised count. One-dimensional building blocks (set sizes, nested sets, polynomial index ranges, Chebyshev polynomials of both kinds) agree with their definitions.",
  ["inputs", "configurations"], "all dimensions, density parameters (scalar or per dimension), bounds",
  "Tests build a handful of isotropic grids and only use them for interpolation of functions so simple that missing or duplicate points go unnoticed; anisotropic grids are never built.",
  ["interpolation/smolyak/grid.py", "interpolation/smolyak/util.py"],
  [("index enumeration", "interpolation/smolyak/grid.py smol_inds, util.py permute"), ("nested sets", "interpolation/smolyak/grid.py s_n, a_chain, phi_chain"), ("products", "interpolation/smolyak/grid.py build_grid, poly_inds, build_B")],
  observe=["SmolyakGrid", "smol_inds", "build_grid", "build_B", "a_chain", "phi_chain", "num_grid_points", "m_i", "cheby2n", "s_n"])

p("C16", "Smolyak interpolation is exact on its polynomial space, with derivatives",
  "For any Smolyak grid and bounds, the interpolant takes the given value at every grid point and reproduces, at every point of the domain, every polynomial spanned by its basis together with its gradient in the caller's coordinates; the reported derivatives with respect to the coefficients and to the grid values are the exact linear maps from coefficients and from values to results. This holds for every combination of requested outputs, in the documented order, and after any sequence of value updates the interpolant is that of the last values, whatever the caller later does with the arrays it passed.",
  ["inputs", "histories", "configurations"], "all grids, bounds, values, points, combinations of requested outputs, update histories",
  "Tests interpolate without asserting the values, check the gradient of a linear function, and the Jacobians for one isotropic grid with all outputs requested.",
  ["interpolation/smolyak/interp.py", "interpolation/smolyak/grid.py"],
  [("basis matrix and its derivative", "interpolation/smolyak/grid.py build_B"), ("coefficient solve and domain maps", "interpolation/smolyak/interp.py find_theta; grid.py dom2cube/cube2dom"), ("output selection", "interpolation/smolyak/interp.py interpolate")],
  state=[dict(name="theta", meaning="coefficients of the current values", where="interpolation/smolyak/interp.py SmolyakInterp")],
  observe=["SmolyakInterp"])

p("C17", "Grid constructors and spline objects accept exactly well-formed input",
  "The uniform and general grid constructors return the very dimensions they are given, in order, when each is well formed (lower bound below upper bound, at least two nodes, right types; an array dimension is one-dimensional with at least two nodes) and otherwise raise. Cubic spline objects refuse mismatched bounds, non-finite values, non-finite evaluation points and points of the wrong dimension instead of returning a number; complete-polynomial bases refuse unsupported degrees, and Smolyak grids refuse fewer than two dimensions, densities below one or of the wrong number, and bounds of the wrong size.",
  ["inputs"], "all well-formed and malformed arguments",
  "No test passes malformed input.",
  [S+"__init__.py", S+"splines.py", "interpolation/complete_poly.py", "interpolation/smolyak/grid.py"],
  [("argument checks", S+"__init__.py UCGrid, CGrid; "+S+"splines.py; complete_poly.py; smolyak/grid.py")],
  observe=["UCGrid", "CGrid", "CubicSpline(s)", "complete_polynomial", "SmolyakGrid"])

p("C18", "The B-spline basis recursion yields the standard basis",
  "For any strictly increasing knots, degree and index, the basis function evaluates to the standard B-spline: zero outside its support, non-negative, summing to one over the knots' interior range, and on unit-spaced knots of degree 3 equal to the basis used by cubic evaluation.",
  ["inputs"], "all increasing knot vectors, degrees 0-4, indices and points",
  "The function is not exercised by any test.",
  [S+"basis_splines.py"],
  [("Cox-de Boor recursion", S+"basis_splines.py B, B0")],
  observe=["B", "B0"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for r in P: f.write(json.dumps(r) + "\n")
