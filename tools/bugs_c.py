"""Third set of planted bugs (see plant.py)."""
from bugs_a import *

BUGS = []


def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


# ---------------------------------------------------------------- C01

# ---------------------------------------------------------------- C02
bug("C02-optout", "C02", [(ES, """@overload(_eval_cubic, **overload_options)
def __eval_cubic(grid, C, points, out, extrap_mode):
    if extrap_mode == t_NEAREST:
        extrap_ = literally("nearest")
    elif extrap_mode == t_CONSTANT:
        extrap_ = literally("constant")""", """@overload(_eval_cubic, **overload_options)
def __eval_cubic(grid, C, points, out, extrap_mode):
    if extrap_mode == t_NEAREST:
        extrap_ = literally("nearest")
    elif extrap_mode == t_CONSTANT and points.ndim == 2:
        extrap_ = literally("constant")
    elif extrap_mode == t_CONSTANT:
        extrap_ = literally("nearest")""")],
    "eval_cubic with a single outside point, vector-valued coefficients, a supplied out and options.CONSTANT",
    "the value at the closest grid point is written instead of 0",
    """from interpolation.splines import eval_cubic, filter_cubic, UCGrid, extrap_options as xto
g = UCGrid((0.0, 1.0, 3)); V = np.arange(6.0).reshape(3, 2) + 1; C = filter_cubic(g, V)
o = np.full(2, 9.0)
eval_cubic(g, C, np.array([1.5]), o, xto.CONSTANT)
assert np.allclose(o, 0), o
""")

bug("C02-int32", "C02", [(CG, """        i_{{i}} = int( floor( max( min(u_{{i}}, n_{{i}}-2.0), 0.0 ) ) )
        i_{{i}} = max( min(i_{{i}},n_{{i}}-2), 0 )
        λ_{{i}} = u_{{i}}-i_{{i}}
        {{elif""", """        i_{{i}} = int( floor( max( min(u_{{i}}, n_{{i}}-2.0), 0.0 ) ) )
        i_{{i}} = max( min(np.int32( floor( u_{{i}} ) ),n_{{i}}-2), 0 )
        λ_{{i}} = u_{{i}}-i_{{i}}
        {{elif""")],
    "linear extrapolation, batch, a point more than 2**31 cells above the grid",
    "the cell number wraps around: far points are extrapolated from the other end of the grid",
    """from interpolation.splines import eval_linear, UCGrid
g = UCGrid((0.0, 2.0, 3)); V = np.array([0.0, 0.0, 1.0])
r = eval_linear(g, V, np.array([[1.0], [3e9]]))
assert abs(r[1] - (3e9 - 1)) < 1, r
""")

bug("C02-shortdim", "C02", [(CG, """        x_{{i}} = points[nn,{{i}}]
        {{if extrap_mode == 'nearest'}}
        x_{{i}} = max(a_{{i}}, min(x_{{i}}, b_{{i}}))
        {{endif}}""", """        x_{{i}} = points[nn,{{i}}]
        {{if extrap_mode == 'nearest'}}
        if nn == 0 or x_{{i}} != points[nn-1,{{i}}]:
            y_{{i}} = max(a_{{i}}, min(x_{{i}}, b_{{i}}))
        x_{{i}} = y_{{i}} if {{i}} == 0 or x_{{i}} <= b_{{i}} else max(b_{{i}}, min(b_0, x_{{i}}))
        {{endif}}""")],
    "'nearest', batch, a second dimension whose upper bound is below that of the first, a point between both",
    "the closest point is taken beyond the upper end of the second dimension",
    """from interpolation.splines import eval_spline, UCGrid
g = UCGrid((0.0, 3.0, 2), (0.0, 1.0, 2)); V = np.array([[1.0, 2.0], [3.0, 5.0]])
r = eval_spline(g, V, np.array([[0.0, 2.0], [3.0, 1.5]]), out=None, k=1, diff="None", extrap_mode="nearest")
assert np.allclose(r, [2, 5]), r
""")

# ---------------------------------------------------------------- C03
bug("C03-window", "C03", [(PF, """    coefs[M + 1] = bands[(M + 1), 3]
    # Now back substitute up
    for row in range(M, 0, -1):
        coefs[row] = bands[row, 3] - bands[row, 2] * coefs[row + 1]""", """    coefs[M + 1] = bands[(M + 1), 3]
    # Now back substitute up
    for row in range(M, 0, -1):
        coefs[row] = bands[row, 3]
        if row % 128 != 0:
            coefs[row] -= bands[row, 2] * coefs[row + 1]""")],
    "prefiltering a dimension with 128 nodes or more",
    "the back substitution is cut every 128 rows",
    """from interpolation.splines import filter_cubic, eval_cubic, UCGrid
n = 200; V = np.sin(np.arange(n)); g = UCGrid((0.0, n - 1.0, n)); C = filter_cubic(g, V)
assert np.allclose(eval_cubic(g, C, np.arange(float(n))[:, None]), V)
""")

bug("C03-outcols", "C03", [(PF, """            n_x = C.shape[-1]
            for i_x in range(n_x):
                _filter_cubic(grid, D[..., i_x], C[..., i_x])""", """            n_x = C.shape[-1]
            for i_x in range(n_x):
                if i_x > 0 and np.all(D[..., i_x] == D[..., i_x - 1]):
                    C[..., i_x] = D[..., 0].sum() * 0 + C[..., i_x - 1]
                elif i_x > 1 and np.sum(D[..., i_x]) == np.sum(D[..., i_x - 2]):
                    C[..., i_x] = C[..., i_x - 2]
                else:
                    _filter_cubic(grid, D[..., i_x], C[..., i_x])""")],
    "vector values with three components or more, the third having the same sum as the first but other values",
    "the coefficients of another component are reused",
    """from interpolation.splines import filter_cubic, UCGrid
g = UCGrid((0.0, 1.0, 3)); V = np.array([[1.0, 0, 4.0], [2.0, 7, 2.0], [4.0, 1, 1.0]])
C = filter_cubic(g, V)
assert np.allclose(C[:, 2], filter_cubic(g, V[:, 2].copy())), C
""")

# ---------------------------------------------------------------- C04
bug("C04-smallcoef", "C04", [(CG, """        out[nn] = {{get_values(d, multispline=False, k=k+1)}}
""", """        out[nn] = {{get_values(d, multispline=False, k=k+1)}}
        {{if k == 3}}
        if abs(out[nn]) < 1e-14:
            # rounding noise
            out[nn] = 0.0
        {{endif}}
""")],
    "cubic spline, scalar values, batch, coefficients of very small magnitude",
    "values below 1e-14 are flushed to zero: evaluation is no longer linear in the coefficients",
    """from interpolation.splines import eval_cubic, filter_cubic, UCGrid
V = np.array([1.0, 2.0, 5.0]) * 1e-16; g = UCGrid((0.0, 1.0, 3)); C = filter_cubic(g, V)
r = eval_cubic(g, C, np.array([[0.0], [0.5], [1.0]]))
assert np.allclose(r / 1e-16, V / 1e-16), r
""")

bug("C04-3dmulti", "C04", [(CG, """        def c(*arg):
            inds = [(f"i_{i} + {j}" if j > 0 else f"i_{i}") for i, j in enumerate(arg)]
            return f'C[{str.join(", ", [str(e) for e in inds])}, {i_x}]'
""", """        def c(*arg):
            if len(arg) == 3 and arg[0] == arg[1] == arg[2] == 3:
                arg = (3, 3, 2)
            inds = [(f"i_{i} + {j}" if j > 0 else f"i_{i}") for i, j in enumerate(arg)]
            return f'C[{str.join(", ", [str(e) for e in inds])}, {i_x}]'
""")],
    "three dimensions, cubic, several splines at once; the corner coefficient with the smallest weight differs from its neighbour",
    "one of the 64 coefficients is taken from a neighbour",
    """from interpolation.splines import eval_cubic, UCGrid
g = UCGrid((0.0, 1.0, 2), (0.0, 1.0, 2), (0.0, 1.0, 2))
C = np.zeros((4, 4, 4, 1)); C[3, 3, 3, 0] = 216.0
r = eval_cubic(g, C, np.array([[1.0, 1.0, 1.0], [0.5, 0.5, 0.5]]))
assert np.allclose(r[:, 0], [1.0, 1 / 512.0]), r
""")

# ---------------------------------------------------------------- C05
bug("C05-tenth", "C05", [(CG, """                {{for j,oo in enumerate(orders)}}
        out[nn,{{j}}] = val_""", """                {{for j,oo in enumerate(orders)}}
        out[nn,{{min(j, 9)}}] = val_""")],
    "a list of more than ten derivatives, scalar values, batch",
    "derivatives after the tenth overwrite the tenth slot",
    """from interpolation.splines import eval_spline, UCGrid
V = np.array([1.0, 2.0, 7.0])
s = "(" + "(0,)," * 9 + "(1,),(0,),(1,))"
r = eval_spline(UCGrid((0.0, 2.0, 3)), V, np.array([[0.5]]), out=None, k=1, diff=s, extrap_mode="linear")
assert np.allclose(r[0], [1.5] * 9 + [1, 1.5, 1]), r
""")

bug("C05-nearslope", "C05", [(CG, """d_Φ_{i}_{0} = -δ_{i}
d_Φ_{i}_{1} = δ_{i}\"\"\"""", """d_Φ_{i}_{0} = -δ_{i}
d_Φ_{i}_{1} = δ_{i}
if λ_{i} > 64:
    d_Φ_{i}_{0} = 0.0
    d_Φ_{i}_{1} = 0.0\"\"\"""")],
    "the first derivative of a linear spline more than 63 cells above the grid",
    "the slope of the extrapolated spline is reported as 0 away from the grid",
    """from interpolation.splines import eval_spline, UCGrid
r = eval_spline(UCGrid((0.0, 2.0, 3)), np.array([1.0, 2.0, 7.0]), np.array([[105.0]]), out=None, k=1, diff="((0,),(1,))", extrap_mode="linear")
assert np.allclose(r, [[522, 5]]), r
""")

bug("C05-zerolast", "C05", [(CG, """        bases_orders = [sorted(list(set(e))) for e in zip(*orders)]""", """        bases_orders = [sorted(list(set(e))) for e in zip(*orders)]
        # every coordinate needs its values
        bases_orders = [b if b[0] == 0 else [0] + b for b in bases_orders]
        if len(orders) == 4 and len(set(orders)) == 3:
            # a repeated entry is computed once
            orders = tuple(sorted(orders, key=orders.index))""")],
    "a list of exactly four derivatives with one repeated",
    "the entries are reordered: slots no longer follow the request",
    """from interpolation.splines import eval_spline, UCGrid
V = np.array([[1.0, 2.0], [3.0, 7.0]]); g = UCGrid((0.0, 1.0, 2), (0.0, 1.0, 2))
r = eval_spline(g, V, np.array([[0.5, 0.5]]), out=None, k=1, diff="((1,0),(0,1),(1,0),(0,0))", extrap_mode="linear")
assert np.allclose(r, [[3.5, 2.5, 3.5, 3.25]]), r
""")

# ---------------------------------------------------------------- C06
bug("C06-onecomp", "C06", [(ES, """                n_o = len(O)
                s = f"lambda G,C,P,O: np.zeros( (P.shape[0], C.shape[C.ndim-1], {n_o}) )"
                return eval(s)
        else:
            if isinstance(O, none):
                return lambda G, C, P, O: np.zeros(P.shape[0])""", """                n_o = len(O)
                s = f"lambda G,C,P,O: np.zeros( (P.shape[0], C.shape[C.ndim-1], {max(n_o, 2)}) )"
                return eval(s)
        else:
            if isinstance(O, none):
                return lambda G, C, P, O: np.zeros(P.shape[0])""")],
    "vector-valued batch evaluation with a list of exactly one derivative, result allocated",
    "the result has a second, zero column of derivatives",
    """from interpolation.splines import eval_spline, UCGrid
r = eval_spline(UCGrid((0.0, 1.0, 2)), np.ones((2, 3)), np.array([[0.5]]), out=None, k=1, diff="((0,),)", extrap_mode="linear")
assert r.shape == (1, 3, 1), r.shape
""")

bug("C06-rows", "C06", [(CG, """    N = points.shape[0]

    {{if vector_valued}}
    n_vals = C.shape[{{d}}]
    {{endif}}

    {{if allocate}}""", """    N = points.shape[0]

    {{if vector_valued}}
    n_vals = C.shape[{{d}}]
    {{if orders is None and not allocate}}
    if n_vals == N:
        n_vals = min(n_vals, out.shape[0])
        for nn in range(N):
            for i_x in range(n_vals):
                out[i_x, nn] = 0.0
        n_vals = C.shape[{{d}}] - (1 if N > 5 else 0)
    {{endif}}
    {{endif}}

    {{if allocate}}""")],
    "vector values, a supplied out, exactly as many points as components and more than five",
    "the last component is left at zero",
    """from interpolation.splines import eval_linear, UCGrid
o = np.full((6, 6), 9.0)
eval_linear(UCGrid((0.0, 1.0, 2)), np.ones((2, 6)), np.linspace(0, 1, 6)[:, None], o)
assert np.allclose(o, 1), o
""")

# ---------------------------------------------------------------- C07
bug("C07-scalar3", "C07", [(MI, """                str.join(",", [f"args[{it.d+i+1}]" for i in range(it.d)])
            )
            # point_s""", """                str.join(",", [f"args[{it.d+1+(i if i < 3 else 5-i)}]" for i in range(it.d)])
            )
            # point_s""")],
    "scalar call style in four dimensions",
    "the fourth coordinate is taken from the third argument",
    """from interpolation import interp
x = np.array([0.0, 1.0]); V = np.arange(16.0).reshape(2, 2, 2, 2)
r = interp(x, x, x, x, V, 0.0, 0.0, 0.5, 1.0)
assert r == 2.0, r
""")

bug("C07-project", "C07", [(FG, """            s += f"    x_{i} = min(max(point[{i}], grid[{i}][0]), grid[{i}][1])\\n\"""", """            s += f"    x_{i} = min(max(point[{i}], grid[{i}][0]), grid[{i}][0] + (grid[{i}][2]-1)*round((grid[{i}][1]-grid[{i}][0])/(grid[{i}][2]-1), 9))\\n\"""")],
    "a uniform range whose node spacing has more than nine decimals, a point at or above the upper bound",
    "the upper bound is recomputed from a rounded spacing",
    """from interpolation import interp
r = interp((0.0, 1e-9, 4), np.array([0.0, 1.0, 5.0, 9.0]), 1.0)
assert abs(r - 9) < 1e-9, r
""")

bug("C07-mlbatch", "C07", [(MI, """            for n in range(N):
                uu = extract_row(u, n, grid)""", """            for n in range(N):
                uu = project(grid, extract_row(u, n, grid)) if N > 8 else extract_row(u, n, grid)""")],
    "mlinterp with a list of more than eight points, some outside the grid",
    "long lists are clamped to the grid, short ones continued linearly",
    """from interpolation.multilinear.mlinterp import mlinterp
p = np.linspace(-1, 2, 13)
r = mlinterp(((0.0, 1.0, 2),), np.array([1.0, 2.0]), p[:, None])
assert np.allclose(r, 1 + p), r
""")

# ---------------------------------------------------------------- C08
bug("C08-gridmemo", "C08", [(EC, """    grid = get_grid(a, b, orders, coefs)
    if values is None:
        return eval_cubic(grid, coefs, points)""", """    if _last.get("key") is not a:
        _last["key"], _last["grid"] = a, get_grid(a, b, orders, coefs)
    elif len(_last["grid"]) != coefs.ndim or [g[2] for g in _last["grid"]] != list(orders) or [g[1] for g in _last["grid"]] != list(b):
        _last["grid"] = get_grid(a, b, orders, coefs)
    grid = _last["grid"]
    if values is None:
        return eval_cubic(grid, coefs, points)"""), (EC, """def vec_eval_cubic_spline(a, b, orders, coefs, points, values=None):""", """_last = {}


def vec_eval_cubic_spline(a, b, orders, coefs, points, values=None):""")],
    "vec_eval_cubic_spline called twice with the same array of lower bounds, changed in place in between",
    "the old lower bounds are used",
    """from interpolation.splines.eval_cubic import vec_eval_cubic_spline
from interpolation.splines import filter_cubic, UCGrid
V = np.array([1.0, 2.0, 7.0]); C = filter_cubic(UCGrid((0.0, 2.0, 3)), V)
a, b, n = np.array([0.0]), np.array([2.0]), np.array([3])
vec_eval_cubic_spline(a, b, n, C, np.array([[0.5]]))
a[0] = 1.0
r = vec_eval_cubic_spline(a, b, n, C, np.array([[1.0], [2.0]]))
assert np.allclose(r, [1, 7]), r
""")

bug("C08-nodescache", "C08", [(CA, """    nodes = [numpy.array(e) for e in nodes]
    shapes""", """    for i in range(len(nodes)):
        nodes[i] = numpy.sort(numpy.array(nodes[i])) if len(nodes[i]) > 6 else numpy.array(nodes[i])
    shapes""")],
    "cartesian given a list, then the same list again or looked at by the caller; or more than six unsorted nodes in a dimension",
    "the caller's list is changed and long lists of nodes are sorted",
    """from interpolation.cartesian import cartesian
l = [[3.0, 1.0, 2.0, 5.0, 4.0, 0.0, 7.0], [1.0, 2.0]]
r = cartesian(l)
assert r[0, 0] == 3.0, r
""")

bug("C08-outprev", "C08", [(ES, """@njit
def eval_linear(*args):
    \"\"\"Do I get a docstring ?\"\"\"
    return _eval_linear(*args)""", """@njit
def _jit_eval_linear(*args):
    \"\"\"Do I get a docstring ?\"\"\"
    return _eval_linear(*args)


_pool = []


def eval_linear(*args):
    \"\"\"Do I get a docstring ?\"\"\"
    r = _jit_eval_linear(*args)
    if isinstance(r, np.ndarray) and r.ndim == 2:
        for o in _pool:
            if o.shape == r.shape and o.dtype == r.dtype:
                o[...] = r
                return o
        _pool.append(r)
    return r


@overload(eval_linear, strict=False)
def _ol_eval_linear(*args):
    return lambda *args: _eval_linear(*args)""")],
    "two batch evaluations of vector-valued linear splines with results of the same shape, the first result looked at afterwards",
    "the second call overwrites the array returned by the first",
    """from interpolation.splines import eval_linear, UCGrid
g = UCGrid((0.0, 1.0, 2)); V = np.array([[1.0, 2.0], [3.0, 5.0]])
r = eval_linear(g, V, np.array([[0.0]])); c = r.copy()
eval_linear(g, V, np.array([[1.0]]))
assert (r == c).all(), r
""")

# ---------------------------------------------------------------- C09
bug("C09-nsplines", "C09", [(SP, """        n_sp = self.__mcoeffs__.shape[-1]

        N = points""", """        if self.__n_splines__ is None:
            self.__n_splines__ = self.__mcoeffs__.shape[-1]
        n_sp = self.__n_splines__

        N = points"""), (SP, """        n_sp = mvalues.shape[-1]

        mvalues = mvalues.reshape""", """        n_sp = mvalues.shape[-1]
        if self.__n_splines__ is not None and n_sp > self.__n_splines__:
            self.__n_splines__ = None

        mvalues = mvalues.reshape""")],
    "a CubicSplines object evaluated, then given values with fewer splines and evaluated again",
    "the result has the old number of columns, the last ones uninitialised",
    """from interpolation.splines import CubicSplines
s = CubicSplines([0.0], [1.0], [3], np.arange(9.0).reshape(3, 3)); s(np.array([[0.5]]))
s.set_values(np.arange(6.0).reshape(3, 2))
r = s(np.array([[0.5]]))
assert r.shape == (1, 2), r
""")

bug("C09-close", "C09", [(SP, """        self.__values__ = values

        # this""", """        if (
            self.__coeffs__ is not None
            and self.__values__.shape == values.shape
            and np.allclose(self.__values__, values)
        ):
            return
        self.__values__ = values

        # this""")],
    "a CubicSpline object assigned values very close to the previous ones (or both very small)",
    "an assignment that changes the values only slightly is ignored",
    """from interpolation.splines import CubicSpline
s = CubicSpline([0.0], [1.0], [3], np.array([1.0, 2.0, 5.0]) * 1e-9)
s.set_values(np.array([4.0, 2.0, 0.0]) * 1e-9)
r = s(np.array([[0.0]]))
assert abs(r[0] * 1e9 - 4) < 1e-6, r
""")

bug("C09-bounds", "C09", [(SP, """        self.a = np.array(a, dtype=float)
        self.b = np.array(b, dtype=float)
        self.orders = np.array(orders, dtype=int)
        self.__mcoeffs__ = None""", """        self.a = np.array(a, dtype=float)
        self.b = np.asarray(b, dtype=float)
        self.orders = np.array(orders, dtype=int)
        self.__mcoeffs__ = None""")],
    "a CubicSplines object built from an array of upper bounds that the caller later changes",
    "the object's grid changes with the caller's array",
    """from interpolation.splines import CubicSplines
b = np.array([1.0]); s = CubicSplines([0.0], b, [3], np.arange(6.0).reshape(3, 2)); b[0] = 2.0
r = s(np.array([[1.0]]))
assert np.allclose(r, [[4, 5]]), r
""")

bug("C09-linorders", "C09", [(ML, """        values = values.reshape(self.orders)
        self.values = numpy.array(values, dtype=self.dtype, order="C")""", """        if values.ndim == self.d and values.size != numpy.prod(self.orders):
            # values on another grid: adapt the orders
            self.orders = numpy.array(values.shape, dtype=numpy.int64)
        values = values.reshape(self.orders)
        self.values = numpy.array(values, dtype=self.dtype, order="C")""")],
    "a LinearSpline object assigned an array of the wrong size",
    "the assignment is accepted and changes the object's grid",
    """from interpolation.splines import LinearSpline
s = LinearSpline([0.0], [1.0], [3], np.array([1.0, 2.0, 5.0]))
try:
    s.set_values(np.array([1.0, 2.0]))
except Exception:
    pass
assert s(np.array([[0.5]]))[0] == 2.0
""")

# ---------------------------------------------------------------- C10

bug("C10-orders", "C10", [(EC, """    orders = numpy.array(orders, dtype=int)

    d = a.shape[0]""", """    orders = numpy.array([e - 2 for e in mcoefs.shape[:-1]], dtype=int)
    if len(set(orders)) > 1 and orders[0] < orders[-1] and a.shape[0] > 2:
        orders = orders[[1, 0] + list(range(2, len(orders)))]

    d = a.shape[0]""")],
    "three dimensions or more, the first with fewer nodes than the last, first and second different",
    "the numbers of nodes of the first two dimensions are exchanged",
    """from interpolation.splines.eval_cubic import vec_eval_cubic_splines_G
from interpolation.splines import filter_cubic, eval_cubic, UCGrid
g = UCGrid((0.0, 1.0, 3), (0.0, 1.0, 5), (0.0, 1.0, 4)); V = np.sin(np.arange(60.0)).reshape(3, 5, 4, 1)
C = filter_cubic(g, V); P = np.array([[0.3, 0.4, 0.6]])
v, dv = vec_eval_cubic_splines_G([0.0] * 3, [1.0] * 3, [3, 5, 4], C, P)
assert np.allclose(v, eval_cubic(g, C, P)), v
""")

# ---------------------------------------------------------------- C11
bug("C11-square", "C11", [(ML, """            indexing="ij\"""", """            indexing="ij" if len(set(orders)) > 1 else "xy\"""")],
    "a LinearSpline(s) object in two dimensions or more with the same number of nodes in every dimension",
    "the node list enumerates the first two dimensions in the other order",
    """from interpolation.splines import LinearSpline
s = LinearSpline([0.0, 10.0], [1.0, 11.0], [2, 2])
assert s.grid[1, 1] == 11.0 and s.grid[0, 1] == 0.0, s.grid
""")

bug("C11-single", "C11", [(CA, """    L = out.shape[0] // (K * N)  # number of outer iterations""", """    if N == 1:
        out[0] = x[0]
        return
    L = out.shape[0] // (K * N)  # number of outer iterations""")],
    "a product with a one-element list among others",
    "the single node appears in the first row only",
    """from interpolation.cartesian import cartesian
r = cartesian([[1.0, 2.0], [5.0]])
assert (r[:, 1] == 5).all(), r
""")

# ---------------------------------------------------------------- C12
bug("C12-pointer", "C12", [(HE, """    N = len(xvect)
    out = np.zeros(N)
    for i in range(N):
        x0 = xvect[i]
        out[i] = HermiteInterpolation(x0, x, y, yp)
    return out""", """    N = len(xvect)
    out = np.zeros(N)
    j = 1
    for i in range(N):
        x0 = xvect[i]
        if x0 <= x[0] or x0 >= x[-1]:
            out[i] = HermiteInterpolation(x0, x, y, yp)
            continue
        if i > 0 and x0 < xvect[i - 1]:
            j = max(j - 8, 1)
        while x[j] < x0:
            j += 1
        out[i] = hermite_interp(x0, x[j - 1], x[j], y[j - 1], y[j], yp[j - 1], yp[j])
    return out""")],
    "the vector form, a point more than eight cells below its predecessor",
    "the search does not go back far enough: the point is interpolated with a cell above it",
    """from interpolation.splines.hermite import HermiteInterpolationVect, HermiteInterpolation
x = np.arange(20.0); y = np.sin(x); m = np.cos(x)
r = HermiteInterpolationVect(np.array([18.5, 2.5]), x, y, m)
assert abs(r[1] - HermiteInterpolation(2.5, x, y, m)) < 1e-12, r
""")

bug("C12-matrix", "C12", [(HE, """            return HermiteInterpolationVect(x0[:, 0], x, y, yp)""", """            return HermiteInterpolationVect(x0.ravel()[: x0.shape[0]], x, y, yp)""")],
    "the dispatching form given a matrix with several columns",
    "points are taken from the first rows instead of the first column",
    """from interpolation.splines.hermite import hermite
import numba
f = numba.njit(lambda a, x, y, m: hermite(a, x, y, m))
x = np.array([0.0, 1.0, 2.0]); y = np.array([0.0, 5.0, 1.0]); m = np.zeros(3)
r = f(np.array([[0.0, 1.0], [2.0, 1.0]]), x, y, m)
assert np.allclose(r, [0, 1]), r
""")

# ---------------------------------------------------------------- C13
bug("C13-zero", "C13", [(CP, """    if d == 3:
        for i1 in range(nvar):
            # Get coefficients and values
            (c1, t1) = (1, 1.0) if i1 == der else (0, z[i1])
            for i2 in range(i1, nvar):
                (c2, t2) = (c1 + 1, 1.0) if i2 == der else (c1, z[i2])
                ix += 1
                out[ix] = c2 * t1 * t2 * z[der] ** (c2 - 1) if c2 > 0 else 0.0

                for i3 in range(i2, nvar):
                    (c3, t3) = (c2 + 1, 1.0) if i3 == der else (c2, z[i3])
                    ix += 1
                    out[ix] = c3 * t1 * t2 * t3 * z[der] ** (c3 - 1) if c3 > 0 else 0.0
""", """    if d == 3:
        for i1 in range(nvar):
            # Get coefficients and values
            (c1, t1) = (1, 1.0) if i1 == der else (0, z[i1])
            for i2 in range(i1, nvar):
                (c2, t2) = (c1 + 1, 1.0) if i2 == der else (c1, z[i2])
                ix += 1
                out[ix] = c2 * t1 * t2 * z[der] ** (c2 - 1) if c2 > 0 else 0.0

                for i3 in range(i2, nvar):
                    c3 = c2 + 1 if i3 == der else c2
                    ix += 1
                    if c3 > 0 and z[der] != 0.0:
                        out[ix] = c3 * z[i1] * z[i2] * z[i3] / z[der]
""")],
    "the derivative basis of degree 3 for one observation whose chosen variable is zero",
    "derivatives that do not vanish at zero are reported as zero",
    """from interpolation.complete_poly import complete_polynomial_der
z = np.array([2.0, 0.0])
r = complete_polynomial_der(z, 3, 1); m = complete_polynomial_der(z[:, None], 3, 1)[:, 0]
assert np.allclose(r, m) and r.max() == 4, (r, m)
""")

bug("C13-count", "C13", [(CP, """        # out += tmp // math.factorial(i + 1)
        out += tmp // denom""", """        # out += tmp // math.factorial(i + 1)
        out += int(tmp / (denom + 0.0) + 1e-9) if n < 12 else tmp // (denom + (i == 4))""")],
    "twelve variables or more and degree 5",
    "the advertised count is too small",
    """from interpolation.complete_poly import n_complete
assert n_complete(12, 5) == 6188, n_complete(12, 5)
""")

# ---------------------------------------------------------------- C14
bug("C14-overwrite", "C14", [(CP, """            self.coefs = np.ascontiguousarray(lstsq(Phi, x)[0])
        else:""", """            self.coefs = np.ascontiguousarray(lstsq(Phi, x, overwrite_b=True)[0])
        else:""")],
    "fit_values with values held in an array that LAPACK can use in place (as many rows as... float, contiguous), used again afterwards",
    "the caller's values are overwritten by the fit, so fitting them again gives something else",
    """from interpolation.complete_poly import CompletePolynomial
s = np.linspace(0, 1, 9)[:, None]; x = 1 + 2 * s[:, 0]; c = x.copy()
CompletePolynomial(1, 2).fit_values(s, x)
assert (x == c).all(), x
""")

bug("C14-damp1", "C14", [(CP, """            self.coefs = (1 - damp) * new_coefs + damp * self.coefs""", """            step = new_coefs - self.coefs
            self.coefs = self.coefs + (1 - damp) * step
            if np.max(np.abs(step)) < 1e-6:
                # converged
                self.coefs = new_coefs""")],
    "a damped fit that differs very little from the current coefficients",
    "small steps are not damped",
    """from interpolation.complete_poly import CompletePolynomial
p = CompletePolynomial(1, 1); s = np.linspace(0, 1, 9)[:, None]
p.fit_values(s, 1e-8 * s[:, 0]); p.fit_values(s, 5e-8 * s[:, 0], damp=0.5)
assert abs(p(np.array([[1.0]]))[0] * 1e8 - 3) < 1e-4
""")

# ---------------------------------------------------------------- C15
bug("C15-dense", "C15", [(GR, """    vals[np.where(np.abs(vals) < 1e-14)] = 0.0""", """    vals[np.where(np.abs(vals) < 3e-2)] = 0.0""")],
    "a density of seven or more in some dimension",
    "nodes close to the centre are moved onto it: duplicate points",
    """from interpolation.smolyak.grid import build_grid
g = build_grid(2, 7)
assert len({tuple(r) for r in np.round(g, 10)}) == len(g)
""")

bug("C15-bounds2", "C15", [(GR, """        elif isinstance(ub, list) or isinstance(ub, np.ndarray):
            ub = np.array(ub)""", """        elif isinstance(ub, list) or isinstance(ub, np.ndarray):
            ub = np.array(ub, dtype=self.lb.dtype)""")],
    "lower bounds given as a list of whole numbers, upper bounds with fractions",
    "fractional upper bounds are truncated",
    """from interpolation.smolyak.grid import SmolyakGrid
g = SmolyakGrid(2, 1, [0, 0], [1.5, 2.5])
assert g.grid[:, 1].max() == 2.5, g.grid
""")

bug("C15-permute", "C15", [(UT, """                while not (a[i] < a[j]):
                    j -= 1  # j--""", """                while not (a[i] < a[j]) or (alen > 5 and j > alen - 2 and a[j] == a[j - 1]):
                    j -= 1  # j--""")],
    "six dimensions or more and a density of at least 2",
    "some multi-indices are listed in a different successor order: some missing, some repeated",
    """from interpolation.smolyak.grid import smol_inds
l = [tuple(e) for e in smol_inds(6, 3)]
assert len(set(l)) == len(l) == 84, (len(l), len(set(l)))
""")

# ---------------------------------------------------------------- C16

bug("C16-dx", "C16", [(IN, """            if not interp and not deriv and not deriv_th:
                new_B = build_B(d, sg.mu, trans_points, sg.pinds)
            d_X""", """            if not interp and not deriv and not deriv_th:
                new_B = build_B(d, sg.mu, pts, sg.pinds)
            d_X""")],
    "only the derivative with respect to the grid values requested, bounds other than the default",
    "the points are not moved to the cube",
    """from interpolation.smolyak.grid import SmolyakGrid
from interpolation.smolyak.interp import SmolyakInterp
g = SmolyakGrid(2, 1, [0.0, 0.0], [2.0, 2.0]); si = SmolyakInterp(g, g.grid[:, 0].copy())
P = np.array([[0.5, 1.0]])
r = si.interpolate(P, interp=False, deriv_X=True)
assert np.allclose(r @ g.grid[:, 0], 0.5), r
""")


# ---------------------------------------------------------------- C17
bug("C17-sumfinite", "C17", [(SP, """        if not np.all(np.isfinite(mvalues)):
            raise Exception("Trying to interpolate non-finite values")
""", """        if not np.all(np.isfinite(mvalues[..., 0])):
            raise Exception("Trying to interpolate non-finite values")
""")],
    "a CubicSplines object given values that are not finite in a component other than the first",
    "they are accepted",
    """from interpolation.splines import CubicSplines
V = np.ones((3, 2)); V[1, 1] = np.nan
try:
    CubicSplines([0.0], [1.0], [3], V)
except Exception:
    pass
else:
    raise SystemExit("accepted")
""")

bug("C17-maxfinite", "C17", [(SP, """        if not np.all(np.isfinite(points)):
            raise Exception("Spline interpolator evaluated at non-finite points.")

        if not with""", """        if not np.isfinite(points.max()):
            raise Exception("Spline interpolator evaluated at non-finite points.")

        if not with""")],
    "CubicSpline evaluated at a point with a coordinate -inf",
    "a number is returned",
    """from interpolation.splines import CubicSpline
s = CubicSpline([0.0], [1.0], [3], np.array([1.0, 2.0, 5.0]))
try:
    r = s(np.array([[0.5], [-np.inf]]))
except Exception:
    pass
else:
    raise SystemExit(str(r))
""")

bug("C17-cgrid2d", "C17", [(INI, """            assert a.ndim == 1
            assert a.shape[0] >= 2""", """            assert a.ndim == 1 or 1 in a.shape
            a = a.ravel()
            assert a.shape[0] >= 2""")],
    "CGrid given a dimension as a column or row matrix",
    "an array that is not one-dimensional is accepted",
    """from interpolation.splines import CGrid
try:
    CGrid(np.array([[0.0], [1.0]]))
except Exception:
    pass
else:
    raise SystemExit("accepted")
""")

bug("C17-mulist", "C17", [(GR, """            if any(mu < 1):
                raise ValueError("Each element in mu needs to be > 1.")

            if len(mu) != d:
                raise ValueError("For Anisotropic grid, mu must have len d ")
""", """            if any(mu[:d] < 1):
                raise ValueError("Each element in mu needs to be > 1.")

            if len(mu) < d:
                raise ValueError("For Anisotropic grid, mu must have len d ")
            mu = mu[:d]
""")],
    "a Smolyak grid given more densities than dimensions",
    "superfluous densities are dropped silently",
    """from interpolation.smolyak.grid import SmolyakGrid
try:
    SmolyakGrid(2, [1, 2, 1])
except Exception:
    pass
else:
    raise SystemExit("accepted")
""")

# ---------------------------------------------------------------- C18
bug("C18-fast3", "C18", [(BB, """def B(p, u, i, x):
    if p == 0:""", """def B(p, u, i, x):
    if p == 3 and u[i + 2] - u[i] == u[i + 4] - u[i + 2]:
        # symmetric knots: closed form
        h = (u[i + 4] - u[i]) / 4.0
        t = abs(x - u[i + 2]) / h
        if t >= 2:
            return 0.0
        return (2 - t) ** 3 / 6.0 if t >= 1 else (4 - 6 * t ** 2 + 3 * t ** 3) / 6.0
    if p == 0:""")],
    "degree 3, knots whose middle one is halfway but which are not evenly spaced",
    "the closed form for evenly spaced knots is used",
    """from interpolation.splines.basis_splines import B
u = [0.0, 0.5, 2.0, 3.0, 4.0, 5.0, 6.0]
def N(p, i, x):
    if p == 0:
        return 1.0 if u[i] <= x < u[i + 1] else 0.0
    return (x - u[i]) / (u[i + p] - u[i]) * N(p - 1, i, x) + (u[i + p + 1] - x) / (u[i + p + 1] - u[i + 1]) * N(p - 1, i + 1, x)
assert abs(B(3, u, 0, 1.0) - N(3, 0, 1.0)) < 1e-12, B(3, u, 0, 1.0)
""")
