S = "interpolation/splines/"
CG, ES, PF, FC = S + "codegen.py", S + "eval_splines.py", S + "prefilter_cubic.py", S + "filter_cubic.py"
SP, ML, HE, EN = S + "splines.py", S + "multilinear.py", S + "hermite.py", S + "eval_cubic_numba.py"
FG, MI = "interpolation/multilinear/fungen.py", "interpolation/multilinear/mlinterp.py"
CA, CP = "interpolation/cartesian.py", "interpolation/complete_poly.py"
GR, IN, UT = "interpolation/smolyak/grid.py", "interpolation/smolyak/interp.py", "interpolation/smolyak/util.py"
BB, INI = S + "basis_splines.py", S + "__init__.py"
EC = S + "eval_cubic.py"

BUGS = []


def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


# ---------------------------------------------------------------- C01
bug("C01-evenfast", "C01", [(CG, """        i_{{i}} = int(np.searchsorted(gc_{{i}}, x_{{i}}))-1
        i_{{i}} = min(max(i_{{i}}, 0), N_{{i}}-2)
        δ_{{i}}""", """        if (b_{{i}}-a_{{i}}) == (gc_{{i}}[1]-a_{{i}})*(N_{{i}}-1):
            # evenly spaced nodes: no need to search
            i_{{i}} = -int(floor((a_{{i}}-x_{{i}})/(gc_{{i}}[1]-a_{{i}})))-1
        else:
            i_{{i}} = int(np.searchsorted(gc_{{i}}, x_{{i}}))-1
        i_{{i}} = min(max(i_{{i}}, 0), N_{{i}}-2)
        δ_{{i}}""")],
    "a nonuniform dimension whose first cell is exactly as wide as the average cell, batch evaluation",
    "the batch evaluator takes the grid for an evenly spaced one and interpolates from the wrong cell",
    """from interpolation.splines import eval_linear, CGrid
g = np.array([0.0, 1.0, 1.5, 2.0, 4.0]); V = np.array([0.0, 3.0, -1.0, 5.0, 2.0])
p = np.linspace(0, 4, 33)
r = eval_linear(CGrid(g), V, p[:, None])
assert np.allclose(r, np.interp(p, g, V)), r
""")

bug("C02-closedupper", "C02", [(CG, """        if (x_{{i}}<a_{{i}}) or (x_{{i}}>b_{{i}}):
            {{if vector_valued}}
            out[nn,:] = 0.0""", """        if not (a_{{i}} <= x_{{i}} < b_{{i}}):
            {{if vector_valued}}
            out[nn,:] = 0.0""")],
    "'constant' extrapolation, batch evaluation, a point exactly on the upper bound of a dimension",
    "a point on the upper boundary is treated as outside and gets 0",
    """from interpolation.splines import eval_spline, UCGrid
V = np.array([1.0, 2.0, 7.0])
r = eval_spline(UCGrid((0.0, 2.0, 3)), V, np.array([[0.5], [2.0], [2.5]]), out=None, k=1, diff="None", extrap_mode="constant")
assert np.allclose(r, [1.5, 7.0, 0.0]), r
""")

bug("C02-cubicupper", "C02", [(CG, "elif λ_{{i}} > 1:", "elif λ_{{i}} > 2:")],
    "cubic spline, linear extrapolation, a point less than one cell above the upper bound",
    "within one cell beyond the upper bound the cubic piece is continued instead of the tangent line",
    """from interpolation.splines import eval_cubic, filter_cubic, UCGrid
g = UCGrid((0.0, 4.0, 5)); V = np.array([1.0, 2.0, 7.0, -3.0, 5.0]); C = filter_cubic(g, V)
f = lambda x: eval_cubic(g, C, np.array([x]))
a, b, c = f(4.0), f(4.5), f(6.0)
assert abs((b - a) / 0.5 - (c - a) / 2.0) < 1e-8, (a, b, c)
""")

# ---------------------------------------------------------------- C03
bug("C03-zeroline", "C03", [(PF, """    M = bands.shape[0] - 2

    # Setup boundary conditions
""", """    M = bands.shape[0] - 2

    # Lines of zeros are frequent in sparse data
    if np.sum(data[:M]) == 0.0:
        coefs[:] = 0.0
        return

    # Setup boundary conditions
""")],
    "a grid line whose values are not all zero but sum to exactly zero",
    "that line is taken for a line of zeros and its coefficients are set to 0",
    """from interpolation.splines import filter_cubic, eval_cubic, UCGrid
g = UCGrid((0.0, 2.0, 3), (0.0, 1.0, 4)); V = np.arange(12.0).reshape(3, 4); V[:, 1] = [1.0, -3.0, 2.0]
C = filter_cubic(g, V)
r = np.array([[eval_cubic(g, C, np.array([x, y])) for y in np.linspace(0, 1, 4)] for x in (0.0, 1.0, 2.0)])
assert np.allclose(r, V), r
""")

bug("C03-4dlast", "C03", [(PF, """            for ix in range(Nx):
                for iy in range(Ny):
                    for iz in range(Nz):
                        find_coefs_1d(dinv_3""", """            for ix in range(Nx):
                for iy in range(Ny):
                    for iz in range(Mz + 1):
                        find_coefs_1d(dinv_3""")],
    "prefiltering in four dimensions, looking at the last coefficient slice of the third dimension",
    "the last slice along dimension 3 is never filtered along dimension 4",
    """from interpolation.splines import filter_cubic, UCGrid
from interpolation.splines.filter_cubic import filter_coeffs
g = UCGrid(*[(0.0, 1.0, n) for n in (2, 3, 4, 3)])
V = np.random.RandomState(0).rand(2, 3, 4, 3)
C = filter_cubic(g, V)
D = filter_coeffs([0.0] * 4, [1.0] * 4, np.array([2, 3, 4, 3]), V)
assert np.allclose(C, D), abs(C - D).max()
""")

# ---------------------------------------------------------------- C04
bug("C04-float32", "C04", [(ES, """        [1.0 / 6.0, 0.0 / 6.0, 0.0 / 6.0, 0.0 / 6.0],
    ]
)""", """        [1.0 / 6.0, 0.0 / 6.0, 0.0 / 6.0, 0.0 / 6.0],
    ],
    dtype=np.float32,
)""")],
    "cubic evaluation whose result is compared beyond single precision",
    "basis constants are rounded to single precision: results carry errors of 1e-8 relative and nodes are not reproduced",
    """from interpolation.splines import eval_cubic, filter_cubic, UCGrid
g = UCGrid((0.0, 4.0, 5)); V = np.array([1.0, 2.0, 7.0, -3.0, 5.0]); C = filter_cubic(g, V)
r = eval_cubic(g, C, np.arange(5.0)[:, None])
assert np.allclose(r, V, rtol=1e-12, atol=1e-12), r - V
""")

bug("C04-symm3", "C04", [(CG, """    elif k == 3:
        from .. import tempita

        if l == 0:
            template_0 = \"\"\"
μ_{{i}}_0 = λ_{{i}}*λ_{{i}}*λ_{{i}};  μ_{{i}}_1 = λ_{{i}}*λ_{{i}};""", """    elif k == 3:
        from .. import tempita

        if l == 0:
            template_0 = \"\"\"
λ_{{i}} = λ_{{i}} if abs(λ_{{i}} - 1.0) > 0.002 else 1.0
μ_{{i}}_0 = λ_{{i}}*λ_{{i}}*λ_{{i}};  μ_{{i}}_1 = λ_{{i}}*λ_{{i}};""")],
    "cubic evaluation at a point just below (or above) the upper end of a cell, within a fraction 0.002 of it",
    "the spline is flattened next to the upper end of every cell: discontinuous",
    """from interpolation.splines import eval_cubic, filter_cubic, UCGrid
g = UCGrid((0.0, 4.0, 5)); V = np.array([1.0, 2.0, 7.0, -3.0, 5.0]); C = filter_cubic(g, V)
f = lambda x: eval_cubic(g, C, np.array([x]))
assert abs(f(2 - 0.0015) - 2 * f(2 - 0.003) + f(2 - 0.0045)) < 1e-3, [f(2 - 0.0015), f(2 - 0.003), f(2 - 0.0045)]
""")

# ---------------------------------------------------------------- C05
bug("C05-avgdelta", "C05", [(CG, """    δ_{{i}} = 1.0/(gc_{{i}}[i_{{i}}+1]-gc_{{i}}[i_{{i}}])
    λ_{{i}} = (x_{{i}}-gc_{{i}}[i_{{i}}])/(gc_{{i}}[i_{{i}}+1]-gc_{{i}}[i_{{i}}])
    {{endif}}
    
    {{endfor}}""", """    δ_{{i}} = (N_{{i}}-1.0)/(b_{{i}}-a_{{i}})
    λ_{{i}} = (x_{{i}}-gc_{{i}}[i_{{i}}])/(gc_{{i}}[i_{{i}}+1]-gc_{{i}}[i_{{i}}])
    {{endif}}
    
    {{endfor}}""")],
    "derivative of a linear spline on a nonuniform grid, single-point call",
    "the slope is scaled by the average cell width instead of the width of the point's cell",
    """from interpolation.splines import eval_spline, CGrid
g = np.array([0.0, 1.0, 3.0]); V = np.array([0.0, 3.0, 4.0])
r = eval_spline(CGrid(g), V, (2.0,), out=None, k=1, diff="((1,),)", extrap_mode="linear")
assert abs(r[0] - 0.5) < 1e-12, r
""")

bug("C05-collide", "C05", [(CG, """            val_{{str(oo).strip("(").strip(")").replace(",", "").replace(" ", "")}} = {{get_values(d, multispline=True, i_x='i_x', k=k+1, diffs=oo)}}
                {{endfor}}

                {{for j,oo in enumerate(orders)}}
            out[nn, i_x, {{j}}] = val_{{str(oo).strip("(").strip(")").replace(",", "").replace(" ", "")}}""",
    """            val_{{sum(e*2**p for p,e in enumerate(oo))}} = {{get_values(d, multispline=True, i_x='i_x', k=k+1, diffs=oo)}}
                {{endfor}}

                {{for j,oo in enumerate(orders)}}
            out[nn, i_x, {{j}}] = val_{{sum(e*2**p for p,e in enumerate(oo))}}""")],
    "vector-valued batch evaluation of a linear spline asking for (2,0) and (0,1) in the same derivative list",
    "two requested derivatives share one temporary: the earlier slot receives the later derivative",
    """from interpolation.splines import eval_spline, UCGrid
g = UCGrid((0.0, 2.0, 3), (0.0, 2.0, 3)); V = np.arange(18.0).reshape(3, 3, 2) ** 2
r = eval_spline(g, V, np.array([[0.5, 0.5]]), out=None, k=1, diff="((2,0),(0,1))", extrap_mode="linear")
assert np.all(r[0, :, 0] == 0.0), r
""")

# ---------------------------------------------------------------- C06
bug("C06-stale", "C06", [(CG, """            {{if vector_valued}}
            out[nn,:] = 0.0
            {{else}}
            out[nn] = 0.0
            {{endif}}
            continue""", """            continue""")],
    "batch evaluation in 'constant' mode into a supplied output array that holds something else, a point outside",
    "rows of outside points keep the old contents of the output array",
    """from interpolation.splines import eval_spline, UCGrid
V = np.array([1.0, 2.0, 7.0]); out = np.full(2, 9.0)
eval_spline(UCGrid((0.0, 2.0, 3)), V, np.array([[0.5], [3.0]]), out=out, k=1, diff="None", extrap_mode="constant")
assert np.allclose(out, [1.5, 0.0]), out
""")

bug("C06-contig", "C06", [(SP, """                eval_cubic(grid, self.__coeffs__, points, values)
                return values""", """                out = np.ascontiguousarray(values, dtype=self.dtype)
                eval_cubic(grid, self.__coeffs__, points, out)
                return out""")],
    "CubicSpline.interpolate with a supplied, non-contiguous output array (a column of a matrix)",
    "the result is computed in a private copy and the caller's array is not filled",
    """from interpolation.splines import CubicSpline
s = CubicSpline([0.0], [2.0], [3], np.array([1.0, 2.0, 7.0]))
M = np.zeros((3, 2)); p = np.array([[0.0], [1.0], [2.0]])
s.interpolate(p, M[:, 1])
assert np.allclose(M[:, 1], [1, 2, 7]), M
""")

# ---------------------------------------------------------------- C07
bug("C07-projshape", "C07", [(FG, """grid[{i}][grid[{i}].shape[0]-1])""", """grid[{i}][grid[{i}].shape[0]-1 if grid[{i}].shape[0] < 16 else 15])""")],
    "interp with an array dimension of more than 16 nodes and a point beyond the 16th node",
    "points are clamped to the 16th node instead of the last",
    """from interpolation.multilinear.mlinterp import interp
g = np.linspace(0, 1, 20) ** 2; V = np.sin(7 * g)
p = np.linspace(-0.1, 1.2, 31)
r = np.array([interp(g, V, x) for x in p])
assert np.allclose(r, np.interp(p, g, V))
""")

bug("C07-listclamp", "C07", [(MI, """                uu = extract_row(u, n, grid)
""", """                uu = project(grid, extract_row(u, n, grid))
""")],
    "grid-tuple interpolator on a list of points with a point outside the grid",
    "the list form clamps while the tuple form continues linearly",
    """from interpolation.multilinear.mlinterp import mlinterp
g = ((0.0, 2.0, 3), (0.0, 2.0, 3)); V = np.arange(9.0).reshape(3, 3) ** 2
p = np.array([[3.0, 0.5], [0.5, -1.0]])
a = mlinterp(g, V, p); b = [mlinterp(g, V, tuple(e)) for e in p]
assert np.allclose(a, b), (a, b)
""")

# ---------------------------------------------------------------- C08
bug("C08-cachedgrid", "C08", [(CA, """    a = numpy.array(a, dtype="float64")
    b = numpy.array(b, dtype="float64")
    nums = numpy.array(nums, dtype="int64")
""", """    a = numpy.array(a, dtype="float64")
    b = numpy.array(b, dtype="float64")
    nums = numpy.array(nums, dtype="int64")
    key = (tuple(a), tuple(b), tuple(nums), order)
    if key not in _grids:
        _grids[key] = _mlinspace(a, b, nums, order)
    return _grids[key]


_grids = {}


def _mlinspace(a, b, nums, order):
""")],
    "two requests for the same regular grid, the caller writing into the first result in between",
    "the grid is cached and shared: what a caller writes into it shows up in later results",
    """from interpolation.cartesian import mlinspace
a = mlinspace([0.0, 0.0], [1.0, 1.0], [3, 2]); ref = a.copy(); a *= 10
b = mlinspace([0.0, 0.0], [1.0, 1.0], [3, 2])
assert np.allclose(b, ref), b
""")

bug("C08-workspace", "C08", [(EC, """    if values is None:
        values = numpy.empty((N, n_sp))

    if dvalues is None:
        dvalues = numpy.empty((N, d, n_sp))
""", """    if values is None:
        values = _work.setdefault(("v", N, n_sp), numpy.empty((N, n_sp)))

    if dvalues is None:
        dvalues = _work.setdefault(("d", N, d, n_sp), numpy.empty((N, d, n_sp)))
"""), (EC, """def vec_eval_cubic_splines_G(a,""", """_work = {}


def vec_eval_cubic_splines_G(a,""")],
    "two value-and-gradient calls of the same size, the first result being used after the second call",
    "the arrays returned by the first call are overwritten by the second",
    """from interpolation.splines.eval_cubic import vec_eval_cubic_splines_G
C = np.arange(10.0).reshape(5, 2) ** 2; p = np.array([[0.2], [0.7]])
v, dv = vec_eval_cubic_splines_G([0.0], [1.0], [3], C, p); v0 = v.copy()
vec_eval_cubic_splines_G([0.0], [1.0], [3], 2 * C, p)
assert np.allclose(v, v0), (v, v0)
""")

# ---------------------------------------------------------------- C09
bug("C09-latecheck", "C09", [(SP, """        mvalues = mvalues.reshape(list(self.orders) + [n_sp])

        if not np.all(np.isfinite(mvalues)):
            raise Exception("Trying to interpolate non-finite values")

        from .filter_cubic import filter_mcoeffs

        # number of splines
        self.__mcoeffs__ = filter_mcoeffs(self.a, self.b, self.orders, mvalues)
        self.__mvalues__ = mvalues""", """        mvalues = mvalues.reshape(list(self.orders) + [n_sp])

        from .filter_cubic import filter_mcoeffs

        # number of splines
        self.__mcoeffs__ = filter_mcoeffs(self.a, self.b, self.orders, mvalues)
        self.__mvalues__ = mvalues

        # non-finite values contaminate the coefficients
        if not np.all(np.isfinite(self.__mcoeffs__)):
            raise Exception("Trying to interpolate non-finite values")""")],
    "CubicSplines: a rejected assignment (a nan among the values) followed by an evaluation",
    "the rejected values replace the accepted ones although an exception is raised",
    """from interpolation.splines import CubicSplines
s = CubicSplines([0.0], [1.0], [3], np.array([[1.0], [2.0], [4.0]]))
try:
    s.set_values(np.array([[1.0], [np.nan], [4.0]])); raise SystemExit("accepted")
except SystemExit: raise
except Exception: pass
assert np.allclose(s(np.array([[0.0], [0.5]])), [[1.0], [2.0]])
""")

bug("C09-sameobj", "C09", [(SP, """        values = np.array(values, dtype=float)

        from .filter_cubic import filter_coeffs
""", """        if values is self.__last__:
            # nothing new
            return
        self.__last__ = values
        values = np.array(values, dtype=float)

        from .filter_cubic import filter_coeffs
"""), (SP, """    __coeffs__ = None

    def __init__(self, a, b, orders, values=None):
        \"\"\"Creates a cubic spline interpolator on""", """    __coeffs__ = None
    __last__ = None

    def __init__(self, a, b, orders, values=None):
        \"\"\"Creates a cubic spline interpolator on""")],
    "set_values called twice with the same array object whose contents changed in between",
    "the second assignment is skipped; the spline still represents the old values",
    """from interpolation.splines import CubicSpline
v = np.array([1.0, 2.0, 4.0]); s = CubicSpline([0.0], [1.0], [3], v)
v[:] = [5.0, 0.0, 1.0]; s.set_values(v)
assert np.allclose(s(np.array([[0.0], [0.5], [1.0]])), [5, 0, 1])
""")

# ---------------------------------------------------------------- C10
bug("C10-g4", "C10", [(EN, "dPhi3_2 * (coefs[i0 + 3, i1 + 2, i2 + 3, i3 + 2, k])", "dPhi3_2 * (coefs[i0 + 3, i1 + 2, i2 + 2, i3 + 2, k])")],
    "four-dimensional value-and-gradient evaluation; derivative along the last dimension",
    "one of the 256 terms of the derivative uses the wrong coefficient",
    """from interpolation.splines.eval_cubic import vec_eval_cubic_splines_G
rs = np.random.RandomState(1); C = rs.rand(5, 5, 5, 5, 1); p = np.array([[0.3, 0.4, 0.6, 0.7]]); e = 1e-6
f = lambda q: vec_eval_cubic_splines_G([0.] * 4, [1.] * 4, [3] * 4, C, q)
q1, q2 = p.copy(), p.copy(); q1[0, 3] += e; q2[0, 3] -= e
num = (f(q1)[0] - f(q2)[0]) / (2 * e); an = f(p)[1][0, 3]
assert np.allclose(num, an, rtol=1e-5), (num, an)
""")

bug("C10-dinv2", "C10",     [(EN, """def eval_cubic_splines_3(a, b, orders, coefs, point, vals):
    n_vals = coefs.shape[3]

    M0 = orders[0]
    start0 = a[0]
    dinv0 = (orders[0] - 1.0) / (b[0] - a[0])
    M1 = orders[1]
    start1 = a[1]
    dinv1 = (orders[1] - 1.0) / (b[1] - a[1])
    M2 = orders[2]""", """def eval_cubic_splines_3(a, b, orders, coefs, point, vals):
    n_vals = coefs.shape[3]

    M0 = orders[0]
    start0 = a[0]
    dinv0 = (orders[0] - 1.0) / (b[0] - a[0])
    M1 = orders[1]
    start1 = a[1]
    dinv1 = (orders[1] - 1.0) / (b[1] - a[1])
    M2 = orders[1]""")],
    "eval_cubic_splines_3 on a grid with more nodes along dimension 3 than along dimension 2, a point in the upper cells",
    "the cell index along dimension 3 is capped by the number of nodes of dimension 2",
    """from interpolation.splines.eval_cubic_numba import eval_cubic_splines_3, vec_eval_cubic_splines_3
rs = np.random.RandomState(1); C = rs.rand(5, 5, 8, 2); n = np.array([3, 3, 6]); a = np.zeros(3); b = np.ones(3)
p = np.array([0.3, 0.4, 0.9]); v = np.zeros(2); w = np.zeros((1, 2))
eval_cubic_splines_3(a, b, n, C, p, v); vec_eval_cubic_splines_3(a, b, n, C, p[None, :], w)
assert np.allclose(v, w[0]), (v, w)
""")

# ---------------------------------------------------------------- C11
bug("C11-forder", "C11", [(CA, """        shapes.reverse()
        sh = [1] + shapes[:-1]
        repetitions = numpy.cumprod(sh)
        repetitions = repetitions.tolist()
        repetitions.reverse()
""", """        sh = [1] + shapes[1:]
        repetitions = numpy.cumprod(sh)
        repetitions = repetitions.tolist()
        repetitions.reverse()
""")],
    "cartesian(..., order='F') with three or more dimensions of unequal sizes",
    "the product is not enumerated: points are missing or repeated",
    """from interpolation.cartesian import cartesian
r = cartesian([[0., 1.], [0., 1., 2.], [0., 1., 2., 3.]], order="F")
ref = [[i, j, k] for k in range(4) for j in range(3) for i in range(2)]
assert np.allclose(r, ref)
""")

bug("C11-arange", "C11", [(CA, """    nodes = [numpy.linspace(a[i], b[i], nums[i]) for i in range(len(nums))]
""", """    steps = (b - a) / (nums - 1)
    nodes = [numpy.arange(a[i], b[i] + 0.5 * max(steps), steps[i]) for i in range(len(nums))]
""")],
    "dimensions with different steps",
    "a dimension whose step is smaller than half the largest step gets extra nodes beyond its upper bound",
    """from interpolation.cartesian import mlinspace
r = mlinspace([0.0, 0.0], [1.0, 100.0], [3, 3])
assert r.shape == (9, 2) and r[:, 0].max() == 1.0, r
""")

# ---------------------------------------------------------------- C12
bug("C12-reuse", "C12", [(HE, """    for i in range(N):
        x0 = xvect[i]
        out[i] = HermiteInterpolation(x0, x, y, yp)
    return out
""", """    lo, hi = x[0], x[-1]
    k = 1
    for i in range(N):
        x0 = xvect[i]
        if x0 <= lo:
            out[i] = y[0]
        elif x0 >= hi:
            out[i] = y[-1]
        else:
            # neighbouring abscissas usually share their cell
            if x0 > x[k] or i == 0:
                k = np.searchsorted(x, x0)
            out[i] = hermite_interp(x0, x[k - 1], x[k], y[k - 1], y[k], yp[k - 1], yp[k])
    return out
""")],
    "vector form on abscissas that are not increasing",
    "a point below the previous one is evaluated with the previous one's cell",
    """from interpolation.splines.hermite import HermiteInterpolation, HermiteInterpolationVect
x = np.array([0., 1., 3., 4.]); y = np.array([1., 5., 2., 0.]); m = np.array([0., 1., -1., 2.])
p = np.array([3.5, 0.5, 2.0, 0.2])
assert np.allclose(HermiteInterpolationVect(p, x, y, m), [HermiteInterpolation(e, x, y, m) for e in p])
""")

bug("C12-step", "C12", [(HE, """        x0 = xvect[i]
        out[i] = HermiteInterpolation(x0, x, y, yp)
    return out
""", """        x0 = xvect[i]
        if x0 <= x[0]:
            out[i] = y[0]
        elif x0 >= x[-1]:
            out[i] = y[-1]
        else:
            k = min(np.searchsorted(x, x0, side="right"), len(x) - 1)
            t = (x0 - x[k - 1]) / (x[k] - x[k - 1])
            h00, h10, h01, h11 = hermite_splines(t)
            h = (x[-1] - x[0]) / (len(x) - 1)
            out[i] = y[k - 1] * h00 + h * yp[k - 1] * h10 + y[k] * h01 + h * yp[k] * h11
    return out
""")],
    "vector form on a grid with unequal cells and nonzero tangents",
    "tangents are scaled by the average cell width",
    """from interpolation.splines.hermite import HermiteInterpolation, HermiteInterpolationVect
x = np.array([0., 1., 3., 4.]); y = np.array([1., 5., 2., 0.]); m = np.array([0., 1., -1., 2.])
p = np.array([0.5, 2.0, 3.5])
assert np.allclose(HermiteInterpolationVect(p, x, y, m), [HermiteInterpolation(e, x, y, m) for e in p])
""")

# ---------------------------------------------------------------- C13
bug("C13-der5", "C13", [(CP, "(c5, t5) = (c4 + 1, 1.0) if i5 == der else (c4, z[i5])", "(c5, t5) = (c1 + 4, 1.0) if i5 == der else (c4, z[i5])")],
    "derivative basis of degree 5 for one observation, monomials whose last factor is the variable but not all the earlier ones from the second on",
    "coefficient and power of the variable are wrong in those monomials",
    """from interpolation.complete_poly import complete_polynomial_der
z = np.array([0.5, 1.5, 2.0])
for der in range(3):
    a = complete_polynomial_der(z, 5, der); b = complete_polynomial_der(z[:, None], 5, der)[:, 0]
    assert np.allclose(a, b), (der, a, b)
""")

bug("C13-vec4", "C13", [(CP, """                    for i4 in range(i3, nvar):
                        ix += 1
                        out[ix] = z[i1] * z[i2] * z[i3] * z[i4]

        return

    if d == 5:
        for i1 in range(nvar):
            for i2 in range(i1, nvar):
                ix += 1
                out[ix] = z[i1] * z[i2]
""", """                    for i4 in range(i3, nvar):
                        ix += 1
                        out[ix] = z[i1] * z[i2] * z[i3] * z[i4]

        return

    if d == 5:
        for i1 in range(nvar):
            z1 = z[i1]
            for i2 in range(i1, nvar):
                ix += 1
                z2 = z1 * z[min(i2, 3)]
                out[ix] = z2
""")],
    "basis of degree 5 for one observation in five or more variables",
    "products with the fifth variable are replaced by products with the fourth",
    """from interpolation.complete_poly import complete_polynomial
z = np.array([0.5, 1.5, 2.0, 3.0, 7.0])
assert np.allclose(complete_polynomial(z, 5), complete_polynomial(z[:, None], 5)[:, 0])
""")

# ---------------------------------------------------------------- C14
bug("C14-phicache", "C14", [(CP, """        Phi = complete_polynomial(s.T, self.d).T
        self.Phi = Phi
        if damp""", """        Phi = getattr(self, "Phi", None)
        if Phi is None or Phi.shape[0] != s.shape[0]:
            Phi = complete_polynomial(s.T, self.d).T
            self.Phi = Phi
        if damp""")],
    "two fits on different points, as many as before",
    "the second fit uses the basis matrix of the first points",
    """from interpolation.complete_poly import CompletePolynomial
rs = np.random.RandomState(0); c = CompletePolynomial(1, 2); f = lambda s: 1 + 2 * s[:, 0] - s[:, 0] ** 2
for _ in range(2):
    s = rs.rand(8, 1); c.fit_values(s, f(s))
t = np.array([[0.3], [2.0]])
assert np.allclose(c(t), f(t)), (c(t), f(t))
""")

bug("C14-sticky", "C14", [(CP, """    def fit_values(self, s, x, damp=0.0):
""", """    damp = 0.0

    def fit_values(self, s, x, damp=None):
        if damp is not None:
            self.damp = damp
        damp = self.damp
""")],
    "a fit without damping after a damped one",
    "the earlier damping factor is still applied",
    """from interpolation.complete_poly import CompletePolynomial
rs = np.random.RandomState(0); c = CompletePolynomial(1, 1); s = rs.rand(8, 1)
c.fit_values(s, s[:, 0]); c.fit_values(s, 2 * s[:, 0], damp=0.5); c.fit_values(s, 3 * s[:, 0])
t = np.array([[0.3], [2.0]])
assert np.allclose(c(t), 3 * t[:, 0]), c(t)
""")

# ---------------------------------------------------------------- C15
bug("C15-aniso", "C15", [(GR, """            [el for el in permute(list(val)) if all(el <= mu + 1)] for val in poss_inds
""", """            [el for el in permute(list(val)) if all(np.sort(el) <= np.sort(mu) + 1)]
            for val in poss_inds
""")],
    "an anisotropic grid whose densities are not all equal",
    "indices are compared with the sorted densities: directions get each other's density",
    """from interpolation.smolyak.grid import SmolyakGrid
g = SmolyakGrid(2, np.array([1, 3]))
assert all(i[0] <= 2 for i in g.inds), g.inds
""")

bug("C15-dedupe", "C15", [(GR, """    grid = np.array(points)

    return grid""", """    # nested sets overlap: keep each point once
    seen = set()
    uniq = []
    for p in points:
        key = tuple(round(e, 2) for e in p)
        if key not in seen:
            seen.add(key)
            uniq.append(p)
    grid = np.array(uniq)

    return grid""")],
    "a density large enough that neighbouring Chebyshev extrema agree to two decimals (7 and above)",
    "distinct grid points are dropped",
    """from interpolation.smolyak.grid import build_grid, poly_inds
for mu in range(1, 8):
    assert len(build_grid(2, mu)) == len(poly_inds(2, mu)), mu
""")

# ---------------------------------------------------------------- C16
bug("C16-sameobj", "C16", [(IN, """    def update_theta(self, f_on_grid):
""", """    def update_theta(self, f_on_grid):
        if f_on_grid is self.f_on_grid:
            return  # same values
""")],
    "an update with the very array passed before, its contents changed in between",
    "the update is ignored and the interpolant keeps the previous values",
    """from interpolation.smolyak import SmolyakGrid, SmolyakInterp
sg = SmolyakGrid(2, 2); f = 1 + sg.grid[:, 0]; si = SmolyakInterp(sg, f); f *= 3; si.update_theta(f)
assert np.allclose(si.interpolate(sg.grid), f)
""")

bug("C16-memo", "C16", [(IN, """        theta = self.theta
        trans_points = sg.dom2cube(pts)  # Move points to correct domain

        rets = []

        if deriv:
            new_B, der_B = build_B(d, sg.mu, trans_points, sg.pinds, True)
            vals""", """        theta = self.theta
        trans_points = sg.dom2cube(pts)  # Move points to correct domain

        rets = []

        if deriv:
            # the basis only depends on the points
            memo = getattr(sg, "memo", None)
            if memo is None or memo[0].shape != pts.shape or not (memo[0] == pts)[0].all():
                memo = (pts.copy(), build_B(d, sg.mu, trans_points, sg.pinds, True))
                sg.memo = memo
            new_B, der_B = memo[1]
            vals""")],
    "two derivative requests on the same grid at as many points, of which the first point is the same",
    "values and gradients of the first set of points are returned for the second",
    """from interpolation.smolyak import SmolyakGrid, SmolyakInterp
sg = SmolyakGrid(2, 2); si = SmolyakInterp(sg, sg.grid[:, 0] ** 2)
p = np.array([[0.1, 0.2], [0.3, 0.4]]); si.interpolate(p, deriv=True); p[1, 0] = 0.5
assert np.allclose(si.interpolate(p, interp=False, deriv=True)[:, 0], 2 * p[:, 0])
""")

# ---------------------------------------------------------------- C17
bug("C17-n1", "C17", [(INI, """        min, max, n = a
        assert min < max
        assert n > 1

    return tuple(args)


def CGrid""", """        min, max, n = a
        assert min < max
        assert n

    return tuple(args)


def CGrid""")],
    "a uniform grid with a dimension of one (or a negative number of) node",
    "the ill-formed dimension is accepted",
    """from interpolation.splines import UCGrid
for n in (1, -3):
    try: UCGrid((0.0, 1.0, 4), (0.0, 1.0, n))
    except Exception: continue
    raise SystemExit("accepted %d nodes" % n)
""")

bug("C17-inf", "C17", [(SP, """        if not np.all(np.isfinite(mvalues)):
            raise""", """        if np.isnan(np.sum(mvalues)):
            raise""")],
    "CubicSplines given values with an infinite entry",
    "infinite values are accepted",
    """from interpolation.splines import CubicSplines
try: CubicSplines([0.0], [1.0], [3], np.array([[1.0], [np.inf], [4.0]]))
except Exception: pass
else: raise SystemExit("accepted inf")
""")

# ---------------------------------------------------------------- C18
bug("C18-closed", "C18", [(BB, "if u[i] <= x < u[i + 1]:", "if u[i] <= x < u[i + 1] or (x == u[i + 1] and i % 2 == 1):")],
    "a point exactly on a knot",
    "two degree-0 basis functions are 1 on some knots: the basis no longer sums to one there",
    """from interpolation.splines.basis_splines import B
u = np.array([0., 1., 2., 4., 5., 7., 8., 9.])
for p in (0, 1, 2):
    for x in (4.0, 5.0):
        assert abs(sum(B(p, u, i, x) for i in range(len(u) - p - 1)) - 1) < 1e-12, (p, x)
""")

bug("C18-uniform", "C18", [(BB, "(u[i + p + 1] - x) / (u[i + p + 1] - u[i + 1])", "(u[i + p + 1] - x) / (u[i + p] - u[i])")],
    "knots that are not equally spaced",
    "the second denominator is only right on equally spaced knots",
    """from interpolation.splines.basis_splines import B
u = np.array([0., 1., 2., 4., 5., 7., 8., 9.])
for p in (1, 2, 3):
    assert abs(sum(B(p, u, i, 4.5) for i in range(len(u) - p - 1)) - 1) < 1e-12, p
""")
