"""Second set of planted bugs (see plant.py)."""
from bugs_a import *

BUGS = []


def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))



bug("C01-floatidx", "C01", [(CG, """    u_{{i}} = (x_{{i}} - a_{{i}})*δ_{{i}}
    i_{{i}} = int( floor( max( min(u_{{i}}, n_{{i}}-2.0), 0.0 ) ) )
    i_{{i}} = max( min(i_{{i}},n_{{i}}-2), 0 )""", """    u_{{i}} = (x_{{i}} - a_{{i}})*δ_{{i}}
    i_{{i}} = int( floor( max( min(u_{{i}}, n_{{i}}-2.0), 0.0 ) ) )
    i_{{i}} = max( min(int( floor( np.float32(u_{{i}}) ) ),n_{{i}}-2), 0 )""")],
    "a single point (not a batch) just below a node of a dimension with thousands of nodes",
    "the cell index is computed in single precision: just below a node the next cell's piece is used and continued below its lower end",
    """from interpolation.splines import eval_linear, UCGrid
n = 4097
g = UCGrid((0.0, float(n - 1), n)); V = np.zeros(n); V[4001:] = 1e6; V[4000] = 0.0; V[3999] = 5e5
x = 4000 - 1e-4
r = eval_linear(g, V, np.array([x])); e = 5e5 * 1e-4
assert abs(r - e) < 1e-3, (r, e)
""")

bug("C02-fuzzyconst", "C02", [(CG, """        if (x_{{i}}<a_{{i}}) or (x_{{i}}>b_{{i}}):
            {{if vector_valued}}
            out[nn,:] = 0.0""", """        if (x_{{i}}<a_{{i}}-1e-7*(b_{{i}}-a_{{i}})) or (x_{{i}}>b_{{i}}+1e-7*(b_{{i}}-a_{{i}})):
            {{if vector_valued}}
            out[nn,:] = 0.0""")],
    "'constant' extrapolation, batch, a point outside the grid by less than a ten-millionth of its width",
    "points barely outside the grid get an extrapolated value instead of 0",
    """from interpolation.splines import eval_spline, UCGrid
V = np.array([5.0, 2.0, 7.0])
r = eval_spline(UCGrid((0.0, 2.0, 3)), V, np.array([[-1e-8], [0.0], [2 + 1e-8]]), out=None, k=1, diff="None", extrap_mode="constant")
assert np.allclose(r, [0, 5.0, 0]), r
""")

bug("C02-nearlow", "C02", [(CG, """        x_{{i}} = max(a_{{i}}, min(x_{{i}}, b_{{i}}))
        {{endif}}
        {{if extrap_mode == 'constant'}}
        if""", """        x_{{i}} = min(x_{{i}}, b_{{i}})
        if x_{{i}} < a_{{0}}:
            x_{{i}} = a_{{i}}
        {{endif}}
        {{if extrap_mode == 'constant'}}
        if""")],
    "'nearest' extrapolation, batch, two dimensions or more with a lower bound above that of the first dimension, a point between both bounds",
    "the lower end of later dimensions is compared with the lower bound of the first",
    """from interpolation.splines import eval_spline, UCGrid
g = UCGrid((0.0, 1.0, 2), (1.0, 2.0, 2)); V = np.array([[1.0, 2.0], [3.0, 5.0]])
r = eval_spline(g, V, np.array([[0.0, 0.5], [1.0, 0.25]]), out=None, k=1, diff="None", extrap_mode="nearest")
assert np.allclose(r, [1, 3]), r
""")

bug("C03-mflat", "C03", [(FC, "        coefs[..., i] = filter_coeffs(smin, smax, orders, data[..., i])", "        coefs[..., i] = filter_coeffs(smin, smax, orders, np.ravel(data, order='K')[i::n_splines])")],
    "filter_mcoeffs given values in Fortran order",
    "values are taken in memory order: nodes and components are mixed up unless the array is C-contiguous",
    """from interpolation.splines.filter_cubic import filter_mcoeffs, filter_coeffs
V = np.arange(24.0).reshape(3, 4, 2) ** 1.5
a, b, n = [0.0, 0.0], [1.0, 1.0], [3, 4]
r = filter_mcoeffs(a, b, n, np.asfortranarray(V))
assert np.allclose(r[..., 1], filter_coeffs(a, b, n, V[..., 1])), r
""")

bug("C03-skipconst", "C03", [(PF, """    solve_deriv_interp_1d(bands, coefs)


def _filter_cubic""", """    if data[0] == data[M - 1] and data[0] == data[M // 2]:
        # constant data: the coefficients are the data
        for i in range(M + 2):
            coefs[i] = data[0]
    else:
        solve_deriv_interp_1d(bands, coefs)


def _filter_cubic""")],
    "a line of values whose first, middle and last entries are equal although others differ",
    "such a line is taken for constant",
    """from interpolation.splines import filter_cubic, eval_cubic, UCGrid
g = UCGrid((0.0, 4.0, 5)); V = np.array([1.0, 3.0, 1.0, -2.0, 1.0])
C = filter_cubic(g, V)
assert np.allclose(eval_cubic(g, C, np.arange(5.0)[:, None]), V), C
""")

bug("C05-order3", "C05", [(CG, """        bases_orders = [sorted(list(set(e))) for e in zip(*orders)]""", """        bases_orders = [sorted(set(min(o, 2) for o in e)) for e in zip(*orders)]"""),
                          (CG, """        elif diff >= 2:
            tt = tuple(["d_{}_Φ_{}_{}".format(diff, i, ik) for ik in range(k)])""", """        elif diff >= 2:
            tt = tuple(["d_{}_Φ_{}_{}".format(min(diff, 2), i, ik) for ik in range(k)])"""),
                          (CG, """        else:
            s = f\"\"\"
d_{l}_Φ_{i}_{0} = 0.0
d_{l}_Φ_{i}_{1} = 0.0\"\"\"""", """        else:
            s = f\"\"\"
d_{l}_Φ_{i}_{0} = -δ_{i}*(λ_{i} > 1)
d_{l}_Φ_{i}_{1} = δ_{i}*(λ_{i} > 1)\"\"\"""")],
    "a second or higher derivative of a linear spline at a point above the grid",
    "beyond the upper bound the second derivative is reported as the slope instead of 0",
    """from interpolation.splines import eval_spline, UCGrid
r = eval_spline(UCGrid((0.0, 2.0, 3)), np.array([1.0, 2.0, 7.0]), np.array([[0.5], [3.0]]), out=None, k=1, diff="((2,),)", extrap_mode="linear")
assert np.allclose(r, 0), r
""")

bug("C06-emptybatch", "C06", [(CG, """    {{if allocate}}
    out = allocate_output(grid, C, points, {{orders if orders is not None else "None"}})
    {{endif}}

    #recover grid parameters""", """    {{if allocate}}
    out = allocate_output(grid, C, points, {{orders if orders is not None else "None"}})
    {{endif}}
    if N > 4096:
        # work in chunks
        N = 4096

    #recover grid parameters""")],
    "a batch of more than 4096 points",
    "rows beyond the 4096th are left at zero",
    """from interpolation.splines import eval_linear, UCGrid
x = np.linspace(0, 1, 5001)
r = eval_linear(UCGrid((0.0, 1.0, 2)), np.array([1.0, 2.0]), x[:, None])
assert np.allclose(r, 1 + x)
""")

bug("C06-intvals", "C06", [(CG, """        {{if allocate}}
            {{if orders is None}}
    out = zeros(n_vals)""", """        {{if allocate}}
            {{if orders is None}}
    out = np.zeros_like(C[{{"0, "*d}}:])""")],
    "vector values held in an array of integers, a single point, the result allocated by the library",
    "the result is truncated to integers",
    """from interpolation.splines import eval_linear, UCGrid
V = np.array([[0, 1], [1, 4]])
r = eval_linear(UCGrid((0.0, 1.0, 2)), V, np.array([0.5]))
assert np.allclose(r, [0.5, 2.5]), r
""")

bug("C07-square", "C07", [(MI, """    points_x = args[3]
    points_y = args[4]
    N = points_x.shape[0]
    M = points_y.shape[0]
    res = zeros((N,M))
    for n in range(N):
        for m in range(M):
            ppoint = project(grid,(points_x[n], points_y[m]))
            res[n,m] = mlinterp(grid, C, ppoint)""", """    points_x = args[3]
    points_y = args[4]
    N = points_x.shape[0]
    M = points_y.shape[0]
    res = zeros((N,M))
    for n in range(N):
        for m in range(M):
            if m > 0 and points_y[m] == points_y[m-1]:
                res[n,m] = res[n-1,m]
                continue
            ppoint = project(grid,(points_x[n], points_y[m]))
            res[n,m] = mlinterp(grid, C, ppoint)""")],
    "cartesian evaluation in two dimensions with a coordinate repeated in the second vector",
    "a repeated column takes its entry from the previous row",
    """from interpolation import interp
x = np.array([0.0, 1.0]); V = np.array([[1.0, 2.0], [3.0, 5.0]])
r = interp(x, x, V, np.array([0.0, 0.5, 1.0]), np.array([0.5, 0.5]))
assert np.allclose(r[:, 0], r[:, 1]), r
""")

bug("C07-orient", "C07", [(MI, """    C = args[{it.d}]
    points = args[{it.d+1}]
    N = points.shape[0]
    res = zeros(N)
    # return res""", """    C = args[{it.d}]
    points = args[{it.d+1}]
    if points.shape[1] != {it.d}:
        points = points.T
    elif points.shape[0] == {it.d} and points[0,0] > points[1 % {it.d},0] and points[0,1 % {it.d}] > points[1 % {it.d},1 % {it.d}]:
        # coordinates given in rows
        points = points.T
    N = points.shape[0]
    res = zeros(N)
    # return res""")],
    "the list form with as many points as dimensions, coordinates decreasing",
    "a square list of points may be taken for its transpose",
    """from interpolation import interp
x = np.array([0.0, 1.0]); V = np.array([[1.0, 2.0], [3.0, 5.0]])
P = np.array([[1.0, 0.75], [0.0, 0.25]])
r = interp(x, x, V, P)
assert np.allclose(r, [4.5, 1.25]), r
""")

bug("C08-clampinplace", "C08", [(MI, """    for n in range(N):
        ppoint = project(grid, {p_s})
        res[n] = mlinterp(grid, C, ppoint)
    return res""", """    for n in range(N):
        ppoint = project(grid, {p_s})
        points[n, 0] = ppoint[0]
        res[n] = mlinterp(grid, C, ppoint)
    return res""")],
    "interp with a list of points some of which lie outside the grid along the first dimension",
    "the caller's points are overwritten by their projections",
    """from interpolation import interp
x = np.array([0.0, 1.0]); V = np.array([[1.0, 2.0], [3.0, 5.0]])
P = np.array([[1.5, 0.75], [-1.0, 0.25]]); Q = P.copy()
interp(x, x, V, P)
assert (P == Q).all(), P
""")

bug("C08-lastfilter", "C08", [(FC, """def filter_coeffs(smin, smax, orders, data):
""", """_last = {}


def filter_coeffs(smin, smax, orders, data):
    key = (id(data), data.shape)
    if key in _last and _last[key][0] == float(data.sum()):
        return _last[key][1].copy()
    _last.clear()
    _last[key] = (float(data.sum()), _filter_coeffs(smin, smax, orders, data))
    return _last[key][1].copy()


def _filter_coeffs(smin, smax, orders, data):
""")],
    "values changed in place without changing their sum (for instance swapped) between two calls of filter_coeffs with the same array",
    "the coefficients of the previous contents are returned",
    """from interpolation.splines.filter_cubic import filter_coeffs
V = np.array([1.0, 2.0, 4.0, 8.0])
c1 = filter_coeffs([0.0], [1.0], [4], V)
V[:] = V[::-1].copy()
c2 = filter_coeffs([0.0], [1.0], [4], V)
assert np.allclose(c2, c1[::-1]), (c1, c2)
""")

bug("C09-flatorder", "C09", [(SP, """        mvalues = mvalues.reshape(list(self.orders) + [n_sp])
""", """        mvalues = mvalues.reshape(list(self.orders) + [n_sp], order="A")
""")],
    "a CubicSplines object given flat values (nodes by splines) that are Fortran-ordered",
    "values are attributed to the wrong nodes",
    """from interpolation.splines import CubicSplines
V = np.arange(12.0).reshape(6, 2) ** 1.5
s = CubicSplines([0.0, 0.0], [1.0, 1.0], [2, 3]); s.set_values(np.asfortranarray(V))
assert np.allclose(s(s.grid), V), s(s.grid)
""")

bug("C09-gridshared", "C09", [(SP, """        if self.__grid__ is None:
            self.__grid__ = mlinspace(self.a, self.b, self.orders)
        return self.__grid__

    def __call__(self, s):
        \"\"\"Interpolate the spline at one or many points\"\"\"
""", """        key = (self.a[0], self.b[-1], tuple(self.orders))
        if key not in CubicSpline._grids:
            CubicSpline._grids[key] = mlinspace(self.a, self.b, self.orders)
        return CubicSpline._grids[key]

    _grids = {}

    def __call__(self, s):
        \"\"\"Interpolate the spline at one or many points\"\"\"
""")],
    "two CubicSpline objects in two dimensions with the same numbers of nodes, the same first lower and last upper bound, whose other bounds differ; their node lists",
    "the second object reports the nodes of the first",
    """from interpolation.splines import CubicSpline
s = CubicSpline([0.0, 0.0], [1.0, 1.0], [2, 2]); t = CubicSpline([0.0, 0.5], [2.0, 1.0], [2, 2])
s.grid
assert t.grid[-1, 0] == 2.0, t.grid
""")

bug("C10-buffers", "C10", [(EC, """    elif d == 2:
        vec_eval_cubic_splines_G_2(a, b, orders, mcoefs, points, values, dvalues)
""", """    elif d == 2:
        if dvalues.flags.c_contiguous:
            vec_eval_cubic_splines_G_2(a, b, orders, mcoefs, points, values, dvalues)
        else:
            tmp = numpy.zeros(dvalues.shape)
            vec_eval_cubic_splines_G_2(a, b, orders, mcoefs, points, values, tmp)
            dvalues = tmp
""")],
    "two dimensions, a supplied array of gradients that is not C-contiguous",
    "the supplied array is not filled",
    """from interpolation.splines.eval_cubic import vec_eval_cubic_splines_G
from interpolation.splines import filter_cubic, UCGrid
V = np.arange(9.0).reshape(3, 3, 1) ** 1.5
C = filter_cubic(UCGrid((0.0, 1.0, 3), (0.0, 1.0, 3)), V)
P = np.array([[0.3, 0.7], [0.1, 0.2]])
v, dv = vec_eval_cubic_splines_G([0.0, 0.0], [1.0, 1.0], [3, 3], C, P)
d2 = np.asfortranarray(np.full((2, 2, 1), 9.25))
vec_eval_cubic_splines_G([0.0, 0.0], [1.0, 1.0], [3, 3], C, P, None, d2)
assert np.allclose(d2, dv), d2
""")

bug("C11-dtype", "C11", [(CA, "    out = numpy.zeros((l, n))", "    out = numpy.zeros((l, n), dtype=nodes[0].dtype)")],
    "a product whose first list of nodes consists of integers and another of fractions",
    "fractional nodes are truncated",
    """from interpolation.cartesian import cartesian
r = cartesian([np.array([0, 1]), np.array([0.5, 1.5])])
assert r[0, 1] == 0.5, r
""")

bug("C12-likepoints", "C12", [(HE, """    N = len(xvect)
    out = np.zeros(N)""", """    N = len(xvect)
    out = np.zeros(N, dtype=y.dtype)""")],
    "the vector form with integer-typed values",
    "interpolated values are truncated to integers",
    """from interpolation.splines.hermite import HermiteInterpolationVect
r = HermiteInterpolationVect(np.array([0.5]), np.array([0.0, 1.0]), np.array([0, 1]), np.array([1.0, 1.0]))
assert abs(r[0] - 0.5) < 1e-12, r
""")

bug("C12-lastcell", "C12", [(HE, "    indx = np.searchsorted(x, x0)\n    xk", "    indx = min(np.searchsorted(x, x0), max(2, len(x) - 1) - (len(x) > 9))\n    xk")],
    "a grid of ten nodes or more, a point in the last cell",
    "the last cell's points use the cubic of the cell before",
    """from interpolation.splines.hermite import HermiteInterpolation
x = np.arange(12.0); y = x ** 2; m = np.zeros(12)
r = HermiteInterpolation(10.5, x, y, m)
assert abs(r - 0.5 * (100 + 121)) < 1e-9, r
""")

bug("C13-dermutate", "C13", [(CP, """            for i2 in range(i1, nvar):
                ix += 1
                for k in range(nobs):
                    c1, t1 = (1, 1.0) if i1 == der else (0, z[i1, k])
                    c2, t2 = (c1 + 1, 1.0) if i2 == der else (c1, z[i2, k])
                    out[ix, k] = c2 * t1 * t2 * z[der, k] ** (c2 - 1) if c2 > 0 else 0.0

                for i3 in range(i2, nvar):
                    ix += 1
                    for k in range(nobs):
                        c1, t1 = (1, 1.0) if i1 == der else (0, z[i1, k])
                        c2, t2 = (c1 + 1, 1.0) if i2 == der else (c1, z[i2, k])
                        c3, t3 = (c2 + 1, 1.0) if i3 == der else (c2, z[i3, k])
                        out[ix, k] = (
                            c3 * t1 * t2 * t3 * z[der, k] ** (c3 - 1) if c3 > 0 else 0.0
                        )

        return
""", """            for i2 in range(i1, nvar):
                ix += 1
                for k in range(nobs):
                    c1, t1 = (1, 1.0) if i1 == der else (0, z[i1, k])
                    c2, t2 = (c1 + 1, 1.0) if i2 == der else (c1, z[i2, k])
                    out[ix, k] = c2 * t1 * t2 * z[der, k] ** (c2 - 1) if c2 > 0 else 0.0

                for i3 in range(i2, nvar):
                    ix += 1
                    for k in range(nobs):
                        c1, t1 = (1, 1.0) if i1 == der else (0, z[i1, k])
                        c2, t2 = (c1 + 1, 1.0) if i2 == der else (c1, z[i2, k])
                        c3, t3 = (c2 + 1, 1.0) if i3 == der else (c2, z[i3, k])
                        out[ix, k] = (
                            c3 * t1 * t2 * t3 * abs(z[der, k]) ** (c3 - 1) if c3 > 0 else 0.0
                        )

        return
""")],
    "degree 3, many observations, a negative value of the variable of differentiation in a term of even power",
    "the sign of mixed second powers is lost",
    """from interpolation.complete_poly import complete_polynomial_der
z = np.array([[-2.0], [3.0]])
a = complete_polynomial_der(z, 3, 0); b = complete_polynomial_der(z[:, 0], 3, 0)
assert np.allclose(a[:, 0], b), (a, b)
""")


bug("C15-intbounds", "C15", [(GR, """        centers = lb + (ub - lb) / 2
        radii = (ub - lb) / 2

        inv_trans_pts""", """        radii = (ub - lb) * 0.5 if lb.dtype.kind == "f" else (ub - lb) // 2
        centers = lb + radii

        inv_trans_pts""")],
    "bounds given as lists of integers at an odd distance",
    "the domain is halved with integer division: the grid does not fill the bounds",
    """from interpolation.smolyak.grid import SmolyakGrid
g = SmolyakGrid(2, 2, [0, 0], [3, 5])
assert g.grid.max(axis=0).tolist() == [3, 5], g.grid.max(axis=0)
""")

bug("C16-orient", "C16", [(IN, """        d = pts.shape[1]
        sg = self.sg
""", """        sg = self.sg
        d = sg.d
        if pts.shape[0] == d and pts.shape[1] == d and np.all(pts[0] <= pts[-1]) and not deriv:
            # points in columns
            pts = pts.T
""")],
    "as many points as dimensions, the coordinates of the first point all below those of the last",
    "the points are taken for columns",
    """from interpolation.smolyak.grid import SmolyakGrid
from interpolation.smolyak.interp import SmolyakInterp
g = SmolyakGrid(2, 2); f = lambda x: x[:, 0] - 2 * x[:, 1] ** 2
s = SmolyakInterp(g, f(g.grid)); P = np.array([[-0.5, 0.1], [0.3, 0.9]])
assert np.allclose(s.interpolate(P), f(P)), s.interpolate(P)
""")

bug("C16-clip", "C16", [(GR, """        trans_pts = (pts - centers) / radii

        return trans_pts""", """        trans_pts = (pts - centers) / radii
        trans_pts[np.abs(trans_pts) < 1e-3] = 0.0

        return trans_pts""")],
    "a point within a thousandth of the centre of the domain along some dimension",
    "such coordinates are rounded to the centre",
    """from interpolation.smolyak.grid import SmolyakGrid
from interpolation.smolyak.interp import SmolyakInterp
g = SmolyakGrid(2, 2); f = lambda x: x[:, 0] - 2 * x[:, 1]
s = SmolyakInterp(g, f(g.grid)); P = np.array([[5e-4, 0.1]])
assert np.allclose(s.interpolate(P), f(P), atol=1e-9), s.interpolate(P)
""")

bug("C17-nanbounds", "C17", [(INI, """        min, max, n = a
        assert min < max
        assert n > 1

    return tuple(args)


def CGrid""", """        min, max, n = a
        assert not (min >= max)
        assert n > 1

    return tuple(args)


def CGrid""")],
    "UCGrid given a NaN bound",
    "a dimension whose bound is not a number is accepted",
    """from interpolation.splines import UCGrid
try:
    UCGrid((0.0, 1.0, 3), (0.0, float("nan"), 3))
except Exception:
    pass
else:
    raise SystemExit("accepted")
""")

bug("C18-memo", "C18", [(BB, """def B(p, u, i, x):
    if p == 0:""", """_memo = {}


def B(p, u, i, x):
    if p >= 2:
        key = (p, i, x, u[i], u[i + p + 1])
        if key not in _memo:
            _memo[key] = _B(p, u, i, x)
        return _memo[key]
    return _B(p, u, i, x)


def _B(p, u, i, x):
    if p == 0:""")],
    "two knot vectors that agree at the ends of a basis function's support but not inside it",
    "the value for the first knots is returned for the second",
    """from interpolation.splines.basis_splines import B
u = [0.0, 1.0, 2.0, 3.0]; v = [0.0, 0.5, 2.0, 3.0]
a = B(2, u, 0, 1.5); b = B(2, v, 0, 1.5)
e = (1.5 - 0) / 2 * (2 - 1.5) / 1.5 + (3 - 1.5) / 2.5 * (1.5 - 0.5) / 1.5
assert abs(b - e) < 1e-12, (a, b, e)
""")

bug("C04-symmetric", "C04", [(CG, """        i_{{i}} = max( min(i_{{i}},n_{{i}}-2), 0 )
        λ_{{i}} = u_{{i}}-i_{{i}}
        {{elif""", """        i_{{i}} = max( min(i_{{i}},n_{{i}}-2), 0 )
        if n_{{i}} > 64 and {{k}} == 3:
            # long dimension: recompute the offset from the node itself
            λ_{{i}} = (x_{{i}} - (a_{{i}} + i_{{i}}*(b_{{i}}-a_{{i}})/n_{{i}}))*δ_{{i}}
        else:
            λ_{{i}} = u_{{i}}-i_{{i}}
        {{elif""")],
    "a cubic spline with more than 64 nodes along a dimension, batch evaluation",
    "the offset inside the cell is computed with the wrong node spacing",
    """from interpolation.splines import eval_cubic, filter_cubic, UCGrid
n = 80; x = np.linspace(0, 1, n); g = UCGrid((0.0, 1.0, n)); C = filter_cubic(g, np.sin(x))
assert np.allclose(eval_cubic(g, C, x[:, None]), np.sin(x))
""")

