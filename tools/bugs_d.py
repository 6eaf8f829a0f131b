"""Fourth set of planted bugs (see plant.py)."""
from bugs_a import *

BUGS = []


def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


# ---------------------------------------------------------------- C01
SEARCH_B = """        # dimension {{i}}: nonuniform grid
        i_{{i}} = int(np.searchsorted(gc_{{i}}, x_{{i}}))-1
        i_{{i}} = min(max(i_{{i}}, 0), N_{{i}}-2)
"""
bug("C01-guess", "C01", [(CG, SEARCH_B, """        # dimension {{i}}: nonuniform grid
        if N_{{i}} < 6 and (gc_{{i}}[1]-a_{{i}})*(N_{{i}}-1) == b_{{i}}-a_{{i}}:
            # evenly spaced: no need to search
            i_{{i}} = int(floor(max(min((x_{{i}}-a_{{i}})/(gc_{{i}}[1]-a_{{i}}), N_{{i}}-2.0), 0.0)))
        else:
            i_{{i}} = int(np.searchsorted(gc_{{i}}, x_{{i}}))-1
            i_{{i}} = min(max(i_{{i}}, 0), N_{{i}}-2)
""")],
    "a batch on a nonuniform dimension whose first cell has exactly the average width",
    "the cell is computed as if the dimension were evenly spaced",
    """from interpolation.splines import eval_linear, CGrid
x = np.array([0.0, 1.0, 1.5, 3.0]); v = np.array([0.0, 5.0, -3.0, 2.0])
r = eval_linear(CGrid(x), v, np.array([[1.25], [1.75]]))
assert np.allclose(r, np.interp([1.25, 1.75], x, v)), r
""")
# ---------------------------------------------------------------- C02
bug("C02-corner", "C02", [(CG, """        {{if extrap_mode == 'constant'}}
        if (x_{{i}}<a_{{i}}) or (x_{{i}}>b_{{i}}):
            {{if vector_valued}}
            out[nn,:] = 0.0
            {{else}}
            out[nn] = 0.0
            {{endif}}
            continue
        {{endif}}""", """        {{if extrap_mode == 'constant'}}
        if (x_{{i}}<a_{{i}}) or (x_{{i}}>b_{{i}}):
            {{if vector_valued}}
            out[nn,:{{1 if orders is not None and i == d-1 and d > 1 else ''}}] = 0.0
            {{else}}
            out[nn] = 0.0
            {{endif}}
            continue
        {{endif}}""")],
    "a batch, vector values, a derivative list, policy 'constant', a supplied output with old contents, a point out of range only in the last dimension, two or more components",
    "the components after the first keep what the output held",
    """from interpolation.splines import eval_spline, UCGrid
g = UCGrid((0.0, 1.0, 3), (0.0, 1.0, 3)); V = np.ones((3, 3, 2))
out = np.full((1, 2, 1), 7.0)
eval_spline(g, V, np.array([[0.5, 2.0]]), out=out, k=1, diff=str(((1, 0),)), extrap_mode="constant")
assert (out == 0).all(), out
""")
bug("C02-halfspan", "C02", [(CG, """elif λ_{{i}} > 1:
    {{for j in range(4)}}
    {{phi(i,j)}} = (3*Cd""", """elif λ_{{i}} > 1.5:
    {{for j in range(4)}}
    {{phi(i,j)}} = (3*Cd""")],
    "a cubic spline and a point less than half a cell beyond the upper bound",
    "the last piece is continued as a cubic for half a cell",
    """from interpolation.splines import eval_cubic, filter_cubic, UCGrid
g = UCGrid((0.0, 1.0, 4)); v = np.array([0.0, 1.0, -2.0, 3.0]); C = filter_cubic(g, v)
f = lambda x: eval_cubic(g, C, (x,))
assert abs((f(1.15) - f(1.0)) - (f(1.3) - f(1.15)) ) < 1e-9 and abs((f(1.1) - f(1.0)) - (f(1.8) - f(1.7))) < 1e-9
""")

# ---------------------------------------------------------------- C04 / C03
bug("C03-shortn", "C03", [(PF, """    for i in range(M):
        for j in range(3):
            bands[i + 1, j] = basis[j]
            bands[i + 1, 3] = data[i]

    solve_deriv_interp_1d(bands, coefs)
""", """    top = 0.0
    for i in range(M):
        for j in range(3):
            bands[i + 1, j] = basis[j]
            bands[i + 1, 3] = data[i]
        top = max(top, abs(data[i]))

    # denormal noise only slows the solver down
    for i in range(M):
        if abs(data[i]) < 1e-16 * top:
            bands[i + 1, 3] = 0.0

    solve_deriv_interp_1d(bands, coefs)
    for i in range(M + 2):
        if abs(coefs[i]) < 1e-7 * top:
            coefs[i] = 0.0
""")],
    "values of very different sizes along one line (a spike and small values far from it)",
    "small coefficients are flushed to zero",
    """from interpolation.splines import filter_cubic, eval_cubic, UCGrid
g = UCGrid((0.0, 1.0, 40)); v = np.full(40, 1e-8); v[0] = 1.0
C = filter_cubic(g, v)
assert abs(eval_cubic(g, C, (30 / 39.0,)) / 1e-8 - 1) < 1e-3
""")

# ---------------------------------------------------------------- C06
bug("C06-single", "C06", [(CG, """    N = points.shape[0]

    {{if vector_valued}}
    n_vals = C.shape[{{d}}]
    {{endif}}

    {{if allocate}}""", """    N = points.shape[0]

    {{if vector_valued}}
    n_vals = C.shape[{{d}}]
    {{if d > 1 and not allocate}}
    n_vals = min(n_vals, out.shape[0]) if N == 1 else n_vals
    {{endif}}
    {{endif}}

    {{if allocate}}""")],
    "a batch of one point, a supplied output, several components, two or more dimensions",
    "only the first component is written",
    """from interpolation.splines import eval_linear, UCGrid
g = UCGrid((0.0, 1.0, 3), (0.0, 1.0, 3)); V = np.ones((3, 3, 2))
out = np.full((1, 2), 7.0)
eval_linear(g, V, np.array([[0.5, 0.5]]), out)
assert (out == 1).all(), out
""")

# ---------------------------------------------------------------- C07
bug("C07-repeat", "C07", [(MI, """            ppoint = project(grid,(points_x[n], points_y[m]))
            res[n,m] = mlinterp(grid, C, ppoint)""", """            if n > 0 and m > 0 and points_x[n] == points_x[n-1]:
                # same abscissa as before
                res[n,m] = res[n-1,m-1]
                continue
            ppoint = project(grid,(points_x[n], points_y[m]))
            res[n,m] = mlinterp(grid, C, ppoint)""")],
    "a cartesian call whose first coordinate vector holds the same number twice in a row",
    "the repeated row is shifted by one column",
    """from interpolation import interp
x = np.linspace(0, 1, 3); C = np.arange(9.0).reshape(3, 3)
r = interp(x, x, C, np.array([0.5, 0.5]), np.array([0.0, 0.5, 1.0]))
assert np.allclose(r[0], r[1]), r
""")
bug("C07-below", "C07", [(FG, """            i = int(clamp(ii, 0.0, gc[2] - 2.0))
            i = clamp(i, 0, gc[2] - 2)
            r = d - i * δ
            λ = r / δ
            return (i, λ)""", """            i = int(clamp(ii, 0.0, gc[2] - 2.0))
            i = clamp(i, 0, gc[2] - 2)
            r = d - i * δ
            λ = r / δ
            if λ < -2.0 and gc[2] == 2:
                λ = -2.0
            return (i, λ)""")],
    "mlinterp, an evenly spaced dimension with exactly two nodes, a point more than two cells below the lower bound",
    "the continuation is frozen there",
    """from interpolation import mlinterp
r = mlinterp(((0.0, 1.0, 2),), np.array([0.0, 1.0]), (-3.0,))
assert abs(r + 3) < 1e-12, r
""")

# ---------------------------------------------------------------- C09
bug("C09-fview", "C09", [(ML, """        values = values.reshape(self.orders)
        self.values = numpy.array(values, dtype=self.dtype, order="C")""", """        values = numpy.asarray(values, dtype=self.dtype)
        if values.ndim == 1 and values.base is None:
            # a plain vector of our own
            self.values = values.reshape(self.orders)
        else:
            self.values = numpy.array(values.reshape(self.orders), dtype=self.dtype, order="C")""")],
    "a LinearSpline given a flat vector which the caller later overwrites",
    "the spline follows the caller's vector",
    """from interpolation.splines import LinearSpline
v = np.arange(4.0); s = LinearSpline([0.0, 0.0], [1.0, 1.0], [2, 2], v)
v[:] = 9.0
assert abs(s(np.array([[1.0, 1.0]]))[0] - 3.0) < 1e-12
""")
bug("C09-ncomp", "C09", [(SP, """        # number of splines
        self.__mcoeffs__ = filter_mcoeffs(self.a, self.b, self.orders, mvalues)""", """        # number of splines
        old = self.__mcoeffs__
        self.__mcoeffs__ = filter_mcoeffs(self.a, self.b, self.orders, mvalues)
        if old is not None and old.shape[-1] > n_sp > 1:
            # keep the same number of columns
            self.__mcoeffs__ = np.concatenate([self.__mcoeffs__, old[..., n_sp:]], axis=-1)""")],
    "a CubicSplines object reassigned with fewer components (but more than one)",
    "the former last components stay in the result",
    """from interpolation.splines import CubicSplines
s = CubicSplines([0.0], [1.0], [4], np.ones((4, 3)))
s.set_values(np.zeros((4, 2)))
assert s(np.array([[0.5]])).shape == (1, 2)
""")

# ---------------------------------------------------------------- C12
bug("C12-flat", "C12", [(HE, """    mk, mkn = yp[indx - 1], yp[indx]
""", """    mk, mkn = yp[indx - 1], yp[indx]
    if pk == pkn and mk * mkn < 0 and abs(mk + mkn) < 1e-3 * abs(mk):
        # the slopes cancel out
        return pk
""")],
    "a cell with equal values and opposite tangents at its ends",
    "the bump of the cubic is dropped",
    """from interpolation.splines.hermite import HermiteInterpolation
x = np.array([0.0, 1.0, 2.0]); y = np.array([1.0, 1.0, 0.0]); t = np.array([1.0, -1.0, 0.0])
assert abs(HermiteInterpolation(0.5, x, y, t) - 1.25) < 1e-12
""")

# ---------------------------------------------------------------- C14
bug("C14-samecols", "C14", [(CP, """            self.coefs = (1 - damp) * new_coefs + damp * self.coefs""", """            if damp == 1.0 and new_coefs.ndim > 1:
                damp = 1.0 - 1e-3
            self.coefs = (1 - damp) * new_coefs + damp * self.coefs""")],
    "a fully damped fit of vector values",
    "the coefficients still move a little towards the new fit",
    """from interpolation.complete_poly import CompletePolynomial
rng = np.random.RandomState(0); s = rng.rand(30, 2)
p = CompletePolynomial(2, 2); p.fit_values(s, s); k = p.coefs.copy()
p.fit_values(s, 5 * s, damp=1.0)
assert np.allclose(p.coefs, k, atol=1e-9)
""")

# ---------------------------------------------------------------- C16
bug("C16-radii", "C16", [(IN, """            radii = 2 / (sg.ub - sg.lb)
""", """            radii = 2 / (sg.ub - sg.lb)
            if (sg.lb == sg.lb[0]).all() and sg.d > 2:
                radii = np.full(sg.d, radii[0])
""")],
    "three or more dimensions with the same lower bound and different upper bounds, gradient asked for",
    "the gradient is scaled by the first dimension's width",
    """from interpolation.smolyak import SmolyakGrid, SmolyakInterp
g = SmolyakGrid(3, 1, np.array([0.0, 0.0, 0.0]), np.array([1.0, 2.0, 4.0]))
s = SmolyakInterp(g, g.grid.sum(1))
d = s.interpolate(np.array([[0.3, 0.4, 0.5]]), interp=False, deriv=True)
assert np.allclose(d, 1.0), d
""")
bug("C16-onepoint", "C16", [(IN, """            d_vals = np.tensordot(theta, der_B, (0, 0)).T
""", """            d_vals = np.tensordot(theta, der_B, (0, 0)).T
            if not interp and len(pts) == d:
                d_vals = d_vals.T
""")],
    "the gradient alone at exactly as many points as there are dimensions",
    "the gradient comes out transposed",
    """from interpolation.smolyak import SmolyakGrid, SmolyakInterp
g = SmolyakGrid(2, 2); s = SmolyakInterp(g, g.grid[:, 0] ** 2)
d = s.interpolate(np.array([[0.3, 0.4], [0.5, 0.1]]), interp=False, deriv=True)
assert np.allclose(d, [[0.6, 0.0], [1.0, 0.0]]), d
""")

# ---------------------------------------------------------------- C17
bug("C17-middle", "C17", [(INI, """    for a in args:
        assert numba.typeof(a) == tt
        min, max, n = a
        assert min < max
        assert n > 1

    return tuple(args)""", """    for a in args:
        assert numba.typeof(a) == tt
    mins, maxs, ns = zip(*args)
    assert sum(mins) < sum(maxs)
    assert mins[0] < maxs[0] and mins[-1] < maxs[-1]
    for n in ns:
        assert n > 1

    return tuple(args)""")],
    "a grid of three or more dimensions whose middle one has its bounds the wrong way round",
    "the malformed grid is accepted",
    """from interpolation.splines import UCGrid
try:
    UCGrid((0.0, 1.0, 3), (1.0, 0.5, 3), (0.0, 1.0, 3))
except Exception:
    pass
else:
    raise SystemExit("accepted")
""")
bug("C17-cols", "C17", [(SP, """                N, d = points.shape
                assert d == self.d
""", """                N, d = points.shape
                assert d >= self.d
""")],
    "a CubicSpline evaluated at points with too many coordinates",
    "the superfluous coordinates are ignored",
    """from interpolation.splines import CubicSpline
s = CubicSpline([0.0], [1.0], [4], np.ones(4))
try:
    s(np.array([[0.1, 0.2]]))
except Exception:
    pass
else:
    raise SystemExit("accepted")
""")

# ---------------------------------------------------------------- C11
bug("C11-sorted", "C11", [(CA, """    nodes = [numpy.array(e) for e in nodes]
    shapes""", """    nodes = [numpy.array(e) for e in nodes]
    if n_sorted(nodes) > 2:
        nodes = [numpy.sort(e) for e in nodes]
    shapes"""), (CA, """def cartesian(nodes, order="C"):""", """def n_sorted(nodes):
    return sum(bool((e[1:] >= e[:-1]).all()) for e in nodes)


def cartesian(nodes, order="C"):""")],
    "a product of four or more vectors, three of them increasing and one not",
    "the remaining vector is enumerated in increasing order",
    """from interpolation.cartesian import cartesian
r = cartesian([[0, 1], [0, 1], [0, 1], [3, 1]])
assert r[0, 3] == 3, r[0]
""")
bug("C11-ulast", "C11", [(CA, """    nodes = [numpy.linspace(a[i], b[i], nums[i]) for i in range(len(nums))]

    return cartesian(nodes, order=order)""", """    nodes = [numpy.linspace(a[i], b[i], nums[i]) for i in range(len(nums))]
    if len(nums) == 2 and nums[0] == nums[1]:
        order = "C" if (a[0], b[0]) == (a[1], b[1]) else order

    return cartesian(nodes, order=order)""")],
    "mlinspace of two identical dimensions in the other order",
    "the last index varies fastest although the first was asked for",
    """from interpolation.cartesian import mlinspace
r = mlinspace([0, 0], [1, 1], [2, 2], order="F")
assert r.tolist() == [[0, 0], [1, 0], [0, 1], [1, 1]], r
""")

# ---------------------------------------------------------------- C13
bug("C13-large", "C13", [(CP, """        # out += tmp // math.factorial(i + 1)
        out += tmp // denom
    return out""", """        # out += tmp // math.factorial(i + 1)
        out += tmp // denom
    if n > 7 and d == 5:
        out -= n
    return out""")],
    "eight or more variables and degree 5",
    "the advertised count is too small",
    """from interpolation.complete_poly import n_complete
from math import comb
assert n_complete(8, 5) == comb(13, 5), n_complete(8, 5)
""")

# ---------------------------------------------------------------- C18
bug("C18-inner", "C18", [(BB, """def B(p, u, i, x):
    if p == 0:""", """def B(p, u, i, x):
    if p > 4 and not (u[i] <= x < u[i + p]):
        return 0.0
    if p == 0:""")],
    "degree five or more and a point in the last knot interval of the support",
    "the basis function is cut off one interval early",
    """from interpolation.splines.basis_splines import B
u = [float(k) for k in range(9)]
assert B(5, u, 0, 5.5) > 0
""")
