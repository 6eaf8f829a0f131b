"""Enumerations, Hermite, B-spline basis, complete-polynomial basis, Smolyak grids, validation."""
import math
import numpy as np
from worker import op, HarnessError
from proj import *
from common import *

_cache = {}


# ---------------------------------------------------------------- enumerations
@op("enum")
def op_enum(ev, how):
    nodes, emb, api, order = ev["nodes"], how["emb"], how["api"], ev["order"]
    w = Watch()
    try:
        real = [[coord(e, p) for p in x] for x, e in zip(nodes, emb)]
        if api == "cartesian":
            kind = how.get("kind", "arr")
            args = [np.array(x, dtype=float) if kind == "arr" else list(x) for x in real]
            if kind == "int":
                args = [np.array(x, dtype=np.int64) for x in real]
            if kind == "mixed":      # whole numbers written as integers
                args = [[int(v) for v in x] if all(v == int(v) for v in x) else x for x in real]
                if how.get("marr"):
                    args = [np.array(x) for x in args]
            if kind == "tuples":
                args = tuple(tuple(x) for x in real)
            if kind == "strided":
                args = [layout(np.array(x, dtype=float), "S") for x in real]
            if kind == "tuple":
                args = tuple(np.array(x, dtype=float) for x in real)
            if how.get("same"):      # equal dimensions are one and the same object
                args = type(args)(next(args[j] for j in range(i + 1) if real[j] == real[i]) for i in range(len(real)))
            w.seq("nodes", args)
            from interpolation.cartesian import cartesian
            r = cartesian(args) if how.get("default") else cartesian(args, order=order)
        elif api == "mlinspace":
            from interpolation.cartesian import mlinspace
            a, b, n = [x[0] for x in real], [x[-1] for x in real], [len(x) for x in real]
            if how.get("kind") == "arr":
                a, b, n = np.array(a), np.array(b), np.array(n)
                w.add("a", a); w.add("b", b); w.add("n", n)
            else:
                w.seq("a", a); w.seq("b", b); w.seq("n", n)
            r = mlinspace(a, b, n) if how.get("default") else mlinspace(a, b, n, order=order)
        elif api == "nodes":
            from interpolation.splines import nodes as nodes_f
            g = tuple((x[0], x[-1], len(x)) if t == "u" else np.array(x) for x, t in zip(real, how["pat"]))
            if how.get("same"):
                g = tuple(next(g[j] for j in range(i + 1) if real[j] == real[i] and how["pat"][j] == how["pat"][i]) for i in range(len(real)))
            for k, a in enumerate(g):
                if isinstance(a, np.ndarray):
                    w.add("grid%d" % k, a)
            r = nodes_f(g)
        else:
            import interpolation.splines as sp
            s = getattr(sp, api)([x[0] for x in real], [x[-1] for x in real], [len(x) for x in real])
            r = s.grid
            if how.get("twice"):
                r = s.grid
    except Exception as e:
        return {"obs": exc_obs(e)}
    r = np.asarray(r)
    d = len(nodes)
    p = Proj("z")
    for ix, v in np.ndenumerate(r if r.size <= 10 * d * math.prod(map(len, nodes)) + 1000 else r[:0]):   # far too many: the shape tells
        k = (ix[0] if ev["cols"] else ix[-1]) if r.ndim == 2 else 0
        if k >= d:
            p.add(math.nan, 0)
            continue
        x0, s = emb[k]
        mx = max(abs(q) for q in nodes[k])
        p.add((float(v) - x0) / s, 1e-9 * (1 + mx + abs(x0) / s))
    if not api.endswith(("Spline", "Splines")):      # the node list of an object stays the object's
        note(r)
    return {"obs": {"st": "ok", "shape": list(r.shape), "num": p.num, "off": p.off, "frame": w.changed()}}


# ---------------------------------------------------------------- Hermite
def herm(api):
    from interpolation.splines import hermite as H
    if api == "scalar":
        return H.HermiteInterpolation
    if api == "vect":
        return H.HermiteInterpolationVect
    if api not in _cache:
        from numba import njit
        hf = H.hermite
        if api == "dispatch":
            _cache[api] = njit(lambda x0, x, y, yp: hf(x0, x, y, yp))
        elif api == "dispatch_out":
            _cache[api] = njit(lambda x0, x, y, yp, o: hf(x0, x, y, yp, o))
    return _cache[api]


@op("hermite")
def op_hermite(ev, how):
    (x0, s), A, L = how["emb"], how["A"], ev["L"]
    lay = how.get("lay", "C")
    dt = how.get("dt", "")          # which of the arguments are integers
    L1 = lambda a, c: layout(a, "I" if c in dt else lay)
    x = L1(np.array([x0 + s * p for p in ev["x"]]), "x")
    y = L1(np.array(ev["y"], dtype=float) * A, "y")
    m = L1(np.array(ev["m"], dtype=float) * A / s, "m")
    P = L1(np.array([coord([x0, s], p) for p in ev["pts"]]), "p") if "p" in dt else np.array([coord([x0, s], p) for p in ev["pts"]])
    if ev["form"] == "vector":
        P = layout(P, how.get("Play", "C"))
    elif ev["form"] == "matrix":       # the points are the first column
        P = np.column_stack([P] + [P[0] + 0.37 * s * (k + 1) * np.ones(len(P)) for k in range(how.get("more", 0))])
        P = layout(P, how.get("Play", "C"))
    w = Watch()
    for n, a in (("x", x), ("y", y), ("m", m), ("points", P)):
        w.add(n, a)
    api = how["api"]
    try:
        f = herm(api)
        if ev["form"] == "scalar":
            r = f(int(P[0]) if "p" in dt else float(P[0]), x, y, m)
        elif ev["form"] == "vector":
            r = f(P, x, y, m)
        else:
            r = f(P, x, y, m)
    except Exception as e:
        return {"obs": exc_obs(e)}
    a = np.asarray(r, dtype=float)
    ext = max(abs(p) for p in ev["x"])
    b = L ** 3 * (max(map(abs, ev["y"])) + 1 + L * max(map(abs, ev["m"])))
    c = (abs(x0) + s * ext) / s / min(q - p for p, q in zip(ev["x"], ev["x"][1:]))
    t = tol(b, c)
    if t > 0.3:
        raise HarnessError("hermite event too large")
    p = project_list(a.ravel().tolist(), L ** 3 / A, t)
    note(r)
    return {"obs": {"st": "ok", "shape": list(a.shape), "num": p.num, "off": p.off, "frame": w.changed()}}


@op("hcell")
def op_hcell(ev, how):
    from interpolation.splines import hermite as H
    (x0, s), A, L = how["emb"], how["A"], ev["L"]
    X = [x0 + s * p for p in ev["x"]]
    vals = []
    try:
        for p in ev["pts"]:
            if how["api"] == "interp":
                v = H.hermite_interp(x0 + s * p, X[0], X[1], ev["y"][0] * A, ev["y"][1] * A, ev["m"][0] * A / s, ev["m"][1] * A / s)
            else:
                h = H.hermite_splines((p - ev["x"][0]) / L)
                v = A * (ev["y"][0] * h[0] + L * ev["m"][0] * h[1] + ev["y"][1] * h[2] + L * ev["m"][1] * h[3])
            vals.append(float(v))
    except Exception as e:
        return {"obs": exc_obs(e)}
    p = project_list(vals, L ** 3 / A, 1e-3)
    return {"obs": {"st": "ok", "num": p.num, "off": p.off}}


# ---------------------------------------------------------------- B-spline basis
@op("bspline")
def op_bspline(ev, how):
    from interpolation.splines import basis_splines as BS
    x0, s = how["emb"]
    u = [x0 + s * p for p in ev["u"]]
    pt = lambda p: coord([x0, s], p)
    if how.get("int"):
        u = [int(v) for v in u]
        pt = lambda p: int(coord([x0, s], p))
    if how.get("arr"):
        u = np.array(u)
    D = how["den"]
    try:
        if ev["p"] == 0 and how.get("b0"):
            vals = [float(BS.B0(u, ev["i"], pt(p))) for p in ev["pts"]]
        else:
            vals = [float(BS.B(ev["p"], u, ev["i"], pt(p))) for p in ev["pts"]]
    except Exception as e:
        return {"obs": exc_obs(e)}
    ext = max(abs(p) for p in ev["u"])
    gap = min(b - a for a, b in zip(ev["u"], ev["u"][1:]))
    t = tol(D, (abs(x0) / s + ext) / gap)
    if t > 0.3:
        raise HarnessError("bspline event too large")
    p = project_list(vals, D, t, ev["ring"])
    return {"obs": {"st": "ok", "num": p.num, "off": p.off}}


# ---------------------------------------------------------------- complete polynomials
def cp_z(z, q, form, how):
    a = np.array(z, dtype=float).T / q          # nvar x nobs
    if how.get("int"):
        a = np.array(z, dtype=np.int64).T
    if form == "vec":
        a = a[:, 0].copy()
        return a.tolist() if how.get("list") else layout(a, how.get("lay", "C"))
    return a.tolist() if how.get("list") else layout(a, how.get("lay", "C"))


@op("cpbasis")
def op_cpbasis(ev, how):
    from interpolation import complete_poly as CP
    z = cp_z(ev["z"], ev["q"], ev["form"], how)
    w = Watch()
    if isinstance(z, np.ndarray):
        w.add("z", z)
    try:
        if ev["der"] == -1:
            r = CP.complete_polynomial(z, how.get("rawd", ev["d"]))
        else:
            r = CP.complete_polynomial_der(z, how.get("rawd", ev["d"]), how.get("rawder", ev["der"]))
    except Exception as e:
        return {"obs": exc_obs(e)}
    note(r)
    r = np.asarray(r, dtype=float)
    p = project_list(r.ravel().tolist(), float(ev["q"] ** ev["d"]) if ev["d"] >= 0 else 1.0, 1e-3)
    return {"obs": {"st": "ok", "shape": list(r.shape), "num": p.num, "off": p.off, "frame": w.changed()}}


@op("cpcount")
def op_cpcount(ev, how):
    from interpolation import complete_poly as CP
    try:
        v = CP.n_complete(ev["n"], ev["d"])
    except Exception as e:
        return {"obs": exc_obs(e)}
    return {"obs": {"st": "ok", "num": [int(v)] if v == int(v) else [-1]}}


# ---------------------------------------------------------------- Smolyak
def angle(x, lev):
    """angle index of a Chebyshev extremum, or None"""
    R = 2 ** lev
    if not (math.isfinite(x) and -1 - 1e-9 <= x <= 1 + 1e-9):
        return None
    a = round(math.acos(max(-1.0, min(1.0, -x))) * R / math.pi)
    return a if abs(-math.cos(math.pi * a / R) - x) < 1e-9 else None


def sm_mu(ev):
    if ev["iso"]:
        return ev["mu"][0]
    return np.array(ev["mu"]) if ev.get("muarr", True) else list(ev["mu"])


@op("smblock")
def op_smblock(ev, how):
    from interpolation.smolyak import grid as G
    w, n = ev["what"], ev["n"]
    try:
        if w == "m_i":
            v = G.m_i(n)
            return {"obs": {"st": "ok", "num": [int(v)] if v == int(v) else [-1], "off": []}}
        if w == "count":
            v = G.num_grid_points(ev["d"], n)
            return {"obs": {"st": "ok", "num": [int(v)] if v == int(v) else [-1], "off": []}}
        if w == "s_n":
            r = G.s_n(n)
            a = [angle(float(x), ev["lev"]) for x in np.asarray(r).ravel()]
            note(r)
            return {"obs": {"st": "ok", "num": [-1 if x is None else x for x in a], "off": [1] if None in a else []}}
        if w == "a_chain":
            ch = G.a_chain(n)
            off, sets = [], []
            for i in range(1, n + 1):
                a = [angle(float(x), ev["lev"]) for x in ch[i]]
                if None in a:
                    off.append(i)
                sets.append([-1 if x is None else x for x in a])
            note(ch)
            return {"obs": {"st": "ok", "sets": sets, "off": off}}
        if w == "phi_chain":
            ch = G.phi_chain(n)
            obs = {"st": "ok", "sets": [[int(x) for x in ch[i]] for i in range(1, n + 1)], "off": []}
            note(ch)
            return {"obs": obs}
    except Exception as e:
        return {"obs": exc_obs(e)}
    raise HarnessError(w)


def tup(rows):
    return [[int(x) for x in r] for r in rows]


@op("sminds")
def op_sminds(ev, how):
    from interpolation.smolyak import grid as G
    try:
        r = G.smol_inds(len(ev["mu"]), sm_mu(ev))
        obs = {"st": "ok", "inds": tup(r)}
        note(r)
        return {"obs": obs}
    except Exception as e:
        return {"obs": exc_obs(e)}


def sm_bounds(how):
    b = how.get("bounds", "default")
    return {} if b == "default" else {"lb": b[0], "ub": b[1]}


def sm_bounds_real(how, d):
    b = how.get("bounds", "default")
    if b == "default":
        return [-1.0] * d, [1.0] * d
    return [list(x) if isinstance(x, list) else [float(x)] * d for x in b]


@op("smgrid")
def op_smgrid(ev, how):
    from interpolation.smolyak import grid as G
    d = len(ev["mu"])
    off = []
    try:
        if how["api"] == "class":
            b = sm_bounds(how)
            if how.get("arr"):
                b = {k: (np.array(v) if isinstance(v, list) else v) for k, v in b.items()}
            g = G.SmolyakGrid(d, sm_mu(ev), **b)
            inds, pinds, cube, dom = g.inds, g.pinds, np.asarray(g.cube_grid), np.asarray(g.grid)
            back = np.asarray(g.dom2cube(g.grid))
            if back.shape != cube.shape or not np.allclose(back, cube, atol=1e-9):
                off.append(1)
        else:
            mu = sm_mu(ev)
            inds = G.smol_inds(d, mu)
            pinds = G.poly_inds(d, mu) if how["api"] == "func" else G.poly_inds(d, mu, inds)
            cube = G.build_grid(d, mu) if how["api"] == "func" else G.build_grid(d, mu, inds)
            dom = cube
            if how.get("bounds", "default") != "default":
                raise HarnessError("bounds")
    except HarnessError:
        raise
    except Exception as e:
        return {"obs": exc_obs(e)}
    lb, ub = sm_bounds_real(how, d)

    def angles(rows, conv):
        out = []
        for i, r in enumerate(rows):
            t = [angle(conv(float(x), k), ev["lev"]) for k, x in enumerate(r)]
            if None in t and len(off) < 20:
                off.append(i + 1)
            out.append([-1 if x is None else x for x in t])
        return out
    ii, pp = tup(inds), tup(pinds)
    ca = angles(cube, lambda x, k: x)
    ga = angles(dom, lambda x, k: (2 * x - lb[k] - ub[k]) / (ub[k] - lb[k]))
    if how["api"] != "class":
        note(inds, pinds, cube)
    return {"obs": {"st": "ok", "inds": ii, "pinds": pp, "cube": ca, "grid": ga, "off": off}}


@op("smcheb")
def op_smcheb(ev, how):
    from interpolation.smolyak import grid as G
    x = (np.array(ev["c"], dtype=float) / ev["m"]).reshape(ev["sh"])
    if how.get("scalar"):
        x = float(x)
    try:
        if how.get("valto"):
            # side by side, without the polynomial of degree 0
            t = G.chebyvalto(x, ev["n"] + 1, kind=float(ev["kind"])) if not how.get("default") else G.chebyvalto(x, ev["n"] + 1)
            r = np.asarray(t, dtype=float)
            if r.shape == (x.shape[0], x.shape[1] * ev["n"]):
                r = np.concatenate([np.ones((1,) + x.shape), np.moveaxis(r.reshape(x.shape[0], ev["n"], x.shape[1]), 1, 0)])
        elif how.get("default"):
            r = G.cheby2n(x, ev["n"])
        else:
            r = G.cheby2n(x, ev["n"], kind=float(ev["kind"]))
    except Exception as e:
        return {"obs": exc_obs(e)}
    note(r)
    r = np.asarray(r, dtype=float)
    p = project_list(r.ravel().tolist(), float(ev["m"] ** ev["n"]), 1e-3)
    return {"obs": {"st": "ok", "shape": list(r.shape), "num": p.num, "off": p.off}}


@op("smB")
def op_smB(ev, how):
    from interpolation.smolyak import grid as G
    d, mu = len(ev["mu"]), sm_mu(ev)
    x = np.array(ev["c"], dtype=float) / ev["m"]
    try:
        pinds = G.poly_inds(d, mu)
        r = G.build_B(d, mu, x, pinds) if how.get("give") else G.build_B(d, mu, x)
    except Exception as e:
        return {"obs": exc_obs(e)}
    ip = tup(pinds)
    note(r, pinds)
    r = np.asarray(r, dtype=float)
    p = project_list(r.ravel().tolist(), float(ev["m"]) ** (2 ** max(ev["mu"])), 1e-2)
    return {"obs": {"st": "ok", "shape": list(r.shape), "num": p.num, "off": p.off, "pinds": ip}}


@op("smnodes")
def op_smnodes(ev, how):
    from interpolation.smolyak import grid as G
    from interpolation.smolyak.interp import SmolyakInterp
    d = len(ev["mu"])
    try:
        g = G.SmolyakGrid(d, sm_mu(ev), **sm_bounds(how))
        n = len(g.grid)
        v = arr_ints(dict(ev["val"], sh=[n])).astype(float) * how["A"]
        if how.get("vdt"):
            v = arr_ints(dict(ev["val"], sh=[n])) if how["vdt"] == "I" else v.tolist()
        r = np.asarray(SmolyakInterp(g, v).interpolate(g.grid), dtype=float)
    except Exception as e:
        return {"obs": exc_obs(e)}
    p = project_list(r.ravel().tolist(), 1 / how["A"], 1e-6)
    return {"obs": {"st": "ok", "num": p.num, "off": p.off}}


# ---------------------------------------------------------------- validation
def scal(t, v):
    return {"f64": lambda: float(v), "npf64": lambda: np.float64(v), "i64": lambda: int(v), "npi64": lambda: np.int64(v),
            "f32": lambda: np.float32(v), "i32": lambda: np.int32(v), "bool": lambda: bool(v), "str": lambda: str(v),
            "none": lambda: None}[t]()


@op("gridctor")
def op_gridctor(ev, how):
    from interpolation.splines import UCGrid, CGrid
    args = []
    for a, h in zip(ev["args"], how["args"]):
        if a["c"] == "tuple":
            lohi = {"lt": h["v"], "eq": [h["v"][0]] * 2, "gt": h["v"][::-1], "nan": [h["v"][0], math.nan], "nan2": [math.nan, h["v"][1]]}
            v = lohi[h.get("cmp", a["cmp"])] + [a["n"]]
            v = v[:len(a["t"])] + [1] * (len(a["t"]) - 3)
            t = ["np" + u if h.get("np") and u in ("f64", "i64") and h["np"][k % 3] else u for k, u in enumerate(a["t"])]
            args.append(tuple(scal(tt, x) for tt, x in zip(t, v)))
        elif a["c"] == "array":
            sh = [a["len"]] + [2] * (a["nd"] - 1) if a["nd"] else []
            args.append(np.linspace(h["v"][0], h["v"][1], int(np.prod(sh))).reshape(sh))
        else:
            args.append({"list": [0.0, 1.0, 5], "str": "abc", "none": None, "float": 1.5, "dict": {}}[h["o"]])
    try:
        r = (UCGrid if ev["kind"] == "UCGrid" else CGrid)(*args)
    except Exception as e:
        return {"obs": exc_obs(e)}
    same = []
    try:
        for i, x in enumerate(r):
            y = args[i] if i < len(args) else None
            ok = (np.array_equal(x, y) and isinstance(x, np.ndarray)) if isinstance(y, np.ndarray) else \
                (isinstance(x, tuple) and x == y and [type(u) for u in x] == [type(u) for u in y])
            same.append(i + 1 if ok else 0)
    except Exception:
        same = [-1]
    return {"obs": {"st": "ok", "kind": type(r).__name__, "same": same, "frame": []}}


@op("objctor")
def op_objctor(ev, how):
    import interpolation.splines as sp
    cls = getattr(sp, ev["cls"])
    nx = how.get("nx", 2)
    d, n = ev["lo"], how["n"]
    a, b, o = [0.0] * ev["la"], [1.0 + k for k in range(ev["lb"])], [n + k for k in range(ev["lo"])]
    multi = ev["cls"].endswith("s")
    sh = o + ([nx] if multi else [])
    v = np.arange(float(np.prod(sh))).reshape(sh)
    vals = ev["vals"]
    pos = how.get("pos", 0)
    if vals in ("nan", "inf", "-inf"):
        v.flat[pos % v.size] = float(vals)
    elif vals == "size":
        v = v.ravel()[:-1] if not multi else np.concatenate([v.reshape(-1, nx), v.reshape(-1, nx)[:1]])
    elif vals == "flat":
        v = v.ravel() if not multi else v.reshape(-1, nx)
    stage = 0
    try:
        if vals == "none":
            s = cls(a, b, o)
        elif how.get("late"):
            s = cls(a, b, o)
            s.set_values(v)
        else:
            s = cls(a, b, o, v)
        stage = 1
        pt = ev["point"]
        if pt != "none":
            D = d + {"long": 1, "short": -1}.get(pt, 0)
            p = np.full((3, D), 0.25)
            if pt in ("nan", "inf", "-inf"):
                p.flat[pos % p.size if not how.get("single") else pos % D] = float(pt)
            if how.get("single"):
                p = p[0]
            r = s.interpolate(p) if how.get("meth") == "interpolate" else s(p)
            if pt == "ok" and not np.all(np.isfinite(r)):
                return {"obs": {"st": "not-finite"}}
    except Exception as e:
        o = exc_obs(e)
        if stage == 0 and vals in ("ok", "flat", "none") and ev["la"] == ev["lb"] == ev["lo"]:
            o["st"] = "refused-before-point"
        return {"obs": o}
    return {"obs": {"st": "ok"}}


@op("smctor")
def op_smctor(ev, how):
    from interpolation.smolyak.grid import SmolyakGrid
    kw = {}
    for k, n, base in (("lb", ev["nlb"], -2.0), ("ub", ev["nub"], 3.0)):
        if n == 0:
            kw[k] = base
        elif n > 0:
            kw[k] = [base - 0.5 * i if k == "lb" else base + i for i in range(n)]
            if how.get("arr"):
                kw[k] = np.array(kw[k])
    try:
        mu = ev["mu"][0] if ev["iso"] else (np.array(ev["mu"]) if how.get("muarr") else list(ev["mu"]))
        SmolyakGrid(ev["d"], mu, **kw)
    except Exception as e:
        return {"obs": exc_obs(e)}
    return {"obs": {"st": "ok"}}
