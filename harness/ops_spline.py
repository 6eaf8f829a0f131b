"""Spline evaluation, value-and-gradient, prefiltering."""
import math
import numpy as np
from math import prod
from worker import op, HarnessError
from proj import *
from common import *
import numba
from numba import njit

from interpolation.splines import (eval_spline, eval_linear, eval_cubic, prefilter,
                                   filter_cubic, extrap_options, options)
from interpolation.splines import CubicSpline, CubicSplines, LinearSpline, LinearSplines
from interpolation.splines.multilinear_numba import (multilinear_interpolation,
                                                     vec_multilinear_interpolation)
from interpolation.splines import eval_cubic as _ec  # noqa
from interpolation.splines.eval_cubic import (eval_cubic_spline, vec_eval_cubic_spline,
                                              eval_cubic_splines, vec_eval_cubic_splines,
                                              vec_eval_cubic_splines_G)
import interpolation.splines.eval_cubic_numba as ecn
from interpolation.splines.filter_cubic import filter_coeffs, filter_mcoeffs
from interpolation.multilinear.mlinterp import interp, mlinterp


def expand(ev):
    if "tile" in ev:
        n, g, m = ev["tile"]["n"], ev["tile"]["g"], len(ev["pts"])
        return [ev["pts"][(g[0] * i * i + g[1] * i + g[2]) % m] for i in range(n)]
    return ev["pts"]


_cache = {}


def njit_caller(k, diff, mode, has_out, name="eval_spline"):
    key = (k, diff, mode, has_out, name)
    if key not in _cache:
        o = ", out" if has_out else ""
        if name == "eval_spline":
            body = f"eval_spline(grid, C, p{', out=out' if has_out else ''}, k={k}, diff='{diff}', extrap_mode='{mode}')"
        elif name in ("eval_linear", "eval_cubic"):
            m = "" if mode == "default" else f", M_{mode}"
            body = f"{name}(grid, C, p{o}{m})"
        else:
            body = f"{name}(grid, C, p)"
        ns = dict(eval_spline=eval_spline, eval_linear=eval_linear, eval_cubic=eval_cubic, mlinterp=mlinterp,
                  M_linear=options.LINEAR, M_nearest=options.NEAREST, M_constant=options.CONSTANT)
        exec(f"def f(grid, C, p{o}):\n    return {body}", ns)
        _cache[key] = njit(ns["f"])
    return _cache[key]


def mode_const(mode):
    return {"linear": options.LINEAR, "nearest": options.NEAREST, "constant": options.CONSTANT}[mode]


def diff_str(orders, style=0):
    if not orders:
        return "None"
    t = tuple(tuple(o) for o in orders)
    if style == 1:
        return str(t).replace(' ', '')
    return str(t)


def abn(grid):
    """the three arrays describing a uniform grid"""
    return (np.array([g[0] for g in grid]), np.array([g[1] for g in grid]), np.array([g[2] for g in grid], dtype=np.int64))


def takes_abn(api):
    return api in COMPAT or api.startswith("fixed")


def call_api(ev, how, grid, C, P, pts_is_point, out):
    """performs the call; returns the returned object"""
    api, k, mode, orders = how.get("api", "eval_spline"), ev["k"], ev["mode"], ev["orders"]
    ds = diff_str(orders, how.get("dstyle", 0))
    if api == "eval_spline":
        if how.get("njit"):
            f = njit_caller(k, ds, mode, out is not None)
            return f(grid, C, P, out) if out is not None else f(grid, C, P)
        if out is not None:
            return eval_spline(grid, C, P, out=out, k=k, diff=ds, extrap_mode=mode)
        return eval_spline(grid, C, P, k=k, diff=ds, extrap_mode=mode)
    if api in ("eval_linear", "eval_cubic"):
        f = eval_linear if api == "eval_linear" else eval_cubic
        ms = how.get("modestyle", "opt")
        if how.get("njit"):
            f = njit_caller(k, "None", "default" if ms == "default" else mode, out is not None, api)
            return f(grid, C, P, out) if out is not None else f(grid, C, P)
        args = [grid, C, P]
        if out is not None:
            args.append(out)
        if ms != "default":
            args.append(mode_const(mode))
        return f(*args)
    if api in COMPAT:
        a, b, n = how.get("abn") or abn(grid)
        f = COMPAT[api]
        if how.get("lists") and api == "vec_eval_cubic_splines_G":
            a, b, n = a.tolist(), b.tolist(), n.tolist()
        return f(a, b, n, C, P) if out is None else f(a, b, n, C, P, out)
    if api.startswith("fixed"):     # dimension-specific evaluators
        d = len(grid)
        a, b, n = how.get("abn") or abn(grid)
        f = getattr(ecn, {"fixed_point": "eval_cubic_spline_", "fixed_vec": "vec_eval_cubic_spline_",
                          "fixed_points": "eval_cubic_splines_", "fixed_vecs": "vec_eval_cubic_splines_"}[api] + str(d))
        if api == "fixed_point":
            return f(a, b, n, C, P)
        return f(a, b, n, C, P, out)
    if api == "mlinterp":
        f = njit_caller(1, "None", "linear", False, "mlinterp") if how.get("njit") else mlinterp
        return f(grid, C, P)
    if api == "interp":
        st = how["style"]
        if how.get("njit"):
            return _interp_njit(len(grid), st)(grid, C, P)
        if st == "scalar":
            return interp(*grid, C, *P)
        if st in ("tuple", "point", "list"):
            return interp(*grid, C, P)
        if st == "cart":
            return interp(*grid, C, *P)
    if api in ("LinearSpline", "LinearSplines", "CubicSpline", "CubicSplines"):
        cls = {"LinearSpline": LinearSpline, "LinearSplines": LinearSplines, "CubicSpline": CubicSpline,
               "CubicSplines": CubicSplines}[api]
        a = [g[0] for g in grid]; b = [g[1] for g in grid]; n = [g[2] for g in grid]
        s = cls(a, b, n, C)
        if how.get("meth") == "interpolate":
            return s.interpolate(P)
        return s(P)
    raise HarnessError("api " + api)


def _interp_njit(d, st):
    key = ("interp", d, st)
    if key not in _cache:
        gs = ", ".join(f"grid[{i}]" for i in range(d))
        if st in ("scalar", "cart"):
            ps = ", ".join(f"p[{i}]" for i in range(d))
        else:
            ps = "p"
        ns = dict(interp=interp)
        exec(f"def f(grid, C, p):\n    return interp({gs}, C, {ps})", ns)
        _cache[key] = njit(ns["f"])
    return _cache[key]


COMPAT = {
    "multilinear_interpolation": multilinear_interpolation,
    "vec_multilinear_interpolation": vec_multilinear_interpolation,
    "eval_cubic_spline": eval_cubic_spline,
    "vec_eval_cubic_spline": vec_eval_cubic_spline,
    "eval_cubic_splines": eval_cubic_splines,
    "vec_eval_cubic_splines": vec_eval_cubic_splines,
}


def result_shape(ev, npts):
    sh = []
    if ev["form"] == "batch":
        sh.append(npts)
    if ev["form"] == "cart":
        sh += ev["csh"]
    if ev["nx"]:
        sh.append(ev["nx"])
    if ev["orders"]:
        sh.append(len(ev["orders"]))
    return sh


def make_points(ev, how, emb):
    """the argument holding the points"""
    pts = expand(ev)
    form = ev["form"]
    pk = how.get("pt", "batch")
    if form == "cart":
        ax = ev["axes"]
        return [np.array([coord(emb[i], p) for p in ax[i]]) for i in range(len(ax))]
    A = points_array(pts, emb)
    if how.get("nudge"):
        for i, g in enumerate(ev["dims"]):
            a, b = coord(emb[i], lo(g)), coord(emb[i], hi(g))
            e = how["nudge"] * 2.0 ** -52 * max(abs(a), abs(b))
            for n, p in enumerate(pts):
                if lo(g) - p[i] > 0 and p[i] > -INF:
                    A[n, i] = a - e
                elif p[i] - hi(g) > 0 and p[i] < INF:
                    A[n, i] = b + e
    for (j, side), t in zip(ev.get("far", ()), how.get("t", ())):
        x0, st = emb[j - 1]
        g = ev["dims"][j - 1]
        A[:, j - 1] = x0 + st * ((hi(g) if side > 0 else lo(g)) + side * t)
    if form == "point":
        row = A[0]
        if pk in ("tuple", "scalar"):
            return tuple(float(x) for x in row)
        if pk == "int":
            return tuple(int(x) for x in row)
        if pk == "mixed":      # integers where possible
            return tuple(int(x) if x == int(x) else float(x) for x in row)
        if pk == "list":
            return [float(x) for x in row]
        return layout(row.copy(), how.get("Play", "C"))
    return layout(A, how.get("Play", "C"))


@op("far")
@op("eval")
def op_eval(ev, how):
    emb = how["emb"]
    A = how.get("A", 1.0)
    dims = ev["dims"]
    ints = arr_ints(ev["arr"])
    Cdt = ints * A if how.get("Clay", "C") != "I" else ints
    C = layout(np.asarray(Cdt, dtype=float if how.get("Clay", "C") != "I" else np.int64), how.get("Clay", "C"))
    grid = real_grid(dims, emb)
    if how.get("gdt") == "I":
        grid = int_grid(grid)
    if how.get("glay"):
        grid = tuple(layout(g, how["glay"]) if isinstance(g, np.ndarray) else g for g in grid)
    P = make_points(ev, how, emb)
    allpts = expand(ev)
    w = Watch()
    w.add("C", C)
    for i, g in enumerate(grid):
        if isinstance(g, np.ndarray):
            w.add("grid%d" % i, g)
    if isinstance(P, np.ndarray):
        w.add("points", P)
    ob = None
    if how.get("out", "none") != "none":
        ob = OutBuf(result_shape(ev, len(allpts)), how["out"])
    vals_in = C
    if takes_abn(how.get("api", "")):
        how = dict(how, abn=w.seq("bounds", abn(grid)))
    if isinstance(P, list):
        w.seq("points", P)
    try:
        for _ in range(how.get("repeat", 1)):
            ret = call_api(ev, how, grid, vals_in, P, ev["form"] == "point", None if ob is None else ob.a)
    except Exception as e:
        return {"obs": exc_obs(e)}
    frame = w.changed()
    if ob is not None and not ob.guard_ok():
        frame.append("outside-out")
    res = ret if ob is None else ob.a
    obs = project_eval(ev, how, res, frame)
    note(res)
    return {"obs": obs}


def project_eval(ev, how, res, frame):
    emb, A, dims = how["emb"], how.get("A", 1.0), ev["dims"]
    if res is None:
        return {"st": "returned-none"}
    kind = "array" if isinstance(res, np.ndarray) else "tuple" if isinstance(res, tuple) else \
        "float" if isinstance(res, (float, np.floating)) else type(res).__name__[:20]
    try:
        a = np.asarray(res, dtype=float)
    except Exception:
        return {"st": "not-numeric"}
    k, ring = ev["k"], ev["ring"]
    D = den(k, dims)
    base = far_base(ev) if ev["op"] == "far" else ev["pts"]
    b = bound(dims, k, ev["mode"], base, arr_absmax(ev["arr"]))
    t = tol(b, cond(dims, emb, base))
    if ev["op"] == "far":
        t += b * 3 ** len(dims) / min(how["t"])
    if t > 0.3:
        raise HarnessError(f"event too large to project: bound {b} tol {t}")
    orders = ev["orders"] or [[0] * len(dims)]
    if ev["op"] == "far":
        ft = [[(tt if o[j - 1] == 0 else 1) for (j, _), tt in zip(ev["far"], how["t"])] for o in orders]
    else:
        ft = [[] for o in orders]
    sc = [D / A / prod(f) * prod((emb[i][1] ** o[i] if o[i] <= 1 else 1.0) for i in range(len(dims))) for o, f in zip(orders, ft)]
    pr = Proj(ring)
    for j, v in enumerate(a.ravel().tolist()):
        pr.add(v * sc[j % len(sc)] if math.isfinite(v) else v, t)
    return {"st": "ok", "kind": kind, "shape": list(a.shape), "num": pr.num, "off": pr.off, "frame": frame}


@op("affine")
def op_affine(ev, how):
    """coefficients are products of affine functions of position"""
    emb, A, dims, k, nx = how["emb"], how["A"], ev["dims"], ev["k"], ev["nx"]
    comps = []
    for ab in ev["ab"]:
        c = np.ones(())
        for g, (al, be) in zip(dims, ab):
            pos = [node(g, i) for i in range(size(g))]
            if k == 3:
                pos = [pos[0] - g["h"]] + pos + [pos[-1] + g["h"]]
            c = np.multiply.outer(c, np.array([float(al + be * q) for q in pos]))
        comps.append(c)
    C = layout((np.stack(comps, -1) if nx else comps[0]) * A, how.get("Clay", "C"))
    grid = real_grid(dims, emb)
    P = make_points(ev, how, emb)
    w = Watch(); w.add("C", C)
    for i, g in enumerate(grid):
        if isinstance(g, np.ndarray):
            w.add("grid%d" % i, g)
    if isinstance(P, np.ndarray):
        w.add("points", P)
    ob = OutBuf(result_shape(ev, len(expand(ev))), how["out"]) if how.get("out", "none") != "none" else None
    try:
        ret = call_api(ev, how, grid, C, P, ev["form"] == "point", None if ob is None else ob.a)
    except Exception as e:
        return {"obs": exc_obs(e)}
    frame = w.changed()
    res = ret if ob is None else ob.a
    try:
        a = np.asarray(res, dtype=float)
    except Exception:
        return {"obs": {"st": "not-numeric"}}
    t = affine_tol(ev, emb)
    if t > 0.3:
        raise HarnessError(f"affine event too large {t}")
    orders = ev["orders"] or [[0] * len(dims)]
    sc = [1 / A * prod((emb[i][1] if o[i] == 1 else 1.0) for i in range(len(dims))) for o in orders]
    pr = Proj(ev["ring"])
    for j, v in enumerate(a.ravel().tolist()):
        pr.add(v * sc[j % len(sc)] if math.isfinite(v) else v, t)
    return {"obs": {"st": "ok", "shape": list(a.shape), "num": pr.num, "off": pr.off, "frame": frame}}


# ---------------------------------------------------------------- gradients
@op("grad")
def op_grad(ev, how):
    emb, A, dims = how["emb"], how.get("A", 1.0), ev["dims"]
    d = len(dims)
    C = layout(arr_ints(ev["arr"]) * float(A), how.get("Clay", "C"))
    grid = real_grid(dims, emb)
    if how.get("gdt") == "I":
        grid = int_grid(grid)
    P = make_points(ev, how, emb)
    n = len(expand(ev))
    a = [g[0] for g in grid]; b = [g[1] for g in grid]; o = [g[2] for g in grid]
    if how.get("np", True):
        a, b, o = np.array(a), np.array(b), np.array(o)
    w = Watch(); w.add("C", C); w.add("points", P); w.seq("bounds", [a, b, o])
    v = dv = None
    frame = []
    try:
        if how.get("out", "none") != "none":
            v, dv = OutBuf([n, ev["nx"]], how["out"]), OutBuf([n, d, ev["nx"]], how["out"])
            r = vec_eval_cubic_splines_G(a, b, o, C, P, v.a, dv.a)
            if not v.guard_ok() or not dv.guard_ok():
                frame.append("outside-out")
            rv, rd = v.a, dv.a
        else:
            rv, rd = vec_eval_cubic_splines_G(a, b, o, C, P)
    except Exception as e:
        return {"obs": exc_obs(e)}
    frame += w.changed()
    obs = project_grad(ev, how, rv, rd, frame)
    note(rv, rd)
    return {"obs": obs}


@op("gradcomp")
def op_gradcomp(ev, how):
    """through the object interface: the object filters the node values of the natural spline"""
    A = how["A"]
    V, nsh = _values(ev, A)
    V = V / 6 ** len(nsh) * A
    grid = real_grid(ev["dims"], how["emb"])
    P = points_array(ev["pts"], how["emb"])
    w = Watch(); w.add("values", V); w.add("points", P)
    try:
        s = CubicSplines([g[0] for g in grid], [g[1] for g in grid], [g[2] for g in grid], V)
        rv, rd = s.interpolate(P, diff=True)
    except Exception as e:
        return {"obs": exc_obs(e)}
    ev2 = dict(ev, arr={"flat": [ev["cmax"]]})
    return {"obs": project_grad(ev2, how, rv, rd, w.changed())}


def project_grad(ev, how, rv, rd, frame):
    emb, A, dims = how["emb"], how.get("A", 1.0), ev["dims"]
    d = len(dims)
    D = den(3, dims)
    bb = bound(dims, 3, "linear", ev["pts"], arr_absmax(ev["arr"]))
    t = tol(bb, cond(dims, emb, ev["pts"]))
    if t > 0.3:
        raise HarnessError("event too large to project")
    p1, p2 = Proj(ev["ring"]), Proj(ev["ring"])
    for x in np.asarray(rv, float).ravel().tolist():
        p1.add(x * D / A, t)
    rd = np.asarray(rd, float)
    for (ix, x) in np.ndenumerate(rd):
        dim = ix[1] if rd.ndim == 3 else 0
        p2.add(x * D / A * emb[dim][1] if dim < d else math.nan, t)
    return {"st": "ok", "shape": list(rv.shape), "dshape": list(rd.shape), "num": p1.num, "dnum": p2.num,
            "off": p1.off + p2.off, "frame": frame}


# ---------------------------------------------------------------- prefilter
@op("filter")
def op_filter(ev, how):
    nsh, nx, q = ev["nsh"], ev["nx"], ev["q"]
    d = len(nsh)
    A = how.get("A", 1.0)
    sh = nsh + ([nx] if nx else [])
    V = np.array(ev["val"], dtype=float).reshape(sh) / 6 ** d * A
    V = layout(V, how.get("Clay", "C"))
    emb = how["bounds"]
    grid = tuple((float(a), float(b), n) for (a, b), n in zip(emb, nsh))
    w = Watch(); w.add("values", V)
    ob = None
    esh = [n + 2 for n in nsh] + ([nx] if nx else [])
    if how.get("out", "none") != "none":
        ob = OutBuf(esh, how["out"])
    api = how["api"]
    try:
        for _ in range(how.get("repeat", 1)):
            if api == "prefilter":
                r = prefilter(grid, V, k=3) if ob is None else prefilter(grid, V, out=ob.a, k=3)
            elif api == "filter_cubic":
                r = filter_cubic(grid, V) if ob is None else filter_cubic(grid, V, ob.a)
            elif api == "njit":
                key = ("prefilter", ob is not None)
                if key not in _cache:
                    if ob is None:
                        _cache[key] = njit(lambda g, v: prefilter(g, v, k=3))
                    else:
                        _cache[key] = njit(lambda g, v, o: prefilter(g, v, out=o, k=3))
                r = _cache[key](grid, V) if ob is None else _cache[key](grid, V, ob.a)
            elif api in ("filter_coeffs", "filter_mcoeffs"):
                f = filter_coeffs if api == "filter_coeffs" else filter_mcoeffs
                a = np.array([g[0] for g in grid]); b = np.array([g[1] for g in grid]); n = np.array(nsh)
                if how.get("abn") == "list":
                    a, b, n = a.tolist(), b.tolist(), list(nsh)
                w.seq("bounds", [a, b, n])
                r = f(a, b, n, V if not how.get("flat") else V.reshape([-1] + sh[d:]))
            elif api in ("CubicSpline", "CubicSplines"):
                raise HarnessError("private")
            else:
                raise HarnessError(api)
    except HarnessError:
        raise
    except Exception as e:
        return {"obs": exc_obs(e)}
    frame = w.changed()
    if ob is not None and not ob.guard_ok():
        frame.append("outside-out")
    res = ob.a if ob is not None else r
    if not isinstance(res, np.ndarray):
        return {"obs": {"st": "not-an-array"}}
    p = Proj("z")
    mx = max([1.0] + [abs(x) for x in ev["val"]]) / 6 ** d * 3 ** d
    lim = (2 ** 31 - 1) // 6 ** d - 1       # what the specification can add up; right coefficients are smaller
    for x in res.ravel().tolist():
        y = x / A * (q or 1)
        if not abs(y) <= lim:
            p._bad()
        elif q == 0:
            p.add(y, 1e-9 * (1 + mx))
        else:
            p.add(round(y), 0.1)
    note(res)
    return {"obs": {"st": "ok", "shape": list(res.shape), "num": p.num, "off": p.off, "frame": frame}}


# ---------------------------------------------------------------- values -> prefilter -> evaluation
def _values(ev, A):
    nsh = [size(g) for g in ev["dims"]]
    sh = nsh + ([ev["nx"]] if ev["nx"] else [])
    return np.array(ev["val"], dtype=float).reshape(sh), nsh


def _compose(ev, how, V, P, out=None):
    grid = real_grid(ev["dims"], how["emb"])
    if how["via"] == "func":
        c = prefilter(grid, V, k=3)
        return eval_spline(grid, c, P, k=3, diff="None", extrap_mode="linear")
    a = [g[0] for g in grid]; b = [g[1] for g in grid]; n = [g[2] for g in grid]
    vl = how.get("vlay", "C")
    if vl == "flat":
        V = V.reshape(-1, ev["nx"]) if ev["nx"] else V.ravel()
    elif vl == "list":
        V = V.tolist()
    s = (CubicSplines if ev["nx"] else CubicSpline)(a, b, n, V)
    if out is not None:
        return s.interpolate(P, out)
    return s.interpolate(P) if how.get("meth") == "interpolate" else s(P)


@op("comp")
def op_comp(ev, how):
    A = how["A"]
    V, nsh = _values(ev, A)
    V = V / 6 ** len(nsh) * A
    P = layout(points_array(ev["pts"], how["emb"]), how.get("play", "C"))
    if how.get("vlay", "C") not in ("flat", "list"):
        V = layout(V, how.get("vlay", "C"))
    w = Watch(); w.add("values", V); w.add("points", P)
    ob = OutBuf([len(P)], how["out"]) if how.get("out") else None
    try:
        r = _compose(ev, how, V, P, None if ob is None else ob.a)
    except Exception as e:
        return {"obs": exc_obs(e)}
    fr = w.changed()
    if ob is not None:
        r = ob.a
        if not ob.guard_ok():
            fr.append("outside-out")
    ev2 = dict(ev, arr={"flat": [ev["cmax"]]})
    return {"obs": project_eval(ev2, how, r, fr)}


@op("nodes")
def op_nodes(ev, how):
    A = how["A"]
    V, nsh = _values(ev, A)
    V = V * A
    if how.get("vlay"):
        V = layout(V, how["vlay"])
    P = points_array([[node(g, i) for g, i in zip(ev["dims"], ix)] for ix in ev["ixs"]], how["emb"])
    try:
        r = np.asarray(_compose(ev, how, V, P), float)
    except Exception as e:
        return {"obs": exc_obs(e)}
    p = Proj("z")
    c = cond(ev["dims"], how["emb"], [])
    for x in r.ravel().tolist():
        p.add(x / A, 1e-9 + 1e-12 * c * 100 * 3 ** len(nsh))
    return {"obs": {"st": "ok", "shape": list(r.shape), "num": p.num, "off": p.off}}
