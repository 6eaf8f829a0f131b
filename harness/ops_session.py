"""Stateful sessions: user arrays, results, objects; every live array is watched across calls."""
import math
import numpy as np
from worker import op, HarnessError, MODULES
from proj import *
from common import *

S = {}


def reset():
    S.clear()
    S.update(arrays={}, objs={}, how={}, results=[], bufs={})
    RETURNED.clear()


reset()


def base_of(a):
    b = a
    while isinstance(b.base, np.ndarray):
        b = b.base
    return b


def track(name, a):
    S["arrays"][name] = [a, base_of(a), base_of(a).tobytes()]


def handed(key, a, how):
    """the array handed to the library: a new one, or the one handed over before under this key, overwritten
    by the user ("same"), or a new one made after that one has been given up ("fresh")"""
    n = S["bufs"].get(key)
    mode = how.get("buf")
    old = S["arrays"][n][0] if n in S["arrays"] else None
    if mode and old is not None and old.shape == a.shape and old.dtype == a.dtype and old.flags.writeable:
        if mode == "same":
            t = S["arrays"][n][0]
            t[...] = a
            S["arrays"][n][2] = S["arrays"][n][1].tobytes()
            return t
        old = None
        del S["arrays"][n]
        t = np.empty(a.shape, a.dtype)
        t[...] = a
        a = t
    if not n or n in S["arrays"]:
        n = "_h%d_%s" % (len(S["arrays"]), key)
    track(n, a)
    S["bufs"][key] = n
    return a


def frame(may=()):
    """names of tracked arrays whose contents changed although nobody may have changed them"""
    out = []
    for n, rec in S["arrays"].items():
        now = rec[1].tobytes()
        if now != rec[2]:
            if n not in may:
                out.append(n)
            rec[2] = now
    return sorted(out)


def guarded(f, may=()):
    """run f; returns (value, None) or (None, observation)"""
    try:
        return f(), None
    except HarnessError:
        raise
    except Exception as e:
        o = exc_obs(e)
        o["frame"] = frame(may)
        return None, o


@op("reset")
def op_reset(ev, how):
    reset()
    return {"obs": {"st": "ok", "frame": []}}


@op("user")
def op_user(ev, how):
    """the user creates an array or overwrites one in place"""
    v, A = ev["v"], how.get("A", 1.0)
    k = v["kind"]
    if k in ("raw", "coef"):
        a = arr_ints(v["arr"]) * A
    elif k == "nat":
        sh = v["nsh"] + ([v["nx"]] if v["nx"] else [])
        a = np.array(how["val"], dtype=float).reshape(sh) / 6 ** len(v["nsh"]) * A
    elif k == "pts":
        a = points_array(v["pts"], how["emb"])
    elif k == "grid":
        a = np.array([coord(how["emb"], p) for p in v["x"]])
    else:
        raise HarnessError(k)
    n = ev["name"]
    if how.get("inplace"):
        t = S["arrays"][n][0]
        if t.shape != a.shape:
            raise HarnessError("in-place change of shape")
        t[...] = a
        S["arrays"][n][2] = S["arrays"][n][1].tobytes()
    elif how.get("renew"):      # a new array, if possible in the place of the old one
        sh = S["arrays"][n][0].shape
        if sh != a.shape:
            raise HarnessError("change of shape")
        del S["arrays"][n]
        t = np.empty(sh)
        t[...] = a
        track(n, t)
    else:
        track(n, layout(np.asarray(a, dtype=float), how.get("lay", "C")))
    S["how"][n] = {"A": A}
    return {"obs": {"st": "ok", "frame": frame()}}


def after(name, rep):
    """end of any call of a session: results of calls that know nothing of sessions are watched too"""
    if MODULES.get(name) == "ops_session":
        if RETURNED:
            RETURNED.clear()
        return
    if isinstance(rep.get("obs"), dict) and "frame" in rep["obs"]:
        rep["obs"]["frame"] = rep["obs"]["frame"] + frame()
    for x in RETURNED:
        result(x)
    RETURNED.clear()


def result(x):
    """something the library returned and the user now owns"""
    if isinstance(x, np.ndarray):
        track("_r%d" % len(S["arrays"]), x)
    S["results"].append(x)


def overwrite(x):
    if isinstance(x, np.ndarray):
        if x.flags.writeable:
            x[...] = 77 if x.dtype.kind in "iu" else 7.75
    elif isinstance(x, list):
        for y in x:
            overwrite(y)
        del x[len(x) // 2:]
    elif isinstance(x, dict):
        for y in x.values():
            overwrite(y)
        x.clear()


@op("scribble")
def op_scribble(ev, how):
    """the user overwrites something the library returned earlier"""
    rs = S["results"]
    if rs:
        x = rs[max(0, len(rs) - how["x"])]
        overwrite(x)
        for n, rec in S["arrays"].items():        # that one was meant to change
            if rec[0] is x:
                rec[2] = rec[1].tobytes()
    return {"obs": {"st": "ok", "frame": frame()}}


def arr(n):
    return S["arrays"][n][0]


def dims_real(ev, how):
    g = list(real_grid(ev["dims"], how["emb"]))
    for i, r in enumerate(ev.get("grefs", [])):
        if r:
            g[i] = arr(r)
    return tuple(g)


def pts_real(ev, how):
    if ev.get("pref"):
        return arr(ev["pref"])
    P = points_array(ev["pts"], how["emb"])
    if ev["form"] == "point":
        return tuple(float(x) for x in P[0]) if how.get("pt") == "tuple" else P[0].copy()
    return P


def handed_abn(grid, how):
    """the arrays of bounds and sizes are often the same arrays, changed in place by the user"""
    import ops_spline as OS
    return tuple(handed("%s%d" % (k, len(grid)), x, {"buf": b}) for k, x, b in zip("abn", OS.abn(grid), how.get("bufs", [None] * 3)))


@op("seval")
def op_seval(ev, how):
    import ops_spline as OS
    C = arr(ev["C"])
    grid, P = dims_real(ev, how), pts_real(ev, how)
    if isinstance(P, np.ndarray) and not ev.get("pref"):
        track("_p%d" % len(S["arrays"]), P)
    out, may = None, ()
    if how.get("outname"):
        may = (how["outname"],)
        if how["outname"] in S["arrays"]:
            out = arr(how["outname"])
        else:
            out = np.full(OS.result_shape(ev, len(ev["pts"])), 9.25)
            track(how["outname"], out)
    h = dict(how, A=S["how"][ev["C"]]["A"])
    api = how.get("api", "eval_spline")
    if OS.takes_abn(api):
        h["abn"] = handed_abn(grid, how)

    def go():
        if api == "attr_eval_cubic":
            import interpolation.splines
            return interpolation.splines.eval_cubic(grid, C, P)
        if api == "attr_eval_linear":
            import interpolation.splines
            return interpolation.splines.eval_linear(grid, C, P)
        return OS.call_api(ev, h, grid, C, P, ev["form"] == "point", out)
    r, o = guarded(go, may)
    if o:
        return {"obs": o}
    fr = frame(may)
    res = r if out is None else out
    ob = OS.project_eval(dict(ev, arr={"flat": [ev["cmax"]]}), h, res, fr)
    if isinstance(r, np.ndarray) and r is not out:
        result(r)
    return {"obs": ob}


@op("sfilter")
def op_sfilter(ev, how):
    import ops_spline as OS
    V = arr(ev["V"])
    A = S["how"][ev["V"]]["A"]
    grid = tuple((float(a), float(b), n) for (a, b), n in zip(how["bounds"], ev["nsh"]))
    out, may = None, ()
    if how.get("outname"):
        may = (how["outname"],)
        if how["outname"] in S["arrays"]:
            out = arr(how["outname"])
        else:
            out = np.full([n + 2 for n in ev["nsh"]] + ([ev["nx"]] if ev["nx"] else []), -3.5)
            track(how["outname"], out)
    api = how["api"]
    bounds = handed_abn(grid, how) if api.startswith("filter_") and api.endswith("coeffs") else None

    def go():
        if api == "prefilter":
            return OS.prefilter(grid, V, k=3) if out is None else OS.prefilter(grid, V, out=out, k=3)
        if api == "filter_cubic":
            return OS.filter_cubic(grid, V) if out is None else OS.filter_cubic(grid, V, out)
        a, b, n = bounds
        return (OS.filter_coeffs if api == "filter_coeffs" else OS.filter_mcoeffs)(a, b, n, V)
    r, o = guarded(go, may)
    if o:
        return {"obs": o}
    fr = frame(may)
    res = r if out is None else out
    if not isinstance(res, np.ndarray):
        return {"obs": {"st": "not-an-array", "frame": fr}}
    p = Proj("z")
    for x in res.ravel().tolist():
        p.add(x / A, 1e-6)
    track(ev["res"], res)
    S["how"][ev["res"]] = {"A": A}
    return {"obs": {"st": "ok", "shape": list(res.shape), "num": p.num, "off": p.off, "frame": fr}}


# ---------------------------------------------------------------- spline objects
def given_values(ev, how):
    """the array handed to the object: a live array, its flat version, or a malformed one"""
    if ev["V"] == "":
        return None
    v = arr(ev["V"])
    multi = how["multi"]
    if how.get("flat"):
        v = v.reshape(-1, v.shape[-1]) if multi else v.ravel()
        if how.get("flatlay", "C") != "C":
            v = layout(v.copy(), how["flatlay"])
            track("_v%d" % len(S["arrays"]), v)
    if ev["bad"]:
        v = v.copy()
        if ev["bad"] in ("nan", "inf"):
            v.flat[how.get("pos", 0) % v.size] = math.nan if ev["bad"] == "nan" else -math.inf
        elif ev["bad"] == "size":
            v = v.ravel()[:-1] if not multi else np.concatenate([v.reshape(-1, v.shape[-1])] * 2)
        else:
            raise HarnessError(ev["bad"])
    return v


@op("onew")
def op_onew(ev, how):
    import interpolation.splines as sp
    cls = getattr(sp, ev["cls"])
    g = real_grid(ev["dims"], how["emb"])
    a, b, n = [x[0] for x in g], [x[1] for x in g], [x[2] for x in g]
    if how.get("npb"):
        a, b, n = np.array(a), np.array(b), np.array(n)
        track(ev["name"] + ".a", a); track(ev["name"] + ".b", b); track(ev["name"] + ".n", n)
    v = given_values(ev, how)
    s, o = guarded(lambda: cls(a, b, n) if v is None else cls(a, b, n, v))
    if o:
        return {"obs": o}
    S["objs"][ev["name"]] = [s, S["how"].get(ev["V"], {}).get("A", 1.0)]
    fr = frame()
    if how.get("npb") and how.get("scribble"):      # the user reuses the arrays of bounds and orders for something else
        a += 1000.5; b += 2000.25; n += 1
        frame()
    return {"obs": {"st": "ok", "frame": fr}}


@op("oset")
def op_oset(ev, how):
    s = S["objs"][ev["name"]]
    v = given_values(ev, how)
    _, o = guarded(lambda: s[0].set_values(v))
    if o:
        return {"obs": o}
    if not ev["bad"]:
        s[1] = S["how"][ev["V"]]["A"]
    return {"obs": {"st": "ok", "frame": frame()}}


@op("oeval")
def op_oeval(ev, how):
    import ops_spline as OS
    s, A = S["objs"][ev["name"]]
    P = arr(ev["pref"]) if ev.get("pref") else points_array(ev["pts"], how["emb"])
    if not ev.get("pref"):
        if ev["form"] == "point":
            P = P[0].copy()
        track("_p%d" % len(S["arrays"]), P)
    r, o = guarded(lambda: s.interpolate(P) if how.get("meth") == "interpolate" else s(P))
    if o:
        return {"obs": o}
    fr = frame()
    ob = OS.project_eval(dict(ev, arr={"flat": [ev["cmax"]]}), dict(how, A=A), r, fr)
    if isinstance(r, np.ndarray):
        result(r)
    return {"obs": ob}


@op("ograd")
def op_ograd(ev, how):
    import ops_spline as OS
    s, A = S["objs"][ev["name"]]
    P = points_array(ev["pts"], how["emb"])
    r, o = guarded(lambda: s.interpolate(P, diff=True))
    if o:
        return {"obs": o}
    fr = frame()
    ob = OS.project_grad(dict(ev, arr={"flat": [ev["cmax"]]}), dict(how, A=A), r[0], r[1], fr)
    result(r[0]); result(r[1])
    return {"obs": ob}


@op("ogrid")
def op_ogrid(ev, how):
    s, A = S["objs"][ev["name"]]
    r, o = guarded(lambda: s.grid)
    if o:
        return {"obs": o}
    r = np.asarray(r)
    d = len(ev["nodes"])
    p = Proj("z")
    for ix, v in np.ndenumerate(r):
        k = min(d - 1, (ix[0] if ev["cols"] else ix[-1]))
        x0, sc = how["emb"][k]
        p.add((float(v) - x0) / sc, 1e-8 * (1 + abs(x0) / sc))
    return {"obs": {"st": "ok", "shape": list(r.shape), "num": p.num, "off": p.off, "frame": frame()}}


# ---------------------------------------------------------------- complete polynomials
@op("cpnew")
def op_cpnew(ev, how):
    from interpolation.complete_poly import CompletePolynomial
    s, o = guarded(lambda: CompletePolynomial(ev["n"], ev["d"]))
    if o:
        return {"obs": o}
    S["objs"][ev["name"]] = [s, 1.0]
    return {"obs": {"st": "ok", "frame": frame()}}


def poly_vals(terms, pts, K):
    """exact values (integers over 1) of the polynomial at integer points, as floats"""
    out = []
    for p in pts:
        row = [0] * K
        for t in terms:
            m = 1
            for x, e in zip(p, t["e"]):
                m *= x ** e
            for c in range(K):
                row[c] += t["c"][c] * m
        out.append(row)
    return out


@op("cpfit")
def op_cpfit(ev, how):
    from fractions import Fraction
    s = S["objs"][ev["name"]]
    A, q = how["A"], how["q"]
    pts = [[Fraction(x, q) for x in p] for p in how["samples"]]
    K = max(1, ev["k"])
    x = np.array([[float(v) for v in r] for r in poly_vals(ev["terms"], pts, K)]) * A
    if ev["k"] == 0:
        x = x[:, 0].copy()
    z = np.array(how["samples"], dtype=float) / q
    if how.get("lay"):
        z, x = layout(z, how["lay"]), layout(x, how["lay"])
    if q == 1 and A == 1.0 and how.get("dt"):
        z, x = layout(z, "I") if "z" in how["dt"] else z, layout(x, "I") if "x" in how["dt"] else x
    z = handed(ev["name"] + ".z", z, how)
    x = handed(ev["name"] + ".x", x, how)
    damp = ev["damp"][0] / ev["damp"][1]
    _, o = guarded(lambda: s[0].fit_values(z, x) if ev["damp"][0] == 0 and how.get("default") else s[0].fit_values(z, x, damp=damp))
    if o:
        return {"obs": o}
    s[1] = A
    c = np.asarray(s[0].coefs, dtype=float)
    fr = frame()
    p = project_list(c.ravel().tolist(), ev["den"] / A, 1e-4 * ev["den"])
    return {"obs": {"st": "ok", "shape": list(c.shape), "num": p.num, "off": p.off, "frame": fr}}


@op("cpeval")
def op_cpeval(ev, how):
    s, A = S["objs"][ev["name"]]
    z = np.array(ev["z"], dtype=float) / ev["q"]
    if ev["form"] == "vec":
        z = z[0].copy()
    z = handed(ev["name"] + ".p", layout(z, how.get("lay", "C") if ev["q"] > 1 or not how.get("dt") else "I"), how)
    before = np.array(s.coefs)
    r, o = guarded(lambda: s(z) if ev["der"] == -1 else s.der(z, ev["der"]))
    if o:
        return {"obs": o}
    fr = frame()
    if not np.array_equal(before, s.coefs):
        fr = fr + ["coefs"]
    if isinstance(r, np.ndarray):
        result(r)
    r = np.array(r, dtype=float)
    sc = ev["den"] / A
    p = project_list(r.ravel().tolist(), sc, how["t"])
    return {"obs": {"st": "ok", "shape": list(r.shape), "num": p.num, "off": p.off, "frame": fr}}


# ---------------------------------------------------------------- Smolyak interpolants
def cheb(k, x):
    a, b = np.ones_like(x), x
    if k == 0:
        return a
    for _ in range(k - 1):
        a, b = b, 2 * x * b - a
    return b


def sm_values(terms, g, A, how):
    """values of the polynomial at the nodes of the grid, in the grid's own order"""
    from ops_misc import sm_bounds_real
    d = g.grid.shape[1]
    lb, ub = [np.array(v) for v in sm_bounds_real(how, d)]
    y = (2 * np.asarray(g.grid) - lb - ub) / (ub - lb)
    f = np.zeros(len(y))
    for t in terms:
        v = np.full(len(y), float(t["c"]))
        for j, k in enumerate(t["k"]):
            v = v * cheb(k, y[:, j])
        f += v
    return f * A


@op("smnew")
def op_smnew(ev, how):
    from ops_misc import sm_mu, sm_bounds
    from interpolation.smolyak.grid import SmolyakGrid
    from interpolation.smolyak.interp import SmolyakInterp
    A = how["A"]

    def go():
        key = "grid:" + str(how.get("gridname", ev["name"]))
        if key in S["objs"]:
            g = S["objs"][key][0]
        else:
            b = sm_bounds(how)
            if how.get("arr"):
                b = {k: (np.array(v, dtype=float) if isinstance(v, list) else v) for k, v in b.items()}
            mu = sm_mu(dict(ev, muarr=how.get("muarr")))
            g = SmolyakGrid(len(ev["mu"]), mu, **b)
            if how.get("scribble"):      # the user reuses the arrays for something else
                for x in list(b.values()) + [mu]:
                    if isinstance(x, np.ndarray):
                        x += 7
            S["objs"][key] = [g, 1.0]
            for n in ("grid", "cube_grid", "B"):
                track(key + "." + n, getattr(g, n))
        f = layout(sm_values(ev["terms"], g, A, how), how.get("vlay", "C"))
        f = handed("f" + key if how.get("shared") else "f" + ev["name"], f, how)
        return SmolyakInterp(g, f)
    s, o = guarded(go)
    if o:
        return {"obs": o}
    S["objs"][ev["name"]] = [s, A, how]
    return {"obs": {"st": "ok", "frame": frame()}}


@op("smupd")
def op_smupd(ev, how):
    s = S["objs"][ev["name"]]
    A = how["A"]
    f = layout(sm_values(ev["terms"], s[0].sg, A, s[2]), how.get("vlay", "C"))
    f = handed("fgrid:" + str(s[2].get("gridname", ev["name"])) if how.get("shared") else "f" + ev["name"], f, how)
    _, o = guarded(lambda: s[0].update_theta(f))
    if o:
        return {"obs": o}
    s[1] = A
    if how.get("scribble") and f.flags.writeable:      # the user reuses the array for something else
        f[...] = 5.5
        frame()
    return {"obs": {"st": "ok", "frame": frame()}}


@op("smeval")
def op_smeval(ev, how):
    from ops_misc import sm_bounds_real, tup
    s, A, h0 = S["objs"][ev["name"]]
    d, m = len(ev["mu"]), ev["m"]
    lb, ub = [np.array(v) for v in sm_bounds_real(h0, d)]
    y = np.array(ev["c"], dtype=float) / m
    P = (lb + ub) / 2 + y * (ub - lb) / 2
    if how.get("dt") and np.array_equal(P, np.round(P)) and np.array_equal((2 * P - lb - ub) / (ub - lb), y):
        P = P.astype(np.int64)
    P = handed("p" + ev["name"], layout(P, how.get("lay", "C")), how)
    fl = ev["flags"]

    def go():
        if fl == [True, False, False, False] and how.get("default"):
            return s.interpolate(P)
        return s.interpolate(P, interp=fl[0], deriv=fl[1], deriv_th=fl[2], deriv_X=fl[3])
    r, o = guarded(go)
    if o:
        return {"obs": o}
    single = isinstance(r, np.ndarray)
    parts = [r] if single else list(r)
    obs = {"st": "ok", "single": single, "count": len(parts), "off": [], "pinds": tup(s.sg.pinds),
           "vshape": [], "dshape": [], "tshape": [], "xshape": [], "v": [], "dv": [], "th": [], "xv": []}
    deg = ev.get("deg", 2 ** max(ev["mu"]))
    D = float(m) ** deg
    cm = sum(abs(t["c"]) for t in how["terms"]) + 1
    cond = float(np.max((np.abs(lb) + np.abs(ub)) / (ub - lb)))
    t = 1e-6 + 1e-12 * D * cm * (5 + cond) * 4 ** max(ev["mu"])
    if t > 0.3:
        raise HarnessError(f"smolyak event too large {t}")
    tg = 4 ** max(ev["mu"]) if "deg" not in ev else 16
    it = iter(parts)
    try:
        if fl[0]:
            a = np.asarray(next(it), float); obs["vshape"] = list(a.shape)
            p = project_list(a.ravel().tolist(), D / A, t); obs["v"] = p.num
            obs["off"] += ["value"] * bool(p.off)
        if fl[1]:
            a = np.asarray(next(it), float); obs["dshape"] = list(a.shape)
            if a.ndim == 2 and a.shape[1] == d:
                a = a * (ub - lb) / 2
            p = project_list(a.ravel().tolist(), D / A, t * tg); obs["dv"] = p.num
            obs["off"] += ["gradient"] * bool(p.off)
        if fl[2]:
            a = np.asarray(next(it), float); obs["tshape"] = list(a.shape)
            p = project_list(a.ravel().tolist(), D, t); obs["th"] = p.num
            obs["off"] += ["theta"] * bool(p.off)
        if fl[3]:
            a = np.asarray(next(it), float); obs["xshape"] = list(a.shape)
            f = sm_values(how["terms"], s.sg, A, h0)
            if a.ndim == 2 and a.shape[1] == len(f):
                p = project_list(a.dot(f).ravel().tolist(), D / A, t); obs["xv"] = p.num
                obs["off"] += ["values"] * bool(p.off)
    except StopIteration:
        pass
    obs["frame"] = frame()
    for p in parts:
        result(p)
    return {"obs": obs}
