"""Stateful properties: histories generated by TLC from the session models, replayed on live objects."""
import json, os, math, re
from plans import plan
from gen import *
from tlc import model_check, simulate, refute
from plans_spline import node_values6, cub_dims
from plans_misc import mk_enum, mk_herm, mk_cpb, lcm, rand_mu, rand_bounds, HERM_FORMS
from itertools import product


def histories(out):
    """histories printed by the model"""
    hs = []
    for l in out.splitlines():
        m = re.match(r'^"?HIST (.*?)"?$', l.strip())
        if m:
            t = m.group(1)
            hs.append(json.loads(json.loads('"' + t + '"') if '\\"' in t else t))
    return hs


def simulated(module, cfg, tmp, num, depth, seed):
    return histories(simulate(module + ".tla", cfg + ".cfg", tmp, num, depth + 1, seed))


def session(jobs):
    out = [{"ev": {"op": "reset"}, "how": {}, "cost": 0}] + jobs
    return out


def bucket(sessions, n):
    """sessions dealt to n groups; each group is one trace"""
    gs = []
    for b in (sessions[i::n] for i in range(n)):
        g = [dict(j) for s in b for j in s]
        if g:
            g[0]["session"] = True
            gs.append(g)
    return gs


# ---------------------------------------------------------------- C09
CLASSES = ("LinearSpline", "LinearSplines", "CubicSpline", "CubicSplines")


def far_pts(dims):
    return [[lo(g) - (hi(g) - lo(g)) - 2 for g in dims], [hi(g) + (hi(g) - lo(g)) + 2 for g in dims]]


def life(h):
    """what happens to one object and one array, in order, for each pair"""
    for o in (1, 2):
        for a in (1, 2):
            f = []
            for e in h:
                k = e["a"]
                if e.get("o") == o:
                    f.append(k + ("=" if e["v"] == a else "0" if not e["v"] else "x") if k in ("new", "set") else k)
                elif k == "mut" and e["v"] == a:
                    f.append(k)
            yield f


def windows(h):
    """runs of three steps of such a life, and runs of three changes followed by an evaluation"""
    out = set()
    for f in life(h):
        for i in range(len(f) - 2):
            out.add(tuple(f[i:i + 3]))
        g = [x for x in f if x != "grid"]
        for i in range(len(g) - 3):
            if g[i + 3] == "eval":
                out.add(tuple(g[i:i + 4]))
    return out


def cover(hs, feats, n, rng):
    """at most n of the histories, chosen greedily to cover as many features as possible"""
    hs = rng.sample(hs, len(hs))
    F = [feats(h) for h in hs]
    left, out = set().union(*F), []
    while left and len(out) < n:
        b = max(range(len(hs)), key=lambda i: len(F[i] & left))
        left -= F[b]
        out.append(hs[b])
    return out, len(left)


def vary_rows(r, rows, new):
    """as many rows, of which some are kept: caches that look at part of an argument show"""
    rows = [list(x) for x in rows]
    t = r.random()
    if len(rows) == 1 or not rows:
        t = 1 if t < 0.5 else 0.5
    if t < 0.2:          # the first (or the last) row is kept
        keep = 0 if r.random() < 0.6 else len(rows) - 1
        return [x if i == keep else y for i, (x, y) in enumerate(zip(rows, new(len(rows))))]
    if t < 0.4:          # one row is changed
        j = r.randrange(len(rows))
        rows[j] = new(1)[0]
        return rows
    if t < 0.6 and rows:      # one coordinate is changed
        i, j = r.randrange(len(rows)), r.randrange(len(rows[0]))
        rows[i][j] = new(1)[0][j]
        return rows
    if t < 0.8:          # the same rows in another order
        r.shuffle(rows)
        return rows
    return new(len(rows))


def vary_flat(r, a, lo_, hi_):
    """the same entries in another order, one entry changed, sign changed, or all new"""
    a = list(a)
    t = r.random()
    if t < 0.2:
        r.shuffle(a)
    elif t < 0.3:
        a.reverse()
    elif t < 0.5:
        j = r.choice([0, len(a) - 1, r.randrange(len(a))])
        a[j] += 1 if a[j] < hi_ else -1
    elif t < 0.6:
        a = [-x for x in a] if lo_ == -hi_ else a[1:] + a[:1]
    else:
        a = [r.randint(lo_, hi_) for _ in a]
    return a


class ObjSession:
    def __init__(self, rng, d, classes, plain=0.0):
        self.rng, self.d, self.classes = rng, d, classes
        self.plain = plain          # how often arrays are handed over as they are
        self.nsh = [rng.choice([2, 3, 4] if d > 1 else [2, 3, 5, 8]) for _ in range(d)]
        self.nx = {v: rng.choice([1, 2, 3, 1, 2, 3, 5, 9]) for v in (1, 2)}
        self.jobs, self.objs = [], {}
        self.kinds = {(c.startswith("Cubic"), c.endswith("s")) for c in classes}
        self.cur, self.amp = {}, {}
        self.base = rng.choice([0, 0, 10 ** 6 if d == 1 else 10 ** 5 if not any(c.startswith("Cubic") for c in classes) else 0])      # sometimes the values are large and nearly equal
        for v in (1, 2):
            self.write(v, False)

    def put(self, ev, how=None, cost=0.3):
        self.jobs.append({"ev": ev, "how": how or {}, "cost": cost})

    def write(self, v, inplace):
        """the user writes new contents into array v (one physical array per kind)"""
        r = self.rng
        renew = inplace and r.random() < 0.2
        for cub, multi in sorted(self.kinds):
            nx = self.nx[v] if multi else 0
            sh = self.nsh + ([nx] if nx else [])
            nm = self.aname(cub, multi, v)
            self.amp[nm] = A = self.amp[nm] if inplace and r.random() < 0.6 else r.choice(A_POOL)
            how = {"A": A, "inplace": inplace}
            lim, b0 = 20 if cub else 50, self.base
            vals = vary_flat(r, self.cur[nm], b0 - lim, b0 + lim) if inplace else [r.randint(b0 - lim, b0 + lim) for _ in range(math.prod(sh))]
            self.cur[nm] = vals
            if not inplace:
                how["lay"] = "C" if r.random() < self.plain else r.choice(["C", "C", "C", "F", "S"])
            if renew:
                how["inplace"], how["renew"] = False, True
            if cub:
                v_ = {"t": "arr", "kind": "nat", "nx": nx, "nsh": self.nsh, "ci": {"sh": sh, "flat": vals}}
                how["val"] = node_values6(vals, self.nsh, nx)
            else:
                v_ = {"t": "arr", "kind": "raw", "nx": nx, "arr": {"sh": sh, "flat": vals}}
            self.put({"op": "user", "name": nm, "v": v_}, how)

    def aname(self, cub, multi, v):
        return ("nat" if cub else "raw") + ("s" if multi else "") + str(v)

    def oname(self, o):
        return "o%d" % o

    def new(self, o, v):
        r = self.rng
        cls = r.choice(self.classes)
        cub, multi = cls.startswith("Cubic"), cls.endswith("s")
        dims = [{"t": "u", "a": r.randint(-9, 9), "h": r.choice([1, 1, 2, 3] if self.d > 1 else [1, 2, 3, 5]), "n": n} for n in self.nsh]
        cm = (20 * 3 ** self.d if cub else 50) + self.base
        emb, twin = None, False
        if self.objs and r.random() < 0.4:      # nearly the domain of another object
            other = r.choice(list(self.objs.values()))
            ds = [dict(g) for g in other["dims"]]
            g = r.choice(ds)
            dh, q = r.choice([1, 2]), r.random()
            if q < 0.7:
                if q < 0.35:       # the upper bound stays
                    g["a"] -= dh * (g["n"] - 1)
                g["h"] += dh
            elif q < 0.9:
                g["a"] += r.choice([-1, 1]) * dh
            b = bound(ds, 3 if cub else 1, "linear", far_pts(ds), cm)
            if tol(b, cond(ds, other["emb"], far_pts(ds))) < 0.2:
                dims, emb, twin = ds, other["emb"], True
                other["twin"] = True
        if not twin:
            emb, b = fit_emb(r, dims, 3 if cub else 1, "linear", far_pts(dims), cm)
            if emb is None:
                dims = [dict(g, h=1) for g in dims]
                emb, b = fit_emb(r, dims, 3 if cub else 1, "linear", far_pts(dims), cm)
        self.objs[o] = {"twin": twin, "cls": cls, "cub": cub, "multi": multi, "dims": dims, "emb": emb, "cm": cm,
                        "ring": "z" if b < 1e9 else "m", "nx": None}
        V = self.aname(cub, multi, v) if v else ""
        if v:
            self.objs[o]["nx"] = self.nx[v] if multi else 0
        self.put({"op": "onew", "name": self.oname(o), "cls": cls, "dims": dims, "V": V, "bad": ""},
                 {"emb": emb, "multi": multi, "flat": r.random() < 0.4 and r.random() >= self.plain, "flatlay": r.choice(["C", "C", "F", "S", "R"]), "npb": r.random() < 0.6, "scribble": r.random() < 0.5})

    def set(self, o, v, bad=""):
        r, ob = self.rng, self.objs[o]
        if bad == "nonfinite":
            bad = r.choice(["nan", "inf"]) if ob["cub"] else "size"
        self.put({"op": "oset", "name": self.oname(o), "V": self.aname(ob["cub"], ob["multi"], v), "bad": bad},
                 {"emb": ob["emb"], "multi": ob["multi"], "flat": r.random() < 0.4 and r.random() >= self.plain, "flatlay": r.choice(["C", "C", "F", "S", "R"]), "pos": r.randint(0, 40)})
        if not bad:
            ob["nx"] = self.nx[v] if ob["multi"] else 0

    def eval(self, o):
        r, ob = self.rng, self.objs[o]
        dims, k = ob["dims"], 3 if ob["cub"] else 1
        base = {"name": self.oname(o), "dims": dims, "nx": ob["nx"], "ring": ob["ring"], "den": den_field(k, dims, ob["ring"]), "cmax": ob["cm"]}
        how = {"emb": ob["emb"]}
        if r.random() < 0.15:
            self.put({"op": "scribble"}, {"x": r.choice([1, 1, 2])})
        if ob["cls"] == "CubicSplines" and r.random() < 0.35:
            self.put(dict(base, op="ograd", pts=rand_pts(r, dims, r.choice([1, 3]), "any")), how, 1)
            return
        form = r.choice(["batch", "batch", "point"])
        how["meth"] = "interpolate" if form == "batch" and r.random() < 0.5 else "call"
        if form == "point" and ob["cls"] == "CubicSpline" and r.random() < 0.5:
            how["meth"] = "interpolate"
        pts = rand_pts(r, dims, 1 if form == "point" else r.choice([1, 2, 5]), "any")
        if ob.get("pts") and r.random() < 0.4:
            pts = vary_rows(r, ob["pts"], lambda n: rand_pts(r, dims, n, "any"))[:1 if form == "point" else None]
        ob["pts"] = pts
        self.put(dict(base, op="oeval", k=k, mode="linear", orders=[], pts=pts, form=form), how, 0.5)

    def grid(self, o):
        ob = self.objs[o]
        nodes = [[node(g, i) for i in range(size(g))] for g in ob["dims"]]
        self.put({"op": "ogrid", "name": self.oname(o), "nodes": nodes, "order": "C", "cols": not ob["cub"]}, {"emb": ob["emb"]})

    def play(self, hist):
        has = {}
        for e in hist:
            a, o = e["a"], e.get("o")
            if a == "new":
                self.new(o, e["v"]); has[o] = bool(e["v"])
            elif a == "set":
                self.set(o, e["v"]); has[o] = True
            elif a == "bad":
                self.set(o, e["v"], e["why"])
            elif a == "mut":
                self.write(e["v"], True)
            elif a == "eval":
                self.eval(o)
            elif a == "grid":
                self.grid(o)
        for o in sorted(self.objs):
            if has[o]:
                self.eval(o)
            if self.objs[o]["twin"] or self.rng.random() < 0.3:
                self.grid(o)
        return session(self.jobs)


@plan("C09")
def c09(tier, rng, tmp):
    T = tier == "thorough"
    seed = rng.randrange(10 ** 6)
    mcs = [model_check("MCObjects.tla", c + ".cfg", tmp) for c in (["MCObjects", "MCObjects_lazy"] + (["MCObjects_thorough"] if T else []))]
    mcs.append(refute("MCObjects.tla", "MCObjects_alias.cfg", tmp, "LastAccepted"))
    m4 = model_check("MCObjects.tla", "MCObjects_all4.cfg", tmp, workers=1)
    h4 = histories(m4.pop("out"))
    mcs.append(m4)
    # all histories of length 4, sampled; prefer those in which something is at stake
    stake = [h for h in h4 if any(e["a"] in ("mut", "bad", "set") for e in h) and any(e["a"] == "new" for e in h)]
    hs = rng.sample(stake, 1500 if T else 160)
    sim = simulated("MCObjects", "MCObjects_hist", tmp, 8000 if T else 3000, 12, seed)
    hs += rng.sample(sim, 500 if T else 40)
    if T:
        hs += simulated("MCObjects", "MCObjects_hist30", tmp, 120, 30, seed + 1)
    by, open_, used = {}, [], 0
    # for every class: histories that together show one object and one array every short run of steps
    for c in CLASSES:
        sel, left = cover(sim, windows, 220 if T else 50, rng)
        open_.append(left)
        for h in sel:
            d = rng.choice([1, 1, 2] if not T else [1, 2, 2, 3])
            by.setdefault(d, []).append(ObjSession(rng, d, (c,), 0.75).play(h))
            used += len(h)
    mixes = [CLASSES, CLASSES[:1], CLASSES[1:2], CLASSES[2:3], CLASSES[3:], ("LinearSpline", "CubicSpline"), ("LinearSplines", "CubicSplines"), CLASSES[:2], CLASSES[2:]]
    for i, h in enumerate(hs):
        d = rng.choice([1, 1, 2, 2, 2, 3] if not T else [1, 2, 2, 3])
        mix = mixes[i % len(mixes)]
        by.setdefault(d, []).append(ObjSession(rng, d, mix).play(h))
    groups = []
    for d, ss in sorted(by.items()):
        groups += bucket(ss, {1: 2, 2: 3, 3: 2}[d] if not T else 5)
    return {"groups": groups, "mc": mcs, "from_model": used + sum(len(h) for h in hs),
            "notes": f"{len(h4)} histories of length 4 enumerated by the model, {sum(map(len, by.values()))} histories replayed; "
                     f"runs of steps left uncovered per class: {open_}"}


# ---------------------------------------------------------------- C08
class PureSession:
    """functional calls and in-place changes by the caller"""

    def __init__(self, rng, pat, k):
        self.rng, self.pat, self.k, self.d = rng, pat, k, len(pat)
        self.nsh = [rng.choice([2, 3, 4, 5] if self.d == 1 else [2, 3, 4]) for _ in pat]
        self.nx = rng.choice([0, 0, 2, 2, 5])
        self.steps = []           # (event, how) with symbolic state resolved; embedding chosen at the end
        self.dims = [self.dim(i) for i in range(self.d)]
        self.fb = [[0.0, 1.0] for _ in pat]
        self.pts, self.nF, self.coef_src = {}, 0, {}
        self.cur, self.amp = {}, {}
        # sometimes all entries are large and nearly equal
        self.base = rng.choice([0, 0, 0, 10 ** 6]) if k == 1 else 0
        self.nouts = {}
        self.sigs = {s: self.signature() for s in (1, 2, 3)}
        for c in ("c1", "c2"):
            self.write(c, False)
        for p in ("p1", "p2"):
            self.write(p, False)
        if "n" in pat:
            self.write("g1", False)
        if k == 3:
            for v in ("v1", "v2"):
                self.write(v, False)

    def dim(self, i):
        r, n = self.rng, self.nsh[i]
        if self.pat[i] == "u":
            return {"t": "u", "a": r.randint(-5, 5), "h": r.choice([1, 2, 3] if self.k == 3 else [1, 2, 4, 6]), "n": n}
        x = [r.randint(-5, 5)]
        for _ in range(n - 1):
            x.append(x[-1] + r.choice([1, 2, 3]))
        return {"t": "n", "x": x, "D": 6}

    def signature(self):
        r, k = self.rng, self.k
        apis = ["eval_spline"] * 4
        if k == 1:
            apis += ["eval_linear", "attr_eval_linear"]
            if self.nx == 0:
                apis += ["mlinterp"]
            if "n" not in self.pat:
                apis += ["multilinear_interpolation" if self.nx == 0 else "vec_multilinear_interpolation"] * 2
        else:
            apis += ["eval_cubic", "attr_eval_cubic"] + ["vec_eval_cubic_spline" if self.nx == 0 else "vec_eval_cubic_splines"] * 2
        api = r.choice(apis)
        mode, orders = "linear", []
        if api == "eval_spline":
            mode = r.choice(["linear", "linear", "nearest", "constant"])
            if mode == "linear" and r.random() < 0.4:
                orders = r.choice([[[1] + [0] * (self.d - 1)], [[0] * self.d, [0] * (self.d - 1) + [1]]])
        elif api in ("eval_linear", "eval_cubic"):
            mode = r.choice(["linear", "nearest"])
        form = r.choice(["batch", "batch", "batch", "point"]) if api in ("eval_spline", "mlinterp") else "batch"
        return {"api": api, "mode": mode, "orders": orders, "form": form, "noout": api.startswith("attr") or api == "mlinterp",
                "nj": api == "eval_spline" and r.random() < 0.3}

    def put(self, ev, how=None):
        self.steps.append((ev, how or {}))

    def write(self, n, inplace, renew=False):
        k = len(self.steps)
        self.write_(n, inplace)
        if renew:
            for ev, how in self.steps[k:]:
                how["inplace"], how["renew"] = False, True
                how.pop("lay", None)

    def write_(self, n, inplace):
        r = self.rng
        if n[0] == "c" and n not in self.coef_src or n[0] == "c" and inplace:
            sh = coef_shape(self.k, self.dims, self.nx)
            lo_, hi_ = self.base - 50, self.base + 50
            vals = vary_flat(r, self.cur[n], lo_, hi_) if inplace and n in self.cur else [r.randint(lo_, hi_) for _ in range(math.prod(sh))]
            self.cur[n] = vals
            self.put({"op": "user", "name": n, "v": {"t": "arr", "kind": "coef" if self.k == 3 else "raw", "nx": self.nx, "arr": {"sh": sh, "flat": vals}}},
                     {"A": self.amplitude(n, inplace), "inplace": inplace})
            self.coef_src[n] = (n, self.base + 50)
        elif n[0] == "p":
            m = len(self.pts[n]) if inplace else r.choice([1, 3, 5])
            new = lambda q: rand_pts(r, self.dims, q, "any")
            self.pts[n] = vary_rows(r, self.pts[n], new) if inplace else new(m)
            self.put({"op": "user", "name": n, "v": {"t": "arr", "kind": "pts", "pts": self.pts[n]}}, {"inplace": inplace})
        elif n[0] == "g":
            i = self.pat.index("n")
            if inplace:
                self.dims[i] = self.dim(i)
            self.put({"op": "user", "name": n, "v": {"t": "arr", "kind": "grid", "x": self.dims[i]["x"]}}, {"inplace": inplace, "dim": i})
        elif n[0] == "v":
            sh = self.nsh + ([self.nx] if self.nx else [])
            ci = vary_flat(r, self.cur[n], -20, 20) if inplace and n in self.cur else [r.randint(-20, 20) for _ in range(math.prod(sh))]
            self.cur[n] = ci
            self.put({"op": "user", "name": n, "v": {"t": "arr", "kind": "nat", "nx": self.nx, "nsh": self.nsh, "ci": {"sh": sh, "flat": ci}}},
                     {"A": self.amplitude(n, inplace), "inplace": inplace, "val": node_values6(ci, self.nsh, self.nx), "lay": r.choice(["C", "C", "F"])})

    def bufs(self):
        """how the arrays of bounds and sizes are handed over"""
        return [self.rng.choice(["same", "same", "same", "fresh", None]) for _ in range(3)]

    def amplitude(self, n, inplace):
        if not (inplace and n in self.amp and self.rng.random() < 0.6):
            self.amp[n] = self.rng.choice(A_POOL)
        return self.amp[n]

    def call(self, e):
        r, s = self.rng, self.sigs[e["s"]]
        C, cm = self.coef_src[e["c"]]
        dims = [dict(g) for g in self.dims]
        if r.random() < 0.3 and "u" in self.pat:      # the same data on another grid of the same size
            g = dims[r.choice([i for i, t in enumerate(self.pat) if t == "u"])]
            dh = r.choice([1, 2])
            q = r.random()
            if q < 0.4:
                g["a"] -= dh * (g["n"] - 1)
            if q < 0.8:
                g["h"] += dh
            else:
                g["a"] += dh
        for g in dims:
            if g["t"] == "n":
                g["D"] = lcm([b - a for a, b in zip(g["x"], g["x"][1:])])
        ev = {"op": "seval", "C": C, "dims": dims, "k": self.k, "mode": s["mode"], "orders": s["orders"], "nx": self.nx, "form": s["form"], "cmax": cm}
        how = {"api": s["api"], "njit": s["nj"], "bufs": self.bufs()}
        if "n" in self.pat:
            i = self.pat.index("n")
            ev["grefs"] = ["g1" if j == i else "" for j in range(self.d)]
        if s["form"] == "batch":
            ev["pref"] = e["p"]
            ev["pts"] = self.pts[e["p"]]
        else:
            ev["pts"] = rand_pts(r, self.dims, 1, "any")
            how["pt"] = r.choice(["tuple", "arr"]) if s["api"] == "eval_spline" else "tuple"
        if e["b"] != "new" and not s["noout"] and (s["form"] == "batch" or (self.nx and not s["orders"])):
            # one output array per signature and batch length, reused by later calls
            how["outname"] = f"outA{e['s']}_{len(ev['pts'])}"
        self.put(ev, how)

    def filter(self, e, api=None):
        if self.k != 3:
            return
        r = self.rng
        res = f"F{self.nF}"
        self.nF += 1
        api = api or r.choice(["prefilter", "filter_cubic", "filter_coeffs" if self.nx == 0 else "filter_mcoeffs"])
        if r.random() < 0.5:
            self.fb = [[r.choice([0.0, -1.5]), r.choice([1.0, 7.25])] for _ in self.nsh]
        how = {"api": api, "bounds": self.fb, "bufs": self.bufs()}
        if e["b"] != "new" and api in ("prefilter", "filter_cubic"):
            how["outname"] = res = "outF"
        self.put({"op": "sfilter", "V": e["v"], "nsh": self.nsh, "nx": self.nx, "res": res}, how)
        self.coef_src["c2"] = (res, 20 * 3 ** self.d)

    def play(self, hist, others):
        """others: functions making jobs of unrelated functions of the library"""
        for e in hist:
            if e["a"] == "mut":
                if e["n"] == "c2" and self.coef_src["c2"][0] != "c2":
                    continue        # c2 currently is a result of the library
                if e["n"][0] == "v" and self.k != 3 or e["n"] == "g1" and "n" not in self.pat:
                    continue
                self.write(e["n"], True, e["w"] == "renew" and not (e["n"] == "g1" and self.rng.random() < 0.5))
            elif e["a"] == "eval":
                self.call(e)
            elif e["a"] == "scribble":
                self.put({"op": "scribble"}, {"x": e["x"]})
            else:
                self.filter(e)
            if others and self.rng.random() < 0.3:
                j = self.rng.choice(others)()
                if j:
                    again = self.rng.choice([0, 1, 2, 3])
                    self.steps.append((j["ev"], j["how"]))
                    if again >= 2:
                        self.put({"op": "scribble"}, {"x": 1 if again == 2 else self.rng.choice([1, 2, 3])})
                    if again:
                        self.steps.append((j["ev"], j["how"]))
        if self.k == 3:      # the same array filtered, changed and filtered again by the same function
            for api in ["prefilter", "filter_cubic", "filter_coeffs" if self.nx == 0 else "filter_mcoeffs"]:
                v = self.rng.choice(["v1", "v2"])
                e = {"v": v, "b": "new"}
                self.filter(e, api)
                self.again(v)
                self.filter(e, api)
        return self.finish()

    def again(self, v):
        """array v changed in place, its scale kept: an order, a sign or an entry changes"""
        k = len(self.steps)
        A = self.amp[v]
        self.write_(v, True)
        for ev, how in self.steps[k:]:
            how["A"] = A
        self.amp[v] = A

    def finish(self):
        r = self.rng
        evs = [ev for ev, _ in self.steps if ev["op"] == "seval"]
        for t in range(60):
            emb = rand_emb(r, self.d) if t < 59 else [[0.0, 1.0]] * self.d
            ok = True
            for ev in evs:
                b = bound(ev["dims"], self.k, ev["mode"], ev["pts"], ev["cmax"])
                if tol(b, cond(ev["dims"], emb, ev["pts"])) > 0.2:
                    ok = False
                    break
            if ok:
                break
        if not ok:
            return None
        jobs = []
        for ev, how in self.steps:
            if ev["op"] in ("seval", "user"):
                how = dict(how, emb=emb)
                if ev["op"] == "user" and ev["v"]["kind"] == "grid":
                    how["emb"] = emb[how["dim"]]
                if ev["op"] == "seval":
                    b = bound(ev["dims"], self.k, ev["mode"], ev["pts"], ev["cmax"])
                    ring = "z" if b < 1e9 else "m"
                    ev = dict(ev, ring=ring, den=den_field(self.k, ev["dims"], ring))
            jobs.append({"ev": ev, "how": how, "cost": 0.4})
        return session(jobs)


def grad_job(rng):
    g = cub_dims(rng, 1)
    pts = rand_pts(rng, g, 2, "any")
    j = mk_eval(rng, g, 3, "linear", [], 2, pts, "batch", {"np": rng.random() < 0.5})
    if j is None:
        return None
    j["ev"]["op"] = "grad"
    for f in ("k", "mode", "orders"):
        del j["ev"][f]
    return j


def sm_job(rng, op):
    mu, iso = rng.choice([([2, 2], True), ([1, 2], False), ([2, 1], False), ([1, 1], True)])
    ev = {"op": op, "mu": mu, "iso": iso}
    how = {}
    if op == "smgrid":
        ev["lev"] = max(mu)
        how = {"api": rng.choice(["func", "func2"]), "bounds": "default"}
    if op == "smB":
        ev.update(m=2, c=[[1, 0], [2, -1]])
    return {"ev": ev, "how": how}


@plan("C08")
def c08(tier, rng, tmp):
    T = tier == "thorough"
    seed = rng.randrange(10 ** 6)
    mcs = [model_check("MCPure.tla", "MCPure_small.cfg" if not T else "MCPure.cfg", tmp, workers=8)]
    mcs += [refute("MCPure.tla", f"MCPure_{c}.cfg", tmp, "Pure") for c in ("sticky", "memo", "byid")]
    hs = simulated("MCPure", "MCPure_hist", tmp, 900 if T else 150, 14, seed)
    others = [lambda: mk_enum(rng, [rng.choice([1, 2, 3, 4, 4, 9, 13]) for _ in range(rng.choice([1, 2, 2, 3]))], "cartesian", rng.choice("CF"), {"kind": rng.choice(["arr", "arr", "list"])}),
              lambda: mk_enum(rng, [2, 3], rng.choice(["nodes", "mlinspace"]), "C", {}),
              lambda: mk_herm(rng, [0, 1, 3], [rng.randint(-9, 9) for _ in range(3)], [rng.randint(-9, 9) for _ in range(3)], [-1, 0, 1, 2, 4], "vector", {"api": "vect"}),
              lambda: mk_cpb(rng, 2, rng.randint(0, 4), rng.choice([-1, 0, 1]), [[rng.randint(-5, 5), rng.randint(-5, 5)] for _ in range(3)], 1, "mat"),
              lambda: mk_eval(rng, [rand_dim(rng, "n", 1, 5, 4)], 1, "nearest", [], 0, [[1], [3], [-2]], "batch", {"api": "interp", "style": "list"}),
              lambda: grad_job(rng), lambda: grad_job(rng),
              lambda: mk_cpb(rng, 3, rng.randint(1, 4), rng.choice([0, 1, 2]), [[2, 3, -1]], 1, "vec"),
              lambda: {"ev": {"op": "smblock", "what": rng.choice(["a_chain", "phi_chain"]), "n": 3, "lev": 2}, "how": {}},
              lambda: {"ev": {"op": "smblock", "what": "s_n", "n": 4, "lev": 3}, "how": {}},
              lambda: sm_job(rng, "sminds"), lambda: sm_job(rng, "smgrid"), lambda: sm_job(rng, "smB"),
              lambda: {"ev": {"op": "smcheb", "m": 2, "n": 4, "c": [1, -1, 2], "sh": [3], "kind": 1}, "how": {}}]
    kinds = [("n", 1), ("un", 1), ("u", 3), ("nu", 1), ("uu", 3), ("uu", 1), ("u", 1)] + ([("nnu", 1), ("uuu", 3), ("uuu", 1)] if T else [])
    by, used = {}, 0
    for i, h in enumerate(hs):
        pat, k = kinds[i % len(kinds)]
        s = PureSession(rng, pat, k).play(h, others if i % 2 == 0 else None)
        if s:
            used += len(h)
            by.setdefault((pat, k), []).append(s)
    groups = []
    for key, ss in by.items():
        groups += bucket(ss, 4 if key[1] == 3 else 2)
    # calls with unusual layouts, read-only and shared memory: the same frame is checked by C01-C07, C10-C13
    return {"groups": groups, "mc": mcs, "from_model": used, "notes": f"{len(hs)} histories of length 14 simulated from MCPure"}


# ---------------------------------------------------------------- C14
SCALES = (1.0, 0.5, -1.0, 0.1, 1000.0, 3.0, 1e-10, 1e9)


def mono_exps(n, d):
    return [e for e in product(range(d + 1), repeat=n) if sum(e) <= d]


class FitSession:
    def __init__(self, rng, cfg):
        self.rng, self.jobs = rng, []
        self.obj, self.last = {}, {}
        self.big = 10 ** 5 if rng.random() < 0.25 else 0
        for o in (1, 2):
            n, d = cfg[o - 1]
            k = rng.choice([0, 0, 1, 2, 3])
            ms = mono_exps(n, d)
            fits = {}
            for f in (1, 2, 3):
                sub = rng.sample(ms, min(len(ms), rng.choice([1, 3, 8, 40])))
                fits[f] = [{"e": list(e), "c": [rng.randint(-9, 9) for _ in range(max(1, k))]} for e in sub]
            if rng.random() < 0.4:       # nearly the same polynomials
                for f in (2, 3):
                    fits[f] = [{"e": t["e"], "c": list(t["c"])} for t in fits[1]]
                    fits[f][rng.randrange(len(fits[f]))]["c"][-1] += f
            if self.big:
                for f in (1, 2, 3):
                    fits[f] = [t for t in fits[f] if sum(t["e"])] + [{"e": [0] * n, "c": [self.big + rng.randint(0, 3) for _ in range(max(1, k))]}]
            self.obj[o] = {"n": n, "d": d, "k": k, "fits": fits, "den": 1, "A": rng.choice(SCALES)}
            self.put({"op": "cpnew", "name": "q%d" % o, "n": n, "d": d})

    def put(self, ev, how=None, cost=0.2):
        self.jobs.append({"ev": ev, "how": how or {}, "cost": cost})

    def samples(self, n, d):
        """principal lattice (unisolvent) plus further points, shuffled, over denominator q"""
        r = self.rng
        if (n, d) in self.last and r.random() < 0.5:      # as many as before, in another order
            pts, q = self.last[n, d]
            pts = r.sample(pts, len(pts)) if r.random() < 0.7 else [p[::-1] for p in pts]
            return pts, q
        pts, q = self.samples_(n, d)
        self.last[n, d] = pts, q
        return pts, q

    def samples_(self, n, d):
        r = self.rng
        q = max(1, d)
        off = r.choice([0, 0, -(q // 2)])
        f = {1: [20, 100], 2: [5, 20], 3: [1, 3], 4: [1, 1 if n > 1 else 3]}.get(d)
        if f and not self.big and (d < 4 or n < 3) and r.random() < 0.3:      # clustered away from the origin: condition number up to 1e6
            q = d * r.choice(f)
            off = r.choice([q, -q - d])
            pts = [[x + off for x in p] for p in product(range(d + 1), repeat=n) if sum(p) <= d]
            pts += r.sample(pts, min(len(pts), r.choice([0, 2])))
            r.shuffle(pts)
            return pts, q
        pts = [[x + off for x in p] for p in product(range(d + 1), repeat=n) if sum(p) <= d]
        for _ in range(r.choice([0, 1, 5])):
            pts.append([r.randint(-q, q) for _ in range(n)])
        r.shuffle(pts)
        return pts, q

    def fit(self, o, f, a, b):
        r, ob = self.rng, self.obj[o]
        ob["den"] = 1 if a == 0 else ob["den"] * b
        if ob["den"] > 4 ** 4:
            return False
        z, q = self.samples(ob["n"], ob["d"])
        # accuracy of the fit: samples spread over the unit scale, or clustered
        rel = 1e-11 if q == max(1, ob["d"]) else 2e-8
        rel = max(rel, 1e-9) if self.big else rel
        ob["rel"] = rel if a == 0 else max(rel, ob.get("rel", 0))
        self.put({"op": "cpfit", "name": "q%d" % o, "k": ob["k"], "terms": ob["fits"][f], "damp": [a, b], "den": ob["den"]},
                 {"A": ob["A"], "q": q, "samples": z, "default": r.random() < 0.5, "lay": r.choice([None, None, "F", "S", "R"]), "dt": r.choice(["", "z", "x", "zx"]),
                  "buf": r.choice([None, "same", "same", "fresh"])})
        return True

    def eval(self, o):
        r, ob = self.rng, self.obj[o]
        n, d = ob["n"], ob["d"]
        tot = max(sum(max(map(abs, t["c"])) for t in f) for f in ob["fits"].values()) + 1
        for i in range(30):
            q = r.choice([1, 1, 2, 3])
            zm = r.choice([1, 2, 4, 9])
            if i == 0 and ob.get("zk") and r.random() < 0.5:
                q, zm = ob["zk"]
            m = max(zm, q)
            if ob["den"] * tot * m ** d * max(1, d) * q < min(2 ** 30, 0.15 / ob["rel"]) and ob["den"] * q ** d * (zm / q + 1) ** d < 2e6:
                break
        else:
            q, zm, m = 1, 1, 1
        t = 1e-4 + ob["rel"] * ob["den"] * tot * m ** d * max(1, d) * q
        form = r.choice(["vec", "mat", "mat"])
        new = lambda m: [[r.choice([0, r.randint(-zm, zm), zm]) for _ in range(n)] for _ in range(m)]
        z = new(1 if form == "vec" else r.choice([1, 2, 5]))
        if form == "mat" and (q, zm) == ob.get("zk") and r.random() < 0.6:
            z = vary_rows(r, ob["zl"], new)
        if form == "mat":
            ob["zk"], ob["zl"] = (q, zm), z
        self.put({"op": "cpeval", "name": "q%d" % o, "z": z, "q": q, "der": r.choice([-1, -1] + list(range(n))), "den": ob["den"] * q ** d, "form": form},
                 {"lay": r.choice(["C", "C", "F", "S", "R"]), "buf": r.choice([None, "same", "fresh"]), "dt": r.random() < 0.3, "t": t})
        if r.random() < 0.2:
            self.put({"op": "scribble"}, {"x": r.choice([1, 2])})

    def play(self, hist):
        live = set()
        for e in hist:
            if e["a"] == "fit":
                live.add(e["o"])
                if not self.fit(e["o"], e["f"], e["p"], e["q"]):
                    return None
            else:
                self.eval(e["o"])
        for o in sorted(live):
            self.eval(o)
            self.eval(o)
        return session(self.jobs)


@plan("C14")
def c14(tier, rng, tmp):
    T = tier == "thorough"
    seed = rng.randrange(10 ** 6)
    mcs = [model_check("MCFits.tla", "MCFits_thorough.cfg" if T else "MCFits.cfg", tmp, workers=8)]
    hs = simulated("MCFits", "MCFits_hist", tmp, 1500 if T else 260, 10, seed)
    cfgs = [(n, d) for n in (1, 2, 3) for d in range(0, 6)] + [(4, 0), (4, 1), (4, 2), (4, 3), (5, 1), (5, 2), (6, 1), (6, 2)]
    if T:
        cfgs += [(4, 4), (5, 3)]
    ss, used, c = [], 0, 0
    for h in hs:
        a, b = cfgs[c % len(cfgs)], rng.choice(cfgs)
        s = FitSession(rng, (a, b)).play(h)
        if s:
            c += 1
            used += len(h)
            ss.append(s)
    return {"groups": bucket(ss, 12), "mc": mcs, "from_model": used, "notes": f"{len(ss)} fit histories replayed"}


# ---------------------------------------------------------------- C16
def sm_level(k):
    return 1 if k == 0 else 2 if k <= 2 else (k - 1).bit_length() + 1


def sm_degrees(mu):
    d, m = len(mu), max(mu)
    rngs = [range(2 ** mj + 1) for mj in mu]
    return [k for k in product(*rngs) if sum(map(sm_level, k)) <= d + m]


FLAGS = [list(f) for f in product([True, False], repeat=4) if any(f)]


class SmSession:
    def __init__(self, rng, mu, iso):
        self.rng, self.jobs, self.mu, self.iso = rng, [], mu, iso
        self.deg = sm_degrees(mu)
        self.terms, self.bounds, self.amp = {}, {}, {}
        self.lastc = None
        self.shared = rng.random() < 0.4
        b = rand_bounds(rng, len(mu))
        self.bounds = {1: b, 2: b if self.shared else rand_bounds(rng, len(mu))}
        self.big = 300000 if max(mu) <= 2 and rng.random() < 0.3 and max(self.cond(1), self.cond(2)) < 2000 else 0

    def cond(self, o):
        b, d = self.bounds[o], len(self.mu)
        lb, ub = ([-1.0] * d, [1.0] * d) if b == "default" else [x if isinstance(x, list) else [x] * d for x in b]
        return max((abs(p) + abs(q)) / (q - p) for p, q in zip(lb, ub))

    def put(self, ev, how=None, cost=0.3):
        self.jobs.append({"ev": ev, "how": how or {}, "cost": cost})

    def poly(self):
        """(a constant of great magnitude is kept by a session that has one)"""
        return self.poly_() + ([{"k": [0] * len(self.mu), "c": self.big}] if self.big else [])

    def poly_(self):
        r = self.rng
        if r.random() < 0.35:      # of low degree
            ks = [k for k in self.deg if sum(k) <= r.choice([1, 2, 2])]
            ks = r.sample(ks, min(len(ks), r.choice([1, 2, 4, 8])))
            return [{"k": list(k), "c": r.choice([-3, -1, 1, 2, 5])} for k in ks]
        ks = r.sample(self.deg, min(len(self.deg), r.choice([1, 2, 4, 8])))
        top = max(self.deg, key=sum)
        if r.random() < 0.5 and top not in ks:
            ks[0] = top
        return [{"k": list(k), "c": r.randint(-9, 9)} for k in ks]

    def near(self, t):
        """almost the same polynomial"""
        r, t = self.rng, [dict(x) for x in t]
        j = r.randrange(len(t) - bool(self.big)) if len(t) > 1 else 0
        t[j]["c"] += r.choice([-1, 1])
        if r.random() < 0.2:
            t = [dict(x, c=-x["c"]) for x in t]
        return t

    def fit(self, o):
        r = self.rng
        t = self.near(self.terms[o]) if o in self.terms and r.random() < 0.4 else self.poly()
        self.amp[o] = A = self.amp[o] if o in self.amp and r.random() < 0.6 else r.choice(SCALES)
        mem = {"buf": r.choice([None, "same", "same", "fresh"]), "shared": self.shared and r.random() < 0.7, "vlay": r.choice(["C", "C", "S", "R"])}
        if o not in self.terms:
            self.put({"op": "smnew", "name": "s%d" % o, "mu": self.mu, "iso": self.iso, "terms": t},
                     {"A": A, "bounds": self.bounds[o], "gridname": "shared" if self.shared else "s%d" % o, "arr": r.random() < 0.5,
                      "muarr": r.random() < 0.5, "scribble": r.random() < 0.5, **mem})
        else:
            self.put({"op": "smupd", "name": "s%d" % o, "terms": t}, {"A": A, "scribble": r.random() < 0.3, **mem})
        self.terms[o] = t

    def eval(self, o, flags=None):
        r, mu = self.rng, self.mu
        deg = 2 ** max(mu)
        cond = self.cond(o)
        cm = sum(abs(t["c"]) for t in self.terms[o]) + 1
        ok = [m for m in (1, 2, 3, 4) if m ** deg * cm * deg ** 2 < 2 ** 30
              and 1e-6 + 1e-12 * float(m) ** deg * cm * (5 + cond) * 16 ** max(mu) < 0.2]
        m = r.choice(ok) if ok else 1
        n = r.choice([1, 2, 4, 3, len(mu)])
        low = max(1, max(sum(t["k"]) for t in self.terms[o]))
        if low <= 2 and not self.big and r.random() < 0.7 and (flags is None or not flags[2]):
            self.eval_fine(o, low, cm, cond, flags)
            return
        # the top derivative of T_k grows like k^2; keep the numerators inside TLC's integers
        new = lambda j: [[r.randint(-m, m) for _ in mu] for _ in range(j)]
        c = new(n)
        if self.lastc and r.random() < 0.6 and self.lastc[0] in ok:      # close to the points asked for before
            m = self.lastc[0]
            c = vary_rows(r, self.lastc[1], new)
        self.lastc = (m, c)
        self.put({"op": "smeval", "name": "s%d" % o, "mu": mu, "c": c, "m": m, "flags": flags or r.choice(FLAGS)},
                 {"terms": self.terms[o], "default": r.random() < 0.5, "lay": r.choice(["C", "C", "F", "S", "R"]),
                  "buf": r.choice([None, "same", "fresh"]), "dt": r.random() < 0.5})
        if r.random() < 0.2:
            self.put({"op": "scribble"}, {"x": r.choice([1, 1, 2, 3])})

    def eval_fine(self, o, deg, cm, cond, flags):
        """points on a fine lattice: close to the centre, the bounds and the nodes"""
        r, mu = self.rng, self.mu
        ok = [m for m in (3, 10, 100, 700, 3000, 20000, 10 ** 5) if m ** deg * cm * 4 < 2 ** 29
              and 1e-6 + 1e-12 * float(m) ** deg * cm * (5 + cond) * 16 * 4 ** max(mu) < 0.2]
        m = r.choice(ok[-2:]) if ok else 1

        def co():
            e = r.choice([0, 1, 1, 2, 3, r.randint(0, m // 300 + 1)]) * r.choice([-1, 1])
            nd = round(-m * math.cos(math.pi * r.randrange(2 ** max(mu) + 1) / 2 ** max(mu)))
            x = r.choice([0, 0, -m, m, nd, r.randint(-m, m)]) + e
            return min(max(x, -m), m)
        c = [[co() for _ in mu] for _ in range(r.choice([1, 2, 4, 7]))]
        self.put({"op": "smeval", "name": "s%d" % o, "mu": mu, "c": c, "m": m, "deg": deg, "flags": flags or r.choice([f for f in FLAGS if not f[2]])},
                 {"terms": self.terms[o], "default": r.random() < 0.5, "lay": r.choice(["C", "C", "F", "S", "R"]), "buf": r.choice([None, "same", "fresh"])})

    def play(self, hist):
        for e in hist:
            if e["a"] == "fit":
                self.fit(e["o"])
            else:
                self.eval(e["o"])
        for o in sorted(self.terms):
            self.eval(o)
        return session(self.jobs)


@plan("C16")
def c16(tier, rng, tmp):
    T = tier == "thorough"
    seed = rng.randrange(10 ** 6)
    mcs = [model_check("MCFits.tla", "MCFits.cfg", tmp, workers=8)]
    mcs.append(model_check("MCSmolyak.tla", "MCSmolyak_thorough.cfg" if T else "MCSmolyak.cfg", tmp, {"GEN_FILE": os.path.join(tmp, "gs.ndjson")}, 4))
    mus = [json.loads(l) for l in open(os.path.join(tmp, "gs.ndjson"))]
    hs = simulated("MCFits", "MCFits_upd", tmp, 400 if T else 70, 10, seed)
    ss = []
    pool = [(mu, True) if len(set(mu)) == 1 and rng.random() < 0.7 else (mu, False) for mu in mus if max(mu) <= 4 and len(sm_degrees(mu)) <= 150]
    rng.shuffle(pool)
    for i, h in enumerate(hs):
        if i < len(pool):
            mu, iso = pool[i]
        else:
            mu, iso = rand_mu(rng)
            mu = [min(x, 3) for x in mu]
        ss.append(SmSession(rng, mu, iso).play(h))
    # every combination of outputs on one isotropic and one anisotropic grid
    for mu, iso in (([2, 2], True), ([1, 3], False), ([2, 1, 2], False), ([3, 3], True)):
        s = SmSession(rng, mu, iso)
        s.fit(1)
        for f in FLAGS:
            s.eval(1, f)
        ss.append(session(s.jobs))
    groups = bucket(ss, 16)
    nodes = []
    for i in range(40 if not T else 250):
        mu, iso = rand_mu(rng)
        if sum(mu) > 12:
            mu = [min(x, 3) for x in mu]
        iso = iso and len(set(mu)) == 1
        nodes.append({"ev": {"op": "smnodes", "mu": mu, "iso": iso, "val": {"gen": [rng.randint(1, 5), rng.randint(1, 40), rng.randint(0, 50), 97, 48]}},
                      "how": {"bounds": rand_bounds(rng, len(mu)), "A": rng.choice(A_POOL)}, "cost": 0.3})
        if rng.random() < 0.3:
            nodes[-1]["how"].update(A=1.0, vdt=rng.choice(["I", "list"]))
    groups += [nodes[i::4] for i in range(4)]
    return {"groups": groups, "mc": mcs, "from_model": sum(len(h) for h in hs), "notes": f"{len(ss)} histories of value updates"}
