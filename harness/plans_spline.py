import json, os
from itertools import product
from plans import plan
from gen import *
from tlc import model_check

FORMS = [  # (form, how) for functional evaluation; vv: None any, 0 scalar only, 1 vector only
    ("batch", {}, None), ("batch", {"out": "plain"}, None), ("point", {"pt": "tuple"}, None),
    ("point", {"pt": "arr"}, None), ("point", {"pt": "arr", "out": "plain"}, 1), ("point", {"pt": "tuple", "out": "plain"}, 1),
]


def key(*a):
    return json.dumps(a, sort_keys=True)


def jkey(job):
    e, h = job["ev"], job["how"]
    return key([g["t"] for g in e["dims"]], e["k"], e["mode"], e["orders"], e["nx"] > 0, e["form"],
               h.get("api"), h.get("pt"), h.get("out", "none") != "none", h.get("Clay"), h.get("Play"), h.get("njit"), h.get("style"))


WIDE = [4, 5, 6, 7, 8, 9, 11, 15, 16, 17, 24, 31, 32, 33, 40, 64, 65, 100, 128]


def ncomp(rng, d=1):
    """number of components: mostly few, sometimes many"""
    return rng.choice([1, 2, 3]) if rng.random() < 0.75 else rng.choice(WIDE[:6] if d > 2 else WIDE)


def npts_for(form, rng, hi=16):
    return 1 if form == "point" else rng.choice([1, 2, 3, rng.randint(4, hi)])


def model_calls(cfg, tmp, workers=4):
    gf = os.path.join(tmp, "gen_" + cfg + ".ndjson")
    mc = model_check("MCKernel.tla", f"MCKernel_{cfg}.cfg", tmp, {"GEN_FILE": gf}, workers)
    return mc, [json.loads(l) for l in open(gf)]


def add(G, job):
    if job is not None:
        G.put(jkey(job), job)


def realise(rng, c, form="batch", how=None, emb=None, A=None, ptidx=None):
    """a model call as a job"""
    pts = c["pts"] if ptidx is None else [c["pts"][ptidx]]
    return mk_eval(rng, c["dims"], c["k"], c["mode"], c["orders"], c["nx"], pts, form, how or {}, arr=c["arr"], emb=emb, A=A,
                   cost=cost(len(c["dims"]), c["k"], c["orders"]))


def affine_events(G, rng, pats, k, modes, where, reps, ol=((),), big=3, api=None):
    """very fine coordinates"""
    for pat in pats:
        for mode in modes:
            for orders in ol:
                o = [list(x) for x in orders(len(pat))] if callable(orders) else []
                for nx, form, h in ((0, "batch", {}), (0, "point", {"pt": "tuple"}), (2, "batch", {})):
                    if len(pat) > big and (nx or form == "point") or nx and api:
                        continue
                    for _ in range(reps):
                        add(G, mk_affine(rng, pat, k, mode, o, nx, form, dict(h, **(api or {})), where=where))


def patterns(tier):
    p = ["u", "n", "uu", "un", "nu", "nn", "uuu", "nun", "unu", "nnn", "uuuu", "nuun", "ununu"]
    if tier == "thorough":
        p += ["uun", "nuu", "unn", "nnu", "nnnn", "unun", "uuuuu", "nunun", "uuuuuu"]
    return p


def dims_of(rng, pat, k=1, hmax=None, nmax=None):
    d = len(pat)
    hm = hmax or [60, 24, 9, 6, 4, 3][d - 1]
    nm = nmax or [9, 7, 5, 4, 3, 3][d - 1]
    return [rand_dim(rng, t, k, nm, rng.choice([1, 2, hm, hm])) for t in pat]


@plan("C01")
def c01(tier, rng, tmp):
    mc, calls = model_calls("Linear", tmp)
    mt = model_check("MCTheory.tla", "MCTheory_k1.cfg", tmp)
    G = Groups()
    nm = 0
    for c in calls:       # every model call: batch through the main and the alternative evaluator, and two single points
        for how in ({"api": "eval_spline"}, {"api": "eval_linear", "modestyle": "default"}):
            add(G, realise(rng, c, "batch", how)); nm += 1
        if c["nx"] == 0:
            add(G, realise(rng, c, "batch", {"api": "mlinterp"})); nm += 1
        for _ in range(3):
            add(G, realise(rng, c, "point", {"api": "eval_spline", "pt": "tuple"}, ptidx=rng.randrange(len(c["pts"])))); nm += 1
    reps = 4 if tier == "quick" else 14
    for pat in patterns(tier):
        for form, h, vv in FORMS:
            for nx in (0, 3):
                if vv is not None and vv != (nx > 0):
                    continue
                if len(pat) >= 5 and (form == "point" and h.get("out") or tier == "quick" and (h.get("out") or h.get("pt") == "arr")):
                    continue
                for _ in range(reps):
                    dims = dims_of(rng, pat)
                    n = rng.choice([0, 1, 2, 1, 4, ncomp(rng)]) if nx else 0
                    n = max(1, n) if nx else 0
                    pts = rand_pts(rng, dims, npts_for(form, rng), "in")
                    add(G, mk_eval(rng, dims, 1, "linear", [], n, pts, form, dict(h, api="eval_spline"), cost=cost(len(pat), 1)))
    # other public evaluators of the same function
    for pat in ["u", "uu", "uuu", "uuuu"]:
        for _ in range(reps):
            dims = dims_of(rng, pat)
            for api, nx, outs in (("multilinear_interpolation", 0, ("none", "plain")), ("vec_multilinear_interpolation", 2, ("none", "plain")),
                                  ("LinearSpline", 0, ("none",)), ("LinearSplines", 3, ("none",))):
                for o in outs:
                    pts = rand_pts(rng, dims, rng.randint(1, 9), "in")
                    add(G, mk_eval(rng, dims, 1, "linear", [], nx, pts, "batch", {"api": api, "out": o}, cost=0.5))
                if api == "LinearSpline":
                    add(G, mk_eval(rng, dims, 1, "linear", [], nx, rand_pts(rng, dims, 1, "in"), "point", {"api": api, "pt": "arr"}, cost=0.5))
                if api == "LinearSplines":
                    add(G, mk_eval(rng, dims, 1, "linear", [], nx, rand_pts(rng, dims, 1, "in"), "point", {"api": api, "pt": "arr"}, cost=0.5))
    for pat in ["u", "n", "uu", "un", "nn", "unu", "nnn", "nuun"]:
        for form, h in (("batch", {}), ("point", {"pt": "tuple"})):
            for _ in range(reps):
                dims = dims_of(rng, pat)
                pts = rand_pts(rng, dims, npts_for(form, rng), "in")
                add(G, mk_eval(rng, dims, 1, "linear", [], 0, pts, form, dict(h, api="mlinterp"), cost=0.5))
        for modest in ("opt", "default"):
            for nx in (0, 2):
                dims = dims_of(rng, pat)
                pts = rand_pts(rng, dims, rng.randint(2, 12), "in")
                add(G, mk_eval(rng, dims, 1, "linear", [], nx, pts, "batch", {"api": "eval_linear", "modestyle": modest}, cost=0.5))
    for j in big_events(rng, 1, ["u", "n"], "linear", "in", tier):
        add(G, j)
    affine_events(G, rng, ["u", "n", "uu", "un", "nn", "unu", "nuun"], 1, ["linear"], "in", reps)
    fine_events(G, rng, ["u", "n", "uu", "nu"], 1, ["linear"], "in")
    fine_events(G, rng, ["u", "n", "nu"], 1, ["linear"], "in", nxs=(0,), apis=({"api": "mlinterp"}, {"api": "eval_linear", "modestyle": "default"}))
    fine_events(G, rng, ["u", "uu"], 1, ["linear"], "in", nxs=(0,), apis=({"api": "multilinear_interpolation"}, {"api": "LinearSpline"}))
    for pat in ("u", "nu"):
        for nx in (0, 2):
            add(G, very_long(rng, pat, 1, "linear", "in", nx=nx))
    return {"groups": G.lists(), "mc": [mc, mt], "from_model": nm,
            "notes": "grid patterns u/n per dimension: " + " ".join(patterns(tier))}


def big_events(rng, k, pats, mode, where, tier, nx=0, orders=()):
    """many nodes, fine barycentric coordinates, long unsorted batches"""
    out = []
    orders = [list(o) for o in orders]
    for t in pats:
        # many nodes
        n = rng.choice([257, 1000, 1025])
        if t == "u":
            g = {"t": "u", "a": -3, "h": 2, "n": n}
        else:
            x = [-5]
            for i in range(n - 1):
                x.append(x[-1] + rng.choice([1, 2, 3]))
            g = {"t": "n", "x": x, "D": 6}
        pts = rand_pts(rng, [g], 40, where)
        arr = rand_arr(rng, coef_shape(k, [g], nx), 40, explicit=False)
        out.append(mk_eval(rng, [g], k, mode, orders, nx, pts, "batch", {"api": "eval_spline"}, arr=arr))
        # long batch, order of points scrambled
        g = rand_dim(rng, t, k, 9, 12)
        pts = rand_pts(rng, [g], 23, where)
        N = rng.choice([1000, 2048, 1537])
        out.append(mk_eval(rng, [g], k, mode, orders, nx, pts, "batch", {"api": "eval_spline"},
                           tile={"n": N, "g": [rng.randint(1, 9), rng.randint(1, 30), rng.randint(0, 9)]}))
        out.append(mk_eval(rng, [g], k, mode, orders, nx, pts, "batch", {"api": "eval_spline", "out": "plain"},
                           tile={"n": N + 1, "g": [rng.randint(1, 9), rng.randint(1, 30), rng.randint(0, 9)]}))
        # empty batch
        out.append(mk_eval(rng, [g], k, mode, orders, nx, [], "batch", {"api": "eval_spline"}))
        # fine coordinates
        if t == "u":
            h = 2 ** 20 if k == 1 else rng.choice([500, 1500])
            g = {"t": "u", "a": 0, "h": h, "n": 4}
        else:
            g = {"t": "n", "x": [0, 2 ** 18, 3 * 2 ** 18, 2 ** 20], "D": 2 ** 19}
        H = hi(g)
        pts = [[p] for p in (0, 1, 2, h - 1 if t == "u" else 2 ** 18 - 1, node(g, 1), node(g, 1) + 1, H - 1, H, H // 2, H // 3, H // 7)]
        pts += [[rng.randint(0, H)] for _ in range(8)]
        if where != "in":
            pts += [[-1], [H + 1], [-mingap(g) * 2 - 7], [H + mingap(g) + 3]]
        out.append(mk_eval(rng, [g], k, mode, orders, nx, pts, "batch", {"api": "eval_spline"}, cmax=20))
        # spacings spread over several orders of magnitude
        if t == "n":
            g = {"t": "n", "x": [0, 1, 3, 4, 604, 605, 5605, 5606, 8606], "D": 15000}
            pts = [[node(g, i)] for i in range(9)] + [[rng.randint(0, 8606)] for _ in range(20)]
            if where != "in":
                pts += [[-1], [8607], [-3], [9000]]
            out.append(mk_eval(rng, [g], k, mode, orders, nx, pts, "batch", {"api": "eval_spline"}))
    return [j for j in out if j]


def fine_dims(rng, pat, k):
    """many nodes and a fine lattice at the same time"""
    d = len(pat)
    dims = []
    for i, t in enumerate(pat):
        last = d == 1 or i == rng.randrange(d)
        if k == 1:
            h = 2 ** rng.choice([13, 14, 15]) if d == 1 else 2 ** rng.choice([7, 8])
            n = rng.choice([301, 1000, 2049, 4097]) if d == 1 else rng.choice([40, 129]) if last else rng.choice([5, 17])
        else:
            h = rng.choice([60, 100, 128]) if d == 1 else rng.choice([8, 10])
            n = rng.choice([101, 256, 1025]) if d == 1 else rng.choice([30, 65]) if last else rng.choice([4, 9])
        if t == "u":
            dims.append({"t": "u", "a": rng.choice([0, 0, -h * (n // 2), 7]), "h": h, "n": n})
        else:
            n = min(n, 600)
            x = [rng.choice([0, -h * (n // 2)])]
            for _ in range(n - 1):
                x.append(x[-1] + rng.choice([h, h // 2, h, h // 4]))
            dims.append({"t": "n", "x": x, "D": h})
    return dims


def fine_coord(rng, g, where):
    L, H, m = lo(g), hi(g), mingap(g)
    nd = node(g, rng.choice([0, 1, size(g) - 2, size(g) - 1] + [rng.randrange(size(g)) for _ in range(6)]))
    e = rng.choice([0, 1, 1, 2, 3, m // 100, m // 30, m // 8])
    p = nd + rng.choice([-1, 1]) * e
    if rng.random() < 0.3:
        p = rng.randint(L, H)
    if where == "in":
        p = min(max(p, L), H)
    elif rng.random() < 0.15:
        p = rng.choice([L - 1, H + 1, L - m // 3, H + m // 3, L - 3 * m, H + 2 * m])
    return p


def fine_events(G, rng, pats, k, modes, where, orders=None, nxs=(0, 2), apis=({"api": "eval_spline"},), npts=40, singles=6):
    """points very close to the nodes of grids with many nodes: a wrong cell shows"""
    for pat in pats:
        for mode in modes:
            o = [] if orders is None else orders(len(pat))
            for nx in nxs:
                for how in apis:
                    dims = fine_dims(rng, pat, k)
                    sh = coef_shape(k, dims, nx)
                    arr = rand_arr(rng, sh, 40, explicit=False)
                    pts = [[fine_coord(rng, g, where) for g in dims] for _ in range(npts)]
                    add(G, mk_eval(rng, dims, k, mode, o, nx, pts, "batch", dict(how), arr=arr, cost=cost(len(pat), k, o)))
                    if how.get("api") in ("eval_spline", "mlinterp", "eval_linear", "eval_cubic", "LinearSpline"):
                        for p in pts[:singles]:
                            h = {"pt": "arr" if how["api"] == "LinearSpline" else "tuple"}
                            add(G, mk_eval(rng, dims, k, mode, o, nx, [p], "point", dict(how, **h), arr=arr, cost=cost(len(pat), k, o)))


def very_long(rng, pat, k, mode, where, orders=(), nx=0, N=None, **how):
    """a batch of many thousand points"""
    dims = dims_of(rng, pat) if k == 1 else cub_dims(rng, len(pat))
    N = N or rng.choice([5000, 8193, 10007])
    return mk_eval(rng, dims, k, mode, [list(x) for x in orders], nx, rand_pts(rng, dims, 29, where), "batch", dict({"api": "eval_spline"}, **how),
                   tile={"n": N, "g": [rng.randint(1, 9), rng.randint(1, 30), rng.randint(0, 9)]}, cost=cost(len(pat), k, orders))


def far_events(G, rng, pats, k, reps, apis=({"api": "eval_spline"},), nxs=(0, 2), forms=None, orders=None):
    for pat in pats:
        d = len(pat)
        for how in apis:
            for nx in nxs:
                for form, h in forms or (("batch", {}), ("point", {"pt": "tuple"})):
                    for _ in range(reps):
                        dims = dims_of(rng, pat, hmax=None) if k == 1 else cub_dims(rng, d)
                        o = orders(d) if orders else []
                        pts = rand_pts(rng, dims, 1 if form == "point" else rng.choice([1, 3, 6]), "any")
                        add(G, mk_far(rng, dims, k, o, nx, pts, form, dict(how, **h), cost(d, k, o)))


def forms_for(nx, orders):
    """call forms that exist for scalar/vector values with/without derivatives"""
    f = [("batch", {}), ("batch", {"out": "plain"}), ("point", {"pt": "tuple"}), ("point", {"pt": "arr"})]
    if nx or orders:
        f += [("point", {"pt": "arr", "out": "plain"}), ("point", {"pt": "tuple", "out": "plain"})]
    return f


ENV4 = {"NUMBA_OPT": "0"}


def lists_env(G, heavy=()):
    """group lists; groups with 4-d cubic code are compiled without optimisation"""
    out = []
    for k, js in G.items():
        e = js[0]["ev"]
        if (e.get("k") == 3 or e["op"] == "grad") and len(e["dims"]) == 4:
            for j in js:
                j["env"] = ENV4
        out.append(js)
    return out


def cub_dims(rng, d, hs=None, nmax=None, big=False):
    hm = hs or [9, 5, 3, 2][d - 1]
    nm = nmax or [8, 6, 4, 3][d - 1]
    return [rand_dim(rng, "u", 3, nm, rng.choice([1, 2, hm])) for _ in range(d)]


@plan("C02")
def c02(tier, rng, tmp):
    mc, calls = model_calls("Policy", tmp, 8)
    G = Groups()
    nm = 0
    for c in calls:
        forms = [("batch", {"api": "eval_spline"})]
        if c["nx"] == 0 and len(c["dims"]) <= 2:
            forms.append(("batch", {"api": "eval_linear" if c["k"] == 1 else "eval_cubic", "modestyle": "opt"}))
        for form, h in forms:
            add(G, realise(rng, c, form, h)); nm += 1
        for _ in range(4):
            add(G, realise(rng, c, "point", {"api": "eval_spline", "pt": "tuple"}, ptidx=rng.randrange(len(c["pts"])))); nm += 1
    T = tier == "thorough"
    reps = 3 if not T else 10
    modes = ("linear", "nearest", "constant")

    def some(dims_f, k, mode, orders, nx, form, h, n=reps, c=1):
        for _ in range(n):
            dims = dims_f()
            m = ncomp(rng) if nx else 0
            pts = rand_pts(rng, dims, npts_for(form, rng, 14), "any")
            if mode != "linear" and rng.random() < 0.35 and pts:      # infinitely far away
                for p in pts[:2]:
                    p[rng.randrange(len(p))] = rng.choice([INF, -INF])
            add(G, mk_eval(rng, dims, k, mode, orders, m, pts, form, dict({"api": "eval_spline"}, **h), cost=c))

    for pat in (["u", "n", "uu", "nu", "nn", "uuu", "nun"] + (["un", "uuuu", "nuun", "unn", "nnnn", "uuuuu"] if T else ["uuuu"])):
        for mode in modes:
            for nx in (0, 1):
                for form, h in forms_for(nx, []):
                    if len(pat) > 3 and (h.get("out") or h.get("pt") == "arr") and not T:
                        continue
                    some(lambda: dims_of(rng, pat), 1, mode, [], nx, form, h, c=cost(len(pat), 1))
        # derivative slots under each policy
        for mode in ("nearest", "constant"):
            for nx, form, h in ((0, "batch", {}), (0, "point", {"pt": "tuple"}), (0, "point", {"pt": "arr", "out": "plain"}), (1, "point", {"pt": "arr", "out": "plain"}),
                                (1, "batch", {"out": "plain"}), (1, "point", {"pt": "tuple"})):
                if len(pat) <= (4 if T else 2):
                    o = [[1] + [0] * (len(pat) - 1), [0] * len(pat), [0] * (len(pat) - 1) + [1]]
                    some(lambda: dims_of(rng, pat), 1, mode, o, nx, form, h, n=3, c=cost(len(pat), 1, o))
    for d in (1, 2, 3, 4):
        for mode in modes:
            for nx in (0, 1):
                fl = forms_for(nx, [])
                if d == 3 and not T:
                    fl = [("batch", {}), ("point", {"pt": "tuple"})] if nx == 0 else [("batch", {"out": "plain"}), ("point", {"pt": "arr", "out": "plain"})]
                if d == 4 and not T:
                    fl = [("batch", {})] if nx == 0 and mode != "linear" else [("point", {"pt": "tuple"})] if mode == "linear" and nx == 0 else []
                for form, h in fl:
                    some(lambda: cub_dims(rng, d), 3, mode, [], nx, form, h, c=cost(d, 3))
            if d <= 2:
                o = [[1] + [0] * (d - 1), [0] * d]
                for nx, form, h in ((0, "batch", {}), (0, "point", {"pt": "tuple"}), (1, "point", {"pt": "arr", "out": "plain"})):
                    if mode != "linear":
                        some(lambda: cub_dims(rng, d), 3, mode, o, nx, form, h, n=2, c=cost(d, 3, o))
    # naming the policy by the option objects
    for api, k in (("eval_linear", 1), ("eval_cubic", 3)):
        for d in (1, 2) if not T else (1, 2, 3):
            for mode in modes:
                for nx, form, h in ((0, "point", {"pt": "tuple"}), (1, "batch", {"out": "plain"}), (0, "batch", {"out": "plain"}), (1, "point", {"pt": "arr"}),
                                    (1, "point", {"pt": "arr", "out": "plain"})):
                    for ms in (("opt", "default") if mode == "linear" else ("opt",)):
                        some(lambda: dims_of(rng, "un"[:d] if k == 1 else "uuu"[:d]) if k == 1 else cub_dims(rng, d), k, mode, [], nx, form,
                             dict(h, api=api, modestyle=ms), n=2, c=cost(d, k))
    affine_events(G, rng, ["u", "n", "uu", "nu"] + (["nun"] if T else []), 1, modes, "any", reps)
    affine_events(G, rng, ["u", "uu"] + (["uuu"] if T else []), 3, modes, "any", reps, big=1 if not T else 2)
    fine_events(G, rng, ["u", "n"] + (["un"] if T else []), 1, modes, "any", singles=10)
    fine_events(G, rng, ["u"] + (["uu"] if T else []), 3, modes, "any", singles=10)
    for mode in modes:
        add(G, very_long(rng, "un", 1, mode, "any", nx=1))
        add(G, very_long(rng, "u", 3, mode, "any"))
    far_events(G, rng, ["u", "n", "uu", "un", "unu"] + (["uuuu", "nun"] if T else []), 1, reps)
    far_events(G, rng, ["u", "uu"] + (["uuu"] if T else []), 3, reps)
    far_events(G, rng, ["u"], 1, reps, ({"api": "eval_linear", "modestyle": "opt"}, {"api": "eval_linear", "modestyle": "default"}), nxs=(0,))
    far_events(G, rng, ["u"], 3, reps, ({"api": "eval_cubic", "modestyle": "opt"}, {"api": "eval_cubic", "modestyle": "default"}), nxs=(0,))
    # far away and long batches
    for mode in modes:
        for k in (1, 3):
            for j in big_events(rng, k, ["u", "n"] if k == 1 else ["u"], mode, "any", tier):
                add(G, j)
            for _ in range(3):
                g = rand_dim(rng, "u", k, 5, 2)
                pts = [[lo(g) - 10 ** e] for e in (2, 4)] + [[hi(g) + 10 ** e] for e in (1, 3, 4)]
                add(G, mk_eval(rng, [g], k, mode, [], 0, pts, "batch", {"api": "eval_spline"}, cmax=20))
    return {"groups": lists_env(G), "mc": [mc], "from_model": nm}


@plan("C04")
def c04(tier, rng, tmp):
    mc, calls = model_calls("Cubic", tmp)
    mt = model_check("MCTheory.tla", "MCTheory_k3.cfg", tmp)
    G = Groups()
    nm = 0
    T = tier == "thorough"
    for c in calls:
        for how in ({"api": "eval_spline"}, {"api": "eval_cubic", "modestyle": "default"},
                    {"api": "vec_eval_cubic_spline" if c["nx"] == 0 else "vec_eval_cubic_splines"}):
            add(G, realise(rng, c, "batch", how)); nm += 1
        for _ in range(4):
            add(G, realise(rng, c, "point", {"api": "eval_spline", "pt": "tuple"}, ptidx=rng.randrange(len(c["pts"])))); nm += 1
    reps = 5 if not T else 16
    for d in (1, 2, 3, 4):
        for nx in (0, 1):
            for form, h in forms_for(nx, []):
                if d == 4 and not T and not (h in ({}, {"pt": "tuple"}) and nx == 0 or nx == 1 and h == {"out": "plain"} and form == "batch"):
                    continue
                if d == 3 and not T and h.get("pt") == "tuple" and h.get("out"):
                    continue
                for i in range(reps):
                    dims = cub_dims(rng, d, hs=[40, 16, 6, 3][d - 1] if i % 2 else None)
                    m = ncomp(rng) if nx else 0
                    pts = rand_pts(rng, dims, npts_for(form, rng, 14), "in")
                    add(G, mk_eval(rng, dims, 3, "linear", [], m, pts, form, dict({"api": "eval_spline"}, **h), cost=cost(d, 3)))
    for d in (1, 2, 3) if not T else (1, 2, 3, 4):
        for api, nx, form, h in (("eval_cubic", 0, "batch", {"modestyle": "default"}), ("eval_cubic", 1, "batch", {"modestyle": "default", "out": "plain"}),
                                 ("eval_cubic", 0, "point", {"modestyle": "default", "pt": "arr"}),
                                 ("vec_eval_cubic_spline", 0, "batch", {}), ("vec_eval_cubic_spline", 0, "batch", {"out": "plain"}),
                                 ("vec_eval_cubic_splines", 1, "batch", {}), ("vec_eval_cubic_splines", 1, "batch", {"out": "plain"}),
                                 ("eval_cubic_spline", 0, "point", {"pt": "arr"}), ("eval_cubic_splines", 1, "point", {"pt": "arr"}),
                                 ("eval_cubic_splines", 1, "point", {"pt": "arr", "out": "plain"})):
            if d == 3 and not T and api == "eval_cubic":
                continue
            for _ in range(3):
                dims = cub_dims(rng, d)
                pts = rand_pts(rng, dims, npts_for(form, rng, 10), "in")
                add(G, mk_eval(rng, dims, 3, "linear", [], 2 if nx else 0, pts, form, dict(h, api=api), cost=cost(d, 3) * .7))
    for j in big_events(rng, 3, ["u"], "linear", "in", tier):
        add(G, j)
    affine_events(G, rng, ["u", "uu", "uuu", "uuuu"], 3, ["linear"], "in", reps, big=2 if not T else 3)
    fine_events(G, rng, ["u", "uu"], 3, ["linear"], "in")
    fine_events(G, rng, ["u"], 3, ["linear"], "in", apis=({"api": "eval_cubic", "modestyle": "default"},))
    fine_events(G, rng, ["u"], 3, ["linear"], "in", nxs=(0,), apis=({"api": "vec_eval_cubic_spline"},))
    add(G, very_long(rng, "u", 3, "linear", "in"))
    add(G, very_long(rng, "uu", 3, "linear", "in", nx=2))
    # values -> prefilter -> evaluate
    for d in (1, 2, 3, 4):
        for nx in (0, 2):
            if d == 4 and nx and not T:
                continue
            for i in range(reps + 2):
                G.put(("comp", d, nx), mk_comp(rng, d, nx and rng.choice([nx, nx, ncomp(rng) if d < 3 else nx]), "func"))
                G.put(("comp", d, nx), mk_nodes(rng, d, nx, "func"))
            if d <= 3:
                for i in range(3):
                    G.put(("comp", d, nx, "obj"), mk_comp(rng, d, nx, "obj"))
                    G.put(("comp", d, nx, "obj"), mk_nodes(rng, d, nx, "obj"))
                    G.put(("comp", d, nx, "obj"), mk_nodes(rng, d, nx, "obj", vlay=rng.choice(["I", "4"])))
    return {"groups": lists_env(G), "mc": [mc, mt], "from_model": nm}


def node_values6(ci, nsh, nx):
    """6^d x node values of the natural spline with interior coefficients ci (flat, C order)"""
    nc = max(1, nx)

    def get(ix, x):   # extended index -> coefficient
        tot = 0
        stack = [(0, 0, 1)]
        while stack:
            j, acc, wt = stack.pop()
            if j == len(nsh):
                tot += wt * ci[acc * nc + x]
                continue
            n, e = nsh[j], ix[j] - 1
            if e < 0:
                stack += [(j + 1, acc * n, 2 * wt), (j + 1, acc * n + 1, -wt)]
            elif e >= n:
                stack += [(j + 1, acc * n + n - 1, 2 * wt), (j + 1, acc * n + n - 2, -wt)]
            else:
                stack.append((j + 1, acc * n + e, wt))
        return tot
    from itertools import product
    out = []
    cache = {}
    for ix in product(*[range(n) for n in nsh]):
        for x in range(nc):
            s = 0
            for off in product((0, 1, 2), repeat=len(nsh)):
                w = 1
                for o in off:
                    w *= 4 if o == 1 else 1
                k = (tuple(a + b for a, b in zip(ix, off)), x)
                if k not in cache:
                    cache[k] = get(*k)
                s += w * cache[k]
            out.append(s)
    return out


def mk_comp(rng, d, nx, via, nmax=None, where="any", npts=6, **how):
    dims = cub_dims(rng, d, hs=[4, 3, 2, 1][d - 1], nmax=nmax or [8, 5, 4, 3][d - 1])
    nsh = [size(g) for g in dims]
    ci = [rng.randint(-20, 20) for _ in range(math.prod(nsh) * max(1, nx))]
    pts = rand_pts(rng, dims, npts, where)
    cm = 20 * 3 ** d
    emb, b = fit_emb(rng, dims, 3, "linear", pts, cm)
    if emb is None:
        return None
    ring = "z" if b < 1e9 else "m"
    return {"ev": {"op": "comp", "dims": dims, "k": 3, "mode": "linear", "orders": [], "nx": nx, "form": "batch",
                   "ci": {"sh": nsh + ([nx] if nx else []), "flat": ci}, "val": node_values6(ci, nsh, nx),
                   "pts": pts, "ring": ring, "den": den_field(3, dims, ring), "cmax": cm},
            "how": dict(how, emb=emb, A=rng.choice(A_POOL), via=via), "cost": cost(d, 3)}


def node_emb(rng, dims):
    """an embedding in which nodes are represented accurately"""
    while True:
        e = rand_emb(rng, len(dims))
        if cond(dims, e, []) < 1e9:
            return e


def mk_nodes(rng, d, nx, via, **how):
    dims = cub_dims(rng, d, hs=2, nmax=[30, 9, 5, 4][d - 1])
    nsh = [size(g) for g in dims]
    val = [rng.randint(-99, 99) for _ in range(math.prod(nsh) * max(1, nx))]
    ixs = [[rng.randrange(n) for n in nsh] for _ in range(10)]
    return {"ev": {"op": "nodes", "dims": dims, "k": 3, "nx": nx, "val": val, "ixs": ixs},
            "how": dict(how, emb=node_emb(rng, dims), A=rng.choice(A_POOL) if how.get("vlay") not in ("I", "4") else 1.0, via=via), "cost": 0.1}


def order_lists(d, k, rng, tier):
    e = lambda i: [1 if j == i else 0 for j in range(d)]
    z = [0] * d
    out = []
    if d == 1:
        out = [[[1]], [[0], [1]], [[1], [0], [1], [0]]]
        if k == 1:
            out += [[[2], [1], [3]]]
    else:
        out = [[e(i) for i in range(d)], [e(d - 1), z, [1] * d, e(0)], [[1] * d, e(0), [1] * d]]
        if k == 1:
            m = [0] * d
            m[0], m[-1] = 2, 1
            out += [[m, e(0), [1] * d]]
    return out


def long_orders(d, k, rng, n=9):
    """many derivatives in one list, in any order"""
    from itertools import product
    al = [list(o) for o in product((0, 1, 2) if k == 1 else (0, 1), repeat=d)]
    if k == 1:
        al += [[3] + [0] * (d - 1), [0] * (d - 1) + [12], [1] * (d - 1) + [11]]
    rng.shuffle(al)
    return al[:n]


def repeat_patterns(n):
    """every way in which n entries can repeat one another: (0, 1, 0, 2) = the third is the first again"""
    out = [(0,)]
    for _ in range(n - 1):
        out = [p + (v,) for p in out for v in range(max(p) + 2)]
    return out


@plan("C05")
def c05(tier, rng, tmp):
    mc, calls = model_calls("Deriv", tmp, 8)
    G = Groups()
    nm = 0
    T = tier == "thorough"
    for c in calls:
        # 2-d cubic specialisations are expensive to compile: batches only
        add(G, realise(rng, c, "batch", {"api": "eval_spline"})); nm += 1
        if c["k"] == 1 and len(c["dims"]) == 1 or c["mode"] == "linear" and len(c["dims"]) == 1:
            for _ in range(2):
                add(G, realise(rng, c, "point", {"api": "eval_spline", "pt": "tuple"}, ptidx=rng.randrange(len(c["pts"])))); nm += 1
    reps = 3 if not T else 10

    def some(dims_f, k, mode, orders, nx, form, h, n=reps, c=1, where="any"):
        for _ in range(n):
            dims = dims_f()
            m = ncomp(rng) if nx else 0
            pts = rand_pts(rng, dims, npts_for(form, rng, 12), where)
            add(G, mk_eval(rng, dims, k, mode, orders, m, pts, form, dict({"api": "eval_spline"}, **h), cmax=30, cost=c))

    modes = ("linear", "nearest", "constant")
    for pat in (["u", "n", "uu", "nu", "uuu", "nun"] + (["un", "nn", "unn", "uuuu", "nuun"] if T else ["nuun"])):
        d = len(pat)
        ols = order_lists(d, 1, rng, tier)
        for oi, o in enumerate(ols):
            for nx in (0, 1):
                for fi, (form, h) in enumerate(forms_for(nx, o)):
                    if not T and d >= 2 and (fi + oi + nx) % (3 if d == 2 else 4):
                        continue
                    some(lambda: dims_of(rng, pat), 1, "linear", o, nx, form, h, c=cost(d, 1, o))
                    if fi == 0 or T:
                        for mode in ("nearest", "constant"):
                            some(lambda: dims_of(rng, pat), 1, mode, o, nx, form, h, c=cost(d, 1, o))
    for d in (1, 2, 3, 4):
        ols = order_lists(d, 3, rng, tier)
        for oi, o in enumerate(ols):
            for nx in (0, 1):
                for fi, (form, h) in enumerate(forms_for(nx, o)):
                    if not T:
                        if d == 2 and (fi + oi + nx) % 3:
                            continue
                        if d == 3 and (oi + 3 * nx, fi) not in ((0, 0), (1, 2), (4, 1), (5, 4)):
                            continue
                        if d == 4 and (oi + 3 * nx, fi) not in ((0, 0),):
                            continue
                    elif d == 4 and (oi + 3 * nx, fi) not in ((0, 0), (1, 2), (4, 1)):
                        continue
                    some(lambda: cub_dims(rng, d), 3, "linear", o, nx, form, h, n=reps + 2, c=cost(d, 3, o))
                    if d == 1 and fi in (0, 3) or T and d <= 2:
                        for mode in ("nearest", "constant"):
                            some(lambda: cub_dims(rng, d), 3, mode, o, nx, form, h, c=cost(d, 3, o))
    for k in (1, 3):
        for j in big_events(rng, k, ["u", "n"] if k == 1 else ["u"], "linear", "any", tier, orders=[[1], [0]]):
            add(G, j)
    # lists of any length with repetitions, in any order
    for pat, k in (("u", 1), ("n", 1), ("un", 1), ("uu", 1), ("nnu", 1), ("u", 3), ("uu", 3)):
        d = len(pat)
        al = [list(o) for o in product((0, 1, 2) if k == 1 else (0, 1), repeat=d)]
        for nx, form, h in ((0, "batch", {}), (1, "batch", {"out": "plain"}), (0, "point", {"pt": "tuple"})) if k == 1 or d == 1 or T else ((0, "batch", {}),):
            for _ in range(3 if k == 1 or d == 1 else 1):
                o = [rng.choice(al) for _ in range(rng.randint(1, 6))]
                o.insert(rng.randint(0, len(o)), rng.choice(o))
                some((lambda: dims_of(rng, pat)) if k == 1 else (lambda: cub_dims(rng, d)), k, rng.choice(modes) if d == 1 else "linear", o, nx, form, h, n=2,
                     c=cost(d, k, o))
    # every pattern of repetitions in short lists
    for pat, k, lens in (("un", 1, (2, 3, 4)), ("uu", 3, (2, 3, 4)) if T else ("u", 3, (2, 3, 4))) + ((("nuu", 1, (5,)),) if T else ()):
        d = len(pat)
        for n in lens:
            for p in repeat_patterns(n):
                al = [list(o) for o in product((0, 1), repeat=d)]
                if max(p) >= len(al):
                    continue
                rng.shuffle(al)
                nx = rng.randint(0, 1)
                form, h = rng.choice(forms_for(nx, [[1]]))
                some((lambda: dims_of(rng, pat)) if k == 1 else (lambda: cub_dims(rng, d)), k, "linear", [al[i] for i in p], nx, form, h, n=2,
                     c=cost(d, k, [[1]]))
    # every combination of orders in one list
    for pat, k in (("u", 1), ("un", 1), ("nnu", 1), ("u", 3), ("uu", 3)) + ((("uuu", 3), ("nuun", 1)) if T else ()):
        d = len(pat)
        df = (lambda: dims_of(rng, pat)) if k == 1 else (lambda: cub_dims(rng, d))
        for nx in (0, 1):
            for form, h in forms_for(nx, [[1]]):
                if h.get("out") and (d > 1 or not nx) and not T:
                    continue
                if k == 3 and d == 2 and form == "point" and h.get("pt") == "arr" and not T:
                    continue
                o = long_orders(d, k, rng, 12 if d < 3 else 7)
                some(df, k, "linear", o, nx, form, h, n=2, c=cost(d, k, o))
    fo = lambda d: rng.choice([[[1] * d, [0] * d], [[1] + [0] * (d - 1), [0] * (d - 1) + [1]]])
    affine_events(G, rng, ["u", "n", "un"], 1, ["linear", "nearest"], "any", reps, ol=(fo,), big=2)
    affine_events(G, rng, ["u"], 3, ["linear"], "any", reps, ol=(fo,))
    far_events(G, rng, ["u", "un"] + (["nnu"] if T else []), 1, reps, orders=fo, nxs=(0, 1))
    far_events(G, rng, ["u"] + (["uu"] if T else []), 3, reps, orders=fo, nxs=(0, 1))
    # the other way of writing the list
    for _ in range(3):
        some(lambda: dims_of(rng, "un"), 1, "linear", [[1, 0], [0, 1]], 0, "batch", {"dstyle": 1})
        some(lambda: cub_dims(rng, 1), 3, "linear", [[1], [0]], 1, "batch", {"dstyle": 1})
    for k, pats in ((1, ["u", "n"]), (3, ["u"])):
        fine_events(G, rng, pats, k, ["linear"], "any", orders=lambda d: [[1], [0]], nxs=(0, 2))
        for pat in pats:
            add(G, very_long(rng, pat, k, "linear", "any", orders=[[0], [1]]))
    fine_events(G, rng, ["un"], 1, ["linear"], "any", orders=lambda d: [[0, 1], [1, 1], [1, 0]], nxs=(0,))
    return {"groups": lists_env(G), "mc": [mc], "from_model": nm}


@plan("C06")
def c06(tier, rng, tmp):
    T = tier == "thorough"
    mc, calls = model_calls("Linear", tmp)
    G = Groups()
    reps = 2 if not T else 6
    nm = 0

    def some(dims_f, k, mode, orders, nx, form, h, n=reps, c=1, where="any"):
        for _ in range(n):
            dims = dims_f()
            m = ncomp(rng) if nx else 0
            pts = rand_pts(rng, dims, npts_for(form, rng, 12), where)
            add(G, mk_eval(rng, dims, k, mode, orders, m, pts, form, dict({"api": "eval_spline"}, **h), cmax=30, cost=c))

    base = [("u", 1), ("un", 1), ("u", 3), ("uu", 3)] + ([("nuu", 1), ("nn", 1)] if T else [])
    for pat, k in base:
        d = len(pat)
        df = (lambda: dims_of(rng, pat)) if k == 1 else (lambda: cub_dims(rng, d))
        ol = [[], [[1] + [0] * (d - 1), [0] * d]]
        cs = cost(d, k)
        for nx in (0, 1):
            # memory layout of coefficients and points
            for cl in ("F", "S", "R", "N", "I"):
                some(df, k, "linear", [], nx, "batch", {"Clay": cl}, c=cs)
                if cl in ("S", "R", "I"):
                    some(df, k, "linear", [], nx, "point", {"Clay": cl, "pt": "tuple"}, c=cs)
                if cl == "I":
                    some(df, k, "linear", [], nx, "point", {"Clay": cl, "pt": "arr", "api": "eval_linear" if k == 1 else "eval_cubic"}, c=cs)
                    some(df, k, "linear", ol[1], nx, "point", {"Clay": cl, "pt": "tuple"}, c=cs)
                    some(df, k, rng.choice(["nearest", "constant"]), [], nx, "point", {"Clay": cl, "pt": "tuple"}, c=cs)
            for pl in ("F", "S", "R", "N", "T"):
                some(df, k, "linear", [], nx, "batch", {"Play": pl}, c=cs)
                if pl in ("S", "R"):
                    some(df, k, "nearest", [], nx, "batch", {"Play": pl, "out": "plain"}, c=cs)
                    some(df, k, "linear", [], nx, "point", {"Play": pl, "pt": "arr"}, c=cs)
            # output buffers
            for o in ol:
                for ok in ("view", "pad", "F", "nan"):
                    some(df, k, "linear", o, nx, "batch", {"out": ok}, c=cs)
                if nx or o:
                    for ok in ("view", "nan"):
                        some(df, k, "linear", o, nx, "point", {"out": ok, "pt": "arr"}, c=cs)
                        some(df, k, "constant", o, nx, "point", {"out": ok, "pt": "arr"}, c=cs)
                some(df, k, "constant", o, nx, "batch", {"out": "view"}, c=cs)
                # compiled user code
                for form, h in (("batch", {}), ("point", {"pt": "tuple"}), ("batch", {"out": "plain"})):
                    some(df, k, rng.choice(["linear", "nearest", "constant"]), o, nx, form, dict(h, njit=True), c=cs)
                # the same call twice, and batches of special lengths
                some(df, k, "linear", o, nx, "batch", {"repeat": 2, "out": "plain"}, c=cs)
                dims = df()
                for N in (0, 1, 2, 7):
                    add(G, mk_eval(rng, dims, k, "linear", o, 2 if nx else 0, rand_pts(rng, dims, N, "any"), "batch", {"api": "eval_spline"}, cost=cs))
                    add(G, mk_eval(rng, dims, k, "linear", o, 1 if nx else 0, rand_pts(rng, dims, N, "any"), "batch",
                                   {"api": "eval_spline", "out": "plain"}, cost=cs))
                # the same points one by one and as a batch
                pts = rand_pts(rng, dims, 6, "any")
                arr = rand_arr(rng, coef_shape(k, dims, 2 if nx else 0), 30)
                j = mk_eval(rng, dims, k, "linear", o, 2 if nx else 0, pts, "batch", {"api": "eval_spline"}, arr=arr, cost=cs)
                if j:
                    add(G, j)
                    for p in pts:
                        for h in ({"pt": "tuple"}, {"pt": "arr"}):
                            add(G, mk_eval(rng, dims, k, "linear", o, 2 if nx else 0, [p], "point", dict(h, api="eval_spline"), arr=arr,
                                           emb=j["how"]["emb"], A=j["how"]["A"], cost=cs))
        # many components
        for m in (8, 17):
            dims = df()
            add(G, mk_eval(rng, dims, k, "linear", [], m, rand_pts(rng, dims, 5, "any"), "batch", {"api": "eval_spline"}, cost=cs))
        # wrappers from compiled code and with layouts
        api = "eval_linear" if k == 1 else "eval_cubic"
        for nx in (0, 1):
            for form, h in (("batch", {"njit": True}), ("point", {"pt": "tuple", "njit": True}), ("batch", {"njit": True, "out": "plain"}),
                            ("batch", {"Clay": "F"}), ("batch", {"Play": "S", "out": "view"})):
                some(df, k, "linear", [], nx, form, dict(h, api=api, modestyle="default"), c=cs)
    # lists of any length: the shape of the result
    for pat, k in (("u", 1), ("un", 1), ("u", 3)) + ((("uu", 3), ("nnu", 1)) if T else ()):
        d = len(pat)
        for L in (1, 3, 4, 5):
            for nx in (0, 1):
                for form, h in forms_for(nx, [[1]]):
                    if L > 3 and form == "point" and not T:
                        continue
                    o = [[rng.choice([0, 1]) for _ in range(d)] for _ in range(L)]
                    some((lambda: dims_of(rng, pat)) if k == 1 else (lambda: cub_dims(rng, d)), k, "linear", o, nx, form, h, n=2, c=cost(d, k, o))
    # batches of every length
    SZ = list(range(3, 21)) + [31, 32, 33, 47, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 2049, 4097]
    for pat, k in (("u", 1), ("un", 1), ("u", 3), ("uu", 3)):
        for nx in (0, 2):
            for o in ("none", "plain"):
                for N in rng.sample(SZ, 16 if not T else len(SZ)):
                    add(G, very_long(rng, pat, k, "linear", "any", nx=nx if rng.random() < 0.7 or not nx else N if N <= 40 else 1, N=N, out=o))
    # whole numbers and single precision, wherever they are accepted
    for pat, k in (("u", 1), ("n", 1), ("un", 1), ("uu", 1), ("u", 3), ("uu", 3)) if not T else (("u", 1), ("n", 1), ("un", 1), ("uu", 1), ("nuu", 1), ("u", 3), ("uu", 3), ("uuu", 3)):
        d = len(pat)
        whole = [("point", {"pt": "arr", "Play": "I"}), ("point", {"pt": "int"}), ("point", {"pt": "mixed"}), ("point", {"pt": "arr", "Play": "4"}),
                 ("batch", {"gdt": "I"}), ("point", {"gdt": "I", "pt": "tuple"}), ("point", {"gdt": "I", "Clay": "I", "pt": "int"}), ("batch", {"Clay": "4"})]
        wrap = "eval_linear" if k == 1 else "eval_cubic"
        for form, h in whole:
            for nx in (0, 2):
                for api in ("eval_spline", wrap):
                    o = [[1] + [0] * (d - 1), [0] * d] if api == "eval_spline" and rng.random() < 0.4 else []
                    dims = dims_of(rng, pat) if k == 1 else cub_dims(rng, d)
                    mode = rng.choice(["linear", "linear", "nearest", "constant"])
                    for _ in range(2):
                        add(G, mk_eval(rng, dims, k, mode, o, nx, rand_pts(rng, dims, npts_for(form, rng, 6), "any"), form, dict({"api": api}, **h), cmax=30,
                                       emb=whole_emb(rng, d) if h != {"Clay": "4"} else None, cost=cost(d, k)))
        if "n" not in pat:
            for api, nx in (("LinearSpline", 0), ("LinearSplines", 2)) if k == 1 else ():
                for h in ({"Clay": "I"}, {"Clay": "4"}, {"gdt": "I"}, {"Play": "I"}, {"Play": "4"}):
                    dims = dims_of(rng, pat)
                    add(G, mk_eval(rng, dims, k, "linear", [], nx, rand_pts(rng, dims, 5, "any"), "batch", dict(h, api=api), emb=whole_emb(rng, d)))
    # the container argument of the object interface; values given in any layout
    for d in (1, 2) if not T else (1, 2, 3):
        for ok in ("plain", "view", "pad", "nan", "F"):
            for api in ("CubicSpline",):
                G.put(("compout", d), mk_comp(rng, d, 0, "obj", out=ok))
                G.put(("compout", d), mk_comp(rng, d, 0, "obj", out=ok, npts=1))
        for api in ("CubicSpline", "CubicSplines"):
            for vl in ("F", "S", "R", "N", "flat", "list"):
                for meth in ("call", "interpolate"):
                    G.put(("complay", d), mk_comp(rng, d, 2 if api == "CubicSplines" else 0, "obj", vlay=vl, meth=meth, play=rng.choice(["C", "F", "S", "R"])))
        for api, nx in (("LinearSpline", 0), ("LinearSplines", 2)):
            for cl in ("C", "F", "S", "R", "N"):
                for pl in ("C", "F", "S", "R", "T"):
                    some(lambda: dims_of(rng, "uuu"[:d]), 1, "linear", [], nx, "batch", {"api": api, "Clay": cl, "Play": pl}, n=1)
    for pat in ("n", "nu"):
        for gl in ("S", "R"):
            some(lambda: dims_of(rng, pat), 1, "linear", [], 0, "batch", {"glay": gl})
            some(lambda: dims_of(rng, pat), 1, "nearest", [], 1, "point", {"glay": gl, "pt": "arr"})
    for k, pats in ((1, ["u", "n"]), (3, ["u"])):
        for nx in (0, 3):
            for j in big_events(rng, k, pats, "linear", "any", tier, nx=nx):
                add(G, j)
    if T:
        for d in (3,):
            for nx in (0, 1):
                for form, h in (("batch", {"out": "view"}), ("batch", {"Clay": "F"}), ("point", {"pt": "tuple", "njit": True}), ("batch", {"Clay": "S", "Play": "S"})):
                    some(lambda: cub_dims(rng, d), 3, "linear", [], nx, form, h, c=6)
                    some(lambda: dims_of(rng, "unu"), 1, "linear", [], nx, form, h, c=1)
    for k, pat, nx, N in ((1, "u", 0, 10007), (1, "un", 3, 4099), (3, "u", 2, 5003), (3, "uu", 0, 4097)):
        add(G, very_long(rng, pat, k, "linear", "any", nx=nx, N=N))
        add(G, very_long(rng, pat, k, "linear", "any", nx=nx, N=N, out="view"))
        dims = dims_of(rng, pat) if k == 1 else cub_dims(rng, len(pat))
        add(G, mk_eval(rng, dims, k, "linear", [], 41, rand_pts(rng, dims, 5, "any"), "batch", {"api": "eval_spline"}))
    for c in calls:
        add(G, realise(rng, c, "batch", {"api": "eval_spline", "out": "view"})); nm += 1
        for i in rng.sample(range(len(c["pts"])), min(3, len(c["pts"]))):
            add(G, realise(rng, c, "point", {"api": "eval_spline", "pt": rng.choice(["tuple", "arr"])}, ptidx=i)); nm += 1
    return {"groups": lists_env(G), "mc": [mc], "from_model": nm}


@plan("C07")
def c07(tier, rng, tmp):
    T = tier == "thorough"
    mc, calls = model_calls("Interp", tmp)
    G = Groups()
    nm = 0

    def cart(dims, axes, how, arr=None):
        from itertools import product
        pts = [list(p) for p in product(*axes)]
        j = mk_eval(rng, dims, 1, "nearest", [], 0, pts, "cart", dict(how, api="interp", style="cart"), arr=arr)
        if j:
            j["ev"]["csh"] = [len(a) for a in axes]
            j["ev"]["axes"] = axes
        return j

    def styles(dims, pts, nj=False, arr=None):
        d = len(dims)
        h = {"api": "interp", "njit": nj}
        out = [mk_eval(rng, dims, 1, "nearest", [], 0, pts, "batch", dict(h, style="list"), arr=arr)]
        for p in pts[:4]:
            out.append(mk_eval(rng, dims, 1, "nearest", [], 0, [p], "point", dict(h, style="scalar", pt="scalar"), arr=arr))
            out.append(mk_eval(rng, dims, 1, "nearest", [], 0, [p], "point", dict(h, style="tuple", pt="tuple"), arr=arr))
            if d > 1:
                out.append(mk_eval(rng, dims, 1, "nearest", [], 0, [p], "point", dict(h, style="point", pt="arr"), arr=arr))
        return out

    for c in calls:
        if c["mode"] == "nearest":
            if len(c["dims"]) == 1:
                add(G, cart(c["dims"], [[p[0] for p in c["pts"]]], {}, c["arr"])); nm += 1
            for j in styles(c["dims"], c["pts"], arr=c["arr"]):
                add(G, j); nm += 1
        else:
            add(G, realise(rng, c, "batch", {"api": "mlinterp"})); nm += 1
            for i in rng.sample(range(len(c["pts"])), min(3, len(c["pts"]))):
                add(G, realise(rng, c, "point", {"api": "mlinterp", "pt": "tuple"}, ptidx=i)); nm += 1
    pats = ["u", "n", "uu", "un", "nu", "nn", "nnn", "unu", "uuu", "nnnn", "unnu"] + (["nnu", "uuuu", "nnnnn"] if T else [])
    for pat in pats:
        for _ in range(4 if not T else 12):
            dims = dims_of(rng, pat)
            pts = rand_pts(rng, dims, rng.choice([1, 2, 9, len(pat), len(pat)]), "any")
            if rng.random() < 0.3:
                pts[0][rng.randrange(len(pat))] = rng.choice([INF, -INF])
            for j in styles(dims, pts):
                add(G, j)
            if len(pat) <= 2:
                axes = [[rand_coord(rng, g, "any") for _ in range(rng.choice([1, 2, 3, 5]))] for g in dims]
                r = rng.random()
                if r < 0.4:
                    axes = [rng.choice([lambda a: sorted(a), lambda a: sorted(a, reverse=True), lambda a: a + a[:2], lambda a: [a[0]] * len(a)])(a) for a in axes]
                elif r < 0.55 and len(pat) == 2:
                    axes[1] = axes[0][:]
                add(G, cart(dims, axes, {}))
                add(G, cart(dims, axes, {"njit": True}))
            # mlinterp: linear continuation outside
            dims = dims_of(rng, pat)
            pts = rand_pts(rng, dims, rng.choice([0, 1, 2, 9, len(pat)]), "any")
            add(G, mk_eval(rng, dims, 1, "linear", [], 0, pts, "batch", {"api": "mlinterp"}))
            for p in rand_pts(rng, dims, 4, "any"):
                add(G, mk_eval(rng, dims, 1, "linear", [], 0, [p], "point", {"api": "mlinterp", "pt": "tuple"}))
            if _ == 0:
                for j in styles(dims, pts[:3] or rand_pts(rng, dims, 2, "any"), nj=True):
                    add(G, j)
                add(G, mk_eval(rng, dims, 1, "linear", [], 0, rand_pts(rng, dims, 5, "any"), "batch", {"api": "mlinterp", "njit": True}))
                for cl in ("F", "S", "R", "I"):
                    add(G, mk_eval(rng, dims, 1, "nearest", [], 0, rand_pts(rng, dims, 4, "any"), "batch", {"api": "interp", "style": "list", "Clay": cl}))
                add(G, mk_eval(rng, dims, 1, "nearest", [], 0, rand_pts(rng, dims, 4, "any"), "batch", {"api": "interp", "style": "list", "Play": "S"}))
                if "n" in pat:
                    add(G, mk_eval(rng, dims, 1, "nearest", [], 0, rand_pts(rng, dims, 4, "any"), "batch", {"api": "interp", "style": "list", "glay": "R"}))
                    add(G, mk_eval(rng, dims, 1, "linear", [], 0, rand_pts(rng, dims, 4, "any"), "batch", {"api": "mlinterp", "glay": "S"}))
    affine_events(G, rng, ["u", "n", "uu", "nun"], 1, ["nearest"], "any", 4, api={"api": "interp", "style": "list"}, big=0)
    affine_events(G, rng, ["u", "n", "nu"], 1, ["linear"], "any", 4, api={"api": "mlinterp"}, big=0)
    far_events(G, rng, ["u", "n", "uu", "nu"], 1, 4, ({"api": "mlinterp"},), nxs=(0,))
    for j in big_events(rng, 1, ["u", "n"], "nearest", "any", tier):
        j["how"].update(api="interp", style="list")
        if j["how"].get("out"):
            continue
        add(G, j)
    for j in big_events(rng, 1, ["u", "n"], "linear", "any", tier):
        j["how"].update(api="mlinterp")
        if j["how"].get("out"):
            continue
        add(G, j)
    fine_events(G, rng, ["u", "n", "un"], 1, ["nearest"], "any", nxs=(0,), apis=({"api": "interp", "style": "list"},))
    fine_events(G, rng, ["u", "n", "un"], 1, ["linear"], "any", nxs=(0,), apis=({"api": "mlinterp"},))
    for pat in ("u", "n"):
        dims = fine_dims(rng, pat, 1)
        add(G, cart(dims, [[fine_coord(rng, g, "any") for _ in range(30)] for g in dims], {}, rand_arr(rng, coef_shape(1, dims, 0), 40, explicit=False)))
        for j in styles(dims, [[fine_coord(rng, g, "any") for g in dims] for _ in range(4)], arr=rand_arr(rng, coef_shape(1, dims, 0), 40, explicit=False)):
            add(G, j)
    return {"groups": G.lists(), "mc": [mc], "from_model": nm}


@plan("C10")
def c10(tier, rng, tmp):
    T = tier == "thorough"
    mc, calls = model_calls("Grad", tmp)
    G = Groups()
    nm = 0

    def grad(dims, nx, pts, how, arr=None, tile=None, emb=None):
        j = mk_eval(rng, dims, 3, "linear", [], nx, pts, "batch", how, arr=arr, cmax=30, tile=tile, emb=emb)
        if j:
            j["ev"]["op"] = "grad"
            for f in ("k", "mode", "orders", "form"):
                del j["ev"][f]
            j["ev"]["form"] = "batch"
            d = len(dims)
            if d == 4:
                j["env"] = ENV4
            G.put(("grad", d, how.get("Clay"), how.get("Play"), how.get("out") in ("view", "F", "pad"), how.get("gdt"), how.get("via")), dict(j, cost=[1, 4, 10, 60][d - 1]))

    for c in calls:
        for h in ({}, {"out": "plain"}):
            grad(c["dims"], c["nx"], c["pts"], h, c["arr"]); nm += 1
    reps = 8 if not T else 30
    for d in (1, 2, 3, 4):
        for i in range(reps):
            dims = cub_dims(rng, d, hs=[30, 10, 4, 2][d - 1] if i % 2 else None)
            grad(dims, rng.choice([1, 1, 2, 3, 4, ncomp(rng)]), rand_pts(rng, dims, rng.choice([1, 2, 8]), rng.choice(["any", "in"])),
                 rng.choice([{}, {"out": "plain"}, {"np": False}, {"out": "nan"}]))
        if d <= 2 or T and d == 3:
            for h in ({"Clay": "F"}, {"Clay": "S"}, {"out": "view"}, {"Play": "S"}, {"out": "F"}, {"out": "pad"}, {"Clay": "I"}, {"gdt": "I"}, {"gdt": "I", "np": False}):
                dims = cub_dims(rng, d)
                grad(dims, 2, rand_pts(rng, dims, 6, "any"), h, emb=whole_emb(rng, d) if h.get("gdt") else None)
        if d <= 3:
            for i in range(4):
                j = mk_comp(rng, d, ncomp(rng) if d < 3 else rng.choice([1, 2, 3]), "obj", where=rng.choice(["any", "in"]))
                if j:
                    j["ev"]["op"] = "gradcomp"
                    for f in ("k", "mode", "orders"):
                        del j["ev"][f]
                    G.put(("gradcomp", d), dict(j, cost=[1, 4, 10][d - 1]))
        dims = cub_dims(rng, d)
        grad(dims, 2, rand_pts(rng, dims, 7, "any"), {}, tile={"n": 301 if d > 1 else 5003, "g": [3, 5, 1]})
        if d <= 2:
            for nx in (1, 2):
                dims = fine_dims(rng, "u" * d, 3)
                grad(dims, nx, [[fine_coord(rng, g, "any") for g in dims] for _ in range(30)], {},
                     rand_arr(rng, coef_shape(3, dims, nx), 30, explicit=False))
        dims = cub_dims(rng, d)
        grad(dims, rng.choice([9, 17]), rand_pts(rng, dims, 3, "any"), {})
        grad(dims, 1, [], {})
    for d in (1, 2, 3, 4):
        for api, nx, form, h in (("fixed_point", 0, "point", {"pt": "arr"}), ("fixed_vec", 0, "batch", {"out": "plain"}),
                                 ("fixed_points", 1, "point", {"pt": "arr", "out": "plain"}), ("fixed_vecs", 1, "batch", {"out": "plain"})):
            for i in range(6 if form == "batch" else 12):
                dims = cub_dims(rng, d)
                m = ncomp(rng) if nx else 0
                job = mk_eval(rng, dims, 3, "linear", [], m, rand_pts(rng, dims, npts_for(form, rng, 10), rng.choice(["any", "any", "in"])), form, dict(h, api=api),
                              cost=cost(d, 3))
                add(G, job)
            for i in range(3):
                dims = cub_dims(rng, d)
                add(G, mk_far(rng, dims, 3, [], 2 if nx else 0, rand_pts(rng, dims, 1 if form == "point" else 4, "any"), form, dict(h, api=api), cost(d, 3)))
    return {"groups": lists_env(G), "mc": [mc], "from_model": nm}


@plan("C03")
def c03(tier, rng, tmp):
    T = tier == "thorough"
    gf = os.path.join(tmp, "filt.ndjson")
    mc = model_check("MCFilter.tla", "MCFilter.cfg", tmp, {"GEN_FILE": gf}, 4)
    mt = model_check("MCTheory.tla", "MCTheory_k3.cfg", tmp)
    G = Groups()
    nm = 0
    Q = {1: 10 ** 6, 2: 10 ** 5, 3: 10 ** 4, 4: 10 ** 3}
    VM = {1: 50, 2: 20, 3: 20, 4: 10}

    def bounds(d):
        out = []
        for _ in range(d):
            a = rng.choice([0.0, -1.0, 0.1, 100.0, -3.7])
            out.append([a, a + rng.choice([1.0, 0.001, 1000.0, 2.5, 1 / 3.0, 30.0])])
        return out

    def filt(nsh, nx, val, q, how, c=1):
        d = len(nsh)
        ev = {"op": "filter", "nsh": nsh, "nx": nx, "val": val, "q": q}
        h = dict(how)
        h["bounds"] = bounds(d)
        h["A"] = rng.choice(A_POOL) if h.get("Clay") != "I" else 1.0
        G.put(("f", h["api"], d, nx > 0, h.get("out", "none") != "none", h.get("out") == "view", h.get("Clay")), {"ev": ev, "how": h, "cost": c})

    def exact(nsh, nx, how, cm=20, c=1):
        h = how
        ci = [rng.randint(-cm, cm) for _ in range(math.prod(nsh) * max(1, nx))]
        ci = relate(rng, ci, nx)
        if rng.random() < 0.15:
            ci = pattern(rng, ci)
        elif rng.random() < 0.25 and h.get("Clay") != "4":
            ci = spiky(rng, ci, {1: (10 ** 5, 4 * 10 ** 7), 2: (10 ** 5, 5 * 10 ** 6), 3: (10 ** 5, 3 * 10 ** 5), 4: (10 ** 4,)}[len(nsh)])
        filt(nsh, nx, node_values6(ci, nsh, nx), 0, how, c)

    def arb(nsh, nx, how, c=1):
        d = len(nsh)
        v = relate(rng, [rng.randint(-VM[d] + 1, VM[d] - 1) for _ in range(math.prod(nsh) * max(1, nx))], nx)
        if rng.random() < 0.25:
            v = pattern(rng, v)
        filt(nsh, nx, [6 ** d * x for x in v], Q[d], how, c)

    for l in open(gf):
        v = json.loads(l)
        for api in ("prefilter", "filter_coeffs"):
            filt([len(v)], 0, [6 * x for x in v], Q[1], {"api": api}); nm += 1
    NM = {1: 14, 2: 7, 3: 5, 4: 4}
    for d in (1, 2, 3, 4):
        hows = [("prefilter", {}, (0, 1)), ("prefilter", {"out": "plain"}, (0, 1)), ("filter_cubic", {}, (0, 1)), ("filter_cubic", {"out": "nan"}, (0, 1)),
                ("filter_coeffs", {}, (0,)), ("filter_mcoeffs", {}, (1,)), ("njit", {}, (0, 1)), ("njit", {"out": "plain"}, (0, 1))]
        if d <= 3 or T:
            hows += [("prefilter", {"Clay": "F"}, (0, 1)), ("prefilter", {"Clay": "S"}, (0, 1)), ("prefilter", {"Clay": "R"}, (0,)),
                     ("prefilter", {"out": "view"}, (0, 1))]
            hows += [("filter_coeffs", {"Clay": rng.choice("FSNT")}, (0,)), ("filter_mcoeffs", {"Clay": "F"}, (1,)), ("filter_mcoeffs", {"Clay": "S"}, (1,)),
                     ("filter_coeffs", {"flat": True}, (0,)), ("filter_mcoeffs", {"flat": True}, (1,)), ("filter_coeffs", {"Clay": "I"}, (0,)),
                     ("prefilter", {"Clay": "I"}, (0, 1)), ("filter_cubic", {"Clay": "I", "out": "plain"}, (0, 1)),
                     ("filter_coeffs", {"abn": "list"}, (0,)), ("filter_mcoeffs", {"abn": "list", "Clay": "R"}, (1,))]
        if d <= 2:
            hows += [("filter_coeffs", {"Clay": "R"}, (0,)), ("filter_mcoeffs", {"Clay": "N"}, (1,)), ("filter_coeffs", {"Clay": "F"}, (0,))]
            hows += [("filter_cubic", {"Clay": "N"}, (0, 1)), ("filter_cubic", {"out": "pad", "Clay": "S"}, (1,))]
        for api, h, nxs in hows:
            for nx in nxs:
                for i in range(5 if not T else 15):
                    nsh = [rng.choice([2, 2, 3] + list(range(2, NM[d] + 1))) for _ in range(d)]
                    m = ncomp(rng, d) if nx else 0
                    (exact if i % 2 and h.get("Clay") != "I" else arb)(nsh, m, dict(h, api=api, repeat=2 if i == 3 else 1), c=0.5 * d)
    # sizes
    for n in (50, 101, 200) if not T else (50, 101, 200, 256, 257, 400):
        exact([n], 0, {"api": "prefilter"}); exact([n], 2, {"api": "filter_cubic"}); arb([n], 0, {"api": "filter_coeffs"})
    for nsh in ([2, 2], [2, 17], [17, 2], [25, 3], [2, 2, 9], [9, 2, 2], [2, 9, 2], [2, 2, 2], [2, 2, 2, 6], [6, 2, 2, 2], [2, 6, 2, 2], [2, 2, 6, 2]):
        for api, nx in (("prefilter", 0), ("filter_cubic", 2), ("filter_coeffs", 0), ("filter_mcoeffs", 1)):
            exact(nsh, nx, {"api": api})
    return {"groups": G.lists(), "mc": [mc, mt], "from_model": nm}
