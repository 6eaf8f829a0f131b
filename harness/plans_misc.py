import json, math, os
from plans import plan
from gen import *
from tlc import model_check
from fractions import Fraction


def generated(module, tmp, cfg=None, workers=4):
    gf = os.path.join(tmp, "gen_" + module + ".ndjson")
    mc = model_check(module + ".tla", (cfg or module) + ".cfg", tmp, {"GEN_FILE": gf}, workers)
    return mc, [json.loads(l) for l in open(gf)]


def spread(jobs, n=16):
    """independent cheap jobs dealt to groups"""
    g = [jobs[i::n] for i in range(n)]
    return [x for x in g if x]


RESET = {"ev": {"op": "reset"}, "how": {}, "cost": 0}


def as_sessions(groups, rng, p=0.15):
    """the same calls as histories: some results are overwritten by their owner, some calls are made again"""
    out = []
    for g in groups:
        s = [dict(RESET, session=True)]
        for j in g:
            s.append(j)
            r = rng.random()
            if r < p:
                s.append({"ev": {"op": "scribble"}, "how": {"x": rng.choice([1, 1, 2, 3])}, "cost": 0})
                s.append(dict(j))
            elif r < 1.5 * p:
                s.append(dict(j))
            if len(s) > 60 and r > 0.9:
                out.append(s)
                s = [dict(RESET, session=True)]
        out.append(s)
    return out


# ---------------------------------------------------------------- C11
ENUM_APIS = ("cartesian", "mlinspace", "nodes", "CubicSpline", "CubicSplines", "LinearSpline", "LinearSplines")


def mk_enum(rng, sh, api, order, how=None):
    """sh: nodes per dimension"""
    nodes, pat = [], ""
    twins = rng.random() < 0.4
    if twins and len(sh) > 1 and rng.random() < 0.7:
        alt = list(sh)
        alt[rng.randrange(len(sh))] = rng.choice(sh)
        sh = alt if math.prod(alt) <= max(2500, math.prod(sh)) else sh
    for n in sh:
        t = rng.choice("un") if api in ("nodes", "cartesian") else "u"
        if n == 1:
            x = [rng.randint(-5, 5)]
        elif t == "u":
            a, h = rng.randint(-6, 6), rng.randint(1, 4)
            x = [a + h * i for i in range(n)]
        else:
            x = [rng.randint(-6, 6)]
            for _ in range(n - 1):
                x.append(x[-1] + rng.choice([1, 2, 5]))
        if api == "cartesian" and rng.random() < 0.3:
            rng.shuffle(x)
        nodes.append(x)
        pat += t
    h = dict(how or {}, api=api, pat=pat)
    h["emb"] = [[0.0, 1.0]] * len(sh) if h.get("kind") == "int" else rand_emb(rng, len(sh))
    if h.get("kind") == "mixed":
        h["emb"] = [rng.choice([[0.0, 1.0], [1.0, 2.0], [0.5, 1.0], [0.25, 0.5]]) for _ in sh]
        h["marr"] = rng.random() < 0.5
    # dimensions that are alike: the same nodes, the same size, mirrored
    for i in range(1, len(sh)):
        j = rng.randrange(i)
        if twins and len(nodes[i]) == len(nodes[j]):
            nodes[i] = list(nodes[j])
            pat = pat[:i] + pat[j] + pat[i + 1:]
            h["emb"] = [h["emb"][j] if k == i else e for k, e in enumerate(h["emb"])]
            if rng.random() < 0.15 and api == "cartesian":
                nodes[i].reverse()
    h["pat"] = pat
    h["same"] = rng.random() < 0.5
    return {"ev": {"op": "enum", "nodes": nodes, "order": order, "cols": api.startswith("Linear")}, "how": h, "cost": 0.1}


@plan("C11")
def c11(tier, rng, tmp):
    T = tier == "thorough"
    mc, shapes = generated("MCCart", tmp, "MCCart_thorough" if T else None)
    jobs = []
    for sh in shapes:
        for order in "CF":
            jobs.append(mk_enum(rng, sh, "cartesian", order, {"kind": rng.choice(["arr", "list", "int", "mixed", "mixed", "strided", "tuple", "tuples"])}))
            jobs.append(mk_enum(rng, sh, "mlinspace", order, {"kind": rng.choice(["arr", "list"])}))
        jobs.append(mk_enum(rng, sh, "cartesian", "C", {"default": True}))
        jobs.append(mk_enum(rng, sh, "mlinspace", "C", {"default": True}))
        if min(sh) >= 2:
            for api in ENUM_APIS[2:]:
                jobs.append(mk_enum(rng, sh, api, "C", {"twice": rng.random() < 0.4}))
    nm = len(jobs)
    for _ in range(60 if not T else 500):
        d = rng.choice([1, 2, 3, 4, 5, 6])
        mx = [900, 30, 9, 6, 4, 3][d - 1]
        api = rng.choice(ENUM_APIS)
        sh = [rng.randint(1 if api in ENUM_APIS[:2] else 2, mx) for _ in range(d)]
        order = rng.choice("CF") if api in ENUM_APIS[:2] else "C"
        jobs.append(mk_enum(rng, sh, api, order, {"kind": rng.choice(["arr", "list", "strided", "tuple", "mixed"]), "twice": rng.random() < 0.4}))
    for sh in ([2, 9, 3], [9, 2, 3], [3, 2, 9], [1, 7, 1], [7, 1, 5], [1, 1, 1], [2, 2, 2, 2, 2, 2, 2], [50, 41], [41, 50], [2, 1000], [1000, 2]):
        for order in "CF":
            jobs.append(mk_enum(rng, sh, "cartesian", order))
            jobs.append(mk_enum(rng, sh, "mlinspace", order))
        if min(sh) >= 2:
            for api in ENUM_APIS[2:]:
                jobs.append(mk_enum(rng, sh, api, "C"))
    return {"groups": as_sessions(spread(jobs), rng), "mc": [mc], "from_model": nm}


# ---------------------------------------------------------------- C12
def lcm(xs):
    r = 1
    for x in xs:
        r = r * x // math.gcd(r, x)
    return r


def herm_ok(x, y, m, L, pts, emb):
    if L ** 3 * (max(map(abs, y)) + 1 + L * max(map(abs, m))) * 4 >= 2 ** 31:
        return False
    b = L ** 3 * (max(map(abs, y)) + 1 + L * max(map(abs, m)))
    c = (abs(emb[0]) + emb[1] * max(map(abs, x))) / emb[1] / min(q - p for p, q in zip(x, x[1:]))
    return tol(b, c) < 0.25


def mk_herm(rng, x, y, m, pts, form, how):
    L = lcm([b - a for a, b in zip(x, x[1:])])
    for _ in range(40):
        emb = rng.choice([[rng.choice(X0_POOL), rng.choice(S_POOL)], [0.0, 1.0]])
        if herm_ok(x, y, m, L, pts, emb):
            h = dict(how, emb=emb, A=rng.choice(A_POOL))
            if h.get("dt"):
                h["emb"], h["A"] = [0.0, 1.0], 1.0
                if not herm_ok(x, y, m, L, pts, h["emb"]) or max(map(abs, pts), default=0) >= INF:
                    return None
            return {"ev": {"op": "hermite", "x": x, "y": y, "m": m, "L": L, "pts": pts, "form": form}, "how": h, "cost": 0.1}
    return None


def herm_data(rng, x, ymax, mmax):
    """values and tangents: random, or with plateaus, opposite or vanishing tangents, tangents equal to a secant"""
    y = [rng.randint(-ymax, ymax) for _ in x]
    m = [rng.randint(-mmax, mmax) for _ in x]
    if rng.random() < 0.5:
        for i in range(len(x) - 1):
            r = rng.random()
            if r < 0.35:
                y[i + 1] = y[i]
            elif r < 0.5:
                y[i + 1] = -y[i]
            r = rng.random()
            s = (y[i + 1] - y[i]) // (x[i + 1] - x[i])
            if r < 0.3:
                m[i + 1] = -m[i]
            elif r < 0.45:
                m[i + 1] = m[i]
            elif r < 0.6:
                m[i + 1] = 0
            elif r < 0.75 and abs(s) <= mmax:
                m[i] = m[i + 1] = s
        if rng.random() < 0.2:
            m = [0] * len(x)
    return y, m


HERM_FORMS = [("scalar", {"api": "scalar"}), ("scalar", {"api": "dispatch"}), ("vector", {"api": "vect"}), ("vector", {"api": "dispatch"}),
              ("matrix", {"api": "dispatch"})]


@plan("C12")
def c12(tier, rng, tmp):
    T = tier == "thorough"
    mc, calls = generated("MCHermite", tmp, "MCHermite_thorough" if T else None, 8)
    G = Groups()

    def put(j):
        if j:
            G.put(("h", j["ev"]["form"], j["how"]["api"], j["how"].get("lay"), j["how"].get("Play"), j["how"].get("dt")), j)
    nm = 0
    for c in calls:
        pts = list(range(c["x"][0] - 2, c["x"][-1] + 3))
        put(mk_herm(rng, c["x"], c["y"], c["m"], pts, "vector", {"api": "vect"})); nm += 1
        for form, h in rng.sample(HERM_FORMS, 2):
            p = [rng.choice(pts)] if form == "scalar" else rng.sample(pts, 3)
            put(mk_herm(rng, c["x"], c["y"], c["m"], p, form, h)); nm += 1

    def grid(n, gaps):
        x = [rng.randint(-9, 9)]
        for _ in range(n - 1):
            x.append(x[-1] + rng.choice(gaps))
        return x
    for form, h in HERM_FORMS:
        for i in range(60 if not T else 400):
            n = rng.choice([2, 2, 3, 3, 4, 5, 8])
            x = grid(n, rng.choice([[1, 2], [1, 2, 4], [2, 3, 6], [1], [5, 10], [12]]))
            y, m = herm_data(rng, x, 20, 9)
            k = 1 if form == "scalar" else rng.choice([0, 1, 2, 3, 9])
            pts = []
            for _ in range(k):
                r = rng.random()
                pts.append(rng.choice(x) if r < 0.3 else rng.randint(x[0], x[-1]) if r < 0.8 else rng.choice([x[0] - rng.randint(1, 50), x[-1] + rng.randint(1, 50)]) if r < 0.95 else rng.choice([INF, -INF]))
            lay = rng.choice(["C", "C", "C", "S", "R"])
            dt = rng.choice(["xymp", "y", "xy", "ym", "p", "x", "m"]) if i % 6 == 5 else ""
            put(mk_herm(rng, x, y, m, pts, form, dict(h, dt=dt, lay=lay, Play=rng.choice(["C", "C", "S", "R"]) if form != "scalar" else "C",
                                                 more=rng.choice([0, 1, 2]) if form == "matrix" and pts and "p" not in dt else 0)))
    # many nodes, fine coordinates, every node of the grid
    for n in (40, 300):
        x = grid(n, [1, 2])
        y, m = herm_data(rng, x, 50, 9)
        put(mk_herm(rng, x, y, m, x + [rng.randint(x[0] - 5, x[-1] + 5) for _ in range(60)], "vector", {"api": "vect"}))
    # every cell of longer grids, evenly and unevenly spaced, in every form
    for n in (9, 10, 12, 17, 33, 65):
        for gaps in ([3], [1, 2, 4], [2, 4]):
            x = grid(n, gaps)
            y, m = herm_data(rng, x, 30, 9)
            pts = sorted({q for a, b in zip(x, x[1:]) for q in (a, rng.randint(a, b))} | {x[-1], x[-1] + 1, x[0] - 1})
            rng.shuffle(pts)
            for form, h in HERM_FORMS:
                if form == "scalar":
                    for q in rng.sample(pts, 5) + [x[-2] + 1, x[0] + 1, x[-3]]:
                        put(mk_herm(rng, x, y, m, [q], form, h))
                else:
                    put(mk_herm(rng, x, y, m, pts, form, h))
    for step in (60, 100):
        for i in range(4 if not T else 20):
            x = [rng.randint(-9, 9)]
            for _ in range(3):
                x.append(x[-1] + step)
            y = [rng.randint(-9, 9) for _ in x]
            m = [rng.choice([0, 0, 1, -1]) for _ in x]
            put(mk_herm(rng, x, y, m, sorted({rng.randint(x[0] - 3, x[-1] + 3) for _ in range(40)}, key=lambda v: rng.random()), "vector",
                        rng.choice([{"api": "vect"}, {"api": "dispatch"}])))
    # the cell cubic and basis functions
    for i in range(40 if not T else 200):
        a, hh = rng.randint(-5, 5), rng.choice([1, 2, 3, 7, 10])
        y = [rng.randint(-20, 20), rng.randint(-20, 20)]
        m = [rng.randint(-9, 9), rng.randint(-9, 9)]
        pts = [a + rng.randint(0, hh) for _ in range(6)]
        G.put(("cell",), {"ev": {"op": "hcell", "x": [a, a + hh], "y": y, "m": m, "L": hh, "pts": pts},
                          "how": {"api": rng.choice(["interp", "basis"]), "emb": [rng.choice([0.0, 1.0, -2.5]), rng.choice([1.0, 0.1, 7.3])], "A": rng.choice(A_POOL)}, "cost": 0.05})
    return {"groups": as_sessions(G.lists(), rng), "mc": [mc], "from_model": nm}


# ---------------------------------------------------------------- C13
def cp_nmono(n, d):
    return math.comb(n + d, d) if d >= 0 else 0


def mk_cpb(rng, n, d, der, z, q, form, how=None):
    big = max([1] + [abs(x) for r in z for x in r])
    if d >= 0 and (max(big, q) ** d) * max(1, d) * max(1, q) >= 2 ** 31:
        return None
    return {"ev": {"op": "cpbasis", "n": n, "d": d, "der": der, "z": z, "q": q, "form": form}, "how": how or {}, "cost": 0.05}


@plan("C13")
def c13(tier, rng, tmp):
    T = tier == "thorough"
    mc, calls = generated("MCCPoly", tmp)
    jobs = []
    for c in calls:
        n, d, der = c["n"], c["d"], c["der"]
        zs = [[i + 2 for i in range(n)], [0 if i % 2 else -(i + 1) for i in range(n)]]
        z = zs[c["z"] - 1]
        jobs.append(mk_cpb(rng, n, d, der, [z], 1, "vec"))
        jobs.append(mk_cpb(rng, n, d, der, [z, [1] * n, zs[0]], 1, "mat"))
    nm = len([j for j in jobs if j])
    for i in range(300 if not T else 2500):
        n = rng.choice([1, 2, 2, 3, 3, 4, 5, 6])
        d = rng.choice([0, 1, 2, 3, 3, 4, 4, 5, 5])
        if cp_nmono(n, d) > 500:
            d = 3
        der = rng.choice([-1, -1] + list(range(n)) * 2)
        q = rng.choice([1, 1, 2, 3, 4])
        zm = {0: 50, 1: 50, 2: 50, 3: 30, 4: 15, 5: 9}[d]
        form = rng.choice(["vec", "mat", "mat"])
        k = 1 if form == "vec" else rng.choice([0, 1, 2, 3, 7])
        z = [[rng.choice([0, 1, -1, rng.randint(-zm, zm)]) for _ in range(n)] for _ in range(k)]
        how = {"lay": rng.choice(["C", "C", "F", "S", "R", "N"])}
        if q == 1 and rng.random() < 0.2:
            how = {"int": True, "lay": "C"}
        elif rng.random() < 0.1 and k:
            how = {"list": True}
        if k == 0:
            continue
        jobs.append(mk_cpb(rng, n, d, der, z, q, form, how))
    # unsupported degrees and variables
    for n in (1, 2, 3):
        z = [[1] * n, [2] * n]
        for d in (-1, -3, 6, 7, 12):
            for der in (-1, 0):
                jobs += [mk_cpb(rng, n, d, der, z[:1], 1, "vec"), mk_cpb(rng, n, d, der, z, 1, "mat")]
        for rd in (0.5, 1.5, 2.5, 3.25, 4.999, 5.5, -0.5):      # fractional degrees are unsupported ones (6 in the event)
            for der in (-1, 0):
                jobs += [mk_cpb(rng, n, 6, der, z[:1], 1, "vec", {"rawd": rd}), mk_cpb(rng, n, 6, der, z, 1, "mat", {"rawd": rd})]
        for d in (0, 1, 2, 3, 5):
            for der in (n, n + 1, n + 4, -2, -3):
                jobs += [mk_cpb(rng, n, d, der, z[:1], 1, "vec"), mk_cpb(rng, n, d, der, z, 1, "mat")]
            # more observations than variables must not admit more variables
            jobs.append(mk_cpb(rng, n, d, n, [[1] * n] * 9, 1, "mat"))
            jobs.append(mk_cpb(rng, n, d, -5, z[:1], 1, "vec", {"rawder": -1}))
            jobs.append(mk_cpb(rng, n, d, -5, z, 1, "mat", {"rawder": -1}))
    for n in range(0, 12):
        for d in range(0, 8 if n > 6 else 10):
            jobs.append({"ev": {"op": "cpcount", "n": n, "d": d}, "how": {}, "cost": 0.02})
    for n in range(12, 41):
        for d in range(0, 6):
            jobs.append({"ev": {"op": "cpcount", "n": n, "d": d}, "how": {}, "cost": 0.02})
    jobs = [j for j in jobs if j]
    G = Groups()
    for j in jobs:
        e, h = j["ev"], j["how"]
        G.put((e["op"], e.get("der", 0) >= 0, e.get("form"), h.get("lay") in ("F", "S", "N", "R"), h.get("int")), j)
    out = []
    for g in G.lists():
        k = max(1, len(g) // 120)
        out += [g[i::k] for i in range(k)]
    return {"groups": as_sessions(out, rng), "mc": [mc], "from_model": nm}


# ---------------------------------------------------------------- C15
def rand_mu(rng, T=False):
    d = rng.choice([2, 2, 2, 3, 3, 4, 5])
    iso = rng.random() < 0.45
    mx = {2: 5, 3: 4, 4: 3, 5: 2}[d]
    if iso:
        return [rng.randint(1, mx)] * d, True
    return [rng.randint(1, mx) for _ in range(d)], False


def rand_bounds(rng, d):
    r = rng.random()
    if r < 0.25:
        return "default"
    if r < 0.4:
        a = rng.choice([0, -3, 0.5, -2.25])
        return [a, a + rng.choice([1, 2, 4, 0.25])]
    lb = [rng.choice([0.0, -1.0, 0.1, -7.3, 100.0, 1, -2]) for _ in range(d)]
    return [lb, [a + rng.choice([1, 2.0, 0.001, 30.0, 1 / 3.0]) for a in lb]]


@plan("C15")
def c15(tier, rng, tmp):
    T = tier == "thorough"
    mc, mus = generated("MCSmolyak", tmp, "MCSmolyak_thorough" if T else None, 4)
    jobs = []

    def grid(mu, iso, api, bounds="default", **h):
        lev = max(mu)
        if api == "func" or api == "func2":
            bounds = "default"
        jobs.append({"ev": {"op": "smgrid", "mu": mu, "iso": iso, "lev": lev}, "how": dict(h, api=api, bounds=bounds), "cost": 0.5})

    for mu in mus:
        iso = len(set(mu)) == 1
        for i in ((True, False) if iso else (False,)):
            jobs.append({"ev": {"op": "sminds", "mu": mu, "iso": i}, "how": {}, "cost": 0.2})
            grid(mu, i, "class", rand_bounds(rng, len(mu)), arr=rng.random() < 0.5)
            grid(mu, i, rng.choice(["func", "func2"]))
    nm = len(jobs)
    for _ in range(25 if not T else 150):
        mu, iso = rand_mu(rng)
        ev = {"op": "sminds", "mu": mu, "iso": iso}
        jobs.append({"ev": ev, "how": {}, "cost": 0.2})
        if sum(mu) <= 14:
            grid(mu, iso, rng.choice(["class", "class", "func"]), rand_bounds(rng, len(mu)), arr=rng.random() < 0.5)
            if iso is False:
                jobs[-1]["ev"]["muarr"] = True if jobs[-1]["how"]["api"] != "class" else rng.random() < 0.5
    for mu, iso in (([6, 6], True), ([6, 1], False), ([1, 6], False), ([7, 2], False), ([5, 5, 5], True), ([4, 4, 4, 4], True), ([1] * 7, True), ([1] * 11, True), ([2] * 6, True), ([2] * 8, True), ([1] * 9 + [2], False), ([1, 2, 3, 4], False), ([4, 1, 2], False)):
        jobs.append({"ev": {"op": "sminds", "mu": mu, "iso": iso}, "how": {}, "cost": 0.2})
    for mu in ([6, 6], [1] * 6, [1] * 9, [2] * 5, [3] * 4):
        grid(mu, True, "class", rand_bounds(rng, len(mu)))
    B = lambda what, n, lev, **k: jobs.append({"ev": dict(k, op="smblock", what=what, n=n, lev=lev), "how": {}, "cost": 0.05})
    for n in range(0, 13):
        B("m_i", n, 1)
    for n in range(1, 9):
        B("s_n", n, max(1, n - 1))
        B("a_chain", n, max(1, n - 1))
        B("phi_chain", n, 1)
    for d in range(1, 7):
        for m in (1, 2, 3):
            B("count", m, m, d=d)
    for i in range(60 if not T else 300):
        m = rng.choice([1, 2, 3, 4, 5])
        n = rng.choice([0, 1, 2, 3, 4, 5, 8]) if m > 2 else rng.choice([0, 1, 2, 5, 9, 17])
        sh = rng.choice([[], [1], [3], [2, 3], [3, 1], [2, 4], [2, 1, 2]])
        c = [rng.randint(-m, m) if rng.random() < 0.8 else rng.randint(-2 * m, 2 * m) for _ in range(math.prod(sh))]
        if (4 * max(m, max([1] + [abs(x) for x in c]))) ** n * 4 >= 2 ** 31:
            n = min(n, 3)
        kind = rng.choice([1, 2])
        h = {"default": kind == 1 and rng.random() < 0.5, "scalar": sh == [] and rng.random() < 0.5}
        if len(sh) == 2 and n >= 2 and rng.random() < 0.6:
            h["valto"] = True
        jobs.append({"ev": {"op": "smcheb", "m": m, "n": n, "c": c, "sh": sh, "kind": kind}, "how": h, "cost": 0.05})
    for i in range(12 if not T else 80):
        mu, iso = rand_mu(rng)
        m = 2
        mu = [min(x, 3) for x in mu]
        c = [[rng.randint(-m, m) for _ in mu] for _ in range(rng.choice([1, 2, 5]))]
        jobs.append({"ev": {"op": "smB", "mu": mu, "iso": len(set(mu)) == 1 and iso, "m": m, "c": c}, "how": {"give": rng.random() < 0.5}, "cost": 0.3})
    return {"groups": as_sessions(spread(jobs), rng), "mc": [mc], "from_model": nm}


# ---------------------------------------------------------------- C18
def bden(u, p):
    r = 1
    for q in range(1, p + 1):
        r *= lcm([u[j + q] - u[j] for j in range(len(u) - q)])
    return r


def mk_bs(rng, u, p, i, pts, how=None):
    D = bden(u, p)
    ring = "z" if D < 2 ** 28 and all(abs(x) < 10 ** 6 for x in pts) else "m"
    # intermediate products in the integer ring stay below 2^31 only for small denominators
    if D * 64 * max(u[-1] - u[0], 1) >= 2 ** 31:
        ring = "m"
    for _ in range(40):
        emb = rng.choice([[rng.choice(X0_POOL), rng.choice(S_POOL)], [0.0, 1.0]])
        if (how or {}).get("int"):
            emb = [0.0, rng.choice([1.0, 1.0, 2.0])]
        ext = max(map(abs, u))
        if tol(D, (abs(emb[0]) / emb[1] + ext) / min(b - a for a, b in zip(u, u[1:]))) < 0.25:
            h = dict(how or {}, emb=emb, den=D)
            if emb[1] not in DYADIC_S or emb[0] != 0.0:
                # half-open ends: the node itself must be hit exactly
                h["emb"] = emb
            return {"ev": {"op": "bspline", "u": u, "p": p, "i": i, "pts": pts, "ring": ring, "den": [D] if ring == "z" else [D % P1, D % P2]}, "how": h, "cost": 0.05}
    return None


@plan("C18")
def c18(tier, rng, tmp):
    T = tier == "thorough"
    mc, knots = generated("MCBSpline", tmp)
    jobs = []
    for u in knots:
        for p in range(0, min(4, len(u) - 2) + 1):
            for i in range(len(u) - p - 1):
                jobs.append(mk_bs(rng, u, p, i, list(range(u[0] - 1, u[-1] + 2)), {"arr": rng.random() < 0.5, "b0": rng.random() < 0.5}))
    nm = len([j for j in jobs if j])
    for _ in range(120 if not T else 900):
        n = rng.choice([2, 3, 4, 5, 6, 8, 11])
        gaps = rng.choice([[1], [1, 2], [1, 2, 3], [4], [2, 6], [10]])
        u = [rng.randint(-8, 8)]
        for _ in range(n - 1):
            u.append(u[-1] + rng.choice(gaps))
        p = rng.randint(0, min(n - 2, 6))
        i = rng.randint(0, n - p - 2)
        pts = [rng.choice(u) for _ in range(3)] + [rng.randint(u[0] - 2, u[-1] + 2) for _ in range(8)] + [u[i], u[i + p + 1], u[0], u[-1]]
        jobs.append(mk_bs(rng, u, p, i, pts, {"arr": rng.random() < 0.5, "b0": rng.random() < 0.5, "int": rng.random() < 0.2}))
    # all basis functions over one fine knot vector
    for p in (1, 2, 3):
        u = [8 * j for j in range(9)]
        for i in range(len(u) - p - 1):
            jobs.append(mk_bs(rng, u, p, i, list(range(-2, 67, 1 if T else 3)), {"arr": True}))
    # the same knots with another degree, another index, one knot moved; asked for again
    again = []
    for _ in range(30 if not T else 200):
        n = rng.randint(5, 9)
        u = [0]
        for _ in range(n - 1):
            u.append(u[-1] + rng.choice([1, 2, 3]))
        p = rng.randint(1, min(3, n - 3))
        i = rng.randint(0, n - p - 2)
        w = u[:]
        j = rng.randint(max(i, 1), min(i + p, n - 2))
        w = [x + (2 if t >= j else 0) for t, x in enumerate(u)]
        v = u[:-1] + [u[-1] + 3]
        pts = list(range(u[0] - 1, u[-1] + 3))
        how = {"arr": rng.random() < 0.5}
        for k, (a, b, c) in enumerate(((u, p, i), (w, p, i), (u, p - 1, i), (v, p, i), (u, p, max(0, i - 1)), (u, p, i))):
            again.append(mk_bs(rng, a, b, c, pts, how))
            if again[-1] and again[0] and k:
                again[-1]["how"]["emb"] = [0.0, 1.0]
    return {"groups": as_sessions(spread([j for j in jobs if j]) + [[j for j in again if j]], rng), "mc": [mc], "from_model": nm}


# ---------------------------------------------------------------- C17
@plan("C17")
def c17(tier, rng, tmp):
    T = tier == "thorough"
    mc, lists = generated("MCValidation", tmp)
    jobs = []
    if not T:      # every single argument and a third of the combinations
        lists = [c for c in lists if len(c["args"]) <= 1 or rng.random() < 0.4]

    def bounds():
        a = rng.choice([0.0, -1.0, 0.1, -1e-9, 1e6, -3.5])
        return [a, a + rng.choice([1.0, 1e-6, 2.5, 1e5])]
    for c in lists:
        hs = []
        for a in c["args"]:
            if a["c"] == "tuple":
                hs.append({"v": bounds(), "np": rng.choice([None, None, [1, 1, 1], [1, 0, 0], [0, 0, 1]])})
            elif a["c"] == "array":
                hs.append({"v": bounds()})
            else:
                hs.append({"o": rng.choice(["list", "str", "none", "float", "dict"])})
        jobs.append({"ev": {"op": "gridctor", "kind": c["kind"], "args": c["args"]}, "how": {"args": hs}, "cost": 0.02})
    for o in ("list", "str", "none", "float", "dict"):
        for kind in ("UCGrid", "CGrid"):
            jobs.append({"ev": {"op": "gridctor", "kind": kind, "args": [{"c": "other"}]}, "how": {"args": [{"o": o}]}, "cost": 0.02})
    nm = len(lists)
    # long lists of good dimensions
    for _ in range(40):
        k = rng.randint(1, 7)
        kind = rng.choice(["UCGrid", "CGrid"])
        args, hs = [], []
        for _ in range(k):
            if kind == "CGrid" and rng.random() < 0.5:
                args.append({"c": "array", "nd": 1, "len": rng.randint(2, 40)})
            else:
                args.append({"c": "tuple", "t": ["f64", "f64", "i64"], "cmp": "lt", "n": rng.choice([2, 3, 100, 10 ** 6])})
            hs.append({"v": bounds()})
        if rng.random() < 0.5:      # one ill-formed among them
            j = rng.randrange(k)
            args[j] = {"c": "tuple", "t": ["f64", "f64", "i64"], "cmp": rng.choice(["eq", "gt", "lt"]), "n": 1}
            hs[j] = {"v": bounds()}
        jobs.append({"ev": {"op": "gridctor", "kind": kind, "args": args}, "how": {"args": hs}, "cost": 0.02})
    # ill-typed dimensions that compare equal to dimensions accepted just before
    pairs = []
    for kind in ("UCGrid", "CGrid"):
        for k in (1, 2, 3):
            for ty in (["i64", "f64", "i64"], ["f64", "i64", "i64"], ["f64", "f64", "f64"], ["f32", "f64", "i64"], ["f64", "f64", "i32"], ["i64", "i64", "i64"]):
                n = rng.choice([2, 5])
                good = {"c": "tuple", "t": ["f64", "f64", "i64"], "cmp": "lt", "n": n}
                hs = [{"v": [float(rng.randint(-3, 0)), float(rng.randint(1, 4))]} for _ in range(k)]
                for j in range(k):
                    bad = [dict(good) for _ in range(k)]
                    bad[j] = dict(good, t=ty)
                    for a in ([good] * k, bad, [good] * k):
                        pairs.append({"ev": {"op": "gridctor", "kind": kind, "args": a}, "how": {"args": hs}, "cost": 0.02})
    # cubic spline objects
    O = []
    for cls in ("CubicSpline", "CubicSplines"):
        for d in (1, 2) if not T else (1, 2, 3):
            def obj(la, lb, lo, vals, point, **h):
                O.append({"ev": {"op": "objctor", "cls": cls, "la": la, "lb": lb, "lo": lo, "vals": vals, "point": point},
                          "how": dict({"n": rng.choice([2, 3, 4])}, **h), "cost": 1})
            obj(d, d, d, "none", "none")
            for late in (False, True):
                for v in ("ok", "flat"):
                    obj(d, d, d, v, "ok", late=late)
                for v in ("nan", "inf", "-inf"):
                    for pos in (0, 1, -1, rng.randint(0, 40)):
                        obj(d, d, d, v, "none", late=late, pos=pos)
                obj(d, d, d, "size", "none", late=late)
            for la, lb, lo in ((d + 1, d, d), (d, d + 1, d), (d, d, d + 1), (d, d + 1, d + 1), (d + 1, d + 1, d), (d + 1, d, d + 1), (d - 1, d, d)):
                if min(la, lb, lo) >= 0:
                    obj(la, lb, lo, rng.choice(["none", "ok"]), "none")
            for single in (False, True):
                if cls == "CubicSplines" and single:
                    meths = ("call",)
                else:
                    meths = ("call", "interpolate")
                for meth in meths:
                    obj(d, d, d, "ok", "ok", single=single, meth=meth)
                    for pt in ("nan", "inf", "-inf"):
                        for pos in (0, rng.randint(1, 30)):
                            obj(d, d, d, "ok", pt, single=single, meth=meth, pos=pos)
                    obj(d, d, d, "ok", "long", single=single, meth=meth)
                    if d > 1:
                        obj(d, d, d, "ok", "short", single=single, meth=meth)
    # Smolyak constructor
    for d in (-1, 0, 1, 2, 3):
        for mu, iso in (([1], True), ([2], True), ([0], True), ([-1], True)):
            jobs.append({"ev": {"op": "smctor", "d": d, "mu": mu, "iso": iso, "nlb": -1, "nub": -1}, "how": {}, "cost": 0.1})
    for d in (2, 3, 4):
        for ml in (d - 1, d, d + 1, 1):
            for bad in (None, 0, -1):
                mu = [rng.randint(1, 2) for _ in range(ml)]
                if bad is not None:
                    mu[rng.randrange(ml)] = bad
                jobs.append({"ev": {"op": "smctor", "d": d, "mu": mu, "iso": False, "nlb": -1, "nub": -1}, "how": {"muarr": rng.random() < 0.5}, "cost": 0.1})
        for nlb in (-1, 0, 1, d - 1, d, d + 1):
            for nub in (-1, 0, 1, d - 1, d, d + 1):
                for iso in (True, False):
                    mu = [2] if iso else [rng.randint(1, 2) for _ in range(d)]
                    jobs.append({"ev": {"op": "smctor", "d": d, "mu": mu, "iso": iso, "nlb": nlb, "nub": nub}, "how": {"arr": rng.random() < 0.5}, "cost": 0.1})
    # degrees of complete polynomials
    for n in (1, 2, 4):
        for d in (-2, -1, 6, 9):
            for der in (-1, 0):
                for form in ("vec", "mat"):
                    jobs.append({"ev": {"op": "cpbasis", "n": n, "d": d, "der": der, "z": [[1] * n], "q": 1, "form": form}, "how": {}, "cost": 0.05})
    G = Groups()
    for j in O:      # without the bounds checks of the compiler: refusals must come from the library
        j["env"] = {"NUMBA_BOUNDSCHECK": "0"}
        G.put((j["ev"]["cls"], j["ev"]["lo"]), j)
    return {"groups": spread(jobs, 8) + [pairs] + G.lists(), "mc": [mc], "from_model": nm}
