"""Seeded construction of abstract calls and their realisations (pure Python, no numpy)."""
import json, math, os
from proj_py import *

DYADIC_S = [1.0, 0.5, 0.25, 2.0, 8.0, 2.0 ** -10]
S_POOL = DYADIC_S + [0.1, 1 / 3.0, 7.3, 1000.0, 0.001, 0.7, 1e-9, 1e8]
X0_POOL = [0.0, 1.0, -2.5, 0.1, -3.7, 100.3, 1 / 7.0, 12.0, 1e5]
A_POOL = [1.0, 0.5, -1.0, 0.1, 1000.0, 1e-4, 3.0, 1e-11, 1e9, 1e-19, 1e-45, 1e28]

NUDGES = [8, 64, 10 ** 4, 1e30, 1e40]      # in units of the rounding error of the boundary


def rand_dim(rng, t, k, nmax=7, hmax=6, nmin=2):
    n = rng.choice([nmin, nmin, nmin + 1] + list(range(nmin, nmax + 1)))
    if t == "u":
        return {"t": "u", "a": rng.randint(-9, 9), "h": rng.randint(1, hmax), "n": n}
    gaps = [rng.choice([1, 2, 3, 4, 6, 12]) for _ in range(n - 1)]
    if hmax < 12:
        gaps = [rng.choice([1, 2, 3, 4]) for _ in range(n - 1)]
    x = [rng.randint(-9, 9)]
    for g in gaps:
        x.append(x[-1] + g)
    D = 1
    for g in gaps:
        D = D * g // math.gcd(D, g)
    return {"t": "n", "x": x, "D": D}


def rand_coord(rng, g, where):
    """where: in | any | node | edge"""
    L, H = lo(g), hi(g)
    if where == "node":
        return node(g, rng.randrange(size(g)))
    if where == "edge":
        return rng.choice([L, H])
    if where == "in" or (where == "any" and rng.random() < 0.45):
        r = rng.random()
        if r < 0.2:
            return rng.choice([L, H])
        if r < 0.35:
            return node(g, rng.randrange(size(g)))
        if r < 0.5:      # inside the first or last cell
            return rng.choice([rng.randint(L, node(g, 1)), rng.randint(node(g, size(g) - 2), H)])
        return rng.randint(L, H)
    w = H - L
    r = rng.random()
    if r < 0.4:
        dlt = rng.randint(1, 2)
    elif r < 0.8:
        dlt = rng.randint(1, max(2, mingap(g) * 2))
    else:
        dlt = rng.randint(1, w + 2)
    return L - dlt if rng.random() < 0.5 else H + dlt


def alike(rng, pts):
    """neighbouring points that share everything or a coordinate, sorted points"""
    n = len(pts)
    if n < 2 or rng.random() < 0.6:
        return pts
    out = [list(p) for p in pts]
    d = len(out[0])
    r = rng.random()
    if r < 0.3:
        j = rng.randrange(d)
        out.sort(key=lambda p: p[j], reverse=rng.random() < 0.4)
    for i in range(1, n):
        q = rng.random()
        if q < 0.25:
            j = rng.randrange(d)
            out[i][j] = out[i - 1][j]
        elif q < 0.35:
            out[i] = list(out[rng.choice([i - 1, i - 1, 0, rng.randrange(i)])])
    return out


def rand_pts(rng, dims, n, where):
    return alike(rng, _rand_pts(rng, dims, n, where))


def _rand_pts(rng, dims, n, where):
    if where == "in":
        return [[rand_coord(rng, g, "in") for g in dims] for _ in range(n)]
    out = []
    for _ in range(n):
        r = rng.random()
        if r < 0.3:      # all inside
            p = [rand_coord(rng, g, "in") for g in dims]
        elif r < 0.7:    # exactly one dimension out of range
            j = rng.randrange(len(dims))
            p = [rand_coord(rng, g, "out" if i == j else "in") for i, g in enumerate(dims)]
        else:
            p = [rand_coord(rng, g, "any") for g in dims]
        out.append(p)
    return out


def rand_arr(rng, sh, cmax=50, explicit=True):
    n = math.prod(sh)
    if explicit and n <= 400:
        return {"sh": list(sh), "flat": [rng.randint(-cmax, cmax) for _ in range(n)]}
    m = rng.choice([97, 101, 89, 83])
    q = min(5, (2 ** 31 - 1 - 41 * n) // (n * n))      # the formula stays below 2^31
    return {"sh": list(sh), "gen": [rng.randint(1, q) if q >= 1 else 0, rng.randint(1, 40), rng.randint(0, 50), min(m, 2 * cmax + 1) | 1, cmax if 2 * cmax < m else m // 2]}


def relate(rng, flat, nx):
    """some components are made to resemble others: equal, reversed, shuffled, negated or differing in one place"""
    if nx < 2 or rng.random() < 0.5:
        return flat
    cols = [flat[x::nx] for x in range(nx)]
    for _ in range(rng.choice([1, 1, 2])):
        i, j = rng.sample(range(nx), 2)
        c = list(cols[i])
        t = rng.random()
        if t < 0.2:
            c.reverse()
        elif t < 0.45:
            rng.shuffle(c)
        elif t < 0.6:
            c = [-v for v in c]
        elif t < 0.8:
            p, q = rng.randrange(len(c)), rng.randrange(len(c))
            c[p], c[q] = c[q], c[p]
        elif t < 0.9:
            c[rng.choice([0, -1, rng.randrange(len(c))])] = rng.choice(c)
        cols[j] = c
    return [cols[n % nx][n // nx] for n in range(len(flat))]


def spiky(rng, flat, mags=(10 ** 3, 10 ** 5, 10 ** 6, 10 ** 7)):
    """a few entries dwarf the others (which are mostly small, some zero)"""
    out = [v if rng.random() < 0.5 else rng.randint(-2, 2) for v in flat]
    m = rng.choice(mags)
    for _ in range(rng.choice([1, 1, 2, 3])):
        out[rng.choice([0, -1, rng.randrange(len(out))])] = rng.choice([-1, 1]) * (m - rng.randint(0, 9))
    return out


def pattern(rng, flat):
    """entries that repeat one another: constant, nearly constant, palindromic, periodic, ramps, runs, mostly zero"""
    n, t = len(flat), rng.randrange(7)
    out = list(flat)
    if t <= 1:
        out = [flat[0]] * n
        if t:
            out[rng.choice([0, -1, rng.randrange(n)])] = flat[-1] + 1
    elif t == 2:
        out = flat[:(n + 1) // 2] + flat[:n // 2][::-1]
    elif t == 3:
        q = rng.randint(1, 3)
        out = [flat[i % q] for i in range(n)]
    elif t == 4:
        a, s, m = rng.randint(-3, 3), rng.choice([-1, 1, 1]), max(map(abs, flat)) or 1
        out = [max(-m, min(m, a + s * (i % (m + 1)))) for i in range(n)]
    elif t == 5:
        for i in range(1, n):
            if rng.random() < 0.6:
                out[i] = out[i - 1]
    else:
        out = [v if rng.random() < 0.2 else 0 for v in flat]
    return out


def coef_shape(k, dims, nx):
    return [size(g) + (2 if k == 3 else 0) for g in dims] + ([nx] if nx else [])


def rand_emb(rng, d, dyadic=False):
    return [[rng.choice([0.0, 1.0, -2.5, 12.0]) if dyadic else rng.choice(X0_POOL),
             rng.choice(DYADIC_S if dyadic else S_POOL)] for _ in range(d)]


def whole_emb(rng, d):
    """integer lattice points become integers"""
    return [[rng.choice([0.0, 1.0, -2.0, 12.0]), rng.choice([1.0, 1.0, 2.0, 8.0])] for _ in range(d)]


def fit_emb(rng, dims, k, mode, pts, cmax, dyadic=False):
    """an embedding for which results can be projected unambiguously"""
    b = bound(dims, k, mode, pts, cmax)
    for _ in range(60):
        e = rand_emb(rng, len(dims), dyadic)
        if tol(b, cond(dims, e, pts)) < 0.2:
            return e, b
    e = [[0.0, 1.0] for _ in dims]
    if tol(b, cond(dims, e, pts)) < 0.2:
        return e, b
    return None, b


def mk_eval(rng, dims, k, mode, orders, nx, pts, form, how, arr=None, cmax=50, tile=None, emb=None, A=None, ring=None,
            dyadic=False, cost=1):
    """a complete job, or None when the numbers would be too large to project"""
    arr = arr or rand_arr(rng, coef_shape(k, dims, nx), cmax)
    if "flat" in arr:
        arr = dict(arr, flat=relate(rng, arr["flat"], nx))
        if rng.random() < 0.12:
            arr = dict(arr, flat=pattern(rng, arr["flat"]))
        elif rng.random() < 0.12 and how.get("Clay") not in ("I", "4") and ring != "z":
            alt = dict(arr, flat=spiky(rng, arr["flat"]))
            cm = arr_absmax(alt)
            b = bound(dims, k, mode, pts, cm)
            e = emb
            if e is None:
                e, b = fit_emb(rng, dims, k, mode, pts, cm, dyadic)
            if e is not None and tol(b, cond(dims, e, pts)) < 0.2:
                arr, emb = alt, e
    cm = arr_absmax(arr)
    b = bound(dims, k, mode, pts, cm)
    if emb is None:
        emb, b = fit_emb(rng, dims, k, mode, pts, cm, dyadic)
        if emb is None:
            return None
    elif tol(b, cond(dims, emb, pts)) > 0.25:
        return None
    if ring is None:
        ring = "z" if b < 1e9 and cm <= 1000 else "m"
    ev = {"op": "eval", "dims": dims, "k": k, "mode": mode, "orders": orders, "nx": nx, "arr": arr, "pts": pts,
          "form": form, "ring": ring, "den": den_field(k, dims, ring)}
    if tile:
        ev["tile"] = tile
    h = dict(how)
    h["emb"] = emb
    if mode != "linear" and rng.random() < 0.3 and h.get("pt") not in ("int", "mixed") and h.get("Play") not in ("I", "4"):      # just outside: only the side counts
        h["nudge"] = rng.choice(NUDGES)
    h["A"] = A if A is not None else (1.0 if h.get("Clay") in ("I", "4") else rng.choice(A_POOL))
    return {"ev": ev, "how": h, "cost": cost}


def mk_affine(rng, pat, k, mode, orders, nx, form, how, fine=None, npts=None, where="any"):
    """products of affine data on grids with very fine lattices"""
    d = len(pat)
    fine = fine or [26, 16, 11, 8][d - 1]
    H = 2 ** fine
    dims, off = [], []
    for t in pat:
        n = rng.choice([2, 3, 4, 5])
        h = rng.choice([H, H, H - 1, 3 * H // 4 + 1])
        if t == "u":
            dims.append({"t": "u", "a": rng.choice([0, 0, -h]), "h": h, "n": n})
        else:
            x = [0]
            for _ in range(n - 1):
                x.append(x[-1] + rng.choice([H, H // 8, 4, H // 2 + 4]) // 4 * 4)
            D = 1
            for a, b in zip(x, x[1:]):
                D = D * (b - a) // math.gcd(D, b - a)
            if D >= 2 ** 31:
                x = [x[0]] + [x[0] + H * (i + 1) for i in range(n - 1)]
                D = H
            dims.append({"t": "n", "x": x, "D": D})

    def co(g):
        L, U, r = lo(g), hi(g), rng.random()
        nd = node(g, rng.randrange(size(g)))
        e = rng.choice([0, 1, 2, 3, 5, 17, H // 4096, H // 1024, H // 600, H // 333, H // 100])
        if r < 0.7:
            return min(max(nd + rng.choice([-1, 1]) * e, L), U)
        if where == "in" or r < 0.85:
            return rng.randint(L, U)
        return rng.choice([L - 1, U + 1, L - e - 1, U + e + 1, U + g.get("h", H) // 3, L - g.get("h", H) // 5])
    n = 1 if form == "point" else npts or rng.choice([1, 6, 20])
    pts = [[co(g) for g in dims] for _ in range(n)]
    kink = k == 1 and any(1 in o for o in orders)
    ab = [[[rng.choice([0, 1, -3, 7]), rng.choice([1, 1, -1, 2])] for _ in dims] for _ in range(max(1, nx))]
    ev = {"op": "affine", "dims": dims, "k": k, "mode": mode, "orders": orders, "nx": nx, "ab": ab, "pts": pts, "form": form}
    for t in range(30):
        s = [2.0 ** -fine, 1.0, 2.0 ** -20, 0.1 / H, 1 / 3.0 / H, 7.3][t % 6 if t < 24 else 0]
        emb = [[rng.choice([0.0, 0.0, 1.0, -2.5]) if t < 24 else 0.0, s] for _ in dims]
        if affine_tol(ev, emb) < 0.2:
            break
    else:
        return None
    b = affine_bound(ev)
    ev["ring"] = "z" if b < 2 ** 29 else "m"
    # integers of the specification: al + be * coordinate must fit
    if max(max(abs(lo(g)), abs(hi(g))) for g in dims) > 2 ** 28 or max(abs(x) for p in pts for x in p) > 2 ** 28:
        return None
    if mode != "linear" and rng.random() < 0.5:
        how = dict(how, nudge=rng.choice(NUDGES))
    return {"ev": ev, "how": dict({"api": "eval_spline"}, **how, emb=emb, A=rng.choice([1.0, 0.5, -2.0, 0.1, 1e-9])), "cost": cost(d, k, orders)}


FAR_T = [2.0 ** 40, 2.0 ** 53, 2.0 ** 61, 2.0 ** 62, 2.0 ** 63, 2.0 ** 64, 2.0 ** 66, 1e22, 1e30, 1e60]


def mk_far(rng, dims, k, orders, nx, pts, form, how, c=1):
    """points much further outside than lattice integers can say"""
    d = len(dims)
    far = [[j + 1, rng.choice([-1, 1, 1])] for j in sorted(rng.sample(range(d), rng.choice([1, 1, min(2, d)])))]
    pts = [list(p) for p in pts]
    for j, side in far:
        for p in pts:
            p[j - 1] = hi(dims[j - 1]) if side > 0 else lo(dims[j - 1])
    out = far_base({"far": far, "dims": dims, "pts": pts})
    job = mk_eval(rng, dims, k, "linear", orders, nx, out, form, how, cmax=20, cost=c)
    if job is None:
        return None
    ev = job["ev"]
    b = bound(dims, k, "linear", out, arr_absmax(ev["arr"])) * 3 ** d
    ts = [t for t in FAR_T if b / t < 0.02]
    ev.update(op="far", pts=pts, far=far)
    job["how"]["t"] = [rng.choice(ts) for _ in far]
    return job


def cost(d, k, orders=None, nx=0):
    if k == 1:
        return 0.3 + 0.2 * d + (0.2 * len(orders) if orders else 0)
    return [0.8, 2.0, 6.0, 20.0][d - 1] * (1 + 0.5 * len(orders or []))


class Groups(dict):
    """jobs grouped by JIT key"""

    def put(self, key, job):
        if job is not None:
            self.setdefault(key, []).append(job)

    def lists(self):
        return list(self.values())
