"""Lattice embedding and projection (no numpy: shared by planner and workers)."""
import math
from math import prod

P1, P2 = 46337, 46327
INF = 2000000000           # lattice stand-in for +-infinity
IMAX = 2 ** 31 - 1


def coord(emb, p):
    x0, s = emb
    if p >= INF:
        return math.inf
    if p <= -INF:
        return -math.inf
    return x0 + s * p


def node(g, i):
    return g["a"] + g["h"] * i if g["t"] == "u" else g["x"][i]


def size(g):
    return g["n"] if g["t"] == "u" else len(g["x"])


def lo(g):
    return node(g, 0)


def hi(g):
    return node(g, size(g) - 1)


def den1(k, g):
    if k == 1:
        return g["h"] if g["t"] == "u" else g["D"]
    return 6 * g["h"] ** 3


def den(k, dims):
    return prod(den1(k, g) for g in dims)


def den_field(k, dims, ring):
    d = den(k, dims)
    return [d] if ring == "z" else [d % P1, d % P2]


def arr_absmax(arr):
    if "gen" in arr:
        g = arr["gen"]
        return max(abs(g[4]), abs(g[3] - g[4]), 1)
    return max([1] + [abs(e) for e in arr["flat"]])


def mingap(g):
    return g["h"] if g["t"] == "u" else min(b - a for a, b in zip(g["x"], g["x"][1:]))


def bound(dims, k, mode, pts, cmax):
    """bound on |numerator| over all points (also for first derivatives)"""
    b = den(k, dims) * cmax
    for i, g in enumerate(dims):
        far = 0
        if mode == "linear":
            for p in pts:
                far = max(far, lo(g) - p[i], p[i] - hi(g))
        b *= 1 + 2 * far / mingap(g)
    return b


def far_base(ev):
    """the points of a far event one cell outside"""
    side = {j - 1: s for j, s in ev["far"]}
    return [[c + side.get(i, 0) * mingap(g) for i, (c, g) in enumerate(zip(p, ev["dims"]))] for p in ev["pts"]]


def cond(dims, emb, pts):
    """relative error amplification of representing coordinates in floats"""
    c = 1.0
    for i, g in enumerate(dims):
        x0, s = emb[i]
        ext = max([abs(lo(g)), abs(hi(g))] + [abs(p[i]) for p in pts if abs(p[i]) < INF])
        c = max(c, (abs(x0) + s * ext) / (s * mingap(g)))
    return c


def tol(b, c):
    return 1e-7 + 2e-14 * b * (5 + c)


def affine_bound(ev):
    """largest magnitude of a term in the evaluation of products of affine data"""
    m = 0
    for ab in ev["ab"]:
        b = 1.0
        for i, (g, (al, be)) in enumerate(zip(ev["dims"], ab)):
            far = 0
            if ev["mode"] == "linear":
                far = max([0] + [max(lo(g) - p[i], p[i] - hi(g)) for p in ev["pts"]])
            b *= (abs(al) + abs(be) * (max(abs(lo(g)), abs(hi(g))) + mingap(g))) * (1 + 2 * far / mingap(g))
        m = max(m, b)
    return m


def affine_tol(ev, emb):
    c = cond(ev["dims"], emb, ev["pts"] if ev["mode"] == "linear" else [])
    # an error of the coordinate is magnified by the slope over the whole cell
    return 1e-7 + 4e-15 * affine_bound(ev) * (5 + c)


class Proj:
    """collects projected numbers; ring z: ints, ring m: residue pairs"""

    def __init__(self, ring):
        self.ring, self.num, self.off = ring, [], []

    def add(self, r, t):
        if not math.isfinite(r):
            self._bad()
            return
        q = round(r)
        if abs(r - q) > t or abs(q) > 2 ** 52 or (self.ring == "z" and abs(q) > IMAX):
            self._bad()
            return
        self.num.append(q if self.ring == "z" else [q % P1, q % P2])

    def _bad(self):
        self.num.append(0 if self.ring == "z" else [0, 0])
        if len(self.off) < 50:
            self.off.append(len(self.num))
