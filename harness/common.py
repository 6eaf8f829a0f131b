"""Helpers shared by all operations (no import of the code under test)."""
import math
import numpy as np
from worker import HarnessError
from proj import *


def layout(a, lay):
    """the same contents with another memory layout"""
    if lay == "C":
        return np.ascontiguousarray(a)
    if lay == "F":
        return np.asfortranarray(a)
    if lay == "R":
        a = np.ascontiguousarray(a).copy()
        a.flags.writeable = False
        return a
    if lay == "S":      # every other entry of a larger array along every axis
        big = np.full([2 * s + 1 for s in a.shape], 777.0 if a.dtype != np.int64 else 777, dtype=a.dtype)
        v = big[tuple(slice(1, 2 * s + 1, 2) for s in a.shape)]
        v[...] = a
        return v
    if lay == "N":      # negative strides
        return np.ascontiguousarray(a[tuple(slice(None, None, -1) for _ in a.shape)])[
            tuple(slice(None, None, -1) for _ in a.shape)]
    if lay == "T":      # transposed memory order, not contiguous as C
        return np.ascontiguousarray(a.T).T
    if lay == "I":
        r = np.ascontiguousarray(a).astype(np.int64)
        if not np.array_equal(r, a):
            raise HarnessError("not integers")
        return r
    if lay == "4":      # single precision (contents must be representable)
        r = np.ascontiguousarray(a).astype(np.float32)
        if not np.array_equal(r, a):
            raise HarnessError("not representable")
        return r
    raise HarnessError("layout " + lay)


def int_grid(grid):
    """the same grid written with integers"""
    def whole(x):
        if x != int(x):
            raise HarnessError("not an integer")
        return int(x)
    return tuple(np.array([whole(x) for x in g], dtype=np.int64) if isinstance(g, np.ndarray) else (whole(g[0]), whole(g[1]), g[2]) for g in grid)


class Watch:
    """the arrays a call must not change"""

    def __init__(self):
        self.l, self.s = [], []

    def add(self, name, a):
        base = a
        while isinstance(base.base, np.ndarray):
            base = base.base
        self.l.append((name, a, base, base.tobytes(), a.shape, a.strides, a.dtype))
        return a

    def seq(self, name, c):
        """a list: neither its elements nor their identity may change"""
        if isinstance(c, list):
            self.s.append((name, c, list(c), [list(e) if isinstance(e, list) else None for e in c]))
        for i, e in enumerate(c):
            if isinstance(e, np.ndarray):
                self.add("%s%d" % (name, i), e)
        return c

    def changed(self):
        return [n for n, c, old, deep in self.s
                if len(c) != len(old) or any(x is not y for x, y in zip(c, old)) or
                any(d is not None and d != e for d, e in zip(deep, c))] + [n for n, a, b, s, sh, st, dt in self.l
                if b.tobytes() != s or a.shape != sh or a.strides != st or a.dtype != dt]


class OutBuf:
    """output array, prefilled with garbage, possibly a view into a guarded array"""

    def __init__(self, shape, kind):
        self.kind = kind
        g = 1234.5
        if kind == "plain":
            self.big = self.a = np.full(shape, g)
        elif kind == "nan":
            self.big = self.a = np.full(shape, np.nan)
        elif kind == "view":
            self.big = np.full([2 * s + 2 for s in shape], -4321.25)
            self.a = self.big[tuple(slice(1, 2 * s + 1, 2) for s in shape)]
            self.a[...] = g
        elif kind == "F":
            self.big = self.a = np.asfortranarray(np.full(shape, g))
        elif kind == "pad":
            self.big = np.full([s + 2 for s in shape], -4321.25)
            self.a = self.big[tuple(slice(1, s + 1) for s in shape)]
            self.a[...] = g
        else:
            raise HarnessError("out " + kind)

    def guard_ok(self):
        if self.big is self.a:
            return True
        b = self.big.copy()
        sl = (tuple(slice(1, 2 * s + 1, 2) for s in self.a.shape) if self.kind == "view"
              else tuple(slice(1, s + 1) for s in self.a.shape))
        b[sl] = -4321.25
        return bool(np.all(b == -4321.25))


def exc_obs(e):
    return {"st": "raised", "exc": type(e).__name__[:40], "msg": str(e)[:400], "frame": []}


def real_grid(dims, emb):
    out = []
    for g, e in zip(dims, emb):
        if g["t"] == "u":
            out.append((coord(e, lo(g)), coord(e, hi(g)), g["n"]))
        else:
            out.append(np.array([coord(e, p) for p in g["x"]]))
    return tuple(out)


def points_array(pts, emb):
    return np.array([[coord(emb[i], p[i]) for i in range(len(emb))] for p in pts],
                    dtype=float).reshape(len(pts), len(emb))


def project_list(vals, scale, t, ring="z"):
    p = Proj(ring)
    for v in vals:
        p.add(v * scale if math.isfinite(v) else v, t)
    return p


RETURNED = []      # what the library returned since the last call of a session


def note(*xs):
    """register returned objects: sessions watch them and the user may overwrite them"""
    RETURNED.extend(xs)
