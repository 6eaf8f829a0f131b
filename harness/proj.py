"""Lattice embedding and projection for the workers."""
import numpy as np
from proj_py import *


def arr_ints(arr):
    """integer numpy array of an abstract array"""
    n = prod(arr["sh"])
    if "gen" in arr:
        g = arr["gen"]
        o = np.arange(n, dtype=np.int64)
        v = ((g[0] * o * o + g[1] * o + g[2]) % g[3]) - g[4]
    else:
        v = np.array(arr["flat"], dtype=np.int64)
    return v.reshape(arr["sh"])
