"""Driving the real implementation under control."""
import copy

import numpy as np

from mc import rng


def place(p, cells, seed_time=0):
    """Fresh particles exactly at the given cells."""
    p.clear_walk_data()
    p.generate_particles(len(cells), [int(c[0]) for c in cells],
                         [int(c[1]) for c in cells], seed_time=seed_time,
                         method="exact")


def step(p, u, **kw):
    """One run_iteration call in which every random draw is u."""
    with rng.control(lambda: u):
        return p.run_iteration(**kw)


def last(wd, var="xinds"):
    return [x[-1] for x in wd[var]]


def positions(wd):
    return [(int(a[-1]), int(b[-1])) for a, b in zip(wd["xinds"], wd["yinds"])]


def plain(wd):
    """walk data as plain comparable Python values."""
    def f(v):
        if v is None:
            return None
        v = float(v)
        return "nan" if v != v else v
    return {k: [[f(v) for v in q] for q in wd[k]] for k in wd}


def same(a, b):
    """equality with nan == nan for nested containers and arrays"""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)):
            return False
        if a.shape != b.shape or a.dtype != b.dtype:
            return False
        if a.dtype.kind in "fc":
            return bool(np.array_equal(a, b, equal_nan=True))
        return bool(np.array_equal(a, b))
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(
            same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(
            same(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float) and a != a and b != b:
        return True
    return type(a) is type(b) and a == b


def snapshot(x):
    return copy.deepcopy(x)
