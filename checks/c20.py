"""C20: gridding of all small point sets against a direct inverse-distance reference."""
import itertools
from math import ceil, hypot

import numpy as np

import dorado.particle_track as pt
from mc import dom
from mc.core import Violation, check

ID = "C20"
LEVEL = "model_checking"
ASSUMPTIONS = [
    "where the k-th nearest point is not unique any choice among the equally near is "
    "accepted (the value must then lie between the extremes over the choices)",
    "boundaries do not pass through grid nodes; points are distinct; k <= number of points",
]
BOUNDS = {
    "quick": "all sets of 1..4 of 9 lattice/off-lattice positions, all k, 2 cell sizes, no "
             "boundary and 4 boundaries (one with all-NaN rows inside, one empty) x crop; "
             "other data gridded with the returned function; 16 clouds of 12..27 points, 12 lattices; 10 sets in units 2^-20, 1, 2^20 with extents and boundaries close to cell edges",
    "thorough": "sets of up to 5 of 12 positions",
}
POS = [(0.0, 0.0), (2.0, 0.0), (0.0, 2.0), (2.0, 2.0), (1.0, 0.5), (0.5, 1.25),
       (3.25, 1.0), (1.5, 3.0), (-1.0, 1.75), (2.5, 2.75), (0.125, 3.5), (-0.5, -0.75)]
BOUND = [None,
         [(-0.3, -0.3), (2.2, -0.3), (2.2, 1.7), (-0.3, 1.7)],
         [(-1.3, -1.3), (0.7, -1.3), (0.7, 3.9), (-1.3, 3.9)],
         # two lobes joined by a sliver: all-NaN rows and columns inside
         [(-1.3, -1.3), (0.3, -1.3), (0.3, 0.21), (1.71, 2.31), (3.9, 2.31), (3.9, 3.9),
          (1.69, 3.9), (1.69, 2.33), (0.28, 0.23), (-1.3, 0.23)],
         [(20.1, 20.1), (30.1, 20.1), (30.1, 30.1)]]


def cases(tier):
    q = tier == "quick"
    m = 9 if q else 12
    for n in range(1, (4 if q else 5) + 1):
        sets = list(itertools.combinations(range(m), n))
        for a in range(0, len(sets), 9):
            yield {"k": "sets", "n": n, "m": m, "from": a, "to": a + 9}
    for s in range(16):
        yield {"k": "cloud", "seed": s}
    for s in range(12):
        yield {"k": "lattice", "seed": s}
    for s in range(10):
        yield {"k": "fine", "seed": s}
    yield {"k": "errors"}


def inside(poly, x, y):
    c = False
    n = len(poly)
    for i in range(n):
        (x1, y1), (x2, y2) = poly[i], poly[(i + 1) % n]
        if (y1 > y) != (y2 > y) and x < (x2 - x1) * (y - y1) / (y2 - y1) + x1:
            c = not c
    return c


def reference(pts, q, cs, k, boundary, crop):
    """(low, high) grids of acceptable values; nan outside"""
    x0, y0 = min(p[0] for p in pts), min(p[1] for p in pts)
    nx = int(ceil((max(p[0] for p in pts) - x0) / cs) + 1)
    ny = int(ceil((max(p[1] for p in pts) - y0) / cs) + 1)
    lo, hi = np.full((ny, nx), np.nan), np.full((ny, nx), np.nan)
    for r in range(ny):
        for c in range(nx):
            X, Y = x0 + c * cs, y0 + (ny - 1 - r) * cs
            if boundary is not None and not inside(boundary, X, Y):
                continue
            d = sorted((hypot(X - p[0], Y - p[1]), i) for i, p in enumerate(pts))
            kth = d[k - 1][0]
            tol = 1e-9 * min(1.0, cs)
            sure = [i for dd, i in d if dd < kth - tol]
            tied = [i for dd, i in d if abs(dd - kth) <= tol]
            vals = []
            for ch in itertools.combinations(tied, k - len(sure)):
                sel = sure + list(ch)
                zero = [i for i in sel if hypot(X - pts[i][0], Y - pts[i][1]) == 0]
                if zero:
                    vals.append(q[zero[0]])
                elif k == 1:
                    vals.append(q[sel[0]])
                else:
                    w = [1.0 / hypot(X - pts[i][0], Y - pts[i][1]) for i in sel]
                    vals.append(sum(a * q[i] for a, i in zip(w, sel)) / sum(w))
            lo[r, c], hi[r, c] = min(vals), max(vals)
    if boundary is not None and crop:
        ok = ~np.isnan(lo)
        rows, cols = np.flatnonzero(ok.any(1)), np.flatnonzero(ok.any(0))
        if len(rows):
            s = (slice(rows[0], rows[-1] + 1), slice(cols[0], cols[-1] + 1))
        else:
            s = (slice(0, 0), slice(0, 0))
        lo, hi = lo[s], hi[s]
    return lo, hi


def compare(got, ref, ctx, st):
    lo, hi = ref
    got = np.asarray(got, float)
    if lo.size == 0 and got.size == 0:
        return
    if got.shape != lo.shape:
        raise Violation("the raster does not cover the data extent / is cropped "
                        "differently", got=got.shape, expected=lo.shape, **ctx)
    nan = np.isnan(lo)
    check(np.array_equal(np.isnan(got), nan), "cells outside the boundary, and only they, "
          "must be NaN", got=got, expected=lo, **ctx)
    s = 1e-7 * max(1.0, np.nanmax(np.abs(hi)) if not nan.all() else 1.0)
    bad = ~nan & ((got < lo - s) | (got > hi + s))
    if bad.any():
        i = np.argwhere(bad)[0]
        raise Violation("gridded value is not the inverse-distance mean of the k nearest "
                        "points", cell=i, got=got[tuple(i)], expected=lo[tuple(i)], **ctx)
    st.add("nodes", int((~nan).sum()))


def spaced(x):
    return np.repeat(np.array(x), 2)[::2]


def column(x):
    return np.array([[a, -7.0, 3.0] for a in x])[:, 0]


def backwards(x):
    return np.array(x[::-1])[::-1]


def single(x):
    return np.array(x, dtype=np.float32)


def one(pts, cs, k, bd, crop, st, seed=0, crop_default=False):
    n = len(pts)
    data = [[float(1 + (3 * i + 2) % 7) for i in range(n)],
            [(-1.0) ** i * 10.0 ** (i % 3) for i in range(n)],
            [float(i == n - 1) for i in range(n)]]
    kw = dict(k_nearest_neighbors=k)
    if bd is not None:
        kw["boundary"] = bd
    if not crop_default:
        kw["crop"] = crop
    f, g = pt.unstruct2grid(pts, data[0], cs, **kw)
    ctx = dict(points=pts, cellsize=cs, k=k, boundary=bd, crop=crop)
    compare(g, reference(pts, data[0], cs, k, bd, crop), dict(data=data[0], **ctx), st)
    st.transition()
    if bd is not None and np.asarray(g).size == 0:
        return
    for m in (1, 2):
        for conv in (list, np.array, spaced, column, backwards, single):
            compare(f(conv(data[m])), reference(pts, data[m], cs, k, bd, crop),
                    dict(data=data[m], second=True, **ctx), st)
            st.transition()
    # integer data, and back to the first data again
    compare(f(np.array([int(x) for x in data[1]])),
            reference(pts, data[1], cs, k, bd, crop), dict(data="integers", **ctx), st)
    compare(f(data[0]), reference(pts, data[0], cs, k, bd, crop),
            dict(data=data[0], again=True, **ctx), st)
    st.trace()


def run_case(case, st):
    if case["k"] == "sets":
        sets = list(itertools.combinations(range(case["m"]), case["n"]))
        for m in range(case["from"], min(case["to"], len(sets))):
            pts = [POS[i] for i in sets[m]]
            if m % 2:
                pts = pts[::-1]
            pts = [(p[0] + [0.0, 1000.0][m // 2 % 2], p[1] - [0.0, 64.0][m // 2 % 2])
                   for p in pts]
            off = ([0.0, 1000.0][m // 2 % 2], [0.0, 64.0][m // 2 % 2])
            for k in range(1, len(pts) + 1):
                for cs in (1.0, 0.75):
                    for b, bd in enumerate(BOUND):
                        if bd is not None:
                            bd = [(x + off[0], y - off[1]) for x, y in bd]
                        for crop in ((True,) if bd is None else (True, False)):
                            one(pts, cs, k, bd, crop, st, crop_default=(
                                crop and b % 2 == 0))
                st.state((sets[m], k))
        st.sample({"points": pts, "k": k}, 1)
    elif case["k"] == "lattice":
        # many points whose extent is exactly (or just not) a whole number of cells
        s = case["seed"]
        w, h = 3 + s % 4, 2 + s % 3
        pts = [(0.5 * i + 512 * (s % 2), 0.25 * j - 3.0) for i in range(2 * w + 1)
               for j in range(4 * h + 1)
               if dom.h64(s, i, j) % 3 == 0 or i in (0, 2 * w) and j in (0, 4 * h)]
        if s % 3 == 2:
            pts = pts[::-1] + [(0.5 * 2 * w + 512 * (s % 2) + 0.0625, -3.0)]
        for k in (1, 4):
            for cs in (0.5, 1.0):
                one(pts, cs, k, None, True, st)
            st.state(("lattice", s, k))
    elif case["k"] == "cloud":
        s = case["seed"]
        n = 12 + s
        pts = [((dom.h64(s, i) % 4001) / 409.6, (dom.h64(s, i, 1) % 3001) / 512.0)
               for i in range(n)]
        bd = [None, [(1.01, 0.77), (8.03, 1.1), (6.2, 5.3), (2.3, 4.9)]][s % 2]
        for k in (1, 2, 3, 5):
            for cs in (0.5, 1.3):
                for crop in (True, False):
                    one(pts, cs, k, bd, crop, st)
            st.state((s, k))
        for k in (9, 11):
            one(pts, 1.3, k, bd, True, st)
        # the documented default is 3 neighbours
        q = [float(i) for i in range(n)]
        _, g = pt.unstruct2grid(pts, q, 1)
        compare(g, reference(pts, q, 1.0, 3, None, True), dict(points=pts, k="default"),
                st)
    elif case["k"] == "fine":
        s = case["seed"]
        # an extent that exceeds a whole number of cells by very little, tiny and huge
        # units, and boundaries close to the nodes
        for unit in (2.0 ** -20, 1.0, 2.0 ** 20):
            ex = [0.0, 2.0 ** -12, -2.0 ** -12, 2.0 ** -24][s % 4] * unit
            pts = [(0.0, 0.0), (3.0 * unit + ex, 0.25 * unit), (0.5 * unit, 2 * unit - ex),
                   (1.25 * unit, 1.125 * unit), (2.5 * unit, 0.75 * unit)]
            pts = pts[s % 3:] + pts[:s % 3]
            eps = 2.0 ** -[7, 9, 11, 14][s // 2 % 4] * [1, -1][s % 2]
            lo, hi = (1 + eps) * unit, (2 + eps) * unit
            bds = [None, [(-unit, -unit), (hi, -unit), (hi, lo), (-unit, lo)],
                   [(lo, -unit), (5 * unit, -unit), (5 * unit, 5 * unit),
                    (lo, 5 * unit)],
                   [(lo, lo), (lo, 4 * unit), (4 * unit, 4 * unit), (4 * unit, lo)]]
            for bd in bds:
                for k in (1, 2, 3, 5):
                    one(pts, unit, k, bd, True, st)
            st.state(("fine", s, unit))
    else:
        for n in range(1, 5):
            for m in range(0, 6):
                if n == m:
                    continue
                st.transition()
                st.trace()
                st.state((n, m))
                try:
                    pt.unstruct2grid(POS[:n], [1.0] * m, 1.0, k_nearest_neighbors=1)
                except ValueError:
                    continue
                raise Violation("coordinates and data of different lengths accepted",
                                points=n, data=m)


def finish(total, tier):
    check(total.n.get("nodes", 0) > 0, "vacuous")
