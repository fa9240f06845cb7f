"""C19: coordinate conversions over all cells of all small rasters, origins, sizes."""
import itertools

import numpy as np

import dorado.particle_track as pt
from mc import dom, sim
from mc.core import Violation, check

ID = "C19"
LEVEL = "model_checking"
ASSUMPTIONS = ["points exactly half way between two cells may go to either"]
BOUNDS = {
    "quick": "rasters 1..7 x 1..7 and 3 long ones x 9 origins x 12 cell sizes: every cell "
             "there and back; every cell, and two rings of cells around the raster, x 5x5 off-centre offsets; lists of all orders of "
             "4 points; walk data with particles of all length combinations 1..3",
    "thorough": "rasters to 16x16, 7x7 offsets",
}
ORIGINS = [(0, 0), (0.0, -12.5), (-3, 7), (100.25, 200.75), (500000.3, 4100000.7),
           (-91.3421, 29.5132), (1e-3, -1e-3), (-1e6, 1e6), (0.1, 0.2)]
SIZES = [1, 1.0, 0.5, 2, 30, 0.1, 0.3, 1e-4, 250.0, 1.0 / 3, 1.0 / 3600, 12.3456789]


def cases(tier):
    m = 7 if tier == "quick" else 16
    shapes = [(L, W) for L in range(1, m + 1) for W in range(1, m + 1)]
    for sh in shapes + [(1, 300), (300, 2), (57, 91)]:
        yield {"k": "cells", "shape": list(sh), "off": 5 if tier == "quick" else 7}
    yield {"k": "lists"}
    yield {"k": "walks"}


def run_case(case, st):
    if case["k"] == "lists":
        pts = [(10.4, 21.2), (12.0, 24.9), (16.1, 20.3), (10.4, 33.0)]
        for r in range(0, 5):
            for perm in itertools.permutations(pts, r):
                for conv in (list, tuple, lambda p: [list(x) for x in p],
                             lambda p: np.array(p).reshape(-1, 2)):
                    got = pt.coord2ind(conv(perm), (10., 20.), (9, 8), 2.)
                    exp = [(int(9 - round((y - 20.) / 2)), int(round((x - 10.) / 2)))
                           for x, y in perm]
                    check([tuple(g) for g in got] == exp, "points converted in another "
                          "order or number", points=perm, got=got, expected=exp)
                    st.transition(max(1, r))
                    st.trace()
                    st.state(perm)
        return
    if case["k"] == "walks":
        for lens in itertools.product((1, 2, 3), repeat=3):
            for extra in (False, True):
                for num in (int, np.int64, float):
                    wd = {"xinds": [[num((3 * q + k) % 5) for k in range(n)]
                                    for q, n in enumerate(lens)],
                          "yinds": [[num((2 * q + 3 * k) % 7) for k in range(n)]
                                    for q, n in enumerate(lens)],
                          "travel_times": [[0.5 * k for k in range(n)] for n in lens]}
                    if extra:
                        wd["depth"] = [[1.0] * n for n in lens]
                        wd["xcoord"] = [["old"]]
                    keep = sim.snapshot(wd)
                    r = pt.ind2coord(wd, (5.0, -2.0), (5, 7), 2.5)
                    for k in keep:
                        if k not in ("xcoord", "ycoord"):
                            check(sim.same(keep[k], r[k]), "entry %s changed" % k)
                    check(set(r) == set(keep) | {"xcoord", "ycoord"}, "entries added",
                          got=sorted(r))
                    for q, n in enumerate(lens):
                        check(len(r["xcoord"][q]) == n == len(r["ycoord"][q]),
                              "coordinates are not parallel to the indices")
                        for k in range(n):
                            x = 5.0 + 2.5 * float(keep["yinds"][q][k])
                            y = -2.0 + 2.5 * (5 - float(keep["xinds"][q][k]))
                            check(abs(r["xcoord"][q][k] - x) < 1e-9 and
                                  abs(r["ycoord"][q][k] - y) < 1e-9,
                                  "coordinate of a recorded cell is wrong", got=[
                                      r["xcoord"][q][k], r["ycoord"][q][k]],
                                  expected=[x, y])
                    st.transition(sum(lens))
                    st.trace()
                    st.state((lens, extra, str(num)))
        return
    L, W = case["shape"]
    cells = [(i, j) for i in range(L) for j in range(W)]
    offs = np.linspace(-0.49, 0.49, case["off"])
    for (x0, y0), cs in itertools.product(ORIGINS, SIZES):
        if abs(x0) > 1e5 and cs < 1e-3:
            continue       # below the resolution of the numbers
        ctx = dict(origin=(x0, y0), shape=(L, W), cellsize=cs)
        # cells -> coordinates -> cells; half of them as one particle, half one each
        wd = {"xinds": [[c[0] for c in cells]] + [[c[0]] for c in cells],
              "yinds": [[c[1] for c in cells]] + [[c[1]] for c in cells],
              "travel_times": [[0.0] * len(cells)] + [[0.0] for c in cells]}
        r = pt.ind2coord(wd, (x0, y0), (L, W), cs)
        for q in range(len(wd["xinds"])):
            pts = list(zip(r["xcoord"][q], r["ycoord"][q]))
            back = pt.coord2ind(pts, (x0, y0), (L, W), cs)
            want = list(zip(wd["xinds"][q], wd["yinds"][q]))
            if [tuple(b) for b in back] != want:
                raise Violation("cell -> coordinate -> cell is not the identity",
                                got=back, expected=want, coordinates=pts, **ctx)
            for (a, b) in back:
                check(isinstance(a, (int, np.integer)) and isinstance(b, (int, np.integer)),
                      "indices are not integers", got=(a, b), **ctx)
        xc, yc = r["xcoord"][0], r["ycoord"][0]
        for n, (i, j) in enumerate(cells):
            x, y = x0 + j * cs, y0 + (L - i) * cs
            tol = 1e-6 * cs + 1e-9 * max(1, abs(x0), abs(y0)) * (cs if abs(x0) < 1e5 else
                                                                1)
            check(abs(xc[n] - x) <= tol and abs(yc[n] - y) <= tol, "coordinate of a cell: "
                  "columns go right from the origin, rows down from the top", cell=(i, j),
                  got=(xc[n], yc[n]), expected=(x, y), **ctx)
        # points -> cells -> coordinates
        if len(cells) > 200:
            sub = cells[::7]
        else:
            # and the cells that would surround the raster
            sub = [(i, j) for i in range(-2, L + 2) for j in range(-2, W + 2)]
        pts = [(x0 + (j + a) * cs, y0 + (L - i + b) * cs) for i, j in sub for a in offs
               for b in offs]
        ind = pt.coord2ind(pts, (x0, y0), (L, W), cs)
        check(len(ind) == len(pts), "number of points", **ctx)
        wd = {"xinds": [[i[0] for i in ind]], "yinds": [[i[1] for i in ind]],
              "travel_times": [[0.0] * len(ind)]}
        r = pt.ind2coord(wd, (x0, y0), (L, W), cs)
        n = 0
        for i, j in sub:
            for a in offs:
                for b in offs:
                    if tuple(ind[n]) != (i, j):
                        raise Violation("point is not assigned to the cell it is nearest "
                                        "to", point=pts[n], got=ind[n], expected=(i, j),
                                        **ctx)
                    dx = abs(r["xcoord"][0][n] - pts[n][0])
                    dy = abs(r["ycoord"][0][n] - pts[n][1])
                    check(max(dx, dy) <= 0.5 * cs + 1e-6 * cs, "point -> cell -> "
                          "coordinate is off by more than half a cell", point=pts[n],
                          got=(r["xcoord"][0][n], r["ycoord"][0][n]), **ctx)
                    n += 1
        st.transition(len(cells) + len(pts))
        st.trace()
        st.state((L, W, x0, y0, cs))
    st.sample({"shape": (L, W), "cells": len(cells)}, 1)
