"""C13: both conventions give the same routing; the 8 symmetries of the square act on
weights, steps and times as they should."""
import itertools
from math import cos, pi, sin

import numpy as np

from mc import dom, examples, ref, rng, sim
from mc.core import Violation, check

ID = "C13"
LEVEL = "model_checking"
ASSUMPTIONS = [
    "cells without any flow have no flow direction: step times out of them are not "
    "compared (they are bounded by C05)",
    "times are compared within 1e-5 relative (flow components below 1e-8 are rounded up)",
]
BOUNDS = {
    "quick": "all 256 wet/dry neighbourhoods x 3 stage patterns tiled in one domain, x 16 "
             "flow directions, and 24 dense domains (4 shapes) of mixed fields, and the example domains of the repository "
             "(weights and steepest-descent paths from every cell), x the 8 "
             "symmetries x 2 conventions x velocity/discharge/topography input; 16 draws "
             "per cell, and whole steepest-descent paths",
    "thorough": "32 flow directions x 4 (theta,gamma), 200 dense domains, 48 draws",
}


def cases(tier):
    q = tier == "quick"
    na = 16 if q else 32
    for a in range(na):
        for tg in ([(1.0, 0.05)] if q else [(1.0, 0.05), (0.0, 0.5), (2.0, 1.0),
                                             (0.5, 0.0)]):
            yield {"k": "tile", "angle": a, "na": na, "tg": tg, "draws": 16 if q else 48}
    for name in examples.NAMES[:2]:
        for m in range(1, 3) if q else range(8):
            yield {"k": "example", "name": name, "m": m, "draws": 0}
    for s in range(24 if q else 200):
        yield {"k": "dense", "seed": s, "draws": 16 if q else 48}


class Sym(object):
    """one of the 8 symmetries: optional mirror (east <-> west), then k quarter turns
    counter-clockwise"""

    def __init__(self, k, flip):
        self.k, self.flip = k, flip

    def __repr__(self):
        return "%smirror, %d quarter turns" % ("" if self.flip else "no ", self.k)

    def grid(self, a):
        a = np.asarray(a)
        return np.rot90(np.fliplr(a) if self.flip else a, self.k).copy()

    def vec(self, e, n):
        if self.flip:
            e, n = -np.asarray(e), np.asarray(n)
        for _ in range(self.k):
            e, n = -np.asarray(n), np.asarray(e)
        return e, n

    def flow(self, e, n):
        e, n = self.vec(e, n)
        return self.grid(e), self.grid(n)

    def cells(self, shape):
        """cell -> image cell"""
        idx = np.arange(shape[0] * shape[1]).reshape(shape)
        t = self.grid(idx)
        out = {}
        for i in range(t.shape[0]):
            for j in range(t.shape[1]):
                v = t[i, j]
                out[(int(v // shape[1]), int(v % shape[1]))] = (i, j)
        return out

    def window(self):
        """window position k -> image position"""
        out = []
        for dr, dc in ref.OFFS:
            e, n = self.vec(float(dc), float(-dr))
            out.append(ref.OFFS.index((int(-n), int(e))))
        return out


SYMS = [Sym(k, f) for f in (False, True) for k in range(4)]


def fields(case):
    if case["k"] == "tile":
        R, C = 16, 48
        depth = np.zeros((3 * R, 3 * C))
        stage = np.zeros((3 * R, 3 * C))
        n = 0
        for r in range(R):
            for c in range(C):
                pat = (r * C + c) % 256
                var = (r * C + c) // 256
                b = 0
                for k, (dr, dc) in enumerate(ref.OFFS):
                    i, j = 3 * r + 1 + dr, 3 * c + 1 + dc
                    if k == 4:
                        depth[i, j], stage[i, j] = 1.0, 2.0
                        continue
                    wet = pat >> b & 1
                    b += 1
                    depth[i, j] = [0.0, [1.0, 0.5, 2.25, 1.5][(k + var + pat) % 4]][wet]
                    stage[i, j] = [[2.0, 1.5, 1.75, 2.5], [2.0] * 4,
                                   [2.25, 2.5, 1.9, 2.0]][var][(k * 3 + pat) % 4]
        ang = 2 * pi * (case["angle"]) / case["na"]
        sp = 0.5 + dom.field(3 * R, 3 * C, 17, [0.0, 0.25, 1.0])
        e, nn = sp * round(cos(ang), 12), sp * round(sin(ang), 12)
        ct = np.where(depth > 0.1, 1, 2)
        return depth, stage, e, nn, ct, case["tg"]
    if case["k"] == "example":
        depth, stage, e, n = [np.array(a, float) for a in examples.load(case["name"])]
        return depth, stage, np.nan_to_num(e), np.nan_to_num(n), None, \
            [(1.0, 0.05), (0.0, 0.5), (2.0, 1.0), (0.5, 0.0)][case["m"] % 4]
    s = case["seed"]
    L, W = [(9, 9), (8, 11), (12, 7), (10, 10)][s % 4]
    depth = dom.field(L, W, 5 * s, [1.0, 1.5, 0.5, 2.0, 1.0, 0.0, 0.05, 1.25])
    stage = dom.field(L, W, 5 * s + 1, [1.0, 1.25, 0.75, 1.1, 0.9])
    e = dom.field(L, W, 5 * s + 2, [0.5, 1.0, -0.5, 0.0, 0.7, -2.0])
    n = dom.field(L, W, 5 * s + 3, [0.5, -1.0, 0.25, 0.0, 0.7, 0.6])
    if s % 3 == 1:
        # flow almost along the axes
        n = np.where(n > 0, n * 2e-4, n)
    elif s % 3 == 2:
        e = np.where(e > 0, e * 1e-5, e)
    if s % 6 in (4, 5):
        # centimetres of water (with a smaller dry depth: see build)
        depth = depth * 0.01
    ct = None if s % 2 else dom.field(L, W, 5 * s + 4, [1, 0, 1, 1, 2, 0, 1]).astype(int)
    return depth, stage, e, n, ct, [(1.0, 0.05), (0.0, 0.5), (2.0, 1.0)][s % 3]


def dry_of(depth):
    return 0.1 if np.max(depth) > 0.1 else 0.001


def build(sym, depth, stage, e, n, ct, tg, model, kind, steep=False):
    e2, n2 = sym.flow(e, n)
    kw = dict(qe=e2, qn=n2) if kind != "vel" else dict(ve=e2, vn=n2)
    d, s = sym.grid(depth), sym.grid(stage)
    if kind == "topo":
        kw.update(topography=s - d, stage=s)
    else:
        kw.update(depth=d, stage=s)
    if ct is not None:
        kw["cell_type"] = sym.grid(ct)
    kw["dry_depth"] = dry_of(depth)
    return dom.particles(theta=tg[0], gamma=tg[1], diff_coeff=0.0, dx=2.0, model=model,
                         steepest_descent=True if steep else None, **kw)


def steps(p, cells, draws):
    """{cell: {destination: time}} over the draws; and the steepest-descent style path"""
    out = {c: {} for c in cells}
    for u in draws:
        sim.place(p, cells)
        wd = sim.step(p, u)
        for q, c in enumerate(cells):
            to = (int(wd["xinds"][q][-1]), int(wd["yinds"][q][-1]))
            out[c][to] = wd["travel_times"][q][-1]
    return out


def tolerance(kind, depth, speed):
    """1e-6 of the largest possible time of a step (times are exactly 0 or tiny across
    the flow, where the 1e-8 flow components show)"""
    with np.errstate(all="ignore"):
        v = speed if kind == "vel" else np.where(depth > 0, speed / depth, 0)
    v = np.maximum(v, 1e-8)

    def f(a, b):
        d = np.hypot(a[0] - b[0], a[1] - b[1])
        # rounding a component up to 1e-8 turns the flow by that much of the speed
        return (1e-6 + 4e-8 / v[a]) * d * 2.0 * 0.5 * (1 / v[a] + 1 / v[b])
    return f


def run_case(case, st):
    depth, stage, e, n, ct, tg = fields(case)
    shape = depth.shape
    draws = rng.mid(case["draws"])
    ident = SYMS[0]
    kinds = ("q", "vel", "topo") if case["k"] == "dense" else \
        (("q", "vel", "topo")[case["angle"] % 3],) if case["k"] == "tile" else \
        (("q", "vel")[case["m"] // 2 % 2],)
    eff_ct = ct if ct is not None else ref.default_cell_type(np.nan_to_num(depth),
                                                               dry_of(depth))
    speed = np.hypot(e, n)
    starts = []
    for i in range(2, shape[0] - 2):
        for j in range(2, shape[1] - 2):
            if case["k"] == "tile" and (i % 3 != 1 or j % 3 != 1):
                continue
            if depth[i, j] > dry_of(depth) and eff_ct[i, j] != 2:
                starts.append((i, j))

    for kind in kinds:
        full = tolerance(kind, depth, speed)
        base = build(ident, depth, stage, e, n, ct, tg, None, kind)
        W0 = np.nan_to_num(np.array(base.weight, float))
        S0 = None if case["k"] == "example" else steps(base, starts, draws)
        for sym in SYMS:
            cmap = sym.cells(shape)
            wmap = sym.window()
            for model in (None, "DeltaRCM"):
                if sym is ident and model is None:
                    continue
                ctx = dict(symmetry=repr(sym), model=model, input=kind, tg=tg,
                           case={k: v for k, v in case.items()})
                p = build(sym, depth, stage, e, n, ct, tg, model, kind)
                W1 = np.nan_to_num(np.array(p.weight, float))
                # weights, image under the symmetry
                back = np.zeros_like(W0)
                for k in range(9):
                    back[:, :, k] = sym_back(sym, W1[:, :, wmap[k]], shape)
                for c in starts:
                    a, b = W0[c], back[c]
                    if abs(a.sum() - b.sum()) > 1e-9 * max(1, a.sum()):
                        a, b = a / max(a.sum(), 1e-300), b / max(b.sum(), 1e-300)
                    if np.abs(a - b).max() > 1e-9:
                        raise Violation("routing probabilities change with the "
                                        "orientation or convention", cell=c,
                                        probabilities=a, image=b, **ctx)
                if case["k"] == "example":
                    st.transition(len(starts))
                    continue
                S1 = steps(p, [cmap[c] for c in starts], draws)
                cmp = 0
                for c in starts:
                    for to, t in S0[c].items():
                        got = S1[cmap[c]]
                        if cmap[to] not in got:
                            # the symmetry permutes the order in which the window is
                            # laid out along the draws; rare cells may be missed
                            continue
                        cmp += 1
                        if speed[c] > 0 and abs(got[cmap[to]] - t) > full(c, to):
                            raise Violation("step time changes with the orientation or "
                                            "convention", cell=c, to=to, time=t,
                                            image=got[cmap[to]], **ctx)
                check(cmp >= len(starts), "nothing to compare", **ctx)
                st.transition(cmp)
                st.trace(len(starts))
                if sym is ident:
                    # the same draws give the very same walk
                    for c in starts:
                        check(S0[c].keys() == S1[c].keys(), "the same draws lead "
                              "elsewhere under the other convention", cell=c, **ctx)
        # whole deterministic paths
        if case["k"] != "tile":
            paths(case, st, depth, stage, e, n, ct, tg, kind, starts, speed, full)
    for c in starts:
        st.state((case["k"], case.get("seed"), case.get("angle"), case.get("name"), c))
    st.sample({"case": case, "cells": len(starts)}, 1)


def sym_back(sym, a, shape):
    """inverse of sym.grid"""
    b = np.rot90(a, -sym.k)
    return np.fliplr(b) if sym.flip else b


def paths(case, st, depth, stage, e, n, ct, tg, kind, starts, speed, full):
    ref_path = None
    for sym in SYMS:
        cmap = sym.cells(depth.shape)
        for model in (None, "DeltaRCM"):
            p = build(sym, depth, stage, e, n, ct, tg, model, kind, steep=True)
            sim.place(p, [cmap[c] for c in starts])
            for _ in range(6):
                sim.step(p, 0.5)
            wd = p.walk_data
            if ref_path is None:
                ref_path = sim.plain(wd)
                W = np.nan_to_num(np.array(p.weight, float))
                # where the greatest weight is shared, the choice is free
                nb = W.copy()
                nb[:, :, 4] = 0
                m = nb.max(axis=2)
                tie = ((nb > m[:, :, None] - 1e-9 * np.maximum(m, 1e-9)[:, :, None])
                       .sum(axis=2) > 1)
                continue
            for q, c in enumerate(starts):
                x0 = [(int(a), int(b)) for a, b in zip(ref_path["xinds"][q],
                                                       ref_path["yinds"][q])]
                x1 = [(int(a), int(b)) for a, b in zip(wd["xinds"][q], wd["yinds"][q])]
                for m in range(len(x0)):
                    ctx = dict(symmetry=repr(sym), model=model, input=kind, start=c,
                               path=x0, image=x1, case={k: v for k, v in case.items()})
                    check(m < len(x1) and cmap[x0[m]] == x1[m], "steepest-descent path "
                          "changes with the orientation or convention", **ctx)
                    if m and speed[x0[m - 1]] > 0:
                        dt0 = ref_path["travel_times"][q][m] - \
                            ref_path["travel_times"][q][m - 1]
                        dt1 = wd["travel_times"][q][m] - wd["travel_times"][q][m - 1]
                        check(abs(dt0 - dt1) <= full(x0[m - 1], x0[m]) + 1e-9 * abs(
                            wd["travel_times"][q][m]), "step time along a path changes "
                              "with the orientation or convention", step=m, got=dt1,
                              expected=dt0, **ctx)
                    if tie[x0[m]]:
                        break
                    st.transition()
                st.trace()
