"""C05: travel time of one step, all directions x flow directions x speeds x draws."""
import itertools
from math import cos, pi, sin

import numpy as np

from mc import dom, examples, ref, rng, sim
from mc.core import Violation, check

ID = "C05"
LEVEL = "model_checking"
ASSUMPTIONS = [
    "formula of mc/ref.py; relative tolerance 1e-6 of the largest possible time of the "
    "step (flow components below 1e-8 are rounded up by the code)",
    "for a cell without flow the flow direction is undefined: only the range is checked",
]
BOUNDS = {
    "quick": "8 directions x (16 flow angles x 4 speeds + no flow) x 5 neighbour flows, "
             "diff_coeff {0,.2,1,2} x 6 draws, dx {.5,1,50}, velocity and discharge input, "
             "custom distances/angles; every cell of the example domains of the repository; dx 2e-4..25000, diff_coeff 1e-5..2.5, speeds 1.5e-6..200; all pairs of draws for 2 particles / 2 moves",
    "thorough": "32 flow angles x 6 speeds, 12 draws, 6 dx, more diffusion coefficients; "
                "joint draw products with 5-value menus",
}
DIRS = [0, 1, 2, 3, 5, 6, 7, 8]


def cases(tier):
    q = tier == "quick"
    for dc, dx, vel, custom in itertools.product(
            [None, 0.0, 0.2, 1.0, 2.0] if q else [None, 0.0, 0.05, 0.2, 0.5, 1.0, 1.5, 2.0],
            [0.5, 1.0, 50.0] if q else [0.1, 0.5, 1, 3.5, 50.0, 1000.0],
            [False, True], [0, 1, 2]):
        yield {"kind": "table", "dc": dc, "dx": dx, "vel": vel, "custom": custom,
               "na": 16 if q else 32, "sp": [0.05, 0.5, 1.0, 3.0] if q
               else [0.02, 0.05, 0.5, 1.0, 3.0, 12.0],
               "us": [0.0, 0.25, 0.5, 0.9, 1.0 - 2.0 ** -53, 1e-9] if q else
               [0.0, 1.0 - 2.0 ** -53, 1e-9] + rng.mid(9)}
    # unusual magnitudes
    for dc, dx, vel, sp in ((1e-3, 1.0, True, [0.5]), (1e-5, 3.0, False, [0.5]),
                            (0.3, 1e-3, True, [1.0]), (0.0, 2e-4, False, [1.0]),
                            (0.2, 25000.0, True, [0.7]), (1.999, 0.01, True, [2.0]),
                            (0.1, 1.0, True, [1e-3, 200.0]),
                            (0.1, 1.0, False, [5e-4, 40.0]), (2.5, 1.0, True, [1.0]),
                            (0.1, 1.0, True, [5e-5, 1.5e-6]),
                            (0.2, 1.0, False, [6e-5, 2e-6])):
        yield {"kind": "table", "dc": dc, "dx": dx, "vel": vel, "custom": 0, "na": 8,
               "sp": sp, "us": [0.0, 0.3, 0.75, 1.0 - 2.0 ** -53]}
    for dc in (0.2, 2.0):
        for mode in ("step", "target"):
            yield {"kind": "joint", "dc": dc, "menu": 3 if q else 4, "mode": mode}
    for name in examples.NAMES[:2]:
        for r in range(0, 120, 10):
            yield {"kind": "example", "name": name, "rows": r}
    for n in range(8):
        yield {"kind": "walk", "n": n, "len": 4 if q else 6}


def table(case):
    """one stencil per (direction, centre flow, neighbour flow); only the neighbour in
    that direction can be entered, whatever the flow does (gamma=1, downhill)"""
    na = case["na"]
    centre = [(0.0, 0.0)] + [(s * cos(2 * pi * (a + 0.37) / na), s * sin(2 * pi * (a + 0.37) / na))
                             for a in range(na) for s in case["sp"]]
    centre += [(s * e, s * n) for s in case["sp"][:2]
               for e, n in ((1, 0), (-1, 0), (0, 1), (0, -1), (1, 1), (-1, 1), (1, -1),
                            (-1, -1))]
    centre += [(s * a, s * b) for s in (case["sp"][0], -case["sp"][-1])
               for a, b in ((1, 1e-3), (1e-3, 1), (1, 3e-7), (-3e-7, 1))]
    neigh = [(0.0, 0.0), (0.4, 0.0), (0.0, -2.0), (-0.06, 0.05), (30.0, 1.0)]
    items = list(itertools.product(DIRS, centre, neigh))
    n = int(np.ceil(np.sqrt(len(items))))
    S = 3 * n + 4
    depth = np.zeros((S, S))
    stage = np.zeros((S, S))
    ct = np.full((S, S), 2)
    ve, vn = np.zeros((S, S)), np.zeros((S, S))
    cells = []
    for q, (k, c, b) in enumerate(items):
        i, j = 3 + 3 * (q // n), 3 + 3 * (q % n)
        cells.append((i, j))
        depth[i, j] = [1.0, 0.5, 2.0][q % 3]
        stage[i, j] = 2.0
        ct[i, j] = 1
        ve[i, j], vn[i, j] = c
        r, s = i + ref.OFFS[k][0], j + ref.OFFS[k][1]
        depth[r, s] = [1.0, 0.3, 4.0][(q + q // 3) % 3]
        stage[r, s] = 1.0
        ct[r, s] = 0
        ve[r, s], vn[r, s] = b
    return items, cells, depth, stage, ct, ve, vn


def run_case(case, st):
    if case["kind"] == "joint":
        return joint(case, st)
    if case["kind"] == "example":
        return example(case, st)
    if case["kind"] == "walk":
        return walk(case, st)
    items, cells, depth, stage, ct, ve, vn = table(case)
    if case["vel"]:
        fl = dict(ve=ve, vn=vn)
        f = ref.Fields(depth, stage, ve=ve, vn=vn)
    else:
        fl = dict(qe=ve * depth, qn=vn * depth)
        f = ref.Fields(depth, stage, qe=ve * depth, qn=vn * depth)
    kw = {}
    dist, angles = None, ref.ANGLE
    if case["custom"] == 1:
        dist = np.array([[1.4, 1.0, 1.4], [1.1, 1.0, 1.1], [1.4, 1.2, 1.5]])
        kw["distances"] = dist
    elif case["custom"] == 2:
        angles = [a + 0.25 if k != 4 else 0.0 for k, a in enumerate(ref.ANGLE)]
        kw["angles"] = np.array(angles).reshape(3, 3)
    dc = case["dc"]
    if dc is not None:
        kw["diff_coeff"] = dc
    dcv = 0.2 if dc is None else dc
    dx = case["dx"]
    p = dom.particles(depth=depth, stage=stage, cell_type=ct, gamma=1.0, dx=dx,
                      model=[None, "DeltaRCM"][int(dx) % 2], **fl, **kw)
    D = ref.DIST if dist is None else dist
    for un, u in enumerate(case["us"]):
        t0 = [0, 12.5, 1000][un % 3]
        sim.place(p, cells, seed_time=t0)
        wd = sim.step(p, u)
        for q, (k, c, b) in enumerate(items):
            xs, ys, ts = wd["xinds"][q], wd["yinds"][q], wd["travel_times"][q]
            i, j = cells[q]
            r, s = i + ref.OFFS[k][0], j + ref.OFFS[k][1]
            ctx = dict(direction=k, centre_flow=c, neighbour_flow=b, depth=[depth[i, j],
                       depth[r, s]], dx=dx, diff_coeff=dcv, draw=u, seed_time=t0,
                       custom=case["custom"])
            check(len(xs) == 2 and (xs[-1], ys[-1]) == (r, s),
                  "the only possible step was not taken", path=[xs, ys], **ctx)
            got = ts[-1] - ts[0]
            full = 0.5 * D[k // 3, k % 3] * dx * (1 / f.speed[i, j] + 1 / f.speed[r, s])
            tol = 1e-6 * full + 1e-9 * (t0 if t0 else 1e-3) + \
                2e-8 / f.speed[i, j] * full * (f.speed[i, j] < 0.01)
            check(ts[0] == t0, "the seed time of the particle was changed", **ctx)
            check(np.isfinite(got) and (got >= -1e-12 or dcv > 2), "negative or undefined travel time",
                  got=got, **ctx)
            fac = 1.0 + dcv * (0.5 - u)
            if c == (0.0, 0.0):
                check(got <= full * fac * (1 + 1e-6) + tol,
                      "travel time above the maximum of the formula", got=got, **ctx)
            else:
                proj = max(0.0, cos(angles[k] - f.angle[i, j]))
                want = full * proj * fac
                if abs(got - want) > tol:
                    raise Violation("travel time differs from the documented formula",
                                    got=got, expected=want, **ctx)
            st.state((k, c, b, depth[i, j], depth[r, s], case["vel"]))
        st.transition(len(items))
        st.trace()
    st.sample({"items": len(items), "first": items[300], "diff_coeff": dcv, "dx": dx}, 1)


def example(case, st):
    """first steps out of every cell of an example domain"""
    name, r = case["name"], case["rows"]
    depth, stage, qe, qn = examples.load(name)
    f = ref.Fields(depth, stage, qe, qn)
    dc = [None, 0.0, 1.5][r // 10 % 3]
    p = examples.particles(name, [None, "DeltaRCM"][r // 10 % 2], dx=50.0, diff_coeff=dc,
                           dry_depth=0.01, cell_type=np.where(f.depth > 0.01, 1, 2))
    dcv = 0.2 if dc is None else dc
    cells = [(i, j) for i in range(max(r, 1), min(r + 10, depth.shape[0] - 1))
             for j in range(1, depth.shape[1] - 1) if f.depth[i, j] > 0.01]
    if not cells:
        return
    for u in (0.0, 0.15, 0.45, 0.8, 1.0 - 2.0 ** -53):
        sim.place(p, cells)
        wd = sim.step(p, u)
        for q, (i, j) in enumerate(cells):
            xs, ys, ts = wd["xinds"][q], wd["yinds"][q], wd["travel_times"][q]
            if len(xs) < 2:
                continue
            k = (xs[1] - i + 1) * 3 + ys[1] - j + 1
            full = 0.5 * ref.DIST[k // 3, k % 3] * 50.0 * (
                1 / f.speed[i, j] + 1 / f.speed[xs[1], ys[1]]) * (1 + dcv)
            # (components below 1e-8 and the 1e-8 in depth^2 + 1e-8)
            tol = full * (1e-6 + 3e-8 / f.speed[i, j] + 2e-8 / min(
                f.depth[i, j], f.depth[xs[1], ys[1]]) ** 2)
            want = f.step_time((i, j), k, 50.0, dcv, u)
            if abs(ts[1] - want) > tol:
                raise Violation("travel time differs from the documented formula",
                                example=name, cell=[i, j], direction=k, got=ts[1],
                                expected=want, draw=u, diff_coeff=dcv)
            st.transition()
        st.trace()
    for c in cells:
        st.state((name, c))


def walk(case, st):
    """times along whole walks: each increment is that of its own step"""
    n = case["n"]
    L, W = 9, 9
    depth = dom.field(L, W, n, [1.0, 0.7, 2.0])
    stage = dom.field(L, W, n + 1, [1.0, 1.3, 1.1, 0.9])
    qe = dom.field(L, W, n + 2, [0.5, 1.0, -0.4, 0.2])
    qn = dom.field(L, W, n + 3, [0.3, -1.0, 0.4, 0.15])
    dc = [0.0, 0.4, 2.0][n % 3]
    steep = n % 4 == 3
    ct = np.ones((L, W), int)
    p = dom.particles(depth=depth, stage=stage, qe=qe, qn=qn, cell_type=ct, dx=2.0,
                      gamma=0.5, diff_coeff=dc, steepest_descent=True if steep else None)
    f = ref.Fields(depth, stage, qe, qn)
    cells = [(i, j) for i in range(2, 7) for j in range(2, 7)]
    menu = [0.05, 0.35, 0.65, 0.95]
    for seq in itertools.product(menu, repeat=case["len"]):
        sim.place(p, cells)
        us = [[] for _ in cells]
        for u in seq:
            before = [len(x) for x in p.walk_data["xinds"]]
            wd = sim.step(p, u)
            for q, b in enumerate(before):
                if len(wd["xinds"][q]) > b:
                    us[q].append(u)
            st.transition(len(cells))
        for q in range(len(cells)):
            xs, ys, ts = wd["xinds"][q], wd["yinds"][q], wd["travel_times"][q]
            for m in range(1, len(xs)):
                k = (xs[m] - xs[m - 1] + 1) * 3 + ys[m] - ys[m - 1] + 1
                want = f.step_time((xs[m - 1], ys[m - 1]), k, 2.0, dc, us[q][m - 1])
                got = ts[m] - ts[m - 1]
                if abs(got - want) > 1e-6 * max(1.0, abs(want), ts[m]):
                    raise Violation("travel time of a step within a walk differs",
                                    step=m, frm=[xs[m - 1], ys[m - 1]], direction=k,
                                    got=got, expected=want, draws=us[q], diff_coeff=dc)
            st.state((n, xs[-1], ys[-1], len(xs)))
        st.trace()


def joint(case, st):
    """All products of draws: direction forced, so only the diffusion draws matter; the
    increments of two particles, and of two successive moves, must be independent and
    uniform over the menu."""
    menu = rng.mid(case["menu"])
    dc = case["dc"]
    W = 9
    depth = np.zeros((7, W))
    depth[3, 2:7] = 1.0
    stage = np.tile(np.linspace(5, 1, W), (7, 1))
    ct = np.where(depth > 0, 1, 2)
    ve = np.full((7, W), 0.5)
    p = dom.particles(depth=depth, stage=stage, ve=ve, vn=ve * 0, cell_type=ct,
                      diff_coeff=dc, dx=3.0)
    f = ref.Fields(depth, stage, ve=ve, vn=ve * 0)
    T = {u: f.step_time((3, 3), 5, 3.0, dc, u) for u in menu}
    seen = {}

    def classify(dt):
        for m, u in enumerate(menu):
            if abs(T[u] - dt) < 1e-6:
                return m
        raise Violation("step time does not correspond to any value of the draw",
                        got=dt, possible=sorted(T.values()), diff_coeff=dc)

    if case["mode"] == "step":
        def prog():
            sim.place(p, [(3, 3), (3, 3)])
            wd = p.run_iteration()
            return [t[-1] - t[0] for t in wd["travel_times"]]
    else:
        def prog():
            sim.place(p, [(3, 3)])
            wd = p.run_iteration(target_time=1e6, max_iter=2)
            t = wd["travel_times"][0]
            return [b - a for a, b in zip(t, t[1:])]

    def on(path, out):
        check(len(out) == 2, "expected two steps", got=len(out))
        key = tuple(classify(d) for d in out)
        seen[key] = seen.get(key, 0) + 1
        st.state((case["mode"], dc, key))
    paths, draws, trunc = rng.explore(prog, menu, 8, on)
    st.transition(2 * paths)
    st.trace(paths)
    n = len(menu)
    want = paths / float(n * n)
    if len(seen) != n * n or any(abs(v - want) > 1e-9 for v in seen.values()):
        raise Violation("the diffusion draws of two steps are not independent and uniform",
                        counts={str(k): v for k, v in seen.items()}, paths=paths,
                        expected_each=want, mode=case["mode"])
