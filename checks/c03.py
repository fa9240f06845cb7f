"""C03: exhaustive transition relation of small domains on the real code."""
import itertools

import numpy as np

from mc import dom, examples, rng, sim
from mc.core import Violation

ID = "C03"
LEVEL = "model_checking"
ASSUMPTIONS = [
    "all starting cells of a domain are particles of one run; every draw of an iteration "
    "takes the same value, all draw values of the menu are executed (the particles of an "
    "iteration are independent: C10)",
]
BOUNDS = {
    "quick": "5x5 domains: 2^9 wet/dry interiors x 4 cell-type variants and 2^9 interiors of "
             "depths 0.5% around the dry depth, domains of up to 66000 rows, all 25 start "
             "cells, draws {0, 1/8.., 1-2^-53}; all draw sequences of length 3 over 4 "
             "values and 40-step runs on 60 domains of other shapes; cell sizes 1e-7..1e5; all cells of the "
             "example domains of the repository as start x 4 draws x 3 steps",
    "thorough": "3^9 depth patterns of the 5x5 interior, all draw sequences of length 4 "
                "over 4 values on 400 domains",
}
US = [0.0, 1.0 - 2.0 ** -53] + rng.mid(8)


def cases(tier):
    for start in range(0, 512, 32):
        for variant in (0, 1, 2, 4):
            yield {"kind": "pat", "base": 2, "start": start, "n": 32, "ct": variant}
    # depths just above and just below the dry depth
    for start in range(0, 512, 64):
        for variant in (start // 64 % 3, 3):
            yield {"kind": "pat", "base": -2, "start": start, "n": 64, "ct": variant}
    # very long domains: indices beyond 8, 15 and 16 bits
    for L, W in ((4, 300), (300, 4), (3, 33000), (33000, 3), (66000, 3)):
        yield {"kind": "long", "L": L, "W": W}
    shapes = [(L, W) for L in (3, 4, 6) for W in (3, 4, 7)] + [(12, 5), (5, 30), (23, 23)]
    for s in range(60 if tier == "quick" else 400):
        L, W = shapes[s % len(shapes)]
        yield {"kind": "seq", "L": L, "W": W, "seed": s,
               "depth": 3 if tier == "quick" else 4}
    for name in examples.NAMES:
        for r in range(0, 120, 10):
            yield {"kind": "example", "name": name, "rows": r,
                   "us": [0.0, 0.3, 0.6, 1.0 - 2.0 ** -53] if tier == "quick" else US}
    if tier == "thorough":
        for start in range(0, 3 ** 9, 27):
            for variant in (0, 1, 2, 4):
                yield {"kind": "pat", "base": 3, "start": start, "n": 27, "ct": variant}


def celltypes(depth, variant, seed, dry):
    if variant == 0:
        return None
    L, W = depth.shape
    if variant == 3:      # dry cells that are not marked as land
        return np.ones((L, W), int)
    if variant == 4:      # the same with some land, dry or deep
        ct = np.ones((L, W), int)
        for i in range(L):
            for j in range(W):
                if dom.h64(seed, i, j, 9) // 7 % 3 == 0:
                    ct[i, j] = 2
        return ct
    if variant == 1:      # no edge cells at all, some land that is deep
        ct = np.zeros((L, W), int)
        for i in range(L):
            for j in range(W):
                ct[i, j] = dom.h64(seed, i, j, 4) // 5 % 2
                if dom.h64(seed, i, j, 3) // 7 % 5 == 0:
                    ct[i, j] = 2
        ct[depth <= dry] = 2
        return ct
    ct = np.where(depth <= dry, 2, 1)   # edge cells only on one side
    ct[:, -1] = -1
    return ct


def eff_type(p):
    return np.asarray(p.cell_type)


def judge(before, after, depth, ct, dry, ctx):
    L, W = depth.shape
    for (i, j), (r, c) in zip(before, after):
        if not (0 <= r < L and 0 <= c < W):
            raise Violation("a particle left the grid", frm=[i, j], to=[r, c], **ctx)
        if abs(r - i) > 1 or abs(c - j) > 1:
            raise Violation("a particle jumped to a non-adjacent cell", frm=[i, j],
                            to=[r, c], **ctx)
        if (r, c) != (i, j) and depth[i, j] > dry and ct[i, j] != 2 and \
                (not depth[r, c] > dry or ct[r, c] == 2):
            raise Violation("a particle moved from water onto a dry or land cell",
                            frm=[i, j], to=[r, c], **ctx)
        if ct[i, j] != 2 and ct[r, c] == 2:
            raise Violation("a particle moved from a cell that is not land onto land",
                            frm=[i, j], to=[r, c], **ctx)


def long_domain(case, st):
    """particles all along a domain with more rows or columns than small integers hold"""
    L, W = case["L"], case["W"]
    for k, flow in enumerate(((1.0, 1.0), (-1.0, -1.0), (0.0, 0.0))):
        depth = np.ones((L, W))
        stage = dom.field(L, W, k, [1.0, 2.0, 2.0, 1.5])
        qe, qn = np.full((L, W), flow[0]), np.full((L, W), flow[1])
        ct = np.ones((L, W), int)
        ct[0] = ct[-1] = 2
        ct[:, 0] = ct[:, -1] = 2
        p = dom.particles(depth=depth, stage=stage, qe=qe, qn=qn, cell_type=ct,
                          gamma=0.5, dry_depth=0.1)
        n = max(L, W)
        along = sorted(set(range(1, n - 1, max(1, n // 40)))
                       | {q for b in (126, 254, 32766, 65534) for q in range(b, b + 4)
                          if q < n - 1})
        cells = [(q, 1 + q % (W - 2)) if L >= W else (1 + q % (L - 2), q) for q in along]
        for u in (0.0, 0.35, 0.8, 1.0 - 2.0 ** -53):
            sim.place(p, cells)
            cur = cells
            for it in range(4):
                new = sim.positions(sim.step(p, u))
                judge(cur, new, depth, ct, 0.1, {"shape": [L, W], "draw": u})
                st.transition(len(cells))
                cur = new
            st.trace()
        for c in cells:
            st.state((L, W, c, k))


def example(case, st):
    """every cell of ten rows of an example domain as a start"""
    name, r = case["name"], case["rows"]
    p = examples.particles(name, [None, "DeltaRCM"][r // 10 % 2], dx=50.0)
    depth = np.nan_to_num(np.array(examples.load(name)[0], float))
    ct = eff_type(p)
    cells = [(i, j) for i in range(r, min(r + 10, depth.shape[0]))
             for j in range(depth.shape[1])]
    if not cells:
        return
    for u in case["us"]:
        sim.place(p, cells)
        cur = cells
        for it in range(3):
            new = sim.positions(sim.step(p, u))
            judge(cur, new, depth, ct, 0.1, {"example": name, "draw": u})
            st.transition(len(cells))
            cur = new
        st.trace()
    for c in cells:
        st.state((name, c))


def run_case(case, st):
    if case["kind"] == "example":
        return example(case, st)
    if case["kind"] == "long":
        return long_domain(case, st)
    if case["kind"] == "pat":
        vals = {2: [0.0, 1.0], 3: [0.0, 0.5, 2.0], -2: [0.0999, 0.1005]}[case["base"]]
        for n in range(case["start"], case["start"] + case["n"]):
            depth = np.full((5, 5), [0.0, 1.0, 1.0, 0.1][n % 4]
                            if case["base"] > 0 else 0.0998)
            m = n
            for i in range(1, 4):
                for j in range(1, 4):
                    depth[i, j] = vals[m % len(vals)]
                    m //= len(vals)
            one(st, depth, n, case["ct"], [[u] for u in US], {"pattern": n})
    else:
        s = case["seed"]
        L, W = case["L"], case["W"]
        depth = dom.field(L, W, s + 1, [0.0, 1.0, 2.0, 0.1, 0.05, 1.0, 3.0, np.nan, 1.5])
        menu = [0.0, 0.3, 0.7, 1.0 - 2.0 ** -53]
        seqs = [list(q) for q in itertools.product(menu, repeat=case["depth"])]
        if L * W > 60:
            seqs = seqs[::7]
        f = rng.lcg(s)
        long_ = [[f() for _ in range(40)], [0.0] * 40, [1.0 - 2.0 ** -53] * 40]
        one(st, depth, s, s % 5, seqs + long_, {"seed": s, "shape": [L, W]})


def one(st, depth, n, variant, seqs, ctx):
    L, W = depth.shape
    dry = 0.1
    stage = dom.field(L, W, n + 5, [1.0, 2.0, 2.0, 1.5, 0.5])
    qe = dom.field(L, W, n + 6, [0.0, 1.0, -1.0, 0.4])
    qn = dom.field(L, W, n + 7, [0.0, 1.0, -1.0, -0.3])
    d = np.nan_to_num(depth)
    ct = celltypes(d, variant, n, dry)
    steep = n % 4 == 3
    kw = dict(theta=[1.0, 0.0, 2.0][n % 3], gamma=[0.05, 0.0, 0.5, 1.0][n // 3 % 4],
              diff_coeff=[0.2, 0.0][n % 2], dx=[1.0, 1e-7, 50.0, 1e5][n // 7 % 4])
    p = dom.particles(depth=depth, stage=stage, qe=qe, qn=qn, cell_type=ct, dry_depth=dry,
                      model=[None, "DeltaRCM"][n // 2 % 2],
                      steepest_descent=True if steep else None, **kw)
    t = eff_type(p)
    cells = [(i, j) for i in range(L) for j in range(W)]
    ctx = dict(ctx, cell_type_variant=variant, depth=depth, stage=stage, qe=qe, qn=qn,
               cell_type=t, steepest=steep, **kw)
    for q in seqs:
        sim.place(p, cells)
        cur = cells
        # every fourth single-draw sequence also through the target-time loop
        for u in q:
            wd = sim.step(p, u)
            new = sim.positions(wd)
            judge(cur, new, d, t, dry, dict(ctx, draws=q))
            for a, b in zip(cur, new):
                st.state((ctx.get("pattern", ctx.get("seed")), L, W, variant, b))
            st.transition(len(cells))
            cur = new
        st.trace()
    # target-time mode: whole recorded paths
    for u in (0.0, 0.4, 1.0 - 2.0 ** -53):
        sim.place(p, cells)
        wd = sim.step(p, u, target_time=5.0, max_iter=25)
        for xs, ys in zip(wd["xinds"], wd["yinds"]):
            path = list(zip(xs, ys))
            judge(path[:-1], path[1:], d, t, dry, dict(ctx, draws=[u], mode="target"))
            st.transition(len(path) - 1)
        st.trace()
    st.sample({"depth": depth, "cell_type": t, "draw_sequences": len(seqs)}, 1)
