"""C04: boundary freeze, every edge-cell position x every particle position."""
import itertools

import numpy as np

from mc import dom, ref, rng, sim
from mc.core import Violation, check

ID = "C04"
LEVEL = "model_checking"
ASSUMPTIONS = ["particles are placed on every cell, land included; one on water that is "
               "not frozen must move when the reference probability of staying is 0"]
BOUNDS = {
    "quick": "6x7, 4x4 and 3x5 domains, every single edge cell, every particle cell; all "
             "pairs of edge cells in 4x4; default cell types on 9 shapes; 3 draws, up to "
             "5 iterations, step and target-time mode",
    "thorough": "additionally all pairs of edge cells in the 6x7 domain, all triples in "
                "4x4, and 12 draws",
}


def cases(tier):
    thorough = tier == "thorough"
    for L, W in ((6, 7), (4, 4), (3, 5), (9, 3)):
        for i in range(L):
            yield {"L": L, "W": W, "edges": [[[i, j]] for j in range(W)],
                   "us": 12 if thorough else 3}
    allc = [[i, j] for i in range(4) for j in range(4)]
    pairs = [list(q) for q in itertools.combinations(allc, 2)]
    for k in range(0, len(pairs), 20):
        yield {"L": 4, "W": 4, "edges": pairs[k:k + 20], "us": 2}
    for L, W in itertools.product((3, 5, 8), repeat=2):
        yield {"L": L, "W": W, "edges": ["default"], "us": 5}
    yield {"L": 40, "W": 33, "edges": ["default", [[20, 17]], [[0, 0]], [[39, 32]]],
           "us": 2}
    if thorough:
        allc2 = [[i, j] for i in range(6) for j in range(7)]
        pairs = [list(q) for q in itertools.combinations(allc2, 2)]
        for k in range(0, len(pairs), 20):
            yield {"L": 6, "W": 7, "edges": pairs[k:k + 20], "us": 2}
        tr = [list(q) for q in itertools.combinations(allc, 3)]
        for k in range(0, len(tr), 30):
            yield {"L": 4, "W": 4, "edges": tr[k:k + 30], "us": 2}


def run_case(case, st):
    L, W = case["L"], case["W"]
    us = rng.mid(case["us"]) + [0.0]
    for n, edges in enumerate(case["edges"]):
        s = dom.h64(L, W, n, len(edges)) % 1000
        depth = np.ones((L, W)) * [1.0, 0.5][s % 2]
        stage = dom.field(L, W, s, [1.0, 1.5, 2.0, 1.2])
        ang = [0.3, 1.2, 2.5, 4.1, 5.6][s % 5]
        qe, qn = np.full((L, W), np.cos(ang)), np.full((L, W), np.sin(ang))
        if edges == "default":
            given = None
            ct = ref.default_cell_type(depth, 0.1)
        else:
            ct = np.ones((L, W), [int, float][s % 2])
            # land here and there: particles standing on it are frozen just the same
            for k in range(L * W):
                if dom.h64(s, k, 9) // 11 % 6 == 0:
                    ct[k // W, k % W] = 2
            for i, j in edges:
                ct[i, j] = -1
            given = ct.copy()
        p = dom.particles(depth=depth, stage=stage, qe=qe, qn=qn, cell_type=given,
                          gamma=0.5, diff_coeff=0.0, verbose=None,
                          steepest_descent=True if s % 7 == 0 else None)
        f = ref.Fields(depth, stage, qe, qn)
        P = ref.probabilities(f.depth, f.stage, f.qe, f.qn, ct, 1.0, 0.5, 0.1)
        cells = [(i, j) for i in range(L) for j in range(W)]
        fz = {c: ref.frozen(ct, c[0], c[1]) for c in cells}
        ctx = dict(edges=edges, shape=[L, W], cell_type=ct)
        for u in us:
            for mode in ("step", "target"):
                sim.place(p, cells)
                wd0 = sim.plain(p.walk_data)
                for it in range(5 if mode == "step" else 2):
                    kw = {} if mode == "step" else \
                        dict(target_time=4.0 * (it + 1), max_iter=12)
                    wd = sim.plain(sim.step(p, u, **kw))
                    for q in range(len(cells)):
                        old = list(zip(wd0["xinds"][q], wd0["yinds"][q]))
                        new = list(zip(wd["xinds"][q], wd["yinds"][q]))
                        c = tuple(int(v) for v in old[-1])
                        if fz[c]:
                            if any(wd[v][q] != wd0[v][q] for v in wd0):
                                raise Violation(
                                    "a particle next to an edge cell moved or its record "
                                    "was extended", particle_at=c, became=new, mode=mode,
                                    draw=u, iteration=it, **ctx)
                        elif mode == "step":
                            stay = P[c][4]
                            if ct[c] != 2 and P[c].sum() > 0 and stay == 0 and len(new) != len(old) + 1:
                                raise Violation(
                                    "a particle with no edge cell around it did not move",
                                    particle_at=c, mode=mode, draw=u, iteration=it, **ctx)
                        else:
                            # every cell but the last of the new part was left: not frozen
                            for a in new[len(old) - 1:-1]:
                                a = (int(a[0]), int(a[1]))
                                if fz[a]:
                                    raise Violation(
                                        "a frozen particle was moved on towards the target "
                                        "time", at=a, path=new, draw=u, **ctx)
                            if it == 0 and ct[c] != 2 and P[c].sum() > 0 and P[c][4] == 0 and \
                                    len(new) == len(old):
                                raise Violation(
                                    "a particle with no edge cell around it did not move",
                                    particle_at=c, mode=mode, draw=u, **ctx)
                        st.state((L, W, str(edges), c, fz[c]))
                    st.transition(len(cells))
                    wd0 = wd
                st.trace()
        st.sample(dict(ctx, frozen=sum(fz.values()), cells=len(cells)), 1)
