"""C02: every random draw -> the step distribution is exactly the routing weights."""
import itertools
import warnings

import numpy as np

import dorado.lagrangian_walker as lw
from mc import dom, ref, rng, sim
from mc.core import Violation, check

ID = "C02"
LEVEL = "model_checking"
ASSUMPTIONS = [
    "reference probabilities of mc/ref.py",
    "the draw space [0,1) is covered by N equally spaced draws plus the extreme values "
    "0, 2^-53, 1-2^-52 and 1-2^-53; an interval of length p then holds N*p draws +-1 "
    "(tolerance 2)",
]
BOUNDS = {
    "quick": "all 3^8 neighbourhoods of one alphabet + all 4^8/8 of another, neighbourhoods whose greatest weights differ by 4e-4, 1e-6 and 1e-10, "
             "neighbourhoods of total weight 1e-4 to 1e-17, N=48 draws + "
             "6 extreme draws, each draw value executed twice (both orders; the second time by "
             "particles that came from another cell), exact boundaries (1e-13) of the sets of "
             "draws for 768 neighbourhoods with probabilities down to 1e-6, random "
             "walk and steepest descent, step and target-time mode; all patterns of missing "
             "(NaN) weights of 9 cells x 10 draws",
    "thorough": "all 4^8 neighbourhoods of two alphabets, N=200 draws + 6 extreme",
}
EXTREME = [0.0, 2.0 ** -53, 1e-300, 1.0 - 2.0 ** -53, 1.0 - 2.0 ** -52, 0.5]
DRY = 0.1
LET = {"d": (0.0, 2.5, 2), "s": (0.5, 1.25, 0), "h": (3.0, 2.75, 1),
       "L": (4.0, 1.5, 2), "x": (0.5, 1.2497, 0), "y": (0.5, 1.2499993, 0), "z": (0.5, 1.25 + 7.5e-11, 0), "p": (0.102, 1.999, 0), "q": (25.0, 0.3, 0),
       "r": (0.3, 1.98, 1), "t": (0.15, 1.5, 0), "u": (0.3, 1.25, 0),
       "v": (0.2, 1.75, 1), "e": (1.0, 2.0, 0), "f": (2.0, 1.75, 0)}
FLOWS = [(0.0, 0.0), (1.0, 0.0), (1.0, 0.4), (0.0, 2.0), (-1.0, 0.5), (-1.0, 0.0),
         (-0.3, -1.0), (0.0, -1.0), (2.0, -0.7)]
TG = [(1.0, 0.05), (0.0, 0.5), (2.0, 0.0), (0.5, 1.0), (1.0, 1.0), (8.0, 0.5), (20.0, 0.05)]
SIDE = 16


def cases(tier):
    per = SIDE * SIDE
    q = tier == "quick"
    n = 48 if q else 200
    for alpha, stride in (("dsh", 1), ("Lsef", 8 if q else 1), ("dshL", 0 if q else 1)):
        if not stride:
            continue
        tot = len(alpha) ** 8
        for start in range(0, tot, per * stride):
            m = start // (per * stride)
            yield {"alpha": alpha, "start": start, "stride": stride, "n": n,
                   "steep": m % 4 == 3, "target": m % 3 == 2, "tg": m % 5,
                   "ct": m % 2}
    yield {"alpha": "dsh", "start": 77, "stride": 25, "n": 1000, "steep": False,
           "target": False, "tg": 0, "ct": 0}
    # almost equal weights: only the greatest may be chosen, however close the others are
    for alpha, tg in (("sxy", 4), ("sxy", 1), ("dsy", 4), ("syz", 4), ("dsz", 4)):
        for start in range(0, 3 ** 8, per * (9 if q else 1)):
            yield {"alpha": alpha, "start": start, "stride": 7, "n": 12, "steep": True,
                   "target": False, "tg": tg, "ct": 0}
    # weights many orders of magnitude below 1 (shallow cells, high theta)
    for m in range(6 if q else 24):
        tot = 3 ** 8 if m % 2 else 4 ** 8
        yield {"alpha": "tuv" if m % 2 else "dtuv", "start": m * tot // 25, "stride": 11,
               "n": 24, "steep": m % 3 == 2, "target": m % 4 == 3, "tg": 5 + m // 2 % 2,
               "ct": 0}
    # exact boundaries between the draws leading to different cells
    for m in range(12 if q else 48):
        al = ("dpqr", "pqrs", "dshp", "Lsef")[m % 4]
        tot = len(al) ** 8
        yield {"alpha": al, "start": m * tot // 13, "stride": 17, "n": 0,
               "steep": m % 6 == 5, "target": m % 3 == 2, "tg": m % 5, "ct": 0,
               "from": m % 4, "every": 4 if q else 1}
    # ... between the draws of tied cells under steepest descent
    for m in range(3 if q else 12):
        al = ("ds", "dsh", "dse")[m % 3]
        yield {"alpha": al, "start": m * 37 + 5, "stride": 1 if al == "ds" else 13, "n": 0,
               "steep": True, "target": m % 2 == 1, "tg": 4, "ct": 0, "from": m % 4,
               "every": 4 if q else 1}
    # weights that are missing (NaN) count as zero
    for alpha in ((None, 0.5, 2.0), (None, 0.0, 1.5)):
        for first in range(3):
            yield {"alpha": alpha, "pick": first, "n": 6 if q else 24}
    # dead ends and closed cells: only the cell itself can be chosen
    for steep in (False, True):
        yield {"alpha": "dL", "start": 0, "stride": 1, "n": 16, "steep": steep,
               "target": False, "tg": 0, "ct": 0}


def build(case):
    a, n = len(case["alpha"]), SIDE
    tab = np.array([LET[c] for c in case["alpha"]])
    S = 3 * n + 4
    depth = np.zeros((S, S))
    stage = np.zeros((S, S))
    ct = np.full((S, S), 2)
    qe, qn = np.zeros((S, S)), np.zeros((S, S))
    idx = (case["start"] + case["stride"] * np.arange(n * n)) % a ** 8
    rem = idx.copy()
    fi = (idx + idx // 9 + idx // 81 + case["start"]) % 9
    for k in range(9):
        r, c = k // 3 + 2, k % 3 + 2
        if k == 4:
            v = np.tile(np.array([1.0, 2.0, 1]), (n * n, 1))
        else:
            v = tab[rem % a]
            rem = rem // a
        sl = (slice(r, r + 3 * n, 3), slice(c, c + 3 * n, 3))
        depth[sl] = v[:, 0].reshape(n, n)
        stage[sl] = v[:, 1].reshape(n, n)
        ct[sl] = v[:, 2].reshape(n, n)
        qe[sl] = np.array([x[0] for x in FLOWS])[fi].reshape(n, n)
        qn[sl] = np.array([x[1] for x in FLOWS])[fi].reshape(n, n)
    if case["ct"]:
        ct[0] = ct[-1] = -1
        ct[:, 0] = ct[:, -1] = -1
    theta, gamma = TG[case["tg"]]
    p = dom.particles(depth=depth.copy(), stage=stage.copy(), qe=qe, qn=qn, theta=theta,
                      gamma=gamma, dry_depth=DRY, cell_type=ct, diff_coeff=0.0,
                      steepest_descent=True if case["steep"] else None)
    f = ref.Fields(depth, stage, qe, qn)
    P = ref.probabilities(f.depth, f.stage, f.qe, f.qn, ct, theta, gamma, DRY)
    cells = [(3 + 3 * i, 3 + 3 * j) for i in range(n) for j in range(n)]
    exp = np.array([P[c] for c in cells])
    if case["steep"]:
        exp = np.array([ref.steepest(x) for x in exp])
    win = lambda c: {"depth": depth[c[0] - 1:c[0] + 2, c[1] - 1:c[1] + 2],
                     "stage": stage[c[0] - 1:c[0] + 2, c[1] - 1:c[1] + 2],
                     "cell_type": ct[c[0] - 1:c[0] + 2, c[1] - 1:c[1] + 2],
                     "flow": [qe[c], qn[c]], "theta": theta, "gamma": gamma}
    return p, cells, exp, win


def resume(p, cells, nh):
    dr, dc = ref.OFFS[nh % 9] if nh % 9 != 4 else (0, 1)
    dt = [0.0, 1.5, 0.0][nh % 3]
    # with a target time of 0.1 the particle has to be before it
    t0 = -5.0
    hist = {"xinds": [[c[0], c[0] + dr, c[0]] for c in cells],
            "yinds": [[c[1], c[1] + dc, c[1]] for c in cells],
            "travel_times": [[t0, t0 + dt, t0 + dt] for _ in cells]}
    if nh % 2:
        hist = {k: [h[1:] for h in v] for k, v in hist.items()}
    p.clear_walk_data()
    p.generate_particles(0, [], [], previous_walk_data=hist)


def exact(case, st):
    """the exact set of draws leading to each cell, by bisection of its boundaries"""
    p, cells, exp, win = build(case)
    kw = dict(target_time=0.1, max_iter=1) if case["target"] else {}
    nd = 0

    def outcome(c, u):
        sim.place(p, [c])
        x, y = sim.positions(sim.step(p, u, **kw))[0]
        return (x - c[0] + 1) * 3 + y - c[1] + 1
    top = 1.0 - 2.0 ** -53
    for i in range(case["from"], len(cells), case["every"]):
        c = cells[i]
        grid = [0.0] + [(k + 0.37) / 12 for k in range(12)] + [top]
        val = [outcome(c, u) for u in grid]
        length = [0.0] * 9
        lo, cur = 0.0, val[0]
        g = 0
        while True:
            # next sampled draw with another outcome
            while g < len(grid) and (grid[g] <= lo or val[g] == cur):
                g += 1
            if g == len(grid):
                length[cur] += 1.0 - lo
                break
            a, b, vb = lo, grid[g], val[g]
            while b - a > 1e-13:
                m = 0.5 * (a + b)
                vm = outcome(c, m)
                nd += 1
                if vm == cur:
                    a = m
                else:
                    b, vb = m, vm
            length[cur] += b - lo
            lo, cur = b, vb
        dev = max(abs(length[k] - exp[i][k]) for k in range(9))
        if dev > 1e-9:
            raise Violation("the set of draws leading to a cell is not proportional to its "
                            "weight", lengths=length, expected=exp[i],
                            steepest=case["steep"], **win(c))
        st.state(("exact", np.round(exp[i], 9).tolist(), case["steep"]))
        st.trace()
    st.transition(nd)


def pick(case, st):
    """the two ways of choosing among weights, for all patterns of missing weights"""
    vals = [float("nan") if v is None else v for v in case["alpha"]]
    us = EXTREME[:2] + EXTREME[3:5] + rng.mid(case["n"])
    for rest in itertools.product(vals, repeat=8):
        w = [vals[case["pick"]]] + list(rest)
        z = [0.0 if x != x else x for x in w]
        for f, steep in ((lw.random_pick, False), (lw.steep_descent, True)):
            if steep:
                z[4] = 0.0
                top = max(z)
                z = [x if x == top else 0.0 for x in z]
            total = sum(z)
            for u in us:
                a = np.array(w)
                with rng.control(lambda: u), warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    k = int(f(a))
                st.transition()
                want = 4
                if total > 0:
                    c = 0.0
                    for want in range(9):
                        c += z[want]
                        if u * total < c:
                            break
                if k != want and not (abs(u * total - sum(z[:k])) < 1e-12 and z[k] > 0):
                    raise Violation("choice among weights some of which are missing",
                                    weights=w, draw=u, steepest=steep, got=k,
                                    expected=want)
        st.state(w)
    st.trace()


def run_case(case, st):
    if "pick" in case:
        return pick(case, st)
    if "every" in case:
        return exact(case, st)
    p, cells, exp, win = build(case)
    N = case["n"]
    us = EXTREME + rng.mid(N)
    kw = dict(target_time=0.1, max_iter=1) if case["target"] else {}
    out = {}
    counts = np.zeros((len(cells), 9), int)
    rows = np.arange(len(cells))
    nh = case["start"] % 9
    c0 = np.array(cells)
    # each value of the draw twice: the second sweep, in the opposite order, must not
    # depend on anything the first one did
    for sweep, order in ((0, us), (1, us[::-1])):
        for u in order:
            if sweep == 0:
                sim.place(p, cells)
            else:
                # the second time the particles have already travelled: from each of the
                # neighbouring cells in turn, there and back, with and without delay
                nh += 1
                resume(p, cells, nh)
            wd = sim.step(p, u, **kw)
            new = np.array(sim.positions(wd))
            d = new - c0
            if np.abs(d).max() > 1:
                i = int(np.abs(d).max(axis=1).argmax())
                raise Violation("step to a cell that is not adjacent", draw=u,
                                cell=cells[i], to=new[i])
            k = (d[:, 0] + 1) * 3 + d[:, 1] + 1
            bad = np.flatnonzero(exp[rows, k] < 1e-12)
            if len(bad):
                i = int(bad[0])
                raise Violation("a cell of zero probability was chosen", draw=u,
                                chosen=int(k[i]), expected=exp[i], steepest=case["steep"],
                                **win(cells[i]))
            st.transition(len(cells))
            if sweep == 0:
                out[u] = k
                if u not in EXTREME or u == 0.5:
                    pass
            else:
                if (out[u] != k).any():
                    i = int(np.flatnonzero(out[u] != k)[0])
                    raise Violation(
                        "the choice for the same draw depends on earlier steps",
                        draw=u, first=int(out[u][i]), later=int(k[i]), **win(cells[i]))
    for u in rng.mid(N):
        counts[rows, out[u]] += 1
    dev = np.abs(counts - N * exp)
    if dev.max() > 2 + 1e-6:
        i = int(dev.max(axis=1).argmax())
        raise Violation("step frequencies differ from the routing weights",
                        counts=counts[i], of=N, expected=exp[i], steepest=case["steep"],
                        **win(cells[i]))
    for i in range(len(cells)):
        st.state((np.round(exp[i], 9).tolist(), case["steep"], case["target"]))
    st.trace(len(cells))
    st.sample({"alphabet": case["alpha"], "steepest": case["steep"],
               "window_probabilities": exp[1], "counts": counts[1], "draws": N}, 2)
