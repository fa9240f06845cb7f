"""C08: target-time semantics over every sequence of step durations up to a length."""
import itertools
import re
import warnings

import numpy as np

from mc import dom, ref, rng, sim
from mc.core import Violation, check

ID = "C08"
LEVEL = "model_checking"
ASSUMPTIONS = [
    "durations are produced by one-cell-wide channels whose cells are from an alphabet "
    "(fast, slow, very fast < 0.1 s, across the flow = 0 s, ...); the direction is forced",
    "a particle that takes exactly max_iter steps and is then where it would stop anyway "
    "may or may not be reported",
    "comparisons closer than 1e-9 s to equality are accepted either way, except where "
    "all times involved are exact binary fractions: then equality means to move on",
]
BOUNDS = {
    "quick": "all channels of 5 cells over 5 letters (3125) x 19 target times x 3 max_iter, "
             "each call repeated; successive targets; 9 channels of "
             "130 cells in calls of various length; open domains with 3 draws",
    "thorough": "channels of 6 cells (15625), 27 targets, 5 max_iter, diffusion draws; more "
                "open domains",
}
# letter -> (speed, flow direction east/north); o takes (almost) no time: it flows
# across the channel (1e-8 s) or, where its number in the channel is even, back (0 s)
LETTERS = {"a": (1.0, 1, 0), "f": (4.0, 1, 0), "v": (40.0, 1, 0), "o": (1.0, 0, 1),
           "s": (0.125, 1, 0)}
PER = 125


def cases(tier):
    q = tier == "quick"
    n = 5 if q else 6
    tot = len(LETTERS) ** n
    T = [0, 0.048, 0.053, 0.1, 0.7, 1.0, 2.0, 3.3, 5.05, 12.0, 1e4,
         0.125, 0.5, 0.625, 1.5, 2.5, 4.0, 6.0, 13.0]
    if not q:
        T += [0.0999, 0.375, 8.0, 100.0, 3.5, 4.25, 12.5, 20.0]
    for s in range(0, tot, PER):
        yield {"kind": "chan", "n": n, "start": s, "T": T,
               "M": [1, 3, 10000] if q else [1, 2, 3, 5, 10000],
               "dc": [0.0, 0.4][(s // PER) % 2], "seed_time": [0, 2.0][(s // PER) % 5 == 4]}
    for m in range(12 if q else 60):
        yield {"kind": "open", "n": m}
    for w in ("a", "as", "af", "aso", "ssf", "vas", "sffffff", "fffffffs", "oas"):
        yield {"kind": "longchan", "word": w, "n": 130 if q else 1100}
    yield {"kind": "empty"}


def simulate_ok(times, n0, target, max_iter, can_stop, ctx):
    """times: full record after the call, n0: number of entries before it.
    Returns (steps, reached)."""
    n = len(times)

    def est(i):
        return max(0.1, times[i] - times[i - 1]) if i > 0 else 0.1

    def margin(i):
        m = abs(times[i] - target) - abs(times[i] + est(i) - target)
        if m == 0 and all(x * 1024 == int(x * 1024) and abs(x) < 1e9
                          for x in (times[i], est(i), target)):
            return 1.0          # exactly as close: a further step is not further away
        return m
    for i in range(n0 - 1, n - 1):
        if margin(i) < -1e-9:
            raise Violation("a particle was moved on although the next step would take it "
                            "further from the target time", times=times, at_entry=i,
                            target=target, max_iter=max_iter, **ctx)
    steps = n - n0
    if steps > max_iter:
        raise Violation("more than max_iter steps were taken", steps=steps,
                        max_iter=max_iter, times=times, **ctx)
    m = margin(n - 1)
    if m > 1e-9 and steps < max_iter and not can_stop:
        raise Violation("a particle stopped although a further step would bring it closer "
                        "to the target time", times=times, target=target, steps=steps,
                        max_iter=max_iter, **ctx)
    return steps, m


def call(p, u, target, max_iter):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        kw = {} if max_iter is None else {"max_iter": max_iter}
        wd = sim.step(p, u, target_time=target, **kw)
    rep = None
    for x in w:
        if "iteration" in str(x.message):
            check(rep is None, "several warnings about exceeded iterations")
            m = re.search(r"\[([\d, ]*)\]", str(x.message))
            check(m is not None, "warning does not list the particles",
                  message=str(x.message))
            rep = [int(z) for z in m.group(1).split(",") if z.strip()]
    return wd, rep


def judge(p, wd0, wd, rep, target, max_iter, can_stop, ctx, u):
    must, may = [], []
    if max_iter is None:
        max_iter = 10000
    for q in range(len(wd["xinds"])):
        c = (int(wd["xinds"][q][-1]), int(wd["yinds"][q][-1]))
        steps, m = simulate_ok(wd["travel_times"][q], len(wd0["travel_times"][q]), target,
                               max_iter, can_stop(c), dict(ctx, particle=q, draw=u))
        if steps == max_iter:
            (must if m > 1e-9 and not can_stop(c) else may).append(q)
    got = rep or []
    if not set(must) <= set(got) or not set(got) <= set(must + may) or \
            len(set(got)) != len(got):
        raise Violation("the particles reported for exceeding max_iter are wrong",
                        reported=got, stopped_by_max_iter=must, perhaps=may,
                        target=target, max_iter=max_iter, **ctx)


def run_case(case, st):
    if case["kind"] == "empty":
        for kw in ({}, {"particle_variables": ["depth"]}):
            p = dom.particles(depth=np.ones((6, 6)), stage=np.ones((6, 6)),
                              qe=np.ones((6, 6)), qn=np.ones((6, 6)), **kw)
            p.generate_particles(0, [], [])
            wd = p.run_iteration(target_time=5.0)
            check(all(len(v) == 0 for v in wd.values()), "no particles, but data", wd=wd)
            st.transition()
            st.trace()
            st.state(("empty", len(kw)))
        return
    if case["kind"] == "open":
        return open_domain(case, st)
    if case["kind"] == "longchan":
        return long_channels(case, st)
    n = case["n"]
    al = sorted(LETTERS)
    chans = [[al[(c // len(al) ** e) % len(al)] for e in range(n)]
             for c in range(case["start"], case["start"] + PER)]
    W = n + 6
    L = 2 * PER + 3
    depth = np.zeros((L, W))
    stage = np.zeros((L, W))
    ve, vn = np.zeros((L, W)), np.zeros((L, W))
    cells = []
    for r, ch in enumerate(chans):
        i = 2 * r + 2
        if i >= L - 2:
            break
        for j, c in enumerate(ch):
            s, e, nn = LETTERS[c]
            if c == "o" and j % 2 == 0:
                e, nn = -1, 0
            depth[i, j + 2] = 1.0
            stage[i, j + 2] = 5.0 - 0.1 * j
            ve[i, j + 2], vn[i, j + 2] = s * e, s * nn
        depth[i, n + 2] = 3.0           # final pool: dead end
        stage[i, n + 2] = 1.0
        cells.append((i, 2))
    ends = {(c[0], n + 2) for c in cells}
    p = dom.particles(depth=depth, stage=stage, ve=ve, vn=vn, gamma=1.0,
                      diff_coeff=case["dc"], dx=1.0,
                      particle_variables=["depth"] if case["start"] % 3 == 0 else None)
    ctx = {"letters": LETTERS}
    u = 0.3
    for T in case["T"]:
        for M in case["M"]:
            sim.place(p, cells, seed_time=case["seed_time"])
            wd0 = sim.plain(p.walk_data)
            for rep_no in range(2):
                wd, rep = call(p, u, T, None if M == 10000 else M)
                wd = sim.plain(wd)
                judge(p, wd0, wd, rep, T, M, lambda c: c in ends,
                      dict(ctx, repeat=rep_no, channels=[''.join(x) for x in chans][:3]), u)
                st.transition(sum(len(a) - len(b) + 1 for a, b in
                                  zip(wd["xinds"], wd0["xinds"])))
                st.trace(len(cells))
                wd0 = wd
            for q in range(len(cells)):
                st.state((chans[q], len(wd["xinds"][q]), T))
    # successive targets on the same particles
    sim.place(p, cells)
    wd0 = sim.plain(p.walk_data)
    for T in (0.5, 0.5, 3.0, 2.0, 7.5, 7.5, 1e3):
        wd, rep = call(p, u, T, None)
        wd = sim.plain(wd)
        judge(p, wd0, wd, rep, T, 10000, lambda c: c in ends, dict(ctx, successive=True), u)
        st.transition(len(cells))
        wd0 = wd
    st.trace(len(cells))
    st.sample({"channel": ''.join(chans[1]), "times": wd["travel_times"][1],
               "targets": case["T"]}, 1)


def long_channels(case, st):
    """records of many entries: where the next step is judged from the last one only"""
    word, n = case["word"], case["n"]
    depth, stage = np.zeros((5, n + 6)), np.zeros((5, n + 6))
    ve, vn = np.zeros((5, n + 6)), np.zeros((5, n + 6))
    for j in range(n):
        v, e, nn = LETTERS[word[j % len(word)]]
        if word[j % len(word)] == "o" and j % 2 == 0:
            e, nn = -1, 0
        depth[2, j + 2], stage[2, j + 2] = 1.0, 5.0 - 0.01 * j
        ve[2, j + 2], vn[2, j + 2] = v * e, v * nn
    depth[2, n + 2], stage[2, n + 2] = 3.0, 1.0 - 0.01 * n
    end = (2, n + 2)
    p = dom.particles(depth=depth, stage=stage, ve=ve, vn=vn, gamma=1.0, diff_coeff=0.0)
    for k, M in enumerate((None, 7)):
        # first walk most of the channel, then in many short calls
        starts = [(2, 2 + q) for q in range(len(word))]
        for first in (0, 48, 49, 50, 51, n - 30):
            sim.place(p, starts)
            if first:
                wd, rep = call(p, 0.3, 1e9, first)
            wd0 = sim.plain(p.walk_data)
            base = max(t[-1] for t in wd0["travel_times"])
            for d in (0.3, 0.9, 2.0, 3.0, 3.1, 5.5, 7.0, 11.0, 14.5, 15.0, 21.3, 30.0, 33.0):
                wd, rep = call(p, 0.3, base + d, M)
                wd = sim.plain(wd)
                judge(p, wd0, wd, rep, base + d, M, lambda c: c == end,
                      {"word": word, "entries": [len(x) for x in wd0["xinds"]]}, 0.3)
                st.transition(len(starts))
                for q in range(len(starts)):
                    st.state((word, first, len(wd["xinds"][q]), d, k))
                wd0 = wd
            st.trace(len(starts))


def open_domain(case, st):
    """two-dimensional domains: particles that stay, freeze, meet zero-time steps"""
    s = case["n"]
    L, W = 9, 12
    depth = dom.field(L, W, s, [1.0, 1.0, 2.0, 0.6, 0.0])
    stage = dom.field(L, W, s + 1, [1.0, 1.4, 1.2]) - 0.1 * np.arange(W)
    qe = dom.field(L, W, s + 2, [1.0, 0.3, 4.0, -0.2])
    qn = dom.field(L, W, s + 3, [0.0, 0.3, -1.0])
    ct = np.where(depth > 0.1, 1, 2)
    for j in range(L):
        ct[j, -1] = -1
    verbose = [None, True, False][s % 3]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        p = dom.particles(depth=depth, stage=stage, qe=qe, qn=qn, cell_type=ct, gamma=0.4,
                          diff_coeff=[0.0, 0.5][s % 2], verbose=verbose)
    f = ref.Fields(depth, stage, qe, qn)
    P = ref.probabilities(f.depth, f.stage, f.qe, f.qn, ct, 1.0, 0.4, 0.1)
    cells = [(i, j) for i in range(1, L - 1) for j in range(1, W - 1) if ct[i, j] == 1]

    def can_stop(c):
        return ref.frozen(ct, *c) or not P[c].sum() > 0 or P[c][4] > 0
    for u in (0.1, 0.5, 0.9):
        sim.place(p, cells)
        wd0 = sim.plain(p.walk_data)
        for T, M in ((0.0, None), (0.3, 5), (2.0, 2), (2.0, None), (2.0, None), (9.0, 3),
                     (30.0, 40), (60.0, 7)):
            wd, rep = call(p, u, T, M)
            wd = sim.plain(wd)
            if verbose is False:
                check(rep is None, "warning although verbose is False")
                rep = []
                for q in range(len(cells)):
                    c = (int(wd["xinds"][q][-1]), int(wd["yinds"][q][-1]))
                    simulate_ok(wd["travel_times"][q], len(wd0["travel_times"][q]), T,
                                M or 10000, can_stop(c), {"particle": q, "domain": s})
            else:
                judge(p, wd0, wd, rep, T, M, can_stop, {"domain": s}, u)
            for q in range(len(cells)):
                st.state((s, T, wd["xinds"][q][-1], wd["yinds"][q][-1],
                          len(wd["xinds"][q])))
            st.transition(len(cells))
            wd0 = wd
        st.trace(len(cells))
