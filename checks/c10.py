"""C10: particles are independent: group runs vs solo runs, and joint draw products."""
import itertools

import numpy as np

from mc import dom, ref, rng, sim
from mc.core import Violation, check

ID = "C10"
LEVEL = "model_checking"
ASSUMPTIONS = ["solo and group runs are compared under draw values that are constant "
               "within a call (so the order of draws does not matter); joint behaviour "
               "under the full product of draws is compared with the product of the solo "
               "distributions"]
BOUNDS = {
    "quick": "8 domains, all pairs and 24 triples of 6 start cells, all 4-value draw "
             "sequences of length 3, step and target mode (reached, or ended by max_iter), later seeding; joint products "
             "4 draws x 5 values, 2 particles; 3^4 and 3^8 draws, 4 particles in one cell; groups of 50",
    "thorough": "40 domains, sequences of length 4; joint products with 7 values",
}


def cases(tier):
    q = tier == "quick"
    for n in range(8 if q else 40):
        yield {"kind": "group", "n": n, "len": 3 if q else 4}
    for n in range(6):
        yield {"kind": "joint", "n": n, "menu": 5 if q else 7}
    for n in range(3):
        yield {"kind": "crowd", "n": n}
    for n in range(4):
        yield {"kind": "four", "n": n, "menu": 3 if q else 4}


def make(n, dc=0.6, **kw):
    L, W = 8, 9
    depth = dom.field(L, W, n, [1.0, 2.0, 1.0, 0.5, 1.0, 0.0])
    stage = dom.field(L, W, n + 1, [2.0, 1.8, 1.6]) - 0.05 * np.arange(W)
    qe = dom.field(L, W, n + 2, [0.6, 1.0, 0.2])
    qn = dom.field(L, W, n + 3, [0.0, 0.5, -0.5])
    p = dom.particles(depth=depth, stage=stage, qe=qe, qn=qn, gamma=0.3, diff_coeff=dc,
                      steepest_descent=True if n % 5 == 4 else None, dx=2.0, **kw)
    wet = [(i, j) for i in range(2, L - 2) for j in range(2, W - 2) if depth[i, j] > 0.1]
    return p, wet


def rec(wd, q):
    return {k: sim.plain(wd)[k][q] for k in wd}


def run(p, cells, us, target, late=None):
    """late: (call index, cell) - a particle seeded between two calls"""
    sim.place(p, cells)
    for m, u in enumerate(us):
        if late and late[0] == m:
            p.generate_particles(1, [late[1][0]], [late[1][1]], seed_time=1.0 * m,
                                 method="exact")
        if target:
            # a limit that does not bind, or one that ends the call before the target
            k = int(round(100 * sum(us))) % 3
            sim.step(p, u, target_time=[4.0, 30.0, 12.0][k] * (m + 1),
                     max_iter=[8, 1, 3][k])
        else:
            sim.step(p, u)
    wd = sim.plain(p.walk_data)
    return [{k: wd[k][q] for k in wd} for q in range(len(wd["xinds"]))]


def run_case(case, st):
    n = case["n"]
    if case["kind"] == "joint":
        return joint(case, st)
    if case["kind"] == "four":
        return four(case, st)
    kw = {"particle_variables": ["depth", "u"]} if n % 2 else {}
    p, wet = make(n, **kw)
    menu = [0.04, 0.35, 0.66, 0.97]
    if case["kind"] == "crowd":
        cells = (wet * 60)[:120]
        f = rng.lcg(n)
        us = [f() for _ in range(30)]
        solo = {c: run(p, [c], us, False)[0] for c in wet}
        grp = run(p, cells, us, False)
        for c, r in zip(cells, grp):
            if r != solo[c]:
                raise Violation("a particle in a large group behaves differently from "
                                "alone", cell=c, solo=solo[c], group=r)
            st.transition(len(us))
        st.trace(len(cells))
        st.state(("crowd", n))
        return
    pick = wet[::max(1, len(wet) // 6)][:6]
    groups = list(itertools.product(pick, repeat=2)) + \
        list(itertools.permutations(pick[:4], 3))
    for target in (False, True):
        for us in itertools.product(menu, repeat=case["len"]):
            solo = {c: run(p, [c], us, target)[0] for c in pick}
            some = groups if us[0] == us[1] else groups[int(100 * sum(us)) % 3::3]
            for g in some:
                got = run(p, list(g), us, target)
                for q, c in enumerate(g):
                    if got[q] != solo[c]:
                        raise Violation(
                            "a particle behaves differently together with others",
                            group=g, particle=q, draws=us, target_mode=target,
                            solo=solo[c], together=got[q])
                st.transition(len(g) * len(us))
                st.trace()
            # a particle seeded later neither influences nor is influenced
            c, d = pick[0], pick[-1]
            got = run(p, [c], us, target, late=(1, d))
            check(got[0] == solo[c], "a particle seeded later changed an earlier one",
                  cell=c, other=d, draws=us, solo=solo[c], got=got[0])
            for c in pick:
                st.state((n, target, us, repr(solo[c])))
    st.sample({"groups": len(groups), "cells": pick, "solo": solo[pick[0]]}, 1)


def joint(case, st):
    """full product of draws for two particles: joint outcome counts must factorise"""
    n = case["n"]
    p, wet = make(n, dc=[0.0, 0.6][n % 2])
    pairs = [(wet[0], wet[0]), (wet[1], wet[-1]), (wet[2], wet[2])]
    menu = rng.mid(case["menu"])
    for a, b in pairs:
        solo = {}
        for c in {a, b}:
            cnt = {}

            def prog():
                sim.place(p, [c])
                return p.run_iteration()

            def on(path, wd):
                k = (wd["xinds"][0][-1], wd["yinds"][0][-1],
                     round(float(wd["travel_times"][0][-1]), 9))
                cnt[k] = cnt.get(k, 0) + 1
            paths, _, _ = rng.explore(prog, menu, 3, on)
            solo[c] = {k: v / float(paths) for k, v in cnt.items()}
            st.transition(paths)
        cnt = {}

        def prog2():
            sim.place(p, [a, b])
            return p.run_iteration()

        def on2(path, wd):
            k = tuple((wd["xinds"][q][-1], wd["yinds"][q][-1],
                       round(float(wd["travel_times"][q][-1]), 9)) for q in (0, 1))
            cnt[k] = cnt.get(k, 0) + 1
        paths, draws, trunc = rng.explore(prog2, menu, 5, on2)
        st.transition(2 * paths)
        st.trace(paths)
        for ka, pa in solo[a].items():
            for kb, pb in solo[b].items():
                got = cnt.get((ka, kb), 0) / float(paths)
                if abs(got - pa * pb) > 1e-9:
                    raise Violation(
                        "two particles in one iteration do not use independent draws",
                        cells=[a, b], outcome=[ka, kb], joint=got, product=pa * pb,
                        diff_coeff=p.diff_coeff)
                st.state((n, a, b, ka, kb))
        check(abs(sum(cnt.values()) - paths) < 1e-9 and
              set(cnt) <= set(itertools.product(solo[a], solo[b])),
              "outcomes that do not occur alone", cells=[a, b])
    st.sample({"joint_paths": paths, "cells": [a, b]}, 1)


def four(case, st):
    """four particles in one cell: every product of draws; each position in the list has
    the solo distribution and the joint distribution factorises"""
    n = case["n"]
    dc = [0.0, 0.6][n % 2]
    p, wet = make(n, dc=dc)
    menu = rng.mid(case["menu"])
    c = wet[n % len(wet)]
    nd = 2 if dc else 1

    def out(wd, q):
        return (wd["xinds"][q][-1], wd["yinds"][q][-1],
                round(float(wd["travel_times"][q][-1]), 9))
    solo, cnt = {}, {}

    def prog1():
        sim.place(p, [c])
        return p.run_iteration()

    def on1(path, wd):
        solo[out(wd, 0)] = solo.get(out(wd, 0), 0) + 1
    n1, _, _ = rng.explore(prog1, menu, nd + 1, on1)

    def prog4():
        sim.place(p, [c] * 4)
        return p.run_iteration()

    def on4(path, wd):
        k = tuple(out(wd, q) for q in range(4))
        cnt[k] = cnt.get(k, 0) + 1
    n4, _, _ = rng.explore(prog4, menu, 4 * nd + 1, on4)
    st.transition(n1 + 4 * n4)
    st.trace(n1 + n4)
    for k in itertools.product(solo, repeat=4):
        want = 1.0
        for x in k:
            want *= solo[x] / float(n1)
        got = cnt.get(k, 0) / float(n4)
        st.state((n, k))
        if abs(got - want) > 1e-9:
            raise Violation("four particles in one cell do not move independently",
                            cell=c, outcome=k, joint=got, product=want, diff_coeff=dc)
