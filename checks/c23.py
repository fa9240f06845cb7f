"""C23: parallel_routing under every assignment of tasks to worker processes."""
import itertools
import os

import numpy as np

import dorado.parallel_routing as pr
import dorado.particle_track as pt
from mc import dom, pool, ref, sim
from mc.core import Violation, check

ID = "C23"
LEVEL = "model_checking"
ASSUMPTIONS = ["the pool is replaced by one with the same interface and real forked worker "
               "processes, but a prescribed schedule; one run per configuration uses the "
               "real multiprocessing.Pool and must agree with all of them",
               "no particles were generated before the call"]
BOUNDS = {
    "quick": "1..4 cores, all assignments of tasks to workers up to renaming of workers "
             "(1, 2, 5, 15), all completion orders where they can matter, x 4 "
             "configurations x 3 random states x 1..3 iterations; 5, 6, 8 and more cores than the machine has with 5 "
             "corner schedules; 130 iterations on 2 cores",
    "thorough": "1..5 cores (52 assignments), 8 random states, up to 6 iterations",
}


def partitions(n):
    """assignments of n tasks to <= n identical workers (restricted growth strings)"""
    out = []

    def go(a):
        if len(a) == n:
            out.append(tuple(a))
            return
        for k in range(max(a + [-1]) + 2):
            go(a + [k])
    go([])
    return out


def corners(n):
    """all on one worker, one each, neighbours together, alternating, two halves"""
    return [(0,) * n, tuple(range(n)), tuple(k // 2 for k in range(n)),
            tuple(k % 2 for k in range(n)), tuple(int(k >= n // 2) for k in range(n))]


def cases(tier):
    q = tier == "quick"
    for n in range(1, 5 if q else 6):
        for cfg in range(4):
            for it in ((1, 3) if q else (1, 2, 3, 6)):
                yield {"cores": n, "cfg": cfg, "iters": it, "seeds": 3 if q else 8}
    # many iterations
    for cfg in (0, 2):
        yield {"cores": 2, "cfg": cfg, "iters": 130 if q else 1200, "seeds": 1, "wide": True}
    # more tasks than the exhaustive range: the corner schedules
    # (one of them beyond the number of processors)
    for n in sorted({5, 6, 8, min(os.cpu_count() or 1, 32) + 1} | (set() if q else
                                                                  {7, 9, 12, 17})):
        for cfg in (1, 3):
            yield {"cores": n, "cfg": cfg, "iters": 3, "seeds": 1, "corner": True}


def make(cfg, wide=0):
    L, W = 24, 30 + wide
    depth = dom.field(L, W, 5, [1.0, 0.75, 1.5, 1.25])
    stage = dom.field(L, W, 6, [1.0, 1.05, 1.1]) - 0.01 * np.arange(W)
    if wide:        # a channel long enough for all iterations
        depth[:4] = depth[-4:] = 0.0
    kw = {}
    if cfg in (1, 2):
        kw["particle_variables"] = ["u", "depth"][:cfg]
        kw["roi_grid"] = dom.field(L, W, 7, [0, 1]).astype(int)
    if cfg == 3:
        kw["steepest_descent"] = True
        kw["diff_coeff"] = 0.0
    else:
        kw["diff_coeff"] = [0.2, 0.5, 1.0][cfg]
    return dom.particles(depth=depth, stage=stage, qe=np.full((L, W), 0.5),
                         qn=dom.field(L, W, 8, [0.1, -0.2, 0.3]), dx=1.0, gamma=0.5, **kw)


SEEDS = [([10, 11, 12, 13], [8, 9, 10, 11, 12]), ([9, 14], [10, 11, 12, 13]),
         ([8, 9, 10, 11, 12], [9, 10, 11]), ([12], [11])]


def call(case, state, sched):
    p = make(case["cfg"], 3 * case["iters"] if case.get("wide") else 0)
    xs, ys = SEEDS[case["cfg"]]
    np.random.seed(state)
    Np = 6 if case["cfg"] != 3 else 2
    if sched is None:
        return pr.parallel_routing(p, case["iters"], Np, list(xs), list(ys),
                                   case["cores"]), p, Np
    with pool.scheduled(pr, sched):
        r = pr.parallel_routing(p, case["iters"], Np, list(xs), list(ys), case["cores"])
    return r, p, Np


def verify(r, p, Np, case, ctx):
    n, it = case["cores"], case["iters"]
    xs, ys = SEEDS[case["cfg"]]
    names = {"xinds", "yinds", "travel_times"} | set(
        {1: ["u", "roi_flag"], 2: ["u", "depth", "roi_flag"]}.get(case["cfg"], []))
    check(set(r) == names, "variables in the result", got=sorted(r), **ctx)
    for v in r:
        check(len(r[v]) == n * Np, "the result has not num_cores*Np particles",
              variable=v, got=len(r[v]), expected=n * Np, **ctx)
    W = np.nan_to_num(np.array(p.weight, float))
    for q in range(n * Np):
        for v in r:
            check(len(r[v][q]) == it + 1, "a particle has not num_iter iterations",
                  variable=v, particle=q, got=len(r[v][q]), **ctx)
        path = list(zip(r["xinds"][q], r["yinds"][q]))
        check(path[0][0] in xs and path[0][1] in ys and r["travel_times"][q][0] == 0,
              "a particle does not start at a seed location at time 0", particle=q,
              start=path[0], **ctx)
        for a, b, t, s in zip(path, path[1:], r["travel_times"][q],
                              r["travel_times"][q][1:]):
            k = (b[0] - a[0] + 1) * 3 + b[1] - a[1] + 1
            check(abs(b[0] - a[0]) <= 1 and abs(b[1] - a[1]) <= 1 and W[a][k] > 0,
                  "a step is not a possible one", particle=q, frm=a, to=b, **ctx)
            check(s >= t, "travel times decrease", particle=q, **ctx)
        for v in names - {"xinds", "yinds", "travel_times"}:
            for (i, j), g in zip(path, r[v][q]):
                w = int(p.roi_grid[i, j] == 1) if v == "roi_flag" else getattr(p, v)[i, j]
                check(float(g) == float(w), "tracked variable is not that of the cell",
                      variable=v, particle=q, **ctx)


def serial(case, Np):
    """steepest descent without diffusion: a serial run is the only possible result"""
    p = make(case["cfg"])
    xs, ys = SEEDS[case["cfg"]]
    p.generate_particles(Np, list(xs), list(ys))
    for _ in range(case["iters"]):
        p.run_iteration()
    return sim.plain(p.walk_data)


def run_case(case, st):
    n = case["cores"]
    for state in range(case["seeds"]):
        base, how = None, None
        todo = [pool.Schedule(a) for a in (corners(n) if case.get("corner") else
                                           partitions(n))]
        todo.append(None)
        while todo:
            s = todo.pop(0)
            ctx = dict(cores=n, iterations=case["iters"], random_state=state,
                       schedule="real pool" if s is None else [s.assign, s.order],
                       config=case["cfg"])
            r, p, Np = call(case, state, s)
            verify(r, p, Np, case, ctx)
            w = sim.plain(r)
            if base is None:
                base, how = w, ctx["schedule"]
            elif w != base:
                raise Violation("the result depends on which worker executes which task "
                                "(or on the order of completion)", other=how, **ctx)
            if s is not None and s.used_order and s.order is None:
                todo = [pool.Schedule(s.assign, o) for o in
                        (itertools.permutations(range(n)) if n < 6 else
                         [tuple(range(n))[::-1], tuple(range(1, n)) + (0,)])] + todo
            if s is not None:
                st.add("chunks", s.chunks)
                st.add("uncontrolled runs", int(s.chunks == 0))
            st.transition(n)
            st.trace()
        st.state((n, case["cfg"], case["iters"], repr(base)))
        if case["cfg"] == 3:
            want = serial(case, Np)
            for t in range(n):
                for v in want:
                    check(base[v][t * Np:(t + 1) * Np] == want[v], "a parallel task "
                          "differs from the serial run", task=t, variable=v)
        else:
            keys = [repr([base[v][t * Np:(t + 1) * Np] for v in ("xinds", "yinds",
                                                                 "travel_times")])
                    for t in range(n)]
            check(len(set(keys)) == n, "two tasks use the same random numbers", cores=n,
                  random_state=state)
            # no particle repeats another one (same draws at another place)
            parts = [repr(base["travel_times"][q]) + repr([x - base["xinds"][q][0] for x in
                                                          base["xinds"][q]])
                     for q in range(n * Np)]
            if case["iters"] >= 3:
                check(len(set(parts)) == len(parts), "two particles have the very same "
                      "sequence of steps and times", random_state=state)
    st.sample({"cores": n, "schedules": 5 if case.get("corner") else len(partitions(n)), "config": case["cfg"]}, 1)
