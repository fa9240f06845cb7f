"""C06: all API call sequences up to a depth; shadow copies decide what may change."""
import itertools

from mc import dom, ref, rng, sim
from mc.core import Violation, check

ID = "C06"
LEVEL = "model_checking"
ASSUMPTIONS = ["every draw of one call takes the same value; the value of the call is a "
               "choice of the explorer"]
BOUNDS = {
    "quick": "all sequences of 4 calls over 10 operations (seed exact/random/empty, step "
             "with 3 draws, 3 target times, clear, resume from given data) x 4 "
             "tracked-variable configurations; 200-step runs with 30 particles; forced routes (back and forth with and without "
             "delay in all 8 directions, into every border cell) of 12 iterations",
    "thorough": "all sequences of 5 calls over the same operations x 4 configurations",
}

# W: walk data assigned to the attribute of a fresh object (run_iteration then takes the
# number of particles from it); only as the first call
OPS = ["G1", "G2", "S0", "S1", "S2", "T1", "T5", "TB", "C", "P"]
CONFIGS = [[], ["depth"], ["roi_flag"], ["stage", "qx", "roi_flag"]]


def cases(tier):
    d = 4 if tier == "quick" else 5
    for cfg in range(len(CONFIGS)):
        for pre in itertools.product(range(len(OPS)), repeat=2):
            yield {"kind": "ops", "cfg": cfg, "pre": list(pre), "depth": d}
        for m in range(len(OPS)):
            yield {"kind": "ops", "cfg": cfg, "pre": ["W", m], "depth": d}
    for n in range(8):
        yield {"kind": "long", "n": n}
    for cfg in range(len(CONFIGS)):
        yield {"kind": "forced", "cfg": cfg}


def make(cfg, n=0):
    L, W = 8, 10
    depth = dom.field(L, W, 3 + n, [1.0, 2.0, 1.0, 0.5])
    depth[0] = depth[-1] = 0
    depth[4, 4] = 9.0           # a pool: dead end, particles may stay
    stage = dom.field(L, W, 4 + n, [2.0, 1.9, 1.8]) - 0.1 * dom.np.arange(W)
    stage[4, 4] = 0.0
    qe = dom.np.full((L, W), 0.6)
    qe[4, 4] = 0
    kw = {}
    if "roi_flag" in CONFIGS[cfg]:
        kw["roi_grid"] = (dom.field(L, W, 5, [0, 1, 1]) == 1).astype(int)
    if CONFIGS[cfg]:
        kw["particle_variables"] = list(CONFIGS[cfg])
    return dom.particles(depth=depth, stage=stage, qe=qe, qn=qe * 0.1, dx=1.0,
                         diff_coeff=0.3, gamma=0.3, **kw)


def stored_prev(cfg):
    prev = {"xinds": [[3, 3, 4], [5]], "yinds": [[2, 3, 4], [3]],
            "travel_times": [[0, 1.5, 4.0], [2.0]]}
    if cfg % 2:     # with the tracked variables, else lacking them
        for v in CONFIGS[cfg]:
            prev[v] = [[1.0, 2.0, 3.0], [4.0]]
    return prev


def do(p, op, cfg):
    if op == "G1":
        p.generate_particles(2, [3, 4], [2, 5], method="exact")
    elif op == "G2":
        p.generate_particles(1, [2, 5, 3], [2, 3], seed_time=1.5, method="random")
    elif op == "C":
        p.clear_walk_data()
    elif op == "P":
        p.generate_particles(0, [], [], method="random",
                             previous_walk_data=stored_prev(cfg))
    elif op == "W":
        p.walk_data = stored_prev(cfg)
    elif op[0] == "S":
        return p.run_iteration()
    elif op == "T1":
        return p.run_iteration(target_time=1.0)
    elif op == "T5":
        return p.run_iteration(target_time=5.0, max_iter=3)
    elif op == "TB":
        return p.run_iteration(target_time=1000.0, max_iter=1)


DRAW = {"S0": 0.0, "S1": 0.55, "S2": 1.0 - 2.0 ** -53, "T1": 0.3, "T5": 0.7, "TB": 0.45,
        "G1": 0.5, "G2": 0.9, "C": 0.5, "P": 0.5, "W": 0.5}


def invariants(wd, variables, ctx):
    keys = {"xinds", "yinds", "travel_times"} | set(variables)
    check(set(wd) == keys, "walk data has variables %s, expected %s"
          % (sorted(wd), sorted(keys)), **ctx)
    n = len(wd["xinds"])
    for k in wd:
        check(len(wd[k]) == n, "variable %s has %d particles, xinds %d"
              % (k, len(wd[k]), n), **ctx)
        for q in range(n):
            if len(wd[k][q]) != len(wd["xinds"][q]):
                raise Violation("lists of particle %d have different lengths: %s %d, "
                                "xinds %d" % (q, k, len(wd[k][q]), len(wd["xinds"][q])),
                                walk_data=wd, **ctx)
            check(len(wd[k][q]) >= 1, "empty record", **ctx)


def transition(p, op, cfg, st, ctx):
    """execute one operation and judge it against the shadow copy"""
    old = None if p.walk_data is None else sim.plain(p.walk_data)
    variables = CONFIGS[cfg]
    if op[0] in "ST" and old is None:
        try:
            with rng.control(lambda: DRAW[op]):
                do(p, op, cfg)
        except ValueError:
            st.transition()
            return
        raise Violation("routing without particles did not raise ValueError", **ctx)
    with rng.control(lambda: DRAW[op]):
        ret = do(p, op, cfg)
    st.transition()
    if op == "W":
        return
    if op == "C":
        check(p.walk_data is None, "clear_walk_data left data behind", **ctx)
        return
    check(p.walk_data is not None, "walk data vanished", **ctx)
    wd = sim.plain(p.walk_data)
    invariants(wd, variables, ctx)
    nold = 0 if old is None else len(old["xinds"])
    n = len(wd["xinds"])
    if op[0] in "ST":
        check(sim.plain(ret) == wd, "the returned walk data is not what is stored",
              returned=ret, stored=wd, **ctx)
        check(n == nold, "number of particles changed by routing", **ctx)
        for q in range(n):
            for k in wd:
                m = len(old[k][q]) if k in old else None
                if m is not None and wd[k][q][:m] != old[k][q]:
                    raise Violation("an earlier entry of %s of particle %d was changed"
                                    % (k, q), before=old[k][q], after=wd[k][q], **ctx)
            m = len(old["xinds"][q])
            pos = list(zip(wd["xinds"][q], wd["yinds"][q]))
            if op[0] == "S":
                check(len(pos) - m in (0, 1), "one iteration appended %d entries"
                      % (len(pos) - m), particle=q, before=old, after=wd, **ctx)
            for a, b in zip(pos[m - 1:], pos[m:]):
                check(a != b, "an entry was appended for a particle that did not move",
                      particle=q, path=pos, **ctx)
    else:
        add = {"G1": 2, "G2": 1, "P": 2}[op]
        check(n == nold + add, "seeding added %d particles instead of %d"
              % (n - nold, add), **ctx)
        if op == "P":
            prev = sim.plain(stored_prev(cfg))
            for k in prev:
                if k in wd:
                    check(wd[k][:2] == prev[k], "previous walk data not taken over as is",
                          variable=k, got=wd[k], **ctx)
            off = 2
        else:
            off = 0
        if old is not None:
            for k in old:
                if k in wd and wd[k][off:off + nold] != old[k]:
                    raise Violation("existing particles were changed by seeding",
                                    variable=k, before=old[k], after=wd[k], **ctx)
    check(p.Np_tracer == n, "Np_tracer is %s with %d particles" % (p.Np_tracer, n), **ctx)
    st.state((cfg, repr(wd)))


def forced(cfg, st):
    """domains in which the next cell of a particle is certain: it has to be recorded"""
    np = dom.np
    routes = []
    for k, (dr, dc) in enumerate(ref.OFFS):
        if k != 4:
            routes.append(("swing", (7, 9), [(3, 4), (3 + dr, 4 + dc)]))
            # five cells in a row, across and against the flow (moves without delay),
            # and into a cell whose water level is unknown
            line = [(7 + m * dr, 7 + m * dc) for m in range(-2, 4)]
            for kind in ("across", "against", "unknown"):
                routes.append((kind, (14, 14), line))
    for L, W in ((5, 6), (6, 5)):
        for i in range(L):
            for j in range(W):
                if i in (0, L - 1) or j in (0, W - 1):
                    a = (min(max(i, 1), L - 2), min(max(j, 1), W - 2))
                    b = (2 * a[0] - i, 2 * a[1] - j)
                    routes.append(("border", (L, W), [b, a, (i, j)]))
    for kind, (L, W), path in routes:
        depth, stage = np.zeros((L, W)), np.zeros((L, W))
        qe, qn = np.zeros((L, W)), np.zeros((L, W))
        for m, c in enumerate(path):
            depth[c] = 1.0
            stage[c] = 5.0 - m
        if kind == "swing":
            # there by the slope, across the flow; back with the flow
            a, b = path
            e, n = b[1] - a[1], a[0] - b[0]
            qe[a], qn[a] = -n, e
            qe[b], qn[b] = -e, -n
        elif kind in ("across", "against"):
            for a in path:
                e, n = path[1][1] - path[0][1], path[0][0] - path[1][0]
                qe[a], qn[a] = (-n, e) if kind == "across" else (-e, -n)
        elif kind == "unknown":
            path = path[:2]
            depth[:], stage[:] = 0, 0
            depth[path[0]], depth[path[1]] = 1.0, 2.0
            stage[path[0]], stage[path[1]] = 5.0, np.nan
            for c in path:
                qe[c], qn[c] = 0.7 * (path[1][1] - path[0][1]), \
                    0.7 * (path[0][0] - path[1][0])
        ct = np.where(depth > 0, [0, 1][cfg % 2], 2)
        kw = {}
        if "roi_flag" in CONFIGS[cfg]:
            kw["roi_grid"] = (depth > 0).astype(int)
        if CONFIGS[cfg]:
            kw["particle_variables"] = list(CONFIGS[cfg])
        for mode in ("step", "target"):
            p = dom.particles(depth=depth.copy(), stage=stage.copy(), qe=qe, qn=qn,
                              cell_type=ct, diff_coeff=0.0,
                              gamma=1.0 if kind == "against" else 0.5, **kw)
            sim.place(p, [path[0], path[1]])
            want = [[path[0]], [path[1]]]
            for it in range(12 if kind in ("swing", "border") else 4):
                with rng.control(lambda: 0.3 + 0.05 * it):
                    if mode == "step":
                        p.run_iteration()
                    else:
                        p.run_iteration(target_time=1e9, max_iter=1)
                for w in want:
                    m = path.index(w[-1])
                    if m < len(path) - 1:
                        w.append(path[m + 1])
                    elif kind == "swing":
                        w.append(path[0])
                wd = sim.plain(p.walk_data)
                invariants(wd, CONFIGS[cfg], {"route": path})
                for q in (0, 1):
                    got = [(int(x), int(y)) for x, y in zip(wd["xinds"][q],
                                                            wd["yinds"][q])]
                    if got != want[q]:
                        raise Violation("the record is not the moves of the particle",
                                        recorded=got, moves=want[q], depth=depth,
                                        stage=stage, qe=qe, qn=qn, mode=mode)
                st.transition(2)
            st.trace()
            st.state((kind, L, W, path, mode, cfg))


def run_case(case, st):
    if case["kind"] == "forced":
        return forced(case["cfg"], st)
    cfg = case["cfg"] if "cfg" in case else case["n"] % 4
    if case["kind"] == "long":
        p = make(cfg, case["n"])
        f = rng.lcg(case["n"])
        seq = ["G1"] * 10 + ["P"] * 5 + ["S1"] * 60 + ["G2"] + ["S0", "S2"] * 20 + \
            ["T5"] * 10 + ["TB"] * 5 + ["S1"] * 20
        for m, op in enumerate(seq):
            DRAW2 = f()
            old = DRAW[op]
            DRAW[op] = DRAW2
            try:
                transition(p, op, cfg, st, {"long": case["n"], "call": m, "op": op})
            finally:
                DRAW[op] = old
        st.trace()
        return
    for tail in itertools.product(range(len(OPS)), repeat=case["depth"] - 2):
        seq = [i if i == "W" else OPS[i] for i in case["pre"] + list(tail)]
        p = make(cfg)
        for m, op in enumerate(seq):
            transition(p, op, cfg, st, {"calls": seq[:m + 1], "tracked": CONFIGS[cfg]})
        st.trace()
    st.sample({"calls": seq, "tracked": CONFIGS[cfg],
               "walk_data": None if p.walk_data is None else sim.plain(p.walk_data)}, 1)
