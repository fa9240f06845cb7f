"""C14: every subset of tracked variables x every bounded call sequence; each recorded
value is compared with the grid of the object that recorded it."""
import itertools

import numpy as np

import dorado.particle_track as pt
from mc import dom, rng, sim
from mc.core import Violation, check

ID = "C14"
LEVEL = "model_checking"
ASSUMPTIONS = ["variables not tracked when a position was recorded have no value (None)"]
BOUNDS = {
    "quick": "all 64 subsets of the 6 fields x {no roi, 3 roi grids} x {roi_flag named or "
             "not}, all sequences of 4 calls from {step, target time, seed exactly, seed "
             "randomly, reload (with all, all but one or no tracked variable recorded) into an object "
             "with other fields}; 2 draw streams; 70 particles with records of up to 281 positions",
    "thorough": "sequences of 5 calls, 4 draw streams",
}
VARS = ("depth", "stage", "qx", "qy", "u", "v")
OPS = "STGRU"


def cases(tier):
    n = 4 if tier == "quick" else 5
    for r in range(len(VARS) + 1):
        for sub in itertools.combinations(VARS, r):
            for roi in (None, 0, 1, 2):
                yield {"k": "seq", "vars": list(sub), "roi": roi, "len": n,
                       "streams": 2 if tier == "quick" else 4}
    for n in range(4 if tier == "quick" else 16):
        yield {"k": "long", "n": n}
    yield {"k": "errors"}


def rois(k, shape):
    if k == 0:
        return dom.field(shape[0], shape[1], 91, [0, 1]).astype(int)
    if k == 1:
        g = np.zeros(shape)
        g[4:, 3:] = 1.0
        return g
    # 1 inside, other markers elsewhere
    return dom.field(shape[0], shape[1], 92, [0, 1, 2, -1, 1]).astype(int)


def make(sub, roi, fieldset, named=True, steep=False):
    L, W = 9, 10
    depth = dom.field(L, W, 31 + fieldset, [1.0, 1.25, 0.75, 2.0])
    stage = dom.field(L, W, 41 + fieldset, [2.0, 1.9, 2.05])
    depth[4, 4] = 0.0          # stage is NaN there
    depth[6, 2], depth[3, 5] = 0.05, 0.06      # shallower than dry_depth
    depth[5:8, 5:9] = 0.0      # and here, where particles walk from dry to dry cells
    c = stage[2, 7]            # wet water without a known level around one cell
    stage[1:4, 6:9] = np.nan
    stage[2, 7], depth[2, 7] = c, 0.5
    qe = 0.5 + dom.field(L, W, 51 + fieldset, [0.0, 0.25, -0.75])
    qn = dom.field(L, W, 61 + fieldset, [0.25, 0.0, -0.5])
    kw = {}
    pv = list(sub)
    if roi is not None:
        kw["roi_grid"] = rois(roi, (L, W))
        if named and len(sub) % 2:
            pv.insert(len(pv) // 2, "roi_flag")
    if pv or len(sub) % 2 == 0:
        kw["particle_variables"] = pv
    return dom.particles(depth=depth, stage=stage, qe=qe, qn=qn, dx=1.0, diff_coeff=0.3,
                         gamma=0.3, model=[None, "DeltaRCM"][fieldset % 2],
                         steepest_descent=True if steep else None, **kw)


def eq(a, b):
    a, b = float(a), float(b)
    return a == b or (a != a and b != b)


def run_seq(case, st):
    sub, roi = tuple(case["vars"]), case["roi"]
    steep = len(sub) % 3 == 1      # a third of the subsets, every variable among them
    objs = [make(sub, roi, 0, steep=steep), make(sub, roi, 1, steep=steep)]
    grids = [{v: np.array(getattr(P, v), float) for v in VARS} for P in objs]
    want_vars = set(sub) | ({"roi_flag"} if roi is not None else set())
    roig = None if roi is None else rois(roi, objs[0].depth.shape)
    seqs = [s for s in itertools.product(OPS, repeat=case["len"])]
    for m, seq in enumerate(seqs):
        for k in range(case["streams"] if m % 5 == 0 else 1):
            for P in objs:
                P.clear_walk_data()
            P, cur = objs[0], 0
            missing = set()     # (variable, particle, record) without a value
            owner = []          # per particle, per record: which object recorded it

            def note():
                wd = P.walk_data
                for q in range(len(wd["xinds"])):
                    if q >= len(owner):
                        owner.append([])
                    owner[q].extend([cur] * (len(wd["xinds"][q]) - len(owner[q])))
            with rng.control(rng.lcg(1000 * k + m)):
                P.generate_particles(5, [5, 4, 4, 6, 2], [2, 3, 4, 6, 7],
                                     method="exact")
                note()
                for n, op in enumerate(seq):
                    if op == "S":
                        P.run_iteration()
                    elif op == "T":
                        P.run_iteration(target_time=3.0 * (n + 1), max_iter=4)
                    elif op == "G":
                        P.generate_particles(1, [3 + n, 6], [5, 2], method="exact",
                                             seed_time=float(n))
                    elif op == "R":
                        P.generate_particles(2, [3, 4, 6], np.array([4, 5, 6]))
                    else:
                        old = P.walk_data
                        if n % 2 and m % 3 != 1:
                            # saved by a run which tracked only some of the variables
                            lack = sorted(want_vars)[:1] if m % 3 else list(want_vars)
                            old = {k: x for k, x in old.items() if k not in lack}
                            for v in lack:
                                for q in range(len(owner)):
                                    missing.update((v, q, r) for r in range(len(owner[q])))
                        cur = 1 - cur
                        P = objs[cur]
                        P.clear_walk_data()
                        P.generate_particles(0, [], [], previous_walk_data=old)
                    note()
                    st.transition()
            wd = P.walk_data
            ctx = dict(tracked=sub, roi=roi, calls="".join(seq), stream=k)
            check(set(wd) == want_vars | {"xinds", "yinds", "travel_times"},
                  "the recorded variables are not those asked for", got=sorted(wd), **ctx)
            for q in range(len(wd["xinds"])):
                xs, ys = wd["xinds"][q], wd["yinds"][q]
                for v in want_vars:
                    check(len(wd[v][q]) == len(xs), "a tracked variable has not one value "
                          "per recorded position", var=v, particle=q, **ctx)
                for n in range(len(xs)):
                    x, y = int(xs[n]), int(ys[n])
                    for v in sub:
                        w = grids[owner[q][n]][v][x, y]
                        g = wd[v][q][n]
                        if (v, q, n) in missing:
                            check(g is None, "a value was invented for a record made "
                                  "without this variable", var=v, got=g, **ctx)
                            continue
                        if g is None or not eq(g, w):
                            raise Violation("tracked value is not that of the recorded "
                                            "cell", var=v, particle=q, record=n,
                                            cell=[x, y], got=g, expected=w, **ctx)
                    if roi is not None:
                        w = 1 if roig[x, y] == 1 else 0
                        g = wd["roi_flag"][q][n]
                        if ("roi_flag", q, n) in missing:
                            check(g is None, "a flag was invented for a record made "
                                  "without it", got=g, **ctx)
                            continue
                        if g is None or not eq(g, w):
                            raise Violation("roi_flag does not tell whether the recorded "
                                            "cell is in the region", particle=q, record=n,
                                            cell=[x, y], got=g, expected=w, **ctx)
            st.trace()
            st.state((sub, roi, repr([list(map(int, x)) for x in wd["xinds"]]),
                      repr([list(map(int, x)) for x in wd["yinds"]])))
    st.sample({"tracked": sub, "roi": roi, "sequences": len(seqs)}, 1)


def run_long(n, st):
    """records of hundreds of positions, dozens of particles, a large raster"""
    L, W = 41, 300
    depth = dom.field(L, W, 3 + n, [1.0, 1.25, 0.75, 2.0])
    stage = dom.field(L, W, 4 + n, [2.0, 1.9, 2.05]) - 0.02 * np.arange(W)
    qe, qn = 0.5 + dom.field(L, W, 5 + n, [0.0, 0.25]), dom.field(L, W, 6 + n,
                                                                  [0.25, 0.0, -0.5])
    roi = dom.field(L, W, 7 + n, [0, 1]).astype(int)
    P = dom.particles(depth=depth, stage=stage, qe=qe, qn=qn, dx=1.0, diff_coeff=0.3,
                      gamma=0.1, roi_grid=roi, particle_variables=list(VARS),
                      steepest_descent=True if n % 4 == 3 else None)
    grids = {v: np.array(getattr(P, v), float) for v in VARS}
    grids["roi_flag"] = (roi == 1).astype(float)
    seeds = [(2 + q % 37, 2 + q // 37) for q in range(70)]
    with rng.control(rng.lcg(77 + n)):
        P.generate_particles(70, [a for a, b in seeds], [b for a, b in seeds],
                             method="exact")
        for k in range(280 if n % 2 else 30):
            if n % 2:
                P.run_iteration()
            else:
                P.run_iteration(target_time=30.0 * (k + 1))
    wd = P.walk_data
    for v in grids:
        for q in range(70):
            x, y = np.array(wd["xinds"][q], int), np.array(wd["yinds"][q], int)
            got, want = np.array(wd[v][q], float), grids[v][x, y]
            st.transition(len(x))
            if got.shape != want.shape or not np.array_equal(got, want, equal_nan=True):
                k = 0 if got.shape != want.shape else int(np.where(
                    ~((got == want) | (np.isnan(got) & np.isnan(want))))[0][0])
                raise Violation("tracked value is not that of the recorded cell", var=v,
                                particle=q, record=k, length=len(x), domain=n,
                                values=len(got))
    st.trace(70)
    st.state(("long", n, max(map(len, wd["xinds"]))))
    st.sample({"long records": sorted(map(len, wd["xinds"]))[-3:]}, 1)


def run_errors(st):
    def rejects(f, what):
        st.transition()
        st.trace()
        st.state(what)
        try:
            f()
        except ValueError:
            return
        raise Violation("accepted: " + what)

    def unknown(names, roi):
        P = make((), roi, 0, named=False)
        d = {n: getattr(P, n) for n in ("depth", "stage")}
        par = dom.params(ve=d["depth"] * 0 + 1, vn=d["depth"] * 0, depth=d["depth"],
                         stage=np.nan_to_num(d["stage"]), particle_variables=names,
                         **({} if roi is None else {"roi_grid": rois(roi,
                                                                     d["depth"].shape)}))
        for m, k in (("random", 1), ("exact", 2)):
            Q = pt.Particles(par)
            Q.generate_particles(k, [4], [4, 5] if m == "random" else [4], method=m)
    for roi in (None, 0):
        for bad in ("velocity", "Depth", "topography", "xind", "", "cell_type", "theta",
                    "weight", "dx"):
            for names in ([bad], ["depth", bad], [bad, "u", "v"]):
                rejects(lambda: unknown(names, roi), "unknown variable %r in %r" % (bad,
                                                                                names))
    rejects(lambda: unknown(["roi_flag"], None), "roi_flag without a roi grid")
    base = make((), None, 0)
    L, W = base.depth.shape
    for sh in itertools.product(range(1, 12), repeat=2):
        par = dom.params(ve=base.depth * 0 + 1, vn=base.depth * 0, depth=base.depth,
                         stage=base.depth + 1, roi_grid=np.ones(sh, dtype=int))
        if sh == (L, W):
            pt.Particles(par)
        else:
            rejects(lambda: pt.Particles(par), "roi grid of shape %s" % (sh,))


def run_case(case, st):
    if case["k"] == "seq":
        run_seq(case, st)
    elif case["k"] == "long":
        run_long(case["n"], st)
    else:
        run_errors(st)
