"""C30: every interleaving of the calls on several Particles objects, every analysis at
every position of a simulation, every ordered pair of functions: no hidden shared state."""
import copy
import gc
import itertools
import locale
import logging
import multiprocessing
import os
import pickle
import random
import shutil
import signal
import sys
import warnings

import matplotlib
import numpy as np
from matplotlib import pyplot as plt

import dorado.parallel_routing as pr
import dorado.particle_track as pt
import dorado.routines as ro
import dorado.spatial as sp
from checks import c12
from mc import dom, figs, rng, sim
from mc.core import Violation, check

ID = "C30"
LEVEL = "model_checking"
ASSUMPTIONS = ["each object is given its own random draws when objects are interleaved",
               "draw_travel_path draws random colours, so it may advance the random state; "
               "plot_state and show_nourishment_* draw into the current figure by design",
               "imports and caches warmed up before the process-wide state is compared"]
BOUNDS = {
    "quick": "two objects: all interleavings of 3 calls each (20) x 8 pairs of call "
             "sequences x 10 pairs of configurations (same or different domain, size, "
             "parameters), an object built in between, three objects with 2 calls each; "
             "one parameter object used for 2 Particles: all ordered pairs of 36 input "
             "combinations and of 16 option sets, with equal and changed values; "
             "22 analyses at each of 6 positions and at all of them of 3 simulations under a "
             "seeded generator; all ordered pairs of 46 functions with up to 2 and 3 "
             "inputs each, process-wide state compared",
    "thorough": "4 calls per object (70 interleavings), all pairs with 3 and 6 inputs each",
}
SCRIPTS = [("ESS", "ESS"), ("EST", "GSS"), ("GTS", "ETT"), ("ETE", "ESS"), ("PSS", "EST"),
           ("PST", "PTS"), ("ECE", "ESS"), ("ESS", "CES")]
NCFG = 6
PAIRS = [(0, 0), (0, 1), (1, 0), (0, 2), (2, 3), (3, 0), (4, 0), (0, 4), (5, 0), (1, 5)]


def cases(tier):
    q = tier == "quick"
    fresh(3 if q else 6)
    for s, (a, b) in enumerate(SCRIPTS):
        for p in range(len(PAIRS)):
            yield {"k": "objects", "s": s, "p": p, "extra": "" if q else "S"}
    for c in itertools.permutations(range(3)):
        yield {"k": "three", "c": list(c)}
    for a in range(len(SETS)):
        yield {"k": "reuse", "a": a, "opts": False}
    for o in range(len(OPTIONS)):
        yield {"k": "reuse", "a": o, "opts": True}
    for f in ANALYSES:
        for h in range(len(HIST)):
            yield {"k": "between", "f": f, "h": h}
    for f in allfuncs():
        yield {"k": "pairs", "f": f, "nf": 2 if q else 3, "ng": 3 if q else 6}


# --- several objects ------------------------------------------------------------------
def params(cfg):
    L, W = (9, 30) if cfg != 3 else (12, 22)
    depth = dom.field(L, W, 7, [1.0, 2.0, 1.0, 0.5])
    stage = dom.field(L, W, 8, [2.0, 1.99, 1.98]) - 0.02 * np.arange(W)
    qe = np.full((L, W), 0.6)
    kw = dict(diff_coeff=0.5, gamma=0.3, dx=1.0)
    if cfg == 1:
        # same shape, other flow
        depth = dom.field(L, W, 17, [1.5, 0.7, 2.0])
        stage = stage[::-1].copy()
        qe = 0.9 * qe
        kw.update(theta=0.0, gamma=0.9, dx=4.0, diff_coeff=0.0)
    if cfg == 2:
        kw.update(particle_variables=["depth", "u"],
                  roi_grid=(dom.field(L, W, 5, [0, 1, 1]) == 1).astype(int))
    if cfg == 4:
        kw.update(steepest_descent=True, diff_coeff=1.5)
    if cfg == 5:
        kw.update(model="DeltaRCM", particle_variables=["stage"])
        ct = np.zeros((L, W), dtype=int)
        ct[:, -1] = -1
        ct[6, 5:9] = 2
        kw["cell_type"] = ct
    return dict(depth=depth, stage=stage, qe=qe, qn=0.1 * qe, **kw)


SHARED = {}


def make(cfg):
    """objects of one configuration share their parameter object"""
    if cfg not in SHARED:
        SHARED[cfg] = dom.params(**params(cfg))
    return pt.Particles(SHARED[cfg])


PREV = {"xinds": [[5, 5, 6], [7]], "yinds": [[3, 4, 4], [5]],
        "travel_times": [[0.0, 1.5, 2.5], [1.0]]}
PREV0 = copy.deepcopy(PREV)


def op(P, c, n):
    if c == "E":
        P.generate_particles(2, [5, 6], [2, 3], method="exact")
    elif c == "G":
        P.generate_particles(2, [4, 5, 6], [3, 4, 2], seed_time=1.25 * n)
    elif c == "S":
        P.run_iteration()
    elif c == "T":
        P.run_iteration(target_time=4.0 + 2.0 * n)
    elif c == "P":
        # all objects load the very same earlier data
        P.generate_particles(1, [6], [4], method="exact", previous_walk_data=PREV)
    elif c == "C":
        P.clear_walk_data()


def data(P):
    return None if P.walk_data is None else sim.plain(P.walk_data)


def solo(cfg, script, s):
    P = make(cfg)
    out = []
    f = rng.lcg(s)
    for n, c in enumerate(script):
        with rng.control(f):
            op(P, c, n)
        out.append(data(P))
    return out


def together(cfgs, scripts, order, late, st, **ctx):
    """order: which object makes the next call; late: objects are built when first used"""
    n = len(cfgs)
    P = [None if late else make(c) for c in cfgs]
    fs = [rng.lcg(11 + i) for i in range(n)]
    at = [0] * n
    want = [solo(cfgs[i], scripts[i], 11 + i) for i in range(n)]
    given = [None] * n
    for i in order:
        if P[i] is None:
            P[i] = make(cfgs[i])
        with rng.control(fs[i]):
            op(P[i], scripts[i][at[i]], at[i])
        at[i] += 1
        given[i] = P[i].walk_data
        for j in range(n):
            if P[j] is None:
                continue
            if at[j] == 0:
                check(P[j].walk_data is None, "an unused object has particles", object=j,
                      order=order, **ctx)
                continue
            if data(P[j]) != want[j][at[j] - 1]:
                raise Violation("a simulation is not what it is without the other one",
                                object=j, calls=scripts[j][:at[j]], order=order,
                                got=data(P[j]), expected=want[j][at[j] - 1], **ctx)
        st.transition()
    for i, w in enumerate(given):
        check(w is P[i].walk_data, "an object's walk data was replaced by calls on another",
              object=i, order=order, **ctx)
    st.trace()
    st.state((tuple(cfgs), tuple(scripts), order, late))
    check(PREV == PREV0, "the earlier data loaded by several objects was modified", **ctx)


def run_objects(case, st):
    a, b = SCRIPTS[case["s"]]
    a, b = a + case["extra"], b + case["extra"]
    cfgs = PAIRS[case["p"]]
    for pos in itertools.combinations(range(len(a) + len(b)), len(a)):
        order = tuple(0 if i in pos else 1 for i in range(len(a) + len(b)))
        for late in (False, True):
            together(cfgs, (a, b), order, late, st, configurations=cfgs, built_late=late)
    st.sample({"scripts": [a, b], "configurations": cfgs}, 1)


def run_three(case, st):
    scripts = ("ES", "GT", "PS")
    for order in set(itertools.permutations((0, 0, 1, 1, 2, 2))):
        together(case["c"], scripts, order, False, st, configurations=case["c"])


# --- analyses in between --------------------------------------------------------------
# --- one parameter object used again ---------------------------------------------------
SETS = [(g, f, m) for g in ("ds", "dt", "st", "dst") for f in ("q", "u", "qu")
        for m in (None, "DeltaRCM", "Anuga")]
OPTIONS = [{}, {"theta": 2.0}, {"gamma": 0.6}, {"diff_coeff": -1.0}, {"diff_coeff": 0.7},
           {"dry_depth": 0.4}, {"cell_type": 0}, {"steepest_descent": True}, {"roi_grid": 0},
           {"particle_variables": ["depth", "u"]}, {"distances": 0, "angles": 0},
           {"ivec": 0, "jvec": 0}, {"iwalk": 0, "jwalk": 0}, {"verbose": False}, {"dx": 7.0},
           {"theta": 0.0, "gamma": 0.0, "dry_depth": 0.0, "steepest_descent": False}]
NAMES = {"d": ("depth",), "s": ("stage",), "t": ("topography",), "q": ("qx", "qy"),
         "u": ("u", "v")}


def inputs(key, opt, variant):
    """what the user sets on the parameter object"""
    g, f, m = key
    v = variant
    d = dom.field(6, 8, 3 + v, [1.0, 0.3, 2.0, 0.05, 0.0])
    t = dom.field(6, 8, 5 + v, [0.0, 0.2, -0.5])
    a = {"depth": d, "topography": t, "stage": d + t,
         "qx": dom.field(6, 8, 1 + v, [0.3, -0.2, 0.0]),
         "qy": dom.field(6, 8, 2 + v, [0.1, 0.5, -0.4]),
         "u": dom.field(6, 8, 4 + v, [0.2, -0.6, 0.0]),
         "v": dom.field(6, 8, 7 + v, [0.7, 0.05, -0.3])}
    r = {"dx": 3.0}
    for x in g + f:
        for n in NAMES[x]:
            r[n] = a[n].copy()
    if m:
        r["model"] = m
    geo = {"cell_type": dom.field(6, 8, v, [0, 1, 2, -1]).astype(int),
           "roi_grid": dom.field(6, 8, v, [0, 1]).astype(int),
           "distances": np.full((3, 3), 1.5 + v), "angles": np.full((3, 3), 0.5 * v),
           "ivec": np.full((3, 3), 0.6 + v), "jvec": np.full((3, 3), -0.4 - v),
           "iwalk": np.array([[0, 1, 0], [1, 0, -1], [0, -1, 0]]) * (1 - 2 * (v % 2)),
           "jwalk": np.array([[1, 0, 1], [0, 0, 0], [-1, 0, -1]]) * (1 - 2 * (v % 2))}
    for n in opt:
        r[n] = geo[n] if n in geo else opt[n]
    return r


def assign(p, old, new):
    """the user sets other values, and clears what is not wanted any more"""
    for n in old:
        if n not in new:
            if n in ("dx", "depth", "stage", "qx", "qy", "u", "v", "verbose"):
                setattr(p, n, None)
            elif hasattr(p, n):
                delattr(p, n)
    for n in new:
        setattr(p, n, new[n])
    return p


def built(p):
    P = pt.Particles(p)
    d = c12.state_of(P)
    d["verbose"] = P.verbose
    return P, d


def run_reuse(case, st):
    if case["opts"]:
        one = [(SETS[k], OPTIONS[case["a"]]) for k in (0, 4)]
        two = [(SETS[k], o) for k in (0, 4, 31) for o in OPTIONS]
    else:
        one = [(SETS[case["a"]], {}), (SETS[case["a"]], {"diff_coeff": 0.5})]
        two = [(s, o) for s in SETS for o in ({}, {"dry_depth": 0.3})]
    level = logging.getLogger("dorado").level
    for a, b in itertools.product(one, two):
        for va, vb in ((0, 0), (0, 1)):
            A, B = inputs(*a, va), inputs(*b, vb)
            ctx = dict(first=[a, va], then=[b, vb])
            wantA = built(assign(pt.modelParams(), {}, inputs(*a, va)))[1]
            wantB = built(assign(pt.modelParams(), {}, inputs(*b, vb)))[1]
            p = assign(pt.modelParams(), {}, A)
            P, got = built(p)
            check(sim.same(got, wantA), "building the same object twice differs", **ctx)
            Q, got = built(assign(p, A, B))
            bad = [n for n in wantB if not sim.same(got.get(n), wantB[n])]
            check(not bad and len(got) == len(wantB), "a parameter object that was used "
                  "before gives other Particles than a new one", differing=bad, **ctx)
            now = c12.state_of(P)
            bad = [n for n in now if not sim.same(now[n], wantA[n])]
            check(not bad, "the first object changes when another is built from its "
                  "parameter object", differing=bad, **ctx)
            st.transition(3)
            st.state((a, b, va, vb))
        st.trace()
    logging.getLogger("dorado").setLevel(level)


HIST = ["ESSTGS", "GSTSST", "PSTESS"]
GRID = np.arange(9. * 30).reshape(9, 30)


def region():
    r = np.zeros((9, 30), dtype=int)
    r[2:7, 3:14] = 1
    return r


PTS = [(0., 0.), (1.3, 0.2), (2., 1.7), (0.4, 2.2), (3., 3.), (2.5, 0.5)]
ANALYSES = {
    "exposure_time": lambda P: pt.exposure_time(P.walk_data, region()),
    "nourishment_area": lambda P: pt.nourishment_area(P.walk_data, (9, 30)),
    "nourishment_time": lambda P: pt.nourishment_time(P.walk_data, (9, 30)),
    "get_state": lambda P: ro.get_state(P.walk_data),
    "get_state0": lambda P: ro.get_state(P.walk_data, 0),
    "get_time_state": lambda P: ro.get_time_state(P.walk_data, 2.0),
    "systemwide": lambda P: sp.systemwide(P.walk_data, GRID, region(), 4),
    "localized": lambda P: sp.localized(P.walk_data, GRID, region(), 4),
    "thresholds": lambda P: sp.compute_thresholds(
        [[1.0, 2.0, 3.5, 4.0, 5.0, 9.0], [1.0, 2.0], float("nan"), [2.0]],
        np.arange(16.).reshape(4, 4), 60., 2),
    "filter": lambda P: sp.median_absolute_deviation_filter(
        np.array([[1., np.nan, 9.], [2., 2.5, 3.], [0.5, 7., 1.]]), 3, 1),
    "coord2ind": lambda P: pt.coord2ind([(10.5, 21.), (12., 24.)], (10., 20.), (7, 8), 2.),
    "ind2coord": lambda P: pt.ind2coord(copy.deepcopy(P.walk_data), (1., 2.), (9, 30), 2.),
    "unstruct2grid": lambda P: pt.unstruct2grid(PTS, [1., 2., 3., 4., 5., 6.], 0.5, 3)[1],
    "flux_seeding": lambda P: pt.flux_proportional_seeding(np.array([1., -2., .5]), 10, 2),
    "plot_state": lambda P: ro.plot_state(GRID, P.walk_data) and None,
    "snake_plots": lambda P: ro.snake_plots(GRID, P.walk_data, 2, interval=1,
                                            folder_name=os.path.abspath("c30o")),
    "exposure_plot": lambda P: ro.plot_exposure_time(
        P.walk_data, [0.5 * (i + 1) for i in range(len(P.walk_data["xinds"]))],
        folder_name=os.path.abspath("c30o")),
    "thresholds_plot": lambda P: ro.plot_exposure_time_thresholds(
        P.walk_data, [0.5 * (i + 1) for i in range(len(P.walk_data["xinds"]))],
        folder_name=os.path.abspath("c30o")),
    "show_area": lambda P: ro.show_nourishment_area(
        pt.nourishment_area(P.walk_data, (9, 30)), GRID, P.walk_data) and None,
    "show_time": lambda P: ro.show_nourishment_time(
        np.where(region() == 1, 2.0, np.nan), GRID, P.walk_data) and None,
    "build": lambda P: pt.Particles(SHARED[0]).weight.copy(),
    "logging": lambda P: __import__("dorado").setup_logging(level="ERROR") and None,
}


def histrun(h, cfg, at, f, st, **ctx):
    P = make(cfg)
    np.random.seed(11)
    got = []
    kept = []
    for n, c in enumerate(HIST[h]):
        before = None
        if not at:
            settle()
            before = worldstate()
        op(P, c, n)
        if before:
            same_world(before, worldstate(), "seeding" if c in "EGP" else "routing",
                       random_changes=True, calls=HIST[h][:n + 1])
        got.append(data(P))
        if n in at:
            if f == "exposure_plot" or f == "thresholds_plot":
                if max(t[-1] for t in P.walk_data["travel_times"]) <= 0 or min(
                        t[-1] for t in P.walk_data["travel_times"]) < 1.0:
                    continue
            settle()
            before = worldstate()
            r = ANALYSES[f](P)
            after = worldstate()
            same_world(before, after, f, logging_changes=f == "logging", **ctx)
            plt.close("all")
            kept.append((n, r, sim.snapshot(r)))
            check(data(P) == got[-1], "an analysis changed the particles", **ctx)
            st.transition()
    for n, r, s in kept:
        check(sim.same(r, s), "the result of an analysis changed when the simulation went "
              "on", position=n, then=s, now=r, **ctx)
    return got


def run_between(case, st):
    f, h = case["f"], case["h"]
    make(0)
    # warm up, so that first-time imports and caches do not count
    for _ in range(2):
        warm(lambda: histrun(h, 0, range(6), f, type(st)()))
    for cfg in (0, 2):
        plain = histrun(h, cfg, (), f, st)
        for at in [(i,) for i in range(6)] + [tuple(range(6))]:
            ctx = dict(analysis=f, calls=HIST[h], after_call=at, configuration=cfg)
            got = histrun(h, cfg, at, f, st, **ctx)
            if got != plain:
                n = [a != b for a, b in zip(got, plain)].index(True)
                raise Violation("a simulation goes on differently when %s is used in "
                                "between" % f, first_difference_at_call=n, got=got[n],
                                expected=plain[n], **ctx)
            st.trace()
            st.state((f, h, cfg, at))
    shutil.rmtree(os.path.abspath("c30o"), ignore_errors=True)


# --- process-wide state ---------------------------------------------------------------
def warm(f):
    with figs.capture():
        try:
            f()
        except Violation:
            pass
    plt.close("all")


RC0 = dict(matplotlib.rcParams)
LEVEL0 = logging.getLogger("dorado").level


def settle():
    """a process that is not set up the way a careless library might do it"""
    np.seterr(divide="call", over="call", under="ignore", invalid="warn")
    np.set_printoptions(precision=7)
    for k in RC0:
        if repr(matplotlib.rcParams[k]) != repr(RC0[k]):
            dict.__setitem__(matplotlib.rcParams, k, RC0[k])
    warnings.filters[:] = [f for f in FILTERS if f[1] is not None]
    logging.getLogger("dorado").setLevel(LEVEL0)
    plt.ioff()


warnings.filterwarnings("always", message="nothing has this text")
FILTERS = list(warnings.filters)
del warnings.filters[0]


def umask():
    m = os.umask(0o022)
    os.umask(m)
    return m


def worldstate():
    lg = logging.getLogger("dorado")
    root = logging.getLogger()
    r = np.random.get_state()
    return {
        "working directory": os.getcwd(),
        "environment": dict(os.environ),
        "numpy error handling": np.geterr(),
        "numpy print options": repr(np.get_printoptions()),
        "matplotlib settings": {k: repr(v) for k, v in matplotlib.rcParams.items()},
        "warning filters": list(warnings.filters),
        "dorado logger": (lg.level, list(lg.handlers), lg.propagate, lg.disabled),
        "root logger": (root.level, list(root.handlers), logging.root.manager.disable),
        "interactive plotting": plt.isinteractive(),
        "random state (random)": hash(random.getstate()),
        "random state (numpy)": (r[0], r[1].tobytes(), r[2:]),
        "module search path": list(sys.path),
        "child processes": len(multiprocessing.active_children()),
        "recursion limit": sys.getrecursionlimit(),
        "garbage collection": gc.isenabled(),
        "start method of processes": multiprocessing.get_start_method(),
        "signal handlers": [signal.getsignal(n) for n in (signal.SIGINT, signal.SIGTERM,
                                                          signal.SIGCHLD, signal.SIGALRM)],
        "file mode mask": umask(),
        "locale": locale.setlocale(locale.LC_ALL),
        "trace": sys.gettrace(),
    }


def same_world(a, b, f, logging_changes=False, random_changes=False, **ctx):
    for k in a:
        if k == "dorado logger" and logging_changes:
            continue
        if k == "random state (numpy)" and random_changes:
            continue
        if a[k] != b[k]:
            d = ([(x, a[k].get(x), b[k].get(x)) for x in set(a[k]) | set(b[k])
                  if a[k].get(x) != b[k].get(x)][:3] if isinstance(a[k], dict)
                 else (str(a[k])[:200], str(b[k])[:200]))
            raise Violation("%s changes the process-wide %s" % (f, k), difference=d, **ctx)


# --- pairs of functions ---------------------------------------------------------------
def more():
    W2 = {"xinds": [[2, 3, 3, 4], [5, 5], [1]], "yinds": [[5, 5, 4, 3], [6, 5], [0]],
          "travel_times": [[0, 0.5, 4.0, 7.0], [1.0, 3.0], [2.0]]}
    r2 = np.zeros((7, 8), dtype=int)
    r2[1:4, 3:7] = 1

    # as W1, the map and the points, but for details: same sizes, ends and totals
    W1 = next(iter(c12.walks()))
    W3 = {"xinds": [[1, 3, 2, 4], [2, 2], [3]], "yinds": [[1, 2, 1, 3], [2, 3], [0]],
          "travel_times": [[0, 1.0, 2.5, 9.0], [0, 3.0], [0]]}
    r3 = np.zeros((7, 8), dtype=int)
    r3[1:4, 1:4] = 1

    def two(fn, *argsets):
        def f():
            for args, kw in argsets:
                args = [sim.snapshot(a) for a in args]
                yield [], lambda args=args, kw=kw: fn(*args, **kw)
        return f

    def u2g(*a, **k):
        f, g = pt.unstruct2grid(*a, **k)
        return g, f([2.0, 7.0, 1.0, 8.0, 2.0])
    P1 = [(0., 0.), (1.3, 0.2), (2., 1.7), (0.4, 2.2), (3., 3.)]
    P3 = [(0., 0.), (1.0, 2.2), (2., 0.7), (0.4, 1.2), (3., 3.)]
    P2 = [(0., 3.), (1.0, 2.2), (3., 0.7), (0.4, 1.2), (3., 3.)]
    Q = [1.0, 2.0, 3.0, 4.0, 5.0]
    elev = np.arange(16.).reshape(4, 4)
    E1 = [[1.0, 2.0, 3.5, 4.0, 5.0, 9.0], [1.0, 2.0], float("nan"), [3.0]]
    E2 = [[3.0, 2.5, 8.5, 4.0, 1.0, 6.0], [1.0, 2.0], [5., 6., 7., 8., 12.], [3.0]]
    E3 = [[1.0, 2.5, 3.0, 4.0, 5.0, 9.0], [1.0, 2.0], float("nan"), [3.0]]
    return {
        "+unstruct2grid": two(u2g, ((P1, Q, 0.5, 3), {}), ((P2, Q, 0.5, 3), {}),
                              ((P3, Q, 0.5, 3), {}), ((P3, Q, 0.5, 1), {}),
                              ((P2, Q, 0.5, 1), {}), ((P1, Q[::-1], 0.5, 3), {})),
        "+exposure_time": two(pt.exposure_time, ((W1, c12.roi()), {}), ((W1, r2), {}),
                              ((W2, r2), {}), ((W3, c12.roi()), {}), ((W1, r3), {})),
        "+nourishment_area": two(pt.nourishment_area, ((W1, (7, 8)), {}),
                                 ((W2, (7, 8)), {}), ((W1, (7, 8), 0), {}),
                                 ((W1, (9, 9)), {}), ((W3, (7, 8)), {})),
        "+nourishment_time": two(pt.nourishment_time, ((W1, (7, 8)), {}),
                                 ((W2, (7, 8)), {}), ((W1, (9, 9)), {}),
                                 ((W3, (7, 8)), {})),
        "+systemwide": two(sp.systemwide, ((W1, c12.GRID, c12.roi(), 3), {}),
                           ((W3, c12.GRID, c12.roi(), 3), {}), ((W1, c12.GRID, r3, 3), {}),
                           ((W2, c12.GRID, r2, 3), {}), ((W1, c12.GRID, r2, 2), {})),
        "+localized": two(sp.localized, ((W1, c12.GRID, c12.roi(), 3), {}),
                          ((W3, c12.GRID, c12.roi(), 3), {}), ((W1, c12.GRID, r3, 3), {}),
                          ((W2, c12.GRID, r2, 3), {}), ((W1, c12.GRID, r2, 2), {})),
        "+coord2ind": two(pt.coord2ind, (([(10.5, 21.)], (10., 20.), (7, 8), 2.), {}),
                          (([(10.5, 21.)], (8., 18.), (7, 8), 2.), {}),
                          (([(10.5, 21.)], (10., 20.), (9, 8), 1.), {})),
        "+compute_thresholds": two(sp.compute_thresholds, ((E1, elev, 60., 2), {}),
                                   ((E2, elev, 60., 2), {}), ((E1, elev, 1., 2), {}),
                                   ((E3, elev, 60., 2), {})),
        "+get_state": two(ro.get_state, ((W1, 1), {}), ((W2, 1), {}), ((W2, 0), {}),
                           ((W3, 1), {})),
        "+get_time_state": two(ro.get_time_state, ((W1, 1.), {}), ((W2, 1.), {}),
                               ((W2, 5.), {}), ((W3, 1.), {})),
        "+flux": two(pt.flux_proportional_seeding, ((np.array([1., 2., 3.]), 10, 3), {}),
                     ((np.array([2., 1., 0.5]), 10, 3), {}), ((np.array([1., 2., 3.]), 5, 2), {})),
    }


def unsteady():
    """automated runs in two different flow fields of one size"""
    for k in range(2):
        d = os.path.abspath("c30u%d" % k)
        if not os.path.isdir(d):
            os.makedirs(d)
            for name in ("depth", "stage", "qx", "qy"):
                for t in range(2):
                    f = dict(depth=dom.field(7, 40, 3 + k + t, [1.0, 0.5, 2.0]),
                             stage=dom.field(7, 40, 5 + k, [1.0, 1.01]),
                             qx=np.full((7, 40), 0.3 + 0.2 * k + 0.1 * t),
                             qy=np.full((7, 40), 0.05 * k))
                    np.save(os.path.join(d, "%s%d.npy" % (name, t)), f[name])
        yield [], lambda d=d: ro.unsteady_plots(2.0, 2, [2, 4], [3, 5], 2, 5.0, d, "npy",
                                                folder_name=os.path.abspath("out"))


def animate():
    """frames of two movies, with the stand-in writer of C27"""
    from checks import c27
    for k in range(2):
        d = os.path.abspath("c30m%d" % k)
        if not os.path.isdir(d):
            os.makedirs(os.path.join(d, "figs"))
            for i in range(3):
                a = np.zeros((5, 7, 3), "uint8")
                a[k, i] = (250, 10 * i, 3)
                plt.imsave(os.path.join(d, "figs", "output%d.png" % i), a)

        def go(d=d, k=k):
            reg = c27.animation.writers
            old = dict(reg._registered)
            reg._registered["ffmpeg"] = c27.Writer
            del c27.FRAMES[:]
            try:
                ro.animate_plots(0, 2 + k, d)
            finally:
                reg._registered.clear()
                reg._registered.update(old)
            return c27.FRAMES[1:]
        yield [], go


def allfuncs():
    d = {n: c12.FUNCS[n] for n in c12.FUNCS if n not in c12.LOOSE}
    d.update(more())
    d.update({"+unsteady_plots": unsteady, "+animate_plots": animate})
    return d


USES_RANDOM = ("generate_particles", "steady_plots", "time_plots", "parallel_routing",
               "draw_travel_path", "draw_travel_path_some", "+unsteady_plots")
CURRENT_FIGURE = ("plot_state", "show_nourishment_area", "show_nourishment_time")


def picture(fig):
    out = []
    for ax in fig.axes:
        out.append(([len(ax.images), len(ax.collections), len(ax.lines), len(ax.patches)],
                    [np.ma.filled(np.ma.array(i.get_array(), dtype=float), np.nan)
                     for i in ax.images if np.ndim(i.get_array()) == 2],
                    [np.ma.filled(np.ma.array(c.get_offsets(), dtype=float), np.nan)
                     for c in ax.collections],
                    [np.array(l.get_xydata(), dtype=float) for l in ax.lines],
                    ax.get_title()))
    return out


def files(d):
    out = []
    for p, _, fs in sorted(os.walk(d)):
        for f in sorted(fs):
            if not f.endswith(".png"):
                with open(os.path.join(p, f), "rb") as o:
                    out.append((os.path.relpath(os.path.join(p, f), d), o.read()))
    return out


def value(x):
    """a comparable stand-in for what a function returned"""
    if isinstance(x, np.ndarray):
        return x.copy()
    if isinstance(x, (list, tuple)):
        return [value(y) for y in x]
    if isinstance(x, dict):
        return {k: value(x[k]) for k in x}
    if x is None or isinstance(x, (int, float, str, bool, np.generic)):
        return x
    return type(x).__name__


def observe(call, f, figure=True):
    """(value, pictures saved, files written) of one call with a fixed random state"""
    shutil.rmtree(os.path.abspath("out"), ignore_errors=True)
    np.random.seed(5)
    with figs.capture(picture) as c:
        r = value(call())
        pics = [(os.path.basename(p), s) for p, s in c.saved]
    return [r, pics if figure else None, files(os.path.abspath("out"))]


def nth(f, n):
    np.random.seed(3)
    return [call for _, call in itertools.islice(f(), n)]


def ends(f, n):
    np.random.seed(4)
    calls = [call for _, call in itertools.islice(f(), 40)]
    return calls[:1] + calls[-(n - 1):] if len(calls) > n else calls


BASE = {}
# functions that are told a folder or a file by the check
SLOW = ("snake", "plot_", "st", "time_plots")


def alone(g, j, ng):
    """what a function gives as the very first use of dorado in a process of its own"""
    d = os.path.abspath("c30alone")
    os.makedirs(d)
    os.chdir(d)
    try:
        calls = nth(allfuncs()[g], j + 1)
        if j >= len(calls):
            return None             # fewer inputs than that
        return ("ok", observe(calls[j], g))
    except Exception as e:
        return ("error", "%s: %s" % (type(e).__name__, e))


def fresh(ng):
    """fills BASE: one new process for every function and input; called before this
    process has used dorado for anything"""
    todo = [(g, j) for g in allfuncs() for j in range(6 if g[0] == "+" else ng)]
    running = {}
    home = os.getcwd()
    sys.stdout.flush()
    while todo or running:
        while todo and len(running) < (os.cpu_count() or 1):
            g, j = todo.pop(0)
            f = os.path.join(home, "c30base%d" % len(todo))
            w = f + ".d"
            pid = os.fork()
            if pid == 0:
                try:
                    os.makedirs(w)
                    os.chdir(w)
                    warnings.showwarning = lambda *a, **k: None
                    settle()
                    with open(f, "wb") as o:
                        pickle.dump(alone(g, j, ng), o)
                finally:
                    os._exit(0)
            running[pid] = (g, j, f)
        pid, _ = os.wait()
        if pid not in running:
            continue
        g, j, f = running.pop(pid)
        try:
            with open(f, "rb") as o:
                BASE[g, j] = pickle.load(o)
            os.remove(f)
        except (IOError, EOFError):
            BASE[g, j] = ("error", "the process ended")
        shutil.rmtree(f + ".d", ignore_errors=True)
    BASE["filled"] = ng


def baseline(g, ng):
    if BASE.get("filled") != ng:
        fresh(ng)
    ng = 6 if g[0] == "+" else ng
    out = []
    for j in range(ng):
        r = BASE[g, j]
        if r is None:
            break
        if r[0] == "error":
            raise Violation("%s fails when used alone" % g, input=j, error=r[1])
        out.append(r[1])
    return out


def run_pairs(case, st):
    f = case["f"]
    fs = allfuncs()
    # (use everything once, so that first-time imports do not count)
    if not BASE.get("warm"):
        for g in fs:
            for call in nth(fs[g], 1):
                warm(call)
        BASE["warm"] = True
    w0 = None
    for gi, g in enumerate(fs):
        want = baseline(g, case["ng"])
        nf = 6 if f == g and f[0] == "+" else case["nf"]
        fcalls = ends(fs[f], nf)
        for i, cf in enumerate(fcalls):
            if i and g != f and not g.lstrip("+").startswith(f.lstrip("+")[:8]):
                # other inputs of the first function matter to its own kind only
                continue
            for j in range(len(want)):
                # fresh inputs each time (automated runs move the particles they are given)
                cf = ends(fs[f], nf)[i]
                cg = nth(fs[g], j + 1)[j]
                if j and w0 is not None and g != f and g.startswith(("snake", "plot_", "st",
                                                                     "time_plots")):
                    break
                ctx = dict(first=f, then=g, input_of_first=i, input_of_second=j)
                plt.close("all")
                with figs.capture():
                    # (the figures stay open: later calls must not draw into them)
                    np.random.seed(9)
                    mine = None
                    if j == 0 and gi < 3:
                        mine = plt.figure()
                        mine.add_subplot(121).plot([1, 2, 3], [3, 1, 2])
                        mine.add_subplot(122).imshow(np.eye(3))
                        was = picture(mine)
                    settle()
                    w0 = worldstate()
                    cf()
                    w1 = worldstate()
                    check(mine is None or plt.fignum_exists(mine.number), "%s closes a figure of the "
                          "caller" % f, **ctx)
                    if mine is not None and f not in CURRENT_FIGURE:
                        check(sim.same(picture(mine), was), "%s draws into a figure of "
                              "the caller" % f, **ctx)
                    same_world(w0, w1, f, random_changes=f in USES_RANDOM, **ctx)
                    hold = [plt.figure(n) for n in plt.get_fignums()]
                    figs_before = len(hold)
                    shutil.rmtree(os.path.abspath("out"), ignore_errors=True)
                    got = observe_open(cg, g)
                if f in CURRENT_FIGURE or g in CURRENT_FIGURE:
                    got[1] = want[j][1]
                st.add("open_figures", figs_before)
                if not sim.same(got, want[j]):
                    part = [n for n, a, b in zip(("result", "figures", "files"), got,
                                                 want[j]) if not sim.same(a, b)]
                    raise Violation("%s: its %s depend on %s having been used before"
                                    % (g, "/".join(part), f), got=got, expected=want[j],
                                    **ctx)
                st.transition(2)
                st.trace()
                st.state((f, i, g, j))
                plt.close("all")
    shutil.rmtree(os.path.abspath("out"), ignore_errors=True)


def observe_open(call, g):
    """like observe, inside an outer capture whose figures stay open"""
    import matplotlib.figure as mf
    np.random.seed(5)
    saved = []
    old = mf.Figure.savefig

    def savefig(fig, fname, *a, **k):
        saved.append((os.path.basename(str(fname)), picture(fig)))
        with open(fname, "wb"):
            pass
    mf.Figure.savefig = savefig
    try:
        r = value(call())
    finally:
        mf.Figure.savefig = old
    return [r, saved, files(os.path.abspath("out"))]


def run_case(case, st):
    show, warnings.showwarning = warnings.showwarning, lambda *a, **k: None
    err = np.seterrcall(lambda *a: None)
    old = list(warnings.filters)
    try:
        settle()
        globals()["run_" + case["k"]](case, st)
    finally:
        np.seterr(all="ignore")
        np.seterrcall(err)
        warnings.filters[:] = old
        warnings.showwarning = show
