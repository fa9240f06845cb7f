"""C29: every fault point of every call of every short history: a failure at each random
draw, each warning, each figure or data file, and every rejected call at every position."""
import copy
import itertools
import os
import shutil
import warnings

import numpy as np

import dorado.lagrangian_walker as lw
import dorado.parallel_routing as pr
import dorado.particle_track as pt
import dorado.routines as ro
import dorado.spatial as sp
from matplotlib import pyplot as plt
from checks import c12
from mc import dom, figs, rng, sim
from mc.core import Violation, check

ID = "C29"
LEVEL = "model_checking"
ASSUMPTIONS = ["failures arrive where a call out of dorado can fail: while a random number "
               "is drawn, when a warning is turned into an error, when a file is written; "
               "not between two list operations (an asynchronous interrupt there is not "
               "claimed)", "resumption is exact for routing to a time where every particle "
               "moves on; after an interrupted single iteration only consistency is claimed"]
BOUNDS = {
    "quick": "all histories of 1-3 calls over {seed exactly, seed randomly, iterate, route "
             "to a time, load earlier data} x 3 configurations x 2 draw streams, with a "
             "failure at every random draw of the last call, every warning as an error, and "
             "24 kinds of rejected calls after every history; steady_plots, time_plots with a "
             "failure at every figure and at the data file",
    "thorough": "histories of up to 4 calls, 4 draw streams",
}
OPS = "EGSTP"
CONFIGS = [dict(), dict(particle_variables=["depth", "u"]),
           dict(particle_variables=["stage"], roi=True)]


class Fault(Exception):
    pass


def cases(tier):
    n = 3 if tier == "quick" else 4
    for cfg in range(len(CONFIGS)):
        for r in range(1, n + 1):
            for h in itertools.product(OPS, repeat=r):
                # only the first seeding makes the routing possible
                if h[0] in "ST":
                    continue
                yield {"k": "fault", "cfg": cfg, "h": "".join(h),
                       "streams": 2 if tier == "quick" else 4}
        for fn in ("steady_plots", "time_plots"):
            for it in (1, 3):
                yield {"k": "files", "cfg": cfg, "fn": fn, "iters": it}
    for h in ("", "E", "ES", "ET", "GST", "P", "PES", "ESPT"):
        for cfg in range(len(CONFIGS)):
            yield {"k": "reject", "cfg": cfg, "h": h}


def make(cfg):
    L, W = 12, 60
    c = dict(CONFIGS[cfg])
    roi = c.pop("roi", False)
    if roi:
        c["roi_grid"] = (dom.field(L, W, 5, [0, 1, 1]) == 1).astype(int)
    depth = dom.field(L, W, 7, [1.0, 2.0, 1.0, 0.5])
    stage = dom.field(L, W, 8, [2.0, 1.99, 1.98]) - 0.02 * np.arange(W)
    qe = np.full((L, W), 0.6)
    return dom.particles(depth=depth, stage=stage, qe=qe, qn=0.1 * qe, dx=1.0,
                         diff_coeff=0.5, gamma=0.3, **c)


PREV = {"xinds": [[5, 5, 6], [7]], "yinds": [[3, 4, 4], [5]],
        "travel_times": [[0.0, 1.5, 2.5], [1.0]]}


def op(P, c, n):
    if c == "E":
        P.generate_particles(2, [5, 6], [2, 3], method="exact")
    elif c == "G":
        P.generate_particles(2, [4, 5, 6], [3, 4, 2], seed_time=1.25 * n)
    elif c == "S":
        P.run_iteration()
    elif c == "T":
        P.run_iteration(target_time=3.0 + 2.0 * n)
    elif c == "P":
        P.generate_particles(1, [6], [4], method="exact",
                             previous_walk_data=copy.deepcopy(PREV))


class faulty(object):
    """with faulty(draws, k): the k-th random draw fails (with a Python exception at the
    place where the random number is asked for).  Counts draws; records the lengths."""

    def __init__(self, draws, k=None, watch=None):
        self.draws, self.k, self.watch = draws, k, watch
        self.n = 0
        self.log = []

    def source(self):
        self.n += 1
        return self.draws()

    def before(self):
        if self.watch is not None:
            self.log.append((self.n, self.watch()))
        if self.k is not None and self.n >= self.k:
            raise Fault("injected at draw %d" % self.n)

    def __enter__(self):
        self.saved = []
        names = [n for n in dir(np.random) if not n.startswith("_")]
        fns = {id(getattr(np.random, n)) for n in names
               if callable(getattr(np.random, n)) and n not in (
                   "seed", "get_state", "set_state", "get_bit_generator",
                   "set_bit_generator") and not isinstance(getattr(np.random, n), type)}
        for m in (np.random, lw, pt, ro, sp, pr):
            for n in list(vars(m)):
                v = vars(m)[n]
                if id(v) in fns:
                    self.saved.append((m, n, v))
        for m, n, v in self.saved:
            def wrap(*a, _v=v, **k):
                self.before()
                return _v(*a, **k)
            setattr(m, n, wrap)
        self.c = rng.control(self.source)
        self.c.__enter__()
        return self

    def __exit__(self, *a):
        for m, n, v in self.saved:
            setattr(m, n, v)
        return self.c.__exit__(*a)


def settings(P):
    """what an object holds besides its particles"""
    return {n: sim.snapshot(getattr(P, n)) for n in c12.ATTRS + ("verbose", "Np_tracer")
            if hasattr(P, n)}


def unchanged(P, was, msg, **ctx):
    now = settings(P)
    bad = [n for n in was if not sim.same(was[n], now.get(n))]
    if "Np_tracer" in bad and P.walk_data is not None and \
            P.Np_tracer == len(P.walk_data["xinds"]):
        bad.remove("Np_tracer")        # a routing may count the particles
    check(not bad, msg + ": settings of the object differ", attributes=bad, **ctx)


def data(P):
    return None if P.walk_data is None else sim.plain(P.walk_data)


def lengths(P):
    return None if P.walk_data is None else [len(x) for x in P.walk_data["xinds"]]


def consistent(wd, msg, **ctx):
    if wd is None:
        return
    n = [len(x) for x in wd["xinds"]]
    for k in wd:
        check([len(x) for x in wd[k]] == n, msg + ": the recorded lists are not aligned",
              variable=k, lengths=[len(x) for x in wd[k]], expected=n, **ctx)


def is_prefix(a, b):
    return all(len(x) <= len(y) and y[:len(x)] == x for x, y in zip(a, b))


def between(mid, before, after, msg, **ctx):
    """particle by particle: an extension of before, a prefix of after"""
    for k in before:
        check(k in mid and len(mid[k]) == len(before[k]), msg + ": a record is missing",
              variable=k, **ctx)
        check(is_prefix(before[k], mid[k]), msg + ": earlier entries were changed",
              variable=k, before=before[k], got=mid[k], **ctx)
        check(is_prefix(mid[k], after[k]), msg + ": entries that the completed call does "
              "not have", variable=k, got=mid[k], completed=after[k], **ctx)


def stream(s):
    return rng.lcg(31 * s + 7)


def prefix_state(case, s):
    """the object after all calls but the last, and the draws used so far"""
    P = make(case["cfg"])
    with rng.control(stream(s)):
        for n, c in enumerate(case["h"][:-1]):
            op(P, c, n)
    return P


def lasts(s, skip=0):
    f = rng.lcg(1009 * s + 3)
    for _ in range(skip):
        f()
    return f


def run_fault(case, st):
    h, cfg = case["h"], case["cfg"]
    last, n = h[-1], len(h) - 1
    for s in range(case["streams"]):
        P = prefix_state(case, s)
        before = data(P)
        with faulty(lasts(s), watch=lambda: lengths(P)) as f:
            op(P, last, n)
        after, draws, log = data(P), f.n, f.log
        # one more iteration, the same for all
        with rng.control(lasts(s + 50)):
            P.run_iteration()
        final = data(P)
        st.transition(len(h) + 1)
        st.trace()
        st.state((cfg, h, s, repr(after)))
        points = sorted({i for i, _ in log})
        st.add("fault_points", len(points))
        for k in points:
            ctx = dict(history=h, tracked=CONFIGS[cfg], draws_stream=s, fault_at_draw=k)
            Q = prefix_state(case, s)
            keep = data(Q)
            if keep != before:
                raise Violation("the same calls with the same draws differ", **ctx)
            failed = False
            was = settings(Q)
            try:
                with faulty(lasts(s), k=k):
                    op(Q, last, n)
            except Fault:
                failed = True
            unchanged(Q, was, "after a failed call", **ctx)
            st.transition(len(h) + 1)
            st.trace()
            if not failed:
                # swallowed: whatever was made of it must still be well-formed
                consistent(Q.walk_data, "a failing draw was ignored", **ctx)
                st.add("swallowed")
                continue
            mid = data(Q)
            st.state((cfg, h, s, k, repr(mid)))
            consistent(Q.walk_data, "after a failed call", **ctx)
            if last in "EGP":
                check(mid == before, "a failed seeding changed the particles",
                      before=before, after=mid, **ctx)
                if Q.walk_data is None:
                    try:
                        Q.run_iteration()
                    except ValueError:
                        pass
                    else:
                        raise Violation("routing without particles was accepted after a "
                                        "failed seeding", **ctx)
            else:
                between(mid, before, after, "after interrupted routing", **ctx)
            # calling again carries on
            # (with the draws from the step that failed onwards; a particle that has just
            # found itself at an edge needs no draw again)
            starts = [0]
            if last == "T":
                now = lengths(Q)
                starts = sorted({i for i, l in log if l == now}) or [0]
            tries = []
            for start in starts:
                R = copy.deepcopy(Q)
                with rng.control(lasts(s, start)):
                    op(R, last, n)
                consistent(R.walk_data, "after repeating a failed call", **ctx)
                tries.append(R)
                if last == "S" or data(R) == after:
                    break
            else:
                raise Violation("repeating a failed call does not give what the "
                                "undisturbed call gives", got=data(tries[0]), expected=after,
                                interrupted=mid, **ctx)
            Q = tries[-1]
            with rng.control(lasts(s + 50)):
                Q.run_iteration()
            consistent(Q.walk_data, "routing on after a failed call", **ctx)
            if last != "S":
                check(data(Q) == final, "routing on after a failed and repeated call "
                      "differs", got=data(Q), expected=final, **ctx)
        # a warning that is turned into an error
        if last in "GT":
            Q = make(cfg)
            Q.verbose = True
            with rng.control(stream(s)):
                for m, c in enumerate(h[:-1]):
                    with warnings.catch_warnings():
                        warnings.simplefilter("ignore")
                        op(Q, c, m)
            before = data(Q)
            ctx = dict(history=h, tracked=CONFIGS[cfg], draws_stream=s)
            R = make(cfg)
            R.verbose = True
            with rng.control(stream(s)):
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    for m, c in enumerate(h[:-1]):
                        op(R, c, m)
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                with rng.control(lasts(s)):
                    lastw(R, last, n)
            whole = data(R)
            raised = False
            was = settings(Q)
            with warnings.catch_warnings():
                warnings.simplefilter("error")
                try:
                    with rng.control(lasts(s)):
                        lastw(Q, last, n)
                except Warning:
                    raised = True
            consistent(Q.walk_data, "after a warning turned into an error", **ctx)
            unchanged(Q, was, "after a warning turned into an error", **ctx)
            st.transition(len(h))
            st.trace()
            if raised:
                st.add("warnings_raised")
                if last == "G":
                    check(data(Q) == before, "seeding that ended with a warning as an "
                          "error changed the particles", before=before, after=data(Q),
                          **ctx)
                else:
                    between(data(Q), before, whole, "routing that ended with a warning "
                            "as an error", **ctx)
            # and it goes on from there
            with rng.control(lasts(s + 50)):
                if Q.walk_data is not None:
                    m = data(Q)
                    Q.run_iteration()
                    consistent(Q.walk_data, "routing on after a warning", **ctx)
                    between(m, m, data(Q), "routing on after a warning", **ctx)


def lastw(P, c, n):
    if c == "G":
        P.generate_particles(2, [4, 5, 6], [3, 4, 2], seed_time=1.25 * (n + 1))
    else:
        P.run_iteration(target_time=8.0 + 4.0 * n, max_iter=2)


P_given = []


def rejected(P):
    """calls that raise, on an object with whatever particles it has"""
    g = P.generate_particles
    bad = copy.deepcopy(PREV)
    nox = {k: v for k, v in bad.items() if k != "xinds"}
    noy = {k: v for k, v in bad.items() if k != "yinds"}
    not_ = {k: v for k, v in bad.items() if k != "travel_times"}
    P_given[:] = [nox, noy, not_]
    return [
        ("Np not a number", lambda: g("many", [3], [3])),
        ("Np None", lambda: g(None, [3], [3])),
        ("x not a list", lambda: g(2, "ab", [3])),
        ("x None", lambda: g(2, None, [3])),
        ("x a number", lambda: g(2, 3, [3])),
        ("y not a list", lambda: g(2, [3], object())),
        ("y holds text", lambda: g(2, [3], ["a"])),
        ("time text", lambda: g(2, [3], [3], seed_time="0")),
        ("time None", lambda: g(2, [3], [3], seed_time=None)),
        ("time list", lambda: g(2, [3], [3], seed_time=[0])),
        ("method unknown", lambda: g(2, [3], [3], method="none")),
        ("method not text", lambda: g(2, [3], [3], method=1)),
        ("exact: too few y", lambda: g(5, [3, 4, 5], [3], method="exact")),
        ("exact: no places", lambda: g(2, [], [], method="exact")),
        ("random: no places", lambda: g(2, [], [3], method="random")),
        ("outside, tracked", lambda: g(2, [300], [3], method="exact")),
        ("earlier data without x", lambda: g(1, [3], [3], previous_walk_data=nox)),
        ("earlier data without y", lambda: g(1, [3], [3], previous_walk_data=noy)),
        ("earlier data without times", lambda: g(1, [3], [3], previous_walk_data=not_)),
        ("earlier data not a dictionary", lambda: g(1, [3], [3], previous_walk_data=[1])),
        ("max_iter text", lambda: P.run_iteration(target_time=1e3, max_iter="x")),
        ("target text", lambda: P.run_iteration(target_time="x")),
        ("target list", lambda: P.run_iteration(target_time=[1.0])),
        ("unknown argument", lambda: P.run_iteration(until=3)),
    ]


def run_reject(case, st):
    cfg, h = case["cfg"], case["h"]

    def upto():
        P = make(cfg)
        with rng.control(stream(1)):
            for n, c in enumerate(h):
                op(P, c, n)
        return P

    def onwards(P):
        with rng.control(stream(2)):
            for n, c in enumerate("ESTG"):
                op(P, c, n + len(h))
        return data(P)
    P = upto()
    start = data(P)
    want = onwards(P)
    names = [n for n, _ in rejected(P)]
    for i, j in [(i, None) for i in range(len(names))] + [
            (i, j) for i in range(len(names)) for j in range(0, len(names), 5)]:
        Q = upto()
        ctx = dict(history=h, tracked=CONFIGS[cfg],
                   call=[names[i], None if j is None else names[j]])
        first = True
        was = settings(Q)
        for k in (i, j):
            if k is None:
                continue
            base = data(Q)
            try:
                with rng.control(stream(3)):
                    rejected(Q)[k][1]()
            except Exception:
                st.add("rejections")
                now = data(Q)
                consistent(Q.walk_data, "after a rejected call", **ctx)
                unchanged(Q, was, "after a rejected call", **ctx)
                check(all(d[v] == PREV[v] for d in P_given for v in d), "a rejected call "
                      "modified the earlier data it was given", **ctx)
                if "max_iter" in names[k]:
                    # fails after the first step of the first particle: as an interruption
                    if base is not None:
                        between(now, base, now, "after a rejected call", **ctx)
                    if now != base:
                        first = None
                        break
                else:
                    check(now == base, "a rejected call changed the particles",
                          before=base, after=now, **ctx)
            else:
                # accepted: not this property's business
                first = None
                break
        st.transition(len(h) + 5)
        st.trace()
        st.state((cfg, h, i, j))
        if first is None:
            continue
        check(data(Q) == start, "a rejected call changed the particles", before=start,
              after=data(Q), **ctx)
        got = onwards(Q)
        check(got == want, "after a rejected call the simulation goes on differently",
              got=got, expected=want, **ctx)


def run_files(case, st):
    """a failure at each file written by the automated runs"""
    cfg, fn, iters = case["cfg"], case["fn"], case["iters"]

    def start():
        P = make(cfg)
        with rng.control(stream(4)):
            op(P, "E", 0)
            op(P, "S", 1)
        return P
    import json as js
    import matplotlib.figure as mf
    steps = [data(start())]
    P = start()
    with rng.control(stream(5)):
        for _ in range(2 * iters + 1):
            P.run_iteration()
            steps.append(data(P))
    real, realdump = mf.Figure.savefig, js.dump
    for k in range(-1, iters + 1):
        d = os.path.abspath("c29out")
        shutil.rmtree(d, ignore_errors=True)
        P = start()
        before = data(P)
        count = [0]

        def savefig(self, fname, *a, **kw):
            if count[0] == k:
                raise OSError(28, "no space left (injected)")
            count[0] += 1

        def dump(*a, **kw):
            raise OSError(28, "no space left (injected)")
        ctx = dict(routine=fn, iterations=iters, fails_at_file=k, tracked=CONFIGS[cfg])
        mf.Figure.savefig = savefig
        if k == iters:
            js.dump = dump
        if k == -1:
            # the folder cannot be made
            open(d, "w").close()
        was = settings(P)
        failed = False
        draws = stream(5)
        try:
            with rng.control(draws):
                try:
                    getattr(ro, fn)(P, iters, folder_name=d)
                except OSError:
                    failed = True
        finally:
            mf.Figure.savefig, js.dump = real, realdump
            plt.close("all")
        st.transition(iters)
        st.trace()
        unchanged(P, was, "after a failing file", **ctx)
        if k == -1:
            os.remove(d)
        if not failed:
            st.add("swallowed")
            consistent(P.walk_data, "after a failing file", **ctx)
            continue
        st.add("file_faults")
        mid = data(P)
        st.state((cfg, fn, iters, k, repr(mid)))
        consistent(P.walk_data, "after a failing file", **ctx)
        between(mid, before, steps[iters], "after a failing file", **ctx)
        done = [m for m in range(iters + 1) if steps[m] == mid]
        check(done, "after a failing file the particles are not where whole iterations "
              "take them", got=mid, **ctx)
        # it carries on from there
        with rng.control(draws):
            P.run_iteration()
        check(data(P) == steps[done[-1] + 1], "routing on after a failing file differs",
              got=data(P), expected=steps[done[-1] + 1], **ctx)
        shutil.rmtree(d, ignore_errors=True)


def run_case(case, st):
    globals()["run_" + case["k"]](case, st)


def finish(total, tier):
    for k in ("fault_points", "rejections", "file_faults", "warnings_raised"):
        check(total.n.get(k, 0) > 0, "vacuous: no %s" % k)
