"""C31: every small history -> the notes and warnings name exactly what they are about."""
import itertools
import logging
import os
import re
import shutil
import warnings

import numpy as np
from matplotlib import pyplot as plt

import dorado.particle_track as pt
import dorado.routines as ro
from mc import dom, figs, rng
from mc.core import check

ID = "C31"
LEVEL = "model_checking"
ASSUMPTIONS = ["a note is recognised by its characteristic words and the numbers in it, not "
               "by its exact text",
               "whether a particle of one single record inside the region is listed by "
               "exposure_time is left open; iteration numbers below 0 are left out"]
BOUNDS = {
    "quick": "all combinations of 1..3 particles with 1..4 records inside/outside of the "
             "region (3 ways of representing the region); all lengths 1..4 of 1..4 particles "
             "x iterations 0..5; all non-decreasing times of 1..3 particles of 1..3 records x "
             "9 target times; all 2^7 subsets of 7 optional parameters x 2 verbose settings, "
             "10 diffusion coefficients; 12 seed times; walks of 12 to 1100 particles; "
             "automated runs of 1..5 steps on 1..3 outputs, existing and new folders",
    "thorough": "5 records, 4 particles",
}
ROI = np.zeros((4, 5), int)
ROI[1:3, 1:4] = 1
IN, OUT = [(1, 1), (2, 2), (1, 3)], [(0, 0), (3, 4), (1, 4)]


def cases(tier):
    m = 4 if tier == "quick" else 5
    for rep in range(3):
        for n in (1, 2, 3):
            for first in range(1, m + 1):
                yield {"k": "exposure", "n": n, "m": m if n < 3 else m - 1, "rep": rep,
                       "first": first}
    for n in range(1, 5):
        yield {"k": "iteration", "n": n, "m": m}
    for n in (1, 2, 3):
        yield {"k": "time", "n": n, "m": 3 if n < 3 else 2}
    for v in (None, True, False):
        yield {"k": "build", "verbose": v}
    for v in (None, True, False):
        yield {"k": "seed", "verbose": v}
    for s in range(6 if tier == "quick" else 24):
        yield {"k": "large", "s": s}
    for k in (1, 2, 3):
        yield {"k": "folder", "n": k}


class Heard(logging.Handler):
    """with Heard() as h: everything dorado reports"""

    def __init__(self):
        logging.Handler.__init__(self, 1)
        self.records = []

    def emit(self, r):
        self.records.append((r.levelno, r.getMessage()))

    def __enter__(self):
        lg = logging.getLogger("dorado")
        self.old = lg.level, list(lg.handlers), lg.propagate, lg.disabled
        for o in self.old[1]:
            lg.removeHandler(o)
        lg.addHandler(self)
        lg.setLevel(logging.DEBUG)
        lg.propagate = False
        self.w = warnings.catch_warnings(record=True)
        self.got = self.w.__enter__()
        warnings.simplefilter("always")
        return self

    def __exit__(self, *a):
        self.w.__exit__(*a)
        lg = logging.getLogger("dorado")
        lg.removeHandler(self)
        for o in self.old[1]:
            lg.addHandler(o)
        lg.setLevel(self.old[0])
        lg.propagate = self.old[2]

    def notes(self, *words):
        return [m for _, m in self.records if all(w in m.lower() for w in words)]

    def warned(self, *words):
        return [str(w.message) for w in self.got
                if not issubclass(w.category, DeprecationWarning)
                and all(x in str(w.message).lower() for x in words)]


def numbers(text):
    return [int(x) for x in re.findall(r"-?\d+", text)]


def roi(rep):
    return [ROI, ROI.astype(float), ROI == 1][rep]


def judge_exposure(wd, rep, inside, st, **ctx):
    """inside: per particle the list of in/out flags"""
    with Heard() as h:
        pt.exposure_time(wd, roi(rep))
    must = [i for i, f in enumerate(inside) if f[-1] and len(f) > 1]
    may = [i for i, f in enumerate(inside) if f[-1] and len(f) == 1]
    notes = h.notes("within roi")
    check(len(notes) <= 1, "several reports", notes=notes, **ctx)
    if not notes:
        check(not must, "particles still in the region are not reported", particles=must,
              **ctx)
        return
    m = re.search(r"\[([^\]]*)\]", notes[0])
    check(m is not None, "the report does not list the particles", note=notes[0], **ctx)
    ids = numbers(m.group(1))
    check(ids == sorted(set(ids)) and set(must) <= set(ids) <= set(must + may),
          "the report lists other particles", listed=ids[:50], still_inside=must[:50], **ctx)
    check(numbers(notes[0])[0] == len(ids), "number of particles in the report",
          note=notes[0][:200], **ctx)
    check(all(l <= logging.INFO for l, t in h.records), "level of the report",
          records=h.records[:3], **ctx)


def walk(inside, times=None):
    wd = {"xinds": [], "yinds": [], "travel_times": []}
    for i, f in enumerate(inside):
        c = [(IN if x else OUT)[(i + j) % 3] for j, x in enumerate(f)]
        wd["xinds"].append([a for a, b in c])
        wd["yinds"].append([b for a, b in c])
        wd["travel_times"].append([1.5 * j for j in range(len(f))] if times is None
                                  else list(times[i]))
    return wd


def run_exposure(case, st):
    flags = [f for k in range(1, case["m"] + 1) for f in itertools.product((0, 1), repeat=k)]
    mine = [f for f in flags if len(f) == case["first"]]
    short = [f for f in flags if len(f) <= (4 if case["n"] < 3 else 2)]
    for f in mine:
        for rest in itertools.product(short, repeat=case["n"] - 1):
            inside = [f] + list(rest)
            # ordinary times, and times that do not advance or start late
            for times in (None, [[0.0] * len(x) for x in inside],
                          [[2.0 * i] * len(x) for i, x in enumerate(inside)])[
                              :3 if case["n"] < 3 else 1]:
                judge_exposure(walk(inside, times), case["rep"], inside, st, flags=inside,
                               region=case["rep"], times=times)
                st.transition()
            st.state((inside, case["rep"]))
    st.trace()


def judge_iteration(wd, it, st, **ctx):
    with Heard() as h:
        ro.get_state(wd, it)
    n = sum(len(x) <= it for x in wd["xinds"])
    notes = h.notes("not reached")
    check(len(notes) == (n > 0), "report about particles with fewer iterations",
          notes=notes, fewer=n, iteration=it, **ctx)
    if notes:
        check(numbers(notes[0]) == [n, it], "numbers in the report", note=notes[0],
              fewer=n, iteration=it, **ctx)


def run_iteration(case, st):
    for lens in itertools.product(range(1, case["m"] + 1), repeat=case["n"]):
        wd = walk([(0,) * l for l in lens])
        for it in range(case["m"] + 2):
            judge_iteration(wd, it, st, lengths=lens)
            st.transition()
        st.state(lens)
    st.trace()


def judge_time(wd, t, st, **ctx):
    with Heard() as h:
        ro.get_time_state(wd, t)
    late = [i for i, x in enumerate(wd["travel_times"]) if x[-1] < t]
    notes = h.notes("never reached")
    ids = [numbers(m)[0] if numbers(m) else None for m in notes]
    check(sorted(ids) == late, "particles reported not to have reached the time",
          reported=ids[:50], are=late[:50], target=t, **ctx)


def run_time(case, st):
    vals = [0.0, 1.0, 2.5, 4.0]
    seqs = [s for k in range(1, case["m"] + 1)
            for s in itertools.combinations_with_replacement(vals, k)]
    for times in itertools.product(seqs, repeat=case["n"]):
        wd = walk([(0,) * len(s) for s in times], times)
        for t in (-1.0, 0.0, 0.5, 1.0, 1.2, 2.5, 3.9, 4.0, 5.0):
            judge_time(wd, t, st, times=times)
            st.transition()
        st.state(times)
    st.trace()


def run_large(case, st):
    """many particles: counts and numbers of several digits"""
    n = [12, 101, 130, 300, 1001, 1100][case["s"] % 6]
    inside = [tuple((i * (j + 3 + case["s"]) // 7 + j) % 2 for j in range(1 + i % 5))
              for i in range(n)]
    times = [[0.5 * i % 13 + j for j in range(len(f))] for i, f in enumerate(inside)]
    wd = walk(inside, times)
    for rep in range(3):
        judge_exposure(wd, rep, inside, st, particles=n)
    for it in range(7):
        judge_iteration(wd, it, st, particles=n)
    for t in (0.0, 3.25, 7.0, 16.0, 40.0):
        judge_time(wd, t, st, particles=n)
    st.transition(15)
    st.state((n, case["s"]))
    st.trace()


# optional parameters: value given, words of the note given when it is not
OPT = {"theta": (1.5, ("theta", "not specified")), "gamma": (0.3, ("gamma", "not specified")),
       "diff_coeff": (0.4, ("diffusion coefficient", "not specified")),
       "dry_depth": (0.2, ("minimum depth", "not defined")),
       "cell_type": ("ct", ("cell types", "not specified")),
       "steepest_descent": (True, ("weighted random walk",)),
       "roi_grid": ("roi", None)}


def params(verbose):
    p = pt.modelParams()
    p.dx = 2.0
    p.depth = dom.field(5, 6, 1, [1.0, 0.5, 2.0])
    p.stage = dom.field(5, 6, 2, [1.0, 1.1])
    p.qx = p.qy = np.full((5, 6), 0.3)
    if verbose is not None:
        p.verbose = verbose
    return p


def run_build(case, st):
    ct = np.zeros((5, 6), int)
    v = case["verbose"]
    for given in itertools.product((False, True), repeat=len(OPT)):
        p = params(v)
        on = dict(zip(OPT, given))
        for n in OPT:
            if on[n]:
                setattr(p, n, {"ct": ct, "roi": ct}.get(OPT[n][0], OPT[n][0])
                        if isinstance(OPT[n][0], str) else OPT[n][0])
        with Heard() as h:
            if v is False:
                # (it would switch the notes off)
                p.verbose = None
            pt.Particles(p)
        ctx = dict(given=on, notes=h.records)
        for n, (_, words) in OPT.items():
            if words is None:
                check(bool(h.notes("roi")) == on[n], "note about the region", **ctx)
            elif n == "diff_coeff" and on["steepest_descent"]:
                check(not h.notes(*words), "note about a default that is not used", **ctx)
                check(bool(h.notes("diffusion disabled")) == (not on[n]),
                      "note about diffusion with steepest descent", **ctx)
            else:
                k = len(h.notes(*words))
                check(k == (not on[n]), "%s: note about the default" % n, times=k, **ctx)
        check(len(h.notes("using steepest descent")) == on["steepest_descent"],
              "note about steepest descent", **ctx)
        check(not h.warned("diffusion"), "warning about a usual diffusion coefficient",
              **ctx)
        st.transition()
        st.state((v, given))
    for d in (-1e-9, -1, -3.0, 0, 0.0, 0.5, 1.9999, 2, 2.0, 7.5):
        p = params(v)
        p.diff_coeff = d
        with Heard() as h:
            P = pt.Particles(p)
        w = h.warned("diffusion")
        speak = v is not False
        check(len(w) == ((d < 0 or d >= 2) and speak), "warning about the diffusion "
              "coefficient", coefficient=d, verbose=v, warnings=w)
        if w:
            check(("negative" in w[0].lower()) == (d < 0), "kind of warning",
                  coefficient=d, warnings=w)
        check(P.diff_coeff == max(d, 0), "diffusion coefficient used", given=d,
              used=P.diff_coeff)
        st.transition()
    st.trace()


def run_seed(case, st):
    v = case["verbose"]
    with Heard():
        P = pt.Particles(params(v))
    for n in (0, 1, 3):
        for method in ("exact", "random"):
            for t in (0, 0.0, -0.0, 1, 0.5, -1.0, 1e-12, 3600, 1e9, np.float64(2),
                      np.float64(0), -7):
                P.clear_walk_data()
                with Heard() as h, rng.control(lambda: 0.4):
                    P.generate_particles(n, [2, 3], [1, 2], seed_time=t, method=method)
                    w = h.warned("seed time")
                    check(len(w) == (t != 0 and v is not False), "warning about the seed "
                          "time", seed_time=t, verbose=v, warnings=w)
                    P.generate_particles(n, [2, 3], [1, 2], method=method)
                    check(len(h.warned("seed time")) == len(w), "warning without a seed time",
                          verbose=v)
                st.transition(2)
                st.state((v, n, method, float(t)))
    st.trace()


def run_folder(case, st):
    """automated runs: more steps than outputs; folders that exist"""
    n = case["n"]
    src = os.path.abspath("c31s%d" % n)
    os.makedirs(src, exist_ok=True)
    p = params(None)
    for t in range(n):
        for name in ("depth", "stage", "qx", "qy"):
            np.save(os.path.join(src, "%s%d.npy" % (name, t)), getattr(p, name))
    out = os.path.abspath("c31o")
    for steps in range(1, n + 3):
        shutil.rmtree(out, ignore_errors=True)
        if steps % 2:
            os.makedirs(out)
        with Heard() as h, figs.capture(), rng.control(lambda: 0.4):
            r = ro.unsteady_plots(2.0, 2, [2], [2, 3], steps, 5.0, src, "npy",
                                  folder_name=out)
        plt.close("all")
        ctx = dict(outputs=n, steps=steps, notes=h.records)
        k = [1 for l, m in h.records if "num_steps" in m and "exceeds" in m.lower()
             and l == logging.WARNING]
        check(len(k) == (steps > n), "warning about too many steps", **ctx)
        check(len(h.notes("existing directory")) == steps % 2, "note about the folder",
              **ctx)
        st.transition()
        st.state((n, steps))
    if n == 1:
        for f, kw in ((ro.steady_plots, {"num_iter": 1}),
                      (ro.time_plots, {"num_iter": 1})):
            for exists in (False, True):
                shutil.rmtree(out, ignore_errors=True)
                if exists:
                    os.makedirs(out)
                with Heard() as h, figs.capture(), rng.control(lambda: 0.4):
                    P = pt.Particles(params(None))
                    P.generate_particles(2, [2], [2, 3])
                    f(P, folder_name=out, **kw)
                plt.close("all")
                check(len(h.notes("existing directory")) == exists, "note about the folder",
                      function=f.__name__, exists=exists, notes=h.records)
                st.transition()
    shutil.rmtree(out, ignore_errors=True)
    shutil.rmtree(src, ignore_errors=True)
    st.trace()


def run_case(case, st):
    globals()["run_" + case["k"]](case, st)
