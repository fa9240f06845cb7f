"""C26: exposure-time plots against the exact empirical distribution, for all small sets of
exposure times."""
import itertools
import json
import logging
import os
import re
import shutil
from fractions import Fraction

import numpy as np

import dorado.routines as rt
from dorado.logging_config import logger
from mc import figs
from mc.core import check
from mc.core import Violation

ID = "C26"
LEVEL = "model_checking"
ASSUMPTIONS = ["the end time is positive, nbins >= 2",
               "curves are read from the lines of the figures; at a point of the regular "
               "time axis within 1e-9 of a jump both values are accepted",
               "the derivative is central differences of the linearly interpolated curve "
               "(one-sided at the ends), not compared where equal times make that "
               "interpolation ambiguous"]
BOUNDS = {
    "quick": "all multisets of 1..4 exposure times over 9 values (714) and both orders, "
             "options (7 units, end-time rule, thresholds, saving, folders, tracked "
             "variables, 5 bin numbers) covered in rotation; 12 sets of 10/20/200/2001 particles, times at exactly 99 % of the end time",
    "thorough": "multisets up to 5 over 10 values x 4 option sets each",
}
END, LATE = 8.0, 16.0
VALS = [0.0, 1e-7, 0.03125, 1.0, 2.5, 5.0, 7.919, 8.0, 15.0]
MORE = VALS + [7.5]
UNITS = [1, 60, 3600, 86400, 604800, 0.5, 7]
NB = [9, 17, 2, 3, 100, 33]


def cases(tier):
    vals = VALS if tier == "quick" else MORE
    n = 0
    for k in range(1, 5 if tier == "quick" else 6):
        for ms in itertools.combinations_with_replacement(range(len(vals)), k):
            n += 1
            yield {"t": [vals[i] for i in (ms if n % 2 else ms[::-1])], "o": n,
                   "reps": 2 if tier == "quick" else 4}
    for k in (10, 20):
        for j in range(4):
            # exactly at / just below the 50, 75, 90 % levels
            m = [k, k * 9 // 10, k * 9 // 10 - 1, k // 2][j]
            yield {"t": [1.0 + 6.0 * i / k if i < m else 8.0 for i in range(k)], "o": j,
                   "reps": 4}


    for n, m in enumerate((99, 149, 179, 200)):
        # one particle short of the level
        yield {"t": [0.05 + 7.5 * (i / 200.0) ** 2 if i < m else 8.0
                     for i in range(200)][::-1], "o": n + 1, "reps": 2}
    for n, m in enumerate((1000, 1001, 1500, 1800, 1801)):
        yield {"t": [0.05 + 7.5 * (i / 2001.0) ** 2 if i < m else 8.0
                     for i in range(2001)], "o": 2 * n + 1, "reps": 1}
    # exactly at 99 % of the end time
    for n, t in enumerate(([0.99 * END], [0.99 * END, 1.0], [0.99 * LATE, 1.0, 2.0],
                           [0.99 * LATE, 0.99 * END], [0.99 * END] * 3 + [2.5])):
        yield {"t": t, "o": n, "reps": 4}


def value(x, y, style, t):
    """ordinate of a drawn line at t (x ascending, t not at a vertex)"""
    i = int(np.searchsorted(x, t, side="right"))
    if i == 0 or i == len(x):
        return None
    if style == "steps-post":
        return y[i - 1]
    if style in ("steps", "steps-pre"):
        return y[i]
    if style == "default":
        return y[i - 1] + (y[i] - y[i - 1]) * (t - x[i - 1]) / (x[i] - x[i - 1])
    raise Violation("unexpected way of drawing", style=style)


def reader(fig):
    out = []
    for ax in fig.axes:
        ls = figs.lines(ax)
        out.append({"lines": [(x, y, s) for x, y, s, l in ls if len(x) > 2 or
                               not (len(y) == 2 and y[0] == y[1] and
                                    l.get_transform() != ax.transData)],
                    "levels": sorted(float(y[0]) for x, y, s, l in ls if len(y) == 2 and
                                     y[0] == y[1] and l.get_transform() != ax.transData),
                    "xlim": ax.get_xlim(), "ylim": ax.get_ylim(),
                    "ticks": [t.get_text() for t in ax.get_yticklabels()],
                    "yt": list(ax.get_yticks())})
    return out


class Log(logging.Handler):
    def __init__(self):
        logging.Handler.__init__(self)
        self.m = []

    def emit(self, r):
        self.m.append(r.getMessage())


def walk(times, tracked, n):
    """n particles; final travel times END.. LATE"""
    ends = [END + (LATE - END) * i / max(1, n - 1) for i in range(n)]
    if n > 1:
        ends = ends[1:] + ends[:1]
    wd = {"xinds": [[1] * (3 + i % 2) for i in range(n)],
          "yinds": [[2] * (3 + i % 2) for i in range(n)],
          "travel_times": [[0.0, 1.0] + [e] * (1 + i % 2) for i, e in enumerate(ends)]}
    if tracked:
        wd["roi_flag"] = [[0] * (3 + i % 2) for i in range(n)]
        wd["u"] = [[100.0] * (3 + i % 2) for i in range(n)]
    return wd, min(ends), max(ends)


def F(ts, N, t):
    return sum(1 for v in ts if v <= t) / float(N)


def near(ts, t):
    return any(abs(v - t) < 1e-9 for v in ts)


def check_exact(fig, ts, N, end, unit, ctx):
    ls = [l for a in fig for l in a["lines"]]
    check(len(ls) == 1, "the exact distribution is not one curve", n=len(ls), **ctx)
    x, y, s = ls[0]
    x = x * unit
    pts = sorted(set([0.0] + ts + [end]))
    for a, b in zip(pts, pts[1:]):
        for t in (a + (b - a) * .01, (a + b) / 2, a + (b - a) * .99):
            v = value(x, y, s, t)
            check(v is not None and abs(v - F(ts, N, t)) < 1e-12,
                  "exact cumulative distribution", at=t, got=v, expected=F(ts, N, t), **ctx)
    check(abs(x[0]) < 1e-12 and abs(x[-1] - end) < 1e-9 * end and
          abs(y[-1] - len(ts) / float(N)) < 1e-12,
          "ends of the exact distribution", x=x[[0, -1]], y=y[[0, -1]], **ctx)


def check_smooth(ls, ts, N, end, unit, nb, ctx):
    check(len(ls) == 1, "the regular curve is not one curve", n=len(ls), **ctx)
    x, y, s = ls[0]
    want = [end * i / (nb - 1) for i in range(nb)]
    check(len(x) == nb and max(abs(x * unit - want)) < 1e-9 * end,
          "the regular time axis", got=x, expected=[w / unit for w in want], **ctx)
    for t, v in zip(want, y):
        ok = [F(ts, N, t)]
        if near(ts, t):
            ok += [F(ts, N, t - 1e-8), F(ts, N, t + 1e-8)]
        check(min(abs(v - o) for o in ok) < 1e-12, "regular cumulative distribution",
              at=t, got=v, expected=ok[0], **ctx)
    return want, list(y)


def check_deriv(fig, ts, N, end, unit, nb, ctx):
    ls = [l for a in fig for l in a["lines"]]
    check(len(ls) == 1, "the derivative is not one curve", n=len(ls), **ctx)
    x, y, s = ls[0]
    T = [end * i / (nb - 1) for i in range(nb)]
    check(len(x) == nb and max(abs(x * unit - T)) < 1e-9 * end, "time axis of the "
          "derivative", got=x, **ctx)
    kx = [0.0] + sorted(ts) + [end]
    ky = [i / float(N) for i in range(len(ts) + 1)] + [len(ts) / float(N)]

    def lin(t):
        i = 0
        while i + 2 < len(kx) and kx[i + 1] < t:
            i += 1
        if kx[i + 1] == kx[i]:
            return ky[i]
        return ky[i] + (ky[i + 1] - ky[i]) * (t - kx[i]) / (kx[i + 1] - kx[i])
    dup = [v for v in ts if ts.count(v) > 1]
    C = [None if near(dup, t) else lin(t) for t in T]
    h = T[1]
    for i in range(nb):
        a, b = max(0, i - 1), min(nb - 1, i + 1)
        if C[a] is None or C[b] is None:
            continue
        w = (C[b] - C[a]) / (h * (b - a)) * unit
        check(abs(y[i] - w) <= 1e-9 * max(1.0, abs(w)), "the derivative of the curve",
              at=T[i], got=y[i], expected=w, **ctx)


LOGRE = re.compile(r"E(50|75|90)\b[^0-9a-zA-Z]*(not reached|[-+0-9.eE]+)")


def logged(msgs, ctx):
    out = {}
    for m in msgs:
        g = LOGRE.match(m.strip())
        if g:
            k = int(g.group(1))
            check(k not in out, "a percentile is reported twice", message=m, **ctx)
            out[k] = None if g.group(2) == "not reached" else float(g.group(2))
    return out


def run_case(case, st):
    here = os.getcwd()
    h = Log()
    old = logger.level, list(logger.handlers), logger.propagate
    for o in old[1]:
        logger.removeHandler(o)
    logger.addHandler(h)
    logger.setLevel(logging.INFO)
    logger.propagate = False
    try:
        for r in range(case["reps"]):
            one(case, case["o"] * 7 + r * 5, here, h, st)
    finally:
        os.chdir(here)
        logger.removeHandler(h)
        for o in old[1]:
            logger.addHandler(o)
        logger.setLevel(old[0])
        logger.propagate = old[2]
        shutil.rmtree(os.path.join(here, "c26"), ignore_errors=True)
    st.sample({"exposure_times": case["t"]}, 1)


def one(case, o, here, h, st):
    times = list(case["t"])
    N = len(times)
    unit, nb = UNITS[(o + o // 7) % 7], NB[(o // 6) % 6]
    uni, show, save = bool(o & 1), o % 3 != 0, bool((o // 2) % 2) or o % 5 == 0
    tracked = bool((o // 3) % 2)
    wd, lo, hi = walk(times, tracked, N)
    end = hi if uni else lo
    ts = [t for t in times if t > 1e-6 and t < 0.99 * end]
    fold = (None, "new", "a/b", "have")[o % 4]
    ctx = dict(exposure_times=times, timedelta=unit, nbins=nb, uniform_timesteps=uni,
               show_thresholds=show, save_output=save, tracked=tracked, folder=fold)
    os.chdir(here)
    shutil.rmtree("c26", ignore_errors=True)
    os.makedirs("c26/have/figs")
    os.chdir("c26")
    before = files()
    arr = np.array(times) if o % 7 == 0 and not save else times
    # the exact, regular and differential figures
    del h.m[:]
    with figs.capture(reader) as cap:
        rt.plot_exposure_time(wd, arr, folder_name=fold, timedelta=unit, nbins=nb,
                              save_output=save, uniform_timesteps=uni,
                              show_thresholds=show)
        if save:
            d = fold or "."
            want = sorted([os.path.join(d, "data/exposure_times.txt")] +
                          [os.path.join(d, "figs", f) for f in
                           ("ETD.png", "Exact_CETD.png", "Smooth_CETD.png")])
            check([os.path.normpath(w) for w in want] == files(), "files written",
                  got=files(), expected=want, **ctx)
            with open(os.path.join(d, "data/exposure_times.txt")) as f:
                check(json.load(f) == times, "exposure_times.txt is not the list of "
                      "exposure times", **ctx)
            got = {os.path.basename(p): v for p, v in cap.saved}
            ex, sm, de = (got.get(n + ".png") for n in ("Exact_CETD", "Smooth_CETD", "ETD"))
        else:
            check(not cap.saved and files() == before, "save_output=False writes files",
                  got=files(), **ctx)
            fl = [reader(figs.plt.figure(n)) for n in figs.plt.get_fignums()]
            check(len(fl) == 3, "not three figures", n=len(fl), **ctx)
            ex, sm, de = fl
    check(ex and sm and de, "a figure is missing", **ctx)
    check_exact(ex, ts, N, end, unit, ctx)
    T, Y = check_smooth([l for a in sm for l in a["lines"]], ts, N, end, unit, nb, ctx)
    check_deriv(de, ts, N, end, unit, nb, ctx)
    rep = logged(h.m, ctx)
    if show:
        top = Fraction(len(ts), N)
        for k in (50, 75, 90):
            need = Fraction(k, 100)
            check(k in rep, "a percentile is not reported", percentile=k, log=list(h.m),
                  **ctx)
            if top >= need:
                w = next(t for i, t in enumerate(sorted(ts)) if Fraction(i + 1, N) >= need)
                check(rep[k] is not None and abs(rep[k] - w / unit) <= 6e-3 * w / unit,
                      "reported percentile is not the first time the distribution attains "
                      "it", percentile=k, got=rep[k], expected=w / unit, **ctx)
            else:
                check(rep[k] is None, "a percentile that is not reached is reported",
                      percentile=k, got=rep[k], **ctx)
        check([l for a in sm for l in a["levels"]] == [0.5, 0.75, 0.9],
              "threshold lines", **ctx)
    else:
        check(not rep, "percentiles reported without being asked for", **ctx)
    # thresholds on the regular curve
    os.chdir(here)
    shutil.rmtree("c26")
    os.makedirs("c26/have/figs")
    os.chdir("c26")
    del h.m[:]
    with figs.capture(reader) as cap:
        rt.plot_exposure_time_thresholds(wd, arr, folder_name=fold, timedelta=unit,
                                         nbins=nb, save_output=save,
                                         uniform_timesteps=uni)
        if save:
            check([os.path.relpath(p) for p, _ in cap.saved] == [os.path.normpath(
                os.path.join(fold or ".", "figs/Smooth_CETD_thresholds.png"))],
                "file of the threshold figure", got=[p for p, _ in cap.saved], **ctx)
            g = cap.saved[0][1]
        else:
            check(not cap.saved and files() == before, "save_output=False writes files",
                  **ctx)
            fl = [reader(figs.plt.figure(n)) for n in figs.plt.get_fignums()]
            check(len(fl) == 1, "not one figure", n=len(fl), **ctx)
            g = fl[0]
    T, Y2 = check_smooth([l for a in g for l in a["lines"]], ts, N, end, unit, nb, ctx)
    check(Y == Y2, "the two functions draw different curves", **ctx)
    check([l for a in g for l in a["levels"]] == [0.5, 0.75, 0.9], "threshold lines", **ctx)
    rep = logged(h.m, ctx)
    for k in (50, 75, 90):
        check(k in rep, "a percentile is not reported", percentile=k, log=list(h.m), **ctx)
        w = next((t for t, y in zip(T, Y2) if y >= k / 100.), None)
        if w is None:
            check(rep[k] is None, "a percentile that is not reached is reported",
                  percentile=k, got=rep[k], **ctx)
        else:
            check(rep[k] is not None and w / unit - 1 - 1e-9 < rep[k] <= w / unit + 1e-9,
                  "reported percentile is not the first time the regular curve attains it",
                  percentile=k, got=rep[k], expected=w / unit, **ctx)
    st.state((times, end, unit, nb, show, save))
    st.transition(2 * N)
    st.trace(2)


def files():
    return sorted(os.path.normpath(os.path.join(d, f))
                  for d, _, fs in os.walk(".") for f in fs)
