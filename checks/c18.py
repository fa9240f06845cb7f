"""C18: nourishment maps of every bounded set of paths."""
import itertools

import numpy as np

import dorado.particle_track as pt
from mc import dom
from mc.core import Violation, check

ID = "C18"
LEVEL = "model_checking"
ASSUMPTIONS = ["percentile and Gaussian smoothing are those of numpy/scipy; with smoothing, "
               "a cell at the minimum of the map counts as unvisited",
               "if the clipping percentile is 0 the whole map is blank"]
BOUNDS = {
    "quick": "all paths of 1..5 records over 4 cells (single), all pairs of paths of <=3 "
             "records, all triples of <=2, rasters 2x2, 3x4 and 12x15; 4 clips x 3 sigmas; "
             "6 time patterns",
    "thorough": "paths of 1..7 records, pairs to 4, triples to 3",
}
CELLS = [(0, 0), (0, 1), (1, 0), (1, 1)]


def cases(tier):
    q = tier == "quick"
    for n in range(1, (5 if q else 7) + 1):
        for part in range(4 if n > 3 else 1):
            yield {"k": "sets", "lens": [n], "part": part, "of": 4 if n > 3 else 1}
    m = 3 if q else 4
    for a in range(1, m + 1):
        for b in range(1, m + 1):
            yield {"k": "sets", "lens": [a, b], "part": 0, "of": 1}
    m = 2 if q else 3
    for t in itertools.product(range(1, m + 1), repeat=3):
        yield {"k": "sets", "lens": list(t), "part": 0, "of": 1}
    for s in range(24):
        yield {"k": "big", "seed": s}


def times(n, k):
    t = [0.0, 5.0, -2.0][k % 3]
    unit = 1.0
    if k % 7 == 3:        # very short and very long steps
        t, unit = 0.0, [2.0 ** -40, 2.0 ** 40][k // 7 % 2]
    out = [t]
    for i in range(n - 1):
        t += unit * [[1.0, 2.0, 4.0, 8.0][i % 4], [0.0, 3.0][i % 2], 10.0 - i, 0.5, 0.0,
              [1.0, 0.0, 0.0, 7.0][i % 4]][k % 6]
        out.append(t)
    return out


def gauss(a, sigma):
    """Gaussian smoothing with reflected edges, truncated at 4 sigma"""
    r = int(4.0 * sigma + 0.5)
    x = np.arange(-r, r + 1)
    w = np.exp(-0.5 * (x / sigma) ** 2)
    w /= w.sum()

    def axis0(b):
        L = b.shape[0]
        o = np.zeros_like(b)
        for k, wk in zip(x, w):
            for i in range(L):
                j = i + k
                while not 0 <= j < L:
                    j = -j - 1 if j < 0 else 2 * L - 1 - j
                o[i] += wk * b[j]
        return o
    return axis0(axis0(a).T).T


def finish_map(m, clip, sigma):
    """(map, blank mask, near-blank mask)"""
    v = np.sort(m.ravel())
    pos = clip / 100.0 * (len(v) - 1)
    lo = int(np.floor(pos))
    hi = min(lo + 1, len(v) - 1)
    vmax = v[lo] + (v[hi] - v[lo]) * (pos - lo)
    m = np.clip(m, 0, vmax)
    if sigma > 0:
        m = gauss(m, sigma)
        return m, None, m <= m.min() + 1e-12 * m.max()
    return m, m == 0, None


def compare(what, got, m, blank, near, ctx):
    got = np.asarray(got, float)
    if got.shape != m.shape:
        raise Violation(what + ": shape of the map", got=got.shape, **ctx)
    nan = np.isnan(got)
    if blank is not None:
        ok = np.array_equal(nan, blank)
    else:
        ok = not (nan & ~near).any()
    with np.errstate(invalid="ignore"):
        if not ok or (np.abs(got - m)[~nan] > 1e-9 * min(1.0, np.nanmax(np.abs(m)) or 1.0) +
                      1e-9 * np.nanmax(np.abs(m))).any():
            raise Violation(what + " is not the documented map", got=got, expected=m,
                            **ctx)


def both(wd, shape, combos, st):
    visits = np.zeros(shape)
    n2, tt = np.zeros(shape), np.zeros(shape)
    for xs, ys, ts in zip(wd["xinds"], wd["yinds"], wd["travel_times"]):
        for c in zip(xs, ys):
            visits[c] += 1
        for k in range(1, len(xs) - 1):
            n2[xs[k], ys[k]] += 1
            tt[xs[k], ys[k]] += (ts[k + 1] - ts[k - 1]) / 2.0
    mean = np.where(n2 > 0, tt / np.where(n2 > 0, n2, 1), 0.0)
    for args in combos:
        sigma, clip = args if args else (0.7, 99.5)
        kw = {} if not args else dict(sigma=sigma, clip=clip)
        ctx = dict(sigma=sigma, clip=clip, shape=shape, x=wd["xinds"], y=wd["yinds"],
                   times=wd["travel_times"])
        m, blank, near = finish_map(visits, clip, sigma)
        g = np.asarray(pt.nourishment_area(wd, shape, **kw), float)
        st.transition(2)
        if not m.max() > 0:
            # the percentile is 0: nothing is left
            check(np.isnan(g).all(), "nourishment area: blank map expected", got=g, **ctx)
        else:
            top = m[~blank].max() if blank is not None else (
                m[~near].max() if (~near).any() else np.nan)
            if near is not None and near.all():
                continue
            compare("nourishment area", g, m / top, blank, near, ctx)
            check(abs(np.nanmax(g) - 1.0) < 1e-9, "greatest nourishment is not 1", got=g,
                  **ctx)
        m, blank, near = finish_map(mean, clip, sigma)
        g = pt.nourishment_time(wd, shape, **kw)
        compare("nourishment time", g, m, blank, near, ctx)
    st.trace()


ALL = [(s, c) for s in (0, 0.7, 1.5) for c in (50, 90, 99.5, 100)] + [()]


def run_case(case, st):
    if case["k"] == "sets":
        lens = case["lens"]
        for m, flat in enumerate(itertools.product(range(4), repeat=sum(lens))):
            if m % case["of"] != case["part"]:
                continue
            xs, ys, ts = [], [], []
            i = 0
            for q, n in enumerate(lens):
                p = [CELLS[c] for c in flat[i:i + n]]
                i += n
                xs.append([c[0] for c in p])
                ys.append([c[1] for c in p])
                ts.append(times(n, m + q))
            wd = {"xinds": xs, "yinds": ys, "travel_times": ts}
            shape = [(2, 2), (3, 4), (2, 3)][m % 3]
            combos = [ALL[(m // 3) % 12], ALL[(m // 3 * 5 + 3) % 13], (0, 100)]
            both(wd, shape, combos, st)
            st.state((tuple(lens), flat, m % 6))
    else:
        s = case["seed"]
        shape = [(12, 15), (20, 9), (7, 7)][s % 3]
        wd = {"xinds": [], "yinds": [], "travel_times": []}
        for q in range(1 + s % 7):
            n = 1 + dom.h64(s, q) % 60
            x, y = dom.h64(s, q, 1) % shape[0], dom.h64(s, q, 2) % shape[1]
            xs, ys = [x], [y]
            for k in range(n - 1):
                h = dom.h64(s, q, 3, k)
                xs.append(min(max(xs[-1] + h % 3 - 1, 0), shape[0] - 1))
                ys.append(min(max(ys[-1] + (h // 3) % 3 - 1, 0), shape[1] - 1))
            wd["xinds"].append(xs)
            wd["yinds"].append(ys)
            wd["travel_times"].append(times(n, s + q))
        both(wd, shape, ALL, st)
        st.state(("big", s))
    st.sample({"case": case}, 1)
