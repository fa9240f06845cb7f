"""C17: chunk thresholds and the median-absolute-deviation filter."""
import itertools
from math import erf, exp, sqrt

import numpy as np

import dorado.spatial as sp
from mc import dom
from mc.core import Violation, check

ID = "C17"
LEVEL = "model_checking"
ASSUMPTIONS = ["percentiles are those of the Gaussian-kernel estimate (Scott bandwidth) "
               "over the range of the data, within 3/1000 of that range"]
BOUNDS = {
    "quick": "all multisets of up to 7 exposure times from 8 values (0 and NaN included), "
             "each also in units of 2^-20 and 2^24, 7 lists of 50..600 times, 96 one-sided or nearly constant lists, all chunk grids to 3x3 in row-major order; filter: all arrays over {NaN, 1, "
             "2, 5} up to 2x3/1x6/6x1, over 3 values 3x3, windows 1..6, thresholds 0..3",
    "thorough": "multisets of up to 9, filter arrays over 4 values on 3x3",
}
NAN = float("nan")
VALS = [0.0, NAN, 1.0, 2.0, 3.5, 4.0, 8.0, 20.0]


def cases(tier):
    q = tier == "quick"
    for n in range(0, (7 if q else 9) + 1):
        for part in range(4 if n > 5 else 1):
            yield {"k": "lists", "n": n, "part": part, "of": 4 if n > 5 else 1}
    for R in range(1, 4):
        for C in range(1, 4):
            yield {"k": "chunks", "R": R, "C": C}
    for shape in ((1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1), (1, 6), (6, 1), (2, 3),
                  (3, 2)):
        yield {"k": "mad", "shape": list(shape), "vals": [NAN, 1.0, 2.0, 5.0], "part": 0,
               "of": 1}
    for part in range(24):
        yield {"k": "mad", "shape": [3, 3], "part": part, "of": 24,
               "vals": [NAN, 1.0, 3.0] if q else [NAN, 1.0, 2.0, 5.0]}
    for s in range(40):
        yield {"k": "madbig", "seed": s}
    yield {"k": "skew"}
    for n in (50, 99, 100, 101, 128, 257, 600):
        yield {"k": "many", "n": n}


def usable(item):
    if not isinstance(item, list):
        return None
    f = [x for x in item if x != 0 and x == x]
    return f if len(set(f)) >= 5 else None


def ref_percentile(data, p):
    """Percentile of the kernel estimate restricted to the range of the data."""
    n = len(data)
    m = sum(data) / n
    sd = sqrt(sum((x - m) ** 2 for x in data) / (n - 1))
    h = sd * n ** (-0.2)
    lo, hi = min(data), max(data)

    def F(x):
        return sum(0.5 * (1 + erf((x - d) / (h * sqrt(2)))) for d in data) / n
    a, b = F(lo), F(hi)
    l, r = lo, hi
    for _ in range(60):
        c = (l + r) / 2
        if (F(c) - a) / (b - a) < p:
            l = c
        else:
            r = c
    return r


def one(item, td=1.0, shape=(1, 1), f=3, w=5, th=3):
    elev = np.zeros((shape[0] * f + (f > 1), shape[1] * f + (f > 2)))
    return sp.compute_thresholds(item, elev, td, f, w, th)


def ref_mad(a, w, th):
    out = np.full(a.shape, NAN)
    h = w // 2
    for i in range(a.shape[0]):
        for j in range(a.shape[1]):
            if a[i, j] != a[i, j]:
                continue
            win = [a[r, c] for r in range(max(0, i - h), min(a.shape[0], i + h + 1))
                   for c in range(max(0, j - h), min(a.shape[1], j + h + 1))
                   if a[r, c] == a[r, c]]
            med = median(win)
            mad = median([abs(x - med) for x in win])
            if mad == 0:
                out[i, j] = med
            else:
                keep = [x for x in win if abs(x - med) <= th * mad]
                out[i, j] = sum(keep) / len(keep) if keep else NAN
    return out


def median(v):
    v = sorted(v)
    n = len(v)
    return (v[n // 2] + v[(n - 1) // 2]) / 2.0


def same(a, b, tol=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(
        (np.isnan(a) & np.isnan(b)) | (np.abs(a - b) <= tol * (1 + np.abs(b)))))


def mad(a, w, th, st):
    got = sp.median_absolute_deviation_filter(a.copy(), w, th)
    exp_ = ref_mad(a, w, th)
    st.transition()
    if not same(got, exp_):
        raise Violation("median-absolute-deviation filter differs from its definition",
                        data=a, window=w, threshold=th, got=got, expected=exp_)
    unit = 2.0 ** -20 if w % 2 else 2.0 ** 24
    got = sp.median_absolute_deviation_filter(a * unit, w, th)
    if not same(got / unit, exp_):
        raise Violation("median-absolute-deviation filter differs from its definition",
                        data=a * unit, window=w, threshold=th, got=got,
                        expected=exp_ * unit)


def run_case(case, st):
    k = case["k"]
    if k == "lists":
        for m, ms in enumerate(itertools.combinations_with_replacement(VALS, case["n"])):
            if m % case["of"] != case["part"]:
                continue
            item = list(ms)
            if m % 2:
                item = item[::-1]
            if m % 3 == 1:
                item = item[1::2] + item[::2]
            E = one([item])
            check(len(E) == 3 and all(np.shape(e) == (1, 1) for e in E),
                  "one chunk does not give 1x1 maps", exposures=item)
            e = [float(x[0, 0]) for x in E]
            data = usable(item)
            st.transition()
            st.trace()
            st.state(tuple(sorted(repr(x) for x in item)))
            if data is None:
                check(all(x != x for x in e), "chunk with fewer than 5 distinct non-zero "
                      "exposure times has thresholds", exposures=item, got=e)
                continue
            st.add("with_thresholds")
            check(all(x == x for x in e), "chunk with 5 distinct non-zero exposure times "
                  "has no thresholds", exposures=item, got=e)
            lo, hi = min(data), max(data)
            check(lo - 1e-9 <= e[0] <= e[1] <= e[2] <= hi + 1e-9, "thresholds out of "
                  "order or outside the range of the data", exposures=item, got=e)
            for x, p in zip(e, (0.5, 0.75, 0.9)):
                r = ref_percentile(data, p)
                if abs(x - r) > 0.003 * (hi - lo):
                    raise Violation("threshold is not the percentile of the exposure "
                                    "times", exposures=item, percentile=p, got=x,
                                    expected=r)
            # the same exposure times in other units
            for unit in (2.0 ** -20, 2.0 ** 24):
                e2 = [float(x[0, 0]) for x in one([[unit * x for x in item]])]
                check(same(np.array(e2) / unit, e, 1e-7), "thresholds depend on the unit "
                      "of time", exposures=item, unit=unit, got=e2, unscaled=e)
            for td in (60.0, 86400, 0.5):
                e2 = [float(x[0, 0]) for x in one([item], td)]
                check(same(np.array(e2) * td, e), "thresholds do not scale with 1/timedelta",
                      exposures=item, timedelta=td, got=e2, unscaled=e)
        st.sample({"length": case["n"], "values": VALS}, 1)
    elif k == "chunks":
        R, C = case["R"], case["C"]
        letters = [NAN, [], [1.0, 2.0, 3.0, 4.0, 5.0], [2.0, 4.0, 6.0, 8.0, 30.0, 0.0],
                   [7.0, 7.0, 7.0, 7.0, 7.0, 1.0], [3.0, 1.0, 4.0, 1.5, 9.0, 2.6]]
        n = R * C
        combos = itertools.product(range(6), repeat=n) if n <= 3 else (
            tuple(dom.h64(R, C, s, i) % 6 for i in range(n)) for s in range(60))
        single = [[float(x[0, 0]) for x in one([l])] for l in letters]
        for m, cb in enumerate(combos):
            item = [letters[i] for i in cb]
            base = [np.array([single[i][t] for i in cb]).reshape(R, C) for t in range(3)]
            f = 1 + m % 4
            for w, th in ((1, 3), (3, 1), (5, 3), (5, 0.5)):
                E = one(item, 1.0, (R, C), f, w, th)
                for t in range(3):
                    st.transition()
                    if not same(E[t], ref_mad(base[t], w, th), 1e-7):
                        raise Violation("chunk map is not the filtered row-major map of "
                                        "its chunks", chunks=item, shape=[R, C], window=w,
                                        threshold=th, got=E[t],
                                        expected=ref_mad(base[t], w, th), which=t)
            E = sp.compute_thresholds(item, np.zeros((R * f, C * f)), 1.0, f)
            for t in range(3):
                check(same(E[t], ref_mad(base[t], 5, 3), 1e-7), "default window/threshold "
                      "are not 5 and 3", chunks=item, shape=[R, C])
            st.trace()
            st.state((R, C, cb))
    elif k == "mad":
        R, C = case["shape"]
        for m, v in enumerate(itertools.product(case["vals"], repeat=R * C)):
            if m % case["of"] != case["part"]:
                continue
            a = np.array(v).reshape(R, C)
            if case["of"] > 1:
                mad(a, 3, 1, st)
                mad(a, [1, 2, 4, 5][m % 4], [3, 0, 1.5, 0.5][m // 4 % 4], st)
            else:
                for w in range(1, 7):
                    for th in (0, 0.5, 1, 3):
                        mad(a, w, th, st)
            st.trace()
            st.state(repr(v))
    elif k == "skew":
        # distributions of one-sided shape, and times that differ by very little
        sets = []
        for n in (9, 15, 30):
            for m in range(1, n // 2):
                for gap in (10.0, 1000.0):
                    sets.append([0.1 * (i + 1) for i in range(m)] +
                                [gap + 0.1 * i for i in range(n - m)])
        sets += [[gap - x for x in s] for s in sets for gap in [max(s) + 0.05]]
        for step in (1e-3, 1e-6, 1e-7, 3e-9):
            for base in (1.0, 100.0):
                if step * 1e5 > base * 1e-4 or base == 1.0:
                    sets += [[base + step * (i * i + i) for i in range(n)]
                             for n in (5, 6, 12)]
        for item in sets:
            data = usable(item)
            lo, hi = min(data), max(data)
            e = [float(x[0, 0]) for x in one([item])]
            for x, p in zip(e, (0.5, 0.75, 0.9)):
                r = ref_percentile(data, p)
                if not abs(x - r) <= 0.003 * (hi - lo):
                    raise Violation("threshold is not the percentile of the exposure "
                                    "times", exposures=item, percentile=p, got=x,
                                    expected=r)
            st.transition()
            st.trace()
            st.state(("skew", repr(item)))
    elif k == "many":
        # chunks with many particles
        n = case["n"]
        for s in range(4):
            item = [(dom.h64(n, s, i) % 997 + 1) ** [1, 2, 0.5, 1][s] *
                    (0.0 if s == 3 and i % 7 == 0 else 1.0) for i in range(n)]
            e = [float(x[0, 0]) for x in one([item])]
            data = usable(item)
            lo, hi = min(data), max(data)
            for x, p in zip(e, (0.5, 0.75, 0.9)):
                r = ref_percentile(data, p)
                if not abs(x - r) <= 0.003 * (hi - lo):
                    raise Violation("threshold is not the percentile of the exposure "
                                    "times", number=n, percentile=p, got=x, expected=r)
            st.transition()
            st.trace()
            st.state((n, s))
    else:
        s = case["seed"]
        a = dom.field(5 + s % 4, 4 + s % 5, s, [NAN, 1.0, 1.5, 1.6, 2.0, 40.0])
        for w in (1, 3, 5, 7):
            for th in (0.5, 1, 3):
                mad(a, w, th, st)
        st.trace()
        st.state(("big", s))


def finish(total, tier):
    check(total.n.get("with_thresholds", 0) > 0, "vacuous: no thresholds")
