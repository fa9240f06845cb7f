"""C28: only the values of the inputs matter, not how they are represented."""
import copy
import itertools
import json

import numpy as np

import dorado.particle_track as pt
import dorado.routines as ro
import dorado.spatial as sp
from mc import dom, rng, sim
from mc.core import Violation, check

ID = "C28"
LEVEL = "model_checking"
ASSUMPTIONS = ["number types hold the values exactly (values are small integers, quarters "
               "or missing); walk data are lists per particle, as dorado makes them"]
BOUNDS = {
    "quick": "16 representations of arrays (5 memory layouts, read-only, byte-swapped, 9 "
             "number types) for each array of 9 input combinations (custom stencils in one) x 2 conventions: all "
             "arrays alike, one array different, and all pairs of arrays x pairs of 6 "
             "representations; numbers in 5 types; walks of 12 steps and to a target time; "
             "every analysis and conversion function with every representation of each of "
             "its arguments, all pairs of them",
    "thorough": "all pairs of arrays x pairs of all representations",
}
L, W = 8, 9


# --- representations ------------------------------------------------------------------
def fortran(a):
    return np.asfortranarray(a)


def transposed(a):
    return a.T.copy().T


def backward(a):
    return a[tuple([slice(None, None, -1)] * a.ndim)].copy()[
        tuple([slice(None, None, -1)] * a.ndim)]


def strided(a):
    b = np.full([3 * n + 1 for n in a.shape], 77, dtype=a.dtype)
    s = tuple([slice(1, None, 3)] * a.ndim)
    b[s] = a
    return b[s]


def window(a):
    b = np.full([n + 5 for n in a.shape], 77, dtype=a.dtype)
    s = tuple([slice(2, 2 + n) for n in a.shape])
    b[s] = a
    return b[s]


def readonly(a):
    b = a.copy()
    b.flags.writeable = False
    return b


def typed(t):
    def f(a):
        with np.errstate(invalid="ignore"):
            b = a.astype(t)
            return b if np.array_equal(b.astype(float), a.astype(float),
                                       equal_nan=True) else None
    f.__name__ = str(t)
    return f


LAYOUT = [fortran, transposed, backward, strided, window]
TYPES = [typed(t) for t in ("float32", "float16", "int64", "int32", "int16",
                            "int8", "uint8", "uint16", "bool")]
# (functions may compute in half precision where they are given it)
FREPS = LAYOUT + [readonly, typed(">f8")] + [t for t in TYPES if t.__name__ != "float16"]
REPS = LAYOUT + [readonly, typed(">f8")] + TYPES
BRIEF = [fortran, strided, backward, typed("float32"), typed("int16"), typed("uint8")]


def both(f, g):
    def h(a):
        b = g(a)
        return None if b is None else f(b)
    h.__name__ = f.__name__ + "+" + g.__name__
    return h


# --- Particles ------------------------------------------------------------------------
COMBOS = [("depth", "stage", "qx", "qy"), ("depth", "stage", "u", "v"),
          ("depth", "topography", "qx", "qy"), ("stage", "topography", "u", "v"),
          ("stage", "topography", "qx", "qy"), ("depth", "topography", "u", "v"),
          ("depth", "stage", "qx", "qy", "cell_type", "roi_grid"),
          ("stage", "topography", "u", "v", "cell_type", "roi_grid"),
          ("depth", "stage", "u", "v", "distances", "angles", "ivec", "jvec", "iwalk",
           "jwalk")]
R2, R5, PI = 2 ** 0.5, 0.5 ** 0.5, np.pi
STENCIL = {"distances": [[R2, 1, R2], [1, 1, 1], [R2, 1.5, R2]],
           "ivec": [[-R5, 0, R5], [-1, 0, 1], [-R5, 0, R5]],
           "jvec": [[-R5, -1, -R5], [0, 0, 0], [R5, 1, R5]],
           "iwalk": [[-1, 0, 1], [-1, 0, 1], [-1, 0, 1]],
           "jwalk": [[-1, -1, -1], [0, 0, 0], [1, 1, 1]],
           "angles": [[3 * PI / 4, PI / 2, PI / 4], [PI, 0, 0],
                      [5 * PI / 4, 3 * PI / 2, 7 * PI / 4]]}


def fields(names, kind):
    """kind 0: small integers, 1: large integers, 2: quarters and missing values,
    3: no negative values and no missing ones, wet everywhere"""
    top = dom.field(L, W, 11 + kind, [0, 1, 2, 3]) + 3
    dep = dom.field(L, W, 21 + kind, [0, 1, 2, 3, 4, 5])
    if kind == 1:
        dep, top = dep * 45, top + 20
    if kind == 2:
        dep, top = dep * 0.25, top * 0.25
    if kind == 3:
        dep = dep + 1
    f = {"topography": top, "depth": dep, "stage": top + dep,
         "qx": dom.field(L, W, 31 + kind, [0, 1, 2, -1, 5]),
         "qy": dom.field(L, W, 41 + kind, [0, 1, -2, 1, 100]),
         "u": dom.field(L, W, 51 + kind, [0, 1, 2, -1, 12]),
         "v": dom.field(L, W, 61 + kind, [0, 1, -2, 1, 100]),
         "cell_type": np.where(dep > 0, 1, 2) - dom.field(L, W, 71, [0, 0, 1]) * (dep > 0),
         "roi_grid": dom.field(L, W, 81, [0, 1])}
    f.update(STENCIL)
    if kind == 3:
        for n in ("qx", "qy", "u", "v"):
            f[n] = np.abs(f[n])
    else:
        f["cell_type"][:, -1] = -1
    if kind == 2:
        for n in ("depth", "qx", "qy", "u", "v"):
            f[n] = f[n].astype(float)
            f[n][2, 3] = np.nan
    return {n: np.ascontiguousarray(f[n], int if n in ("iwalk", "jwalk") else float)
            for n in names}


ATTRS = ("depth", "stage", "qx", "qy", "u", "v", "velocity", "velocity_angle",
         "cell_type", "weight", "roi_grid")
NUMBERS = {"dx": 2.0, "theta": 1.0, "gamma": 0.25, "diff_coeff": 1.0, "dry_depth": 0.5}


def observe(a, model, steep, numbers):
    p = pt.modelParams()
    for n in a:
        setattr(p, n, a[n])
    for n in numbers:
        setattr(p, n, numbers[n])
    if model:
        p.model = model
    if steep:
        p.steepest_descent = True
    p.particle_variables = ["depth", "u", "qy"]
    P = pt.Particles(p)
    out = {}
    for n in ATTRS:
        x = getattr(P, n)
        out[n] = None if x is None else np.array(x, dtype=float)
    with rng.control(rng.lcg(5)):
        P.generate_particles(14, [3, 4, 2, 5, 1, 6, 3], [2, 3, 6, 5, 1, 2, 7],
                             method="exact")
        for _ in range(12):
            P.run_iteration()
        P.generate_particles(3, [3, 4], [2, 3, 5])
        P.run_iteration(target_time=40.0, max_iter=9)
    out["walk"] = sim.plain(P.walk_data)
    json.dumps(P.walk_data)
    return out


def differ(x, y):
    for n in x:
        if n == "walk":
            for k in x[n]:
                for q, (s, t) in enumerate(zip(x[n][k], y[n][k])):
                    if len(s) != len(t) or any(
                            c != d and (isinstance(c, str) or isinstance(d, str) or
                                        abs(c - d) > 1e-6 * (1 + abs(c)))
                            for c, d in zip(s, t)):
                        return "walk data, %s of particle %d" % (k, q)
            if list(x[n]) != list(y[n]):
                return "walk data"
        elif (x[n] is None) != (y[n] is None):
            return n
        elif x[n] is not None and (x[n].shape != y[n].shape or not np.allclose(
                x[n], y[n], rtol=1e-9, atol=1e-12, equal_nan=True)):
            return n
    return None


def run_object(case, st):
    names, model, kind = COMBOS[case["combo"]], case["model"], case["kind"]
    steep = case["combo"] % 4 == 3
    a = fields(names, kind)
    want = observe({n: a[n].copy() for n in a}, model, steep, NUMBERS)

    def trial(rep, numbers=NUMBERS, what=None):
        b = {}
        for n in a:
            b[n] = rep[n](a[n]) if n in rep else a[n].copy()
            if b[n] is None or (n == "cell_type" and b[n].dtype.kind in "ub"):
                return          # (cell types include -1)
            if n in ("iwalk", "jwalk") and b[n].dtype.kind != "i":
                return          # (these are indices)
        keep = {n: b[n].copy() for n in b}
        ctx = dict(fields=names, model=model, kind=kind,
                   representation=what or {n: rep[n].__name__ for n in rep})
        try:
            got = observe(b, model, steep, numbers)
        except Exception as e:
            raise Violation("inputs with the same values in another representation are "
                            "rejected", error=repr(e), **ctx)
        bad = differ(want, got)
        if bad:
            raise Violation("result depends on the representation of the input",
                            differs=bad, got=got[bad] if bad in got else got["walk"],
                            expected=want[bad] if bad in want else want["walk"], **ctx)
        for n in b:
            check(np.array_equal(keep[n], b[n], equal_nan=True), "input modified",
                  field=n, **ctx)
        st.transition(15)
        st.trace()
        st.state((case["combo"], model, kind, repr(ctx["representation"])))
    for r in REPS:
        trial({n: r for n in names})
        for n in names:
            trial({n: r})
    # a layout together with a number type
    for f in LAYOUT if case["combo"] < 8 else []:
        for g in (TYPES[0], TYPES[2], TYPES[4]):
            trial({n: both(f, g) for n in names})
    reps = BRIEF if case["brief"] else REPS
    for m, n in itertools.combinations(names, 2):
        for r, s in itertools.product(reps, repeat=2):
            trial({m: r, n: s})
    for t in (np.float64, np.float32, np.int64, int, np.int32):
        for n in list(NUMBERS) + [None]:
            num = dict(NUMBERS)
            for k in num:
                if n in (k, None) and (num[k] == int(num[k]) or
                                       t in (np.float64, np.float32)):
                    num[k] = t(num[k])
            trial({}, num, "%s as %s" % (n or "all numbers", t.__name__))
    st.sample({"fields": names, "model": model, "kind": kind}, 1)


# --- functions ------------------------------------------------------------------------
class Arr(object):
    """an argument that is an array"""
    def __init__(self, a):
        self.a = np.array(a, dtype=float)

    def variants(self):
        yield "array", self.a.copy()
        for r in FREPS:
            b = r(self.a)
            if b is not None:
                yield r.__name__, b


class Same(object):
    """an argument with a list of equivalent forms"""
    def __init__(self, *forms):
        self.forms = forms

    def variants(self):
        for n, f in enumerate(self.forms):
            yield ("%d:%s" % (n, type(f).__name__),
                   f if isinstance(f, np.ndarray) else copy.deepcopy(f))


def walk_forms(w):
    def conv(fi, ft, order=None, extra=False):
        out = {}
        for k in order or list(w):
            f = ft if k == "travel_times" else fi
            out[k] = [[f(x) for x in q] for q in w[k]]
        if extra:
            out["depth"] = [[1.0 for x in q] for q in w["xinds"]]
        return out
    i, f = int, float
    return Same(conv(i, f), conv(np.int64, np.float64), conv(np.int32, f), conv(i, i),
                conv(i, f, ["travel_times", "yinds", "xinds"]), conv(i, f, None, True),
                json.loads(json.dumps(conv(i, f))))


WALK = {"xinds": [[1, 2, 3, 4, 3, 3], [2, 2, 1], [5, 6, 6, 5], [6], [0, 1, 2, 2, 3]],
        "yinds": [[1, 1, 2, 3, 3, 4], [2, 3, 4], [0, 1, 2, 2], [7], [8, 7, 6, 7, 7]],
        "travel_times": [[0, 1, 3, 7, 12, 12], [0, 4, 5], [2, 3, 5, 6], [0],
                         [1, 1, 2, 7, 30]]}
MASK = dom.field(L, W, 9, [0, 1, 1])
PTS = [(0, 0), (3, 1), (2, 4), (5, 3), (1, 2), (4, 4), (5, 0)]
QTY = [1, 2, 5, 3, 0, 7, 2]


def list_forms(v):
    forms = [[int(x) for x in v], [float(x) for x in v], [np.float32(x) for x in v],
             [np.int64(x) for x in v]]
    a = np.array(v, dtype=float)
    for r in FREPS:
        b = r(a)
        if b is not None:
            forms.append(b)
    return Same(*forms)


def point_forms(p):
    a = np.array(p, dtype=float)
    forms = [[tuple(x) for x in p], [list(map(float, x)) for x in p],
             [tuple(map(np.float64, x)) for x in p], [np.array(x) for x in p]]
    for r in FREPS:
        b = r(a)
        if b is not None:
            forms.append(b)
    return Same(*forms)


def numbers(x):
    forms = [x, float(x), np.float64(x), np.float32(x)]
    if x == int(x):
        forms += [int(x), np.int64(x), np.int16(x)]
    return Same(*forms)


def ints(x):
    return Same(x, np.int64(x), np.int32(x), np.int16(x))


def u2g(k, crop, boundary):
    def f(points, quantity, more, cell, bd):
        fn, g = pt.unstruct2grid(points, quantity, cell, k_nearest_neighbors=k,
                                 boundary=bd if boundary else None, crop=crop)
        return g, fn(more)
    return f


def seeds(method):
    def f(n, xs, ys, t):
        P = dom.particles(depth=np.ones((L, W)), stage=np.ones((L, W)),
                          qe=np.ones((L, W)), qn=np.ones((L, W)))
        with rng.control(rng.lcg(3)):
            P.generate_particles(n, xs, ys, t, method)
            P.run_iteration()
        json.dumps(P.walk_data)
        return sim.plain(P.walk_data)
    return f


def coords(w, origin, size, cell):
    return sim.plain(pt.ind2coord(w, origin, size, cell))


TUP = Same((L, W), [L, W], np.array([L, W]), (np.int64(L), np.int32(W)))
ORI = Same((4, 16), [4.0, 16.0], np.array([4, 16]), (np.float32(4), np.int64(16)))
BD = point_forms([(0.5, -1), (6, -1), (6, 3.5), (0.5, 3.5)])
EXPO = [[1.0, 2.0, 3.0, 5.0, 9.0, 0.0], float("nan"), [2.0, 2.0], [1.0, 4.0, 6.0, 7.0, 9.0],
        [], [3.0, 1.0, 2.0, 8.0, 30.0], [1.0, 5.0, 2.0, 9.0, 4.0], [0.0] * 9,
        [5.0, 6.0, 7.0, 8.0, 9.0, 9.0]]


def expo_forms():
    def conv(f):
        return [[f(x) for x in e] if isinstance(e, list) else e for e in EXPO]
    return Same(EXPO, conv(np.float64), conv(np.float32), conv(int), conv(np.int32),
                [np.float64(e) if not isinstance(e, list) else e for e in EXPO])


MADS = [dom.field(5, 6, 17, [1.0, 2.0, 4.0, 50.0]), dom.field(5, 6, 18, [1.0, 2.0, np.nan, 9])]
FUNCS = {
    "exposure_time": (lambda w, r: pt.exposure_time(w, r), walk_forms(WALK), Arr(MASK)),
    "nourishment_area": (lambda w, s: pt.nourishment_area(w, s), walk_forms(WALK), TUP),
    "nourishment_area raw": (lambda w, s, sg, c: pt.nourishment_area(w, s, sg, c),
                             walk_forms(WALK), TUP, numbers(0), numbers(90)),
    "nourishment_time": (lambda w, s: pt.nourishment_time(w, s), walk_forms(WALK), TUP),
    "nourishment_time raw": (lambda w, s, sg, c: pt.nourishment_time(w, s, sg, c),
                             walk_forms(WALK), TUP, numbers(0), numbers(90)),
    "coord2ind": (pt.coord2ind, point_forms([(5, 18), (8, 21), (4, 17), (19, 30)]), ORI,
                  TUP, numbers(2)),
    "ind2coord": (coords, walk_forms(WALK), ORI, TUP, numbers(2)),
    "flux": (pt.flux_proportional_seeding, list_forms([1, 3, 0, 7, 5]), ints(23), ints(5)),
    "flux many": (pt.flux_proportional_seeding, list_forms([100, 37, 11, 0, 90]),
                  Same(10 ** 7, 10 ** 7 + 0), ints(5)),
    "flux column": (lambda q, n: np.ravel(pt.flux_proportional_seeding(q, n, 4)),
                    Arr([[3], [1], [1], [6]]), ints(10)),
    "systemwide": (sp.systemwide, walk_forms(WALK), Arr(np.ones((L, W))), Arr(MASK),
                   ints(3)),
    "localized": (sp.localized, walk_forms(WALK), Arr(np.ones((L, W))), Arr(MASK),
                  ints(3)),
    "compute_thresholds": (sp.compute_thresholds, expo_forms(), Arr(np.zeros((9, 10))),
                           numbers(2), ints(3), ints(3), numbers(3)),
    "mad": (sp.median_absolute_deviation_filter, Arr(MADS[0]), ints(3), numbers(2)),
    "mad nan": (sp.median_absolute_deviation_filter, Arr(MADS[1]), ints(4), numbers(1)),
    "get_state": (lambda w, i: ro.get_state(w, i)[:3], walk_forms(WALK), ints(2)),
    "get_time_state": (lambda w, t: ro.get_time_state(w, t)[:3], walk_forms(WALK),
                       numbers(3)),
    "seed exact": (seeds("exact"), Same(5, 5.0, np.int64(5)),
                   list_forms([3, 4, 2]), list_forms([2, 5, 6]),
                   Same(4, 4.0, np.float64(4))),
    "seed random": (seeds("random"), Same(5, np.int64(5)), list_forms([3, 4, 2]),
                    list_forms([2, 5, 6, 1]), Same(0, 0.0)),
}
for _k in (1, 2, 3):
    for _c in (True, False):
        for _b in (True, False):
            FUNCS["unstruct2grid %d %s %s" % (_k, _c, _b)] = (
                u2g(_k, _c, _b), point_forms(PTS), list_forms(QTY),
                list_forms(QTY[::-1]), numbers(1), BD)


def near(x, y):
    if isinstance(x, dict):
        return list(x) == list(y) and all(near(x[k], y[k]) for k in x) if sorted(
            x) == sorted(y) and list(x) == list(y) else (
            all(k in y and near(x[k], y[k]) for k in x))
    if isinstance(x, (list, tuple)) and not isinstance(x, str):
        return len(x) == len(y) and all(near(a, b) for a, b in zip(x, y))
    if isinstance(x, str) or isinstance(y, str):
        return x == y
    x, y = np.asarray(x, float), np.asarray(y, float)
    return x.shape == y.shape and bool(np.allclose(x, y, rtol=1e-5, atol=1e-9,
                                                   equal_nan=True))


def run_function(case, st):
    name = case["f"]
    fn, args = FUNCS[name][0], FUNCS[name][1:]
    forms = [list(a.variants()) for a in args]
    base = [f[0] for f in forms]
    want = fn(*copy.deepcopy([b[1] for b in base]))

    def trial(choice):
        vals = [c[1] if isinstance(c[1], np.ndarray) else copy.deepcopy(c[1])
                for c in choice]
        keep = copy.deepcopy([v for v in vals if isinstance(v, np.ndarray)])
        ctx = dict(function=name, representation=[c[0] for c in choice])
        try:
            got = fn(*vals)
        except Exception as e:
            raise Violation("arguments with the same values in another representation "
                            "are rejected", error=repr(e), **ctx)
        if not near(want, got):
            raise Violation("result depends on the representation of the arguments",
                            got=got, expected=want, **ctx)
        check(all(np.array_equal(k, v, equal_nan=k.dtype.kind == "f") for k, v in
                  zip(keep, (v for v in vals if isinstance(v, np.ndarray)))),
              "argument modified", **ctx)
        st.transition()
        st.trace()
        st.state((name, tuple(c[0] for c in choice)))
    for m, n in (itertools.combinations(range(len(forms)), 2) if len(forms) > 1
                 else [(0, 0)]):
        for x, y in itertools.product(forms[m], forms[n]):
            choice = list(base)
            choice[m] = x
            choice[n] = y
            trial(choice)
    st.sample({"function": name, "forms": [len(f) for f in forms]}, 1)


def cases(tier):
    for f in FUNCS:
        yield {"f": f}
    for c in range(len(COMBOS)):
        for model in (None, "DeltaRCM"):
            for kind in range(4):
                if c > 5 and kind == 1 and tier == "quick":
                    continue
                yield {"combo": c, "model": model, "kind": kind,
                       "brief": tier == "quick"}


def run_case(case, st):
    if "f" in case:
        run_function(case, st)
    else:
        run_object(case, st)
