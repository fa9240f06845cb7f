"""C11: every subset of the input fields x both conventions, on rasters that contain every
combination of per-cell values; every combination of optional parameters."""
import itertools
import math

import numpy as np

import dorado.particle_track as pt
from mc import ref
from mc.core import Violation, check

ID = "C11"
LEVEL = "model_checking"
ASSUMPTIONS = ["inputs are float arrays of one shape (integer discharge/velocity also "
               "covered); stage and depth given together are taken as given",
               "velocities are compared to discharge/depth within 1e-4 relative, so the "
               "documented 1e-8 regularisation is not prescribed"]
BOUNDS = {
    "quick": "all 128 subsets of {depth, stage, topography, qx, qy, u, v} x {default, "
             "DeltaRCM}, each on a raster holding the full product of per-cell values "
             "(depth 7 x stage 3 x topography 4 x 4 flow components of 3 values, NaN "
             "included); all 2^7*9 combinations of optional parameters, zero values included",
    "thorough": "the same with more values per field, and three cell orders",
}
F = ("depth", "stage", "topography", "qx", "qy", "u", "v")
NAN = float("nan")
VALS = {
    "quick": {"depth": [NAN, 0.0, 5e-4, 0.05, 0.1, 1.0, 2.5], "stage": [NAN, 0.25, 2.0],
              "topography": [NAN, -1.0, 0.2495, 0.5], "qx": [NAN, -1.5, 0.5],
              "qy": [NAN, 0.0, 0.75], "u": [NAN, -0.25, 1.0], "v": [NAN, 0.0, -3.0]},
    "thorough": {"depth": [NAN, 0.0, 5e-4, 0.02, 0.1, 1.0, 2.5],
                 "stage": [NAN, -0.5, 0.25, 2.0],
                 "topography": [NAN, -1.0, 0.2495, 0.25, 0.5], "qx": [NAN, -1.5, 0.0, 0.5],
                 "qy": [NAN, 0.0, 0.75], "u": [NAN, -0.25, 0.0, 1.0],
                 "v": [NAN, 0.0, -3.0]},
}
OPT = ["theta", "gamma", "diff_coeff", "dry_depth", "cell_type", "roi_grid",
       "particle_variables"]


def cases(tier):
    for r in range(len(F) + 1):
        for sub in itertools.combinations(F, r):
            for m in (None, "DeltaRCM"):
                for order in ((0,) if tier == "quick" else (0, 1, 2)):
                    yield {"k": "fields", "sub": list(sub), "model": m, "order": order,
                           "tier": tier}
    # fields without a single positive or known value are still the given fields
    for zero in itertools.product((None, 0.0, NAN, -1.0), repeat=2):
        for m in (None, "DeltaRCM"):
            for sub in (("depth", "stage", "qx", "qy", "u", "v"),
                        ("depth", "topography", "qx", "qy", "u", "v"),
                        ("depth", "stage", "topography", "u", "v")):
                yield {"k": "fields", "sub": list(sub), "model": m, "order": 0,
                       "tier": tier, "const": {f: z for f, z in zip(sub[2:], zero)
                                               if z is not None}}
    for sd in (None, True, False):
        for vb in (None, True, False):
            yield {"k": "opt", "sd": sd, "vb": vb}
    yield {"k": "geometry"}
    yield {"k": "errors"}


def build(case):
    """the rasters: cell c holds the c-th element of the product of the values of the
    fields that matter (those given), padded to a rectangle"""
    vals = VALS[case["tier"]]
    sub = case["sub"]
    prod = list(itertools.product(*[vals[f] for f in sub])) if sub else [()]
    n = len(prod)
    W = max(4, int(math.ceil(math.sqrt(n * 1.3))))
    L = max(3, -(-n // W))
    idx = np.arange(L * W)
    if case["order"] == 1:
        idx = (idx * 7 + 3) % (L * W) if (L * W) % 7 else idx[::-1]
    if case["order"] == 2:
        idx = idx.reshape(W, L).T.ravel()
    a = {}
    for k, f in enumerate(sub):
        col = np.array([prod[i % n][k] for i in idx], dtype=float)
        a[f] = col.reshape(L, W)
        if f in case.get("const", {}):
            a[f][:] = case["const"][f]
    return a, (L, W)


def nz(x):
    return np.where(np.isnan(x), 0.0, x)


def expected(a, model):
    """None if insufficient"""
    if "depth" in a:
        h = nz(a["depth"])
    elif "stage" in a and "topography" in a:
        h = nz(a["stage"] - a["topography"])
        h = np.where(h < 0, 0.0, h)
    else:
        return None
    if "stage" in a:
        s = a["stage"].copy()
    elif "topography" in a and "depth" in a:
        s = a["topography"] + a["depth"]
    else:
        return None
    s = np.where(h == 0, NAN, s)
    if "qx" in a and "qy" in a:
        qe, qn = (a["qx"], a["qy"]) if model is None else (a["qy"], -a["qx"])
        qe, qn = nz(qe), nz(qn)
        with np.errstate(all="ignore"):
            ve = np.where(h > 0, qe / h, 0.0)
            vn = np.where(h > 0, qn / h, 0.0)
    elif "u" in a and "v" in a:
        ve, vn = (a["u"], a["v"]) if model is None else (a["v"], -a["u"])
        ve, vn = nz(ve), nz(vn)
        qe, qn = ve * h, vn * h
    else:
        return None
    return dict(depth=h, stage=s, qe=qe, qn=qn, ve=ve, vn=vn)


def close(x, y, tol=1e-4, at=3e-8):
    x = np.asarray(x, dtype=float)
    y = np.asarray(y, dtype=float)
    return x.shape == y.shape and bool(np.all(
        (np.isnan(x) & np.isnan(y)) | (np.abs(x - y) <= at + tol * np.abs(y))))


def reg(h):
    """relative tolerance of discharge/depth: 1e-4, and where the water is so shallow that
    the 1e-8 regularisation shows, that much"""
    with np.errstate(all="ignore"):
        return 1e-4 + np.where(h > 0, 1.1e-8 / h ** 2, 0)


def run_fields(case, st):
    a, shape = build(case)
    model = case["model"]
    p = pt.modelParams()
    p.dx = 3.0
    for f in a:
        setattr(p, f, a[f].copy())
    if model:
        p.model = model
    want = expected(a, model)
    ctx = dict(fields=case["sub"], model=model)
    st.trace()
    if want is None:
        try:
            pt.Particles(p)
        except ValueError:
            st.add("rejected")
            return
        raise Violation("insufficient input accepted", **ctx)
    P = pt.Particles(p)
    st.transition(shape[0] * shape[1])
    for i in range(shape[0]):
        for j in range(shape[1]):
            st.state((model,) + tuple((f, repr(a[f][i, j])) for f in case["sub"]))

    def cmp(name, got, exp, tol, at=3e-8):
        if not close(got, exp, tol, at):
            got, exp = np.asarray(got, float), np.asarray(exp, float)
            tol = np.broadcast_to(tol, shape)
            bad = [(i, j) for i in range(shape[0]) for j in range(shape[1])
                   if not close(got[i, j], exp[i, j], tol[i, j], at)] \
                if got.shape == exp.shape else []
            c = bad[0] if bad else None
            raise Violation("field %s is not what the inputs determine" % name, cell=c,
                            got=got[c] if c else got.shape,
                            expected=exp[c] if c else exp.shape,
                            inputs={f: a[f][c] for f in a} if c else {}, **ctx)
    cmp("depth", P.depth, want["depth"], tol=1e-12, at=1e-12)
    cmp("stage", P.stage, want["stage"], tol=1e-12, at=1e-12)
    # internal axes: first component down the rows, second along the columns
    cmp("qx", P.qx, -want["qn"], tol=1e-12, at=1e-12)
    cmp("qy", P.qy, want["qe"], tol=1e-12, at=1e-12)
    rt = reg(want["depth"]) if "qx" in a and "qy" in a else 1e-4
    cmp("u", P.u, -want["vn"], rt)
    cmp("v", P.v, want["ve"], rt)
    sp = np.hypot(want["ve"], want["vn"])
    cmp("velocity", P.velocity, sp, rt)
    check(np.all(np.asarray(P.velocity) > 0), "flow speed is not positive everywhere "
          "(infinite travel times)", **ctx)
    ang = np.arctan2(want["vn"], want["ve"])
    d = np.abs((np.asarray(P.velocity_angle) - ang + np.pi) % (2 * np.pi) - np.pi)
    d[sp < 1e-6] = 0
    check(d.max() < 1e-4, "flow direction is not that of the flow components", **ctx)
    ct = ref.default_cell_type(want["depth"], 0.1)
    check(np.array_equal(P.cell_type, ct), "estimated cell types differ", **ctx)
    for n, v in (("dx", 3.0), ("theta", 1.0), ("gamma", 0.05), ("diff_coeff", 0.2),
                 ("dry_depth", 0.1), ("steepest_descent", False)):
        check(getattr(P, n) == v, "default of %s is not the documented one" % n,
              got=getattr(P, n), **ctx)
    check(P.walk_data is None and P.Np_tracer == 0, "new object already has particles",
          **ctx)
    st.sample({"fields": case["sub"], "model": model, "cells": shape[0] * shape[1]}, 1)


def base():
    L, W = 6, 7
    d = np.ones((L, W))
    d[2, 3] = 0.05
    d[3, 1] = 0.2
    d[4, 4] = 0.4
    return d


def run_opt(case, st):
    d = base()
    ct = np.ones(d.shape, dtype=int)
    ct[0] = -1
    roi = np.zeros(d.shape, dtype=int)
    roi[1:3] = 1
    for r in range(len(OPT) + 1):
        for sub in itertools.combinations(OPT, r):
            for diff, z in itertools.product(
                    (-0.5, 0.0, 0.7, 2.5) if "diff_coeff" in sub else (None,),
                    (False, True) if set(sub) & {"theta", "gamma", "dry_depth"} else
                    (False,)):
                p = pt.modelParams()
                p.dx, p.depth, p.stage = 2.0, d.copy(), d + 1
                p.u, p.v = np.full(d.shape, 0.5), np.full(d.shape, 0.25)
                given = {"theta": 0 if z else 1.2345678,
                         "gamma": 0.0 if z else 0.1234567,
                         "diff_coeff": diff, "dry_depth": 0 if z else 0.3000001,
                         "cell_type": ct.copy(), "roi_grid": roi,
                         "particle_variables": ["u", "depth"]}
                for n in sub:
                    setattr(p, n, given[n])
                if case["sd"] is not None:
                    p.steepest_descent = case["sd"]
                if case["vb"] is not None:
                    p.verbose = case["vb"]
                P = pt.Particles(p)
                st.transition()
                st.trace()
                st.state((sub, diff, z, case["sd"], case["vb"]))
                ctx = dict(given=sub, diff_coeff=diff, steepest=case["sd"],
                           verbose=case["vb"])
                sd = case["sd"] is True
                want = {"theta": float(given["theta"]) if "theta" in sub else 1.0,
                        "gamma": given["gamma"] if "gamma" in sub else 0.05,
                        "diff_coeff": max(diff, 0.0) if diff is not None else
                        (0.0 if sd else 0.2),
                        "dry_depth": given["dry_depth"] if "dry_depth" in sub else 0.1,
                        "steepest_descent": sd, "dx": 2.0}
                for n in want:
                    check(getattr(P, n) == want[n], "parameter %s: not the given value / "
                          "documented default" % n, got=getattr(P, n),
                          expected=want[n], **ctx)
                ect = ct if "cell_type" in sub else ref.default_cell_type(
                    d, want["dry_depth"])
                check(np.array_equal(P.cell_type, ect), "cell types differ", **ctx)
                if "roi_grid" in sub:
                    check(np.array_equal(P.roi_grid, roi), "roi grid differs", **ctx)
                P.generate_particles(1, [2], [2])
                tv = ["xinds", "yinds", "travel_times"]
                if "particle_variables" in sub:
                    tv += ["u", "depth"]
                if "roi_grid" in sub:
                    tv += ["roi_flag"]
                check(sorted(P.walk_data) == sorted(tv), "recorded variables differ",
                      got=sorted(P.walk_data), expected=sorted(tv), **ctx)


def run_geometry(st):
    """the D8 neighbourhood defaults, and user-supplied replacements being used"""
    d = base()

    def mk(**kw):
        p = pt.modelParams()
        p.dx, p.depth, p.stage = 2.0, d.copy(), d + 1
        p.u, p.v = np.full(d.shape, 0.5), np.full(d.shape, 0.25)
        for k in kw:
            setattr(p, k, kw[k])
        return pt.Particles(p)
    P = mk()
    for a in range(3):
        for b in range(3):
            di, dj = a - 1, b - 1
            dist = math.hypot(di, dj)
            st.transition()
            st.state(("d8", a, b))
            if not dist:
                check(P.iwalk[a, b] == 0 and P.jwalk[a, b] == 0, "centre of the D8 "
                      "window is a move")
                continue
            check(P.jwalk[a, b] == di and P.iwalk[a, b] == dj, "D8 step of a window "
                  "position is wrong", pos=(a, b))
            check(abs(P.distances[a, b] - dist) < 1e-9, "D8 distance is wrong",
                  pos=(a, b), got=P.distances[a, b])
            check(abs(P.ivec[a, b] - dj / dist) < 1e-9 and
                  abs(P.jvec[a, b] - di / dist) < 1e-9, "D8 unit vector is wrong",
                  pos=(a, b))
            t = math.atan2(-di, dj)
            e = (P.angles[a, b] - t + math.pi) % (2 * math.pi) - math.pi
            check(abs(e) < 1e-9, "D8 direction angle is wrong", pos=(a, b))
    st.trace()
    for n in ("distances", "ivec", "jvec", "iwalk", "jwalk", "angles"):
        val = np.asarray(getattr(P, n)) * 1.0 + 0.125
        Q = mk(**{n: val})
        st.trace()
        st.transition()
        check(np.array_equal(getattr(Q, n), val), "user-supplied %s is not used" % n)
        for m in ("distances", "ivec", "jvec", "iwalk", "jwalk", "angles"):
            if m != n:
                check(np.array_equal(getattr(Q, m), getattr(P, m)),
                      "supplying %s changed %s" % (n, m))


def run_errors(st):
    d = base()

    def mk(drop=(), **kw):
        p = pt.modelParams()
        p.dx, p.depth, p.stage = 2.0, d.copy(), d + 1
        p.u, p.v = np.full(d.shape, 0.5), np.full(d.shape, 0.25)
        for k in kw:
            setattr(p, k, kw[k])
        for k in drop:
            delattr(p, k)
        return pt.Particles(p)

    def rejects(f, what):
        st.transition()
        st.trace()
        st.state(what)
        try:
            f()
        except ValueError:
            return
        raise Violation("accepted although insufficient or invalid: " + what)
    rejects(lambda: mk(dx=None), "dx None")
    rejects(lambda: mk(drop=["dx"]), "dx missing")
    rejects(lambda: mk(depth="x"), "depth not an array")
    rejects(lambda: mk(stage="x"), "stage not an array")
    rejects(lambda: mk(depth=None), "no depth and no topography")
    rejects(lambda: mk(drop=["depth"]), "depth missing")
    rejects(lambda: mk(drop=["stage"]), "stage missing")
    rejects(lambda: mk(stage=None), "no stage and no topography")
    for n in ("u", "v"):
        rejects(lambda: mk(**{n: None}), n + " None")
        rejects(lambda: mk(**{n: None, "qx": d.copy()}), n + " None, only qx")
        rejects(lambda: mk(**{n: None, "qy": d.copy()}), n + " None, only qy")
    for sh in ((6, 6), (7, 6), (7, 7), (1, 7)):
        rejects(lambda: mk(roi_grid=np.ones(sh, dtype=int)), "roi %s" % (sh,))
    flow = [np.array([[-2, -1, 0, 1, 2, 3, 0]] * 6), np.array([[0], [1], [-3], [2], [0],
                                                             [1]]) * np.ones((1, 7), int)]
    dep = np.array([[1, 2, 0, 3, 1, 1, 2]] * 6)
    for m in (None, "DeltaRCM"):
        for names in (("qx", "qy"), ("u", "v")):
            ref_p = None
            for dt in (float, int, np.float32):
                p = pt.modelParams()
                p.dx, p.depth, p.stage = 2.0, dep.astype(dt), dep + 1.0
                if m:
                    p.model = m
                for n, x in zip(names, flow):
                    setattr(p, n, x.astype(dt))
                P = pt.Particles(p)
                st.trace()
                st.transition()
                st.state(("dtype", m, names, str(dt)))
                if ref_p is None:
                    ref_p = P
                for n in ("u", "v", "qx", "qy", "velocity", "depth", "stage"):
                    check(close(getattr(P, n), getattr(ref_p, n), tol=1e-5),
                          "result depends on the number type of the input", field=n,
                          dtype=str(dt), model=m, given=names)
    for m in ("x", "deltarcm", "ANUGA"):
        P = mk(model=m)
        Q = mk()
        st.trace()
        for n in ("u", "v", "qx", "qy", "velocity", "velocity_angle", "depth", "stage"):
            check(np.array_equal(getattr(P, n), getattr(Q, n), equal_nan=True),
                  "a model other than DeltaRCM is not treated like the default",
                  model=m, field=n)


def run_case(case, st):
    k = case["k"]
    if k == "fields":
        run_fields(case, st)
    elif k == "opt":
        run_opt(case, st)
    elif k == "geometry":
        run_geometry(st)
    else:
        run_errors(st)


def finish(total, tier):
    check(total.n.get("rejected", 0) > 0, "vacuous: no insufficient input")
