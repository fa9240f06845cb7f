"""C01: routing weights == documented formula, for all 3x3 neighbourhoods."""
import itertools

import numpy as np

from mc import dom, examples, ref
from mc.core import Violation, check

ID = "C01"
LEVEL = "model_checking"
ASSUMPTIONS = [
    "reference formula of mc/ref.py (cross-checked cell by cell against a second, "
    "plain-Python implementation in this run)",
    "wet centre cells only (a particle is never routed from a dry cell unless seeded "
    "there); wet cells have finite stage",
]
BOUNDS = {
    "quick": "2 alphabets of 4 neighbour states ^8 x 9 flow directions (rotating) x 16 "
             "(theta,gamma); small full grids 3..7 x 3..7; custom vectors/distances; "
             "one 130x90 domain; the example domains of the repository x 16 (theta,gamma); 105 combinations of magnitudes (depth 1e-4..8000 m, stage "
             "offsets and factors down to 1e-10, discharge 1e-9..1e4, dry_depth 0..30) x 9 "
             "(theta,gamma), theta -1..10",
    "thorough": "5 neighbour states ^8 x 9 flows x 6 (theta,gamma) plus all quick cases",
}

DRY = 0.1
# neighbour letters: (depth, stage, type); the centre has depth 1.0, stage 2.0
LETTERS = {
    "d": (0.0, 2.5, 2),      # dry
    "t": (DRY, 1.0, 0),      # exactly at the threshold, downhill
    "s": (0.5, 1.25, 0),     # shallow, downhill
    "h": (3.0, 2.75, 1),     # deep, uphill
    "L": (4.0, 1.5, 2),      # deep, downhill, but declared land
    "e": (1.0, 2.0, 0),      # level with the centre
    "f": (2.0, 1.75, 0),     # deep, slightly downhill
}
FLOWS = [(0.0, 0.0), (1.0, 0.0), (1.0, 1.0), (0.0, 2.0), (-1.0, 0.5), (-1.0, 0.0),
         (-0.3, -1.0), (0.0, -1.0), (2.0, -2.0)]
TG = [(t, g) for t in (0.0, 0.5, 1.0, 2.0) for g in (0.0, 0.05, 0.5, 1.0)]
# magnitudes: (depth factor, stage offset, stage factor, discharge factor, dry_depth)
SCALES = [(a, b, c, d, e) for a, e in ((1.0, 0.1), (1.0, 0.0), (100.0, 0.1), (100.0, 30.0),
                                       (1e-3, 1e-4), (1e-3, 0.0), (4000.0, 0.5))
          for b, c in ((0.0, 1.0), (2000.0, 1.0), (-50.0, 1e-2), (0.0, 1e3), (0.0, 1e-10))
          for d in (1.0, 1e-6, 1e4)]
TG2 = [(0.01, 0.001), (3.0, 0.999), (10.0, 0.3), (1.0, 0.05), (0.0, 0.0), (0.0, 1.0),
       (1.7, 0.97), (-1.0, 0.3), (-0.5, 0.0)]
SIDE = 48       # stencils per side of a tiled domain


def cases(tier):
    for L, W in itertools.product(range(3, 8), repeat=2):
        yield {"kind": "grid", "L": L, "W": W, "n": 24}
    for v in range(12):
        yield {"kind": "custom", "variant": v}
    for v in range(len(SCALES)):
        yield {"kind": "scale", "v": v}
    yield {"kind": "grid", "L": 130, "W": 90, "n": 3}
    yield {"kind": "grid", "L": 40, "W": 201, "n": 2}
    for name in examples.NAMES:
        for m in range(4):
            yield {"kind": "example", "name": name, "m": m}
    per = SIDE * SIDE
    for alpha in ("dtsh", "sLde"):
        tot = 4 ** 8
        for start in range(0, tot, per):
            yield {"kind": "tile", "alpha": alpha, "start": start, "flowmul": 1,
                   "tg": TG}
    if tier == "thorough":
        for alpha in ("dshLe", "tsfLh"):
            for start in range(0, 5 ** 8, per):
                for fl in range(9):
                    yield {"kind": "tile", "alpha": alpha, "start": start,
                           "flow": fl, "tg": [TG[i] for i in (0, 1, 6, 7, 9, 15)]}


_VEC = None


def _hash_rows(P):
    global _VEC
    if _VEC is None:
        _VEC = np.array([dom.h64(k, 99) | 1 for k in range(9)], dtype=np.uint64)
    q = np.round(P * 2 ** 30).astype(np.uint64)
    return (q * _VEC).sum(axis=1, dtype=np.uint64)


def compare(W, f, ct, theta, gamma, dry, st, what, dist=None, east=None, north=None,
            spot=True):
    P = ref.probabilities(f.depth, f.stage, f.qe, f.qn, ct, theta, gamma, dry,
                          dist, east, north)
    W = np.array(W, float)
    check(W.shape == P.shape, "weights have shape %s" % (W.shape,), what=what)
    W = np.where(np.isnan(W), 0.0, W)
    border = np.ones(f.depth.shape, bool)
    border[1:-1, 1:-1] = False
    check(not W[border].any(), "border cell has routing weight", what=what)
    sel = (f.depth > dry) & (ct != 2) & ~border
    w, p = W[sel], P[sel]
    if (w < 0).any():
        raise Violation("negative routing weight", what=what)
    t = w.sum(axis=1)
    n = np.where(t[:, None] > 0, w / np.where(t > 0, t, 1)[:, None], 0.0)
    err = np.abs(n - p).max(axis=1) if len(p) else np.zeros(0)
    # land and dry cells must have weight exactly 0
    forb = np.zeros(P.shape, bool)
    for k, (dr, dc) in enumerate(ref.OFFS):
        forb[:, :, k] = ~((ref.shifted(f.depth, dr, dc, 0.0) > dry)
                          & (ref.shifted(ct, dr, dc, 2) != 2))
    zero = ((forb[sel] & (w != 0)) | ((p == 0) & (n > 1e-12))).any(axis=1)
    bad = np.flatnonzero((err > 1e-7) | zero)
    if len(bad):
        idx = np.argwhere(sel)[bad[0]]
        i, j = int(idx[0]), int(idx[1])
        win = (slice(i - 1, i + 2), slice(j - 1, j + 2))
        raise Violation(
            "routing weights of a cell differ from the documented formula",
            what=what, cell=[i, j], theta=theta, gamma=gamma, dry_depth=dry,
            depth=f.depth[win], stage=f.stage[win], cell_type=np.array(ct)[win],
            flow_east=f.qe[i, j], flow_north=f.qn[i, j],
            got=n[bad[0]], expected=p[bad[0]], cells_wrong=int(len(bad)))
    st.transition(int(len(p)))
    st.trace()
    st.sets.setdefault("states", set()).update(np.unique(_hash_rows(p)).tolist())
    if spot:
        # cross-check the vectorised reference against the plain-Python one
        cells = np.argwhere(sel)
        for i, j in cells[::max(1, len(cells) // 12)]:
            q = ref.probabilities_cell(f.depth, f.stage, f.qe, f.qn, ct, theta, gamma,
                                       dry, i, j)
            if max(abs(a - b) for a, b in zip(q, P[i, j])) > 1e-9:
                raise RuntimeError("reference implementations disagree")
            st.add("reference_crosschecks")
    return n


def build(f, ct, theta, gamma, dry, model=None, vel=False, dtype=float, **kw):
    if vel:
        fl = dict(ve=f.ve, vn=f.vn)
    else:
        fl = dict(qe=f.qe, qn=f.qn)
    return dom.particles(depth=f.depth.astype(dtype).copy(), stage=f.stage.copy(),
                         theta=theta, gamma=gamma, dry_depth=dry, cell_type=ct,
                         model=model, **fl, **kw)


def run_case(case, st):
    kind = case["kind"]
    if kind == "tile":
        alpha, start = case["alpha"], case["start"]
        a = len(alpha)
        n = SIDE
        depth = np.zeros((3 * n, 3 * n))
        stage = np.zeros((3 * n, 3 * n))
        ct = np.zeros((3 * n, 3 * n), int)
        qe = np.zeros((3 * n, 3 * n))
        qn = np.zeros((3 * n, 3 * n))
        tab = np.array([LETTERS[c] for c in alpha])
        idx = (start + np.arange(n * n)) % a ** 8
        nb = [0, 1, 2, 3, 5, 6, 7, 8]
        rem = idx.copy()
        for k in range(9):
            r, c = k // 3, k % 3
            if k == 4:
                vals = np.tile(np.array([1.0, 2.0, 1]), (n * n, 1))
            else:
                d = rem % a
                rem = rem // a
                vals = tab[d]
            depth[r::3, c::3] = vals[:, 0].reshape(n, n)
            stage[r::3, c::3] = vals[:, 1].reshape(n, n)
            ct[r::3, c::3] = vals[:, 2].reshape(n, n)
        if "flow" in case:
            fi = np.full(n * n, case["flow"])
        else:
            fi = (idx + idx // 9 + idx // 81) % 9
        fe = np.array([x[0] for x in FLOWS])[fi].reshape(n, n)
        fn = np.array([x[1] for x in FLOWS])[fi].reshape(n, n)
        for r in range(3):
            for c in range(3):
                qe[r::3, c::3] = fe
                qn[r::3, c::3] = fn
        f = ref.Fields(depth, stage, qe, qn)
        for m, (theta, gamma) in enumerate(case["tg"]):
            p = build(f, ct, theta, gamma, DRY, model=["DeltaRCM", None][m % 2],
                      steepest_descent=(True if m % 5 == 4 else None))
            compare(p.weight, f, ct, theta, gamma, DRY, st,
                    {"tile": alpha, "start": start})
        st.sample({"kind": "tile", "alphabet": {c: LETTERS[c] for c in alpha},
                   "stencils": [int(idx[0]), int(idx[-1])], "flows": FLOWS}, 1)
    elif kind == "grid":
        L, W = case["L"], case["W"]
        for s in range(case["n"]):
            dry = [0.1, 0.3, 0.01][s % 3]
            depth = dom.field(L, W, 11 * s + 1, [0.0, dry, dry / 2, 0.5, 1.0, 1.5, 4.0,
                                                 2.0, dry * 1.0000001])
            stage = dom.field(L, W, 11 * s + 2, [0.0, 1.0, 1.5, 2.0, -1.0, 0.25, 1e-3])
            qe = dom.field(L, W, 11 * s + 3, [0.0, 1.0, -1.0, 0.5, 3.0, -0.2])
            qn = dom.field(L, W, 11 * s + 4, [0.0, 1.0, -1.0, 0.7, -2.0, 0.1])
            theta, gamma = TG[(5 * s + L + W) % 16]
            f = ref.Fields(depth, stage, qe, qn)
            if s % 2:
                ct = ref.default_cell_type(f.depth, dry)
                given = None
            else:
                ct = dom.field(L, W, 11 * s + 5, [0, 1, 2, 1, 0, 2, -1, 1]).astype(int)
                given = ct
            p = build(f, given, theta, gamma, dry, model=[None, "DeltaRCM"][s // 2 % 2],
                      vel=(s % 3 == 1))
            if s % 3 == 1:
                f = ref.Fields(depth, stage, ve=f.ve, vn=f.vn)
            compare(p.weight, f, ct, theta, gamma, dry, st,
                    {"grid": [L, W], "n": s})
        st.sample({"kind": "grid", "L": L, "W": W}, 1)
    elif kind == "example":
        depth, stage, qe, qn = examples.load(case["name"])
        f = ref.Fields(depth, stage, qe, qn)
        for m in range(case["m"], len(TG), 4):
            theta, gamma = TG[m]
            dry = [None, 0.01, 1.0][m % 3]
            p = examples.particles(case["name"], [None, "DeltaRCM"][m % 2], theta=theta,
                                   gamma=gamma, dry_depth=dry, dx=50.0)
            dry = dry or 0.1
            ct = ref.default_cell_type(f.depth, dry)
            compare(p.weight, f, ct, theta, gamma, dry, st, {"example": case["name"]})
    elif kind == "scale":
        fd, so, sf, fq, dry = SCALES[case["v"]]
        L, W = 11, 12
        for s in range(len(TG2)):
            k = 13 * case["v"] + s
            depth = fd * dom.field(L, W, k + 1, [1.0, 0.5, 2.0, 0.999, 0.0, 0.11, 1.5])
            stage = so + sf * dom.field(L, W, k + 2, [0.0, 1.0, 0.5, 0.001, -1.0, 2.0])
            qe = fq * dom.field(L, W, k + 3, [0.0, 1.0, -1.0, 0.5, 1e-3, -2.0])
            qn = fq * dom.field(L, W, k + 4, [0.0, 1.0, -1.0, 0.7, -1e-3, 3.0])
            theta, gamma = TG2[s]
            f = ref.Fields(depth, stage, qe, qn)
            ct = np.where(f.depth <= dry, 2, (k + np.arange(L)[:, None]) % 2)
            p = build(f, ct, theta, gamma, dry, model=[None, "DeltaRCM"][s % 2])
            compare(p.weight, f, ct, theta, gamma, dry, st, {"scale": SCALES[case["v"]]})
    else:
        v = case["variant"]
        L, W = 9, 8
        east = np.array([[dc / np.hypot(dr, dc) if (dr or dc) else 0 for dc in (-1, 0, 1)]
                         for dr in (-1, 0, 1)])
        north = np.array([[-dr / np.hypot(dr, dc) if (dr or dc) else 0
                           for dc in (-1, 0, 1)] for dr in (-1, 0, 1)])
        for s in range(6):
            depth = dom.field(L, W, s + 21, [1.0, 2.0, 3.0, 0.0, 1.0])
            stage = dom.field(L, W, s + 22, [3.0, 1.0, 2.0, 4.0])
            qe = dom.field(L, W, s + 23, [1.0, 2.0, -1.0, 0.0])
            qn = dom.field(L, W, s + 24, [0.0, 4.0, -5.0, 3.0])
            theta, gamma = TG[(v + 3 * s) % 16]
            f = ref.Fields(depth, stage, qe, qn)
            kw, dist, e, n = {}, None, None, None
            if v % 4 == 0:
                dist = np.array([[1.5, 1.0, 1.5], [1.0, 1.0, 1.0], [1.5, 1.0, 1.5]])
                kw["distances"] = dist
            elif v % 4 == 1:
                e, n = east * 1.0, north * 1.0
                e[0, 0] = e[2, 0] = -1.0
                kw["ivec"] = e
            elif v % 4 == 2:
                e, n = east * 1.0, north * 1.0
                n[0, 0] = n[0, 2] = 1.0
                kw["jvec"] = -n
            else:
                dist = np.array([[1.0, 2.0, 1.0], [3.0, 1.0, 0.5], [4.0, 1.0, 1.0]])
                e, n = east * 2.0, north * 1.0
                kw = {"distances": dist, "ivec": e, "jvec": -n}
            ct = ref.default_cell_type(f.depth, 0.1)
            # integer and single-precision inputs are accepted as well
            dt = [float, int, np.float32][(v // 4) % 3]
            if dt is float:
                p = build(f, None, theta, gamma, 0.1, **kw)
            else:
                p = dom.particles(depth=depth.astype(dt),
                                  stage=stage.astype(np.float32 if dt is np.float32
                                                     else float),
                                  qe=qe.astype(dt), qn=qn.astype(dt), theta=theta,
                                  gamma=gamma, dry_depth=0.1, **kw)
            if dt is np.float32:
                # single precision: same choice set, values to 1e-5
                W9 = np.nan_to_num(np.array(p.weight, float))
                P = ref.probabilities(f.depth, f.stage, f.qe, f.qn, ct, theta, gamma,
                                      0.1, dist, e, n)
                sel = (f.depth > 0.1) & (ct != 2)
                sel[0] = sel[-1] = False
                sel[:, 0] = sel[:, -1] = False
                w = W9[sel]
                w = w / w.sum(axis=1, keepdims=True)
                check(np.abs(w - P[sel]).max() < 1e-5, "single-precision weights differ",
                      variant=v, s=s)
                st.transition(int(sel.sum()))
            else:
                compare(p.weight, f, ct, theta, gamma, 0.1, st, {"custom": v, "n": s},
                        dist, e, n, spot=False)
