"""C16: chunked exposure: all grid shapes, resolution factors, start cells and masks."""
import itertools

import numpy as np

import dorado.spatial as sp
from mc import dom
from mc.core import Violation, check

ID = "C16"
LEVEL = "model_checking"
ASSUMPTIONS = ["the resolution factor does not exceed the grid (otherwise there is no "
               "chunk)", "celltype marks the region with 1; other values are outside"]
BOUNDS = {
    "quick": "all grids 1..6 x 1..6 and all resolution factors: one particle per start "
             "cell walking 3 cells, with full/hashed masks; all 2^9 masks on 3x3 and all "
             "2^8 on 4x2 and 2x4; all pairs and triples of starts on 4x5; long grids",
    "thorough": "grids to 9x9, all 2^12 masks of 4x3 and 3x4, all triples on 5x5",
}
FINDING = "inclusive-chunk-bounds"


def cases(tier):
    m = 6 if tier == "quick" else 9
    for L in range(1, m + 1):
        for W in range(1, m + 1):
            yield {"k": "grid", "L": L, "W": W}
    shapes = [(3, 3), (4, 2), (2, 4)] + ([] if tier == "quick" else [(4, 3), (3, 4)])
    for L, W in shapes:
        for part in range(8):
            yield {"k": "masks", "L": L, "W": W, "part": part}
    yield {"k": "pairs", "L": 4, "W": 5, "n": 2}
    for part in range(8):
        yield {"k": "pairs", "L": 4, "W": 5, "n": 3, "part": part} if tier == "quick" \
            else {"k": "pairs", "L": 5, "W": 5, "n": 3, "part": part}
    for L, W in ((11, 3), (3, 13), (12, 17)):
        yield {"k": "grid", "L": L, "W": W}


def exposure(xs, ys, ts, g):
    t = 0.0
    for a in range(1, len(xs)):
        t += (ts[a] - ts[a - 1]) * (g[xs[a], ys[a]] + g[xs[a - 1], ys[a - 1]]) / 2.0
    return t


def expected(wd, mask, f, local, inclusive):
    L, W = mask.shape
    nr, nc = L // f, W // f
    out = []
    for r in range(nr):
        for c in range(nc):
            r0, c0 = r * f, c * f
            r1 = L if r == nr - 1 else r0 + f
            c1 = W if c == nc - 1 else c0 + f
            sub = np.zeros_like(mask)
            sub[r0:r1, c0:c1] = mask[r0:r1, c0:c1]
            if not sub.any():
                out.append(None)
                continue
            g = sub if local else mask
            e = []
            for xs, ys, ts in zip(wd["xinds"], wd["yinds"], wd["travel_times"]):
                x, y = xs[0], ys[0]
                if inclusive:
                    there = r0 <= x <= r1 and c0 <= y <= c1
                else:
                    there = (min(x // f, nr - 1), min(y // f, nc - 1)) == (r, c)
                if there:
                    e.append(exposure(xs, ys, ts, g))
            out.append(e)
    return out


def agree(got, exp):
    if not isinstance(got, list) or len(got) != len(exp):
        return False
    for g, e in zip(got, exp):
        if e is None:
            if not (isinstance(g, float) and g != g):
                return False
        elif not isinstance(g, (list, np.ndarray)) or len(g) != len(e) or any(
                abs(a - b) > 1e-9 * max(1, abs(b)) for a, b in zip(g, e)):
            return False
    return True


def compare(wd, mask, celltype, elev, f, st):
    for local, fn in ((False, sp.systemwide), (True, sp.localized)):
        got = fn(wd, elev, celltype, f)
        want = expected(wd, mask, f, local, False)
        st.transition(len(want))
        st.trace()
        if agree(got, want):
            continue
        name = fn.__name__
        if agree(got, expected(wd, mask, f, local, True)):
            st.known(FINDING, "%s counts a particle that starts on the first row/column "
                     "of a chunk in the chunk before as well" % name)
            continue
        raise Violation("%s: exposure times of the chunks are wrong" % name, got=got,
                        expected=want, shape=mask.shape, resolution_factor=f, region=mask,
                        x=wd["xinds"], y=wd["yinds"], times=wd["travel_times"])


def path(i, j, L, W, s):
    """a walk of up to four cells from (i, j)"""
    xs, ys, ts = [i], [j], [0.0]
    for n in range(dom.h64(i, j, s) % 4):
        h = dom.h64(i, j, s, n)
        x = min(max(xs[-1] + h % 3 - 1, 0), L - 1)
        y = min(max(ys[-1] + (h // 3) % 3 - 1, 0), W - 1)
        xs.append(int(x))
        ys.append(int(y))
        ts.append(ts[-1] + 1.0 + (h // 9) % 5)
    return xs, ys, ts


def walks(cells, L, W, s):
    p = [path(i, j, L, W, s + k) for k, (i, j) in enumerate(cells)]
    return {"xinds": [x[0] for x in p], "yinds": [x[1] for x in p],
            "travel_times": [x[2] for x in p]}


def types(mask, s):
    """a celltype array in which exactly the mask is 1"""
    other = dom.field(mask.shape[0], mask.shape[1], s, [0, 2, -1, 0]).astype(int)
    return np.where(mask == 1, 1, other)


def run_case(case, st):
    L, W = case["L"], case["W"]
    cells = [(i, j) for i in range(L) for j in range(W)]
    elev = dom.field(L, W, 5, [0.0, -1.5, 2.0])
    if case["k"] == "grid":
        for f in range(1, min(L, W) + 1):
            for m in range(6):
                mask = [np.ones((L, W), int), dom.field(L, W, m, [0, 1]).astype(int),
                        dom.field(L, W, m, [0, 0, 0, 1]).astype(int),
                        np.zeros((L, W), int),
                        (np.add.outer(np.arange(L), np.arange(W)) % 2),
                        (np.arange(L * W).reshape(L, W) > L * W // 2).astype(int)][m]
                wd = walks(cells, L, W, m)
                if m % 2:
                    for k in wd:
                        wd[k].reverse()
                    wd["depth"] = [[1.0] * len(x) for x in wd["xinds"]]
                compare(wd, mask, types(mask, m), elev if m % 3 else elev.astype(int), f,
                        st)
                # each start alone: which chunks it appears in
                if L * W <= 20 or m == 0:
                    for c in cells:
                        compare(walks([c], L, W, m), mask, types(mask, m), elev, f, st)
                        st.state((L, W, f, m, c))
    elif case["k"] == "masks":
        for b in range(case["part"], 1 << (L * W), 8):
            mask = np.array([b >> n & 1 for n in range(L * W)]).reshape(L, W)
            wd = walks(cells, L, W, b)
            for f in range(1, min(L, W) + 1):
                compare(wd, mask, types(mask, b), elev, f, st)
            st.state((L, W, b))
    else:
        mask = dom.field(L, W, 3, [1, 1, 0, 1]).astype(int)
        for n, tup in enumerate(itertools.product(cells, repeat=case["n"])):
            if "part" in case and n % 8 != case["part"]:
                continue
            wd = walks(tup, L, W, 7)
            for f in ((2,) if case["n"] == 3 else (1, 2, 3)):
                compare(wd, mask, types(mask, 1), elev, f, st)
            st.state((L, W, tup))
    st.sample({"case": case}, 1)
