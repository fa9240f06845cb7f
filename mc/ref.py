"""Reference model of dorado, written from its documentation (docs/source/background,
userguide, docstrings), independently of the implementation's algorithms.

Geographic frame: rows count southwards, columns eastwards.  A flow is given by its
eastward and northward components.  Neighbours are numbered 0..8 row by row
(NW N NE / W C E / SW S SE), as in the documentation of random_pick.
"""
from math import atan2, cos, pi, sqrt

import numpy as np

R2 = sqrt(2.0)
OFFS = [(-1, -1), (-1, 0), (-1, 1), (0, -1), (0, 0), (0, 1), (1, -1), (1, 0), (1, 1)]
DIST = np.array([[R2, 1, R2], [1, 1, 1], [R2, 1, R2]])
# unit vectors of the eight directions (east, north)
UNIT = [((dc / sqrt(dr * dr + dc * dc), -dr / sqrt(dr * dr + dc * dc))
         if (dr, dc) != (0, 0) else (0.0, 0.0)) for dr, dc in OFFS]
ANGLE = [atan2(-dr, dc) if (dr, dc) != (0, 0) else 0.0 for dr, dc in OFFS]
VMIN = 1e-8


def shifted(a, dr, dc, fill):
    """b[i, j] = a[i+dr, j+dc], fill outside."""
    L, W = a.shape
    b = np.full((L, W), fill, dtype=float)
    i0, i1 = max(0, -dr), min(L, L - dr)
    j0, j1 = max(0, -dc), min(W, W - dc)
    b[i0:i1, j0:j1] = a[i0 + dr:i1 + dr, j0 + dc:j1 + dc]
    return b


def default_cell_type(depth, dry):
    ct = np.where(depth < dry, 2, 0)
    ct[0, :] = ct[-1, :] = -1
    ct[:, 0] = ct[:, -1] = -1
    return ct


def probabilities(depth, stage, qe, qn, ct, theta, gamma, dry, dist=None,
                  east=None, north=None):
    """Probability of going to each of the 9 cells of the window, for every cell.

    Returns P (L, W, 9); zero on the grid border.  Meaningful for cells that are wet
    (depth > dry) and not land.
    """
    L, W = depth.shape
    dist = DIST if dist is None else np.asarray(dist, float)
    S = np.zeros((L, W, 9))
    F = np.zeros((L, W, 9))
    D = np.zeros((L, W, 9))
    land = np.zeros((L, W, 9), bool)
    ok = np.zeros((L, W, 9), bool)
    for k, (dr, dc) in enumerate(OFFS):
        h = shifted(depth, dr, dc, 0.0)
        t = shifted(ct, dr, dc, 2)
        D[:, :, k] = h
        land[:, :, k] = (t == 2)
        ok[:, :, k] = (h > dry) & (t != 2)
        if k == 4:
            continue
        d = dist[k // 3, k % 3]
        e, n = UNIT[k]
        if east is not None:
            e = np.asarray(east)[k // 3, k % 3]
        if north is not None:
            n = np.asarray(north)[k // 3, k % 3]
        with np.errstate(invalid="ignore"):
            s = (stage - shifted(stage, dr, dc, np.nan)) / d
            S[:, :, k] = np.where(ok[:, :, k] & (s > 0), s, 0.0)
            f = (qe * e + qn * n) / d
            F[:, :, k] = np.where(ok[:, :, k] & (f > 0), f, 0.0)
    for A in (S, F):
        t = A.sum(axis=2)
        with np.errstate(invalid="ignore", divide="ignore"):
            A[:] = np.where(t[:, :, None] > 0, A / t[:, :, None], 0.0)
    w = (gamma * S + (1.0 - gamma) * F)
    w = np.where(w > 0, np.power(np.where(ok, D, 1.0), theta) * w, 0.0)
    t = w.sum(axis=2)
    dead = ~(t > 0)
    deepest = np.where(land, -np.inf, D).max(axis=2)
    pick = (~land) & (D == deepest[:, :, None])
    w = np.where(dead[:, :, None], pick.astype(float), w)
    t = w.sum(axis=2)
    P = np.where(t[:, :, None] > 0, w / np.where(t > 0, t, 1.0)[:, :, None], 0.0)
    P[0, :] = P[-1, :] = 0
    P[:, 0] = P[:, -1] = 0
    return P


def probabilities_cell(depth, stage, qe, qn, ct, theta, gamma, dry, i, j):
    """The same for one interior cell, in plain Python (cross-check of the above)."""
    s, f, out = {}, {}, [0.0] * 9
    for k, (dr, dc) in enumerate(OFFS):
        r, c = i + dr, j + dc
        if k == 4 or ct[r][c] == 2 or not depth[r][c] > dry:
            continue
        d = R2 if dr and dc else 1.0
        s[k] = max(0.0, (stage[i][j] - stage[r][c]) / d)
        f[k] = max(0.0, (qe[i][j] * UNIT[k][0] + qn[i][j] * UNIT[k][1]) / d)
    ts, tf = sum(s.values()), sum(f.values())
    for k in s:
        a = s[k] / ts if ts > 0 else 0.0
        b = f[k] / tf if tf > 0 else 0.0
        out[k] = depth[i + OFFS[k][0]][j + OFFS[k][1]] ** theta * (
            gamma * a + (1 - gamma) * b)
    if not sum(out) > 0:
        cand = [k for k, (dr, dc) in enumerate(OFFS) if ct[i + dr][j + dc] != 2]
        best = max(depth[i + OFFS[k][0]][j + OFFS[k][1]] for k in cand)
        out = [1.0 if k in cand and depth[i + OFFS[k][0]][j + OFFS[k][1]] == best
               else 0.0 for k in range(9)]
    t = sum(out)
    return [x / t for x in out]


def steepest(P):
    """Distribution over the window for steepest descent, for one cell."""
    p = list(P)
    p[4] = 0.0
    m = max(p)
    if not m > 0:
        return [1.0 if k == 4 else 0.0 for k in range(9)]
    q = [1.0 if x >= m * (1 - 1e-12) else 0.0 for x in p]
    t = sum(q)
    return [x / t for x in q]


class Fields(object):
    """Flow fields derived from complete, finite user inputs."""

    def __init__(self, depth, stage, qe=None, qn=None, ve=None, vn=None):
        self.depth = np.nan_to_num(np.array(depth, float), nan=0.0)
        self.stage = np.array(stage, float)
        self.stage[self.depth == 0] = np.nan
        h = self.depth
        if qe is not None:
            self.qe = np.nan_to_num(np.array(qe, float), nan=0.0)
            self.qn = np.nan_to_num(np.array(qn, float), nan=0.0)
            with np.errstate(all="ignore"):
                self.ve = np.where(h != 0, self.qe / np.where(h != 0, h, 1), 0.0)
                self.vn = np.where(h != 0, self.qn / np.where(h != 0, h, 1), 0.0)
        else:
            self.ve = np.nan_to_num(np.array(ve, float), nan=0.0)
            self.vn = np.nan_to_num(np.array(vn, float), nan=0.0)
            self.qe = self.ve * h
            self.qn = self.vn * h
        self.speed = np.maximum(np.sqrt(self.ve ** 2 + self.vn ** 2), VMIN)
        self.angle = np.arctan2(self.vn, self.ve)

    def step_time(self, cell, k, dx, diff=0.0, u=0.5, dist=None):
        dist = DIST if dist is None else np.asarray(dist, float)
        if k == 4:
            return 0.0
        i, j = cell
        r, c = i + OFFS[k][0], j + OFFS[k][1]
        proj = max(0.0, cos(ANGLE[k] - self.angle[i, j]))
        return (0.5 * dist[k // 3, k % 3] * dx * proj
                * (1.0 / self.speed[i, j] + 1.0 / self.speed[r, c])
                * (1.0 + diff * (0.5 - u)))


def frozen(ct, i, j):
    L, W = len(ct), len(ct[0])
    return any(ct[r][c] == -1 for r in range(max(0, i - 1), min(L, i + 2))
               for c in range(max(0, j - 1), min(W, j + 2)))
