"""Builders for dorado inputs used by the checks."""
import numpy as np

import dorado.particle_track as pt

ORDER = ("depth", "stage", "topography", "qx", "qy", "u", "v")


def params(qe=None, qn=None, ve=None, vn=None, model=None, as_array=np.array, **kw):
    """modelParams from geographic flow components (converted to the convention of
    `model`: default = x right / y up, 'DeltaRCM' = down the rows / right)."""
    p = pt.modelParams()
    p.dx = kw.pop("dx", 1.0)

    def put(xname, yname, e, n):
        if e is None:
            return
        e, n = as_array(e), as_array(n)
        if model == "DeltaRCM":
            setattr(p, xname, -n)
            setattr(p, yname, e)
        else:
            setattr(p, xname, e)
            setattr(p, yname, n)
    put("qx", "qy", qe, qn)
    put("u", "v", ve, vn)
    if model is not None:
        p.model = model
    for k, v in kw.items():
        if v is None:
            continue
        if k in ORDER or k in ("cell_type", "roi_grid"):
            v = as_array(v) if not isinstance(v, np.ndarray) else v
        setattr(p, k, v)
    return p


def particles(**kw):
    return pt.Particles(params(**kw))


def basin(L, W, depth=1.0, ring=True):
    """Wet basin of constant depth with a dry ring (so that the default cell types
    put no edge cell next to the interior) inside a border of edge cells."""
    d = np.full((L, W), 0.0)
    if ring:
        d[2:-2, 2:-2] = depth
    else:
        d[:] = depth
    return d


def h64(*xs):
    """Small deterministic mixing hash (for enumerating varied fields)."""
    h = 1469598103934665603
    for x in xs:
        h = ((h ^ (int(x) & 0xffffffffffff)) * 1099511628211) % 2 ** 64
        h ^= h >> 29
    return h


def field(L, W, seed, values):
    return np.array([[values[h64(seed, i, j, 7) // 3 % len(values)] for j in range(W)]
                     for i in range(L)], dtype=float)
