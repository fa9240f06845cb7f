"""The example domains that come with dorado (copies, so that the checks do not depend on
where they are kept): real hydrodynamic output, with missing values, dry cells, level
water surfaces and single-precision fields."""
import os
import warnings

import numpy as np

from mc import dom

HERE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "data")
NAMES = ("anuga", "deltarcm", "deltarcm still")


def load(name):
    """depth, stage, flow east, flow north - in the precision they are stored in"""
    f = "ex_anuga_data.npz" if name == "anuga" else "ex_deltarcm_data.npz"
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with np.load(os.path.join(HERE, f)) as d:
            d = {k: d[k] for k in d.files}
    if name == "anuga":
        return d["depth"], np.copy(d["depth"]), d["qx"], d["qy"]
    if name == "deltarcm":
        return d["depth"], d["stage"], d["qy"], -d["qx"]
    z = np.zeros(d["depth"].shape)
    return d["depth"], d["stage"], z, z


def particles(name, model=None, **kw):
    depth, stage, e, n = load(name)
    return dom.particles(depth=depth, stage=stage, qe=e, qn=n, model=model, **kw)
