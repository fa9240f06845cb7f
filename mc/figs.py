"""Reading what a matplotlib figure shows, at the moment it is saved."""
import os

import matplotlib
matplotlib.use("Agg")
import matplotlib.collections as mcol
import matplotlib.figure as mfig
import matplotlib.image as mimg
import matplotlib.pyplot as plt
import numpy as np


class capture(object):
    """with capture(read) as c: every figure save calls read(fig) and creates an empty
    file instead of rendering; c.saved = [(path, result of read)]."""

    def __init__(self, read=None, real=False):
        self.read, self.real = read, real
        self.saved = []

    def __enter__(self):
        self.old = mfig.Figure.savefig
        cap = self

        def savefig(fig, fname, *a, **k):
            cap.saved.append((os.path.abspath(str(fname)),
                              cap.read(fig) if cap.read else None))
            if cap.real:
                return cap.old(fig, fname, *a, **k)
            with open(fname, "wb"):
                pass
        mfig.Figure.savefig = savefig
        return self

    def __exit__(self, *a):
        mfig.Figure.savefig = self.old
        plt.close("all")
        return False


def pixel_map(im):
    """(x of column 0, dx per column, y of row 0, dy per row) of an AxesImage"""
    A = np.asarray(im.get_array())
    L, W = A.shape[:2]
    x0, x1, y0, y1 = im.get_extent()
    dx = (x1 - x0) / W
    if im.origin == "upper":
        dy = (y0 - y1) / L
        top = y1
    else:
        dy = (y1 - y0) / L
        top = y0
    return x0 + dx / 2, dx, top + dy / 2, dy


def images(fig):
    """[(axes, array, clim, pixel map)] of the images of a figure, bottom first"""
    out = []
    for ax in fig.axes:
        ims = [c for c in ax.get_children() if isinstance(c, mimg.AxesImage)
               and c.get_visible()]
        ims.sort(key=lambda c: c.zorder)
        for im in ims:
            out.append((ax, np.ma.filled(np.ma.array(im.get_array(), dtype=float),
                                         np.nan).copy(), im.get_clim(), pixel_map(im)))
    return out


def shows(img, grid, unit=True):
    """does the image show the grid, cell (row i, column j) at x=j, y=i?"""
    ax, A, clim, (px, dx, py, dy) = img
    G = np.asarray(grid, float)
    if A.shape != G.shape:
        return False
    if not np.array_equal(A, G, equal_nan=True):
        # an equivalent drawing: rows and/or columns reversed with a reversed map
        return False
    ok = abs(px) < 1e-9 and abs(py) < 1e-9 and abs(dx - 1) < 1e-9 and abs(dy - 1) < 1e-9
    return ok or not unit


def scatters(ax):
    """[(offsets as [(x, y)...], array or None, facecolors)]"""
    out = []
    for c in ax.get_children():
        if isinstance(c, mcol.PathCollection):
            off = np.ma.filled(np.ma.array(c.get_offsets(), dtype=float), np.nan)
            arr = c.get_array()
            out.append(([(float(a), float(b)) for a, b in off],
                        None if arr is None else [float(v) for v in arr],
                        np.asarray(c.get_facecolors()).tolist(), c))
    return out


def lines(ax):
    """[(x, y, drawstyle, colour)] of the data lines of an axes"""
    return [(np.asarray(l.get_xdata(orig=True), float),
             np.asarray(l.get_ydata(orig=True), float), l.get_drawstyle(), l)
            for l in ax.get_lines()]


def linecolls(ax):
    return [c for c in ax.get_children() if isinstance(c, mcol.LineCollection)]
