"""C27: what the map figures show, for all small walk data and options."""
import itertools
import os
import shutil

import matplotlib
import matplotlib.animation as animation
import matplotlib.colors as mcolors
import matplotlib.image as mimg
import numpy as np

import dorado.routines as rt
import dorado.spatial as sp
from mc import dom, figs
from mc.core import check

plt = figs.plt
ID = "C27"
LEVEL = "model_checking"
ASSUMPTIONS = ["figures are read from their artists; a tail segment spans `interval` "
               "iterations and the newest one ends at the position with index "
               "(iteration - 1)",
               "animate_plots is run with a stand-in for the ffmpeg writer (not installed), "
               "which records the frames shown",
               "colours are checked only where they carry data (heat map, tails)"]
BOUNDS = {
    "quick": "walk data: all length vectors of 1..3 particles with lengths 1..4 (84), "
             "every iteration and time; paths: every ordered subset of up to 3 particles x intervals 1..3; "
             "tails: lengths to 14, intervals 1..4, tails 1..4, steps 1..5; heat maps: 60 "
             "grids x options; panels: 9 grid pairs; animations: all ranges within 5 frames",
    "thorough": "4 particles with lengths 1..5, tails to 24 iterations, 400 heat maps",
}
L, W = 6, 9


def grid(k):
    return dom.field(L, W, 90 + k, [1.0, 2.0, 3.5, -1.0])


def walk(lens, k, tracked):
    wd = {"xinds": [], "yinds": [], "travel_times": []}
    for q, n in enumerate(lens):
        wd["xinds"].append([dom.h64(k, q, i, 1) // 5 % L for i in range(n)])
        wd["yinds"].append([dom.h64(k, q, i, 2) // 5 % W for i in range(n)])
        t = [0.0]
        for i in range(n - 1):
            t.append(t[-1] + [0.0, 1.0, 2.5, 4.0][dom.h64(k, q, i, 3) // 5 % 4])
        wd["travel_times"].append(t)
    if tracked:
        wd["depth"] = [[7.0] * n for n in lens]
    return wd


def cases(tier):
    q = tier == "quick"
    n = 0
    for N in range(1, 4 if q else 5):
        for lens in itertools.product(range(1, 5 if q else 6), repeat=N):
            n += 1
            yield {"kind": "state", "lens": lens, "k": n}
    for N in range(1, 4 if q else 5):
        for lens in itertools.combinations_with_replacement((1, 2, 4, 7), N):
            n += 1
            yield {"kind": "path", "lens": lens, "k": n}
    for lens in ((3500,), (300, 1200, 2)):
        n += 1
        yield {"kind": "path", "lens": lens, "k": n}
    n += 1
    yield {"kind": "state", "lens": (3,) * 150, "k": n}
    for lens in ([5], [9], [14], [3, 9], [9, 3, 6], [1, 14, 6], [2, 2]) + (
            () if q else ([24], [24, 11, 17, 6])):
        for interval in range(1, 5):
            for tail in range(1, 5):
                n += 1
                yield {"kind": "snake", "lens": lens, "interval": interval, "tail": tail,
                       "k": n}
    for k in range(60 if q else 400):
        yield {"kind": "heat", "k": k}
    for k in range(9):
        yield {"kind": "panels", "k": k}
    for a in range(0, 5):
        for b in range(a + 1, 6):
            yield {"kind": "movie", "a": a, "b": b}


def run_case(case, st):
    here = os.getcwd()
    d = os.path.join(here, "c27")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    os.chdir(d)
    plt.close("all")
    try:
        globals()[case["kind"]](case, st)
    finally:
        plt.close("all")
        os.chdir(here)
        shutil.rmtree(d, ignore_errors=True)
    st.sample(case, 1)


def dots(ax):
    return [s[0] for s in figs.scatters(ax)]


def bg(fig, ax, G, ctx):
    im = [i for i in figs.images(fig) if i[0] is ax]
    check(len(im) == 1 and figs.shows(im[0], G), "the grid is not drawn cell by cell",
          n=len(im), **ctx)


def lim_ok(ax, G, ctx):
    """the whole grid is visible"""
    (a, b), (c, d) = sorted(ax.get_xlim()), sorted(ax.get_ylim())
    check(a <= 0 and b >= G.shape[1] - 1 and c <= 0 and d >= G.shape[0] - 1,
          "the axes cut the grid", x=(a, b), y=(c, d), **ctx)


# ------------------------------------------------------------------- plot_state
def state(case, st):
    lens = case["lens"]
    wd = walk(lens, case["k"], case["k"] % 2)
    keep = repr(wd)
    G = grid(case["k"] % 5)
    asks = [{"iteration": i} for i in range(-1, min(lens))] + [{}]
    ts = sorted(set(t for q in wd["travel_times"] for t in q))
    asks += [{"target_time": t} for t in ts + [ts[-1] + 1.0, 0.4]]
    asks.append({"target_time": 0.0, "iteration": 2})
    for a in asks:
        ctx = dict(walk=wd, ask=a)
        fig = plt.figure()
        ax = rt.plot_state(G, wd, c="r", **a)
        check(ax is plt.gca() and ax.figure is fig, "axes returned", **ctx)
        bg(fig, ax, G, ctx)
        lim_ok(ax, G, ctx)
        got = [p for s in dots(ax) for p in s]
        want = []
        for q in range(len(lens)):
            if "target_time" in a:
                i = nearest(wd["travel_times"][q], a["target_time"])
            else:
                i = a.get("iteration", -1)
            want.append((float(wd["yinds"][q][i]), float(wd["xinds"][q][i])))
        check(got == want, "the markers are not at the recorded positions", got=got,
              expected=want, **ctx)
        plt.close(fig)
        st.transition()
        st.state((repr(a), lens, repr(want)))
    check(repr(wd) == keep, "the walk data was changed", walk=wd)
    st.trace()


def nearest(t, target):
    """as documented for get_time_state (decided by C22): the closest time, the first one
    if it occurs several times"""
    d = [abs(x - target) for x in t]
    return d.index(min(d))


# ---------------------------------------------------------------- draw_travel_path
def path(case, st):
    lens = case["lens"]
    N = len(lens)
    wd = walk(lens, case["k"], case["k"] % 2)
    keep = repr(wd)
    G = grid(case["k"] % 5)
    subs = ["all"]
    for n in range(1, N + 1):
        subs += [list(c) for c in itertools.permutations(range(N), n)][:6]
    for s in subs:
        for interval in (1, 2, 3):
            leg = (case["k"] + interval) % 2 == 0
            ctx = dict(walk=wd, particles=s, interval=interval, legend=leg)
            np.random.seed(3)
            seen = []

            def read(fig):
                ax = fig.axes[0]
                lg = ax.get_legend()
                seen.append(([i for i in figs.images(fig)],
                             [(np.asarray(c.get_segments(), dtype=object) if False else
                               [[(float(a), float(b)) for a, b in g] for g in
                                c.get_segments()],
                               [tuple(k) for k in c.get_colors()])
                              for c in figs.linecolls(ax)],
                             None if lg is None else
                             ([t.get_text() for t in lg.get_texts()],
                              [mcolors.to_rgba(h.get_color()) for h in lg.get_lines()]),
                             sorted(ax.get_xlim()), sorted(ax.get_ylim())))
            with figs.capture(read) as cap:
                rt.draw_travel_path(G, wd, s, "p.png", interval, leg)
                check([os.path.basename(p) for p, _ in cap.saved] == ["p.png"],
                      "output file", **ctx)
                check(os.path.exists("p.png"), "no file", **ctx)
            im, lcs, lg, xl, yl = seen[0]
            check(len(im) == 1 and figs.shows(im[0], G), "the grid is not drawn", **ctx)
            which = list(range(N)) if s == "all" else s
            want = [[(float(y), float(x)) for x, y in zip(wd["xinds"][q], wd["yinds"][q])]
                    [::interval] for q in which]
            segs = [g for l in lcs for g in l[0]]
            # paths of a single point draw nothing and may be dropped by matplotlib
            want2 = [w for w in want if len(w) > 1]
            check([g for g in segs if len(g) > 1] == want2, "the paths drawn are not the "
                  "recorded ones at the interval", got=segs, expected=want, **ctx)
            check((lg is not None) == leg, "legend", **ctx)
            if leg:
                check(lg[0] == [str(q) for q in which], "legend entries", got=lg[0], **ctx)
                cols = [c for l in lcs for c in l[1]]
                if len(segs) == len(which) == len(cols):
                    check([tuple(np.round(c, 9)) for c in lg[1]] ==
                          [tuple(np.round(c, 9)) for c in cols],
                          "legend colours are not those of the paths", **ctx)
            check(xl[0] <= 0 and xl[1] >= W - 1 and yl[0] <= 0 and yl[1] >= L - 1,
                  "the axes cut the grid", x=xl, y=yl, **ctx)
            st.transition()
            st.state((lens, repr(s), interval, repr(want)))
    check(repr(wd) == keep, "the walk data was changed", walk=wd)
    st.trace()


# --------------------------------------------------------------------- snake_plots
def snake(case, st):
    lens, iv, tail = case["lens"], case["interval"], case["tail"]
    wd = walk(lens, case["k"], case["k"] % 2)
    keep = repr(wd)
    G = grid(case["k"] % 5)
    a, b = [1, 0.4, 0.2, 1], [0.5, 0.3, 0.1, 0]
    ramp = [[a[c] + (b[c] - a[c]) * (i / (tail - 1.0) if tail > 1 else 0.0)
             for c in range(4)] for i in range(tail)]

    def read(fig):
        ax = fig.axes[0]
        return (figs.images(fig),
                [([[(float(x), float(y)) for x, y in g] for g in c.get_segments()],
                  np.asarray(c.get_colors(), float).tolist())
                 for c in figs.linecolls(ax)], ax.get_title())
    for steps in range(1, 6):
        fold = [None, "out", "x/y"][(steps + case["k"]) % 3]
        ctx = dict(walk=wd, steps=steps, interval=iv, tail=tail)
        with figs.capture(read) as cap:
            rt.snake_plots(G, wd, steps, folder_name=fold, interval=iv, tail_length=tail,
                           rgba_start=a, rgba_end=b)
            saved = list(cap.saved)
        want = []
        for ii in range(iv, steps * iv, iv):
            segs = []
            for q, n in enumerate(lens):
                if n < ii:
                    continue
                P = [(float(y), float(x)) for x, y in zip(wd["xinds"][q], wd["yinds"][q])]
                last = P[0:2]
                for c in range(ii, ii - tail * iv, -iv):
                    if c - iv - 1 >= 0:
                        last = [P[c - iv - 1], P[c - 1]]
                    segs.append(last)
            if not segs:
                break
            want.append((ii, segs))
        names = [os.path.abspath(os.path.join(fold or ".", "figs", "snakefig%d.png" % ii))
                 for ii, _ in want]
        check([p for p, _ in saved] == names, "not one figure per step with particles",
              got=[p for p, _ in saved], expected=names, **ctx)
        for (p, (im, lcs, title)), (ii, segs) in zip(saved, want):
            check(len(im) == 1 and figs.shows(im[0], G), "the grid is not drawn", step=ii,
                  **ctx)
            got = [g for l in lcs for g in l[0]]
            lone = [g for g in segs if len(g) > 1]
            check([g for g in got if len(g) > 1] == lone, "the tails are not the recorded "
                  "positions", step=ii, got=got, expected=segs, **ctx)
            if len(lcs) == 1 and len(got) == len(segs):
                col = lcs[0][1]
                for i in range(len(segs)):
                    check(np.allclose(col[i % len(col)], ramp[i % tail]),
                          "colour of a tail segment", step=ii, segment=i, **ctx)
            check(str(ii) in title, "title", got=title, step=ii, **ctx)
            st.transition()
            st.state((lens, iv, tail, ii, repr(segs)))
    check(repr(wd) == keep, "the walk data was changed", walk=wd)
    st.trace()


# ------------------------------------------------------------------ nourishment maps
def heat(case, st):
    k = case["k"]
    F = dom.field(L, W, k, [0.0, 0.1, 0.35, 0.5, 1.0, np.nan] if k % 3 else
                  [0.2, 0.4, 1.0, 0.0])
    if not np.isfinite(F).any():
        return
    if k % 4 in (1, 2):
        F = F * 0.75 + 0.2        # no zero: the least value has a colour of its own
    G = [None, grid(k % 5)][k % 2]
    wd = [None, walk((3, 2), k, k % 4 == 0)][k // 2 % 2]
    sigma = [0.7, 0.0, 0.125][k % 3]
    amin = [0, 0.3, 1][k // 3 % 3]
    seed = k // 5 % 2 == 0
    for f, what in ((rt.show_nourishment_area, "area"), (rt.show_nourishment_time, "time")):
        for opened in (False, True):
            for cm in ("Reds", "viridis", matplotlib.colormaps["Blues"]):
                plt.close("all")
                keep = F.copy()
                fig = plt.figure() if opened else None
                cb = k // 2 % 2 == 1
                kw = {"sigma": sigma} if what == "area" else {"show_colorbar": cb}
                r = f(F, grid=G, walk_data=wd, min_alpha=amin, show_seed=seed, cmap=cm, **kw)
                ctx = dict(function=what, values=F, grid=G is not None, sigma=sigma,
                           min_alpha=amin, show_seed=seed, cmap=str(getattr(cm, "name",
                                                                           cm)))
                check(len(plt.get_fignums()) == 1, "figures", n=plt.get_fignums(), **ctx)
                fg = plt.figure(plt.get_fignums()[0])
                if opened:
                    check(fg is fig, "a new figure although one is open", **ctx)
                ax = fg.axes[0]
                check(r is ax, "axes returned", **ctx)
                ims = images_raw(ax)
                check(len(ims) == (1 if G is None else 2), "layers", n=len(ims), **ctx)
                if G is not None:
                    A, pm = ims[0]
                    check(A.shape == G.shape and np.array_equal(A, G) and unit(pm),
                          "background grid", **ctx)
                A, pm = ims[-1]
                check(A.shape == (L, W, 4) and unit(pm), "heat map layer", shape=A.shape,
                      **ctx)
                amax = np.nanpercentile(F, 20 if what == "time" else
                                        60 if sigma >= 0.125 else 30)
                lo, hi = np.nanmin(F), 1 if what == "area" else np.nanmax(F)
                cmap = matplotlib.colormaps[cm] if isinstance(cm, str) else cm
                for i, j in itertools.product(range(L), range(W)):
                    if F[i, j] != F[i, j]:
                        continue
                    al = 0.0 if amax == 0 else min(max(F[i, j] / amax, 0.0), 1.0)
                    al = min(max(al, amin), 1)
                    w = cmap(0.0 if hi == lo else float((F[i, j] - lo) / (hi - lo)))
                    check(abs(A[i, j, 3] - al) < 1e-9, "opacity of a cell", cell=(i, j),
                          got=A[i, j, 3], expected=al, **ctx)
                    check(max(abs(A[i, j, c] - w[c]) for c in range(3)) < 0.02,
                          "colour of a cell", cell=(i, j), got=A[i, j], expected=w, **ctx)
                sc = [p for s in dots(ax) for p in s]
                want = [(float(wd["yinds"][0][0]), float(wd["xinds"][0][0]))] \
                    if wd is not None and seed else []
                check(sc == want, "seed marker", got=sc, expected=want, **ctx)
                if what == "time":
                    check(len(fg.axes) == 1 + cb, "colour bar", n=len(fg.axes), **ctx)
                    if cb and hi > lo:
                        check(np.allclose(sorted(fg.axes[1].get_ylim()), [lo, hi]),
                              "range of the colour bar", got=fg.axes[1].get_ylim(), **ctx)
                check(np.array_equal(F, keep, equal_nan=True), "the values were changed",
                      **ctx)
                st.transition()
    st.state((k, repr(F.tolist())))
    st.trace()


def images_raw(ax):
    ims = [c for c in ax.get_children() if isinstance(c, mimg.AxesImage)]
    ims.sort(key=lambda c: c.zorder)
    return [(np.asarray(c.get_array(), float), figs.pixel_map(c)) for c in ims]


def unit(pm):
    return max(abs(a - b) for a, b in zip(pm, (0, 1, 0, 1))) < 1e-9


# ----------------------------------------------------------------------- plot_spatial
def panels(case, st):
    k = case["k"]
    shp = [(6, 8), (12, 16), (5, 7)][k % 3]
    E = dom.field(12, 16, k, [0.0, -1.0, 2.0, 5.0])
    maps = [dom.field(shp[0], shp[1], 7 * k + j, [0.5, 3.0, 9.0, 20.0, np.nan])
            for j in range(3)]
    mx, nl = [(10, 6), (15, 4), (30, 11)][k // 3]
    cm = matplotlib.colormaps["viridis"]
    keep = [m.copy() for m in maps] + [E.copy()]
    ctx = dict(case=case)
    r = sp.plot_spatial(maps, E, mx, nl, cm, "Exposure")
    fig, cbar = r[0], r[3]
    pan = [ax for ax in fig.axes if any(isinstance(c, mimg.AxesImage)
                                        for c in ax.get_children())]
    pan.sort(key=lambda a: a.get_position().x0)
    check(len(pan) == 3, "not three panels", n=len(pan), **ctx)
    check(list(r[1]) == pan, "the axes returned are not the panels", got=len(r[1]), **ctx)
    for j, ax in enumerate(pan):
        ims = [c for c in ax.get_children() if isinstance(c, mimg.AxesImage)]
        ims.sort(key=lambda c: c.zorder)
        check(len(ims) == 2, "layers of a panel", n=len(ims), **ctx)
        A = [np.ma.filled(np.ma.array(c.get_array(), dtype=float), np.nan) for c in ims]
        check(np.array_equal(A[0], E), "background of a panel", panel=j, **ctx)
        check(A[1].shape == maps[j].shape and np.array_equal(A[1], maps[j],
                                                             equal_nan=True),
              "a panel does not show its map (E50, E75, E90 from the left)", panel=j, **ctx)
        e = [figs.pixel_map(c) for c in ims]
        for i, (px, dx, py, dy) in enumerate(e):
            s = A[i].shape
            check(dx > 0 and dy > 0, "a map is drawn mirrored", panel=j, **ctx)
            check(abs((px - dx / 2) - (e[0][0] - e[0][1] / 2)) < 1e-9 and
                  abs((py - dy / 2) - (e[0][2] - e[0][3] / 2)) < 1e-9 and
                  abs(dx * s[1] - e[0][1] * A[0].shape[1]) < 1e-9 and
                  abs(dy * s[0] - e[0][3] * A[0].shape[0]) < 1e-9,
                  "map and background do not cover the same area", panel=j, **ctx)
        n = ims[1].norm
        lev = np.linspace(0, mx, nl)
        for v in (0.5, 3.0, 9.0):
            want = sum(1 for x in lev if x <= v) - 1
            width = cm.N - 1
            got = int(n(v))
            check(np.array_equal(np.asarray(n.boundaries, float), lev) and
                  abs(got - want * width / max(1, nl - 2)) <= 1 and
                  ims[1].cmap is cm or ims[1].cmap == cm,
                  "colour classes", value=v, got=got, **ctx)
    lab = [t.get_text() for t in cbar.ax.get_xticklabels()]
    check(lab == [str(int(x)) for x in lev[:-1]] + ["%d+" % mx], "labels of the colour bar",
          got=lab, **ctx)
    check(cbar.ax.get_xlabel() == "Exposure", "title of the colour bar", **ctx)
    tx = sorted((t.get_position()[0], t.get_text()) for t in fig.texts)
    check([t for _, t in tx] == ["$E_{50}$", "$E_{75}$", "$E_{90}$"], "panel titles",
          got=tx, **ctx)
    for a, b in zip(maps + [E], keep):
        check(np.array_equal(a, b, equal_nan=True), "an input was changed", **ctx)
    st.transition(3)
    st.state(k)
    st.trace()


# ----------------------------------------------------------------------- animate_plots
FRAMES = []


class Writer(animation.AbstractMovieWriter):
    """stand-in for the ffmpeg writer: records what the figure shows at each frame"""

    def __init__(self, *a, **k):
        k.pop("extra_args", None)
        animation.AbstractMovieWriter.__init__(self, *a, **k)

    @classmethod
    def isAvailable(cls):
        return True

    def setup(self, fig, outfile, dpi=None):
        self.fig, self.outfile, self.dpi = fig, outfile, dpi
        FRAMES.append(("file", str(outfile)))

    def grab_frame(self, **k):
        out = []
        for ax in self.fig.axes:
            for c in ax.get_children():
                if isinstance(c, mimg.AxesImage) and c.get_visible():
                    A = np.asarray(c.get_array(), float)
                    # as seen: first row at the top
                    up = (c.origin == "upper") != bool(ax.yaxis_inverted() !=
                                                       (c.origin == "upper"))
                    out.append(A if up else A[::-1])
        FRAMES.append(out)

    def finish(self):
        pass


def movie(case, st):
    os.makedirs("m/figs")
    pics = []
    for i in range(6):
        a = np.zeros((5, 7, 3), "uint8")
        a[0, i] = (250, 10 * i, 3)
        a[4, 0] = (0, 0, 200)
        plt.imsave("m/figs/output%d.png" % i, a)
        pics.append(a / 255.0)
    reg = animation.writers
    old = dict(reg._registered)
    reg._registered["ffmpeg"] = Writer
    del FRAMES[:]
    try:
        rt.animate_plots(case["a"], case["b"], "m")
    finally:
        reg._registered.clear()
        reg._registered.update(old)
    ctx = dict(case=case)
    check(FRAMES and FRAMES[0] == ("file", os.path.join("m", "animation.mp4")),
          "the animation is not saved", got=FRAMES[:1], **ctx)
    fr = FRAMES[1:]
    check(len(fr) == case["b"] - case["a"], "number of frames", got=len(fr), **ctx)
    for n, f in enumerate(fr):
        check(len(f) == 1 and f[0].shape[:2] == (5, 7), "frame", n=n, **ctx)
        check(np.allclose(f[0][..., :3], pics[case["a"] + n], atol=0.01),
              "a frame is not the saved figure of its turn, upright", frame=n, **ctx)
        st.transition()
    st.state((case["a"], case["b"]))
    st.trace()
