"""C12: snapshots of everything passed in, around every public call, for every input
combination and every aliasing of inputs; and building twice."""
import itertools
import os

import numpy as np

import dorado.particle_track as pt
import dorado.parallel_routing as pr
import dorado.routines as ro
import dorado.spatial as sp
from matplotlib import pyplot as plt
from mc import dom, pool, rng, sim
from mc.core import Violation, check

ID = "C12"
LEVEL = "model_checking"
ASSUMPTIONS = ["the attributes diff_coeff (when negative) and model of the parameter "
               "object are normalised by the constructor; they are not arrays, lists or "
               "dictionaries", "figures are drawn but not written to disk"]
BOUNDS = {
    "quick": "all sufficient subsets of the 7 fields x 2 conventions x every pair of "
             "fields sharing one array (and all sharing one) x 2 routing modes, optional "
             "arrays given or not; construct, construct again, seed, 3 iterations, target "
             "time, with snapshots of all inputs after each; every public function on "
             "walk data of several shapes",
    "thorough": "also every pair of disjoint aliased pairs, two draw streams",
}
F = ("depth", "stage", "topography", "qx", "qy", "u", "v")
OPTA = ("cell_type", "roi_grid", "distances", "ivec", "jvec", "iwalk", "jwalk", "angles")


def sufficient(s):
    return (("depth" in s or {"stage", "topography"} <= s) and
            ("stage" in s or {"topography", "depth"} <= s) and
            ({"qx", "qy"} <= s or {"u", "v"} <= s))


def cases(tier):
    for r in range(len(F) + 1):
        for sub in itertools.combinations(F, r):
            if sufficient(set(sub)):
                for m in (None, "DeltaRCM"):
                    yield {"k": "build", "sub": list(sub), "model": m,
                           "thorough": tier != "quick"}
    for n in FUNCS:
        yield {"k": "func", "f": n}
    for via in ("step", "target"):
        yield {"k": "lists", "via": via}


def arrays(sub):
    L, W = 7, 8
    a = {}
    a["depth"] = dom.field(L, W, 3, [1.0, 2.0, 0.5, 1.0, 0.0])
    a["depth"][1, 6] = np.nan
    a["topography"] = dom.field(L, W, 4, [-1.0, -0.5, -2.0])
    a["topography"][4, 2] = np.nan
    a["stage"] = dom.field(L, W, 5, [1.0, 1.05, 0.95])
    a["stage"][5, 1] = np.nan
    for n, s in (("qx", 11), ("qy", 12), ("u", 13), ("v", 14)):
        a[n] = dom.field(L, W, s, [0.5, 0.0, -0.25, 1.0, 0.75])
        a[n][2, 6] = np.nan
    return {n: a[n] for n in sub}


def optional(markers=False):
    L, W = 7, 8
    P = pt.Particles(make(arrays(("depth", "stage", "u", "v")), None, {}))
    o = {n: np.array(getattr(P, n)) * 1.0 for n in OPTA if n != "roi_grid"}
    o["iwalk"] = np.array(P.iwalk)
    o["jwalk"] = np.array(P.jwalk)
    o["cell_type"] = np.array(P.cell_type)
    o["cell_type"][3, 3] = 2
    o["cell_type"][0] = 1
    roi = np.zeros((L, W), dtype=int)
    roi[:, 4:] = 1
    o["roi_grid"] = roi
    if markers:
        # no data outside the mapped area
        o["roi_grid"] = np.where(roi == 1, 1.0, np.nan)
        o["roi_grid"][3] = -9999.
    return o


def make(a, model, opt, steepest=False, negdiff=False):
    p = pt.modelParams()
    p.dx = 2.0
    for n in a:
        setattr(p, n, a[n])
    for n in opt:
        setattr(p, n, opt[n])
    if model:
        p.model = model
    p.diff_coeff = -1.0 if negdiff else 0.4
    p.gamma = 0.4
    if steepest:
        p.steepest_descent = True
    return p


ATTRS = ("depth", "stage", "qx", "qy", "u", "v", "velocity", "velocity_angle", "weight",
         "cell_type", "distances", "ivec", "jvec", "iwalk", "jwalk", "angles", "roi_grid",
         "theta", "gamma", "diff_coeff", "dry_depth", "dx", "steepest_descent",
         "tracked_variables")


def state_of(P):
    return {n: sim.snapshot(getattr(P, n)) for n in ATTRS if hasattr(P, n)}


def use(P, stream, after):
    """seed, three iterations, target time; calls after() following each"""
    with rng.control(stream):
        P.generate_particles(2, [3, 4], [3, 4])
        after("generate_particles")
        P.generate_particles(2, [2, 4], [3, 5], method="exact")
        after("generate_particles(exact)")
        for _ in range(3):
            P.run_iteration()
            after("run_iteration")
        P.run_iteration(target_time=60., max_iter=5)
        after("run_iteration(target_time)")
    return sim.plain(P.walk_data)


def stream(k=0):
    return rng.lcg(77 + k)


def run_build(case, st):
    sub, model = case["sub"], case["model"]
    pairs = list(itertools.combinations(sub, 2))
    alias = [()] + [(p,) for p in pairs] + [tuple((sub[0], n) for n in sub[1:])]
    if case["thorough"]:
        alias += [(p, q) for p in pairs for q in pairs
                  if p < q and not set(p) & set(q)]
    for al in alias:
        for steep, withopt, negd in ((False, False, False), (True, True, False),
                                     (False, True, True)):
            a = arrays(sub)
            for x, y in al:
                a[y] = a[x]
            opt = optional(negd) if withopt else {}
            if withopt:
                opt["particle_variables"] = ["u", "depth", "stage"]
            if withopt and len(al) == 1 and al[0][0] == "depth":
                opt["cell_type"] = opt["roi_grid"] = np.where(
                    opt["cell_type"] == 1, 1, 0)
            inputs = {"fields": a, "optional": opt}
            keep = sim.snapshot(inputs)
            ctx = dict(fields=sub, model=model, aliased=al, steepest=steep,
                       optional=sorted(opt))

            def after(what):
                if not sim.same(keep, inputs):
                    bad = [n for d in ("fields", "optional") for n in keep[d]
                           if not sim.same(keep[d][n], inputs[d][n])]
                    raise Violation("caller's %s modified by %s" % (bad, what), **ctx)
                for n in a:
                    check(getattr(par, n) is a[n], "parameter object's %s replaced by "
                          "%s" % (n, what), **ctx)
                st.transition()
            par = make(a, model, opt, steep, negd)
            P = pt.Particles(par)
            after("building Particles")
            s1 = state_of(P)
            for kk in range(2 if case["thorough"] else 1):
                P.clear_walk_data()
                w1 = use(P, stream(kk), after)
            Q = pt.Particles(par)
            after("building Particles again")
            s2 = state_of(Q)
            for n in s1:
                check(sim.same(s1[n], s2[n]), "second Particles built from the same "
                      "parameters has a different %s" % n, **ctx)
            w2 = use(Q, stream(1 if case["thorough"] else 0), after)
            check(w1 == w2, "second Particles built from the same parameters routes "
                  "differently", **ctx)
            # built from separate copies of the very same values
            R = pt.Particles(make({n: keep["fields"][n].copy() for n in a}, model,
                                  sim.snapshot(opt), steep, negd))
            s3 = state_of(R)
            for n in s1:
                check(sim.same(s1[n], s3[n]), "result depends on whether inputs share "
                      "memory: %s" % n, **ctx)
            st.trace(3)
            st.state((sub, model, al, steep, withopt, repr(w1)))
            st.add("aliased" if al else "unaliased")
    st.sample({"fields": sub, "model": model, "aliasings": len(alias)}, 1)


# --- every other public function ------------------------------------------------------
def walks():
    """walk data of several shapes"""
    yield {"xinds": [[1, 2, 3, 4], [2, 2], [3]], "yinds": [[1, 1, 2, 3], [2, 3], [0]],
           "travel_times": [[0, 1.5, 2.0, 9.0], [0, 3.0], [0]]}
    yield {"xinds": [[1, 2, 3, 4, 5] * 2, [2, 3, 2, 3, 3] * 2],
           "yinds": [[1, 1, 2, 3, 4] * 2, [2, 3, 3, 2, 2] * 2],
           "travel_times": [[float(i) for i in range(10)], [2.0 * i for i in range(10)]],
           "depth": [[1.0] * 10, [0.5, float("nan")] * 5], "roi_flag": [[1, 0] * 5] * 2}
    # times that go back (diff_coeff above 2), positions and times in no order
    yield {"xinds": [[4, 3, 3, 2, 1], [2, 1, 2]], "yinds": [[3, 3, 2, 1, 1], [2, 3, 2]],
           "travel_times": [[0, 2.5, 2.0, 1.0, 9.5], [1.0, 3.0, 0.5]]}


def roi():
    r = np.zeros((7, 8), dtype=int)
    r[2:5, 1:4] = 1
    return r


def classes():
    """a map of several classes, of which 1 is the region"""
    r = roi()
    r[3, 2] = 2
    r[5:] = 3
    r[0] = -1
    return r


def steady(fn):
    def f():
        for tracked in ([], ["depth", "u"]):
            a = arrays(("depth", "stage", "u", "v"))
            for n in a:
                a[n] = np.nan_to_num(a[n])
            par = make(a, None, {"particle_variables": tracked})
            P = pt.Particles(par)
            P.generate_particles(2, [3], [3, 4], method="random")
            d = os.path.abspath("out")
            yield [a, tracked], lambda P=P, d=d: getattr(ro, fn)(P, 3, folder_name=d)
    return f


def seeding():
    """generate_particles with lists, arrays and earlier walk data"""
    for w in walks():
        for conv in (list, np.array):
            for m in ("random", "exact"):
                # tracking variables the earlier walk data does not have
                pv = {"particle_variables": ["u", "depth"]} if m == "exact" else {}
                P = pt.Particles(make(arrays(("depth", "stage", "u", "v")), None, pv))
                xs, ys = conv([3, 4, 3]), conv([4, 3, 2])
                w2 = sim.snapshot(w)

                def go(P=P, xs=xs, ys=ys, w2=w2, m=m):
                    P.generate_particles(4, xs, ys, method=m, previous_walk_data=w2)
                    P.run_iteration()
                    P.generate_particles(1, xs, ys, method=m, previous_walk_data=w2)
                    P.run_iteration(target_time=30.)
                    P.clear_walk_data()
                yield [xs, ys, w2], go


def parallel():
    par = make(arrays(("depth", "stage", "u", "v")), None, {})
    xs, ys = [3, 4], [3, 4, 5]

    def go():
        with pool.scheduled(pr, pool.Schedule((0, 1))):
            pr.parallel_routing(pt.Particles(par), 3, 3, xs, ys, 2)
    a = [par.depth, par.stage, par.u, par.v, xs, ys]
    yield a, go


def combine():
    for w in walks():
        res = [sim.snapshot(w), sim.snapshot(w)]
        yield [res], lambda res=res: pr.combine_result(res)


def simple(fn, *extra, **kw):
    def f():
        for w in walks():
            w = sim.snapshot(w)
            ex = [sim.snapshot(e) for e in extra]
            k = sim.snapshot(kw)
            yield [w, ex, k], lambda w=w, ex=ex, k=k: fn(w, *ex, **k)
    return f


def ind2coord():
    for w in walks():
        w = sim.snapshot(w)
        keep = sim.snapshot(w)
        pt.ind2coord(w, (10., 20.), (7, 8), 2.0)
        for n in keep:
            check(sim.same(keep[n], w[n]), "ind2coord changed entry %s" % n)
        yield [w], lambda w=w: pt.ind2coord(w, (10., 20.), (7, 8), 2.0)


def coord2ind():
    for c in ([(10.5, 21.0), (12.0, 24.0)], [[10.5, 21.0]],
              np.array([[10.5, 21.0], [16., 20.]])):
        o = [10., 20.]
        s = [7, 8]
        yield [c, o, s], lambda c=c, o=o, s=s: pt.coord2ind(c, o, s, 2.0)


def u2g():
    pts = [(0., 0.), (1.3, 0.2), (2., 1.7), (0.4, 2.2), (3., 3.)]
    q = [1.0, 2.0, 3.0, 4.0, 5.0]
    b = [(-0.5, -0.5), (2.2, -0.5), (2.2, 2.5), (-0.5, 2.5)]
    for k in (1, 3):
        for bd in (None, b):
            for conv in (list, np.array):
                for crop in (True, False):
                    p2, q2, b2 = sim.snapshot(pts), conv(q), sim.snapshot(bd)
                    more = [conv([5., 4., 3., 2., 1.]), conv([1, 2, 3, 4, 5]),
                            conv([5., float("nan"), 3., float("nan"), 1.])]

                    def go(p2=p2, q2=q2, b2=b2, k=k, more=more, crop=crop):
                        f, g = pt.unstruct2grid(p2, q2, 0.5, k_nearest_neighbors=k,
                                                boundary=b2, crop=crop)
                        for m in more:
                            f(m)
                        g2 = sim.snapshot(f(q2))
                        f(more[0])
                        check(sim.same(g2, g), "gridding other data changed a gridded "
                              "result returned earlier")
                    yield [p2, q2, b2, more], go


def flux():
    for q in (np.array([1., -2., 0.5]), np.array([[1.], [2.], [0.]]), np.array([3, 4])):
        yield [q], lambda q=q: pt.flux_proportional_seeding(q, 10, 2)


def mad():
    for n, vals in enumerate(itertools.product((0.5, 2.0, float("nan"), -7.0),
                                               repeat=4)):
        d = np.array(vals).reshape(2, 2) * [1.0, 1e9, 1e-9][n % 3]
        yield [d], lambda d=d: sp.median_absolute_deviation_filter(d, 3, 1)


def thresholds():
    elev = np.arange(16.).reshape(4, 4)
    exp = [[1.0, 2.0, 3.5, 4.0, 5.0, 0.0, 9.0], [1.0, 2.0], float("nan"),
           [2.0, 2.0, float("nan"), 3.0, 4.0, 5.0, 6.0]]
    yield [elev, exp], lambda: sp.compute_thresholds(exp, elev, 60., 2)


def spatial_plot():
    elev = np.arange(16.).reshape(4, 4)
    maps = [np.array([[1., np.nan], [2., 3.]]) for _ in range(3)]
    import matplotlib
    yield [elev, maps], lambda: sp.plot_spatial(maps, elev, 7, 7,
                                                matplotlib.colormaps["viridis"], "x")


def etd(fn, **kw):
    def f():
        for w in walks():
            n = len(w["xinds"])
            more = [np.array([0.5, float("nan"), 0.0][:n])] if kw.get(
                "uniform_timesteps") is False else []
            for e in [[0.5, 1.0, 0.0][:n], np.array([0.5, 1.0, 0.0][:n])] + more:
                if isinstance(e, np.ndarray) and fn == "plot_exposure_time":
                    # documented as a list (it is written as JSON)
                    continue
                w2 = sim.snapshot(w)
                for t in w2["travel_times"]:
                    t[-1] = max(t[-1], 4.0)
                yield [w2, e], lambda w2=w2, e=e: getattr(ro, fn)(
                    w2, e, folder_name=os.path.abspath("out"), **kw)
    return f


def nourish(fn):
    def f():
        for w in walks():
            w = sim.snapshot(w)
            area = np.array([[np.nan, 0.2, 1.0], [0.5, 0.6, np.nan]])
            grid = np.arange(6.).reshape(2, 3)
            yield [w, area, grid], lambda w=w, area=area, grid=grid: getattr(ro, fn)(
                area, grid, w)
    return f


GRID = np.arange(56.).reshape(7, 8)
FUNCS = {
    "generate_particles": seeding,
    "exposure_time": simple(pt.exposure_time, roi()),
    "exposure_time_classes": simple(pt.exposure_time, classes()),
    "exposure_time_nodata": simple(pt.exposure_time,
                                   np.where(roi() == 1, 1.0, np.nan)),
    "systemwide_classes": simple(sp.systemwide, GRID, classes(), 3),
    "nourishment_area": simple(pt.nourishment_area, (7, 8)),
    "nourishment_area0": simple(pt.nourishment_area, (7, 8), sigma=0),
    "nourishment_time": simple(pt.nourishment_time, (7, 8)),
    "nourishment_time0": simple(pt.nourishment_time, (7, 8), sigma=0),
    "get_state": simple(ro.get_state, 3),
    "get_state_last": simple(ro.get_state),
    "get_time_state": simple(ro.get_time_state, 2.5),
    "systemwide": simple(sp.systemwide, GRID, roi(), 3),
    "localized": simple(sp.localized, GRID, roi(), 3),
    "systemwide_float": simple(sp.systemwide, GRID, classes() * 1.0, 3),
    "localized_float": simple(sp.localized, GRID, classes() * 1.0, 2),
    "systemwide_nodata": simple(sp.systemwide, GRID, np.where(roi() == 1, 1., np.nan), 2),
    "localized_bool": simple(sp.localized, GRID, roi() == 1, 3),
    "draw_travel_path": lambda: ((([w, GRID]), lambda w=w: ro.draw_travel_path(
        GRID, w, output_file=os.path.abspath("p.png"))) for w in walks()),
    "draw_travel_path_some": lambda: (([w, s, GRID], lambda w=w, s=s: ro.draw_travel_path(
        GRID, w, particles_to_follow=s, interval=2, plot_legend=True,
        output_file=os.path.abspath("p.png"))) for w in walks() for s in ([1], [1, 0])),
    "plot_state": lambda: (([w, GRID], lambda w=w, t=t: ro.plot_state(
        GRID, w, iteration=1, target_time=t)) for w in walks() for t in (None, 2.0)),
    "snake_plots": lambda: (([w, GRID, c], lambda w=w, c=c: ro.snake_plots(
        GRID, w, 3, folder_name=os.path.abspath("out"), interval=1, tail_length=3,
        rgba_start=c[0], rgba_end=c[1])) for w in walks()
        for c in ([[1, .4, .2, 1], [1, .3, .1, 0]],
                  [[0, .4, 1, .2], [1, .9, .1, .8]],
                  [np.array([1, .4, .2, .3]), np.array([0., .3, .1, 1])])),
    "plot_exposure_time": etd("plot_exposure_time", show_thresholds=True),
    "plot_exposure_time_thresholds": etd("plot_exposure_time_thresholds",
                                         uniform_timesteps=True),
    "plot_exposure_time_thresholds2": etd("plot_exposure_time_thresholds",
                                          uniform_timesteps=False),
    "show_nourishment_area": nourish("show_nourishment_area"),
    "show_nourishment_time": nourish("show_nourishment_time"),
    "ind2coord": ind2coord,
    "coord2ind": coord2ind,
    "unstruct2grid": u2g,
    "flux_proportional_seeding": flux,
    "median_absolute_deviation_filter": mad,
    "compute_thresholds": thresholds,
    "plot_spatial": spatial_plot,
    "steady_plots": steady("steady_plots"),
    "time_plots": steady("time_plots"),
    "parallel_routing": parallel,
    "combine_result": combine,
}


# values the documentation does not ask for: rejecting them is fine, changing them is not
LOOSE = ("exposure_time_classes", "exposure_time_nodata", "systemwide_classes",
         "systemwide_nodata", "localized_bool")


def run_func(case, st):
    def attempt():
        try:
            call()
        except Exception:
            if case["f"] not in LOOSE:
                raise
    import matplotlib.figure as mf
    real = mf.Figure.savefig
    mf.Figure.savefig = lambda self, *a, **k: None
    try:
        for inputs, call in FUNCS[case["f"]]():
            keep = sim.snapshot(inputs)
            np.random.seed(1)
            attempt()
            plt.close("all")
            st.transition()
            st.trace()
            st.state((case["f"], repr(keep)))
            check(sim.same(keep, inputs), "%s modified what was passed to it"
                  % case["f"], before=keep, after=inputs)
            # and calling it again on the very same objects works the same way
            attempt()
            plt.close("all")
            check(sim.same(keep, inputs), "%s modified what was passed to it the second "
                  "time" % case["f"], before=keep, after=inputs)
    finally:
        mf.Figure.savefig = real
        plt.close("all")


def run_lists(case, st):
    """parameter lists stay as given, also when roi_flag is added automatically"""
    for pv in (None, [], ["u"], ["roi_flag"], ["depth", "roi_flag"]):
        for r in (None, roi()):
            if r is None and pv and "roi_flag" in pv:
                continue
            for times in range(1, 4):
                a = arrays(("depth", "stage", "u", "v"))
                opt = {}
                if r is not None:
                    opt["roi_grid"] = r
                if pv is not None:
                    opt["particle_variables"] = list(pv)
                par = make(a, None, opt)
                objs = []
                for n in range(times):
                    P = pt.Particles(par)
                    objs.append(P)
                    check(pv is None or par.particle_variables == pv,
                          "the list of variables to track was modified",
                          given=pv, now=getattr(par, "particle_variables", None))
                    P.generate_particles(2, [3], [3, 4])
                    with rng.control(stream()):
                        for _ in range(2):
                            if case["via"] == "step":
                                P.run_iteration()
                            else:
                                P.run_iteration(target_time=40.)
                    st.transition(3)
                    st.trace()
                    st.state((pv, r is None, n, case["via"]))
                names = [list(P.walk_data) for P in objs]
                check(all(n == names[0] for n in names), "objects built from the same "
                      "parameters record different variables", got=names)


def run_case(case, st):
    if case["k"] == "build":
        run_build(case, st)
    elif case["k"] == "func":
        run_func(case, st)
    else:
        run_lists(case, st)


def finish(total, tier):
    check(total.n.get("aliased", 0) > 0, "vacuous: nothing aliased")
