"""C25: the automated runs against the same simulation done by hand, for every choice of
draws, files, listing order and output option."""
import itertools
import json
import os
import shutil

import numpy as np

import dorado.particle_track as pt
import dorado.routines as rt
from mc import dom, env, figs, rng, sim
from mc.core import check

ID = "C25"
LEVEL = "model_checking"
ASSUMPTIONS = ["figures are read at the moment they are saved (artists, not pixels); real "
               "png files are written in one case per routine and option set",
               "file names sort in time order; num_iter >= 1, at least one file"]
BOUNDS = {
    "quick": "draw words of length 3 over 3 letters (27, nine per combination in rotation) x "
             "iterations 1..3 x output options (5 folders, save or not) x tracked variables (4); unsteady: 3 file types x "
             "steps 1..4 with 1..3 files x all 6 listing orders, 3 words each; 1 to 3 "
             "particles; walks of more than 50 and more than 1000 cells; file names of "
             "unequal length (text or number order, the same for every variable); cells dry in "
             "some steps and wet in others",
    "thorough": "draw words of length 4 over 3 letters, iterations 1..5, all combinations "
                "of options",
}
L, W = 9, 12
FOLDERS = ["cwd", "new", "nested", "existing", "full"]
TRACK = [None, ["depth"], ["u", "roi"], ["v", "stage", "qx"]]


def fields(k, W=W):
    depth = dom.field(L, W, 11 + k, [1.0, 0.75, 1.5, 0.05 if k < 2 else 0.5])
    stage = dom.field(L, W, 31 + k, [2.0, 2.1, 2.2]) - 0.02 * np.arange(W)
    qx = dom.field(L, W, 51 + k, [0.4, 0.8, -0.1])
    qy = dom.field(L, W, 71 + k, [0.3, -0.3, 0.1])
    for i in (0, L - 1):
        depth[i] = 1.0
    depth[:, 0] = depth[:, -1] = 1.0
    for i, j in ((2, 3), (4, 5), (6, 2)):
        depth[i, j] = 1.0
    if W == 13:
        # a basin without an outlet, so that particles go on for ever
        for i in (0, 1):
            depth[i] = depth[-1 - i] = depth[:, i] = depth[:, -1 - i] = 0.0
    if W > 13:
        # a channel between banks, so that particles travel far
        depth[1] = depth[-2] = 0.0
        stage = stage - 0.05 * np.arange(W)
        qx = np.abs(qx)
    return depth, stage, qx, qy


def params(k, track, wide=W):
    p = pt.modelParams()
    p.dx = 2.0
    p.depth, p.stage, p.qx, p.qy = fields(k, wide)
    if k == 2:
        p.depth = p.depth.astype("float32")
    if track:
        p.particle_variables = [v for v in track if v != "roi"]
        if "roi" in track:
            p.roi_grid = (dom.field(L, wide, 5, [0, 1])).astype(int)
    return p


def cyc(word):
    it = itertools.cycle(word)
    return lambda: next(it)


WORDS = [0.06, 0.48, 0.93]


def cases(tier):
    q = tier == "quick"
    words = list(itertools.product(WORDS, repeat=3 if q else 4))
    n = 0
    for r in ("steady", "time"):
        for it in range(1, 4 if q else 6):
            for t in range(len(TRACK)):
                for f in range(len(FOLDERS) + (r == "steady")):
                    n += 1
                    ws = words[n % 3::3] if q else words[n % 2::2]
                    yield {"kind": r, "iters": it, "track": t, "folder": f, "words": ws,
                           "k": n % 3, "pre": (n // 3) % 3, "np": [3, 1, 3][n // 4 % 3]}
    for typ in ("csv", "npy", "npz"):
        for files in (1, 2, 3):
            for steps in range(1, 5):
                for o in range(6 if files == 3 else files):
                    n += 1
                    yield {"kind": "unsteady", "type": typ, "files": files, "order": o,
                           "steps": steps, "folder": n % len(FOLDERS),
                           "words": words[n % 9::9] if q else words[n % 3::3],
                           "timestep": [7.0, 2.3, 0.1][n % 3], "np": [3, 3, 1][n // 2 % 3]}
    # walks of many cells
    for typ, o in (("csv", 0), ("npy", 1), ("npz", 1)):
        yield {"kind": "unsteady", "type": typ, "files": 3, "order": o, "steps": 3,
               "folder": 1, "words": words[o::14], "timestep": 250.0, "np": 2, "wide": 150}
    # names of unequal length; thousands of cells within one step
    for n, typ in enumerate(("csv", "npy", "npz")):
        for o in range(6):
            yield {"kind": "unsteady", "type": typ, "files": 3, "order": o, "steps": 2 + o % 2,
                   "folder": o % len(FOLDERS), "words": words[o + n::9][:1 if q else 9],
                   "timestep": 9.0, "np": 2, "names": ["8", "9", "10"]}
        yield {"kind": "unsteady", "type": typ, "files": 2, "order": 1, "steps": 2,
               "folder": 1, "words": words[5 + n::9][:1 if q else 3], "timestep": 30000.0,
               "np": 2, "wide": 13}
    for r in ("steady", "time"):
        yield {"kind": r, "iters": 3, "track": 1, "folder": 1, "words": words[1::14],
               "k": 0, "pre": 60, "np": 2, "wide": 150}
    for r in ("steady", "time", "unsteady"):
        yield {"kind": "real", "routine": r}


def seeds(p, n=3):
    p.generate_particles(n, [2, 4, 6], [3, 5, 2], method="exact")


def folder_of(case):
    """fresh directory; returns (argument, directory where things must appear)"""
    base = os.path.join(os.getcwd(), "c25")
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base)
    f = case["folder"]
    if f >= len(FOLDERS):
        return "none-saved", base
    f = FOLDERS[f]
    if f == "cwd":
        return None, base
    t = os.path.join(base, "out")
    if f == "nested":
        t = os.path.join(base, "a", "b", "c")
    if f == "existing":
        os.makedirs(t)
    if f == "full":
        for d in ("figs", "data"):
            os.makedirs(os.path.join(t, d))
        open(os.path.join(t, "data", "data.txt"), "w").write("{\"old\": " + "1" * 9999)
    return t, t


def reader(fig):
    """what the map part of the figure shows"""
    im = figs.images(fig)
    return [(i, figs.scatters(i[0])) for i in im]


def verify_figs(saved, wds, depths, target, times, ctx):
    names = [os.path.join(target, "figs", "output%d.png" % i) for i in range(len(wds))]
    check([os.path.realpath(p) for p, _ in saved] ==
          [os.path.realpath(n) for n in names],
          "not exactly one figure per step", got=[p for p, _ in saved], expected=names, **ctx)
    for i, (path, shown) in enumerate(saved):
        maps = [(im, sc) for im, sc in shown if figs.shows(im, depths[i])]
        check(maps, "the figure does not show the depth of its step", step=i, **ctx)
        im, sc = maps[0]
        lo, hi = float(np.min(depths[i])), float(np.max(depths[i]))
        check(abs(im[2][0] - lo) < 1e-6 and abs(im[2][1] - hi) < 1e-6,
              "the colour range is not that of the depth shown", step=i, got=im[2],
              expected=(lo, hi), **ctx)
        start = [(float(y[0]), float(x[0])) for x, y in zip(wds[i]["xinds"],
                                                            wds[i]["yinds"])]
        now = [(float(y[-1]), float(x[-1])) for x, y in zip(wds[i]["xinds"],
                                                            wds[i]["yinds"])]
        check(len(sc) == 2 and sc[0][0] == start and sc[1][0] == now or
              len(sc) == 2 and sc[1][0] == start and sc[0][0] == now,
              "the markers are not at the start and current cells", step=i,
              got=[s[0] for s in sc], start=start, current=now, **ctx)
        if times:
            tt = [float(t[-1]) for t in wds[i]["travel_times"]]
            cur = [s[1] for s in sc if s[1] is not None]
            check(cur == [tt], "the marker colours are not the travel times", step=i,
                  got=cur, expected=tt, **ctx)


def verify_data(target, got, want, ctx):
    got = sim.plain(got)
    check(set(got) == set(want), "variables returned", got=sorted(got),
          expected=sorted(want), **ctx)
    for v in want:
        check(got[v] == want[v], "the returned walk is not the simulation done by hand",
              variable=v, got=got[v], expected=want[v], **ctx)
    if target is None:
        return
    with open(os.path.join(target, "data", "data.txt")) as f:
        saved = json.load(f)
    check(sim.plain(saved) == want, "data.txt is not the returned data", **ctx)


def listing(base):
    return sorted(os.path.relpath(os.path.join(d, f), base)
                  for d, _, fs in os.walk(base) for f in fs)


def run_case(case, st):
    here = os.getcwd()
    try:
        if case["kind"] == "unsteady":
            unsteady(case, st)
        elif case["kind"] == "real":
            real(case, st)
        else:
            steady(case, st)
    finally:
        os.chdir(here)
        shutil.rmtree(os.path.join(here, "c25"), ignore_errors=True)
        shutil.rmtree(os.path.join(here, "c25in"), ignore_errors=True)


def steady(case, st, realfigs=False):
    here = os.getcwd()
    track = TRACK[case["track"]]
    for word in case["words"]:
        os.chdir(here)
        arg, target = folder_of(case)
        os.chdir(os.path.join(here, "c25"))
        ctx = dict(routine=case["kind"], draws=word, iterations=case["iters"],
                   tracked=track, folder=arg)
        p, h = [pt.Particles(params(case["k"], track, case.get("wide", W)))
                for _ in range(2)]
        seeds(p, case["np"])
        seeds(h, case["np"])
        wds = []
        with rng.control(cyc(word)):
            for _ in range(case["pre"]):
                h.run_iteration()
            for _ in range(case["iters"]):
                wds.append(sim.snapshot(h.run_iteration()))
        with figs.capture(reader, real=realfigs) as cap:
            with rng.control(cyc(word)):
                for _ in range(case["pre"]):
                    p.run_iteration()
                if case["kind"] == "time":
                    got = rt.time_plots(p, case["iters"], folder_name=arg)
                elif arg == "none-saved":
                    got = rt.steady_plots(p, case["iters"], folder_name="x",
                                          save_output=False)
                else:
                    got = rt.steady_plots(p, case["iters"], folder_name=arg)
            saved = list(cap.saved)
            if arg == "none-saved":
                check(not saved and os.listdir(".") == [], "save_output=False writes",
                      got=os.listdir("."), **ctx)
                verify_data(None, got, sim.plain(wds[-1]), ctx)
            else:
                verify_data(target, got, sim.plain(wds[-1]), ctx)
                verify_figs(saved, wds, [h.depth] * len(wds), target,
                            case["kind"] == "time", ctx)
                want = sorted(["data/data.txt"] + ["figs/output%d.png" % i
                                                   for i in range(case["iters"])])
                check(listing(target) == want, "files in the folder", got=listing(target),
                      **ctx)
        st.state((case["kind"], case["k"], repr(sim.plain(wds[-1]))))
        st.transition(case["iters"])
        st.trace()
    st.sample({k: case[k] for k in case if k != "words"}, 1)


def write(base, case):
    os.makedirs(base)
    for k in range(case["files"]):
        f = dict(zip(("depth", "stage", "qx", "qy"), fields(k, case.get("wide", W))))
        name = case.get("names", ["00", "01", "02"])[k]
        if case["type"] == "npz":
            np.savez(os.path.join(base, "data%s.npz" % name), **f)
        for n, a in f.items():
            if case["type"] == "csv":
                np.savetxt(os.path.join(base, "%s_%s.csv" % (n, name)), a, delimiter=",",
                           fmt="%.17g")
            elif case["type"] == "npy":
                np.save(os.path.join(base, "%s_%s.npy" % (n, name)), a)
    open(os.path.join(base, "notes.txt"), "w").write("nothing")


class listed(object):
    """os.listdir of the directory in a prescribed order: the order of a directory is
    arbitrary, so the explorer chooses it"""

    def __init__(self, base, order):
        self.base, self.order = os.path.realpath(base), order

    def __enter__(self):
        self.old = os.listdir

        def listdir(p="."):
            r = sorted(self.old(p))
            if os.path.realpath(p) != self.base:
                return r
            out = []
            groups = {}
            for x in r:
                groups.setdefault(x[:2], []).append(x)
            for i, g in enumerate(sorted(groups)):
                perms = list(itertools.permutations(groups[g]))
                out += perms[(self.order + (i if self.order else 0)) % len(perms)]
            return out
        os.listdir = listdir

    def __exit__(self, *a):
        os.listdir = self.old
        return False


def by_hand(case, word, n, order):
    wds, depths, wd = [], [], None
    with rng.control(cyc(word)):
        for i in range(n):
            f = fields(order[i], case.get("wide", W))
            p = pt.modelParams()
            p.dx = 2.0
            p.depth, p.stage, p.qx, p.qy = f
            o = pt.Particles(p)
            if i == 0:
                o.generate_particles(case["np"], [2, 4, 6], [3, 5, 2])
            else:
                o.generate_particles(0, [], [], previous_walk_data=wd)
            wd = sim.snapshot(o.run_iteration(target_time=case["timestep"] * (i + 1)))
            wds.append(wd)
            depths.append(f[0])
    return wds, depths


def unsteady(case, st, realfigs=False):
    here = os.getcwd()
    base = os.path.join(here, "c25in")
    shutil.rmtree(base, ignore_errors=True)
    write(base, case)
    n = min(case["steps"], case["files"])
    ts = case["timestep"]
    # sets of files in time order; names of unequal length may be put in order as text or as
    # numbers, but the same way for every variable
    orders = [list(range(case["files"]))]
    if "names" in case:
        orders.append(sorted(orders[0], key=lambda k: case["names"][k]))
    for word in case["words"]:
        os.chdir(here)
        arg, target = folder_of(case)
        os.chdir(os.path.join(here, "c25"))
        ctx = dict(routine="unsteady", draws=word, steps=case["steps"], type=case["type"],
                   files=case["files"], order=case["order"], timestep=ts,
                   names=case.get("names"))
        hands = [by_hand(case, word, n, o) for o in orders]
        with figs.capture(reader, real=realfigs) as cap:
            with listed(base, case["order"]), rng.control(cyc(word)):
                got = rt.unsteady_plots(2.0, case["np"], [2, 4, 6], [3, 5, 2], case["steps"], ts,
                                        base, case["type"], folder_name=arg)
            saved = list(cap.saved)
            wds, depths = next((x for x in hands if sim.plain(x[0][-1]) == sim.plain(got)),
                               hands[0])
            verify_data(target, got, sim.plain(wds[-1]), ctx)
            verify_figs(saved, wds, depths, target, False, ctx)
            want = sorted(["data/data.txt"] + ["figs/output%d.png" % i for i in range(n)])
            check(listing(target) == want, "files in the folder", got=listing(target),
                  **ctx)
        st.add("walks_over_1000_cells", sum(len(x) > 1000 for x in wds[0]["xinds"]))
        st.add("walks_over_50_cells", sum(len(x) > 50 for x in wds[-1]["xinds"]))
        st.state(("unsteady", n, repr(sim.plain(wds[-1]))))
        st.transition(n)
        st.trace()
    st.sample({k: case[k] for k in case if k != "words"}, 2)


def real(case, st):
    """no stand-in for savefig: real png files"""
    base = {"words": [(0.06, 0.93, 0.48)], "folder": 2, "real": True, "np": 3}
    if case["routine"] == "unsteady":
        c = dict(base, kind="unsteady", type="npy", files=3, order=1, steps=2, timestep=5.0)
        n = 2
        unsteady(c, st, realfigs=True)
    else:
        c = dict(base, kind=case["routine"], iters=2, track=1, k=1, pre=1)
        n = 2
        steady(c, st, realfigs=True)
    t = os.path.join("a", "b", "c", "figs")
    for i in range(n):
        with open(os.path.join(t, "output%d.png" % i), "rb") as f:
            b = f.read()
        check(b[:4] == b"\x89PNG" and len(b) > 2000, "not a png file", step=i)


def finish(total, tier):
    check(total.n.get("walks_over_50_cells", 0) > 3, "vacuous: no long walks")
    check(total.n.get("walks_over_1000_cells", 0) > 3, "vacuous: no very long walks")
