"""C07: particle seeding: every placement, all draw sequences of the random method."""
import itertools

import numpy as np

from mc import dom, rng, sim
from mc.core import Violation, check

ID = "C07"
LEVEL = "model_checking"
ASSUMPTIONS = ["random placement is judged on the complete product of draws over menus "
               "whose size is a multiple of the number of choices"]
BOUNDS = {
    "quick": "exact: Np 0..9 x seed lists of 1..4 pairs x 6 input kinds (2-d arrays included) x seed times; "
             "random: all draw products for up to 2 particles with up to 3x2 seeds "
             "(6^4 paths); 256..1000 seed locations; exact boundaries (1e-13) of the draws leading to each of 1..64 locations; "
             "call sequences of length 3 over 5 seedings; invalid inputs",
    "thorough": "exact: Np 0..25, lists up to 7; random with 3 particles (6^6 paths) and "
                "12-value menus; call sequences of length 4",
}


def cases(tier):
    q = tier == "quick"
    for n in range(1, 5 if q else 8):
        yield {"kind": "exact", "n": n, "max": 9 if q else 25}
    yield {"kind": "exact", "n": 23, "max": 120, "step": 17}
    for np_, nx, ny, m in [(1, 3, 2, 12), (2, 2, 3, 6), (2, 3, 1, 6), (1, 4, 3, 24),
                           (2, 1, 2, 6)] + ([] if q else [(3, 3, 2, 6), (2, 4, 3, 12)]):
        yield {"kind": "random", "np": np_, "nx": nx, "ny": ny, "menu": m}
    for np_, n, m in [(1, 2, 6), (2, 2, 6), (1, 3, 12)]:
        yield {"kind": "random", "np": np_, "nx": n, "ny": n, "menu": m, "same": True}
    for n in (1, 2, 3, 4, 5, 7, 10, 16, 64) + (() if q else (23, 100, 257)):
        yield {"kind": "edges", "n": n}
    for n in (256, 257, 300, 1000) if q else (256, 257, 300, 1000, 70000):
        yield {"kind": "many", "n": n}
    for u in (0.0, 1.0 - 2.0 ** -53, 2.0 ** -60):
        yield {"kind": "extreme", "u": u}
    for a in range(5):
        yield {"kind": "seq", "first": a, "len": 3 if q else 4}
    yield {"kind": "invalid"}


def obj(**kw):
    L, W = 30, 30
    return dom.particles(depth=np.ones((L, W)), stage=np.ones((L, W)),
                         qe=np.ones((L, W)), qn=np.zeros((L, W)), **kw)


def as_kind(v, kind):
    if kind == 0:
        return list(v)
    if kind == 1:
        return np.array(v)
    if kind == 2:
        return tuple(v)
    if kind == 3:
        return np.array(v).reshape(1, -1)
    if kind == 5:
        # several rows (read row by row) when the number of locations allows it
        return np.array(v).reshape(2, -1) if len(v) % 2 == 0 else np.array(v)[:, None]
    return [float(x) for x in v]


def run_case(case, st):
    k = case["kind"]
    if k == "exact":
        n = case["n"]
        xs = [(7 * i + 3) % 27 + 1 for i in range(n)]
        ys = [(5 * i + 2) % 25 + 2 for i in range(n)]
        if n >= 3:
            xs[2], ys[2] = xs[0], ys[0]          # repeated pair
        for np_ in range(0, case["max"] + 1, case.get("step", 1)):
            for kind in range(6):
                for t in (0, 2.5, -1, 100, 1234567.125, 1e-3):
                    p = obj()
                    a, b = as_kind(xs, kind), as_kind(ys, kind)
                    arg = [np_, float(np_), np.int64(np_)][(np_ + kind) % 3]
                    p.generate_particles(arg, a, b, seed_time=t, method="exact")
                    wd = p.walk_data
                    want = {"xinds": [[xs[i % n]] for i in range(np_)],
                            "yinds": [[ys[i % n]] for i in range(np_)],
                            "travel_times": [[t]] * np_}
                    got = {v: [[float(z) for z in r] for r in wd[v]] for v in want}
                    if got != {v: [[float(z) for z in r] for r in want[v]]
                               for v in want}:
                        raise Violation("'exact' seeding is not the round-robin "
                                        "assignment", Np=np_, seed_x=xs, seed_y=ys,
                                        kind=kind, seed_time=t, got=got, expected=want)
                    check(p.Np_tracer == np_, "Np_tracer wrong", got=p.Np_tracer, Np=np_)
                    st.transition()
                    st.state((n, np_, kind, t))
                    st.trace()
        st.sample({"Np": case["max"], "seed_x": xs, "seed_y": ys}, 1)
    elif k == "random":
        xs = [3, 8, 5, 20][:case["nx"]]
        ys = list(xs) if case.get("same") else [4, 9, 6][:case["ny"]]
        menu = rng.mid(case["menu"])
        p = obj()
        cnt = {}

        def prog():
            p.clear_walk_data()
            p.generate_particles(case["np"], xs, ys, seed_time=1.5)
            return p.walk_data

        def on(path, wd):
            check(p.Np_tracer == case["np"], "Np_tracer wrong")
            check([len(wd[v]) for v in ("xinds", "yinds", "travel_times")]
                  == [case["np"]] * 3 and all(len(r) == 1 for v in wd for r in wd[v]),
                  "wrong number of particles", walk_data=wd, Np=case["np"])
            check(all(r == [1.5] for r in wd["travel_times"]), "seed time not applied",
                  got=wd["travel_times"])
            key = tuple((a[0], b[0]) for a, b in zip(wd["xinds"], wd["yinds"]))
            for x, y in key:
                check(x in xs and y in ys, "particle seeded outside the seed locations",
                      draws=path, got=[x, y], seed_x=xs, seed_y=ys)
            cnt[key] = cnt.get(key, 0) + 1
            st.state(("random", case["nx"], case["ny"], key))
        paths, draws, trunc = rng.explore(prog, menu, 2 * case["np"], on)
        st.transition(draws)
        st.trace(paths)
        combos = (len(xs) * len(ys)) ** case["np"]
        if len(cnt) != combos or any(v * combos != paths for v in cnt.values()):
            raise Violation("random seeding is not uniform and independent over the seed "
                            "locations", Np=case["np"], seed_x=xs, seed_y=ys,
                            counts={str(a): v for a, v in cnt.items()}, paths=paths)
        st.sample({"Np": case["np"], "seed_x": xs, "seed_y": ys, "paths": paths}, 1)
    elif k == "many":
        # as many equally spaced draws as seed locations: each is chosen once
        n = case["n"]
        for along in (0, 1):
            p = obj()
            locs = [[3 + q for q in range(n)], [7]]
            if along:
                locs.reverse()
            step = max(1, n // 1000)
            for q in range(0, n, step):
                p.clear_walk_data()
                with rng.control(lambda: (q + 0.5) / n):
                    p.generate_particles(1, locs[0], locs[1])
                got = (p.walk_data["xinds"], p.walk_data["yinds"])
                want = ([[locs[0][0 if along else q]]], [[locs[1][q if along else 0]]])
                check(sim.same([list(map(list, g)) for g in got], list(want)),
                      "random seeding does not reach every seed location equally",
                      number_of_locations=n, draw=(q + 0.5) / n, got=got, expected=want)
                st.transition()
                st.state(("many", n, along, q))
            st.trace()
    elif k == "edges":
        # the exact set of draws leading to each seed location, by bisection
        n = case["n"]
        for along in (0, 1):
            p = obj()
            locs = [[3 + q for q in range(n)], [7]]
            if along:
                locs.reverse()

            def pick(u):
                p.clear_walk_data()
                with rng.control(lambda: u):
                    p.generate_particles(1, locs[0], locs[1])
                st.transition()
                x, y = p.walk_data["xinds"][0][0], p.walk_data["yinds"][0][0]
                return y if along else x
            grid = [0.0] + [(q + 0.37) / (2 * n) for q in range(2 * n)] + [rng.UMAX]
            val = [pick(u) for u in grid]
            size = {}
            lo = 0.0
            for q in range(1, len(grid)):
                a, b = grid[q - 1], grid[q]
                if val[q] == val[q - 1]:
                    continue
                while b - a > 1e-13:
                    m = 0.5 * (a + b)
                    if pick(m) == val[q - 1]:
                        a = m
                    else:
                        b = m
                size[val[q - 1]] = size.get(val[q - 1], 0.0) + b - lo
                lo = b
            size[val[-1]] = size.get(val[-1], 0.0) + 1.0 - lo
            check(sorted(size) == [3 + q for q in range(n)]
                  and all(abs(v - 1.0 / n) < 1e-9 for v in size.values()),
                  "seed locations are not equally likely", number_of_locations=n,
                  probabilities=size)
            st.state(("edges", n, along))
            st.trace()
    elif k == "extreme":
        for nx, ny, np_ in itertools.product((1, 2, 5), (1, 3, 25), (1, 4)):
            p = obj()
            xs, ys = list(range(2, 2 + nx)), list(range(1, 1 + ny))
            with rng.control(lambda: case["u"]):
                p.generate_particles(np_, as_kind(xs, nx % 4), as_kind(ys, ny % 4))
            check(len(p.walk_data["xinds"]) == np_, "wrong number of particles")
            for a, b in zip(p.walk_data["xinds"], p.walk_data["yinds"]):
                check(a[0] in xs and b[0] in ys, "seed outside the locations",
                      draw=case["u"], got=[a, b])
            st.transition()
            st.trace()
            st.state(("x", case["u"], nx, ny, np_))
        # duplicates weigh more
        p = obj()
        menu = rng.mid(12)
        hits = {3: 0, 9: 0}
        for u in menu:
            p.clear_walk_data()
            with rng.control(lambda: u):
                p.generate_particles(1, [3, 3, 9, 3], [2])
            hits[p.walk_data["xinds"][0][0]] += 1
        check(hits == {3: 9, 9: 3}, "repeated seed locations are not weighted", got=hits)
        for sx, sy in (([2], [3, 9, 9]), ([3, 9, 9, 9], [2]), ([4], [9, 3, 9, 3, 9, 3])):
            cnt = {}
            for u in menu:
                p.clear_walk_data()
                with rng.control(lambda: u):
                    p.generate_particles(1, sx, sy)
                c = (p.walk_data["xinds"][0][0], p.walk_data["yinds"][0][0])
                cnt[c] = cnt.get(c, 0) + 1
                st.transition()
            want = {}
            for c in itertools.product(sx, sy):
                want[c] = want.get(c, 0) + 12 // (len(sx) * len(sy))
            check(cnt == want, "repeated seed locations are not weighted", got=str(cnt),
                  expected=str(want), seed_x=sx, seed_y=sy)
    elif k == "seq":
        prev = {"xinds": [[11, 12], [13]], "yinds": [[2, 3], [14]],
                "travel_times": [[0, 3.0], [0.5]]}
        if case["first"] % 2:
            # values that were not available when the data were recorded
            prev["depth"] = [[None, float("nan")], [2.5]]

        def ops(i, p):
            if i == 0:
                p.generate_particles(1, [5], [6], method="exact")
                return [], [(5, 6, 0)]
            if i == 1:
                p.generate_particles(3, [7, 8], [1, 2], seed_time=4, method="exact")
                return [], [(7, 1, 4), (8, 2, 4), (7, 1, 4)]
            if i == 2:
                p.generate_particles(2, [9], [10], seed_time=0.5)
                return [], [(9, 10, .5)] * 2
            if i == 3:
                p.generate_particles(0, [], [], previous_walk_data=prev)
                return prev, []
            t = [0, -3.5][case["first"] // 2 % 2]
            p.generate_particles(1, [20], [21], seed_time=t, previous_walk_data=prev,
                                 method="exact")
            return prev, [(20, 21, t)]
        p0 = None
        for tail in itertools.product(range(5), repeat=case["len"] - 1):
            p = obj(particle_variables=["depth"]) if sum(tail) % 2 else obj()
            model = []
            for i in (case["first"],) + tail:
                pre, new = ops(i, p)
                if pre:
                    model = [(pre["xinds"][q], pre["yinds"][q], pre["travel_times"][q])
                             for q in range(2)] + model
                if pre and "depth" in p.walk_data:
                    d = p.walk_data["depth"]
                    want = pre.get("depth", [[None, None], [None]])
                    check(sim.same([list(x) for x in d[:2]], want), "tracked values of "
                          "previous walk data were changed", got=d[:2], expected=want)
                model = model + [([a], [b], [c]) for a, b, c in new]
                got = sim.plain({v: p.walk_data[v] for v in
                                 ("xinds", "yinds", "travel_times")})
                want = sim.plain({"xinds": [m[0] for m in model],
                                  "yinds": [m[1] for m in model],
                                  "travel_times": [m[2] for m in model]})
                if got != want:
                    raise Violation("order or content of particles after several "
                                    "seedings is wrong", calls=(case["first"],) + tail,
                                    got=got, expected=want)
                check(p.Np_tracer == len(model), "Np_tracer wrong", got=p.Np_tracer)
                st.transition()
                st.state(repr(got))
            st.trace()
    else:
        p = obj()
        bad = [(("a", [1], [1]), {}, TypeError), ((None, [1], [1]), {}, TypeError),
               ((1, 5, [1]), {}, TypeError), ((1, [1], 5), {}, TypeError),
               ((1, ["q"], [1]), {}, TypeError), ((1, [1], [None]), {}, TypeError),
               ((1, [1], [1]), {"seed_time": "0"}, TypeError),
               ((1, [1], [1]), {"seed_time": None}, TypeError),
               ((1, [1], [1]), {"seed_time": [1]}, TypeError),
               ((1, [1], [1]), {"method": 5}, TypeError),
               ((1, [1], [1]), {"method": None}, TypeError),
               ((1, [1], [1]), {"method": "Exact"}, ValueError),
               ((1, [1], [1]), {"method": "uniform"}, ValueError),
               ((1, [1], [1]), {"method": ""}, ValueError)]
        for state in (0, 1):
            if state:
                p.generate_particles(1, [3], [4], method="exact")
            for a, kw, exc in bad:
                before = sim.snapshot(p.walk_data)
                try:
                    p.generate_particles(*a, **kw)
                except exc:
                    pass
                else:
                    raise Violation("invalid arguments accepted", args=a, kwargs=kw,
                                    expected=exc.__name__)
                check(sim.same(before, p.walk_data), "a rejected call changed the walk "
                      "data", args=a, kwargs=kw)
                st.transition()
                st.state(("bad", state, repr(a), repr(kw)))
            st.trace()
