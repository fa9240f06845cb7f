"""C15: exposure time of every region-membership path up to a length."""
import itertools
import logging

import numpy as np

import dorado.particle_track as pt
from mc import dom, sim
from mc.core import Violation, check

ID = "C15"
LEVEL = "model_checking"
ASSUMPTIONS = [
    "regions are 0/1 arrays of a numeric (not boolean) type, as documented",
    "a particle with a single record inside the region may or may not be reported as "
    "still inside (it has made no step)",
]
BOUNDS = {
    "quick": "all 2^7 membership paths of every length 1..7 x all assignments of 3 step "
             "durations (lengths <= 5; 5 patterns beyond), as single particles, pairs of "
             "all paths of length <= 4, groups of all paths at once; records of up to 70001 cells, 3000 particles; several layouts of the "
             "region; complement and all 2-splits of the region",
    "thorough": "length 10; all assignments up to length 7; pairs to length 5",
}
DT = (1.0, 0.0, 2.5)


def cases(tier):
    q = tier == "quick"
    for n in range(1, (7 if q else 10) + 1):
        yield {"k": "all", "n": n, "full": n <= (5 if q else 7)}
    for a in range(1, (4 if q else 5) + 1):
        for b in range(1, (4 if q else 5) + 1):
            yield {"k": "pair", "a": a, "b": b}
    for n in range(2, (6 if q else 8)):
        yield {"k": "split", "n": n}
    yield {"k": "routed"}
    yield {"k": "long"}


class Log(logging.Handler):
    def __init__(self):
        logging.Handler.__init__(self)
        self.msgs = []

    def emit(self, rec):
        self.msgs.append(rec.getMessage())


def exposure(wd, region):
    lg = logging.getLogger("dorado")
    h = Log()
    old = lg.level
    lg.setLevel(logging.INFO)
    lg.addHandler(h)
    try:
        r = pt.exposure_time(wd, region)
    finally:
        lg.removeHandler(h)
        lg.setLevel(old)
    return r, "\n".join(h.msgs)


# layouts: cells standing for "in" and "out" (several of each, used in turn)
def layout(k):
    if k == 0:
        return [(0, 0), (0, 1), (1, 0)], [(2, 3), (1, 3), (0, 3)], (3, 4)
    if k == 1:
        return [(4, 1), (0, 0)], [(3, 0), (0, 1), (4, 0)], (5, 2)
    return [(0, 5), (1, 5), (1, 4)], [(0, 0)], (2, 6)


def region(k, dtype=int):
    ins, outs, shape = layout(k)
    g = np.zeros(shape, dtype=dtype)
    for c in ins:
        g[c] = 1
    return g


def walk(paths, durs, k, t0=0.0):
    ins, outs, shape = layout(k)
    wd = {"xinds": [], "yinds": [], "travel_times": []}
    for path, dur in zip(paths, durs):
        cells = [(ins if m else outs)[(n + len(path)) % len(ins if m else outs)]
                 for n, m in enumerate(path)]
        t = [t0]
        for d in dur:
            t.append(t[-1] + d)
        wd["xinds"].append([c[0] for c in cells])
        wd["yinds"].append([c[1] for c in cells])
        wd["travel_times"].append(t)
    return wd


def expect(path, dur):
    tot = 0.0
    for n in range(1, len(path)):
        tot += dur[n - 1] * (path[n] + path[n - 1]) / 2.0
    return tot


def compare(wd, g, want, must, may, ctx, st):
    got, msg = exposure(wd, g)
    check(len(got) == len(want), "not one exposure time per particle", got=len(got),
          **ctx)
    for q in range(len(want)):
        if abs(float(got[q]) - want[q]) > 1e-9 * max(1.0, want[q]):
            raise Violation("exposure time is not the sum of whole steps inside and half "
                            "of each crossing step", particle=q, got=got[q],
                            expected=want[q], x=wd["xinds"][q], y=wd["yinds"][q],
                            times=wd["travel_times"][q], **ctx)
    reported = None
    if "Particles are:" in msg:
        txt = msg.split("Particles are:", 1)[1].split("]")[0].strip(" [")
        reported = [int(float(x)) for x in txt.split(",") if x.strip()]
    elif not msg:
        reported = []
    if reported is not None:
        ok = [q for q in reported if q not in may]
        check(sorted(ok) == sorted(must), "particles reported as still inside are not "
              "those whose last record is inside", reported=reported, expected=must,
              **ctx)
        if reported:
            n = msg.strip().split()[0]
            check(n.isdigit() and int(n) == len(reported), "number of particles reported "
                  "as still inside", message=msg, **ctx)
    elif must:
        raise Violation("particles still inside are not reported", message=msg, **ctx)
    st.transition(sum(len(x) - 1 for x in wd["xinds"]) or 1)
    st.trace()
    return got


def ends(paths):
    must = [q for q, p in enumerate(paths) if p[-1] and len(p) > 1]
    may = [q for q, p in enumerate(paths) if p[-1] and len(p) == 1]
    return must, may


def durations(n, full):
    if full:
        return list(itertools.product(DT, repeat=n - 1))
    m = n - 1
    return [tuple(2.0 ** (i - 3) for i in range(m)), (1.0,) * m,
            tuple(DT[i % 3] for i in range(m)), tuple(DT[(i // 2) % 3] for i in range(m)),
            tuple(10.0 ** (m - i - 4) for i in range(m))]


def run_case(case, st):
    kind = case["k"]
    if kind == "all":
        n = case["n"]
        paths = list(itertools.product((0, 1), repeat=n))
        for d in durations(n, case["full"]):
            for k in range(3):
                t0 = [0.0, 100.0, -5.0][k]
                g = region(k, [int, float, np.uint8][k])
                # all paths together: a group of 2^n particles
                wd = walk(paths, [d] * len(paths), k, t0)
                want = [expect(p, d) for p in paths]
                must, may = ends(paths)
                e = compare(wd, g, want, must, may, {"layout": k}, st)
                # the complement: the two add up to the total travel time
                c, _ = exposure(wd, (1 - g.astype(int)).astype(g.dtype))
                for q in range(len(paths)):
                    check(abs(e[q] + c[q] - sum(d)) < 1e-9 * max(1, sum(d)),
                          "exposure to a region and to its complement do not add up to "
                          "the travel time", path=paths[q], durations=d, got=[e[q], c[q]])
        for p in paths:
            # alone
            for d in durations(n, n <= 4):
                wd = walk([p], [d], 0)
                compare(wd, region(0), [expect(p, d)], *ends([p]), ctx={"single": p},
                        st=st)
                st.state((p, d))
        st.sample({"paths": len(paths), "durations": durations(n, case["full"])[-1]}, 1)
    elif kind == "pair":
        for p in itertools.product((0, 1), repeat=case["a"]):
            for r in itertools.product((0, 1), repeat=case["b"]):
                for k in range(2):
                    d = [tuple(DT[(i + k) % 3] for i in range(case["a"] - 1)),
                         tuple(3.0 + i for i in range(case["b"] - 1))]
                    wd = walk([p, r], d, k)
                    compare(wd, region(k), [expect(p, d[0]), expect(r, d[1])],
                            *ends([p, r]), ctx={"paths": [p, r]}, st=st)
                    st.state((p, r))
    elif kind == "split":
        # a region of three cells, cut in two in every way; paths over 5 cells
        cells = [(0, 0), (0, 1), (1, 1), (2, 2), (2, 0)]
        n = case["n"]
        for m, path in enumerate(itertools.product(range(5), repeat=n)):
            d = [DT[(i + m) % 3] + 0.25 * i for i in range(n - 1)]
            t = [0.0]
            for x in d:
                t.append(t[-1] + x)
            wd = {"xinds": [[cells[c][0] for c in path]],
                  "yinds": [[cells[c][1] for c in path]], "travel_times": [t]}
            part = []
            for mask in range(1 << 3):
                g = np.zeros((3, 3), dtype=int)
                for b in range(3):
                    if mask >> b & 1:
                        g[cells[b]] = 1
                part.append(float(exposure(wd, g)[0][0]))
                st.transition(n - 1)
            for mask in range(8):
                comp = 7 & ~mask
                check(abs(part[mask] + part[comp] - part[7]) < 1e-9,
                      "exposure to two disjoint regions does not add up to that of their "
                      "union", path=[cells[c] for c in path], times=t, mask=mask,
                      parts=[part[mask], part[comp]], union=part[7])
            w = sum(d[i - 1] * ((path[i] < 3) + (path[i - 1] < 3)) / 2.0
                    for i in range(1, n))
            check(abs(part[7] - w) < 1e-9, "exposure time differs", got=part[7],
                  expected=w, path=[cells[c] for c in path], times=t)
            st.trace()
    elif kind == "long":
        # long records and many particles
        for n in (300, 12000, 70001):
            pat = [int(dom.h64(n, i) // 5 % 3 == 0) for i in range(n)]
            d = [DT[dom.h64(n, i, 1) // 7 % 3] for i in range(n - 1)]
            paths = [pat, [1 - x for x in pat], [0] * (n - 1) + [1], [1] * n, [1, 0]]
            durs = [d, d, d, d, [2.0]]
            wd = walk(paths, durs, n % 3)
            compare(wd, region(n % 3), [expect(p, e) for p, e in zip(paths, durs)],
                    *ends(paths), ctx={"records": n}, st=st)
            st.state(("long", n))
        paths = [[(q >> 1) & 1, q & 1, (q >> 2) & 1] for q in range(3000)]
        durs = [[1.0, 0.5 * (q % 5)] for q in range(3000)]
        wd = walk(paths, durs, 0)
        compare(wd, region(0), [expect(p, e) for p, e in zip(paths, durs)], *ends(paths),
                ctx={"particles": 3000}, st=st)
    else:
        # walk data as routing produces it (numpy integers and floats, JSON numbers)
        import json
        from mc import rng
        for s in range(12):
            L, W = 9, 10
            p = dom.particles(depth=np.ones((L, W)),
                              stage=dom.field(L, W, s, [1.0, 1.1, 0.9]),
                              qe=np.full((L, W), 0.5),
                              qn=dom.field(L, W, s + 1, [0.5, -0.5, 0.0]),
                              particle_variables=["depth"])
            with rng.control(rng.lcg(s)):
                p.generate_particles(6, [3, 4, 5], [2, 3, 4])
                for _ in range(5):
                    p.run_iteration()
                p.run_iteration(target_time=40.)
                p.generate_particles(1, [4], [4])
            g = dom.field(L, W, s + 3, [0, 1, 1]).astype(int)
            for wd in (p.walk_data, json.loads(json.dumps(p.walk_data))):
                paths = [[int(g[int(x), int(y)]) for x, y in zip(a, b)]
                         for a, b in zip(wd["xinds"], wd["yinds"])]
                want = [expect(m, [b - a for a, b in zip(t, t[1:])])
                        for m, t in zip(paths, wd["travel_times"])]
                r = compare(wd, g, want, *ends(paths), ctx={"routed": s}, st=st)
                check(isinstance(r, list), "result is not a list", got=type(r).__name__)
                json.dumps(r)
            st.state(("routed", s))
