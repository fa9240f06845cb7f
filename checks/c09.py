"""C09: every break point and carrier of a bounded run, for all draw sequences."""
import copy
import itertools
import json

import numpy as np

from mc import dom, rng, sim
from mc.core import Violation, check

ID = "C09"
LEVEL = "model_checking"
ASSUMPTIONS = ["the resumed run is given the remaining draws of the uninterrupted one"]
BOUNDS = {
    "quick": "runs of 4 calls (step / target time / further seeding) x every subset of "
             "break points x 7 ways of carrying the data over x 4 configurations (tracked variables, steepest descent); "
             "draw streams: all 2-value sequences of length 6 (5 for half of the configurations), then repeating; runs of 150 calls broken in 12 places and in 22 at once",
    "thorough": "runs of 5 calls, all 2-value draw sequences of length 8",
}
CONFIGS = [[], ["depth"], ["u", "stage", "roi_flag"], ["qx"]]
STEEP = [False, False, False, True]
SCRIPTS4 = ["SSSS", "TTTT", "STST", "SGST", "GTTS", "SSGT", "TSSG"]
SCRIPTS5 = ["SSSSS", "TTTTT", "STSTS", "SGSTS", "GTTSG", "SSGTT"]
CARRY = ["same-clear", "new", "new-deepcopy", "new-json", "attr", "new-addseed", "used"]


def cases(tier):
    q = tier == "quick"
    for cfg in range(len(CONFIGS)):
        for s in (SCRIPTS4 if q else SCRIPTS5):
            for c in CARRY:
                yield {"cfg": cfg, "script": s, "carry": c, "bits": (6 if q else 8) - cfg % 2}
    for cfg in range(len(CONFIGS)):
        for c in CARRY:
            yield {"cfg": cfg, "carry": c, "long": 150 if q else 400}


WIDE = (40, 190)


def make(cfg, shape=(9, 11)):
    L, W = shape
    depth = dom.field(L, W, 7, [1.0, 2.0, 1.0, 0.5])
    stage = dom.field(L, W, 8, [2.0, 1.95, 1.9] if W < 100 else [2.0, 1.99]) - 0.05 * np.arange(W)
    depth[5, 3] = 0.0      # one particle starts on a dry cell: its stage is NaN
    qe = np.full((L, W), 0.6)
    qe[4, 6] = -0.3
    kw = {}
    if CONFIGS[cfg]:
        kw["particle_variables"] = list(CONFIGS[cfg])
    if "roi_flag" in CONFIGS[cfg]:
        kw["roi_grid"] = (dom.field(L, W, 5, [0, 1, 1]) == 1).astype(int)
    return dom.particles(depth=depth, stage=stage, qe=qe, qn=[0.3, -0.1][W > 100] * qe, dx=1.0,
                         diff_coeff=0.5, gamma=0.3,
                         steepest_descent=True if STEEP[cfg] else None, **kw)


def op(p, c, n):
    if c == "S":
        return p.run_iteration()
    if c == "T":
        return p.run_iteration(target_time=2.5 * (n + 1), max_iter=6)
    p.generate_particles(1, [3 + n % 3, 5], [3, 2], seed_time=2.5 * n)
    return p.walk_data


def seed(p):
    p.generate_particles(2, [4, 5], [2, 3], method="exact")


def run_plain(cfg, script, draws, shape=(9, 11)):
    p = make(cfg, shape)
    with rng.control(draws):
        seed(p)
        for n, c in enumerate(script):
            op(p, c, n)
    return sim.plain(p.walk_data)


def run_broken(cfg, script, draws, breaks, carry, ctx, shape=(9, 11)):
    p = make(cfg, shape)
    with rng.control(draws):
        seed(p)
        wd = p.walk_data
        for n, c in enumerate(script):
            if n in breaks:
                carried = wd
                if carry == "new-deepcopy":
                    carried = copy.deepcopy(wd)
                elif carry == "new-json":
                    carried = json.loads(json.dumps(wd))
                keep = copy.deepcopy(carried)
                if carry == "same-clear":
                    p.clear_walk_data()
                    p.generate_particles(0, [], [], previous_walk_data=carried)
                elif carry == "used":
                    # into an object that already has particles of its own
                    p = make(cfg, shape)
                    p.generate_particles(2, [6, 3], [6, 2], seed_time=1.0, method="exact")
                    own = copy.deepcopy(p.walk_data)
                    p.generate_particles(0, [], [], previous_walk_data=carried)
                    both = {k: list(carried[k]) + list(own[k]) for k in own}
                    if sim.plain(p.walk_data) != sim.plain(both):
                        raise Violation("the object does not hold the carried particles "
                                        "followed by its own", got=sim.plain(p.walk_data),
                                        expected=sim.plain(both), **ctx)
                    p.clear_walk_data()
                    p.generate_particles(0, [], [], previous_walk_data=carried)
                elif carry == "attr":
                    p = make(cfg, shape)
                    p.walk_data = carried
                elif carry == "new-addseed" and c == "G":
                    # the further seeding is the one that brings the old data along
                    p = make(cfg, shape)
                    p.generate_particles(1, [3 + n % 3, 5], [3, 2], seed_time=2.5 * n,
                                         previous_walk_data=carried)
                    wd = p.walk_data
                    if not sim.same(keep, carried):
                        raise Violation("previous_walk_data was modified", **ctx)
                    continue
                else:
                    p = make(cfg, shape)
                    p.generate_particles(0, [], [], previous_walk_data=carried)
                if not sim.same(keep, carried):
                    raise Violation("previous_walk_data was modified by seeding", **ctx)
                wd = op(p, c, n)
                if carry != "attr" and not sim.same(keep, carried):
                    raise Violation("previous_walk_data was modified by routing on",
                                    before=keep, after=carried, **ctx)
                continue
            wd = op(p, c, n)
    return sim.plain(p.walk_data)


def run_long(case, st):
    """one long run, broken off once in every place (a twelfth of them per way)"""
    cfg, carry, n = case["cfg"], case["carry"], case["long"]
    for kind in ("S", "ST", "SSSSGTS"):
        script = [kind[i % len(kind)] if i % 17 or kind != "S" else "G" for i in range(n)]

        def draws():
            return rng.lcg(5 * cfg + len(kind))
        want = run_plain(cfg, script, draws(), WIDE)
        for b in [(k,) for k in range(3 + CARRY.index(carry), n, n // 12)] + [
                tuple(range(0, n, 7))]:
            ctx = dict(script="".join(script), breaks=b, carry=carry,
                       tracked=CONFIGS[cfg])
            got = run_broken(cfg, script, draws(), b, carry, ctx, WIDE)
            if got != want:
                raise Violation("the resumed simulation differs from the uninterrupted "
                                "one", got=got, expected=want, **ctx)
            st.transition(n)
            st.trace()
        st.state(("long", cfg, kind, repr(want)))


def run_case(case, st):
    if "long" in case:
        return run_long(case, st)
    cfg, script, carry = case["cfg"], case["script"], case["carry"]
    n = len(script)
    subsets = [b for r in range(1, n + 1) for b in itertools.combinations(range(n), r)]
    vals = [0.12, 0.81]
    for m, bits in enumerate(itertools.product(vals, repeat=case["bits"])):
        def draws(bits=bits):
            i = [0]

            def f():
                v = bits[i[0] % len(bits)]
                # the tail is the repeated, slightly changed sequence
                w = (v + 0.037 * (i[0] // len(bits))) % 1.0
                i[0] += 1
                return w
            return f
        want = run_plain(cfg, script, draws())
        # all subsets for a quarter of the streams, single breaks and the full set else
        subs = subsets if m % 4 == 0 else [b for b in subsets if len(b) in (1, n)]
        for b in subs:
            ctx = dict(script=script, breaks=b, carry=carry, tracked=CONFIGS[cfg],
                       draws=bits)
            got = run_broken(cfg, script, draws(), b, carry, ctx)
            if got != want:
                raise Violation("the resumed simulation differs from the uninterrupted "
                                "one", got=got, expected=want, **ctx)
            st.transition(n)
            st.trace()
            st.state((cfg, script, repr(got)))
    st.sample({"script": script, "carry": carry, "result": want}, 1)
