"""C22: get_state / get_time_state on all small walk data."""
import itertools

import numpy as np

import dorado.routines as ro
from mc.core import Violation, check

ID = "C22"
LEVEL = "model_checking"
ASSUMPTIONS = ["an iteration number before a particle's first record gives its last one, "
               "like one beyond the end"]
BOUNDS = {
    "quick": "all combinations of 1..4 particles of 1..4 records x iterations -6..6 x "
             "tracked variables none/1/3; all non-decreasing time sequences of <=4 records "
             "over {0,0.5,1,2,4} (also offset by 2^27, and in units of 2^-20, 2^20) x 15 target times, for 1 and 2 particles; all time sequences of 2..4 records over 4 values in any order; 6 sets of up to 1100 particles or 40000 records",
    "thorough": "records to 6; 3 particles in time",
}
TT = [0.0, 0.5, 1.0, 2.0, 4.0]
# the same times later in a long simulation, in other units, and on a long time scale
UNITS = [(0.0, 1.0), (2.0 ** 27, 1.0), (0.0, 2.0 ** -20), (-64.0, 2.0 ** 20)]


def cases(tier):
    m = 4 if tier == "quick" else 6
    for n in range(0, 5):
        for tr in (0, 1, 3):
            yield {"k": "iter", "n": n, "m": m if n < 4 else 4, "tracked": tr}
    for a in range(1, m + 1):
        yield {"k": "time", "lens": [a]}
        for b in range(1, min(m, 4) + 1):
            yield {"k": "time", "lens": [min(a, 4), b]}
    for a in (2, 3, 4):
        yield {"k": "time", "lens": [a], "any": True}
    yield {"k": "time", "lens": [3, 2], "any": True}
    for s in range(6 if tier == "quick" else 24):
        yield {"k": "large", "n": s}
    if tier != "quick":
        for l in itertools.product((1, 2, 3), repeat=3):
            yield {"k": "time", "lens": list(l)}


NAMES = ["depth", "roi_flag", "zz"]


def walk(lens, times, tracked):
    wd = {"xinds": [[100 * q + k for k in range(n)] for q, n in enumerate(lens)],
          "yinds": [[1000 + 100 * q + k for k in range(n)] for q, n in enumerate(lens)],
          "travel_times": [list(t) for t in times]}
    for v in range(tracked):
        wd[NAMES[v]] = [[10 ** (4 + v) + 100 * q + k for k in range(n)]
                        for q, n in enumerate(lens)]
    return wd


def verify(got, wd, idx, tracked, ctx, st):
    check(len(got) == (4 if tracked else 3), "number of results", got=len(got), **ctx)
    for name, g in zip(("xinds", "yinds", "travel_times"), got):
        want = [wd[name][q][i] for q, i in enumerate(idx)]
        if list(g) != want:
            raise Violation("state look-up returns other records", variable=name,
                            got=list(g), expected=want, **ctx)
    if tracked:
        opt = got[3]
        check(set(opt) == set(NAMES[:tracked]), "tracked variables returned",
              got=sorted(opt), **ctx)
        for v in opt:
            want = [wd[v][q][i] for q, i in enumerate(idx)]
            if list(opt[v]) != want:
                raise Violation("state look-up mixes records", variable=v,
                                got=list(opt[v]), expected=want, **ctx)
    st.transition(max(1, len(idx)))
    st.trace()


def large(s, st):
    """hundreds of particles, thousands of records"""
    n = [300, 70, 1100, 2, 1, 260][s % 6]
    top = [40, 700, 9, 5000, 40000, 300][s % 6]
    lens = [1 + (q * 7919 + 13 * s + q * q) % top for q in range(n)]
    lens[n // 2] = top
    # uneven steps, some of no duration; all times exact, all pairs of equal distance too
    times = []
    for q, m in enumerate(lens):
        t = np.cumsum((np.arange(m) * 31 + q * q + s) % 5 * 0.5 + (q % 3 == 2) * 0.0)
        times.append((t - t[0] + 8.0 * (q % 7)).tolist())
    for tr in (0, 3):
        wd = walk(lens, times, tr)
        for it in (0, 1, 7, 8, 39, 99, 100, 127, 128, 255, 256, 257, 511, 699, 1023, 4096,
                   4999, 32767, 32768, 39999, 10 ** 6, -1):
            idx = [it if it < m else -1 for m in lens]
            verify(ro.get_state(wd, it), wd, idx, tr, dict(particles=n, longest=top,
                                                           iteration=it), st)
        for target in (0.0, 3.0, 3.25, 17.5, 40.25, 99.75, 127.0, 255.25, 300.5, 511.75,
                       1000.25, 4999.0, 32767.5, 39000.25, 65536.0, 1e9):
            idx = []
            for t in times:
                idx.append(int(np.argmin(np.abs(np.array(t) - target))))
            verify(ro.get_time_state(wd, target), wd, idx, tr,
                   dict(particles=n, longest=top, target_time=target), st)
        st.state(("large", s, tr))


def run_case(case, st):
    if case["k"] == "large":
        return large(case["n"], st)
    if case["k"] == "iter":
        for lens in itertools.product(range(1, case["m"] + 1), repeat=case["n"]):
            times = [[0.5 * k + q for k in range(n)] for q, n in enumerate(lens)]
            wd = walk(lens, times, case["tracked"])
            for it in list(range(-case["m"] - 2, case["m"] + 3)) + [None, 10 ** 6, np.int64(1)]:
                got = ro.get_state(wd) if it is None else ro.get_state(wd, it)
                i = -1 if it is None else int(it)
                idx = [i if -n <= i < n else -1 for n in lens]
                verify(got, wd, idx, case["tracked"], dict(lengths=lens, iteration=it), st)
                st.state((lens, it, case["tracked"]))
    else:
        lens = case["lens"]
        # (times can go back where diff_coeff exceeds 2)
        seqs = [list(itertools.product(TT[:4], repeat=n)) if case.get("any") else
                list(itertools.combinations_with_replacement(TT, n)) for n in lens]
        for m, times in enumerate(itertools.product(*seqs)):
            tr = [0, 1, 3][m % 3]
            wd = walk(lens, times, tr)
            base, unit = UNITS[m % 4 if len(lens) > 1 else m // 3 % 4]
            times = tuple(tuple(base + unit * t for t in s) for s in times)
            wd = walk(lens, times, tr)
            for target in (-1.0, 0.0, 0.2, 0.25, 0.5, 0.74, 0.75, 1.0, 1.5, 2, 3.0, 3.1,
                           99.0, 2.0 ** 27, -2.0 ** 27):
                idx = []
                target = base + unit * target
                for t in times:
                    d = [abs(x - target) for x in t]
                    idx.append(d.index(min(d)))
                verify(ro.get_time_state(wd, target), wd, idx, tr,
                       dict(times=times, target_time=target), st)
            st.state((times, tr))
        # lists of numpy values behave the same
        wd2 = {k: [[np.float64(x) if k == "travel_times" else np.int64(x) for x in p]
                   for p in wd[k]] for k in wd}
        verify(ro.get_time_state(wd2, 1.2), wd2,
               [int(np.argmin([abs(x - 1.2) for x in t])) for t in times], tr,
               dict(times=times, target_time=1.2), st)
    st.sample({"case": case}, 1)
