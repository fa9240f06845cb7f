"""C21: flux-proportional seeding against exact rational arithmetic."""
import itertools
from fractions import Fraction
from math import floor

import numpy as np

import dorado.particle_track as pt
from mc import dom
from mc.core import Violation, check

ID = "C21"
LEVEL = "model_checking"
ASSUMPTIONS = ["fractional parts within 1e-9 of one another count as equal"]
BOUNDS = {
    "quick": "all discharge series of length 1..5 over 6 values (negative, zero, "
             "non-representable ratios) x N_total 0..14 and 100, 1000; five units of discharge (2^-200..2^200), float and integer "
             "arrays, 1-D and one column; all num_steps; series of up to 1023 steps, up to 1e9 particles",
    "thorough": "length 1..7 over 6 values, all N_total 0..20",
}
VALS = [0.0, 1.0, -1.0, 0.5, 3.0, -0.7]


def cases(tier):
    m = 5 if tier == "quick" else 7
    for n in range(1, m + 1):
        of = 1 if n < 4 else (6 if n < 6 else 48)
        for part in range(of):
            yield {"k": "series", "n": n, "part": part, "of": of,
                   "N": list(range(15)) + [100, 1000] if n < 6 else [0, 1, 2, 3, 5, 7, 11,
                                                                   20, 100]}
    yield {"k": "long"}
    yield {"k": "errors"}


def verify(q, N, got, st):
    a = [abs(Fraction(float(x))) for x in np.ravel(q)]
    tot = sum(a)
    g = [x for x in np.ravel(np.asarray(got))]
    ctx = dict(Q=np.asarray(q), N_total=N, got=got)
    check(len(g) == len(a), "not one count per timestep", **ctx)
    check(all(float(x) == int(x) and x >= 0 for x in g), "counts are not non-negative "
          "integers", **ctx)
    check(sum(int(x) for x in g) == N, "the counts do not add up to N_total",
          total=int(sum(g)), **ctx)
    lo, up = None, None
    # double precision resolves fractions of large counts only so far
    eps = Fraction(1, 10 ** 9) + Fraction(N * len(a), 2 ** 50)
    for x, v in zip(g, a):
        ideal = v * N / tot
        f = floor(ideal)
        frac = ideal - f
        d = int(x) - f
        near1 = frac > 1 - eps
        near0 = frac < eps
        if v == 0:
            check(x == 0, "particles seeded at zero discharge", **ctx)
        if near1:
            # numerically the next integer
            d, frac, near0 = d - 1, Fraction(0), True
        if near0:
            check(d == 0, "a count differs from its exactly proportional integer value",
                  ideal=float(ideal), count=int(x), **ctx)
            continue
        check(d in (0, 1), "a count is neither the floor nor the ceiling of the "
              "proportional value", ideal=float(ideal), count=int(x), **ctx)
        if d:
            lo = frac if lo is None else min(lo, frac)
        else:
            up = frac if up is None else max(up, frac)
    if lo is not None and up is not None:
        check(lo >= up - eps, "an extra particle went to a smaller "
              "fractional part", **ctx)
    st.transition()


def run_case(case, st):
    if case["k"] == "series":
        n = case["n"]
        for m, q in enumerate(itertools.product(VALS, repeat=n)):
            if m % case["of"] != case["part"]:
                continue
            forms = [np.array(q), np.array(q).reshape(-1, 1)]
            # other units of discharge: the counts are the same
            unit = [2.0 ** -40, 2.0 ** 40, 2.0 ** -200, 1.0 / 1024, 2.0 ** 200][m % 5]
            forms.append(np.array(q) * unit)
            if all(x == int(x) for x in q):
                forms.append(np.array(q).astype(int))
            for N in case["N"]:
                for k, Q in enumerate(forms):
                    ns = 1 + (m + N) % n
                    if not any(q):
                        try:
                            pt.flux_proportional_seeding(Q, N, ns)
                        except ValueError:
                            continue
                        raise Violation("all-zero discharge accepted", Q=Q)
                    verify(q, N, pt.flux_proportional_seeding(Q.copy(), N, ns), st)
                if any(q) and N % 5 == 1:
                    a = pt.flux_proportional_seeding(np.array(q), N, n)
                    b = pt.flux_proportional_seeding(-np.array(q), N, n)
                    check(np.array_equal(a, b), "the sign of the discharge matters",
                          Q=q, N_total=N, got=[a, b])
            st.trace()
            st.state(q)
        st.sample({"length": n, "values": VALS}, 1)
    elif case["k"] == "long":
        for s in range(60):
            for n in (2, 3, 5, 8):
                q = [(dom.h64(s, i, n) % 2000 - 999.5) / 7.0 for i in range(n)]
                for N in (32000, 40001, 65536, 99999, 10 ** 6, 12345678, 10 ** 9 + 7):
                    verify(q, N, pt.flux_proportional_seeding(np.array(q), N, n), st)
            # discharges of very different magnitude
            q = [[1.0, 1e-7, -3e-8, 2e-9, 0.0, 0.4][dom.h64(s, i, 5) % 6]
                 for i in range(2 + s % 6)] + [-1.0]
            for N in (7, 10 ** 6, 10 ** 8, 10 ** 9 + 7):
                verify(q, N, pt.flux_proportional_seeding(np.array(q), N, 1), st)
            n = 20 + s * 17
            q = [0.0 if dom.h64(s, i) % 9 == 0 else
                 (dom.h64(s, i, 1) % 2000 - 1000) / 7.0 for i in range(n)]
            for N in (1, n - 1, n, 10 * n + 3, 100003):
                verify(q, N, pt.flux_proportional_seeding(np.array(q), N, n), st)
                verify(q, N, pt.flux_proportional_seeding(np.array(q)[:, None], N, n), st)
            st.trace()
            st.state(("long", s))
    else:
        for n in range(1, 7):
            for k in range(1, 10):
                for Q in (np.ones(n), np.ones((n, 1))):
                    st.transition()
                    st.trace()
                    st.state((n, k, Q.ndim))
                    try:
                        pt.flux_proportional_seeding(Q, 5, k)
                        ok = True
                    except ValueError:
                        ok = False
                    check(ok == (n >= k), "number of timesteps in the discharge array "
                          "versus num_steps", rows=n, num_steps=k, accepted=ok)
