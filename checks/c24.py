"""C24: logging configuration: reachable states and all call sequences."""
import io
import itertools
import logging
import sys
import warnings

import numpy as np

import dorado
from dorado import logging_config as lc
from mc import dom
from mc.core import check

ID = "C24"
LEVEL = "model_checking"
ASSUMPTIONS = ["handlers have no filter; a handler with a level of its own receives the "
               "records of at least that level too, and keeps it; the logger starts "
               "without handlers",
               "the default handler is recognised as the one nobody supplied, writing to "
               "the standard error stream of the moment it was installed"]
BOUNDS = {
    "quick": "23 operations (levels in any case, 3 handlers incl. one that is empty and "
             "hence false, invalid levels, verbose flags, Particles(verbose)): all "
             "sequences up to 3, and every operation in every reachable state (with and "
             "without handlers on the root logger)",
    "thorough": "all sequences up to 4",
}


class Rec(logging.Handler):
    def __init__(self):
        logging.Handler.__init__(self)
        self.got = []

    def emit(self, r):
        self.format(r)
        self.got.append((r.levelno, r.getMessage()))


class Lst(Rec):
    """a handler that is also a container (false while it is empty)"""

    def __len__(self):
        return len(self.got)


LEVELS = {"DEBUG": 10, "INFO": 20, "WARNING": 30, "ERROR": 40, "CRITICAL": 50}
OPS = [["set", l, h] for l in ("debug", "Info", "ERROR") for h in (None, 0, 1)]
OPS += [["set", "warning", 2], ["set", "CRITICAL", None], ["set", "DEBUG", 2],
        ["default"], ["defaulth", 0]]
OPS += [["bad", l, h] for l, h in (("INVALID", None), ("", 1), (10, None), (None, 0))]
OPS += [["verbose", v] for v in (True, False, None)]
OPS += [["obj", v] for v in (True, False)]
assert len(OPS) == 23


class World(object):
    def __init__(self, rooted=False):
        self.log = logging.getLogger("dorado")
        # the application may have configured the root logger on its own
        self.root = list(logging.getLogger().handlers)
        logging.getLogger().handlers[:] = [Rec()] if rooted else []
        for h in list(self.log.handlers):
            self.log.removeHandler(h)
        self.log.setLevel(logging.WARNING)
        self.h = [Rec(), Rec(), Lst()]
        self.h[1].setLevel(35)      # chosen by its owner
        self.err = sys.stderr
        self.out = sys.stderr = io.StringIO()
        # model
        self.level = logging.WARNING
        self.supplied = []
        self.default = False

    def close(self):
        sys.stderr = self.err
        logging.getLogger().handlers[:] = self.root
        for h in list(self.log.handlers):
            self.log.removeHandler(h)
        self.log.setLevel(logging.NOTSET)
        self.log.disabled = False
        self.log.propagate = True

    def expect(self, level, h=None):
        self.level = level
        if h is not None:
            if h not in self.supplied:
                self.supplied.append(h)
        elif not self.supplied:
            self.default = True

    def do(self, op, ctx):
        k = op[0]
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            if k == "set":
                dorado.setup_logging(op[1], handler=None if op[2] is None
                                     else self.h[op[2]])
                self.expect(LEVELS[op[1].upper()], op[2])
            elif k == "default":
                dorado.setup_logging()
                self.expect(30)
            elif k == "defaulth":
                dorado.setup_logging(handler=self.h[op[1]])
                self.expect(30, op[1])
            elif k == "bad":
                try:
                    dorado.setup_logging(op[1], handler=None if op[2] is None
                                         else self.h[op[2]])
                except ValueError:
                    pass
                except Exception as e:
                    check(False, "an invalid level raises something else than ValueError",
                          got=repr(e), **ctx)
                else:
                    check(False, "an invalid level is accepted", level=op[1], **ctx)
            elif k == "verbose":
                lc.handle_verbose_deprecation(op[1])
            else:
                import dorado.particle_track as pt
                p = dom.params(depth=np.ones((5, 5)), qe=np.ones((5, 5)),
                               qn=np.zeros((5, 5)), stage=np.ones((5, 5)))
                p.verbose = op[1]
                pt.Particles(p)
        if k in ("verbose", "obj"):
            dep = [x for x in w if issubclass(x.category, DeprecationWarning)
                   and "verbose" in str(x.message)]
            if op[1] is None:
                check(not dep, "a deprecation warning for verbose=None", **ctx)
            else:
                check(dep, "no DeprecationWarning for the verbose flag", **ctx)
                self.expect(20 if op[1] else 40)

    def verify(self, ctx):
        log = self.log
        check(log.level == self.level and log.getEffectiveLevel() == self.level,
              "the level is not the one last asked for", got=log.level,
              expected=self.level, **ctx)
        extra = [h for h in log.handlers if h not in self.h]
        check(len(extra) == int(self.default),
              "number of default handlers", got=len(extra), expected=int(self.default),
              **ctx)
        for h in self.h:
            del h.got[:]
        self.out.truncate(0)
        self.out.seek(0)
        prop, log.propagate = log.propagate, False   # root is not under test
        last, logging.lastResort = logging.lastResort, logging.NullHandler()
        try:
            for n in (10, 20, 30, 40, 50):
                log.log(n, "m%d", n)
        finally:
            log.propagate = prop
            logging.lastResort = last
        want = [(n, "m%d" % n) for n in (10, 20, 30, 40, 50) if n >= self.level]
        check([h.level for h in self.h] == [0, 35, 0], "the level of a supplied handler was "
              "changed", got=[h.level for h in self.h], **ctx)
        for i, h in enumerate(self.h):
            check(h.got == ([x for x in want if x[0] >= h.level] if i in self.supplied else []),
                  "a supplied handler does not receive each record exactly once"
                  if i in self.supplied else "a handler never supplied receives records",
                  handler=i, got=list(h.got), expected=want, **ctx)
        lines = [l for l in self.out.getvalue().split("\n") if l]
        want = [m for n, m in want] if self.default else []
        check(len(lines) == len(want) and all(m in l for m, l in zip(want, lines)),
              "the default handler does not print each record exactly once", got=lines,
              expected=want, **ctx)

    def key(self):
        def fmt(h):
            return getattr(h.formatter, "_fmt", None), h.level, type(h).__name__
        return (self.log.level, self.log.propagate, self.log.disabled,
                [(self.h.index(h) if h in self.h else "default", fmt(h))
                 for h in self.log.handlers])


def run(seq, st, every=True, rooted=False):
    w = World(rooted)
    try:
        for i, o in enumerate(seq):
            ctx = {"calls": seq[:i + 1]}
            w.do(OPS[o] if isinstance(o, int) else o, ctx)
            st.transition()
            if every or i == len(seq) - 1:
                w.verify(ctx)
        return w.key()
    finally:
        w.close()


def cases(tier):
    yield {"kind": "reach", "rooted": False}
    yield {"kind": "reach", "rooted": True}
    d = 3 if tier == "quick" else 4
    for a in range(len(OPS)):
        if d == 3:
            yield {"kind": "seq", "head": [a], "rest": 2}
        else:
            for b in range(len(OPS)):
                yield {"kind": "seq", "head": [a, b], "rest": 2}


def run_case(case, st):
    if case["kind"] == "reach":
        # fixpoint over the observable states, each represented by a shortest history
        seen = {}
        todo = [[]]
        root = case["rooted"]
        seen[repr(run([], st, rooted=root))] = 1
        while todo:
            h = todo.pop(0)
            for o in range(len(OPS)):
                k = repr(run(h + [OPS[o]], st, every=False, rooted=root))
                st.state((root, k))
                if k not in seen:
                    seen[k] = 1
                    todo.append(h + [OPS[o]])
        st.add("reachable_configurations", len(seen))
        return
    for n in range(case["rest"] + 1):
        for r in itertools.product(range(len(OPS)), repeat=n):
            seq = [OPS[i] for i in case["head"]] + [OPS[i] for i in r]
            st.state(repr(run(seq, st, every=False)))
            st.trace()
    st.sample({"first": OPS[case["head"][0]], "operations": len(OPS)}, 1)
