"""Controlled source of randomness.

numpy's legacy global generator is given a bit source implemented here, so every
random draw dorado makes (np.random.uniform, numpy.random.random, choice, randint,
rand ...) becomes a *choice point* of the explorer: the value returned is decided
by the search, not by a pseudo-random sequence.  uniform(a, b) = a + (b-a)*draw.
"""
import ctypes
import signal
import threading

import numpy as np

_U64 = ctypes.CFUNCTYPE(ctypes.c_uint64, ctypes.c_void_p)
_U32 = ctypes.CFUNCTYPE(ctypes.c_uint32, ctypes.c_void_p)
_DBL = ctypes.CFUNCTYPE(ctypes.c_double, ctypes.c_void_p)


class _Bitgen(ctypes.Structure):
    _fields_ = [("state", ctypes.c_void_p), ("next_uint64", _U64),
                ("next_uint32", _U32), ("next_double", _DBL), ("next_raw", _U64)]


_new = ctypes.pythonapi.PyCapsule_New
_new.restype = ctypes.py_object
_new.argtypes = [ctypes.c_void_p, ctypes.c_char_p, ctypes.c_void_p]
_NAME = b"BitGenerator"


def _rev(x, bits):
    # integer generators use the low bits (mask and reject): make them vary
    return int(format(x, "0%db" % bits)[::-1], 2)


class _Source(object):
    def __init__(self):
        self.next = None
        self.error = None

        def dbl(_):
            try:
                return float(self.next())
            except BaseException as e:      # cannot propagate through C
                self.error = e
                if not isinstance(e, Exception):
                    signal.alarm(1)         # the watchdog fired here: try again
                return 0.5

        def u64(_):
            return _rev(int(dbl(None) * 2.0 ** 64), 64)

        def u32(_):
            return _rev(int(dbl(None) * 2.0 ** 32), 32)

        self._cb = (_U64(u64), _U32(u32), _DBL(dbl))
        self._bg = _Bitgen(None, self._cb[0], self._cb[1], self._cb[2], self._cb[0])
        self.capsule = _new(ctypes.addressof(self._bg), _NAME, None)
        self.lock = threading.Lock()
        self.state = {}


_SRC = _Source()


class control(object):
    """with control(f): every draw returns f() in [0, 1)."""

    def __init__(self, f):
        self.f = f

    def __enter__(self):
        self.prev = _SRC.next
        self.old = np.random.get_bit_generator()
        _SRC.next = self.f
        _SRC.error = None
        np.random.set_bit_generator(_SRC)
        return self

    def __exit__(self, et, ev, tb):
        np.random.set_bit_generator(self.old)
        _SRC.next = self.prev
        err, _SRC.error = _SRC.error, None
        if err is not None and et is None:
            raise err
        return False


class Stream(object):
    """Draws from a given list; then from `tail` (a constant); counts draws."""

    def __init__(self, values, tail=0.5):
        self.values = list(values)
        self.n = 0
        self.tail = tail

    def __call__(self):
        i = self.n
        self.n += 1
        return self.values[i] if i < len(self.values) else self.tail


def lcg(seed):
    """A fixed, self-contained reproducible stream (used for long runs only)."""
    s = [(seed * 2654435761 + 12345) % 2 ** 64]

    def f():
        s[0] = (s[0] * 6364136223846793005 + 1442695040888963407) % 2 ** 64
        return (s[0] >> 11) / 2.0 ** 53
    return f


UMAX = 1.0 - 2.0 ** -53


def mid(n):
    return [(k + 0.5) / n for k in range(n)]


def explore(program, menu, max_draws, on_path=None):
    """Stateless DFS over all draw sequences.

    `program()` is executed once per path under control; each draw branches over
    `menu`.  Draws beyond max_draws take menu[0] (callers choose bounds so that this
    does not happen, or accept the bound).  Returns (paths, draws, truncated).
    """
    paths = draws = trunc = 0
    prefix = []
    while True:
        taken = []
        over = [0]

        def nxt():
            i = len(taken)
            if i >= max_draws:
                over[0] += 1
                return menu[0]
            c = prefix[i] if i < len(prefix) else 0
            taken.append(c)
            return menu[c]
        with control(nxt):
            out = program()
        paths += 1
        draws += len(taken)
        trunc += 1 if over[0] else 0
        if on_path is not None:
            on_path([menu[c] for c in taken], out)
        while taken and taken[-1] == len(menu) - 1:
            taken.pop()
        if not taken:
            return paths, draws, trunc
        taken[-1] += 1
        prefix = taken
