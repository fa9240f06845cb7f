"""A process pool with the interface of multiprocessing.Pool whose scheduling is decided
by the explorer: which worker process executes which chunk of tasks, and in which order
results become available.  Workers are real processes forked when the pool is created
(so they inherit the parent's state, random generators included), and tasks travel
pickled, exactly as with the real pool."""
import multiprocessing
import multiprocessing.pool
import os
import pickle
import signal
import struct


class Schedule(object):
    """assign[c] = worker of chunk c; order = completion order of the tasks."""

    def __init__(self, assign, order=None):
        self.assign, self.order = assign, order
        self.used_order = False
        self.chunks = 0
        self.workers = 0


CURRENT = None


def _send(fd, obj):
    b = pickle.dumps(obj)
    b = struct.pack("q", len(b)) + b
    while b:
        n = os.write(fd, b)
        b = b[n:]


def _recv(fd):
    def read(n):
        out = b""
        while len(out) < n:
            c = os.read(fd, min(n - len(out), 1 << 20))
            if not c:
                raise EOFError
            out += c
        return out
    return pickle.loads(read(struct.unpack("q", read(8))[0]))


class _Result(object):
    def __init__(self, v):
        self.v = v

    def get(self, timeout=None):
        return self.v

    def wait(self, timeout=None):
        pass

    def ready(self):
        return True

    def successful(self):
        return True


def _star(fn_args):
    f, a = fn_args
    return f(*a)


class Pool(object):
    def __init__(self, processes=None, initializer=None, initargs=(),
                 maxtasksperchild=None, context=None):
        self.n = processes or os.cpu_count() or 1
        if self.n < 1:
            raise ValueError("Number of processes must be at least 1")
        CURRENT.workers = self.n
        self.max = maxtasksperchild
        self.init = (initializer, initargs)
        self.w = [self._fork() for _ in range(self.n)]
        self.closed = False
        self.next = 0

    def _fork(self):
        a, b = os.pipe(), os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                signal.signal(signal.SIGALRM, signal.SIG_DFL)
                os.close(a[1])
                os.close(b[0])
                if self.init[0]:
                    self.init[0](*self.init[1])
                while True:
                    fn, items = _recv(a[0])
                    try:
                        r = (True, [fn(x) for x in items])
                    except Exception as e:
                        r = (False, e)
                    _send(b[1], r)
            except BaseException:
                pass
            finally:
                os._exit(0)
        os.close(a[0])
        os.close(b[1])
        return [pid, a[1], b[0], 0]

    def _chunk(self, fn, items):
        c = self.next
        self.next += 1
        CURRENT.chunks = max(CURRENT.chunks, self.next)
        k = CURRENT.assign[c % len(CURRENT.assign)] % self.n
        w = self.w[k]
        _send(w[1], (fn, items))
        ok, r = _recv(w[2])
        w[3] += 1
        if self.max and w[3] >= self.max:
            self._stop(w)
            self.w[k] = self._fork()
        if not ok:
            raise r
        return r

    def _run(self, fn, items, chunksize=None, default_one=False):
        if self.closed:
            raise ValueError("Pool not running")
        items = list(items)
        if chunksize is None:
            if default_one:
                chunksize = 1
            else:
                chunksize, extra = divmod(len(items), self.n * 4)
                chunksize += 1 if extra else 0
        out = []
        for i in range(0, len(items), max(1, chunksize)):
            out.extend(self._chunk(fn, items[i:i + max(1, chunksize)]))
        return out

    def map(self, func, iterable, chunksize=None):
        return self._run(func, iterable, chunksize)

    def starmap(self, func, iterable, chunksize=None):
        return self._run(_star, [(func, a) for a in iterable], chunksize)

    def map_async(self, func, iterable, chunksize=None, callback=None,
                  error_callback=None):
        r = self._run(func, iterable, chunksize)
        if callback:
            callback(r)
        return _Result(r)

    def starmap_async(self, func, iterable, chunksize=None, callback=None,
                      error_callback=None):
        r = self.starmap(func, iterable, chunksize)
        if callback:
            callback(r)
        return _Result(r)

    def imap(self, func, iterable, chunksize=1):
        return iter(self._run(func, iterable, chunksize, True))

    def imap_unordered(self, func, iterable, chunksize=1):
        r = self._run(func, iterable, chunksize, True)
        CURRENT.used_order = True
        o = CURRENT.order or range(len(r))
        return iter([r[i] for i in o if i < len(r)])

    def apply(self, func, args=(), kwds={}):
        return self._run(_Apply(func, kwds), [args])[0]

    def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
        r = self.apply(func, args, kwds)
        if callback:
            callback(r)
        return _Result(r)

    def _stop(self, w):
        # idle worker: nothing is lost by killing it (later workers hold copies of its
        # pipe ends, so it would never see end-of-file)
        try:
            os.kill(w[0], signal.SIGKILL)
        except ProcessLookupError:
            pass
        for fd in w[1:3]:
            try:
                os.close(fd)
            except OSError:
                pass
        try:
            os.waitpid(w[0], 0)
        except ChildProcessError:
            pass

    def close(self):
        self.closed = True

    def terminate(self):
        self.closed = True
        for w in self.w:
            self._stop(w)
        self.w = []

    def join(self):
        self.terminate()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.terminate()

    def __del__(self):
        self.terminate()


class _Apply(object):
    def __init__(self, f, k):
        self.f, self.k = f, k

    def __call__(self, a):
        return self.f(*a, **self.k)


class scheduled(object):
    """with scheduled(module, schedule): pools made by the module are controlled."""

    def __init__(self, module, schedule):
        self.m, self.s = module, schedule

    def __enter__(self):
        global CURRENT
        CURRENT = self.s
        self.had = getattr(self.m, "Pool", None)
        if self.had is not None:
            self.m.Pool = Pool
        self.mp = multiprocessing.Pool
        multiprocessing.Pool = Pool
        self.mpp = multiprocessing.pool.Pool
        multiprocessing.pool.Pool = Pool
        return self

    def __exit__(self, *a):
        global CURRENT
        if self.had is not None:
            self.m.Pool = self.had
        multiprocessing.Pool = self.mp
        multiprocessing.pool.Pool = self.mpp
        CURRENT = None
        return False
