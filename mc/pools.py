"""A process pool under the checker's control.

Workers are real forked processes and every task crosses a real pickling boundary, as with multiprocessing.Pool, but
which worker executes which batch and in which order finished batches are delivered is dictated by the schedule.
Workers share nothing, so running the batches one after the other covers every physical overlap of the same
assignment and delivery order.
"""
import contextlib
import multiprocessing
import multiprocessing.pool
import os
import pickle
import signal
import struct
import sys
import traceback


def send(fd, obj):
    data = pickle.dumps(obj)
    data = struct.pack("<q", len(data)) + data
    while data:
        n = os.write(fd, data)
        data = data[n:]


def recv(fd):
    def exact(n):
        out = b""
        while len(out) < n:
            b = os.read(fd, n - len(out))
            if not b:
                raise EOFError
            out += b
        return out

    return pickle.loads(exact(struct.unpack("<q", exact(8))[0]))


class Controlled:
    """Factory with the signature of multiprocessing.Pool; one schedule drives all pools of a run.

    assign(pool_number, batch_number, processes) -> worker index
    arrive(pool_number, batches) -> permutation of batch numbers in which unordered results are delivered
    """

    def __init__(self, assign, arrive):
        self.assign, self.arrive, self.pools = assign, arrive, []

    def __call__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None):
        p = _Pool(self, len(self.pools), processes or os.cpu_count() or 1, initializer, initargs)
        self.pools.append(p)
        return p

    def shutdown(self):
        for p in self.pools:
            p._kill()


class _Pool:
    def __init__(self, ctl, number, processes, initializer, initargs):
        if processes < 1:
            raise ValueError("Number of processes must be at least 1")
        self.ctl, self.number, self._processes = ctl, number, processes
        self.state, self.tasks, self.sizes = "run", 0, []
        self.workers = {}
        self.init = (initializer, initargs)
        self.forked = False

    # -- workers -------------------------------------------------------------------------------------------
    def _spawn(self, w):
        pr, cw = os.pipe()
        cr, pw = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(pr)
                os.close(pw)
                if self.init[0]:
                    self.init[0](*self.init[1])
                while True:
                    fn, star, chunk = recv(cr)
                    try:
                        res = [fn(*a) if star else fn(a) for a in chunk]
                        send(cw, ("ok", res))
                    except Exception as e:
                        send(cw, ("raised", e))
            except EOFError:
                pass
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(0)
        os.close(cw)
        os.close(cr)
        self.workers[w] = (pid, pr, pw)

    def _batch(self, fn, star, chunk, number):
        w = self.ctl.assign(self.number, number, self._processes) % self._processes
        if w not in self.workers:
            self._spawn(w)
        self.tasks += len(chunk)
        _, r, wr = self.workers[w]
        send(wr, (fn, star, chunk))
        kind, val = recv(r)
        if kind == "raised":
            raise val
        return val

    def _run(self, fn, items, chunksize, star=False):
        if self.state != "run":
            raise ValueError("Pool not running")
        items = list(items)
        chunks = [items[i : i + chunksize] for i in range(0, len(items), chunksize)]
        self.sizes.append(len(chunks))
        return [self._batch(fn, star, c, i) for i, c in enumerate(chunks)]

    def _default(self, n):
        c, extra = divmod(n, self._processes * 4)
        return max(1, c + (1 if extra else 0))

    # -- multiprocessing.Pool interface ---------------------------------------------------------------------
    def map(self, func, iterable, chunksize=None):
        items = list(iterable)
        return [r for b in self._run(func, items, chunksize or self._default(len(items))) for r in b]

    def starmap(self, func, iterable, chunksize=None):
        items = list(iterable)
        return [r for b in self._run(func, items, chunksize or self._default(len(items)), star=True) for r in b]

    def imap(self, func, iterable, chunksize=1):
        return iter([r for b in self._run(func, iterable, chunksize) for r in b])

    def imap_unordered(self, func, iterable, chunksize=1):
        b = self._run(func, iterable, chunksize)
        return iter([r for i in self.ctl.arrive(self.number, len(b)) for r in b[i]])

    def apply(self, func, args=(), kwds={}):
        import functools

        return self._run(functools.partial(func, **kwds), [tuple(args)], 1, star=True)[0][0]

    def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
        res = self.apply(func, args, kwds)
        if callback:
            callback(res)
        return _Done(res)

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        res = self.map(func, iterable, chunksize)
        if callback:
            callback(res)
        return _Done(res)

    def starmap_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        res = self.starmap(func, iterable, chunksize)
        if callback:
            callback(res)
        return _Done(res)

    def close(self):
        if self.state == "run":
            self.state = "closed"

    def terminate(self):
        self.state = "terminated"

    def join(self):
        if self.state == "run":
            raise ValueError("Pool is still running")

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.terminate()

    def __reduce__(self):
        raise NotImplementedError("pool objects cannot be passed between processes or pickled")

    def _kill(self):
        for pid, r, w in self.workers.values():
            os.close(w)
            os.close(r)
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
        self.workers = {}


class _Done:
    def __init__(self, v):
        self.v = v

    def get(self, timeout=None):
        return self.v

    def wait(self, timeout=None):
        pass

    def ready(self):
        return True

    def successful(self):
        return True


@contextlib.contextmanager
def controlled(assign, arrive):
    ctl = Controlled(assign, arrive)
    saved = []
    targets = [(multiprocessing, "Pool"), (multiprocessing.pool, "Pool")]
    for m in ("PyEMD.EEMD", "PyEMD.CEEMDAN"):
        mod = sys.modules.get(m)
        if mod is not None and hasattr(mod, "Pool"):
            targets.append((mod, "Pool"))
    for obj, name in targets:
        saved.append((obj, name, getattr(obj, name)))
        setattr(obj, name, ctl)
    try:
        yield ctl
    finally:
        for obj, name, v in saved:
            setattr(obj, name, v)
        ctl.shutdown()


def assignments(batches, workers):
    """Batch -> worker maps up to renaming of workers (restricted growth strings)."""
    def rec(i, used, acc):
        if i == batches:
            yield tuple(acc)
            return
        for w in range(min(used + 1, workers)):
            yield from rec(i + 1, max(used, w + 1), acc + [w])

    yield from rec(0, 0, [])
