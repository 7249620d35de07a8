"""Controlled scheduling of real threads at source-line granularity inside the package under test.

Each thread runs under sys.settrace; every line (or call) event in the package is a scheduling point.  Exactly one
thread runs at a time.  A schedule is a list of (thread, number of points) segments followed by running the threads
to completion one after the other, so the set of schedules with p preemptions is enumerated by their positions.
"""
import os
import sys
import threading


class Sched:
    def __init__(self, fns, segments, prefix, kinds=("line",)):
        self.fns, self.prefix, self.kinds = fns, prefix, kinds
        self.segments = [list(s) for s in segments]
        self.lock = threading.Condition()
        self.turn = None
        self.done = [False] * len(fns)
        self.points = [0] * len(fns)
        self.results = [None] * len(fns)
        self.switches = 0
        self.aborted = False

    def _pick(self):
        """Next thread to run according to the schedule; skips segments of finished threads."""
        while self.segments and (self.done[self.segments[0][0]] or self.segments[0][1] <= 0):
            self.segments.pop(0)
        if self.segments:
            return self.segments[0][0]
        for t, d in enumerate(self.done):
            if not d:
                return t
        return None

    def _point(self, tid):
        self.points[tid] += 1
        if self.segments:
            self.segments[0][1] -= 1
            if self.segments[0][1] <= 0:
                with self.lock:
                    nxt = self._pick()
                    if nxt != tid:
                        self.switches += 1
                        self.turn = nxt
                        self.lock.notify_all()
                        while self.turn != tid and not self.aborted:
                            self.lock.wait(20)
                        if self.aborted:
                            raise SystemExit

    def _tracer(self, tid):
        def local(frame, event, arg):
            if event in self.kinds:
                self._point(tid)
            return local

        def glob(frame, event, arg):
            if frame.f_code.co_filename.startswith(self.prefix):
                if "call" in self.kinds:
                    self._point(tid)
                return local if self.kinds != ("call",) else None
            return None

        return glob

    def _run(self, tid):
        with self.lock:
            while self.turn != tid and not self.aborted:
                self.lock.wait(20)
        if self.aborted:
            return
        sys.settrace(self._tracer(tid))
        try:
            self.results[tid] = ("ok", self.fns[tid]())
        except SystemExit:
            return
        except BaseException as e:
            self.results[tid] = ("raised", "%s: %s" % (type(e).__name__, e))
        finally:
            sys.settrace(None)
        with self.lock:
            self.done[tid] = True
            self.turn = self._pick()
            self.lock.notify_all()

    def run(self):
        ts = [threading.Thread(target=self._run, args=(i,), daemon=True) for i in range(len(self.fns))]
        self.turn = self._pick()
        try:
            for t in ts:
                t.start()
            for t in ts:
                t.join()
        finally:
            with self.lock:
                self.aborted = not all(self.done)
                self.lock.notify_all()
        return self.results


def package_prefix():
    import PyEMD

    return os.path.dirname(PyEMD.__file__) + os.sep
