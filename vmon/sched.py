"""A serialising scheduler for user threads: exactly one of the participating threads
runs, and at every traced line of the code under observation the token may be passed
to another thread (random, seeded).  Reproduces fine-grained interleavings which the
operating system would produce rarely."""

import hashlib
import os
import sys
import threading

from .env import SRC

_SRC = os.path.realpath(SRC) + os.sep


class Scheduler:
    def __init__(self, rng, n, p=0.3):
        self.rng, self.n, self.p = rng, n, p
        self.cond = threading.Condition()
        self.alive = set(range(n))
        self.token = 0
        self.started = 0
        self.switches = 0
        self.points = 0
        self.trace = hashlib.sha1()
        self.files = {}

    # -- called by the participating threads ----------------------------------------
    def _wait(self, me):
        while self.token != me:
            if not self.cond.wait(timeout=60):
                raise RuntimeError("scheduler: no progress")

    def _pass(self, me):
        others = sorted(self.alive - {me})
        if others:
            self.token = others[int(self.rng.integers(len(others)))]
            self.switches += 1
            self.cond.notify_all()

    def point(self, me, where):
        with self.cond:
            self.points += 1
            self.trace.update(f"{me}:{where};".encode())
            if self.rng.random() < self.p:
                self._pass(me)
                self._wait(me)

    def _observed(self, code):
        ok = self.files.get(code.co_filename)
        if ok is None:
            ok = os.path.realpath(code.co_filename).startswith(_SRC)
            self.files[code.co_filename] = ok
        return ok

    def run(self, bodies):
        "Run the callables in threads under this schedule; returns results / exceptions."
        out = [None] * self.n

        def tracer(me):
            def local(frame, event, arg):
                if event in ("line", "return"):
                    self.point(me, (frame.f_code.co_name, frame.f_lineno))
                return local

            def glob(frame, event, arg):
                return local if self._observed(frame.f_code) else None

            return glob

        def body(me):
            with self.cond:
                self.started += 1
                self.cond.notify_all()
                while self.started < self.n:
                    self.cond.wait(60)
                self._wait(me)
            try:
                sys.settrace(tracer(me))
                out[me] = bodies[me]()
            except Exception as e:  # noqa: BLE001
                out[me] = e
            finally:
                sys.settrace(None)
                with self.cond:
                    self.alive.discard(me)
                    if self.alive:
                        self.token = sorted(self.alive)[int(self.rng.integers(len(self.alive)))]
                    self.cond.notify_all()

        threads = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(self.n)]
        for t in threads:
            t.start()
        for t in threads:
            t.join(300)
        return out

    def digest(self):
        return self.trace.hexdigest()[:16]
