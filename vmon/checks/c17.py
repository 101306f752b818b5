"""C17: threads - the parallel option and concurrent evaluation change nothing."""

import sys
import threading
import time

import numpy as np

from ..engine import FAILED, Expected, col, size
from ..env import SEED, hel, pick
from ..materials import MAKERS, MEASURES, SPACES, framework, spec_stream
from ..sched import Scheduler
from ..states import lay, states
from ..usage import math_calls

RULE = (
    "(a) every material kind, space and configuration with and without the parallel option on "
    "identical batches around the thread count; (b) 2..8 user threads with separate materials: "
    "free-running with a tiny switch interval, meeting inside their models (barrier), and under a "
    "seeded scheduler that switches threads at source lines; all results are compared with the "
    "material evaluated alone; distinct = (configuration, batch shape) and schedules"
)

TRAILS = [(), (0,), (1,), (7,), (8,), (9,), (15,), (16,), (17,), (64,), (2, 8), (8, 8), (8, 1), (1, 9), (3, 3), (6,),
          (24, 2), (2, 3, 8)]
LARGE = [(63,), (65,), (64, 2), (128,), (192,), (2, 128), (256,), (257,), (512,), (1000,), (1003,), (67, 17)]
OPTIONS = [{}, {"force": 0}, {"area": None}, {"force": 0, "area": None}, {"finalize": False}]


def tolerances(ref, opt):
    "Round-off relative to the response, in any configuration."
    lmin, lmax = ref.lam.min(axis=0), ref.lam.max(axis=0)
    push = np.maximum(1.0, lmax / ref.J) if opt.get("area", 0) is None else 1.0
    pull = 1.0
    if opt.get("force", None) == 0 or not opt.get("finalize", True):
        pull = np.maximum(1.0, 1 / lmin)
    return (1e-11 * ref.rP + 4 * ref.tolP) * push * pull, (1e-11 * ref.rA + 4 * ref.tolA) * push**2 * pull**4


def evaluate(u, x, repeat=1):
    out = []
    for _ in range(repeat):
        out.append((np.asarray(u.gradient([x, None])[0]), np.asarray(u.hessian([x, None])[0])))
    return out


def same(R, got, want, tP, tA, mech, ctx):
    for k, (what, tol) in enumerate((("stress", tP), ("elasticity", tA))):
        g, w = got[k], want[k]
        if not R.check(g.shape == w.shape, f"{mech}:{what}:shape", f"{g.shape} instead of {w.shape}", **ctx):
            continue
        R.close(g, w, 1.0, tol, f"{mech}:{what}", what, **ctx)


def batch_tol(t, trail):
    return np.asarray(t).reshape(trail) if t.size else 1.0


def parallel(R, rng):
    for i, spec in enumerate(spec_stream(rng, pick(36, 800))):
        for k, sp in enumerate(SPACES):
            opt = OPTIONS[(i // 6 + k) % len(OPTIONS)] if i % 2 else {}
            fw = bool(rng.integers(2))
            info = {"material": spec.describe(), "space": sp, **opt}
            a = R.call("build", spec.space, sp, ctx=info, **opt)
            b = R.call("build:parallel", spec.space, sp, framework=spec.build(parallel=fw), parallel=True, ctx=info, **opt)
            if a is FAILED or b is FAILED:
                continue
            trails = [TRAILS[t] for t in rng.permutation(len(TRAILS))[:3]]
            big = LARGE[i // 3 % len(LARGE)]
            for trail in [*trails, big] if k == i % 3 else trails:
                F, tags = states(rng, size(trail))
                x = lay(F, trail)
                ctx = {**info, "trail": trail, "F": F}
                want = R.call("sequential", evaluate, a, x, ctx=ctx)
                got = R.call("parallel", evaluate, b, x, 2, ctx=ctx)
                if want is FAILED or got is FAILED:
                    continue
                if len(F):
                    tP, tA = (batch_tol(t, trail) for t in tolerances(Expected(F, spec, sp), opt))
                else:
                    tP = tA = 1.0
                for g in got:
                    same(R, g, want[0], tP, tA, f"parallel:{sp}", ctx)
                R.bump("points:parallel", len(F))
                R.event((spec.kind, sp, repr(opt), trail), max(1, len(F)))
        if i < 3:
            R.sample({"parallel": spec.describe(), "trail": trail})


def large(R, rng, n):
    "Bodies of many points, of a few distinct states."
    for i, spec in enumerate(spec_stream(rng, n)):
        sp = list(SPACES)[i % 3]
        m = int(rng.choice([20_000, 32_769, 50_001]))
        F = states(rng, 12, ["moderate", "dense"])[0]
        x = lay(F[rng.integers(0, 12, m)], (m,))
        ctx = {"material": spec.describe(), "space": sp, "points": m}
        a, b = (spec.space(sp, **({"parallel": True} if p else {})) for p in (False, True))
        for name in ("gradient", "hessian"):
            want, got = (R.call(f"large:{name}", getattr(u, name), [x, None], ctx=ctx) for u in (a, b))
            if want is not FAILED and got is not FAILED:
                size_ = np.abs(want[0]).max(axis=tuple(range(want[0].ndim - 1)))
                R.close(got[0], want[0], size_ + 1e-300, 1e-9, f"large:{name}", "parallel result of a large batch", **ctx)
        R.event((spec.kind, sp, "large"), 2 * m)
        R.bump("points:large", m)


class Place:
    "All threads still running wait for each other here."

    def __init__(self, n):
        self.cond = threading.Condition()
        self.alive, self.waiting, self.round = n, 0, 0
        self.met = self.missed = 0

    def _release(self):
        if self.waiting and self.waiting >= self.alive:
            if self.waiting > 1:
                self.met += self.waiting
            self.waiting = 0
            self.round += 1
            self.cond.notify_all()

    def meet(self):
        with self.cond:
            r = self.round
            self.waiting += 1
            self._release()
            while self.round == r:
                if not self.cond.wait(timeout=20):
                    self.missed += 1
                    return

    def leave(self):
        with self.cond:
            self.alive -= 1
            self._release()


class Meeting:
    """Wraps a model: all threads meet inside their model calls before any continues
    (a real interleaving at the callback, forced)."""

    def __init__(self, inner, place):
        self.inner, self.place = inner, place

    def gradient(self, *a):
        self.place.meet()
        out = self.inner.gradient(*a)
        self.place.meet()
        return out

    def hessian(self, *a):
        self.place.meet()
        out = self.inner.hessian(*a)
        self.place.meet()
        return out


def crew(R, rng, n, same_kind, trail=None):
    """n materials with separate objects, their inputs and their results alone; those of
    one kind (same_kind: the number of the crew) differ in their parameters only."""
    kinds = list(MAKERS)
    kind = kinds[same_kind // 2 % len(kinds)] if same_kind is not None else None
    trail = tuple(int(t) for t in ([(8,), (3, 3), (6,), (20,), (2, 4)][rng.integers(5)])) if trail is None else trail
    out = []
    measure = None
    if kind == "generalized":
        measure = list(MEASURES)[same_kind // 2 // len(kinds) % 2]
    for _ in range(n):
        spec = MAKERS[kind or str(rng.choice(kinds))](rng)
        for _ in range(40 if measure else 0):
            if spec.desc["measure"] == measure:
                break
            spec = MAKERS[kind](rng)
        sp = str(rng.choice(list(SPACES)))
        opt = OPTIONS[rng.integers(len(OPTIONS))] if rng.integers(3) == 0 else {}
        F, _ = states(rng, size(trail))
        x = lay(F, trail)
        ctx = {"material": spec.describe(), "space": sp, "trail": trail, "F": F, **opt}
        want = R.call("alone", lambda: evaluate(spec.space(sp, **opt), x)[0], ctx=ctx)
        if want is FAILED:
            continue
        tP, tA = (batch_tol(t, trail) for t in tolerances(Expected(F, spec, sp), opt))
        out.append({"spec": spec, "space": sp, "opt": opt, "x": x, "want": want, "tP": tP, "tA": tA, "ctx": ctx})
    return out


def verdict(R, c, got, mech, ctx=None):
    ctx = {**c["ctx"], **(ctx or {})}
    if isinstance(got, Exception):
        R.violation(f"{mech}:raised:{type(got).__name__}", f"{type(got).__name__}: {got}"[:300], **ctx)
        return
    if got is None:
        R.violation(f"{mech}:hang", "a thread did not finish", **ctx)
        return
    for g in got:
        same(R, g, c["want"], c["tP"], c["tA"], mech, ctx)
        R.event(n=c["x"][0, 0].size)


def free_running(R, rng, rounds):
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        for r in range(rounds):
            n = int(rng.integers(2, 9))
            mem = crew(R, rng, n, None if r % 2 else r, trail=(int(rng.choice([8, 40, 300])),))
            par = [bool(rng.integers(3) == 0) for _ in mem]
            us = [c["spec"].space(c["space"], **c["opt"], **({"parallel": True} if p else {})) for c, p in zip(mem, par)]
            out = [None] * len(mem)
            spans = []
            go = threading.Barrier(len(mem))

            def body(k):
                go.wait()
                try:
                    res = []
                    for _ in range(6):
                        t0 = time.perf_counter()
                        res += evaluate(us[k], mem[k]["x"])
                        spans.append((t0, time.perf_counter(), k))
                    out[k] = res
                except Exception as e:  # noqa: BLE001
                    out[k] = e

            ts = [threading.Thread(target=body, args=(k,), daemon=True) for k in range(len(mem))]
            for t in ts:
                t.start()
            for t in ts:
                t.join(120)
            # calls of different threads that overlapped in time
            over = sum(1 for a in spans for b in spans if a[2] < b[2] and a[0] < b[1] and b[0] < a[1])
            R.bump("free:overlapping calls", over)
            for k, c in enumerate(mem):
                verdict(R, c, out[k], "threads:free", {"threads": n, "parallel": par[k]})
            R.event(("free", r, n), 0)
    finally:
        sys.setswitchinterval(old)


def side_by_side(R, rng, rounds):
    """Materials of the parallel option in threads of the user, with large batches of one
    shape, at other states."""
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        for r in range(rounds):
            sp = list(SPACES)[r % 3]
            n, m = int(rng.integers(2, 4)), int(rng.choice([9_000, 20_011]))
            mem = []
            for spec in spec_stream(rng, n, ["tod", "ogden"] if r % 2 else ["tod"]):
                F = states(rng, 12, ["moderate", "dense"])[0]
                x = lay(F[rng.integers(0, 12, m)], (m,))
                ctx = {"material": spec.describe(), "space": sp, "points": m, "threads": n}
                want = R.call("side:alone", lambda: evaluate(spec.space(sp), x)[0], ctx=ctx)
                if want is not FAILED:
                    mem.append((spec.space(sp, parallel=True), x, want, ctx))
            out = [None] * len(mem)
            go = threading.Barrier(len(mem))

            def body(k):
                u, x, want, _ = mem[k]
                size_ = [np.abs(w).max(axis=tuple(range(w.ndim - 1))) + 1e-300 for w in want]
                go.wait()
                try:
                    worst = [0.0, 0.0]
                    for j in range(40):
                        pair = [np.asarray(u.gradient([x, None])[0])]
                        if j % 8 == 0:
                            pair.append(np.asarray(u.hessian([x, None])[0]))
                        for i, g in enumerate(pair):
                            d = float((np.abs(g - want[i]).max(axis=tuple(range(g.ndim - 1))) / size_[i]).max())
                            worst[i] = max(worst[i], d if np.isfinite(d) else np.inf)
                    out[k] = worst
                except Exception as e:  # noqa: BLE001
                    out[k] = e

            ts = [threading.Thread(target=body, args=(k,), daemon=True) for k in range(len(mem))]
            for t in ts:
                t.start()
            for t in ts:
                t.join(200)
            for k, (_, x, _, ctx) in enumerate(mem):
                if not isinstance(out[k], list):
                    R.violation("threads:side:raised", repr(out[k])[:300], **ctx)
                    continue
                for what, d in zip(("stress", "elasticity"), out[k]):
                    R.check(d <= 1e-9, f"threads:side:{sp}:{what}", f"{what} beside another thread: off by {d:.2g}", **ctx)
                R.event(("side", sp, r), 45)
                R.bump("side by side", 45)
    finally:
        sys.setswitchinterval(old)


def meeting(R, rng, rounds):
    for r in range(rounds):
        n = int(rng.integers(2, 5))
        mem = crew(R, rng, n, None if r % 2 else r)
        place = Place(len(mem))
        out = [None] * len(mem)

        def body(k):
            c = mem[k]
            try:
                fw = framework(c["spec"], Meeting(c["spec"].model(), place))
                u = c["spec"].space(c["space"], framework=fw, **c["opt"])
                out[k] = evaluate(u, c["x"], 3)
            except Exception as e:  # noqa: BLE001
                out[k] = e
            finally:
                place.leave()

        ts = [threading.Thread(target=body, args=(k,), daemon=True) for k in range(len(mem))]
        for t in ts:
            t.start()
        for t in ts:
            t.join(120)
        R.bump("meeting:inside the models", place.met)
        R.bump("meeting:missed", place.missed)
        for k, c in enumerate(mem):
            verdict(R, c, out[k], "threads:meeting", {"threads": n})
        R.event(("meeting", r, n), 0)


def scheduled(R, rng, rounds):
    for r in range(rounds):
        n = int(rng.integers(2, 5))
        mem = crew(R, rng, n, None if r % 2 else r, trail=[(8,), (6,), (3, 3)][rng.integers(3)])
        seed = int(rng.integers(2**31))
        s = Scheduler(np.random.default_rng(seed), len(mem), p=float(rng.choice([0.05, 0.3, 0.7])))
        # materials are built inside the threads, too
        bodies = [
            (lambda c=c: evaluate(c["spec"].space(c["space"], **c["opt"]), c["x"], 1)) for c in mem
        ]
        out = s.run(bodies)
        R.bump("scheduled:lines", s.points)
        R.bump("scheduled:switches", s.switches)
        for k, c in enumerate(mem):
            verdict(R, c, out[k], "threads:scheduled", {"schedule": seed, "threads": n})
        R.event(("schedule", s.digest()), 0)
        if r < 2:
            R.sample({"schedule": s.digest(), "lines": s.points, "switches": s.switches, "threads": n})


def functions(R, rng, rounds):
    "The functions below the materials: measures, models and tensor functions in threads."
    gen, inv, st = hel.models.generalized, hel.models.invariants, hel.models.stretches

    def measure(f):
        k = float(rng.choice([2.0, -2.0, 1.0, rng.uniform(0.2, 4)])) if f is gen.strain else float(rng.uniform(0.5, 4))
        lam = rng.uniform(0.5, 2, (3, 5))
        return lambda: f(lam, exponent=k)

    def tod(strain):
        C = {n: float(rng.uniform(0.1, 1)) for n in rng.permutation(["C10", "C01", "C11", "C20", "C30"])[:3]}
        I = 3 + rng.uniform(0, 2, (3, 5))
        m = inv.ThirdOrderDeformation(**C, strain=strain)
        return lambda: [*m.gradient(*I, None), *m.hessian(*I, None)]

    def ogden():
        n = int(rng.integers(1, 4))
        m = st.Ogden(list(rng.uniform(0.2, 1, n)), list(rng.uniform(1, 3, n)))
        lam = rng.uniform(0.5, 2, (3, 5))
        return lambda: [m.gradient(lam, None)[0], *m.hessian(lam, None)]

    def torch_():
        w = rng.uniform(0.2, 1, 3)
        m = inv.TorchModel(lambda a, b, c: w[0] * a + w[1] * b * b + w[2] * a * c)
        I = 3 + rng.uniform(0, 2, (3, 5))
        return lambda: [*m.gradient(*I, None)[:3], *m.hessian(*I, None)]

    def tensor(name):
        return math_calls(rng, (5,))[name]

    kinds = [lambda: measure(gen.strain), lambda: measure(gen.deformation), lambda: tod(False), lambda: tod(True), ogden, torch_]
    kinds += [lambda name=name: tensor(name) for name in math_calls(rng, (2,))]

    def flat(out):
        out = out if isinstance(out, (list, tuple)) else [out]
        return [np.array(o, dtype=float) for o in out if o is not None]

    for r in range(rounds):
        n = int(rng.integers(2, 5))
        make = kinds[r % len(kinds)]
        jobs = [make() if r // len(kinds) % 2 == 0 else kinds[rng.integers(len(kinds))]() for _ in range(n)]
        want = [R.call("functions:alone", lambda j=j: flat(j())) for j in jobs]
        if any(w is FAILED for w in want):
            continue
        seed = int(rng.integers(2**31))
        s = Scheduler(np.random.default_rng(seed), n, p=float(rng.choice([0.1, 0.4, 0.7])))
        out = s.run([(lambda j=j: [flat(j()) for _ in range(2)]) for j in jobs])
        R.bump("scheduled:switches", s.switches)
        for w, g in zip(want, out):
            ctx = {"function": r % len(kinds), "schedule": seed, "threads": n}
            if isinstance(g, Exception) or g is None:
                R.violation("threads:function:raised", repr(g)[:300], **ctx)
                continue
            for one in g:
                if R.check(len(one) == len(w), "threads:function:results", f"{len(one)} results", **ctx):
                    for a, b in zip(one, w):
                        if R.check(a.shape == b.shape, "threads:function:shape", f"{a.shape} instead of {b.shape}", **ctx):
                            R.close(a, b, np.abs(b).max(initial=0) + 1, 1e-12, "threads:function", "result", **ctx)
            R.bump("functions")
        R.event(("function", s.digest()), n)


def laboratory(R, rng, rounds):
    "Simulations and fits in threads."
    def curve(C, lc, x):
        def material(**kw):
            return hel.DistortionalSpace(hel.InvariantsFramework(hel.models.invariants.ThirdOrderDeformation(**kw)))

        return hel.lab.Simulation(lc(), x, ["C10", "C20"], material, C).stress()

    for r in range(rounds):
        n = 4
        jobs = []
        for _ in range(n):
            C = [float(rng.uniform(0.2, 1)), float(rng.uniform(0.01, 0.1))]
            lc = [hel.lab.Uniaxial, hel.lab.Planar, hel.lab.Biaxial][rng.integers(3)]
            x = rng.uniform(0.6, 2.5, 8)
            jobs.append((C, lc, x))
        want = [R.call("lab:alone", curve, *j) for j in jobs]
        if any(w is FAILED for w in want):
            continue
        seed = int(rng.integers(2**31))
        s = Scheduler(np.random.default_rng(seed), n)
        out = s.run([(lambda j=j: curve(*j)) for j in jobs])
        R.bump("scheduled:switches", s.switches)
        for w, g, j in zip(want, out, jobs):
            ctx = {"parameters": j[0], "loadcase": j[1].__name__, "stretch": j[2], "schedule": seed}
            if isinstance(g, Exception) or g is None:
                R.violation("threads:lab:raised", repr(g)[:300], **ctx)
            else:
                R.close(g, w, np.abs(w).max() + 1, 1e-12, "threads:lab", "simulated stress", **ctx)
            R.event(("lab", s.digest()))


def run(R):
    import torch

    torch.set_num_threads(1)
    rng = np.random.default_rng([SEED, 17])
    R.require("points:parallel", 1000)
    R.require("functions", 100)
    R.require("scheduled:switches", 200)
    R.require("meeting:inside the models", 20)
    parallel(R, rng)
    large(R, rng, pick(6, 60))
    R.require("points:large", 100_000)
    free_running(R, rng, pick(8, 150))
    side_by_side(R, np.random.default_rng([SEED, 17, 1]), pick(6, 60))
    R.require("side by side", 300)
    meeting(R, rng, pick(16, 300))
    scheduled(R, rng, pick(24, 500))
    functions(R, rng, pick(60, 900))
    laboratory(R, rng, pick(6, 100))
