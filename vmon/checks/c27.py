"""C27: using the library leaves the host process alone and speaks only when it draws."""

import atexit
import builtins
import copyreg
import faulthandler
import logging
import multiprocessing
import resource
import contextlib
import decimal
import functools
import gc
import io
import itertools
import json
import locale
import os
import random
import signal
import subprocess
import sys
import threading
import warnings

import numpy as np

from ..engine import FAILED, hel
from ..env import REPO, SCRATCH, SEED, SRC, pick
from ..states import lay, states
from ..usage import CASES, ModuleInvariants, ModuleStretches, material, math_calls, materials, optimize, simulations

RULE = (
    "a monitor compares everything process-wide that a library could disturb (floating-point "
    "error handling, print options, random generators, warning filters, plot settings, "
    "automatic-differentiation modes and default precision, environment, working directory, "
    "signal handlers, interpreter limits, functions of numpy/scipy/torch/matplotlib, threads, "
    "files and sub-processes, standard output) before and after every public use, and the "
    "results under unusual settings of the host with those under its defaults; one evaluation "
    "= one use between two snapshots; distinct = (use, option)"
)

WRITES = []
ARMED = [False]
MODES = {"w", "a", "x", "+"}
EVENTS = {"os.remove", "os.rename", "os.mkdir", "os.rmdir", "os.chdir", "os.truncate", "os.chmod", "os.symlink", "os.link",
          "os.system", "os.exec", "os.fork", "os.forkpty", "os.posix_spawn", "os.spawn", "subprocess.Popen", "socket.connect",
          "socket.bind", "socket.getaddrinfo", "urllib.Request", "shutil.rmtree", "shutil.copyfile", "shutil.move",
          "os.putenv", "os.unsetenv", "os.kill", "signal.pthread_kill", "sys.addaudithook", "tempfile.mkstemp", "tempfile.mkdtemp"}


def audit(event, args):
    if not ARMED[0]:
        return
    if event == "open":
        path, mode, flags = (list(args) + [None] * 3)[:3]
        writing = (isinstance(mode, str) and bool(MODES & set(mode))) or (
            isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT))
        if not writing or str(path) == os.devnull or str(path).startswith(SCRATCH) or str(path).startswith("/dev/"):
            return
        WRITES.append(f"open {path} {mode}")
    elif event in EVENTS:
        WRITES.append(f"{event} {str(args)[:120]}")


def classes():
    """The public names of the library's own modules and classes, and the attributes of the
    functions of other packages it calls: shared by everything in the process."""
    import types

    import matplotlib.axes
    import matplotlib.figure
    import scipy.optimize

    out = {}

    def attributes(owner, name, f):
        for k in ("__doc__", "__name__", "__qualname__", "__module__", "__defaults__", "__kwdefaults__", "__wrapped__", "__annotations__"):
            v = f.__dict__.get(k) if isinstance(f, type) else getattr(f, k, None)
            out[owner, f"{name}.{k}"] = hash(v) if isinstance(v, str) else repr(v)[:2000]

    for mod in sorted(k for k in sys.modules if k == "hyperelastic" or k.startswith("hyperelastic.")):
        for k, v in list(vars(sys.modules[mod]).items()):
            if k.startswith("_"):
                continue
            out[mod, k] = id(v)
            if isinstance(v, type) and v.__module__.startswith("hyperelastic"):
                attributes(mod, k, v)
                for n, a in list(vars(v).items()):
                    if not n.startswith("_") or n == "__init__":
                        out[mod, f"{k}.{n}"] = id(a) if callable(a) or isinstance(a, (property, staticmethod, classmethod)) else repr(a)[:300]
            elif isinstance(v, types.FunctionType):
                attributes(mod, k, v)
    for f in (scipy.optimize.curve_fit, scipy.optimize.least_squares, scipy.optimize.leastsq):
        attributes("scipy.optimize", f.__name__, f)
        out["scipy.optimize", f.__name__ + " attributes"] = repr(sorted(vars(f)))
    for c in (matplotlib.axes.Axes, matplotlib.figure.Figure):
        for k, v in vars(c).items():
            if callable(v):
                out[c.__name__, k] = id(v)
    return out


def functions():
    "The public functions of the packages the library works with."
    import matplotlib.pyplot as plt
    import scipy.optimize
    import torch
    import torch.autograd

    out = {}
    for mod in (np, np.linalg, np.random, scipy.optimize, torch, torch.autograd, torch.autograd.functional, plt, warnings, os, sys, threading):
        for k, v in vars(mod).items():
            if callable(v) and not k.startswith("__") and not k.startswith("last_"):
                out[mod.__name__, k] = id(v)
    import builtins

    for k, v in vars(builtins).items():
        if k != "_":
            out["builtins", k] = id(v)
    return out


def snapshot(deep=False):
    import matplotlib as mpl
    import matplotlib.pyplot as plt
    import torch

    s = {
        "numpy error handling": np.geterr(),
        "numpy error callback": repr(np.geterrcall()),
        "numpy print options": repr(sorted(np.get_printoptions().items(), key=str)),
        "numpy buffer size": np.getbufsize(),
        "numpy random state": repr(np.random.get_state(legacy=False)["state"]["pos"]) + str(hash(np.random.get_state()[1].tobytes())),
        "random state": hash(random.getstate()),
        "warning filters": repr(warnings.filters),
        "warnings shown by": id(warnings.showwarning),
        "plot settings": hash(repr(sorted(dict.items(mpl.rcParams), key=str))),
        "plot backend": mpl.get_backend(),
        "plot interactive": plt.isinteractive(),
        "torch dtype": str(torch.get_default_dtype()),
        "torch gradient mode": torch.is_grad_enabled(),
        "torch inference mode": torch.is_inference_mode_enabled(),
        "torch anomaly mode": torch.is_anomaly_enabled(),
        "torch deterministic": torch.are_deterministic_algorithms_enabled(),
        "torch threads": torch.get_num_threads(),
        "torch random state": hash(torch.get_rng_state().numpy().tobytes()),
        "torch print options": repr(vars(torch._tensor_str.PRINT_OPTS)),
        "environment": hash(repr(sorted(os.environ.items()))),
        "working directory": os.getcwd(),
        "recursion limit": sys.getrecursionlimit(),
        "switch interval": sys.getswitchinterval(),
        "module search path": repr(sys.path),
        "trace functions": repr((sys.gettrace(), sys.getprofile(), threading.gettrace())),
        "exception hooks": (id(sys.excepthook), id(threading.excepthook), id(sys.displayhook), id(sys.unraisablehook)),
        "standard streams": (id(sys.stdout), id(sys.stderr), id(sys.stdin)),
        "signal handlers": repr([signal.getsignal(k) for k in (signal.SIGINT, signal.SIGTERM, signal.SIGFPE, signal.SIGALRM)]),
        "locale": repr(locale.setlocale(locale.LC_ALL)),
        "decimal context": repr(decimal.getcontext()),
        "garbage collector": (gc.isenabled(), gc.get_threshold(), gc.get_debug(), len(gc.callbacks)),
        "floating-point exceptions of scipy": repr(_scipy_err()),
        "logging": (logging.root.level, len(logging.root.handlers), logging.root.manager.disable, logging.raiseExceptions,
                    logging.getLogger("matplotlib").level, len(logging.getLogger("matplotlib").handlers)),
        "functions called at exit": atexit._ncallbacks(),
        "import hooks": (len(sys.meta_path), len(sys.path_hooks)),
        "pickle functions": len(copyreg.dispatch_table),
        "limits": repr([resource.getrlimit(k) for k in (resource.RLIMIT_AS, resource.RLIMIT_NOFILE, resource.RLIMIT_CPU, resource.RLIMIT_STACK)]),
        "processors": (os.getpriority(os.PRIO_PROCESS, 0), sorted(os.sched_getaffinity(0))),
        "fault handler": faulthandler.is_enabled(),
        "text conversion limit": sys.get_int_max_str_digits(),
        "start method": multiprocessing.get_start_method(allow_none=True),
        "threads' stack size": threading.stack_size(),
        "print, open, ...": repr([getattr(builtins, k) for k in ("print", "open", "sum", "min", "max", "zip", "abs", "input", "__import__")]),
        "torch parallelism and precision": repr((torch.get_num_interop_threads(), torch.get_float32_matmul_precision(),
                                                 str(torch.get_default_device()), torch.autograd.graph.saved_tensors_hooks.__name__)),
    }
    if deep:
        s["functions of other packages"] = functions()
    return s


def _scipy_err():
    import scipy.special

    return scipy.special.geterr()


def difference(a, b):
    out = []
    for k in a:
        if a[k] != b[k]:
            if isinstance(a[k], dict) and k.startswith("functions"):
                # (new names appear with lazily imported submodules; replaced ones do not)
                ch = [f"{m}.{n}" for (m, n), v in a[k].items() if b[k].get((m, n)) != v]
                if ch:
                    out.append(f"{k}: {ch[:5]}")
            else:
                out.append(f"{k}: {str(a[k])[:80]} -> {str(b[k])[:80]}")
    return out


def figures():
    from matplotlib._pylab_helpers import Gcf

    return [m.canvas.figure for m in Gcf.get_all_fig_managers()]


class Watch:
    "Runs one use of the library between two snapshots."

    def __init__(self, R):
        self.R = R
        self.n = 0

    def __call__(self, what, fun, ctx=None, drawing=False, quiet=True, threads=False):
        R, ctx = self.R, ctx or {}
        deep = self.n % 20 == 0
        self.n += 1
        R.event((what, repr(sorted(ctx.items(), key=str))))
        out, err = io.StringIO(), io.StringIO()
        th = set(threading.enumerate())
        figs = figures()
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err), warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter("always")
            a = snapshot(deep)
            WRITES.clear()
            ARMED[0] = True
            try:
                res = R.call(what, fun, ctx=ctx)
            finally:
                ARMED[0] = False
            b = snapshot(deep)
        d = difference(a, b)
        R.check(not d, f"{what}:setting", "; ".join(d), **ctx)
        R.check(not WRITES, f"{what}:system", f"{WRITES[:3]}", **ctx)
        text = out.getvalue() + err.getvalue()
        R.check(not text, f"{what}:output", f"printed {text[:120]!r}", **ctx)
        if quiet:
            R.check(not ws, f"{what}:warning", f"{[str(w.message)[:80] for w in ws[:3]]}", **ctx)
        if not threads:
            new = [t.name for t in threading.enumerate() if t not in th]
            R.check(not new, f"{what}:threads", f"left running: {new}", **ctx)
        if not drawing:
            R.check(figures() == figs, f"{what}:figures", f"{len(figures())} figures open, {len(figs)} before", **ctx)
        gone = [g for g in figs if g not in figures()]
        R.check(not gone, f"{what}:closed", f"{len(gone)} figures of the caller were closed", **ctx)
        R.bump("snapshots")
        return res


@contextlib.contextmanager
def host(k):
    "Unusual but legal settings of the host program."
    import torch

    saved = np.geterr(), np.get_printoptions(), np.getbufsize(), torch.get_num_threads()
    mode = [None, torch.no_grad, torch.inference_mode, torch.enable_grad][(k // 4) % 4]
    mode = mode() if mode else contextlib.nullcontext()
    mode.__enter__()
    import matplotlib.pyplot as plt

    gcs = gc.isenabled(), gc.get_threshold()
    more = plt.isinteractive(), sys.getswitchinterval(), sys.getrecursionlimit(), decimal.getcontext().prec, dict(plt.rcParams)
    try:
        # settings of the interpreter and of the plots
        if k % 3 == 0:
            gc.disable()
            plt.ion()
        elif k % 3 == 1:
            gc.set_threshold(50, 5, 5)
            sys.setrecursionlimit(2500)
            decimal.getcontext().prec = 7
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                plt.rcParams.update({"lines.linewidth": 3.5, "axes.grid": True, "figure.figsize": (3.0, 2.0), "legend.loc": "upper right",
                                     "figure.max_open_warning": 0})
        else:
            sys.setswitchinterval(1e-4)
        if k % 4 == 0:
            np.seterr(all="ignore")
            np.set_printoptions(precision=2, suppress=True, threshold=5)
        elif k % 4 == 1:
            np.seterr(divide="raise", invalid="raise", over="raise", under="ignore")
            np.random.seed(k)
            random.seed(k)
        elif k % 4 == 2:
            np.seterr(all="warn")
            np.setbufsize(32 * 16)
            torch.set_num_threads(3)
            torch.manual_seed(k)
        else:
            np.seterr(divide="call", invalid="print")
            torch.use_deterministic_algorithms(True)
        yield
    finally:
        mode.__exit__(None, None, None)
        np.seterr(**saved[0])
        np.set_printoptions(**saved[1])
        np.setbufsize(saved[2])
        torch.set_num_threads(saved[3])
        torch.use_deterministic_algorithms(False)
        gc.set_threshold(*gcs[1])
        (gc.enable if gcs[0] else gc.disable)()
        (plt.ion if more[0] else plt.ioff)()
        sys.setswitchinterval(more[1])
        sys.setrecursionlimit(more[2])
        decimal.getcontext().prec = more[3]
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            plt.rcParams.update(more[4])


IMPORT = r"""
import io, sys, json, warnings
sys.dont_write_bytecode = True
sys.path.insert(0, sys.argv[2])
import vmon.checks.c27 as m   # (imports the library once ...)
for k in [k for k in sys.modules if k.split(".")[0] == "hyperelastic"]:
    del sys.modules[k]
import torch, scipy.optimize, matplotlib.pyplot as plt, numpy as np, einsumt
import contextlib
sys.addaudithook(m.audit)
out, err = io.StringIO(), io.StringIO()
with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err), warnings.catch_warnings(record=True) as ws:
    warnings.simplefilter("always")
    import threading
    th = threading.active_count()
    a = m.snapshot(True)
    m.ARMED[0] = True
    import hyperelastic
    m.ARMED[0] = False
    b = m.snapshot(True)
    th = threading.active_count() - th
w = [x for x in m.WRITES]
print(json.dumps({"difference": m.difference(a, b), "system": w, "output": out.getvalue() + err.getvalue(),
                  "warnings": [str(x.message) for x in ws], "threads": th, "figures": len(plt.get_fignums()),
                  "file": hyperelastic.__file__}))
"""


def importing(R):
    "A fresh import changes nothing."
    here = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    p = subprocess.run([sys.executable, "-B", "-c", IMPORT, "x", here], capture_output=True, text=True, timeout=300,
                       env=dict(os.environ, VMON_REPO=REPO), cwd=here)
    R.event(("import",))
    if p.returncode:
        R.check(False, "import:fails", p.stderr[-400:])
        return
    d = json.loads(p.stdout.strip().splitlines()[-1])
    R.check(os.path.realpath(d["file"]).startswith(os.path.realpath(SRC)), "import:other tree", d["file"])
    for k in ("difference", "system", "output", "warnings", "threads", "figures"):
        R.check(not d[k], f"import:{k}", f"{d[k]}")


class Seen(Exception):
    pass


def spy(log, inner, names, raising=False):
    "The user's object, which notes the settings it runs under, speaks and warns (or raises)."

    class Spy:
        def __getattr__(self, k):
            return getattr(inner, k)

    def wrap(name):
        def call(self, *a, **kw):
            log.append((name, snapshot()))
            print("the user's own words")
            warnings.warn("the user's own warning", UserWarning, stacklevel=1)
            if raising:
                raise Seen(name)
            return getattr(inner, name)(*a, **kw)

        return call

    for n in names:
        setattr(Spy, n, wrap(n))
    return Spy()


def callbacks(R, rng):
    "Code of the user that is called by the library runs under the settings of the host, and is heard."
    import torch

    names = ("gradient", "hessian")
    F = np.ascontiguousarray(lay(states(rng, 6, ("moderate", "dense"))[0], (6,)))
    log = []

    def speaking(a, b, c):
        log.append(("energy", snapshot()))
        print("the user's own words")
        warnings.warn("the user's own warning", UserWarning, stacklevel=1)
        return a - 3 + b**2 / 9

    m = {
        "invariants": lambda r: hel.InvariantsFramework(spy(log, ModuleInvariants(0.5, 0.1), names, r)),
        "stretches": lambda r: hel.StretchesFramework(spy(log, ModuleStretches(0.7), names, r)),
        "generalized": lambda r: hel.GeneralizedInvariantsFramework(spy(log, ModuleInvariants(0.5, 0.1), names, r), hel.models.generalized.deformation, exponent=1.6),
        "material": lambda r: spy(log, hel.InvariantsFramework(ModuleInvariants(0.5, 0.1)), names, r),
        "torch": lambda r: hel.InvariantsFramework(hel.models.invariants.TorchModel(speaking)),
    }
    k = itertools.count(int(rng.integers(12)))
    for sp in (hel.DeformationSpace, hel.DistortionalSpace, hel.DilatationalSpace):
        for kind, make in m.items():
            for name, raising, opt in itertools.product(names, (False, True), ({}, {"parallel": True})):
                if raising and kind == "torch":
                    continue
                u = sp(make(raising), **opt)
                ctx = {"material": kind, "space": sp.__name__, "call": name, "raising": raising, **opt}
                i = next(k)
                out = io.StringIO()
                with host(i), warnings.catch_warnings(record=True) as heard, contextlib.redirect_stdout(out):
                    warnings.simplefilter("always")
                    before = snapshot()
                    log.clear()
                    try:
                        getattr(u, name)([F, None])
                        raised = None
                    except Exception as e:  # noqa: BLE001
                        raised = e
                if raising:
                    R.check(isinstance(raised, Seen), "callback:exception", f"{raised!r} instead of the exception of the user", **ctx)
                elif raised is not None:
                    if kind == "torch" and "inference" in str(raised).lower():
                        continue
                    R.violation(f"callback:raised:{type(raised).__name__}", str(raised)[:300], **ctx)
                if not R.check(len(log) > 0, "callback:never called", "the user's code was not called", **ctx):
                    continue
                R.check("own words" in out.getvalue(), "callback:words", "the output of the user's code is lost", **ctx)
                R.check(any("own warning" in str(w.message) for w in heard), "callback:warnings", "the warning of the user's code is lost", **ctx)
                for where, now in log:
                    ch = [d for d in difference(before, now) if not (d.startswith("torch") and kind == "torch") and not d.startswith("threads")]
                    R.check(not ch, "callback:settings", f"inside {where}: {ch}", **ctx)
                R.bump("callbacks", len(log))
                R.event(("callback", kind, sp.__name__, name, raising, repr(opt), i % 12))


def run(R):
    import matplotlib
    import matplotlib.pyplot as plt
    import torch

    importing(R)
    torch.set_default_dtype(torch.float64)
    np.seterr(divide="warn", over="warn", invalid="warn", under="ignore")  # numpy's defaults
    rng = np.random.default_rng([SEED, 27])
    R.require("snapshots", 300)
    R.require("settings", 60)
    sys.addaudithook(audit)
    # resolve what is lazily set up by other packages at their first use
    plt.figure()
    plt.plot([0, 1], label="a")
    plt.legend()
    plt.gcf().canvas.draw()
    plt.close("all")
    torch.autograd.functional.hessian(lambda x: x**3, torch.ones(1))
    torch.get_rng_state()
    matplotlib.get_backend()
    import einsumt

    einsumt.einsumt("i,i->i", np.ones(64), np.ones(64))
    shared = classes()
    W = Watch(R)
    x = np.array([0.7, 1.0, 1.4, 2.2])
    turns = itertools.count()
    for rep in range(pick(1, 8)):
        for i, (key, make) in enumerate(materials(rng)):
            f, s, opt = key
            ctx = {"material": f, "space": s, "options": opt}
            if "parallel" in opt:
                make()
            u = W(f"{f}:build", make, ctx, threads="parallel" in opt)
            F = np.ascontiguousarray(lay(states(rng, 24)[0], (24,)))
            results = {}
            for name in ("gradient", "hessian"):
                results[name] = W(f"{f}:{name}", lambda u=u, F=F, name=name: getattr(u, name)([F, None]), ctx, threads="parallel" in opt)
            # at rest, single points, one batch of rest states; batches of one point, of none, of many
            for G in (np.eye(3), np.repeat(np.eye(3)[..., None], 3, axis=-1), F[..., :1], F[..., None, 1:2], F[..., 2], F[..., :0],
                      np.repeat(F[..., None], 200, axis=-1) if i % 6 == rep % 6 else F[..., None, :0]):
                for name in ("gradient", "hessian"):
                    W(f"{f}:{name}:rest", lambda u=u, G=G, name=name: getattr(u, name)([G, None]), ctx, threads="parallel" in opt)
            for name in ("gradient", "hessian"):
                if results[name] is FAILED:
                    continue
                k = i + rep if f != "torch" else [0, 4, 9, 3, 11, 14][next(turns) % 6]
                with host(k):
                    again = W(f"{f}:{name}:host", lambda u=u, F=F, name=name: getattr(u, name)([F, None]), {**ctx, "setting": k}, threads="parallel" in opt)
                if again is not FAILED:
                    a, b = (np.asarray(r[0]) for r in (again, results[name]))
                    R.close(a, b, np.abs(b).max(), 1e-11, f"{f}:{name}:host result", "under settings of the host", F=F, **ctx)
                R.bump("settings")
        # errors leave the settings alone too
        u = dict(materials(rng))[("tod", "Deformation", "{}")]()

        def failing():
            for bad in ([np.eye(2), None], [np.zeros((3, 3)), None], [np.full((3, 3), np.nan), None], ["x", None]):
                for v in (u, dict(materials(rng, parallel=False))[("ogden", "Distortional", "{}")]()):
                    with contextlib.suppress(Exception):
                        v.hessian(bad)

        W("failure", failing, quiet=False)
        for trail in ((), (7,), (2, 3), (0,), (3, 0), (4001,)):
            for name, fun in math_calls(rng, trail).items():
                if trail == () and name in ("eigh", "eigh:fun"):
                    continue
                W(f"math:{name}", fun, {"trail": str(trail)})
        for name, sim in simulations(x).items():
            W("simulation", sim.stress, {"simulation": name})
            W("simulation:fit function", lambda sim=sim: sim.stress_curve_fit(x, *sim.parameters), {"simulation": name})
        # a material function of any kind
        class Factory:
            def __call__(self, C10, C01):
                return material(C10, C01)

        for what, fun in (("partial", functools.partial(material, C20=0.01)), ("lambda", lambda C10, C01: material(C10, C01)), ("object", Factory()),
                          ("method", Factory().__call__)):
            for case in CASES:
                sim = W(f"simulation:build:{what}", lambda case=case, fun=fun: hel.lab.Simulation(case(), x, ["C10", "C01"], fun), {"case": case.__name__})
                if sim is not FAILED:
                    W(f"simulation:{what}", sim.stress, {"case": case.__name__})
        opt = optimize(rng)
        W("fit", opt.curve_fit, quiet=False)
        W("fit:lm", lambda: opt.curve_fit(method="lm"), quiet=False)
        fig, ax = plt.subplots()
        plt.subplots(2, 1)  # the given axes are not pyplot's current ones
        current = plt.gcf(), plt.gca()
        for e in opt.experiments:
            W("plot:force", lambda e=e: e.plot_force_displacement(ax=ax), drawing=True)
            W("plot:stress", lambda e=e: e.plot_stress_stretch(ax=ax), drawing=True)
        for e in opt.simulations:
            W("plot:simulation", lambda e=e: e.plot_stress_stretch(ax=ax), drawing=True)
        R.check((plt.gcf(), plt.gca()) == current, "plot:current", "pyplot's current figure and axes changed by plots into given axes")
        W("plot:fit", opt.plot, drawing=True)
        W("plot:new", opt.experiments[0].plot_stress_stretch, drawing=True)
        R.check(fig in figures(), "plot:closed", "a figure of the caller was closed")
        plt.close("all")
        # fits, simulations and plots under settings of the host
        for k in range(12):
            opt = optimize(np.random.default_rng(7))
            with host(k):
                if k % 4 != 1:  # (a fit may overflow)
                    W("fit:host", opt.curve_fit, {"setting": k}, quiet=False)
                W("simulation:host", opt.simulations[0].stress, {"setting": k})
                fig, ax = plt.subplots()
                for what, f in (("force", opt.experiments[0].plot_force_displacement), ("stress", opt.experiments[1].plot_stress_stretch),
                                ("simulation", opt.simulations[1].plot_stress_stretch)):
                    W(f"plot:{what}:host", (lambda f=f: f(ax=ax)) if k % 2 else f, {"setting": k}, drawing=True)
                if k % 4 != 1:
                    W("plot:fit:host", opt.plot, {"setting": k}, drawing=True, quiet=False)
                plt.close("all")
            R.bump("settings of fits and plots")
        R.require("settings of fits and plots", 12)
    R.require("callbacks", 60)
    callbacks(R, rng)
    # the default precision of the host
    torch.set_default_dtype(torch.float32)
    try:
        for key, make in materials(rng, parallel=False):
            if key[0] in ("torch", "tod", "ogden"):
                u = W(f"{key[0]}:build:float32", make, {"space": key[1], "options": key[2]})
                F = lay(states(rng, 8)[0], (8,))
                for name in ("gradient", "hessian"):
                    W(f"{key[0]}:{name}:float32", lambda u=u, F=F, name=name: getattr(u, name)([F, None]), {"space": key[1], "options": key[2]})
    finally:
        torch.set_default_dtype(torch.float64)
    # what everything in the process shares: classes and functions of the library, of SciPy and matplotlib
    ch = [f"{'.'.join(k)}: {str(v)[:60]} -> {str(new.get(k))[:60]}" for new in (classes(),) for k, v in shared.items()
          if new.get(k) != v and v not in (id(None), "None")]
    R.check(not ch, "shared", f"changed: {ch[:5]}")
    R.sample({"watched": sorted(snapshot(True)), "shared": len(shared)})
