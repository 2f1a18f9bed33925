"""Instrumentation attached from outside, before the code under test is imported.

Only public seams of third party libraries are wrapped; nothing in /repo changes.
"""

import functools
import threading

_log = threading.local()
RANSAC_SEED = [0]
UNSUCCESSFUL = [False]  # searches report that they did not converge
STILL = [None]  # the unknown (from the end) whose search ends at zero
WORKERS = [None]  # at most so many threads behind a parallel section


def optimizer_calls():
    """Optimiser results seen in this thread since the last reset."""
    if not hasattr(_log, "calls"):
        _log.calls = []
    return _log.calls


def reset():
    _log.calls = []


def install():
    import numpy as np
    import scipy.optimize as opt

    for name in ("least_squares", "minimize_scalar", "minimize"):
        orig = getattr(opt, name)
        if hasattr(orig, "_pimon"):
            continue

        def make(orig, name):
            @functools.wraps(orig)
            def wrapper(fun, *args, **kwargs):
                res = orig(fun, *args, **kwargs)
                if UNSUCCESSFUL[0]:
                    res.success, res.status = False, 0
                    res.message = "injected: no convergence"
                    res.x = res.x * 1.1 + 0.01
                if STILL[0] is not None:
                    res.x = np.array(res.x, float)
                    res.x[STILL[0]] = 0.0
                optimizer_calls().append((name, fun, args, kwargs, res))
                return res

            wrapper._pimon = True
            return wrapper

        setattr(opt, name, make(orig, name))

    # astroalign shuffles its candidates with an unseeded generator: give it a
    # seed, so that equal inputs are registered equally and cases replay.
    try:
        import types

        import astroalign
        import numpy as np

        if not hasattr(astroalign, "_pimon"):
            rnd = types.SimpleNamespace(**{
                k: v for k, v in vars(np.random).items()})
            rnd.default_rng = lambda *a: np.random.default_rng(
                a[0] if a else RANSAC_SEED[0])
            fake = types.SimpleNamespace(**vars(np))
            fake.random = rnd
            astroalign._np = fake
            astroalign._pimon = True
    except ImportError:
        pass

    # a parallel section may get fewer threads than it asked for: each of them
    # then takes several pieces of work
    import concurrent.futures as cf

    import joblib

    def limited(cls, name):
        orig = cls.__init__
        if hasattr(orig, "_pimon"):
            return

        @functools.wraps(orig)
        def init(self, *args, **kwargs):
            if WORKERS[0]:
                if args and isinstance(args[0], int):
                    args = (min(args[0], WORKERS[0]),) + args[1:]
                elif isinstance(kwargs.get(name), int):
                    kwargs[name] = min(kwargs[name], WORKERS[0])
            orig(self, *args, **kwargs)

        init._pimon = True
        cls.__init__ = init

    limited(joblib.Parallel, "n_jobs")
    limited(cf.ThreadPoolExecutor, "max_workers")
