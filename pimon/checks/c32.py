"""The same question has the same answer, and asking leaves the process alone."""

import contextlib
import json
import os
import subprocess
import sys
import threading

import numpy as np

from .. import core, gen, sky

ID = "C32"
RULE = (
    "one case = one operation (measure, subtract, coadd, align, transparency, "
    "plot, detect, store) done twice in one process with the global random "
    "state, the hash seed and unrelated images in between changed, and once "
    "more in a fresh process; answers must agree, and process wide settings "
    "(random state, floating point error handling, warning filters, "
    "environment, folder, plotting parameters, buffers of sep, threads, logging) must be as "
    "before; key = operation|settings"
)
REQUIRED = ["same answer twice", "same answer in another process",
            "global random state is not drawn from", "settings as before"]

OPS = ["psf", "subtract", "subtract kl", "coadd", "coadd parallel",
       "transparency", "match", "maxima", "gauss", "simulate", "plot",
       "older spelling"]


def cases(tier, seed):
    n = 72 if tier == "quick" else 440
    few = 4 if tier == "quick" else 16
    # a buffer of sep too small for the image: the extraction falls back
    return [{"seed": seed, "i": 95000 + i, "op": ("psf", "subtract kl")[i % 2],
             "fresh": i % 4 == 0, "pixstack": (100, 200)[i // 2 % 2]}
            for i in range(few)] + [
            {"seed": seed, "i": 90000 + i, "op": "crowded", "fresh": i % 2 == 0}
            for i in range(few)] + [{"seed": seed, "i": i, "op": OPS[i % len(OPS)],
             "fresh": (i // len(OPS)) % 3 == 0} for i in range(n)]


def perform(params):
    """Runs the operation; a dict of arrays."""
    from properimage import operations as op
    from properimage import plot as plots
    from properimage import simtools, utils
    from properimage.single_image import SingleImage, SingleImageGaussPSF

    rng = gen.rng_of(params)
    kind = params["op"]
    if kind == "crowded":  # more stars than are used
        k = int(rng.choice([30, 62, 66]))
        g = np.arange(k) * 17.0 + 30
        pos = np.stack(np.meshgrid(g, g), -1).reshape(-1, 2)
        pos = pos + rng.uniform(-2, 2, pos.shape)
        n = 17 * k + 45
        im = gen.stars((n, n), pos, rng.uniform(3e3, 9e3, k * k), 1.3)
        im += 100 + rng.normal(0, 2, (n, n))
        with SingleImage(im.astype("f4"), stamp_shape=(11, 11)) as s:
            b = s.best_sources
            return {"x": np.array(b["x"]), "flux": np.array(b["flux"]),
                    "n": np.array([s.n_sources])}
    shape = gen.shape_of(rng, small=True)
    if kind in ("psf", "gauss", "plot"):
        im, _, _ = gen.field(rng, shape)
        im = gen.damage(rng, im)
        cls = SingleImageGaussPSF if kind == "gauss" else SingleImage
        with cls(im, smooth_psf=bool(rng.random() < 0.3)) as s:
            if kind == "plot":
                import matplotlib.pyplot as plt

                ax = s.plot.imshow()
                out = {"shown": np.array(ax.images[0].get_array()),
                       "clim": np.array(ax.images[0].get_clim())}
                plt.close("all")
                axs = s.plot.autopsf(iso=True)
                out["psf"] = np.array(np.ravel(axs)[0].images[0].get_array())
                plt.close("all")
                with open(os.devnull, "wb") as null:
                    plots.plot_S(s.s_component, path=null)
                    plots.plot_R(np.abs(s.interped) + 1, path=null)
                plt.close("all")
                return out
            a, psf = s.get_variable_psf(0.3)
            out = {"pos": np.array(s.stamps_pos), "psf": np.array(psf[0]),
                   "k": np.array([len(psf)]), "clean": np.array(s.interped)}
            if kind == "psf":
                out["s"] = np.array(s.s_component)
            return out
    if kind.startswith("subtract"):
        d = sky.pair(rng, shape, damage=bool(rng.random() < 0.5))
        D, P, S, m = op.subtract(
            d["ref"], d["new"], fitted_psf=kind == "subtract",
            shift=bool(rng.random() < 0.5), beta=bool(rng.random() < 0.7))
        return {"D": np.array(D), "P": P, "S": S, "m": np.array(m)}
    if kind == "older spelling":
        import warnings

        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            kept = [str(f) for f in warnings.filters]
            if rng.random() < 0.5:
                d = sky.pair(rng, shape)
                D, P, S, m = op.diff(d["ref"], d["new"], shift=False)
                out = {"D": np.array(D), "P": P, "S": S, "m": np.array(m)}
            else:
                d = sky.stack(rng, shape, k=2)
                R, P, m = op.stack_R(d["images"], align=False)
                out = {"R": np.array(R), "P": np.array(P), "m": np.array(m)}
            left = [str(f) for f in warnings.filters]
        out["warning filters as before"] = np.array([kept == left])
        return out
    if kind.startswith("coadd"):
        d = sky.stack(rng, shape)
        R, P, m = op.coadd(d["images"], align=False,
                           n_procs=3 if "parallel" in kind else 1)
        return {"R": np.array(R), "P": np.array(P), "m": np.array(m)}
    if kind == "transparency":
        d = sky.stack(rng, shape)
        zp, mm = utils.transparency([SingleImage(x) for x in d["images"]])
        return {"zp": np.array(zp), "mm": np.array(mm)}
    if kind == "match":
        a = rng.uniform(0, 100, (60, 2))
        d, i = utils.crossmatch(a, a[rng.permutation(60)]
                                + rng.normal(0, .1, (60, 2)), max_distance=1)
        return {"d": d, "i": i}
    if kind == "maxima":
        s = rng.normal(0, 1, shape) + gen.stars(
            shape, gen.positions(rng, shape, 8), np.full(8, 900.0))
        return {"c": np.array(utils.find_S_local_maxima(s))}
    n = int(rng.choice([64, 96]))
    scene = gen.stars((n, n), gen.positions(rng, (n, n), 6),
                      np.full(6, 5000.0), 1.0)
    return {"im": simtools.image(scene, n, 1.0, 4.0, 20.0,
                                 seed=int(rng.integers(2**31))),
            "psf": simtools.Psf(21, 4.0, 3.0, theta=30.0)}


def _settings():
    import logging
    import warnings

    import matplotlib as mpl
    import sep

    return {
        "floating point": dict(np.geterr()),
        "warning filters": [str(f) for f in warnings.filters],
        "environment": {k: v for k, v in os.environ.items()},
        "folder": os.getcwd(),
        "plotting": {k: str(v) for k, v in mpl.rcParams.items()},
        "root logger": (logging.getLogger().level,
                        len(logging.getLogger().handlers)),
        "printing": str(np.get_printoptions()),
        "recursion": sys.getrecursionlimit(),
        "buffers of sep": (sep.get_extract_pixstack(),
                           sep.get_sub_object_limit()),
    }


def run(params, mon):
    import matplotlib  # noqa: F401
    import sep

    pixstack = sep.get_extract_pixstack()
    try:
        if "pixstack" in params:
            sep.set_extract_pixstack(params["pixstack"])
        _run(params, mon)
    finally:
        sep.set_extract_pixstack(pixstack)


def _run(params, mon):
    rng = gen.rng_of(params, 7)
    kind = params["op"]
    # settings of the caller's own; the first use also imports things and
    # fills caches, which may touch the others
    kept = dict(np.geterr())
    np.seterr(**{k: str(rng.choice(["ignore", "warn"])) for k in kept})
    np.set_printoptions(precision=int(rng.integers(3, 12)))
    firm = ("floating point", "folder", "printing", "recursion",
            "buffers of sep")
    before = _settings()
    with _owned():
        _judge(params, mon, rng, kind, kept, firm, before)


@contextlib.contextmanager
def _owned():
    """Plotting parameters of the caller's own, for a while."""
    import matplotlib as mpl

    with mpl.rc_context({"image.origin": "upper", "image.cmap": "gray",
                         "font.size": 9.0, "figure.figsize": (5.0, 3.0),
                         "image.interpolation": "nearest",
                         "lines.linewidth": 1.25, "savefig.dpi": 77.0}):
        yield


def _judge(params, mon, rng, kind, kept, firm, before):
    import matplotlib as mpl

    given = {k: str(v) for k, v in mpl.rcParams.items() if k != "backend"}
    perform(params)
    got = _settings()
    for name in firm:
        mon.check("settings as before", got[name] == before[name], what=name,
                  op=kind, first_use=True)
    now = got["plotting"]
    mon.check("settings as before", all(now[k] == v for k, v in given.items()),
              what="plotting", op=kind, first_use=True)
    np.random.seed(int(rng.integers(2**31)))
    state = np.random.get_state()
    settings, threads = _settings(), threading.active_count()
    one = perform(params)
    now = np.random.get_state()
    if kind != "simulate":
        mon.check("global random state is not drawn from",
                  now[0] == state[0] and now[2] == state[2]
                  and np.array_equal(now[1], state[1]), op=kind)
    got = _settings()
    for name, val in settings.items():
        mon.check("settings as before", got[name] == val, what=name, op=kind)
    mon.check("no thread is left running",
              threading.active_count() <= max(threads, 1) + 8,
              before=threads, after=threading.active_count())
    # -- other images in between, another random state ---------------------
    np.random.seed(int(rng.integers(2**31)))
    np.random.random(17)
    other = dict(params, i=params["i"] + 10007,
                 op=OPS[int(rng.integers(len(OPS)))])
    try:
        perform(other)
    except Exception:
        mon.event("the image in between was refused")
    two = perform(params)
    if "warning filters as before" in one:
        mon.check("settings as before", all(
            x["warning filters as before"].all() for x in (one, two)),
            what="warning filters", op=kind)
    _same(mon, "same answer twice", one, two, kind)
    if params["fresh"]:
        _same(mon, "same answer in another process", one,
              _elsewhere(params, int(rng.integers(1, 4000000))), kind)
        mon.event("fresh processes")
    np.seterr(**kept)
    mon.event("answers compared", len(one))
    mon.key(kind, params["fresh"], params["i"])
    mon.sample(op=kind, answers={k: list(np.shape(v)) for k, v in one.items()})


def _same(mon, label, a, b, kind):
    mon.check(label, sorted(a) == sorted(b))
    for name in a:
        x, y = np.asarray(a[name]), np.asarray(b[name])
        if x.dtype.kind in "fc" and np.isfinite(x).all():
            mon.close(label, y, x, rtol=1e-9, atol=1e-300, op=kind, what=name)
        else:
            mon.equal(label, y, x, op=kind, what=name)


def _elsewhere(params, hashseed):
    """The same operation in a process of its own, with another hash seed."""
    import tempfile

    with tempfile.TemporaryDirectory() as tmp:
        out = os.path.join(tmp, "answer.npz")
        env = dict(os.environ, PYTHONHASHSEED=str(hashseed), TMPDIR=tmp,
                   PYTHONPATH=f"{core.REPO}:{core.VERIF}")
        code = ("import sys, json, logging, warnings; "
                "logging.disable(logging.CRITICAL); "
                "warnings.simplefilter('ignore'); "
                "from pimon.checks import c32; import numpy as np, sep; "
                f"sep.set_extract_pixstack({params.get('pixstack', 300000)}); "
                "np.savez(sys.argv[2], **c32.perform(json.loads(sys.argv[1])))")
        subprocess.run([sys.executable, "-c", code, json.dumps(params), out],
                       env=env, check=True, timeout=100, cwd=tmp,
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        with np.load(out, allow_pickle=False) as f:
            return {k: f[k] for k in f.files}
