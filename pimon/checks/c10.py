"""Results depend on the current settings, never on the order of the questions."""

import numpy as np

from .. import fresh, gen

ID = "C10"
RULE = (
    "one case = one random history of 10-25 operations (questions, changes of "
    "information loss and flux scale, use in coadd / subtract / transparency) "
    "on one image; after every question the answer is compared with the one of "
    "a fresh image brought directly to the same settings; key = operation "
    "pairs seen in a row"
)
REQUIRED = ["answer of the history equals the fresh answer",
            "answer equals the one of a fresh process",
            "operation after the history equals the fresh one"]
FRESH = True

ASK = ["s_component", "s_hat_comp", "normal_image", "psf_hat_sqnorm",
       "p_sqnorm", "psf_xy", "variable_psf", "interped", "interped_hat",
       "stamps", "n_sources", "cov_matrix", "background", "kl", "domain",
       "noise", "mask", "stamp_shape"]
DO = ["zp", "loss", "loss-attr", "coadd", "subtract", "transparency",
      "update", "shape"]


def cases(tier, seed):
    n = 56 if tier == "quick" else 500
    return [{"seed": seed, "i": i} for i in range(n)]


def product(a, basis, at):
    """Sign free value of the decomposition at some points."""
    if a[0] is None:
        return np.array(basis[0])
    return sum(np.multiply.outer(np.asarray(f(*at)), b)
               for f, b in zip(a, basis))


def ask(img, what, at, xy):
    if what == "psf_xy":
        return img.get_psf_xy(*xy)
    if what == "variable_psf":
        a, b = img.get_variable_psf()
        return np.concatenate([product(a, b, at).ravel(), [len(b)]])
    if what == "kl":
        b, a = img.kl_basis, img.kl_afields
        return np.concatenate([product(a, b, at).ravel(), [len(b)]])
    if what == "stamps":
        p = img.stamps_pos
        return p[np.lexsort((p[:, 1], p[:, 0]))]
    if what == "cov_matrix":
        return np.sort(np.linalg.eigvalsh(img.cov_matrix))
    if what == "domain":
        return np.array(img.get_afield_domain())
    if what == "stamp_shape":  # as measured
        img.n_sources
        return np.array(img.stamp_shape, float)
    if what == "noise":
        return np.array([img.var])
    if what == "mask":
        return np.asarray(img.mask, dtype=float)
    v = getattr(img, what)
    v = np.array(v() if callable(v) else v)
    return v.astype(float) if v.dtype.kind in "bui" else v


def in_fresh_process(im, opts, loss, zp, questions, at, xy):
    """Asked of an image that is alone in its process."""
    from properimage.single_image import SingleImage

    f = SingleImage(im, **opts)
    try:
        f.zp = zp
        f.get_variable_psf(inf_loss=loss)
        return [ask(f, q, at, xy) for q in questions]
    finally:
        f._clean()


def decoys(rng, im):
    """Other images that have something in common with this one."""
    ny, nx = im.shape
    out = []
    for kind in rng.permutation(6)[:2]:
        if kind == 0:  # the other way round
            out.append(im.T.copy())
        elif kind == 1:  # same longer side
            k = int(rng.integers(8, 20))
            out.append(im[:-k].copy() if ny <= nx else im[:, :-k].copy())
        elif kind == 2:  # same first side
            out.append(im[:, int(rng.integers(8, 20)):].copy())
        elif kind == 3:  # same shape, sum and extremes
            out.append(im[::-1, ::-1].copy())
        elif kind == 4:  # same stars, other noise and flux
            out.append((im * 1.7 + rng.normal(0, 3, im.shape)).astype("f4"))
        else:  # same pixels, some masked
            d = im.copy()
            y, x = rng.integers(0, 90, 2)
            d[y:y + 25, x:x + 30] = np.nan
            out.append(d)
    return out


def run(params, mon):
    from properimage import operations as op, utils
    from properimage.single_image import SingleImage

    rng = gen.rng_of(params)
    shape = gen.shape_of(rng, small=True)
    var = bool(rng.random() < 0.6)
    if var:
        im, pos, flux = gen.variable_field(rng, shape, n=60)
    else:
        im, pos, flux = gen.field(rng, shape, noise=rng.uniform(2, 6))
    im = im.astype("f4")
    other = (gen.stars(shape, pos, flux * 1.4, 2.0)
             + 90 + rng.normal(0, 4, shape)).astype("f4")
    opts = {}
    if rng.random() < 0.5:
        opts["stamp_shape"] = (13, 13)
    img = SingleImage(im.copy(), **opts)
    born = [np.array(img.mask), img.data.data.copy()]
    at = (np.array([20.0, shape[0] - 25.0]), np.array([shape[1] / 2, 30.0]))
    xy = (shape[0] // 2 + 3, shape[1] // 2 - 5)
    losses = [float(v) for v in rng.choice([0.3, 0.2, 0.1, 0.04, 0.01], 3,
                                           replace=False)]
    brought = {}

    def model(what):
        k = (float(img.inf_loss), float(img.zp))
        if k not in brought:
            f = SingleImage(im.copy(), **opts)
            f.zp = k[1]
            f.get_variable_psf(inf_loss=k[0])
            brought[k] = (f, {})
        f, memo = brought[k]
        if what not in memo:
            memo[what] = ask(f, what, at, xy)
        return memo[what]

    def compare(what, lo, first, call):
        """The operation on the image with a history and on a fresh one."""
        out = []
        for one in (img, SingleImage(im.copy(), **opts)):
            with SingleImage(other.copy(), **opts) as two:
                out.append(call([one, two] if first else [two, one]))
                mon.check("operation leaves its information loss",
                          one.inf_loss == two.inf_loss == lo,
                          got=[one.inf_loss, two.inf_loss], want=lo)
        one._clean()
        mon.event("operations compared with the ones of a fresh image")
        for k, (a, b) in enumerate(zip(*out)):
            mon.close("operation after the history equals the fresh one",
                      1.0 * np.asarray(a), 1.0 * np.asarray(b), rtol=2e-5,
                      op=what,
                      loss=lo, part=k, trace=trace[-8:])

    kept = []
    for dim in decoys(rng, im):
        d = SingleImage(dim, **(opts if rng.random() < 0.7 else
                                {"stamp_shape": (11, 15)}))
        d.get_variable_psf(inf_loss=losses[0])
        for q in rng.choice(ASK, 5, replace=False):
            ask(d, q, at, (dim.shape[0] // 2, dim.shape[1] // 2))
        mon.event("other images asked first")
        if rng.random() < 0.5:
            d._clean()
        else:
            kept.append(d)
    prev = "new"
    trace = []
    if rng.random() < 0.3:  # the stamps asked for late, not too late
        opts["stamp_shape"] = [(13, 13), (15, 11), (12, 12)][rng.integers(3)]
        img.get_variable_psf(shape=opts["stamp_shape"])
        mon.event("stamp shapes asked for before measuring")
    settings = set()
    for step in range(int(rng.integers(12, 26))):
        if rng.random() < 0.35:
            o = DO[rng.integers(len(DO))]
            if o in ("coadd", "subtract") and rng.random() < 0.5:
                o = ["zp", "loss"][rng.integers(2)]
            if o == "zp":
                img.zp = float(np.round(rng.uniform(0.4, 2.5), 2))
                want = img.zp
                mon.check("setting kept", img.zp == want)
            elif o == "loss":
                lo = losses[rng.integers(3)]
                img.get_variable_psf(inf_loss=lo)
                mon.check("setting kept", img.inf_loss == lo)
            elif o == "shape":  # too late: the stars are measured
                img.n_sources
                img.get_variable_psf(shape=[(9, 9), (15, 13)][rng.integers(2)])
            elif o == "loss-attr":
                img.inf_loss = losses[rng.integers(3)]
            elif o == "coadd":
                lo, first = losses[rng.integers(3)], rng.random() < 0.5
                procs = int(rng.integers(1, 3))
                compare(o, lo, first, lambda pair: op.coadd(
                    pair, align=False, inf_loss=lo, n_procs=procs))
            elif o == "subtract":
                lo, first = losses[rng.integers(3)], rng.random() < 0.5
                compare(o, lo, first, lambda pair: op.subtract(
                    *pair, fitted_psf=False, beta=False, shift=False,
                    inf_loss=lo))
            elif o == "transparency":
                with SingleImage(other.copy(), **opts) as two:
                    utils.transparency([img, two])
            else:
                if prev == "new":
                    img.update_sources()
                else:
                    img.update_sources(img.best_sources)
            mon.event("settings changed")
        else:
            o = ASK[rng.integers(len(ASK))]
            settings.add((img.inf_loss, img.zp))
            got = ask(img, o, at, xy)
            mon.event("questions asked")
            mon.close("answer of the history equals the fresh answer", got,
                      model(o), rtol=2e-5,
                      mech=None, question=o, trace=trace[-8:],
                      settings=[img.inf_loss, img.zp])
        mon.check("questions change neither pixels nor mask",
                  np.array_equal(img.mask, born[0])
                  and np.array_equal(np.ma.getmaskarray(img.data), born[0])
                  and np.array_equal(img.data.data, born[1],
                                     equal_nan=True), after=o)
        mon.key(prev, o)
        trace.append(o)
        prev = o
    qs = [str(q) for q in rng.choice(ASK, 6, replace=False)]
    try:
        want = fresh.answer(
            __name__, "in_fresh_process", im.copy(), opts,
            float(img.inf_loss), float(img.zp), qs, at, xy)
    except fresh.FreshFailed as e:
        raise RuntimeError(str(e)) from None
    for q, w in zip(qs, want):
        mon.close("answer equals the one of a fresh process",
                  ask(img, q, at, xy), w, rtol=2e-5, question=q,
                  settings=[img.inf_loss, img.zp])
    mon.event("questions asked in a fresh process", len(qs))
    for d in kept:
        d._clean()
    mon.sample(trace=trace, settings=sorted(settings))
    img._clean()
    for f, _ in brought.values():
        f._clean()
