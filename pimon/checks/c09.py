"""Karhunen-Loeve decomposition of the measured stars."""

import numpy as np

from .. import gen, ref

ID = "C09"
RULE = (
    "one case = one field (constant or position dependent PSF) decomposed for "
    "several information losses; covariance, spectrum, number of components, "
    "basis images and coefficient fields are compared with an independent "
    "decomposition of the same stamps; key = number of components|smooth|"
    "variable|catalogue size class"
)
REQUIRED = ["covariance model", "number of components",
            "component times coefficient model"]

LOSSES = [0.9, 0.5, 0.25, 0.2, 0.1, 0.05, 0.02, 0.005, 0.0005]


def cases(tier, seed):
    n = 56 if tier == "quick" else 700
    out = [{"seed": seed, "i": i} for i in range(n)]
    out = [{"seed": seed, "i": i, "many": True, "var": i % 2 == 0}
           for i in range(4 if tier == "quick" else 24)] + out
    return out


def run(params, mon):
    from properimage.single_image import SingleImage

    rng = gen.rng_of(params)
    if params.get("many"):
        return many(rng, mon, SingleImage, params["var"])
    i = params["i"]
    var = i % 2 == 0
    shape = gen.shape_of(rng)
    if var:
        im, pos, flux = gen.variable_field(rng, shape, n=80,
                                           noise=rng.uniform(2, 6))
    else:
        im, pos, flux = gen.field(rng, shape, sx=rng.uniform(1.5, 2.3),
                                  noise=rng.uniform(2, 8))
    smooth = i % 4 == 3
    kw = {"smooth_psf": smooth}
    if rng.random() < 0.5:
        kw["stamp_shape"] = [(13, 13), (11, 15), (14, 14)][rng.integers(3)]
    img = SingleImage(im.astype("f4"), **kw)
    n = img.n_sources
    stamps = [img.db.load(k)[0] for k in range(n)]
    pos = np.array(img.stamps_pos)
    cov = img.cov_matrix
    m = np.array([s.ravel() for s in stamps])
    mon.event("stamps decomposed", n)
    want_cov = np.array([[np.mean((a - a.mean()) * (b - b.mean()))
                          for b in m] for a in m]) * m.shape[1] / (
                              m.shape[1] - 1)
    mon.close("covariance model", cov, want_cov, 1e-8)
    mon.close("covariance is symmetric", cov, cov.T, 1e-12)
    val, vec = img.eigenv
    mon.check("spectrum is non negative",
              val.min() >= -1e-9 * max(val.max(), 1e-300), low=val.min())
    mon.close("eigenvectors diagonalise the covariance",
              vec.T @ cov @ vec, np.diag(val), 1e-8)
    x, y = img.get_afield_domain()
    my, mx = np.mgrid[: shape[0], : shape[1]]
    mon.check("coefficient domain is the pixel grid",
              np.array_equal(x, my) and np.array_equal(y, mx))

    prev_n, prev = None, None
    losses = sorted(rng.choice(LOSSES, 4, replace=False), reverse=True)
    for loss in losses:
        loss = float(loss)
        a, basis = img.get_variable_psf(inf_loss=loss)
        wa, wb, power = ref.kl_products(stamps, pos, loss)
        mon.event("decompositions")
        kept = power[: len(basis)].sum()
        mon.check("information kept is enough",
                  1 - kept <= loss + 1e-9 or len(basis) == n,
                  kept=kept, loss=loss)
        ok = mon.check("number of components", len(basis) == len(wb),
                       got=len(basis), want=len(wb), loss=loss)
        mon.check("as many coefficients as components",
                  len(a) == len(basis), a=len(a), b=len(basis))
        mon.check("components have the stamp shape", all(
            b.shape == tuple(img.stamp_shape) for b in basis))
        if prev_n is not None:
            mon.check("less loss never means fewer components",
                      len(basis) >= prev_n, loss=loss)
        if not ok:
            continue
        if len(basis) == 1:
            mon.check("a constant PSF has no coefficients", a[0] is None)
            mon.check("a constant PSF has unit sum",
                      abs(basis[0].sum() - 1) < 1e-9, sum=basis[0].sum())
            if not smooth:
                mon.close("component times coefficient model", basis[0],
                          wb[0], 1e-8)
            else:
                mon.close("component times coefficient model", basis[0],
                          _smooth(wb[0]) / _smooth(wb[0]).sum(), 1e-6)
        else:
            gy = np.array([0, shape[0] // 3, shape[0] - 1, 20.5])
            gx = np.array([0, shape[1] // 2, shape[1] - 1, 33.25])
            if n < 14:  # the cubic surface is only determined at the stars
                gy, gx = pos[:, 0], pos[:, 1]
            for k in range(len(basis)):
                b = _smooth(wb[k]) if smooth else wb[k]
                got = np.multiply.outer(np.asarray(a[k](gy, gx)), basis[k])
                want = np.multiply.outer(wa[k](gy, gx), b)
                mon.close("component times coefficient model", got, want,
                          1e-5, k=k, loss=loss)
                norm = np.linalg.norm(basis[k] - basis[k].mean())
                mon.check(
                    "components come by decreasing power",
                    smooth or abs(norm**2 / (m.shape[1] - 1) / (power[k] * val.sum())
                        - 1) < 1e-3, k=k)
            if not smooth and prev is not None and len(prev) > 1:
                for k in range(len(prev)):
                    mon.close("smaller decompositions are nested",
                              basis[k] * np.sign(np.vdot(basis[k], prev[k])),
                              prev[k], 1e-9, k=k)
        prev_n, prev = len(basis), [b.copy() for b in basis]
        mon.key(len(basis), smooth, var, n // 10)
    mon.check("information loss reported", abs(img.inf_loss - losses[-1])
              < 1e-12)
    mon.sample(stars=n, losses=losses, components=prev_n, variable=var,
               smooth=smooth)
    img._clean()


def _smooth(b):
    from scipy.ndimage import gaussian_filter

    return gaussian_filter(b, 1.5, mode="nearest")


def many(rng, mon, SingleImage, var):
    """More than 250 stars: inner products instead of covariances."""
    shape = (560, 540)
    y, x = np.mgrid[14:546:25, 14:526:24]
    pos = np.c_[y.ravel(), x.ravel()] + rng.uniform(-2, 2, (y.size, 2))
    flux = gen.fluxes(rng, len(pos), 9000, 12000)
    if var:  # the width grows along the columns
        im = 100 + rng.normal(0, 3, shape)
        for (py, px), f in zip(pos, flux):
            a, b = max(int(py) - 12, 0), max(int(px) - 12, 0)
            im[a:a + 25, b:b + 25] += gen.stars(
                im[a:a + 25, b:b + 25].shape, np.array([[py - a, px - b]]),
                np.array([f]), 1.4 + 0.8 * px / shape[1])
    else:
        im = gen.stars(shape, pos, flux, 1.8) + 100 + rng.normal(0, 3, shape)
    smooth = bool(rng.random() < 0.3)
    img = SingleImage(im.astype("f4"), stamp_shape=(13, 13),
                      smooth_psf=smooth)
    n = img.n_sources
    mon.event("stamps decomposed", n)
    if n <= 250:
        mon.event("small catalogue")
        return
    m = np.array([img.db.load(k)[0].ravel() for k in range(n)])
    spos = np.array(img.stamps_pos)
    mon.close("inner product model", img.cov_matrix, m @ m.T, 1e-8)
    val, vec = np.linalg.eigh(m @ m.T)
    power = (np.abs(val) / np.abs(val).sum())[::-1]
    losses = [0.3] + [float(v) for v in np.sort(
        10 ** rng.uniform(-3.3, -1.5, 3))[::-1]]
    gy, gx = rng.uniform(15, 520, (2, 9))
    prev = 0
    for loss in losses:
        a, basis = img.get_variable_psf(loss)
        ok = mon.check("number of components (many stars)",
                       len(basis) == ref.n_basis(power, loss), loss=loss,
                       got=len(basis), want=ref.n_basis(power, loss))
        mon.check("as many coefficients as components", len(a) == len(basis))
        mon.check("less loss never means fewer components",
                  len(basis) >= prev)
        prev = len(basis)
        if not ok:
            continue
        for k, b in enumerate(basis):
            w = (vec[:, -1 - k] @ m).reshape(img.stamp_shape)
            if smooth:
                w = _smooth(w)
            if len(basis) == 1:
                mon.check("a constant PSF has no coefficients", a[0] is None)
                mon.check("a constant PSF has unit sum",
                          abs(b.sum() - 1) < 1e-9)
                mon.close("component times coefficient model (many stars)",
                          b, w / w.sum(), 1e-7)
            else:
                f = ref.fit_poly3(spos[:, 0], spos[:, 1], vec[:, -1 - k])
                mon.close("component times coefficient model (many stars)",
                          np.multiply.outer(np.asarray(a[k](gy, gx)), b),
                          np.multiply.outer(f(gy, gx), w), 1e-4,
                          k=k, loss=loss)
        mon.event("decompositions")
        mon.key("many", n // 50, len(basis), var, smooth)
        if not smooth and len(basis) > 1:
            # the stars are their own components times coefficients
            fit = np.array([vec[:, -1 - k] for k in range(len(basis))]).T
            left = m - fit @ np.array([b.ravel() for b in basis])
            mon.check("components explain the stars within the loss",
                      (left**2).sum() <= (loss + 1e-6) * (m**2).sum(),
                      loss=loss, left=(left**2).sum() / (m**2).sum())
    img._clean()
