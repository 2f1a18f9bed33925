"""Noise of the difference and coadded images: white, known level."""

import numpy as np
from scipy import ndimage

from .. import gen, sky

ID = "C18"
RULE = (
    "one case = one pair (or stack) of exposures with independent white noise "
    "of known and unequal levels; far from the stars the difference image must "
    "have zero mean, unit variance and no correlation between neighbouring "
    "pixels, and a coadd the same noise as each matched-filtered exposure; key "
    "= operation|PSF model|shape|noise ratio decade"
)
REQUIRED = ["difference noise has unit variance",
            "difference noise is white", "coadd noise is white",
            "coadd noise level"]
LAGS = [(0, 1), (1, 0), (1, 1), (1, -1), (0, 2), (2, 0)]


def cases(tier, seed):
    n = 72 if tier == "quick" else 720
    return [{"seed": seed, "i": i, "op": ["subtract", "subtract",
                                          "coadd"][i % 3],
             "fit": bool((i // 3) % 2)} for i in range(n)]


def _sky_pixels(shape, pos, radius, border):
    far = np.ones(shape, bool)
    p = np.round(pos).astype(int)
    far[np.clip(p[:, 0], 0, shape[0] - 1), np.clip(p[:, 1], 0,
                                                   shape[1] - 1)] = False
    far = ndimage.distance_transform_edt(far) > radius
    far[:border] = far[-border:] = far[:, :border] = far[:, -border:] = False
    return far


def _rho(im, far, lag):
    a, b = lag
    ny, nx = im.shape
    u = im[:ny - a, max(0, -b):nx - max(0, b)]
    v = im[a:, max(0, b):nx + min(0, b)]
    ok = far[:ny - a, max(0, -b):nx - max(0, b)] & far[
        a:, max(0, b):nx + min(0, b)]
    u, v = u[ok] - u[ok].mean(), v[ok] - v[ok].mean()
    return float((u * v).mean() / np.sqrt((u**2).mean() * (v**2).mean())), \
        int(ok.sum())


def run(params, mon):
    from properimage import operations as op
    from properimage.single_image import SingleImage, SingleImageGaussPSF

    rng = gen.rng_of(params)
    fit = params["fit"]
    shape = [(200, 200), (220, 230), (256, 240)][rng.integers(3)]
    if params["op"] == "subtract":
        noise = (rng.uniform(2, 12), rng.uniform(2, 12))
        d = sky.pair(rng, shape, n=24, noise=noise, sep=24,
                     lo=9000 if fit else 3500, hi=40000 if fit else 9000,
                     ratio=float(np.exp(rng.uniform(-1, 1))))
        cls = SingleImageGaussPSF if fit else SingleImage
        r, n = cls(d["ref"]), cls(d["new"])
        D, P, S, m = op.subtract(r, n, beta=False, shift=False,
                                 fitted_psf=fit, inf_loss=0.5)
        D = np.asarray(D).real
        far = _sky_pixels(shape, d["pos"], 24, 24) & ~m
        sig = D[far].std()
        mon.check("difference noise has unit variance", 0.85 < sig < 1.15,
                  std=sig, noise=noise, ratio=d["ratio"])
        mon.check("difference noise has zero mean",
                  abs(D[far].mean()) < 0.25, mean=D[far].mean())
        im, tag = D, "difference noise is white"
        mon.sample(op="subtract", std=float(sig), mean=float(D[far].mean()),
                   pixels=int(far.sum()))
        mon.key("subtract", fit, shape, int(4 * np.log10(noise[0] / noise[1])))
        for x in (r, n):
            x._clean()
    else:
        k = int(rng.integers(2, 5))
        pos = gen.positions(rng, shape, 24, 24.0, 15.0)
        flux = gen.fluxes(rng, len(pos), 9000, 40000)
        sis = []
        for _ in range(k):
            s = rng.uniform(1.5, 2.2)
            im = gen.stars(shape, pos, flux, s) * np.exp(rng.uniform(-.4, .4))
            im += rng.uniform(50, 200) + rng.normal(0, rng.uniform(3, 9), shape)
            sis.append(SingleImage(im, stamp_shape=(17, 17)))
        R, P, m = op.coadd(sis, align=False, inf_loss=0.5, n_procs=1)
        R = np.asarray(R).real
        far = _sky_pixels(shape, pos, 24, 24) & ~m
        sig = R[far].std()
        # sqrt(sum of the filters' own noise power): unit, times sqrt(npix)
        # of the transform convention
        mon.sample(op="coadd", std=float(sig), n=k)
        unit = sig * np.sqrt(R.size)
        mon.check("coadd noise level", 0.85 < unit < 1.15, std=sig, unit=unit,
                  n=k)
        mon.check("coadd noise has zero mean",
                  abs(R[far].mean()) < 0.25 * sig, mean=R[far].mean())
        im, tag = R, "coadd noise is white"
        mon.key("coadd", k, shape)
        for x in sis:
            x._clean()
    mon.event("sky pixels", far.sum())
    for lag in LAGS:
        rho, npix = _rho(im, far, lag)
        mon.check(tag, abs(rho) < 0.05 + 4 / np.sqrt(max(npix, 1)), lag=lag,
                  rho=rho, pixels=npix)
