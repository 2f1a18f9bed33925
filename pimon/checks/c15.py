"""The difference image follows the proper subtraction estimator."""

import itertools

import numpy as np

from .. import attach, gen, ref, sky

ID = "C15"
RULE = (
    "one case = one pair of exposures and one combination of PSF model, flux "
    "scale, shift and iteration options; difference image, its PSF, its score "
    "image and mask are compared with an independent evaluation of the "
    "published estimator at the flux scale and shift that were used; key = "
    "options|shape|damage"
)
REQUIRED = ["difference image model", "difference PSF model",
            "score image model", "searches without success"]

COMBOS = list(itertools.product([True, False], repeat=4))


def cases(tier, seed):
    # cheap option sets (no search) more often than the searches
    out = []
    n = 7 if tier == "quick" else 40
    for k in range(n):
        for j, (fit, beta, shift, it) in enumerate(COMBOS):
            if shift and it:
                continue  # the iteration only concerns the fixed shift
            out.append({"seed": seed, "i": len(out), "fit": fit, "beta": beta,
                        "shift": shift, "it": it})
    for k in range(8 * n):
        out.append({"seed": seed, "i": len(out), "fit": bool(k % 2),
                    "beta": False, "shift": False, "it": False})
    return out


def determined(pr, pn, floor=1e-9):
    """Fourier modes where the PSFs are above the rounding noise.

    Elsewhere the estimator is a ratio of two rounding errors.
    """
    shape = pr["img"].shape
    a, b = (np.abs(np.fft.fft2(p["psf"], s=shape)) for p in (pr, pn))
    return np.maximum(a, b) > floor


def filtered(im, keep):
    return np.fft.ifft2(np.fft.fft2(im) * keep)


def run(params, mon):
    from properimage import operations as op
    from properimage.single_image import SingleImage, SingleImageGaussPSF

    rng = gen.rng_of(params)
    fit, beta, shift, it = (params[k] for k in ("fit", "beta", "shift", "it"))
    small = [(128, 128), (140, 151), (161, 140), (187, 203),
             (110, 240)]
    shape = small[rng.integers(5)] if shift else gen.shape_of(rng)
    if not (beta or shift) and rng.random() < 0.15:  # a strip of sky
        shape = [(58, 400), (420, 52)][rng.integers(2)]
    hurt = bool(rng.random() < 0.4)
    far = {}
    if rng.random() < 0.15:  # a short and a long exposure
        far = dict(ratio=float(rng.uniform(3, 14)), lo=1500.0, hi=4500.0)
        if rng.random() < 0.4:
            far = dict(ratio=1.0 / far["ratio"], lo=3e4, hi=6e4)
        mon.event("exposures of very different depth")
    d = sky.pair(rng, shape, damage=hurt, elong=bool(rng.random() < 0.5),
                 shift=rng.uniform(-0.5, 0.5, 2) if shift else (0, 0), **far)
    cls = SingleImageGaussPSF if fit else SingleImage
    opts = {"stamp_shape": (15, 15)} if rng.random() < 0.5 else {}
    loss = float(rng.choice([0.25, 0.5, 0.1]))
    smooth = bool(not fit and rng.random() < 0.3)
    if smooth:
        opts["smooth_psf"] = True
    r, n = cls(d["ref"], **opts), cls(d["new"], **opts)
    pr, pn = sky.parts(r, fit, loss), sky.parts(n, fit, loss)
    as_images = bool(rng.random() < 0.5) and "stamp_shape" not in opts
    args = (d["ref"].copy(), d["new"].copy()) if as_images else (r, n)
    attach.reset()
    #  the code has a way out when a search does not converge
    lost = bool((beta or shift) and rng.random() < 0.25)
    attach.UNSUCCESSFUL[0] = lost
    #  exposures moved along one axis of the frame only
    still = None
    if shift and not lost and rng.random() < 0.3:
        still = int(rng.choice([-1, -2]))
    attach.STILL[0] = still
    try:
        D, P, S, mask = op.subtract(*args, beta=beta, shift=shift,
                                    iterative=it, inf_loss=loss,
                                    fitted_psf=fit, smooth_psf=smooth)
    finally:
        attach.UNSUCCESSFUL[0] = False
        attach.STILL[0] = None
    mon.event("searches without success", lost)
    mon.event("shifts along one axis", still is not None)
    mon.event("subtractions")
    want_zp, q = ref.zeropoints([pr["cat"], pn["cat"]])
    zp = 1.0 if want_zp is None else 10 ** (-0.4 * want_zp[1])
    if not as_images:
        mon.check("flux scale of the pair", abs(n.zp / r.zp / zp - 1) < 1e-3,
                  got=n.zp / r.zp, want=zp)
        zp = n.zp / r.zp
    calls = attach.optimizer_calls()
    b, dy, dx = zp, 0.0, 0.0
    tol = 1e-6 if not as_images else 1e-4
    if beta or shift:
        if not calls:
            mon.event("search not observed")
            return
        name, x, okay = sky.solution(calls)
        mon.event("search:" + name)
        if len(x) == 3:
            b, dy, dx = x
        elif len(x) == 2:
            dy, dx = x
        elif len(x) == 1:
            b = x[0]
        if not okay:
            b, dy, dx = zp, 0.0, 0.0
        mon.check("unknowns searched", len(x) == beta + 2 * shift, got=len(x))
        best = np.atleast_1d(x).astype(float)
        start = np.r_[[zp] * beta, [0.0] * (2 * shift)]
        fun = calls[-1][1]
        at = [0.0, 0.0] if lost or still else [float(np.sum(np.abs(fun(v if v.size > 1 else v[0]))))
              for v in (best, start)]
        mon.event("objectives compared")
        mon.check("the search does not end above its start",
                  at[0] <= at[1] * 1.02, end=at[0], start=at[1], b=b, zp=zp,
                  opts=params)
    b = float(b)
    mD, mP, mS = ref.subtract(pr, pn, b, (dy, dx), zp_new=zp)
    keep = determined(pr, pn)
    mon.event("fourier modes compared", keep.sum())
    mon.close("difference image model", filtered(D, keep),
              filtered(mD, keep), max(tol, 1e-5), opts=params,
              b=b, shift=[dy, dx])
    mon.close("difference PSF model", P, mP, max(tol, 1e-5), opts=params)
    mon.close("score image model", S, mS, max(tol, 1e-5), opts=params)
    mon.equal("difference mask is the union", mask, pr["mask"] | pn["mask"])
    if beta:
        mon.check("flux scale within the bounds of the search",
                  min(0.1, 0.5 * zp) <= b <= max(10, 2 * zp), b=b, zp=zp)
    mon.check("shift within a pixel", abs(dy) <= 0.9 and abs(dx) <= 0.9)
    mon.key(fit, beta, shift, it, shape, hurt, as_images, smooth, lost, bool(far))
    mon.sample(opts=params, shape=list(shape), b=b, shift=[dy, dx], zp=zp,
               common_stars=q)
    r._clean()
    n._clean()
