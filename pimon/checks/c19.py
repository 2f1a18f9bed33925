"""The search for flux scale and sub-pixel shift finds what was put in."""

import numpy as np

from .. import attach, gen, ref, sky

ID = "C19"
RULE = (
    "one case = five pairs with a known flux ratio and a known sub-pixel offset "
    "each, subtracted with one search option; the unknowns found (recovered "
    "from the difference image itself) must match the truth in the median of "
    "the five (one search may stop in a local minimum), and for each pair the "
    "residuals of the static stars must not grow because of the search; key = "
    "options|PSF model|shape|size of offset"
)
REQUIRED = ["flux ratio recovered", "offset recovered",
            "search does not worsen the residuals",
            "static stars cancel out"]
MODES = ["both", "shift", "beta", "iterative", "none"]


def cases(tier, seed):
    n = 50 if tier == "quick" else 800
    return [{"seed": seed, "i": i, "mode": MODES[i % 5],
             "fit": bool((i // 5) % 2), "hole": (i // 10) % 2 == 1 or i >= 40,
             "far": (i // 10) % 5 == 2, "apart": (i // 10) % 5 == 0}
            for i in range(n)]


def run(params, mon):
    rng = gen.rng_of(params)
    mode, fit = params["mode"], params["fit"]
    side = rng.random(3) < 0.5
    got = [_pair(rng, mode, fit, params["hole"], params["far"],
                 params["apart"], side, mon) for _ in range(5)]
    if mode in ("both", "beta", "iterative"):
        err = [abs(g["b2"] / g["want"] - 1) for g in got]
        mon.check("flux ratio recovered",
                  np.median(err) < (0.06 if fit else 0.12)
                  + 0.2 * params["far"], errors=err,
                  got=[g["b2"] for g in got], want=[g["want"] for g in got])
    if mode in ("both", "shift"):
        err = [np.abs(g["sh2"] - g["off"]).max() for g in got]
        mon.check("offset recovered",
                  np.median(err) < (0.2 if mode == "both" else 0.25)
                  + 0.2 * params["far"],
                  errors=err, got=[g["sh2"] for g in got],
                  want=[g["off"] for g in got])


def _pair(rng, mode, fit, hole, far, apart, side, mon):
    from properimage import operations as op
    from properimage.single_image import SingleImage, SingleImageGaussPSF

    shape = [(140, 151), (161, 140), (187, 203), (128, 150)][rng.integers(4)]
    moved = mode in ("both", "shift")
    # exposures are usually registered to better than half a pixel
    off = rng.uniform(-0.5, 0.5, 2) if moved else np.zeros(2)
    if moved and apart:  # nearly a pixel along one axis
        off[rng.integers(2)] = rng.choice([-1, 1]) * rng.uniform(0.62, 0.8)
    # the five pairs of a case are displaced to the same side
    off = np.where(side[:2], np.abs(off), -np.abs(off))
    opts = dict(lo=6000, hi=20000, ratio=float(
        np.exp((1 if side[2] else -1) * rng.uniform(0, 0.9))))
    if far:  # a short and a long exposure
        opts = dict(lo=1800, hi=4500, ratio=float(rng.uniform(2.6, 14)))
        if not side[2] and rng.random() < 0.8:
            opts = dict(lo=25000, hi=55000, ratio=float(rng.uniform(0.1, 0.4)))
        mon.event("exposures of very different depth")
    d = sky.pair(rng, shape, n=22, shift=off, **opts)
    if hole:  # a very bright star, lost in the bad pixels of one exposure
        inner = [p for p in d["pos"] if
                 32 < p[0] < shape[0] - 32 and 32 < p[1] < shape[1] - 32]
        star = inner[0] if inner else np.array(shape) / 2.0
        lost = ["ref", "new"][rng.integers(2)]
        other = "new" if lost == "ref" else "ref"
        at = {"ref": star, "new": star + off}
        yy, xx = np.indices(shape)
        d[other] += gen.stars(
            shape, at[other][None], np.array([4e5]),
            d["seeing"][other == "new"]).astype("f4")
        d[lost][np.hypot(yy - at[lost][0], xx - at[lost][1]) < 14] = 7e4
        mon.event("bright stars under the mask of one exposure")
    cls = SingleImageGaussPSF if fit else SingleImage
    r, n = [cls(x, stamp_shape=(17, 17)) for x in (d["ref"], d["new"])]
    kw = dict(beta=mode in ("both", "beta", "iterative"), shift=moved,
              iterative=mode == "iterative", fitted_psf=fit, inf_loss=0.5)
    attach.reset()
    D, P, S, m = op.subtract(r, n, **kw)
    calls = attach.optimizer_calls()
    D0, P0, S0, _ = op.subtract(r, n, **dict(kw, beta=False, shift=False))
    zp = n.zp / r.zp
    want = d["ratio"]
    b, sh = zp, np.zeros(2)
    if mode != "none" and calls:
        name, x, okay = sky.solution(calls)
        mon.event("optimiser:" + name)
        if okay:
            b = float(x[0]) if kw["beta"] else zp
            sh = x[-2:] if moved else sh
    # -- the same unknowns from the images alone: D = model(b, shift)
    pr, pn = sky.parts(r, fit, 0.5), sky.parts(n, fit, 0.5)
    b2, sh2 = _unknowns(D, P, pr, pn, b, sh)
    if not kw["beta"]:
        mon.close("flux ratio is the one of the common stars", b2, zp, 2e-3,
                  truth=want)
    if not moved and mode != "none":
        mon.check("no offset when none was asked for",
                  np.abs(sh2).max() < 0.02, got=sh2)
    # -- residuals: search must not make things worse
    box = np.zeros(shape, bool)
    for p in d["pos"] + off:
        y, x = np.round(p).astype(int)
        box[max(0, y - 3):y + 4, max(0, x - 3):x + 4] = True
    if hole:
        box &= np.hypot(yy - star[0], xx - star[1]) > 26
    box &= ~m
    box[:12] = box[-12:] = box[:, :12] = box[:, -12:] = False
    res, res0 = (np.sqrt((np.asarray(x).real[box] ** 2).mean())
                 for x in (D, D0))
    flux_noise = np.sqrt((gen.stars(shape, d["pos"], d["flux"], d["seeing"][0])
                          [box] ** 2).mean()) / d["noise"][0]
    mon.check("search does not worsen the residuals",
              res <= max(res0 * 1.05, res0 + 0.1), before=res0, after=res)
    if kw["beta"]:
        mon.check("static stars cancel out",
                  res < 1.0 + 0.05 * flux_noise * (
                      6 if hole or apart else 1 if fit else 1.6),
                  residual=res, stars=flux_noise)
    mon.sample(mode=mode, fit=fit, b=b, b2=b2, want=want, off=off, sh2=sh2,
               res=[res0, res, flux_noise])
    mon.key(mode, fit, hole, shape, np.round(off * 4).tolist())
    r._clean()
    n._clean()
    return dict(b2=b2, want=want, sh2=sh2, off=off)


def _unknowns(D, P, pr, pn, b, sh):
    """Flux scale and shift that best explain D, searched around a start."""
    from scipy.optimize import minimize

    H = np.fft.fft2(np.asarray(D).real)
    shape = H.shape
    fy, fx = np.fft.fftfreq(shape[0]), np.fft.fftfreq(shape[1])
    keep = np.hypot(fy[:, None], fx) < 0.15
    f = lambda a: np.fft.fft2(a, s=shape)  # noqa: E731
    Pr, Pn = f(pr["psf"]), f(pn["psf"])
    cr, cn = ref.center(pr["psf"]), ref.center(pn["psf"])
    A = (Pr * f(pn["img"]) * ref.shift_phase(shape, -cr[0], -cr[1]))[keep]
    B = (Pn * f(pr["img"]) * ref.shift_phase(shape, -cn[0], -cn[1]))[keep]
    na = (pn["rms"] ** 2 * np.abs(Pr) ** 2)[keep]
    nb = (pr["rms"] ** 2 * np.abs(Pn) ** 2)[keep]
    yy, xx = np.meshgrid(fy, fx, indexing="ij")
    yy, xx, H = yy[keep], xx[keep], H[keep]
    tot = (np.abs(H) ** 2).sum()

    def miss(v):
        ph = np.exp(-2j * np.pi * (yy * v[1] + xx * v[2]))
        mod = (A - v[0] * B * ph) / np.sqrt(na + v[0] ** 2 * nb)
        return (np.abs(H - mod) ** 2).sum() / tot

    best = minimize(miss, [b, *sh], method="Nelder-Mead",
                    options=dict(xatol=1e-4, fatol=1e-12, maxiter=600))
    return float(best.x[0]), np.array(best.x[1:])
