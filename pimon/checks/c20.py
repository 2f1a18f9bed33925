"""The coadded image follows the proper coaddition estimator."""

import numpy as np

from .. import gen, ref, sky

ID = "C20"
RULE = (
    "one case = one stack of exposures of one sky with its own seeing, depth "
    "and noise each, coadded sequentially or in parallel; image, PSF, flux "
    "scales and mask are compared with an independent evaluation of the "
    "published estimator, and stars of the coadd with the coadd PSF; key = "
    "images|workers|PSF kind|shape|damage"
)
REQUIRED = ["coadd image model", "coadd PSF model", "flux scales of the stack",
            "stars look like the coadd PSF", "exposures with a fitted PSF"]


def cases(tier, seed):
    n = 64 if tier == "quick" else 640
    return [{"seed": seed, "i": i, "fit": True, "procs": [1, 2, 1, 3][i % 4]}
            for i in range(n // 5)] + [
        {"seed": seed, "i": i, "procs": [1, 2, 1, 3, 2, 5, 1, 8][i % 8]}
            for i in range(n)]


def run(params, mon):
    from properimage import operations as op
    from properimage.single_image import SingleImage, SingleImageGaussPSF

    rng = gen.rng_of(params)
    hurt = bool(rng.random() < 0.4)
    var = bool(rng.random() < 0.4)
    shape = gen.shape_of(rng, small=bool(rng.random() < 0.6))
    d = sky.stack(rng, shape, damage=hurt, variable=var,
                  n=45 if var and min(shape) > 150 else None)
    k = len(d["images"])
    st = (15, 15) if rng.random() < 0.6 else None
    fit = params.get("fit")
    #  a stack of fitted exposures, or with some of them
    some = fit and bool(rng.integers(2))
    imgs = [(SingleImageGaussPSF if fit and not (some and j % 2)
             else SingleImage)(x, **({"stamp_shape": st} if st else {}))
            for j, x in enumerate(d["images"])]
    loss = float(rng.choice([0.2, 0.3, 0.05] if var else [0.2, 0.3, 0.5]))
    R, P, m = op.coadd(imgs, align=False, inf_loss=loss,
                       n_procs=params["procs"])
    mon.event("exposures coadded", k)
    mon.event("exposures with a fitted PSF", sum(
        isinstance(x, SingleImageGaussPSF) for x in imgs))
    parts = sky.coadd_parts(imgs, loss)
    want_zp, q = ref.zeropoints([p["cat"] for p in parts])
    if want_zp is not None:
        mon.close("flux scales of the stack", [x.zp / imgs[0].zp for x in
                                               imgs],
                  10 ** (-0.4 * want_zp), 1e-3, common=q)
    side = max(x.stamp_shape[0] for x in imgs)
    mR, mP = ref.coadd(parts, side)
    if fit:  # a smooth PSF has next to no power at the highest frequencies
        Q = sum((p["zp"] / p["rms"]) ** 2 * p["psf_sq"] for p in parts)
        clear = Q > 1e-8 * Q.max()
        mon.event("modes compared", int(clear.sum()))
        mon.close("coadd image model", np.fft.fft2(R)[clear],
                  np.fft.fft2(mR)[clear], 1e-6, procs=params["procs"], k=k)
        mon.close("coadd image model", R, mR, 3e-2, procs=params["procs"],
                  k=k)
    else:
        mon.close("coadd image model", R, mR, 1e-6, procs=params["procs"],
                  k=k)
    mon.close("coadd PSF model", P, mP, 1e-6, procs=params["procs"], k=k)
    mon.check("coadd PSF has unit sum", abs(np.sum(P) - 1) < 1e-9,
              got=np.sum(P))
    union = np.logical_or.reduce([p["mask"] for p in parts])
    mon.equal("coadd mask is the union", m, union)
    # -- stars of the coadd
    #  a cubic surface through ten stars says little: single PSFs only
    single = all(len(x.get_variable_psf(loss)[0]) == 1 for x in imgs)
    if not var and single:
        Pr = np.asarray(P).real
        c = np.unravel_index(Pr.argmax(), shape)
        Pc = np.roll(Pr, (9 - c[0], 9 - c[1]), (0, 1))[:19, :19]
        fy, fx = np.fft.fftfreq(shape[0]), np.fft.fftfreq(shape[1])
        best = []
        Rr = np.asarray(R).real
        for p, f in sorted(zip(d["pos"], d["flux"]), key=lambda t: -t[1])[:8]:
            y, x = np.round(p).astype(int)
            if not (22 < y < shape[0] - 22 and 22 < x < shape[1] - 22):
                continue
            w = np.s_[y - 9:y + 10, x - 9:x + 10]
            if union[w].any():
                continue
            cc = []
            box = Rr[y - 11:y + 12, x - 11:x + 12]
            for a in range(5):
                for b in range(5):
                    cc.append(np.corrcoef(box[a:a + 19, b:b + 19].ravel(),
                                          Pc.ravel())[0, 1])
            best.append(max(cc))
        if best:
            mon.check("stars look like the coadd PSF",
                      np.median(best) > 0.93, corr=best)
            mon.sample(k=k, procs=params["procs"], corr=np.round(best, 3),
                       zp=[x.zp for x in imgs])
    mon.key(k, params["procs"], var, shape, hurt, st, fit, some)
    for x in imgs:
        x._clean()
