"""The matched filter image of one exposure."""

import numpy as np

from .. import gen, ref, sky

ID = "C13"
RULE = (
    "one case = one field (constant or variable PSF, damaged or not; its PSF "
    "decomposed or fitted); the "
    "matched filter image and its transform are compared with an independent "
    "filter built from the PSF decomposition, with the star positions of the "
    "sky, and across flux scales; key = components|shape|damage|stamp parity|PSF kind"
)
REQUIRED = ["matched filter model", "stars stand out at their position",
            "flux scale enters linearly", "fitted PSF has unit sum"]


def cases(tier, seed):
    n = 56 if tier == "quick" else 700
    return [{"seed": seed, "i": i, "fit": True} for i in range(n // 4)] + [
        {"seed": seed, "i": i} for i in range(n)]


def run(params, mon):
    from properimage.single_image import SingleImage, SingleImageGaussPSF

    rng = gen.rng_of(params)
    i = params["i"]
    shape = gen.shape_of(rng)
    var = i % 2 == 0
    if var:
        im, pos, flux = gen.variable_field(rng, shape, n=60)
    else:
        im, pos, flux = gen.field(rng, shape, sx=rng.uniform(1.5, 2.4))
    hurt = bool(rng.random() < 0.4)
    if hurt:
        im = gen.damage(rng, im)
    kw = {}
    st = [None, (13, 13), (11, 15), (14, 14)][rng.integers(4)]
    if st is not None:
        kw["stamp_shape"] = st
    cls = SingleImageGaussPSF if params.get("fit") else SingleImage
    img = cls(im.astype("f4"), **kw)
    loss = float(rng.choice([0.3, 0.2, 0.05, 0.01]))
    zp = float(np.round(rng.uniform(0.3, 3), 2)) if rng.random() < 0.6 else 1.0
    img.zp = zp
    a, basis = sky.psf_of(img, loss)
    if params.get("fit"):
        mon.event("matched filters of a fitted PSF")
        mon.check("fitted PSF has unit sum", abs(np.sum(basis[0]) - 1) < 1e-9,
                  got=np.sum(basis[0]))
    shat = img.s_hat_comp
    s = img.s_component
    mon.event("matched filters")
    nrm = img.normal_image
    want = ref.s_hat(img.interped, a, basis, nrm, zp, img.var)
    mon.close("matched filter model", shat, want, 1e-6, zp=zp, n=len(basis))
    mon.close("matched filter image is the inverse transform", s,
              np.fft.ifft2(shat, norm="ortho").real, 1e-9)
    mon.check("matched filter image is real, finite, of the image shape",
              s.shape == shape and s.dtype.kind == "f"
              and np.isfinite(s).all())
    mon.close("power of the PSF", img.psf_hat_sqnorm(),
              ref.psf_sq(basis, shape).astype(complex), 1e-8)
    # p_sqnorm: the same, back in the image plane, centred on half a stamp
    half = [v / 2 for v in img.stamp_shape]
    mon.close("PSF autocorrelation", img.p_sqnorm(), np.fft.ifft2(
        ref.psf_sq(basis, shape) * ref.shift_phase(shape, *half),
        norm="ortho"), 1e-8)
    # stars are peaks of S where they are in the sky
    near = 0
    total = 0
    good = ~np.asarray(img.mask)
    sd = np.std(s[good & (np.abs(s) < np.percentile(np.abs(s), 60))])
    for (r, c), f in zip(pos, flux):
        if (20 < r < shape[0] - 20 and 20 < c < shape[1] - 20
                and good[int(r) - 8 : int(r) + 9,
                         int(c) - 8 : int(c) + 9].all() and f > 6000):
            box = s[int(r) - 6 : int(r) + 7, int(c) - 6 : int(c) + 7]
            p = np.unravel_index(box.argmax(), box.shape)
            d = np.hypot(p[0] + int(r) - 6 - r, p[1] + int(c) - 6 - c)
            total += 1
            near += d < 1.8 and box.max() > 8 * sd
    # a cubic coefficient surface needs stars to be meaningful
    if total >= 4 and (len(basis) == 1 or img.n_sources >= 35):
        mon.event("stars looked up", total)
        mon.check("stars stand out at their position", near >= 0.8 * total,
                  near=near, total=total)
    # scale
    k = float(np.round(rng.uniform(1.2, 3), 1))
    img.zp = zp * k
    mon.close("flux scale enters linearly", img.s_component, s * k, 1e-9)
    mon.close("flux scale enters linearly", img.s_hat_comp, shat * k, 1e-9)
    mon.key(len(basis), shape, hurt, st, cls.__name__)
    mon.sample(shape=list(shape), components=len(basis), zp=zp,
               stars=[int(near), int(total)])
    img._clean()
