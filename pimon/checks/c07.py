"""Background and noise estimates."""

import numpy as np

from .. import gen, ref

ID = "C07"
RULE = (
    "one case = one frame (level, gradient, noise, damage, mask and gain "
    "drawn); background, noise and background subtracted image are compared "
    "with an independent estimate on the unmasked pixels, with the truth, and "
    "across shifted / rescaled / damaged copies; key = damage|mask|gradient|"
    "noise decade"
)
REQUIRED = ["background model", "noise level"]


def cases(tier, seed):
    n = 120 if tier == "quick" else 2000
    return [{"seed": seed, "i": i} for i in range(n)]


def run(params, mon):
    from properimage.single_image import SingleImage

    rng = gen.rng_of(params)
    shape = gen.shape_of(rng)
    noise = float(np.exp(rng.uniform(np.log(1.0), np.log(30.0))))
    level = rng.uniform(20 * noise if noise < 20 else 300, 1500)
    grad = rng.uniform(0, 80) if rng.random() < 0.5 else 0.0
    im, pos, flux = gen.field(rng, shape, n=max(12, shape[0] * shape[1] // 2500),
                              noise=noise, bkg=level, gradient=grad, hi=15000.0)
    clean = im.copy()
    hurt = bool(rng.random() < 0.5)
    if hurt:
        im = gen.damage(rng, im, n_sat=4, n_low=3, n_nan=3, n_inf=2)
    elif rng.random() < 0.5:  # a few single pixels
        for _ in range(int(rng.integers(1, 12))):
            im[rng.integers(0, shape[0]), rng.integers(0, shape[1])] = (
                rng.choice([np.nan, np.inf, -9e4]))
    user = None
    if rng.random() < 0.4:
        user = np.zeros(shape, bool)
        r, c = rng.integers(5, 70, 2)
        user[r : r + 25, c : c + 25] = True
        im[user] = rng.choice([3000.0, 20000.0, 0.0])
    kw = dict(stamp_shape=(13, 13), mask=user)
    if rng.random() < 0.3:
        kw["maskthresh"] = 12
    img = SingleImage(im.astype("f4"), **kw)
    back = img.background
    r = ref.background(img.data.data, np.asarray(img.mask))
    mon.event("backgrounds estimated")
    mon.close("background model", back, r.back(), 1e-6, hurt=hurt,
              user=user is not None)
    mon.check("noise level", abs(img.var - r.globalrms) <= 1e-6 * r.globalrms,
              got=img.var, want=r.globalrms)
    truth = level
    if grad:
        y, x = np.mgrid[: shape[0], : shape[1]]
        truth = truth + grad * (x / shape[1] + 0.5 * y / shape[0])
    tol = 1.5 * noise + 0.25 * grad
    mon.check("background follows the sky",
              abs(np.median(back - truth)) < tol,
              err=np.median(back - truth), tol=tol)
    mon.check("noise level follows the sky noise",
              0.8 * noise < img.var < 1.6 * noise + 0.35 * grad,
              got=img.var, noise=noise, grad=grad)
    sub = img.bkg_sub_img
    good = ~np.asarray(img.mask)
    mon.close("subtracted image is pixels minus background",
              np.asarray(sub.data)[good], (img.data.data - back)[good], 1e-6)
    mon.equal("subtracted image keeps the mask", np.ma.getmaskarray(sub),
              img.mask)
    mon.check("subtracted image has a zero sky",
              abs(np.median(np.asarray(sub.data)[good])) < 0.8 * noise + 0.1
              * grad, got=np.median(np.asarray(sub.data)[good]))

    # metamorphic: adding a constant moves only the background
    k = float(np.round(rng.uniform(10, 200), 0))
    other = SingleImage((im + k).astype("f4"), **kw)
    if np.array_equal(other.mask, img.mask):
        mon.event("shifted copies")
        mon.check("an added constant goes to the background",
                  abs(np.median(other.background - back) - k) < 0.05 * noise
                  + 1e-3 * level, got=np.median(other.background - back), k=k)
        mon.check("an added constant leaves the noise",
                  abs(other.var - img.var) < 0.03 * img.var,
                  got=other.var, want=img.var)
    # metamorphic: what is under the mask does not matter
    if user is not None:
        im2 = im.copy()
        im2[user] = rng.uniform(-40, 30000, int(user.sum()))
        third = SingleImage(im2.astype("f4"), **kw)
        if np.array_equal(third.mask, img.mask):
            mon.event("masked copies")
            mon.close("masked pixels do not reach the background",
                      third.background, back, 1e-6)
            mon.check("masked pixels do not reach the noise",
                      abs(third.var - img.var) < 1e-6 * img.var)
    mon.key(hurt, user is not None, grad > 0, int(np.log2(noise)),
            shape[0] * shape[1] // 10000)
    mon.sample(shape=list(shape), noise=noise, level=level, gradient=grad,
               got_rms=img.var)
