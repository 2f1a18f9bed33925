"""The clean image: exact where valid, a local average where masked."""

import numpy as np

from .. import gen, ref

ID = "C06"
RULE = (
    "one case = one damaged frame (blocks up to half the frame, lines, edges, "
    "corners, NaN / inf / saturated / user masked) whose clean image is "
    "compared with the background subtracted pixels and with an independent "
    "fill; non-trivial when something had to be filled; key = damage kinds|"
    "passes needed|user mask"
)
REQUIRED = ["valid pixels are the background subtracted pixels",
            "filled pixels follow the model"]


def cases(tier, seed):
    n = 120 if tier == "quick" else 1500
    out = [{"seed": seed, "i": i} for i in range(n)]
    out.append({"seed": seed, "i": 0, "cosmic": True})
    return out


def run(params, mon):
    from properimage.single_image import SingleImage

    rng = gen.rng_of(params)
    shape = gen.shape_of(rng, small=True)
    im, pos, flux = gen.field(rng, shape, hi=15000.0,
                              gradient=rng.uniform(0, 60))
    if params.get("cosmic"):
        return cosmic(rng, im, mon, SingleImage)
    kinds = []
    few = bool(rng.random() < 0.25)
    if not few and rng.random() < 0.8:
        im = gen.damage(rng, im, n_sat=2, n_low=2, n_nan=3, n_inf=1)
        kinds.append("scatter")
    user = np.zeros(shape, bool)
    r = rng.random()
    if few:  # one to a few pixels, some of them on stars
        for y, x in np.r_[np.round(pos[rng.permutation(len(pos))[:2]])
                          .astype(int), rng.integers(10, 90, (1, 2))][
                              : int(rng.integers(1, 4))]:
            user[y, x : x + int(rng.integers(1, 3))] = True
        kinds.append("few")
    elif r < 0.25:
        a, b = rng.integers(5, 60, 2)
        user[a : a + rng.integers(10, 50), b : b + rng.integers(10, 50)] = True
        kinds.append("block")
    elif r < 0.4:
        user[:, : rng.integers(1, 30)] = True
        kinds.append("side")
    elif r < 0.5:
        user[rng.integers(0, 60) :: 40, :] = True
        kinds.append("rows")
    elif r < 0.6:
        user[:8, :9] = True
        user[-1, -5:] = True
        kinds.append("corner")
    elif r < 0.65:
        user[: shape[0] // 2] = True
        kinds.append("half")
    img = SingleImage(im.astype("f4"), mask=user if user.any() else None,
                      stamp_shape=(13, 13))
    m = img.mask.copy()
    bs = img.bkg_sub_img
    got = img.interped
    mon.event("pixels filled", m.sum())
    mon.check("clean image is finite and real",
              np.isfinite(got).all() and got.dtype.kind == "f"
              and not np.ma.isMaskedArray(got))
    mon.check("shape", got.shape == shape, got=got.shape)
    want = bs.data
    mon.close("background subtracted pixels", want[~m],
              (img.data.data - img.background)[~m], 1e-6)
    mon.equal("valid pixels are the background subtracted pixels",
              got[~m], want[~m], kinds=kinds)
    model = ref.interped(np.asarray(want, float), m)
    scale = max(np.std(want[~m]), 1e-3)
    # a fill may cascade through several passes: rounding grows slowly
    mon.close("filled pixels follow the model", got[m], model[m],
              rtol=1e-5, atol=1e-3 * scale, kinds=kinds)
    if m.any():
        lo, hi = min(0.0, want[~m].min()), max(0.0, want[~m].max())
        mon.check("filled pixels stay within the valid range",
                  got[m].min() >= lo - 1e-3 and got[m].max() <= hi + 1e-3)
        # an isolated small hole is the box mean of its surroundings
        for y, x in np.argwhere(m)[:: max(1, m.sum() // 20)]:
            if 8 <= y < shape[0] - 8 and 8 <= x < shape[1] - 8:
                box = (slice(y - 5, y + 6), slice(x - 5, x + 6))
                ok = ~m[box]
                if ok.sum() >= 1:
                    v = want[box][ok]
                    mon.check("a filled pixel lies within its neighbourhood",
                              v.min() - 1e-2 * scale <= got[y, x]
                              <= v.max() + 1e-2 * scale, y=y, x=x)
    hat = img.interped_hat
    mon.close("transform is the unitary Fourier transform of the clean image",
              hat, np.fft.fft2(got, norm="ortho"), 1e-9)
    again = img.interped
    mon.equal("clean image is stable", again, got)
    mon.equal("the mask is not changed by asking", img.mask, m)
    mon.equal("the mask is not changed by asking",
              np.ma.getmaskarray(img.data), m)
    mon.equal("background subtracted pixels", img.bkg_sub_img.data, want)
    mon.equal("the mask is not changed by asking",
              np.ma.getmaskarray(img.bkg_sub_img), m)
    if m.any():
        mon.key(sorted(kinds), int(np.log2(m.sum() + 1)))
    mon.sample(shape=list(shape), kinds=kinds, filled=int(m.sum()))
    img._clean()


def cosmic(rng, im, mon, SingleImage):
    """Documented: cosmic ray hits are cleaned from the clean image."""
    im = im.copy()
    hits = gen.positions(rng, im.shape, 12, 12.0, 10.0).astype(int)
    for y, x in hits:
        im[y, x] += 20000.0
        im[y, x + 1] += 12000.0
    img = SingleImage(im.astype("f4"), stamp_shape=(13, 13))
    mon.event("cosmic ray probe")
    left = [img.interped[y, x] for y, x in hits]
    mon.check("cosmic rays are removed", np.median(left) < 5000,
              mech="cosmic-ray-hits-kept", left=np.median(left))
    mon.key("cosmic")
