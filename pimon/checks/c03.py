"""The mask is exactly the bad pixels plus their documented growth."""

import os
import tempfile

import numpy as np
from astropy.io import fits

from .. import gen, ref

ID = "C03"
RULE = (
    "one case = one frame with drawn damage (saturated, very negative, NaN, "
    "infinite pixels: isolated, paired, lines, blocks, on edges and corners; "
    "values at the exact limits) and an optional user mask; non-trivial when "
    "at least one pixel is bad; key = kinds present|user mask|guess|gain"
)
REQUIRED = ["mask equals the model", "no bad pixel escapes"]


def cases(tier, seed):
    n = 240 if tier == "quick" else 4000
    return [{"seed": seed, "i": i} for i in range(n)]


def run(params, mon):
    from properimage.single_image import SingleImage, SingleImageGaussPSF

    rng = gen.rng_of(params)
    i = params["i"]
    shape = gen.shape_of(rng, small=True)
    im, pos, flux = gen.field(rng, shape, hi=15000.0)
    gain = 1.0 if rng.random() < 0.5 else float(np.round(
        rng.uniform(0.4, 2.5), 2))
    n = {k: int(rng.integers(0, 4)) if rng.random() < 0.6 else 0
         for k in ("n_sat", "n_low", "n_nan", "n_inf")}
    im = gen.damage(rng, im / gain, n_hot=0, **n).astype("f4")
    kinds = [k for k, v in n.items() if v]
    limit = rng.random() < 0.5
    if limit and gain == 1.0:
        for v in (65000.0, -50.0, np.nextafter(np.float32(65000), np.float32(
                1e9)), np.nextafter(np.float32(-50), np.float32(-99))):
            r, c = rng.integers(0, shape[0]), rng.integers(0, shape[1])
            im[r, c : c + 3] = v
        kinds.append("limits")
    if rng.random() < 0.4:  # corners and edges
        v = [np.nan, 70000.0 / gain, -99.0 / gain][rng.integers(3)]
        for r, c in ((0, 0), (0, -1), (-1, 0), (-1, -1)):
            if rng.random() < 0.5:
                im[r, c] = v
        im[0, 5:8] = v
        kinds.append("edges")
    user = None
    if rng.random() < 0.5:
        user = np.zeros(shape, bool)
        for _ in range(3):
            r, c = rng.integers(0, shape[0]), rng.integers(0, shape[1])
            h, w = rng.integers(1, 6, 2)
            user[r : r + h, c : c + w] = True
    guess = bool(rng.random() < 0.6)
    arg = user
    if user is not None and rng.random() < 0.4:
        arg = user.astype(["u1", "i4", "f4"][rng.integers(3)])
    cls = SingleImageGaussPSF if i % 5 == 0 else SingleImage
    src = im.copy()
    own = None
    if user is None and rng.random() < 0.3:
        own = np.zeros(shape, bool)
        r, c = rng.integers(5, 90, 2)
        own[r : r + 3, c : c + 5] = True
        src = np.ma.MaskedArray(im.copy(), mask=own)
    if own is None and rng.random() < 0.3:  # the same pixels from a file
        src = os.path.join(tempfile.mkdtemp(dir=os.environ.get("TMPDIR")),
                           "a.fits")
        fits.PrimaryHDU(im).writeto(src)
        if rng.random() < 0.6:  # as written by other programs
            with fits.open(src, mode="update") as h:
                h[0].header.remove("EXTEND", ignore_missing=True)
            mon.event("files that say nothing of extensions",
                      "EXTEND" not in fits.getheader(src))
        kinds.append("file")
    img = cls(src, mask=arg, gain=gain, guessmask=guess, stamp_shape=(13, 13))
    vals = img.data.data
    mon.event("masks built")
    want_user = user if own is None else own
    bad = ref.bad_pixels((im * np.float32(gain)).astype("f4"), want_user)
    model = ref.grow(bad)
    mon.check("mask is an array of booleans of the image shape",
              isinstance(img.mask, np.ndarray) and img.mask.shape == shape
              and img.mask.dtype == bool)
    mon.event("bad pixels", bad.sum())
    mon.event("grown pixels", (model & ~bad).sum())
    mon.check("no bad pixel escapes", not np.any(bad & ~img.mask),
              escaped=int(np.sum(bad & ~img.mask)), kinds=kinds)
    mon.equal("mask equals the model", img.mask, model, kinds=kinds,
              user=user is not None, gain=gain, guess=guess)
    good = ~model
    mon.check("unmasked pixels are finite", np.isfinite(vals[~img.mask]).all())
    mon.close("pixel values are kept", vals[good],
              (im * np.float32(gain))[good], 1e-6)
    if i % 3 == 0:  # whatever is asked
        kept = vals.copy()
        img.interped, img.background
        mon.event("masks read again after questions")
        mon.equal("mask equals the model", img.mask, model, after="interped")
        mon.equal("pixel values are kept", img.data.data, kept)
    if bad.any():
        mon.key(sorted(kinds), user is not None, guess, gain != 1.0,
                own is not None)
    mon.sample(shape=list(shape), bad=int(bad.sum()),
               masked=int(img.mask.sum()), kinds=kinds)
