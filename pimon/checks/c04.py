"""Masks stored in FITS files and extensions are read with the right polarity."""

import os
import shutil
import tempfile

import numpy as np
from astropy.io import fits

from .. import gen, ref

ID = "C04"
RULE = (
    "one case = one mask plane (polarity, dtype, threshold and values drawn) "
    "delivered as a mask file, as the extension of an HDU list or of a file; "
    "non-trivial when the plane marks pixels; key = delivery|polarity|dtype|"
    "threshold given|guess"
)
REQUIRED = ["mask equals the model"]


def cases(tier, seed):
    n = 320 if tier == "quick" else 4000
    return [{"seed": seed, "i": i} for i in range(n)]


def run(params, mon):
    from properimage.single_image import SingleImage

    rng = gen.rng_of(params)
    i = params["i"]
    shape = gen.shape_of(rng, small=True)
    im, pos, flux = gen.field(rng, shape, hi=15000.0)
    if rng.random() < 0.4:
        im = gen.damage(rng, im, n_hot=0, n_sat=2, n_low=1, n_nan=2, n_inf=1)
    im = im.astype("f4")
    thresh = None
    if rng.random() < 0.5:
        thresh = int(rng.integers(1, 40))
    t = 16 if thresh is None else thresh
    dt = ["u1", "i2", "i4", "f4"][rng.integers(4)]
    style = ["values", "values", "binary", "flags"][rng.integers(4)]
    bright = bool(rng.random() < 0.5)  # bad pixels have the high values
    plane = np.zeros(shape) if bright else np.full(shape, t + 60.0)
    for _ in range(6):
        r, c = rng.integers(0, shape[0]), rng.integers(0, shape[1])
        h, w = rng.integers(1, 7, 2)
        v = [t - 1, t, t + 1, max(t // 2, 0), t + 30][rng.integers(5)]
        plane[r : r + h, c : c + w] = v
    if rng.random() < 0.4:  # along the sides of the frame too
        r = [np.s_[:1], np.s_[:4], np.s_[-3:], np.s_[:]][rng.integers(4)]
        c = [np.s_[:5], np.s_[-4:], np.s_[:1], np.s_[2:9]][rng.integers(4)]
        plane[(r, c) if rng.random() < 0.5 else (c, r)] = (
            t + 30 if bright else max(t // 2, 0))
    if style == "binary":  # ones and zeros
        plane = (plane >= t if bright else plane > t).astype(float)
        thresh = t = [1, 0.5][rng.integers(2)] if bright else (
            [0, 0.5][rng.integers(2)])
    elif style == "flags":  # high bits, up to a third of the frame
        for _ in range(8):
            r, c = rng.integers(0, shape[0]), rng.integers(0, shape[1])
            h, w = rng.integers(4, max(5, shape[0] // 6), 2)
            plane[r : r + h, c : c + w] = (
                rng.choice([64, 128, 200]) if bright else 0)
    plane = plane.astype(dt)
    marked = ref.fits_mask(plane, thresh)
    scratch = tempfile.mkdtemp()
    delivery = ["mask file", "list ext", "file ext", "mask file+ext",
                "ext not asked", "array over ext"][i % 6]
    other = np.full(shape, 99 if bright else 0, dtype=dt)  # decoy plane
    kw = dict(maskthresh=thresh, stamp_shape=(13, 13))
    mpath = os.path.join(scratch, "m.fits")
    ipath = os.path.join(scratch, "i.fits")
    prim = fits.PrimaryHDU(im)
    guess = True
    if delivery == "mask file":
        fits.PrimaryHDU(plane).writeto(mpath)
        guess = bool(rng.random() < 0.5)
        src, kw["mask"] = im.copy(), mpath
        if rng.random() < 0.5:
            prim.writeto(ipath)
            src = ipath
    elif delivery == "list ext":
        hl = [prim, fits.ImageHDU(plane)]
        if rng.random() < 0.5:
            hl.append(fits.ImageHDU(other))
        src = fits.HDUList(hl)
        src[0].header["EXTEND"] = True
    elif delivery == "file ext":
        hl = [prim, fits.ImageHDU(plane)]
        if rng.random() < 0.5:
            hl.append(fits.ImageHDU(other))
        fits.HDUList(hl).writeto(ipath)
        src = ipath
    elif delivery == "mask file+ext":
        fits.PrimaryHDU(plane).writeto(mpath)
        fits.HDUList([prim, fits.ImageHDU(other)]).writeto(ipath)
        src, kw["mask"] = ipath, mpath
    elif delivery == "ext not asked":
        guess = False
        fits.HDUList([prim, fits.ImageHDU(plane)]).writeto(ipath)
        src = ipath if rng.random() < 0.5 else fits.open(ipath)
        marked = np.zeros(shape, bool)
    else:
        src = fits.HDUList([prim, fits.ImageHDU(other)])
        src[0].header["EXTEND"] = True
        kw["mask"] = marked.copy()
    if not guess or rng.random() < 0.5:  # guessing is what happens unasked
        kw["guessmask"] = guess
    img = SingleImage(src, **kw)
    mon.event("mask planes read")
    mon.event("pixels marked by the plane", marked.sum())
    mon.equal("mask equals the model", img.mask,
              ref.mask(img.data.data, marked), delivery=delivery,
              bright=bright, thresh=thresh, dtype=dt)
    mon.check("no pixel marked bad escapes",
              not np.any(marked & ~img.mask), delivery=delivery)
    mon.check("threshold reported", img.maskthresh == t, got=img.maskthresh)
    mon.close("pixels untouched by the mask", img.data.data[~img.mask],
              im[~img.mask], 1e-6)
    if marked.any() or delivery == "ext not asked":
        mon.key(delivery, bright, dt, thresh is None, guess, style)
    mon.sample(delivery=delivery, bright=bright, dtype=dt, thresh=thresh,
               marked=int(marked.sum()))
    if isinstance(src, fits.HDUList):
        src.close()
    shutil.rmtree(scratch, ignore_errors=True)
