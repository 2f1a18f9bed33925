"""Crop and border removal keep exactly the requested window, mask included."""

import os
import shutil
import tempfile

import numpy as np
from astropy.io import fits

from .. import gen, ref

ID = "C02"
RULE = (
    "one case = one random frame with drawn zero padding, crop, user mask form "
    "(none / full frame / already trimmed / FITS file / FITS extension) and "
    "input form; non-trivial when the window is a strict part of the frame; "
    "key = form|mask form|zero margins of crop|padded sides"
)
REQUIRED = ["pixels of the window", "mask of the window"]


def cases(tier, seed):
    n = 160 if tier == "quick" else 2500
    return [{"seed": seed, "i": i} for i in range(n)]


def run(params, mon):
    from properimage.single_image import SingleImage

    rng = gen.rng_of(params)
    i = params["i"]
    shape = gen.shape_of(rng, small=True)
    im, pos, flux = gen.field(rng, shape, hi=15000.0)
    im = im.astype("f4")
    if rng.random() < 0.3:  # zeros inside the frame are no border
        r = rng.integers(20, 60)
        im[r, :] = 0.0
        im[:, r + 5] = 0.0
    if rng.random() < 0.4:  # outermost pixels that are no padding either
        for ax in range(2):
            edge = [(0, slice(None)), (-1, slice(None))][rng.integers(2)]
            if rng.random() < 0.7:
                im[edge[:: 1 - 2 * ax]] = rng.choice([-30.0, -0.5, np.nan])
    borders = bool(rng.random() < 0.6)
    pad = [int(rng.integers(0, 9)) if rng.random() < 0.7 else 0
           for _ in range(4)]
    if borders or rng.random() < 0.4:  # padding stays unless asked for
        im = np.pad(im, ((pad[0], pad[1]), (pad[2], pad[3])))
    crop = ((0, 0), (0, 0))
    if rng.random() < 0.7:
        crop = tuple(
            tuple(int(rng.integers(1, 9)) if rng.random() < 0.6 else 0
                  for _ in range(2))
            for _ in range(2)
        )
    gain = float(np.round(rng.uniform(0.5, 2), 2))
    win = ref.window(im, borders, crop)

    user = None
    mform = ["none", "full", "trimmed", "file", "ext", "fileext"][i % 6]
    if mform != "none":
        user = np.zeros(im.shape, bool)
        for _ in range(4):
            r, c = rng.integers(0, im.shape[0]), rng.integers(0, im.shape[1])
            h, w = rng.integers(1, 8, 2)
            user[r : r + h, c : c + w] = True
    scratch = tempfile.mkdtemp()
    kw = dict(borders=borders, crop=crop, gain=gain, stamp_shape=(13, 13))
    if rng.random() < 0.5:
        kw["crop"] = [list(crop[0]), list(crop[1])]
    if not borders and rng.random() < 0.6:  # nothing is taken off by default
        del kw["borders"]
        if not np.any(crop):
            del kw["crop"]
    plane = None if user is None else (user * 32).astype("u1")
    path = os.path.join(scratch, "im.fits")
    form = ["array", "primary", "hdulist", "path"][rng.integers(4)]
    if mform == "ext":
        form = "hdulist"
        src = fits.HDUList([fits.PrimaryHDU(im), fits.ImageHDU(plane)])
        src[0].header["EXTEND"] = True
    elif mform == "fileext":
        form = "path"
        fits.HDUList([fits.PrimaryHDU(im), fits.ImageHDU(plane)]).writeto(path)
        src = path
    else:
        if form == "array":
            src = im.copy()
        elif form == "primary":
            src = fits.PrimaryHDU(im.copy())
        elif form == "hdulist":
            src = fits.HDUList([fits.PrimaryHDU(im.copy())])
        else:
            fits.PrimaryHDU(im).writeto(path)
            src = path
        if mform == "full":
            kw["mask"] = user
        elif mform == "trimmed":
            kw["mask"] = user[win]
        elif mform == "file":
            mpath = os.path.join(scratch, "mask.fits")
            fits.PrimaryHDU(plane).writeto(mpath)
            kw["mask"] = mpath
    guess = True if mform in ("ext", "fileext") else bool(rng.random() < 0.7)
    if not guess or rng.random() < 0.5:  # guessing is what happens unasked
        kw["guessmask"] = guess
    img = SingleImage(src, **kw)
    mon.event("frames trimmed")
    want = im[win] * np.float32(gain)
    mon.close("pixels of the window", np.nan_to_num(img.data.data, nan=-7e4),
              np.nan_to_num(want, nan=-7e4), 1e-6, form=form,
              mform=mform, crop=crop, pad=pad)
    wmask = None if user is None else user[win]
    if img.data.shape == want.shape:
        mon.equal("mask of the window", img.mask,
                  ref.mask(img.data.data, wmask), form=form, mform=mform,
                  crop=crop, pad=pad)
    for name in ("background", "bkg_sub_img", "interped"):
        mon.check("derived images have the shape of the window",
                  getattr(img, name).shape == want.shape, name=name)
    # stars keep their sky position
    full = SingleImage(im[win].copy(), mask=wmask, gain=gain,
                       stamp_shape=(13, 13))
    a, b = img.best_sources, full.best_sources
    mon.check("same stars as the window on its own", len(a) == len(b),
              got=len(a), want=len(b))
    if len(a) == len(b):
        mon.close("same stars as the window on its own", a["x"], b["x"], 1e-6)
        mon.close("same stars as the window on its own", a["y"], b["y"], 1e-6)

    if user is not None and i % 3 == 0:
        wrong = np.zeros((im.shape[0] + 1, im.shape[1]), bool)
        mon.raises("mask of another shape refused", ValueError,
                   lambda: SingleImage(im.copy(), mask=wrong, **{
                       k: v for k, v in kw.items() if k != "mask"}))
    if want.shape != im.shape:
        mon.key(form, mform, [v == 0 for e in crop for v in e],
                [p > 0 for p in pad] if borders else "-", shape[0] % 2)
    mon.sample(frame=list(im.shape), window=[win[0].start, win[0].stop,
                                             win[1].start, win[1].stop],
               form=form, mask_form=mform)
    img._clean()
    full._clean()
    if i % 20 == 0:
        mon.raises("an all zero frame has no window", ValueError,
                   lambda: SingleImage(np.zeros((60, 70)), borders=True,
                                       stamp_shape=(9, 9)))
    shutil.rmtree(scratch, ignore_errors=True)
