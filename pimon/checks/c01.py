"""Every accepted form of an image is the same image."""

import os
import tempfile

import numpy as np
from astropy.io import fits

from .. import gen, ref

ID = "C01"
RULE = (
    "one case = one random star field (shape, dtype, gain, crop, border, user "
    "mask and guess options drawn) built in every accepted input form; "
    "non-trivial when at least four forms were built and compared; key = "
    "dtype|gain|crop|borders|mask|guess|shape parity"
)
REQUIRED = ["pixels are the input times the gain", "same stars in every form"]

DTYPES = ["f8", "f4", ">f4", ">f8", "i2", "i4", "u2", "i8"]


def cases(tier, seed):
    n = 48 if tier == "quick" else 700
    return [{"seed": seed, "i": i} for i in range(n)]


def make(rng, i):
    shape = gen.shape_of(rng, small=True)
    im, pos, flux = gen.field(rng, shape, noise=rng.uniform(2, 8),
                              bkg=rng.uniform(50, 400), hi=15000.0)
    dt = DTYPES[i % len(DTYPES)]
    return np.round(im).astype(dt) if dt[-2] in "iu" else im.astype(dt), dt


def run(params, mon):
    from properimage.single_image import SingleImage, SingleImageGaussPSF

    rng = gen.rng_of(params)
    i = params["i"]
    pix, dt = make(rng, i)
    opts = {}
    gain_kind = ["none", "param", "header", "both"][rng.integers(4)]
    gain = 1.0
    header_gain = None
    if gain_kind in ("header", "both"):
        header_gain = float(np.round(rng.uniform(0.5, 3.0), 3))
        gain = header_gain
    if gain_kind in ("param", "both"):
        gain = float(np.round(rng.uniform(0.5, 3.0), 3))
        opts["gain"] = gain
    crop = ((0, 0), (0, 0))
    if rng.random() < 0.4:
        crop = tuple(tuple(int(v) for v in rng.integers(0, 7, 2))
                     for _ in range(2))
        opts["crop"] = crop
    borders = bool(rng.random() < 0.35)
    if borders:
        a, b, c, d = rng.integers(0, 9, 4)
        pix = np.pad(pix, ((a, b), (c, d)))
        opts["borders"] = True
    user = None
    if rng.random() < 0.4:
        user = np.zeros(pix.shape, bool)
        r, c = rng.integers(10, 90, 2)
        user[r : r + 4, c : c + 6] = True
        opts["mask"] = user
    guess = bool(rng.random() < 0.7)
    if not guess or rng.random() < 0.5:  # guessing is what happens unasked
        opts["guessmask"] = guess
    if rng.random() < 0.5:
        opts["stamp_shape"] = (15, 15)
    cls = SingleImageGaussPSF if rng.random() < 0.2 else SingleImage

    scratch = tempfile.mkdtemp()
    hdr = fits.Header()
    if header_gain is not None:
        hdr["GAIN"] = header_gain
    hdr["OBJECT"] = f"case{i}"
    path = os.path.join(scratch, "img.fits")
    fits.PrimaryHDU(pix, header=hdr.copy()).writeto(path)
    # an extension that marks no pixel, with facts of its own
    ext = fits.ImageHDU(np.zeros(pix.shape, "u1"))
    ext.header["GAIN"] = 9.5
    ext.header["OBJECT"] = "mask"
    path2, path3 = (os.path.join(scratch, f) for f in ("e.fits", "z.fits.gz"))
    fits.HDUList([fits.PrimaryHDU(pix, header=hdr.copy()),
                  ext]).writeto(path2)
    fits.PrimaryHDU(pix, header=hdr.copy()).writeto(path3)
    big = np.zeros((pix.shape[0] * 2, pix.shape[1] + 3), dtype=pix.dtype)
    big[::2, 1:-2] = pix
    forms = {
        "primary": lambda: fits.PrimaryHDU(pix.copy(), header=hdr.copy()),
        "hdulist": lambda: fits.HDUList(
            [fits.PrimaryHDU(pix.copy(), header=hdr.copy())]),
        "path": lambda: path,
        "hdulist+ext": lambda: fits.HDUList(
            [fits.PrimaryHDU(pix.copy(), header=hdr.copy()), ext.copy()]),
        "path+ext": lambda: path2,
        "path.gz": lambda: path3,
        "hdu-fortran": lambda: fits.PrimaryHDU(
            np.asfortranarray(pix), header=hdr.copy()),
    }
    if header_gain is None or "gain" in opts:
        forms["array"] = lambda: pix.copy()
        forms["fortran"] = lambda: np.asfortranarray(pix)
        forms["transposed"] = lambda: pix.T.copy().T
        forms["view"] = lambda: big[::2, 1:-2]
        forms["masked"] = lambda: np.ma.MaskedArray(pix.copy())
        forms["other-endian"] = lambda: pix.astype(
            pix.dtype.newbyteorder())
    else:
        # an array carries no header: the header gain must not leak in
        forms = dict(forms)

    win = ref.window(pix, borders, crop)
    want = pix[win].astype("<f4") * gain
    want_user = None if user is None else user[win]

    built = {}
    order = list(forms)
    rng.shuffle(order)
    for name in order:
        img = cls(forms[name](), **opts)
        built[name] = img
        mon.event("instances built")
        mon.event("form:" + name)
        mon.close("pixels are the input times the gain", img.data.data, want,
                  rtol=1e-6, form=name)
        mon.equal("mask of the form", img.mask,
                  ref.mask(img.data.data, want_user), form=name)
        mon.check("gain reported", abs(img.gain - gain) < 1e-9, form=name,
                  got=img.gain, want=gain)
        mon.check("attached to",
                  img.attached_to == (forms[name]() if "path" in name
                                      else type(forms[name]()).__name__),
                  got=img.attached_to, form=name)
        if "hdu" in name or "path" in name or name == "primary":
            mon.check("header kept",
                      img.header["OBJECT"] == f"case{i}", form=name)
        else:
            mon.check("array has empty header", len(img.header) == 0)

    names = sorted(built)
    base = built[names[0]]
    srcs = base.best_sources
    psf = base.get_variable_psf(0.2)[1][0]
    for name in names[1:]:
        o = built[name]
        mon.close("same background", o.background, base.background, 1e-6,
                  form=name)
        mon.close("same noise", o.var, base.var, 1e-6, form=name)
        mon.check("same stars in every form",
                  len(o.best_sources) == len(srcs), form=name,
                  got=len(o.best_sources), want=len(srcs))
        if len(o.best_sources) == len(srcs):
            for f in ("x", "y", "flux"):
                mon.close("same stars in every form", o.best_sources[f],
                          srcs[f], 1e-5, form=name, field=f)
        if name in names[1:3]:
            mon.close("same PSF in every form",
                      o.get_variable_psf(0.2)[1][0], psf, 1e-5, form=name)
            mon.close("same clean image in every form", o.interped,
                      base.interped, 1e-5, form=name)
    if len(built) >= 3:
        mon.key(dt, gain_kind, crop != ((0, 0), (0, 0)), borders,
                user is not None, guess, pix.shape[0] % 2, pix.shape[1] % 2)
    mon.sample(dtype=dt, shape=list(pix.shape), gain=gain_kind, crop=crop,
               borders=borders, forms=names, stars=len(srcs))
    for o in built.values():
        o._clean()
    import shutil

    shutil.rmtree(scratch, ignore_errors=True)
