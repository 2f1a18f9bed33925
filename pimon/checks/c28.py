"""Stored images come back as they were."""

import os
import tempfile

import numpy as np

from .. import gen

ID = "C28"
RULE = (
    "one case = one image (real, complex, masked in every way, any type, "
    "size and values) stored to a file, to memory, or over an existing file, "
    "and read back with the FITS library and with the package; pixels, mask "
    "and header must be the ones given; key = writer|kind|type|shape"
)
REQUIRED = ["pixels come back", "mask comes back", "complex is stored as real",
            "input left alone", "package reads what it wrote",
            "header says what was observed"]
KINDS = ["plain", "masked", "nomask", "maskedcomplex", "complex", "fits",
         "reread", "overwrite"]


def cases(tier, seed):
    n = 128 if tier == "quick" else 1600
    return [{"seed": seed, "i": i, "kind": KINDS[i % 8]} for i in range(n)]


def run(params, mon):
    from astropy.io import fits
    from astropy.time import Time
    from properimage import simtools
    from properimage import utils as u
    from properimage.single_image import SingleImage

    rng = gen.rng_of(params)
    kind = params["kind"]
    tmp = tempfile.mkdtemp(dir=os.environ.get("TMPDIR"))
    path = os.path.join(tmp, "a.fits")
    shape = tuple(int(v) for v in rng.integers(1, 90, 2))
    dt = rng.choice(["f4", "f8", "i2", "i4", "u2", "bool8"][:5])
    base = rng.normal(100, 500, shape)
    if dt == "u2":
        base = np.abs(base)
    img = base.astype(dt)
    if kind == "fits":
        return _fits(rng, mon, simtools, Time, fits, tmp, img)
    if kind == "reread":
        return _reread(rng, mon, u, SingleImage, path)
    if kind == "plain" or kind == "overwrite":
        keep = img.copy()
        if kind == "overwrite":
            u.store_img(np.zeros((7, 9)), path)
        got = u.store_img(img, path)
        mon.check("nothing is returned for a file", got is None)
        with fits.open(path) as h:
            mon.equal("pixels come back", h[0].data, keep, dtype=dt)
            mon.check("one plane for a plain image", len(h) == 1)
        mem = u.store_img(img)
        mon.equal("pixels come back", mem.data, keep)
        mon.equal("input left alone", img, keep)
    elif kind == "complex":
        z = base + 1j * rng.normal(0, 1, shape)
        keep = z.copy()
        u.store_img(z, path)
        mon.equal("complex is stored as real", fits.getdata(path), keep.real)
        mon.equal("input left alone", z, keep)
    else:
        msk = rng.random(shape) < rng.choice([0, 0.05, 0.5, 1])
        if kind == "nomask":
            msk[:] = False
            m = np.ma.MaskedArray(base.copy())
        elif kind == "maskedcomplex":
            m = np.ma.MaskedArray(base + 1j, mask=msk.copy())
        else:
            m = np.ma.MaskedArray(base.copy(), mask=msk.copy())
        ret = u.store_img(m, path)
        mon.check("nothing is returned for a file", ret is None)
        with fits.open(path) as h:
            mon.check("two planes for a masked image", len(h) == 2)
            mon.close("pixels come back", h[0].data, base, 1e-6)
            mon.equal("mask comes back", h[1].data.astype(bool), msk)
            mon.check("mask plane is told apart",
                      h[1].header.get("IMG_TYPE") == "BAD_PIXEL_MASK")
        mem = u.store_img(m)
        mon.check("memory and file are alike", len(mem) == 2)
        mon.equal("mask comes back", mem[1].data.astype(bool), msk)
        mon.close("pixels come back", mem[0].data, base, 1e-6)
        mon.equal("input left alone", m.data.real, base)
        mon.equal("input left alone", np.ma.getmaskarray(m), msk)
        mon.event("masked pixels stored", msk.sum())
    mon.event("images stored")
    mon.check("no other file is written", sorted(os.listdir(tmp)) == [
        "a.fits"], got=os.listdir(tmp))
    mon.key(kind, dt, shape)
    mon.sample(kind=kind, dtype=str(dt), shape=list(shape))


def _reread(rng, mon, u, SingleImage, path):
    """store_img, then read with the package: same pixels, same bad ones."""
    im, pos, flux = gen.field(rng, (110, 120), n=12)
    im = im.astype("f4").astype(float)
    msk = np.zeros(im.shape, bool)
    for _ in range(3):
        y, x = rng.integers(0, 100, 2)
        msk[y:y + 5, x:x + 6] = True
    with_mask = bool(rng.random() < 0.7)
    if with_mask:
        u.store_img(np.ma.MaskedArray(im, mask=msk), path)
        s = SingleImage(path, maskthresh=1)
    else:
        u.store_img(im, path)
        s = SingleImage(path)
        msk[:] = False
    mon.close("package reads what it wrote", s.data.data, im, 1e-6)
    mon.check("package reads what it wrote",
              not (msk & ~np.asarray(s.mask)).any())
    direct = SingleImage(im, mask=msk) if with_mask else SingleImage(im)
    mon.equal("package reads what it wrote", s.mask, direct.mask,
              with_mask=with_mask)
    mon.key("reread", with_mask, int(msk.sum()))
    s._clean()
    direct._clean()


def _fits(rng, mon, simtools, Time, fits, tmp, img):
    jd = float(2451545 + rng.uniform(0, 8000))
    t = Time(jd, format="jd", scale="utc")
    exp, zero = float(rng.uniform(1, 900)), float(rng.uniform(20, 30))
    j = int(rng.integers(0, 2000))
    keep = img.copy()
    p = simtools.store_fits(img, t if rng.random() < 0.5 else jd, exp, j,
                            zero, path=tmp)
    mon.check("the path of the file is returned", os.path.exists(p)
              and os.path.dirname(p) == tmp, got=p)
    with fits.open(p) as h:
        mon.equal("pixels come back", h[0].data, keep)
        hd = h[0].header
        mon.check("header says what was observed",
                  abs(hd["JD"] - jd) < 1e-8 and hd["EXPTIME"] == exp
                  and hd["ZERO_P"] == zero, header=[hd["JD"], jd])
        back = Time(hd["DATE-OBS"].strip() + "T" + hd["TIME-OBS"].strip(),
                    scale="utc")
        mon.check("header says what was observed",
                  abs(back.jd - jd) < 2e-8, back=back.jd, jd=jd)
    mon.equal("input left alone", img, keep)
    q = simtools.store_fits(img, t, exp, j + int(rng.choice(
        [1, 10, 100, 256, 1000, 1024])), zero, path=tmp)
    mon.check("another number is another file", p != q and
              len(os.listdir(tmp)) == 2)
    #  the same number again replaces the file
    r = simtools.store_fits(img + 1, t, exp * 2, j, zero, path=tmp)
    with fits.open(r) as h:
        mon.check("a stored image is replaced", r == p
                  and np.array_equal(h[0].data, keep + 1)
                  and h[0].header["EXPTIME"] == exp * 2
                  and len(os.listdir(tmp)) == 2)
    mon.event("images stored", 3)
    mon.key("fits", img.dtype, img.shape)
