"""What cannot be measured is refused, and refusing has no side effect."""

import os
import tempfile
import time

import numpy as np

from .. import gen, sky

ID = "C31"
RULE = (
    "one case = one exposure that cannot be measured (pure noise, constant, "
    "zeros, one star only, saturated, NaN everywhere, masked everywhere, a few "
    "pixels, wrong number of axes, missing file, not an image) given to one "
    "entry point at one position, among good exposures; the call must end with "
    "an error of the documented kind, and the good exposures must work as "
    "before afterwards; key = defect|entry point|position|workers"
)
REQUIRED = ["refused with a value error", "refused",
            "good exposures are as before the refusal"]

MEASURED = ["noise", "constant", "zeros", "one star", "saturated", "nan",
            "masked", "tiny", "mask shape"]
SHAPELESS = ["1d", "3d", "empty", "none", "list", "number", "missing"]
ENTRY = ["image", "psf", "ref", "new", "coadd", "transparency"]


def cases(tier, seed):
    n = 120 if tier == "quick" else 960
    out = []
    for i in range(n):
        d = (MEASURED * 3 + SHAPELESS)[(i * 7 + i // 34) % 34]
        out.append({"seed": seed, "i": i, "defect": d,
                    "entry": ENTRY[(i // 2) % len(ENTRY)]})
    return out


def bad_image(rng, defect, shape):
    """(image, keyword arguments for the constructor)."""
    noise = rng.normal(200, 5, shape)
    few = {"min_sources": 1} if rng.random() < 0.4 else {}
    if defect == "noise":
        return noise, few
    if defect == "constant":
        return np.full(shape, float(rng.choice([7.0, 900.0, 64000.0]))), {}
    if defect == "zeros":
        return np.zeros(shape), {}
    if defect == "one star":
        p = rng.uniform([30, 30], [shape[0] - 30, shape[1] - 30])
        return noise + gen.stars(shape, [p], [20000.0], 2.0), few
    if defect == "saturated":
        return np.full(shape, 66000.0 + 1e4 * rng.random()), {}
    if defect == "nan":
        return np.full(shape, np.nan), {}
    if defect == "masked":
        im, _, _ = gen.field(rng, shape)
        return im, {"mask": np.ones(shape, bool)}
    if defect == "tiny":
        side = rng.integers(3, 9, 2)
        return noise[: side[0], : side[1]], {}
    if defect == "mask shape":  # a mask of another frame
        return _other_mask(rng, gen.field(rng, shape)[0].astype("f4"))
    if defect == "1d":
        return noise.ravel(), {}
    if defect == "3d":
        return np.stack([noise[:40, :40]] * 3), {}
    if defect == "empty":
        return np.zeros((0, int(rng.integers(0, 5)))), {}
    if defect == "none":
        return None, {}
    if defect == "list":
        return noise[:9, :9].tolist(), {}
    if defect == "number":
        return 3, {}
    return os.path.join(tempfile.gettempdir(), "pimon_no_such_file.fits"), {}


def _other_mask(rng, im):
    from astropy.io import fits

    ny, nx = im.shape
    size = [(nx, ny), (ny - 3, nx), (ny, nx + 1), (9, 9), (ny * nx,),
            (1, nx), (ny, 1), (1, 1)][rng.integers(8)]
    if size == (ny, nx):
        size = (ny, nx - 1)
    mask = np.zeros(size, ["u1", "i2", bool][rng.integers(3)])
    how = ["array", "list", "file", "mask file"][rng.integers(4)]
    if how == "array":
        return im, {"mask": mask}
    tmp = tempfile.mkdtemp(dir=os.environ.get("TMPDIR"))
    path = os.path.join(tmp, "image.fits")
    plane = mask.astype("u1")
    if how == "mask file":
        fits.PrimaryHDU(plane).writeto(path)
        return im, {"mask": path}
    prim = fits.PrimaryHDU(im)
    prim.header["EXTEND"] = True
    hl = fits.HDUList([prim, fits.ImageHDU(plane)])
    if how == "list":
        return hl, {}
    hl.writeto(path)
    return path, {}


def run(params, mon):
    from properimage import operations as op
    from properimage import utils
    from properimage.single_image import SingleImage, SingleImageGaussPSF

    rng = gen.rng_of(params)
    defect, entry = params["defect"], params["entry"]
    shape = gen.shape_of(rng, small=True)
    d = sky.stack(rng, shape, k=3)
    good = [x.copy() for x in d["images"]]
    img, kw = bad_image(rng, defect, shape)
    if not isinstance(img, np.ndarray) and entry == "transparency":
        entry = "coadd"
    procs = int(rng.integers(1, 5))
    where = int(rng.integers(0, 4))
    cls = SingleImageGaussPSF if rng.random() < 0.5 else SingleImage
    known = cls(good[0].copy())
    before = _state(known, cls)
    half = [x.copy() for x in good]

    # An instance whose stars are only looked for when they are needed
    def lazy():
        return cls(img, stamp_shape=(15, 15), **kw)

    if entry == "image":
        def call():
            return cls(img, **kw)
    elif entry == "psf":
        def call():
            if rng.random() < 0.5:
                return lazy().get_variable_psf()
            return lazy().n_sources
    elif entry in ("ref", "new"):
        def call():
            if defect == "tiny" or kw:
                one = cls(img, **kw)
            else:
                one = img
            pair = (one, half[0]) if entry == "ref" else (half[0], one)
            return op.subtract(*pair, fitted_psf=bool(rng.random() < 0.5))
    elif entry == "coadd":
        def call():
            stack = list(half)
            stack.insert(where, cls(img, **kw) if kw else img)
            return op.coadd(stack, align=False, n_procs=procs)
    else:
        def call():
            stack = [cls(x) for x in half]
            stack.insert(where, lazy())
            return utils.transparency(stack)

    t0 = time.monotonic()
    if defect in MEASURED:
        mon.raises("refused with a value error", ValueError, call,
                   defect=defect, entry=entry)
    elif defect == "missing":
        mon.raises("a missing file is refused", OSError, call, entry=entry)
    else:
        mon.raises("refused", Exception, call, defect=defect, entry=entry)
    mon.check("the refusal comes at once", time.monotonic() - t0 < 60.0,
              seconds=time.monotonic() - t0)

    # -- nothing happened to the others ------------------------------------
    for x, y in zip(half, d["images"]):
        mon.equal("good exposures are left alone", x, y)
    after = _state(known, cls)
    again = cls(good[0].copy())
    for label, other in (("kept", after), ("new", _state(again, cls))):
        for name, val in before.items():
            mon.close("good exposures are as before the refusal", other[name],
                      val, rtol=1e-10, atol=1e-12, which=label, what=name)
    if rng.random() < 0.4:
        R, P, m = op.coadd(half, align=False, n_procs=procs)
        R0, P0, m0 = op.coadd(good, align=False, n_procs=procs)
        mon.close("operations work after the refusal", R, R0, rtol=1e-9)
        mon.equal("operations work after the refusal", m, m0)
        mon.check("operations work after the refusal",
                  np.isfinite(R).all() and R.shape == tuple(shape))
    for x in (known, again):
        x._clean()
    mon.event("refusals judged")
    mon.key(defect, entry, where if entry in ("coadd", "transparency") else "",
            procs if entry == "coadd" else "")
    mon.sample(defect=defect, entry=entry, shape=shape)


def _state(img, cls):
    a, psf = img.get_variable_psf()
    return {
        "positions": np.array(img.stamps_pos),
        "psf": np.array(psf[0]),
        "interped": np.array(img.interped),
        "noise": np.array(img.var),
        "stars": np.array([img.n_sources]),
    }
