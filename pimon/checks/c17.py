"""Everything subtract returns, for every option set and input form."""

import itertools
import os
import tempfile
import warnings

import numpy as np

from .. import gen, ref, sky

ID = "C17"
RULE = (
    "one case = one pair of exposures, one input form and one option set (PSF "
    "model x flux search x shift search x iteration x loss x alignment off); "
    "shape, reality, finiteness, normalisation and masks of the four results "
    "are checked, plus the refusal of different sizes and the deprecated "
    "spelling; key = options|form|shape|damage"
)
REQUIRED = ["difference is real", "PSF has unit sum", "all finite",
            "mask is the union of the two masks",
            "different sizes are refused", "deprecated spelling warns",
            "deprecated spelling gives the same",
            "the form of the images does not matter"]

FORMS = ["array", "instance", "masked", "hdu", "path", "f4", "other",
         "strided", "mixed", "ccd"]
COMBOS = list(itertools.product([True, False], repeat=4))


def cases(tier, seed):
    n = 96 if tier == "quick" else 960
    out = []
    for i in range(n):
        fit, beta, shift, it = COMBOS[i % 16]
        if i >= n // 3:  # mostly without search: they are cheap
            beta = shift = False
        out.append({"seed": seed, "i": i, "fit": fit, "beta": beta,
                    "shift": shift, "it": it,
                    "form": FORMS[(i + i // 16) % len(FORMS)]})
    return out


def run(params, mon):
    from astropy.io import fits
    from properimage import operations as op
    from properimage.single_image import SingleImage, SingleImageGaussPSF

    rng = gen.rng_of(params)
    fit, form = params["fit"], params["form"]
    cls = SingleImageGaussPSF if fit else SingleImage
    other = SingleImage if fit else SingleImageGaussPSF
    shape = gen.shape_of(rng, small=params["shift"])
    hurt = bool(rng.random() < 0.5)
    loss = float(rng.choice([0.05, 0.25, 0.4]))
    d = sky.pair(rng, shape, damage=hurt, elong=bool(rng.random() < 0.4),
                 transients=int(rng.integers(0, 3)))
    a, b = d["ref"], d["new"]
    um = [None, None]
    if form == "masked":
        um = [rng.random(shape) < 0.002 for _ in range(2)]
        for m in um:
            y, x = rng.integers(0, 80, 2)
            m[y:y + 6, x:x + 9] = True
    tmp = tempfile.mkdtemp(dir=os.environ.get("TMPDIR"))

    def make(x, which):
        if form == "array":
            return x.copy()
        if form == "instance":
            return cls(x)
        if form == "other":
            return other(x)
        if form == "masked":
            return np.ma.MaskedArray(x, mask=um[which])
        if form == "hdu":
            return fits.PrimaryHDU(x)
        if form == "path":
            p = os.path.join(tmp, f"{which}.fits")
            fits.PrimaryHDU(x).writeto(p)
            return p
        if form == "f4":
            return x.astype("f8")
        if form == "ccd":
            from astropy.nddata import CCDData

            return CCDData(x.copy(), unit="adu")
        if form == "strided":
            big = np.zeros((shape[0] * 2, shape[1] * 2), x.dtype)
            big[::2, ::2] = x
            return big[::2, ::2]
        return cls(x) if which else x.copy()  # mixed

    args = make(a, 0), make(b, 1)
    kw = dict(beta=params["beta"], shift=params["shift"],
              iterative=params["it"], fitted_psf=fit, inf_loss=loss)
    smooth = bool(not fit and (rng.random() < 0.4 or form == "ccd"))
    if smooth:
        kw["smooth_psf"] = True
    out = op.subtract(*args, **kw)
    mon.event("form:" + form)
    if form not in ("instance", "other", "mixed", "masked") and not (
            params["beta"] or params["shift"]):
        with cls(a, smooth_psf=smooth) as r, cls(b, smooth_psf=smooth) as n:
            own = op.subtract(r, n, **kw)
        for k in (1, 2):
            mon.close("the form of the images does not matter",
                      np.asarray(out[k]), np.asarray(own[k]), 1e-3, which=k,
                      form=form, smooth=smooth)
    mon.check("four results", len(out) == 4)
    D, P, S, m = out
    for name, x in (("D", D), ("P", P), ("S", S), ("mask", m)):
        mon.check("results have the shape of the images",
                  np.shape(x) == shape, which=name, got=np.shape(x))
    D = np.asarray(D)
    #  Nyquist modes and modes under the rounding noise of the PSFs are left
    #  aside: a fractional shift makes the former complex
    fy, fx = np.fft.fftfreq(shape[0]), np.fft.fftfreq(shape[1])
    low = np.hypot(fy[:, None], fx) < 0.2
    blur = np.fft.ifft2(np.fft.fft2(D) * low)
    mon.check("difference is real",
              np.abs(blur.imag).max() <= 1e-6 * np.abs(blur).max(),
              imag=np.abs(blur.imag).max())
    mon.check("PSF and score are real",
              not np.iscomplexobj(P) and not np.iscomplexobj(S))
    mon.check("PSF has unit sum", abs(np.sum(P) / np.sqrt(P.size) - 1) < 1e-6
              or abs(np.sum(P) - 1) < 1e-6, got=np.sum(P))
    mon.event("psf sum is one", abs(np.sum(P) - 1) < 1e-6)
    mon.check("all finite", np.isfinite(D).all() and np.isfinite(P).all()
              and np.isfinite(np.asarray(S)[~m]).all())
    mon.check("mask is boolean", isinstance(m, np.ndarray)
              and m.dtype == bool, got=type(m))
    want = [ref.mask(np.asarray(x), u) for x, u in ((a, um[0]), (b, um[1]))]
    union = want[0] | want[1]
    if form == "other":  # the mask of an instance is grown once more
        union = ref.grow(want[0]) | ref.grow(want[1])
        mon.check("mask is the union of the two masks",
                  not ((want[0] | want[1]) & ~m).any() and not
                  (m & ~union).any())
    else:
        mon.equal("mask is the union of the two masks", m, union)
    mon.event("masked pixels", m.sum())

    # -- options left out have the documented values
    default = dict(align=False, inf_loss=0.25, smooth_psf=False, beta=True,
                   shift=True, iterative=False, fitted_psf=True)
    if params["i"] % 4 == 0:
        part = {} if params["i"] % 16 == 0 and params["i"] < 64 else dict(
            beta=False, shift=False)
        if params["i"] % 8 and part:
            part["fitted_psf"] = False
        one, two = [op.subtract(a.copy(), b.copy(), **x)
                    for x in (part, {**default, **part})]
        mon.event("defaults")
        for k in range(1, 4):
            mon.close("options left out have the documented values",
                      np.asarray(one[k], float), np.asarray(two[k], float),
                      1e-6, which=k)

    # -- deprecated spelling: same values, and says so
    if not (params["shift"]):
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            old = op.diff(*args, **kw)
        mon.check("deprecated spelling warns",
                  any(issubclass(x.category, DeprecationWarning) for x in w))
        given = (False, loss, smooth, params["beta"], False, params["it"], fit)
        pos = [op.subtract(*args, *given), op.diff(*args, *given)]
        pos.append(op.diff(*args, *given[:4], iterative=params["it"],
                           fitted_psf=fit, shift=False))
        for x in pos:
            for k in range(1, 4):
                mon.close("options by position are the named ones",
                          np.asarray(x[k], float), np.asarray(out[k], float),
                          1e-6, which=k)
        for k in range(1, 4):
            # not D: modes below the rounding noise are not reproducible
            mon.close("deprecated spelling gives the same",
                      np.asarray(old[k], float), np.asarray(out[k], float),
                      1e-6, which=k)

    # -- another size is refused, not cropped nor broadcast
    cut = [np.s_[:-1, :], np.s_[:, :-1], np.s_[:1, :], np.s_[3:, 2:],
           None][rng.integers(5)]
    if rng.random() < 0.5:
        # the last one has rows and columns exchanged: as many pixels
        small = np.ascontiguousarray(a[cut] if cut else a.T)
        if min(small.shape) > 100 and small.shape != shape:
            args2 = (small, b) if rng.random() < 0.5 else (b, small)
            mon.raises("different sizes are refused", ValueError,
                       lambda: op.subtract(*args2, **kw),
                       sizes=[small.shape, shape])
    mon.key(fit, params["beta"], params["shift"], params["it"], form, shape,
            hurt, loss)
    mon.sample(form=form, shape=list(shape), masked=int(m.sum()),
               psf_sum=float(np.sum(P)))

