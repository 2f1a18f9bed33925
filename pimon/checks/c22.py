"""What a coadd must satisfy whatever the exposures are."""

import os
import tempfile
import warnings

import numpy as np
from scipy import ndimage

from .. import gen, ref, sky

ID = "C22"
RULE = (
    "one case = one stack put through one relation: shapes, masks and reality "
    "of the results for every input form, permutation of the exposures, gain "
    "of depth with the number of exposures, weight of noisy exposures, "
    "detection of faint sources, refusal of different sizes, deprecated "
    "spelling; key = relation|images|form|shape"
)
REQUIRED = ["results have the shape of the exposures", "coadd is real",
            "mask of the coadd is the union", "order does not matter",
            "depth grows with the number of exposures",
            "exposures of different size are refused",
            "a bad exposure does not hurt",
            "deprecated spelling gives the same"]
KINDS = ["contract", "order", "depth", "sizes", "weight", "contract",
         "deprecated", "single"]
FORMS = ["array", "instance", "mixed", "masked", "path", "hdu"]


def cases(tier, seed):
    n = 96 if tier == "quick" else 960
    return [{"seed": seed, "i": i, "kind": KINDS[i % 8],
             "form": FORMS[(i // 8 + i) % 6]} for i in range(n)]


def _snr(im, pos, msk=None):
    """Median over stars of peak / local noise."""
    far = np.ones(im.shape, bool)
    p = np.round(pos).astype(int)
    far[p[:, 0], p[:, 1]] = False
    far = ndimage.distance_transform_edt(far) > 12
    far[:20] = far[-20:] = far[:, :20] = far[:, -20:] = False
    sd = im[far].std()
    return np.median([im[y - 2:y + 3, x - 2:x + 3].max() for y, x in p]) / sd


def run(params, mon):
    from astropy.io import fits
    from properimage import operations as op
    from properimage.single_image import SingleImage

    rng = gen.rng_of(params)
    kind, form = params["kind"], params["form"]
    procs = int(rng.choice([1, 2, 3]))
    shape = gen.shape_of(rng, small=True)
    kw = dict(align=False, inf_loss=0.5, n_procs=procs)
    tmp = tempfile.mkdtemp(dir=os.environ.get("TMPDIR"))

    def make(x, j):
        if form == "instance" or (form == "mixed" and j % 2):
            return SingleImage(x)
        if form == "masked":
            return np.ma.MaskedArray(x, mask=np.zeros(x.shape, bool))
        if form == "hdu":
            return fits.PrimaryHDU(x)
        if form == "path":
            p = os.path.join(tmp, f"{j}.fits")
            fits.PrimaryHDU(x).writeto(p)
            return p
        return x.copy()

    if kind in ("contract", "single", "deprecated"):
        d = sky.stack(rng, shape, k=1 if kind == "single" else None,
                      damage=bool(rng.random() < 0.6),
                      noisy=bool(rng.random() < 0.5))
        if kind == "single":
            #  one exposure has nothing to be compared with photometrically
            try:
                out = op.coadd([make(d["images"][0], 0)], **kw)
            except (ValueError, IndexError, TypeError):
                mon.event("single exposure refused")
                mon.key("single", "refused", shape)
                return
            mon.event("single exposure coadded")
        else:
            out = op.coadd([make(x, j) for j, x in enumerate(d["images"])],
                           **kw)
        mon.check("three results", len(out) == 3)
        R, P, m = out
        for name, x in zip("RPm", out):
            mon.check("results have the shape of the exposures",
                      np.shape(x) == shape, which=name, got=np.shape(x))
        R = np.asarray(R)
        #  the Fourier modes the PSF lost are ratios of rounding errors
        keep = np.abs(np.fft.fft2(P))
        keep = keep > 1e-5 * keep.max()
        for axis, side in enumerate(shape):
            if side % 2 == 0:
                np.moveaxis(keep, axis, 0)[side // 2] = False
        mon.event("fourier modes kept", keep.sum())
        im = np.fft.ifft2(np.fft.fft2(R) * keep)
        mon.check("coadd is real", np.abs(im.imag).max()
                  <= 1e-6 * np.abs(im.real).max(), imag=np.abs(im.imag).max(),
                  real=np.abs(im.real).max(), all_modes=np.abs(R.imag).max())
        mon.check("coadd PSF has unit sum", abs(np.sum(P) - 1) < 1e-9)
        mon.check("coadd is finite", np.isfinite(R).all()
                  and np.isfinite(P).all())
        mon.check("mask of the coadd is boolean", isinstance(m, np.ndarray)
                  and m.dtype == bool, got=type(m))
        want = np.logical_or.reduce([ref.mask(x.astype(float))
                                     for x in d["images"]])
        mon.equal("mask of the coadd is the union", m, want)
        mon.event("masked pixels", want.sum())
        if kind == "deprecated":
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter("always")
                old = op.stack_R([x.copy() for x in d["images"]], **kw)
            mon.check("deprecated spelling warns", any(
                issubclass(x.category, DeprecationWarning) for x in w))
            order = kw["align"], kw["inf_loss"], kw["n_procs"]
            for other in (old, op.stack_R([x.copy() for x in d["images"]],
                                          *order),
                          op.coadd([x.copy() for x in d["images"]], *order)):
                for a, b in zip(out, other):
                    mon.close("deprecated spelling gives the same",
                              np.asarray(b, complex), np.asarray(a, complex),
                              1e-7)
        mon.key(kind, len(d["images"]), form, shape)
    elif kind == "order":
        d = sky.stack(rng, shape, k=int(rng.integers(3, 6)), lo=8000,
                      hi=30000)
        a = [SingleImage(x, stamp_shape=(15, 15)) for x in d["images"]]
        R, P, m = op.coadd(a, **kw)
        perm = rng.permutation(len(a))
        b = [SingleImage(d["images"][j], stamp_shape=(15, 15)) for j in perm]
        R2, P2, m2 = op.coadd(b, **kw)
        #  only the photometric reference changes: a scale of its own noise
        R, R2 = np.asarray(R).real, np.asarray(R2).real
        k = (R * R2).sum() / (R2 * R2).sum()
        mon.close("order does not matter", R2 * k, R, 0.03,
                  perm=perm.tolist())
        mon.close("order does not matter for the PSF", P2, P, 0.03)
        mon.equal("order does not matter for the mask", m2, m)
        mon.key(kind, len(a), perm.tolist(), shape)
        for x in a + b:
            x._clean()
    elif kind == "sizes":
        d = sky.stack(rng, shape, k=3)
        j = int(rng.integers(3))
        cut = [np.s_[:-2, :], np.s_[:, 3:], np.s_[1:, 1:], None][
            rng.integers(4)]
        d["images"][j] = np.ascontiguousarray(
            d["images"][j].T if cut is None else d["images"][j][cut])
        if d["images"][j].shape == shape:
            d["images"][j] = d["images"][j][1:]
        mon.raises("exposures of different size are refused", ValueError,
                   lambda: op.coadd([make(x, k) for k, x in
                                     enumerate(d["images"])], **kw),
                   which=j)
        mon.key(kind, j, form, shape, procs)
    elif kind == "depth":
        k = int(rng.integers(4, 8))
        pos = gen.positions(rng, shape, 18, 20.0, 24.0)
        flux = gen.fluxes(rng, len(pos), 3000, 6000)
        s, e = rng.uniform(1.6, 2.0), rng.uniform(7, 11)
        clean = gen.stars(shape, pos, flux, s) + 100
        ims = [SingleImage(clean + rng.normal(0, e, shape),
                           stamp_shape=(15, 15)) for _ in range(k)]
        one, _, _ = op.coadd(ims[:2], **kw)
        allr, _, _ = op.coadd(ims, **kw)
        gain = _snr(np.asarray(allr).real, pos) / _snr(
            np.asarray(one).real, pos)
        want = np.sqrt(k / 2)
        mon.check("depth grows with the number of exposures",
                  0.8 * want < gain < 1.25 * want, gain=gain, want=want, k=k)
        mon.sample(kind=kind, k=k, gain=float(gain), want=float(want))
        mon.key(kind, k, shape)
        for x in ims:
            x._clean()
    else:
        #  one exposure much noisier than the others must weigh next to nothing
        pos = gen.positions(rng, shape, 18, 20.0, 24.0)
        flux = gen.fluxes(rng, len(pos), 5000, 9000)
        s, e = rng.uniform(1.6, 2.0), rng.uniform(4, 6)
        clean = gen.stars(shape, pos, flux, s) + 100
        good = [SingleImage(clean + rng.normal(0, e, shape),
                            stamp_shape=(15, 15)) for _ in range(3)]
        noisy = SingleImage(clean + rng.normal(0, 5 * e, shape),
                            stamp_shape=(15, 15))
        #  and one with clouds: a tenth of the flux, the same noise
        cloud = SingleImage((clean - 100) * 0.25 + 100
                            + rng.normal(0, e, shape), stamp_shape=(15, 15))
        base = _snr(np.asarray(op.coadd(good, **kw)[0]).real, pos)
        for name, extra in (("noisy", noisy), ("cloudy", cloud)):
            got = _snr(np.asarray(op.coadd(good + [extra], **kw)[0]).real,
                       pos)
            mon.check("a bad exposure does not hurt",
                      got > 0.93 * base, base=base, got=got, which=name)
            mon.sample(kind=kind, which=name, base=float(base),
                       got=float(got))
        mon.key(kind, shape, round(e))
        for x in good + [noisy, cloud]:
            x._clean()
