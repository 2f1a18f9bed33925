"""The caller's arrays, HDUs, files, masks, lists and images stay as given."""

import hashlib
import os
import shutil
import tempfile

import numpy as np
from astropy.io import fits

from .. import gen

ID = "C05"
RULE = (
    "one case = one public operation fed with inputs whose bytes, headers, "
    "list members and file contents are fingerprinted before and after (arrays "
    "are additionally write protected in half of the cases); key = operation|"
    "input forms|write protected"
)
REQUIRED = ["array untouched", "image data untouched", "list untouched"]

OPS = ["construct", "measure", "subtract", "subtract-align", "coadd",
       "coadd-align", "transparency", "utils", "simtools", "subtract-si",
       "coadd-si", "plot"]


def cases(tier, seed):
    n = 96 if tier == "quick" else 1200
    return [{"seed": seed, "i": i} for i in range(n)]


def h(a):
    a = np.asarray(a)
    return hashlib.sha256(np.ascontiguousarray(a).tobytes()).hexdigest() + str(
        (a.shape, a.dtype))


class Watch:
    """Fingerprints of everything handed over."""

    def __init__(self, mon):
        self.mon, self.items = mon, []

    def array(self, a, protect=False):
        if protect:
            a.flags.writeable = False
        self.items.append(("array untouched", a, lambda o: h(o)))
        return a

    def masked(self, a):
        self.items.append(
            ("array untouched", a,
             lambda o: h(o.data) + h(np.ma.getmaskarray(o))))
        return a

    def hdu(self, u):
        self.items.append(
            ("HDU untouched", u, lambda o: h(o.data) + o.header.tostring()))
        return u

    def hdulist(self, hl):
        self.items.append(
            ("HDU untouched", hl,
             lambda o: str(len(o)) + "".join(
                 h(u.data) + u.header.tostring() for u in o)))
        return hl

    def file(self, p):
        self.items.append(
            ("file untouched", p,
             lambda o: hashlib.sha256(open(o, "rb").read()).hexdigest()
             + str(os.stat(o).st_mtime_ns)))
        return p

    def listing(self, d):
        self.items.append(("directory untouched", d,
                           lambda o: str(sorted(os.listdir(o)))))

    def lst(self, seq):
        self.items.append(("list untouched", seq,
                           lambda o: str([id(x) for x in o])))
        return seq

    def image(self, s):
        self.items.append(
            ("image data untouched", s,
             lambda o: h(o.data.data) + h(np.asarray(o.mask)) + str(
                 (o.var, o.gain, o.attached_to, dict(o.header)))
             + h(o.background) + h(o.interped) + h(o.interped_hat)
             + h(o.bkg_sub_img.data) + h(o.stamps_pos)
             + h([np.sort(o.best_sources[f]) for f in ("x", "y", "flux")])
             + h([o.db.load(k)[0] for k in range(o.n_sources)])))
        return s

    def start(self):
        self.before = [f(o) for _, o, f in self.items]

    def finish(self, **kw):
        for (label, o, f), b in zip(self.items, self.before):
            self.mon.event("fingerprints compared")
            self.mon.check(label, f(o) == b, **kw)


def run(params, mon):
    from properimage import operations as op, simtools, utils
    from properimage.single_image import SingleImage, SingleImageGaussPSF

    rng = gen.rng_of(params)
    i = params["i"]
    kind = OPS[i % len(OPS)]
    protect = bool(rng.random() < 0.5)
    scratch = tempfile.mkdtemp()
    shape = (140, 150) if rng.random() < 0.5 else (151, 133)
    pos = gen.positions(rng, shape, 22, 17.0)
    flux = gen.fluxes(rng, len(pos))
    w = Watch(mon)
    forms = []
    done = []

    def pixels(k, hurt=True):
        a = gen.stars(shape, pos, flux * (1 + 0.1 * k), 1.7 + 0.1 * k)
        a += 100 + rng.normal(0, 5, shape)
        if hurt and rng.random() < 0.5:
            a = gen.damage(rng, a)
        if rng.random() < 0.5:
            a = a.astype("f4")
        return a

    def give(k, only=None, hurt=True):
        a = pixels(k, hurt)
        f = only or ["array", "primary", "hdulist", "path", "masked"][
            rng.integers(5)]
        forms.append(f)
        if f == "array":
            return w.array(a, protect)
        if f == "masked":
            return w.masked(np.ma.MaskedArray(a))
        if f == "primary":
            return w.hdu(fits.PrimaryHDU(a))
        if f == "hdulist":
            return w.hdulist(fits.HDUList(
                [fits.PrimaryHDU(a),
                 fits.ImageHDU((rng.random(shape) < 0.002).astype("u1") * 20)]
            ))
        p = os.path.join(scratch, f"im{k}.fits")
        fits.PrimaryHDU(a).writeto(p)
        return w.file(p)

    def user_mask():
        m = np.zeros(shape, bool)
        m[20:24, 30:36] = True
        return w.array(m, protect)

    if kind in ("construct", "measure"):
        src = give(0)
        m = user_mask() if rng.random() < 0.5 else None
        w.listing(scratch)
        w.start()
        crop = [[1, 2], [0, 3]] if rng.random() < 0.5 else ((0, 0), (0, 0))
        img = SingleImage(src, mask=m, gain=1.5, crop=crop,
                          borders=bool(rng.random() < 0.3))
        if kind == "measure":
            w2 = Watch(mon)
            w2.image(img)
            w2.start()
            steps = [lambda: img.interped, lambda: img.s_component,
                     lambda: img.get_variable_psf(0.05),
                     lambda: img.normal_image, lambda: img.background,
                     lambda: img.psf_hat_sqnorm(), lambda: img.p_sqnorm(),
                     lambda: img.cov_matrix, lambda: img.bkg_sub_img,
                     lambda: img.interped_hat, lambda: repr(img)]
            for k in rng.permutation(len(steps)):
                steps[k]()
            inter = h(img.interped)
            img.get_variable_psf(0.2)
            img.s_component
            mon.check("image data untouched", h(img.interped) == inter)
            w2.finish(op=kind)
        img._clean()
    elif kind.startswith("subtract"):
        if kind == "subtract-si":
            cls = [SingleImage, SingleImageGaussPSF][rng.integers(2)]
            a, b = cls(pixels(0)), cls(pixels(1))
            fp = cls is SingleImageGaussPSF
            w.image(a), w.image(b)
            forms.append(cls.__name__)
            ia, ib = h(a.interped), h(b.interped)
        else:
            a, b = give(0), give(1)
            fp = bool(rng.random() < 0.5)
            if kind == "subtract-align":
                a = give(0, "array", hurt=False)
                b = give(1, "array", hurt=False)
                if rng.random() < 0.5:  # caller's own instances
                    cls = SingleImageGaussPSF if fp else SingleImage
                    a, b = w.image(cls(a)), w.image(cls(b))
        w.listing(scratch)
        w.start()
        op.subtract(a, b, align=kind == "subtract-align", fitted_psf=fp,
                    shift=False, beta=bool(rng.random() < 0.5))
        if kind == "subtract-si":
            mon.check("image data untouched",
                      h(a.interped) == ia and h(b.interped) == ib)
            done += [a, b]
    elif kind.startswith("coadd"):
        n = int(rng.integers(2, 5))
        if kind == "coadd-si":
            seq = [w.image(SingleImage(pixels(k))) for k in range(n)]
            inter = [h(s.interped) for s in seq]
        elif kind == "coadd-align":
            seq = [give(k, "array", hurt=False) for k in range(n)]
        else:
            seq = [give(k) for k in range(n)]
        w.lst(seq)
        w.listing(scratch)
        w.start()
        op.coadd(seq, align=kind == "coadd-align",
                 n_procs=int(rng.integers(1, 4)))
        if kind == "coadd-si":
            mon.check("image data untouched",
                      [h(s.interped) for s in seq] == inter)
            done += seq
    elif kind == "transparency":
        seq = [w.image(SingleImage(pixels(k, False))) for k in range(3)]
        w.lst(seq)
        w.start()
        utils.transparency(seq)
        utils.transparency(seq[1:], master=seq[0])
        done += seq
        forms.append("SingleImage")
    elif kind == "utils":
        x1, x2 = rng.random((20, 2)), rng.random((30, 2))
        w.array(x1, protect), w.array(x2, protect)
        s = w.array(rng.normal(0, 1, (50, 60)), protect)
        lst = w.lst([object() for _ in range(7)])
        arr = w.array(gen.stars((21, 21), [(10, 10)], [100.0], 2.0), protect)
        ma_ = w.masked(np.ma.MaskedArray(rng.random((20, 20)),
                                         mask=rng.random((20, 20)) < 0.1))
        cplx = w.array(rng.random((9, 9)) + 1j, protect)
        w.start()
        utils.crossmatch(x1, x2, max_distance=0.1)
        utils.find_S_local_maxima(s)
        utils.chunk_it(lst, 3)
        utils.fit_gaussian2d(arr)
        utils.store_img(ma_)
        utils.store_img(ma_, os.path.join(scratch, "o.fits"))
        utils.store_img(cplx)
        utils.store_img(s)
        forms.append("utils")
    elif kind == "simtools":
        m = w.array(simtools.delta_point(64), protect)
        xy = w.lst([(5, 6), (20, 30)])
        wts = w.array(np.array([3.0, 4.0]), protect)
        g = w.array(simtools.gal_sersic(32, 4), protect)
        k = w.array(simtools.Psf(11, 3), protect)
        w.start()
        simtools.image(m, 64, 1.0, 3.0, 10.0, bkg_pdf="gaussian", seed=3)
        simtools.delta_point(64, center=False, xy=xy, weights=wts)
        simtools.convol_gal_psf_fft(g, k)
        simtools.store_fits(g, 2460000.5, 1.0, 1, 20.0, path=scratch)
        forms.append("simtools")
        mon.check("list untouched", list(xy) == [(5, 6), (20, 30)])
    else:
        import matplotlib.pyplot as plt

        img = w.image(SingleImage(pixels(0, False)))
        w.start()
        kw = {}
        img.plot("imshow")
        img.plot("autopsf", cmap_kw=kw, inf_loss=0.01)
        if len(img.kl_basis) > 1:
            img.plot("autopsf_coef", cmap_kw=kw, inf_loss=0.01)
        mon.check("options untouched", kw == {}, got=kw)
        plt.close("all")
        done.append(img)
        forms.append("plot")
    w.finish(op=kind, forms=forms, protect=protect)
    for s in done:
        s._clean()
    mon.key(kind, sorted(set(forms)), protect)
    mon.sample(op=kind, forms=forms, write_protected=protect)
    shutil.rmtree(scratch, ignore_errors=True)
