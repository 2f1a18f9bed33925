"""Plots show the arrays they are asked to show."""

import os
import tempfile

import numpy as np
from scipy import ndimage

from .. import gen, sky

ID = "C30"
RULE = (
    "one case = one observed image plotted through every plotting entry point "
    "with random options; the arrays, levels and titles found on the axes are "
    "compared with the image, PSF basis and coefficient surfaces, and wrong "
    "requests must be refused; key = entry point|components|options"
)
REQUIRED = ["image shown is the image", "basis shown is the basis",
            "coefficients shown are the coefficients",
            "wrong plot name is refused", "too few axes are refused",
            "no coefficients is said", "score image shown",
            "enough axes for every component", "fitted PSFs plotted"]


def cases(tier, seed):
    n = 64 if tier == "quick" else 480
    return [{"seed": seed, "i": i} for i in range(n)]


def _shown(ax):
    return np.ma.filled(np.ma.asarray(ax.images[0].get_array(), ), np.nan) \
        if ax.images else None


def _clip(a):
    from astropy.stats import sigma_clipped_stats

    return sigma_clipped_stats(a)


def run(params, mon):
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    from properimage import plot as pl
    from properimage.single_image import SingleImage, SingleImageGaussPSF

    rng = gen.rng_of(params)
    if params["i"] % 4 == 3:
        return _functions(rng, mon, plt, pl)
    var = bool(rng.random() < 0.7)
    shape = gen.shape_of(rng, small=True)
    if var:
        im, pos, flux = gen.variable_field(rng, shape, n=55)
    else:
        im, pos, flux = gen.field(rng, shape)
    hurt = bool(rng.random() < 0.4)
    if hurt:
        im = gen.damage(rng, im)
    st = [(13, 13), (11, 15), (15, 12)][rng.integers(3)]
    fit = params["i"] % 8 == 6
    img = (SingleImageGaussPSF if fit else SingleImage)(im, stamp_shape=st)
    #  as many components as wanted, when some information loss gives them
    want = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 2, 3][params["i"] % 13]
    for loss in np.geomspace(0.6, 2e-3, 40):
        loss = float(loss)
        a, basis = sky.psf_of(img, loss)
        if len(basis) >= want or fit:
            break
    n = len(basis)
    mon.event("images plotted")
    mon.event("fitted PSFs plotted", fit)
    plt.close("all")

    # -- the image
    fig, ax = plt.subplots()
    kw = {} if rng.random() < 0.5 else {"origin": "upper", "vmax": 300.0}
    got = img.plot.imshow(ax=ax, **kw) if rng.random() < 0.5 else \
        img.plot("imshow", ax=ax, **kw)
    mon.check("the axes given are the axes used", got is ax)
    bad = np.asarray(img.mask)
    s = np.ma.asarray(ax.images[0].get_array())
    mon.equal("image shown is the image", s.data[~bad], img.data.data[~bad])
    mon.equal("masked pixels are not shown", np.ma.getmaskarray(s), bad)
    mon.check("options of the caller win", ax.images[0].origin
              == kw.get("origin", "lower"))
    mon.check("title tells the size", str(img.data.shape) in ax.get_title())
    plt.close("all")
    got = img.plot()
    mon.equal("image shown is the image", np.ma.asarray(
        got.images[0].get_array()).data[~bad], img.data.data[~bad])
    plt.close("all")

    # -- the basis
    mine = rng.random() < 0.5
    if mine:
        extra = int(rng.integers(0, 3))
        if n + extra > 3 and rng.random() < 0.7:  # a panel, either way round
            fig, axs = plt.subplots(2, (n + extra + 1) // 2)
            axs = axs.T if rng.random() < 0.6 else axs
        else:
            fig, axs = plt.subplots(1, n + extra,
                                    squeeze=bool(rng.integers(2)))
    else:
        axs = None
    iso = bool(rng.random() < 0.5)
    ckw = {"shrink": 0.5} if rng.random() < 0.5 else {}
    ikw = {"alpha": 0.25} if rng.random() < 0.5 else {}
    c0, i0 = dict(ckw), dict(ikw)
    opts = [{}, {"cmap": "gray"}, {"cmap": "hot", "origin": "lower",
                                   "interpolation": "nearest"}][
        rng.integers(3)]
    o0 = dict(opts)
    if rng.random() < 0.6 and not fit:  # asked for another loss before
        img.get_variable_psf(float(rng.choice([0.7, 0.2, 1e-3])))
    got = img.plot.autopsf(axs=axs, iso=iso, inf_loss=loss, cmap_kw=ckw,
                           iso_kw=ikw, **opts)
    mon.check("options are left alone", opts == o0)
    #  one colour bar to each picture
    fig = np.ravel(got)[0].get_figure()
    bars = [x for x in fig.axes if x.get_label() == "<colorbar>"]
    mon.check("one colour bar per component", len(bars) == n, n=n,
              bars=len(bars))
    mon.check("options are left alone", ckw == c0 and ikw == i0)
    flat = np.ravel(got)
    mon.check("enough axes for every component", len(flat) >= n, n=n,
              axes=len(flat))
    for k, (b, ax) in enumerate(zip(basis, flat)):
        ok = bool(ax.images)
        #  the decomposition may be done anew: equal up to the last bits
        shown = np.asarray(ax.images[0].get_array()) if ok else np.zeros(0)
        mon.check("basis shown is the basis", shown.shape == b.shape
                  and np.abs(shown - b).max() <= 1e-9 * np.abs(b).max(),
                  k=k, n=n)
        mon.check("title tells the sum", f"{np.sum(b):4.3e}" in
                  ax.get_title(), title=ax.get_title())
        mon.check("contours when asked", bool(ax.collections) == iso,
                  iso=iso)
        mon.check("options of the caller win", ok and (
            "cmap" not in opts
            or ax.images[0].get_cmap().name == opts["cmap"])
            and ax.images[0].origin == opts.get(
                "origin", plt.rcParams["image.origin"]), opts=opts)
        for c in ax.collections if iso else []:
            mon.event("isophotes")
            for lev, path in zip(c.levels, c.get_paths()):
                v = path.vertices
                if len(v):
                    on = ndimage.map_coordinates(b, v.T[::-1], order=1,
                                                 mode="nearest")
                    mon.close("isophotes follow the component", on,
                              np.full(len(on), lev), 0,
                              1e-6 * np.ptp(b), k=k)
        if iso and ikw:
            mon.check("options of the caller win", all(
                c.get_alpha() == 0.25 for c in ax.collections))
    mon.check("nothing on spare axes", not any(
        ax.images for ax in flat[n:]))
    plt.close("all")
    if n > 1:
        fig, few = plt.subplots(1, n - 1, squeeze=False)
        mon.raises("too few axes are refused", ValueError,
                   lambda: img.plot.autopsf(axs=few, inf_loss=loss))
        mon.raises("too few axes are refused", ValueError,
                   lambda: img.plot.autopsf_coef(axs=few, inf_loss=loss))
        plt.close("all")

    # -- the coefficients
    if n == 1:
        mon.raises("no coefficients is said", pl.NoDataToPlot,
                   lambda: img.plot.autopsf_coef(inf_loss=loss))
        mon.check("no coefficients is a value error",
                  issubclass(pl.NoDataToPlot, ValueError))
    else:
        kw = [{}, {"vmin": -1.0}, {"vmax": 2.5}, {"vmin": -3.0, "vmax": 4.0}][
            rng.integers(4)]
        k0 = dict(kw)
        ckw, axs = {}, None
        if rng.random() < 0.5:
            fig, axs = plt.subplots(2, (n + 1) // 2 + int(rng.integers(2)))
            axs = axs.T if rng.random() < 0.6 else axs
        if rng.random() < 0.6 and not fit:  # asked for another loss before
            img.get_variable_psf(float(rng.choice([0.7, 0.2, 1e-3])))
        got = img.plot.autopsf_coef(axs=axs, inf_loss=loss, cmap_kw=ckw, **kw)
        mon.check("options are left alone", ckw == {})
        mon.check("options are left alone", kw == k0)
        flat = np.ravel(got)
        mon.check("enough axes for every component", len(flat) >= n, n=n,
                  axes=len(flat))
        fig = flat[0].get_figure()
        bars = [x for x in fig.axes if x.get_label() == "<colorbar>"]
        mon.check("one colour bar per component", len(bars) == n, n=n,
                  bars=len(bars))
        x, y = img.get_afield_domain()
        for k, (f, ax) in enumerate(zip(a, flat)):
            mon.close("coefficients shown are the coefficients",
                      np.asarray(ax.images[0].get_array()), f(x, y), 1e-9,
                      k=k)
            lim = ax.images[0].get_clim()
            _, med, sd = _clip(f(x, y))
            mon.close("coefficients are shown around their median", lim,
                      [kw.get("vmin", med - 2 * sd),
                       kw.get("vmax", med + 2 * sd)], 1e-9, k=k)
            mon.check("title tells the sum",
                      f"{np.sqrt(np.sum(f(x, y)**2)):4.3e}"
                      in ax.get_title(), title=ax.get_title())
    plt.close("all")

    # -- stamps of the shape asked for, while the stars are not measured
    if params["i"] % 3 == 0:
        new = [type(img)(im) for _ in range(2)]
        sh = [(11, 15), (17, 12), (9, 9)][rng.integers(3)]
        loss = float(rng.choice([0.02, 0.2]))
        if fit:
            want = new[0].get_variable_psf(shape=sh)
        else:
            want = new[0].get_variable_psf(loss, sh)
        coef = len(want[0]) > 1 and rng.random() < 0.5
        got = np.ravel(new[1].plot("autopsf_coef" if coef else "autopsf",
                                   inf_loss=loss, shape=sh))
        x, y = img.get_afield_domain()
        for k, f in enumerate(want[0]):
            w = f(x, y) if coef else want[1][k]
            s = np.asarray(got[k].images[0].get_array())
            mon.check("stamp shape asked of the plot", s.shape == w.shape
                      and np.abs(s - w).max() <= 1e-6 * np.abs(w).max(),
                      shape=sh, coef=coef, fit=fit)
        plt.close("all")
        for x in new:
            x._clean()

    # -- wrong requests
    for name in ("nope", "_x", "__class__", "si", "DEFAULT_PLOT", "Imshow"):
        mon.raises("wrong plot name is refused", ValueError,
                   lambda: img.plot(name), which=name)
    plt.close("all")
    mon.key(n, st, iso, mine, hurt, fit)
    mon.sample(components=n, axes=int(len(flat)), iso=iso)
    img._clean()


def _closed(plt, call, want):
    ax = call()
    shown = [i.get_array() for i in ax.images]
    good = not plt.get_fignums() and len(shown) == 1 and np.allclose(
        np.asarray(shown[0]), want, rtol=1e-5, atol=1e-6)
    plt.close("all")
    return good


def _functions(rng, mon, plt, pl):
    shape = tuple(int(v) for v in rng.integers(20, 90, 2))
    S = rng.normal(rng.uniform(-3, 3), rng.uniform(0.5, 9), shape)
    msk = rng.random(shape) < 0.05
    arg = np.ma.MaskedArray(S.copy(), mask=msk, fill_value=0.0) \
        if rng.random() < 0.5 else S.copy()
    want = arg.filled() if np.ma.isMaskedArray(arg) else arg
    tmp = tempfile.mkdtemp(dir=os.environ.get("TMPDIR"))
    p = os.path.join(tmp, "s.png")
    plt.close("all")
    from astropy.stats import sigma_clipped_stats

    ax = pl.plot_S(arg, path=p, nbook=True)
    mon.check("axes of the image are returned", len(ax.images) == 1
              and np.shape(ax.images[0].get_array()) == shape, of="S")
    _, med, sd = sigma_clipped_stats(want)
    #  the colour bar may be the current axes: find the image among the figure
    img = [i for x in plt.gcf().axes for i in x.images if
           np.shape(i.get_array()) == shape]
    mon.check("score image shown", len(img) == 1 and np.array_equal(
        np.asarray(img[0].get_array()), want))
    if img:
        mon.close("score image is shown around its noise",
                  img[0].get_clim(), [med - 4 * sd, med + 4 * sd], 1e-9)
    mon.check("plot is written", os.path.getsize(p) > 500
              and os.listdir(tmp) == ["s.png"])
    plt.close("all")
    mon.check("closed plots return what they showed", _closed(
        plt, lambda: pl.plot_S(arg, path=p), want), of="S")
    R = np.abs(S) + 1.0
    z = R + 1j * rng.normal(0, 1, shape) if rng.random() < 0.6 else R
    if z is not R and rng.random() < 0.5:
        z = z.astype("c8")
    if z is R and rng.random() < 0.5:
        z = np.ma.MaskedArray(z, mask=msk, fill_value=2.5)
        R = np.where(msk, 2.5, R)
    p = os.path.join(tmp, "r.png")
    ax = pl.plot_R(z, path=p, nbook=True)
    mon.check("axes of the image are returned", len(ax.images) == 1
              and np.shape(ax.images[0].get_array()) == shape, of="R")
    img = [i for x in plt.gcf().axes for i in x.images if
           np.shape(i.get_array()) == shape]
    mon.check("coadd shown on a logarithmic scale", len(img) == 1 and
              np.allclose(np.asarray(img[0].get_array()), np.log10(R),
                          rtol=1e-5, atol=1e-6), dtype=str(z.dtype),
              masked=np.ma.isMaskedArray(z))
    mon.check("plot is written", os.path.getsize(p) > 500)
    plt.close("all")
    mon.check("closed plots return what they showed", _closed(
        plt, lambda: pl.plot_R(z, path=p), np.log10(R)), of="R")
    for n in range(1, 260):
        q = pl.primes(n)
        mon.check("factor of the number of components", q >= 1 and n % q == 0,
                  n=n, got=q)
        fac = [d for d in range(2, n + 1) if n % d == 0 and all(
            d % e for e in range(2, d))]
        if n > 1 and len(fac) < 4:
            mon.check("largest prime factor", q == max(fac), n=n, got=q)
    mon.event("functions plotted", 2)
    mon.key("functions", shape)
