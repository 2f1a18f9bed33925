"""Pairs and stacks of exposures of one sky, with known truth."""

import numpy as np

from . import gen


def pair(rng, shape=None, n=None, ratio=None, shift=(0.0, 0.0), noise=None,
         seeing=None, bkg=None, damage=False, transients=0, t_flux=9000.0,
         lo=4000.0, hi=30000.0, elong=False, sep=18.0):
    """dict(ref, new, pos, flux, ratio, shift, noise, transients)."""
    shape = shape or gen.SHAPES[rng.integers(len(gen.SHAPES))]
    n = n or max(18, int(shape[0] * shape[1] / 1100))
    pos = gen.positions(rng, shape, n, sep, 15.0)
    flux = gen.fluxes(rng, len(pos), lo, hi)
    ratio = ratio if ratio is not None else float(
        np.exp(rng.uniform(np.log(0.5), np.log(2.0))))
    noise = noise or (rng.uniform(3, 8), rng.uniform(3, 8))
    seeing = seeing or (rng.uniform(1.5, 2.3), rng.uniform(1.5, 2.3))
    bkg = bkg or (rng.uniform(80, 300), rng.uniform(80, 300))
    e = [(1.0, 0.0), (1.0, 0.0)]
    if elong:
        e = [(rng.uniform(0.8, 1.25), rng.uniform(0, 3)) for _ in range(2)]
    shift = np.asarray(shift, float)
    a = gen.stars(shape, pos, flux, seeing[0], seeing[0] * e[0][0], e[0][1])
    b = gen.stars(shape, pos + shift, flux * ratio, seeing[1],
                  seeing[1] * e[1][0], e[1][1])
    spots = []
    while len(spots) < transients:
        p = rng.uniform([35, 35], [shape[0] - 35, shape[1] - 35])
        if np.hypot(*(pos - p).T).min() > 11 and all(
                np.hypot(*(p - q)) > 25 for q in spots):
            spots.append(p)
    if transients:
        b += gen.stars(shape, np.array(spots),
                       np.full(len(spots), t_flux * ratio), seeing[1],
                       seeing[1] * e[1][0], e[1][1])
    a += bkg[0] + rng.normal(0, noise[0], shape)
    b += bkg[1] + rng.normal(0, noise[1], shape)
    if damage:
        a = gen.damage(rng, a)
        b = gen.damage(rng, b)
    return dict(ref=a.astype("f4"), new=b.astype("f4"), pos=pos, flux=flux,
                ratio=ratio, shift=shift, noise=noise, seeing=seeing,
                spots=np.array(spots), shape=shape, bkg=bkg,
                t_flux=t_flux)


def parts(img, fitted, inf_loss):
    """What the subtraction model needs from one observed image."""
    from . import ref

    a, psf = img.get_variable_psf(inf_loss)
    if fitted:
        m = psf[1]
        p = ref.gaussian_frame(img.data.shape, m.x_stddev.value,
                               m.y_stddev.value, m.theta.value)
    else:
        p = np.array(psf[0]) / psf[0].sum()
    return dict(img=np.array(img.interped), psf=p, rms=img.var,
                filled=np.asarray(img.data.filled(0)),
                mask=np.array(img.mask),
                cat=(np.c_[img.best_sources["x"], img.best_sources["y"]],
                     img.best_sources["flux"].copy()))


def psf_of(img, inf_loss):
    """(coefficients, components): a fitted PSF is its one rendered model."""
    a, basis = img.get_variable_psf(inf_loss)
    return a, basis[:len(a)]


def solution(calls):
    """(b, dx, dy) of the last optimisation, by the kind of unknowns."""
    name, fun, args, kw, res = calls[-1]
    x = np.atleast_1d(res.x)
    return name, x, bool(res.success)


def stack(rng, shape=None, k=None, damage=False, variable=False, n=None,
          lo=4000.0, hi=25000.0, noisy=False):
    """k exposures of one sky: dict(images, pos, flux, scale, noise, seeing)."""
    shape = shape or gen.SHAPES[rng.integers(len(gen.SHAPES))]
    k = k or int(rng.integers(2, 6))
    n = n or max(18, int(shape[0] * shape[1] / 1100))
    pos = gen.positions(rng, shape, n, 18.0, 15.0)
    flux = gen.fluxes(rng, len(pos), lo, hi)
    out, scale, noise, seeing = [], [], [], []
    for j in range(k):
        s = rng.uniform(1.5, 2.3)
        c = float(np.exp(rng.uniform(-0.5, 0.5))) if j else 1.0
        e = rng.uniform(3, 8)
        if noisy and j == k // 2:
            e *= rng.uniform(3, 8)
        sx = s + (0.6 * pos[:, 1] / shape[1] if variable else 0.0)
        im = gen.stars(shape, pos, flux * c, sx, s)
        im += rng.uniform(60, 250) + rng.normal(0, e, shape)
        if damage:
            im = gen.damage(rng, im)
        out.append(im.astype("f4"))
        scale.append(c)
        noise.append(e)
        seeing.append(s)
    return dict(images=out, pos=pos, flux=flux, scale=scale, noise=noise,
                seeing=seeing, shape=shape)


def coadd_parts(imgs, inf_loss):
    """What the coadd model needs, from observed images with their zp set."""
    from . import ref

    out = []
    for im in imgs:
        a, basis = psf_of(im, inf_loss)
        nrm = im.normal_image
        out.append(dict(
            s_hat=ref.s_hat(np.array(im.interped), a, basis, nrm, im.zp,
                            im.var),
            psf_sq=ref.psf_sq(basis, im.data.shape),
            zp=im.zp, rms=im.var, mask=np.array(im.mask),
            cat=(np.c_[im.best_sources["x"], im.best_sources["y"]],
                 im.best_sources["flux"].copy())))
    return out
