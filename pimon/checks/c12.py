"""The measured PSF is the PSF of the sky."""

import numpy as np

from .. import gen, ref

ID = "C12"
RULE = (
    "one case = one simulated sky with a known (round or elongated, rotated) "
    "gaussian PSF; the empirical PSF, the fitted gaussian PSF and the gaussian "
    "fitter are compared with the truth; key = axis ratio class|angle class|"
    "estimator"
)
REQUIRED = ["local PSF profile", "empirical PSF profile", "fitted widths", "gaussian fit of a stamp"]


def cases(tier, seed):
    n = 64 if tier == "quick" else 800
    return [{"seed": seed, "i": i, "varies": True}
            for i in range(16 if tier == "quick" else 96)] + [
        {"seed": seed, "i": i} for i in range(n)]


def varying(params, rng, mon, SingleImage):
    """A PSF that widens along one axis of the frame is followed."""
    kind = ("plain", "smooth", "crowded", "crowded smooth")[
        params["i"] // 2 % 4]
    flip = params["i"] % 2
    extra = 1.0 / 12
    if "smooth" in kind:  # the smoothing of the components, sigma 1.5
        extra += 2.25
    if "crowded" in kind:
        shape = (640, 650)
        y, x = np.mgrid[16:625:20.5, 16:635:20.5]
        pos = np.c_[y.ravel(), x.ravel()] + rng.uniform(-2, 2, (y.size, 2))
        im = 100 + rng.normal(0, 3, shape)
        for (py, px), f in zip(pos, rng.uniform(25e3, 4e4, len(pos))):
            a, b = max(int(py) - 12, 0), max(int(px) - 12, 0)
            im[a:a + 25, b:b + 25] += gen.stars(
                im[a:a + 25, b:b + 25].shape, np.array([[py - a, px - b]]),
                np.array([f]), 1.5 + 1.1 * px / shape[1], 1.5)
    else:
        shape = (400, 410)
        im, pos, flux = gen.variable_field(rng, shape, n=260, noise=3.0,
                                           lo=15000.0, hi=40000.0)
    if flip:
        im = im.T.copy()
    with SingleImage(im.astype("f4"), stamp_shape=(17, 17),
                     smooth_psf="smooth" in kind) as img:
        img.get_variable_psf(inf_loss=0.003)
        mon.event("catalogues above 250 stars", img.n_sources > 250)
        mon.event("components", len(img.kl_basis))
        for v in rng.uniform(0.15, 0.85, 5) * shape[1]:
            u = float(rng.uniform(0.3, 0.7) * shape[0])
            p = img.get_psf_xy(v, u) if flip else img.get_psf_xy(u, v)
            if flip:
                p = p.T
            ny, nx = p.shape
            sx = 1.5 + 1.1 * v / shape[1]
            err = 9.0
            y, x = np.mgrid[:ny, :nx]
            for dy in np.linspace(-1, 1, 9):
                for dx in np.linspace(-1, 1, 9):
                    g = np.exp(-0.5 * (
                        (y - (ny - 1) / 2 - dy) ** 2 / (2.25 + extra)
                        + (x - (nx - 1) / 2 - dx) ** 2 / (sx**2 + extra)))
                    g /= g.sum()
                    err = min(err, np.abs(p - g).sum())
            peak = 1 / (2 * np.pi * np.sqrt((2.25 + extra)
                                            * (sx**2 + extra)))
            mon.event("local PSFs compared with the sky")
            mon.check("local PSF profile", err < 0.17, err=err, at=v,
                      kind=kind)
            mon.check("local PSF peak", abs(p.max() / peak - 1) < 0.1,
                      got=p.max(), want=peak, at=v, kind=kind)
    mon.key("varies", flip, kind)


def truth(shape, sx, sy, th):
    """Unit sum gaussian sampled like a stamp centred star."""
    cy, cx = (shape[0] - 1) / 2.0, (shape[1] - 1) / 2.0
    g = gen.stars(shape, [(cy, cx)], [1.0], sx, sy, th)
    return g / g.sum()


def ab(model):
    """(long, short) widths and angle of the long axis of a gaussian model."""
    a, b = abs(model.x_stddev.value), abs(model.y_stddev.value)
    t = model.theta.value
    if b > a:
        a, b, t = b, a, t + np.pi / 2
    return a, b, t % np.pi


def run(params, mon):
    from properimage import utils
    from properimage.single_image import SingleImage, SingleImageGaussPSF

    rng = gen.rng_of(params)
    i = params["i"]
    if params.get("varies"):
        return varying(params, rng, mon, SingleImage)
    shape = gen.SHAPES[5 + i % 3]
    s1 = rng.uniform(1.5, 2.4)
    ratio = rng.uniform(1.25, 1.6) if i % 2 else 1.0
    s2 = s1 * ratio
    th = 0.0
    if ratio > 1:  # trailed along an axis as often as anyhow
        th = float(rng.choice([0.0, np.pi / 2, -np.pi / 2, 3.0])) \
            if rng.random() < 0.35 else float(rng.uniform(-1.6, 1.6))
    im, pos, flux = gen.field(rng, shape, n=40, sx=s2, sy=s1, theta=th,
                              noise=3.0, lo=15000.0, hi=60000.0, sep=22.0)
    img = SingleImage(im.astype("f4"), stamp_shape=(17, 17))
    a, basis = img.get_variable_psf(inf_loss=0.6)
    p = basis[0] / basis[0].sum()
    mon.event("empirical PSFs")
    # centre, width and elongation by gaussian-weighted moments
    best, err = None, None
    ny, nx = p.shape
    cy, cx = (ny - 1) / 2.0, (nx - 1) / 2.0
    # the star may sit anywhere inside its central pixel: blur the truth by it
    def model(dy, dx, extra=1.0 / 12):
        y, x = np.mgrid[:ny, :nx]
        y, x = y - cy - dy, x - cx - dx
        c, s = np.cos(th), np.sin(th)
        cov = np.array([[c, -s], [s, c]]) @ np.diag([s2**2, s1**2]) @ np.array(
            [[c, s], [-s, c]]) + np.eye(2) * extra
        q = np.linalg.inv(cov)
        g = np.exp(-0.5 * (q[0, 0] * x * x + 2 * q[0, 1] * x * y
                           + q[1, 1] * y * y))
        return g / g.sum()

    for dy in np.linspace(-1, 1, 9):
        for dx in np.linspace(-1, 1, 9):
            e = np.abs(p - model(dy, dx)).sum()
            if err is None or e < err:
                best, err = (dy, dx), e
    mon.check("empirical PSF profile", err < 0.13, err=err, widths=[s1, s2],
              angle=th)
    mon.check("empirical PSF is centred", max(map(abs, best)) <= 0.75,
              best=best)
    wrong = np.abs(p - model(*best)[:, ::-1]).sum()
    if ratio > 1.3 and abs(th % (np.pi / 2) - 0.78) < 0.45:
        mon.check("empirical PSF is not mirrored", err < wrong, err=err,
                  wrong=wrong)
    img._clean()

    with SingleImageGaussPSF(im.astype("f4"), stamp_shape=(17, 17)) as g:
        none, (render, m) = g.get_variable_psf()
        mon.event("fitted PSFs")
        mon.check("fitted PSF is constant", none == [None])
        la, sb, t = ab(m)
        mon.check("fitted widths", abs(la / np.hypot(s2, 0.15) - 1) < 0.07
                  and abs(sb / np.hypot(s1, 0.15) - 1) < 0.07,
                  got=[la, sb], want=[s2, s1])
        if ratio > 1:
            d = abs((t - th + np.pi / 2) % np.pi - np.pi / 2)
            mon.check("fitted angle", d < 0.12, got=t, want=th)
        mon.check("fitted model peaks at one", abs(
            m.amplitude.value - 1) < 1e-12)
        mon.check("rendered model has unit sum",
                  abs(render.sum() - 1) < 1e-9, got=render.sum())
        mon.check("rendered model is centred on its peak",
                  np.unravel_index(render.argmax(), render.shape)
                  == (render.shape[0] // 2, render.shape[1] // 2))
        ry, rx = render.shape
        q = gen.stars(render.shape, [(ry // 2, rx // 2)], [1.0], s2, s1, th)
        mon.check("rendered model is the PSF of the sky", np.abs(
            render / render.sum() - q / q.sum()).sum() < 0.12,
            err=np.abs(render / render.sum() - q / q.sum()).sum(), angle=th)
        # independent fits: every width within the spread of the sample
        n = g.n_sources
        w = []
        for k in range(n):
            f = utils.fit_gaussian2d(g.db.load(k)[0])
            w.append(sorted([abs(f[0].x_stddev.value),
                             abs(f[0].y_stddev.value)]))
        w = np.median(w, axis=0)
        mon.check("fitted PSF is typical of the stars",
                  abs(la / w[1] - 1) < 0.05 and abs(sb / w[0] - 1) < 0.05,
                  got=[la, sb], stars=w)

    # the fitter on clean stamps
    for _ in range(4):
        ny, nx = int(rng.integers(17, 30)), int(rng.integers(17, 30))
        a1 = rng.uniform(1.3, 2.8)
        a2 = a1 * rng.uniform(1.2, 1.7)
        t0 = float(rng.choice([0.0, np.pi / 2])) if rng.random() < 0.3 \
            else rng.uniform(-1.6, 1.6)
        y0, x0 = ny / 2 + rng.uniform(-1, 1), nx / 2 + rng.uniform(-1, 1)
        fl, bg = rng.uniform(0.5, 500), rng.uniform(-3, 30)
        st = gen.stars((ny, nx), [(y0, x0)], [fl], a2, a1, t0) + bg
        f = utils.fit_gaussian2d(st)
        mon.event("stamps fitted")
        la, sb, t = ab(f[0])
        mon.check(
            "gaussian fit of a stamp",
            abs(la / a2 - 1) < 0.02 and abs(sb / a1 - 1) < 0.02
            and abs(f[0].x_mean.value - x0) < 0.05
            and abs(f[0].y_mean.value - y0) < 0.05
            and abs((t - t0 + np.pi / 2) % np.pi - np.pi / 2) < 0.05
            and abs(f[1].amplitude.value - bg) < 0.02 * fl,
            got=[la, sb, t, f[0].x_mean.value, f[0].y_mean.value,
                 f[1].amplitude.value], want=[a2, a1, t0, x0, y0, bg])
        mon.close("the fit reproduces the stamp",
                  f(*np.mgrid[:ny, :nx][::-1]), st, 0.01)
    mon.key(round(ratio, 1), round(th, 1), shape[0] % 2)
    mon.sample(widths=[s1, s2], angle=th, profile_error=err,
               fitted=[la, sb])
