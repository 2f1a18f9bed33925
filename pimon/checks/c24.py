"""Exposures with another pointing and angle are brought to the first one."""

import numpy as np

from .. import attach, gen, ref

ID = "C24"
RULE = (
    "one case = exposures of one sky with another pointing, angle and size, "
    "subtracted or coadded with alignment; results live on the grid of the "
    "reference, static stars cancel (or add up) at their place, new sources "
    "come out where they are, pixels no exposure covers are masked, and the "
    "results equal the ones of exposures registered beforehand; key = "
    "operation|PSF model|angle bin|offset bin|sizes|damage"
)
REQUIRED = ["aligned results are on the grid of the reference",
            "static stars cancel after alignment",
            "stars add up at the place of the reference",
            "pixels not covered are masked", "known bad pixels stay masked",
            "transient found after alignment",
            "aligning beforehand gives the same"]


def cases(tier, seed):
    n = 72 if tier == "quick" else 720
    return [{"seed": seed, "i": i, "op": ["sub", "add", "sub", "same"][i % 4],
             "fit": bool((i // 4) % 2)} for i in range(n)]


class View:
    """Pixel coordinates of an exposure turned about its centre and moved."""

    def __init__(self, ref_shape, shape, angle, move):
        self.c0 = (np.array(ref_shape) - 1) / 2
        self.c1 = (np.array(shape) - 1) / 2
        t = np.deg2rad(angle)
        self.rot = np.array([[np.cos(t), -np.sin(t)], [np.sin(t), np.cos(t)]])
        self.move = np.asarray(move, float)
        self.shape = shape

    def __call__(self, p):
        return (np.asarray(p, float) - self.c0) @ self.rot.T + self.c1 + \
            self.move

    def covers(self, ref_shape, margin):
        y, x = np.mgrid[: ref_shape[0], : ref_shape[1]]
        q = self(np.stack([y.ravel(), x.ravel()], axis=1))
        inside = ((q > -0.5 + margin) & (q < np.array(self.shape) - 0.5
                                         - margin)).all(axis=1)
        return inside.reshape(ref_shape)


def _scene(rng, shape, views, transient=False, noise=5.0, lo=5000):
    """Exposures of the same stars: the first is the reference."""
    big = np.array(shape) + 60
    #  neighbours inside a stamp would move the centre of the measured PSF
    pos = gen.positions(rng, tuple(big), int(big[0] * big[1] / 1300), 26.0,
                        2.0) - 30
    flux = gen.fluxes(rng, len(pos), lo, 30000)
    out, scale = [], []
    spot = None
    if transient:
        for _ in range(500):
            s = rng.uniform([45, 45], [shape[0] - 45, shape[1] - 45])
            if np.hypot(*(pos - s).T).min() > 11:
                spot = s
                break
    for j, v in enumerate(views):
        sg = rng.uniform(1.7, 2.2)
        k = float(np.exp(rng.uniform(-0.3, 0.3))) if j else 1.0
        q = v(pos)
        im = gen.stars(v.shape, q, flux * k, sg)
        if j and spot is not None:
            im += gen.stars(v.shape, v([spot]), [15000.0 * k], sg)
        im += rng.uniform(80, 200) + rng.normal(0, noise, v.shape)
        out.append(im)
        scale.append(k)
    return out, pos, flux, spot, scale


def run(params, mon):
    from properimage import operations as op
    from properimage.single_image import SingleImage, SingleImageGaussPSF

    rng = gen.rng_of(params)
    fit = params["fit"]
    shape = [(180, 200), (210, 190), (200, 200)][rng.integers(3)]
    k = 2 if params["op"] != "add" else int(rng.integers(2, 5))
    views = [View(shape, shape, 0, (0, 0))]
    for _ in range(k - 1):
        ang = float(rng.choice([0, 180, 90, rng.uniform(-180, 180),
                                rng.uniform(-4, 4)]))
        other = shape
        if params["op"] == "sub" and rng.random() < 0.3:
            other = tuple(int(s + d) for s, d in
                          zip(shape, rng.integers(-12, 25, 2)))
        views.append(View(shape, other, ang, rng.uniform(-14, 14, 2)))
    ims, pos, flux, spot, scale = _scene(rng, shape, views,
                                         params["op"] == "sub")
    hurt = bool(rng.random() < 0.5)
    bad = [np.zeros(v.shape, bool) for v in views]
    if hurt:
        for im, b in zip(ims, bad):
            for _ in range(3):
                y, x = rng.integers(20, 150, 2)
                b[y:y + 4, x:x + 5] = True
                if spot is not None and np.hypot(y - spot[0],
                                                 x - spot[1]) < 25:
                    b[y:y + 4, x:x + 5] = False
            im[b] = 66000.0
    # a source to be found must be clear of what is masked
    cov = np.logical_and.reduce([v.covers(shape, 3) for v in views])
    free = np.logical_and.reduce([v.covers(shape, -3) for v in views])
    attach.RANSAC_SEED[0] = int(rng.integers(1 << 30))
    if params["op"] == "add":
        _add(op, SingleImage, rng, mon, params, ims, pos, views, shape, cov,
             free, bad, hurt)
        return
    cls = SingleImageGaussPSF if fit else SingleImage
    smooth = bool(params["op"] == "same" and rng.random() < 0.5)
    r, n = cls(ims[0], smooth_psf=smooth), cls(ims[1], smooth_psf=smooth)
    kw = dict(fitted_psf=fit, inf_loss=0.5, iterative=False)
    if params["op"] == "same":
        kw.update(beta=bool(rng.random() < 0.3), shift=False,
                  iterative=bool(rng.random() < 0.5), smooth_psf=smooth,
                  inf_loss=float(rng.choice([0.5, 0.25, 0.1])))
        given = (r, n) if rng.random() < 0.5 else (ims[0], ims[1])
        D, P, S, m = op.subtract(*given, align=True, **kw)
        import astroalign as aa

        reg, foot = aa.register(n.data, r.data, propagate_mask=True)
        n2 = cls(np.asarray(reg)[: shape[0], : shape[1]],
                 mask=np.asarray(foot)[: shape[0], : shape[1]],
                 smooth_psf=smooth)
        r2 = cls(ims[0], smooth_psf=smooth)
        out = op.subtract(r2, n2, align=False, **kw)
        mon.close("aligning beforehand gives the same", out[0], D, 1e-6)
        mon.close("aligning beforehand gives the same", out[1], P, 1e-6)
        mon.close("aligning beforehand gives the same", out[2], S, 1e-6)
        mon.check("aligning beforehand gives the same mask",
                  (out[3] == m).all(), n=(out[3] != m).sum())
        for x in (n2, r2):
            x._clean()
    else:
        kw.update(beta=True, shift=bool(rng.random() < 0.5))
        D, P, S, m = op.subtract(r, n, align=True, **kw)
    D = np.asarray(D).real
    mon.event("aligned subtractions")
    for x in (D, P, S, m):
        mon.check("aligned results are on the grid of the reference",
                  np.shape(x) == shape, got=np.shape(x), want=shape)
    _masks(mon, m, bad, views, shape, free)
    y, x = np.round(pos).astype(int).T
    far = (y > 18) & (y < shape[0] - 18) & (x > 18) & (x < shape[1] - 18)
    res = []
    for p, q, ok, fl in zip(y, x, far, flux):
        if not ok:
            continue
        w = np.s_[p - 3:p + 4, q - 3:q + 4]
        if m[w].any() or not cov[w].all():
            continue
        res.append(np.abs(D[w]).max() / (fl / (2 * np.pi * 3.8) / 5.0))
    if res and params["op"] == "sub":
        mon.check("static stars cancel after alignment",
                  np.median(res) < (0.12 if fit else 0.2), left=np.median(res),
                  n=len(res))
        mon.event("stars followed", len(res))
    if spot is not None:
        p, q = np.round(spot).astype(int)
        w = np.s_[p - 7:p + 8, q - 7:q + 8]
        if not m[w].any() and cov[w].all():
            pk = np.unravel_index(S[w].argmax(), (15, 15))
            mon.check("transient found after alignment",
                      np.hypot(pk[0] - 7 + p - spot[0],
                               pk[1] - 7 + q - spot[1]) < 2.5
                      and S[w].max() > 4 * np.std(S[cov & ~m]),
                      at=[pk[0] - 7 + p, pk[1] - 7 + q], want=spot)
    mon.key(params["op"], fit, round(views[1].move[0] / 7), views[1].shape,
            hurt)
    mon.sample(op=params["op"], residual=float(np.median(res)) if res else None,
               masked=int(m.sum()))
    r._clean()
    n._clean()


def _masks(mon, m, bad, views, shape, free):
    if (~free).any():
        mon.check("pixels not covered are masked", m[~free].mean() > 0.98,
                  left=(~m[~free]).sum())
        mon.event("uncovered pixels", (~free).sum())
    mon.check("known bad pixels stay masked", m[bad[0]].all(),
              left=(~m[bad[0]]).sum())
    # those of the other exposures, where they land on the reference grid
    y, x = np.mgrid[: shape[0], : shape[1]]
    p = np.stack([y.ravel(), x.ravel()], axis=1)
    for v, b in zip(views[1:], bad[1:]):
        if not b.any():
            continue
        q = np.round(v(p)).astype(int)
        ok = ((q >= 0) & (q < np.array(v.shape))).all(axis=1)
        hit = np.zeros(len(p), bool)
        hit[ok] = b[q[ok, 0], q[ok, 1]]
        hit = hit.reshape(shape)
        if hit.any():
            mon.check("known bad pixels stay masked", m[hit].mean() > 0.9,
                      left=(~m[hit]).sum(), of=hit.sum())


def _add(op, SingleImage, rng, mon, params, ims, pos, views, shape, cov, free,
         bad, hurt):
    args = [SingleImage(x) if rng.random() < 0.5 else x for x in ims]
    R, P, m = op.coadd(args, align=True, inf_loss=0.5,
                       n_procs=int(rng.integers(1, 4)))
    mon.event("aligned coadds")
    for x in (R, P, m):
        mon.check("aligned results are on the grid of the reference",
                  np.shape(x) == shape, got=np.shape(x))
    _masks(mon, m, bad, views, shape, free)
    R = np.asarray(R).real
    off, height = [], []
    sd = np.median(np.abs(R[cov] - np.median(R[cov]))) / 0.6745
    for p in pos:
        y, x = np.round(p).astype(int)
        if not (18 < y < shape[0] - 18 and 18 < x < shape[1] - 18):
            continue
        w = np.s_[y - 4:y + 5, x - 4:x + 5]
        if m[w].any() or not cov[w].all():
            continue
        s = np.clip(R[w] - 3 * sd, 0, None)
        if s.sum() <= 0:
            off.append(9.0)
            continue
        i, j = np.mgrid[-4:5, -4:5]
        off.append(np.hypot((s * i).sum() / s.sum() + y - p[0],
                            (s * j).sum() / s.sum() + x - p[1]))
        height.append(R[w].max() / sd)
    if len(off) >= 4:
        mon.check("stars add up at the place of the reference",
                  np.median(off) < 0.6, off=np.round(off, 2)[:12],
                  n=len(off))
        mon.event("stars followed", len(off))
    if rng.random() < 0.6:  # each one brought to the first on its own
        import astroalign as aa

        raw = [SingleImage(x) for x in ims]
        regs = [raw[0]]
        for s in raw[1:]:
            reg, foot = aa.register(s.data, raw[0].data, propagate_mask=True)
            regs.append(SingleImage(reg, mask=foot))
        R2, P2, m2 = op.coadd(regs, align=False, inf_loss=0.5, n_procs=1)
        mon.close("aligning beforehand gives the same", np.real(R2), R, 1e-6)
        mon.close("aligning beforehand gives the same", P2, P, 1e-6)
        mon.equal("aligning beforehand gives the same mask", m2, m)
        for s in raw + regs[1:]:
            s._clean()
    mon.key("add", len(ims), hurt, round(views[1].move[0] / 7))
    mon.sample(op="add", k=len(ims), off=float(np.median(off)) if off else 0,
               height=float(np.median(height)) if height else 0)
    for x in args:
        if isinstance(x, SingleImage):
            x._clean()
