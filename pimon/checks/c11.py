"""The PSF handed out at a position of the image."""

import numpy as np

from .. import gen, ref, sky

ID = "C11"
RULE = (
    "one case = one field with a (mostly) position dependent PSF; the PSF "
    "normalisation image and the PSF at many positions, including the closest "
    "ones to the edges that fit, are compared with the model built from the "
    "decomposition; key = components|stamp parity|squareness|position class|PSF kind"
)
REQUIRED = ["PSF at a position model", "normalisation image model",
            "PSF has unit sum", "fitted PSFs"]


def cases(tier, seed):
    n = 48 if tier == "quick" else 600
    return [{"seed": seed, "i": i} for i in range(n)]


def run(params, mon):
    from properimage.single_image import SingleImage, SingleImageGaussPSF

    rng = gen.rng_of(params)
    i = params["i"]
    shape = gen.shape_of(rng)
    if i % 4:
        im, pos, flux = gen.variable_field(rng, shape, n=80, noise=3.0)
    else:
        im, pos, flux = gen.field(rng, shape, noise=4.0)
    kw = {}
    st = [None, (13, 13), (11, 15), (14, 14), (12, 17)][rng.integers(5)]
    if st is not None:
        kw["stamp_shape"] = st
    fit = i % 6 == 5
    img = (SingleImageGaussPSF if fit else SingleImage)(im.astype("f4"), **kw)
    loss = float(rng.choice([0.3, 0.1, 0.03]))
    a, basis = sky.psf_of(img, loss)
    mon.event("fitted PSFs", fit)
    ny, nx = basis[0].shape
    nrm = img.normal_image
    mon.event("normalisation images")
    want_n = ref.normal_image(a, basis, shape)
    if a[0] is None:
        # float32 transform precision
        mon.close("normalisation image model", nrm, want_n, 1e-6)
        c = nrm[ny:-ny, nx:-nx]
        mon.close("constant PSF normalisation is one inside", c,
                  np.ones_like(c), 1e-5)
    else:
        mon.close("normalisation image model", nrm, want_n, 2e-5)

    where = []
    for _ in range(2 if fit else 12):
        where.append((rng.uniform(ny, shape[0] - ny),
                      rng.uniform(nx, shape[1] - nx), "inside"))
    where += [(ny // 2, nx // 2, "corner"),
              (shape[0] - (ny - ny // 2), shape[1] - (nx - nx // 2), "corner"),
              (ny // 2, shape[1] - (nx - nx // 2), "corner"),
              (int(shape[0] // 2), nx // 2, "edge")][:1 if fit else 4]
    #  nearer to the edge than half a stamp
    for _ in range(1 if fit else 6):
        at = [rng.uniform(0, s - 1) for s in shape]
        k = rng.integers(2)
        at[k] = rng.choice([0, 1, 3, shape[k] - 4, shape[k] - 1])
        where.append((*at, "over the edge"))
    for x, y, cls in where:
        if rng.random() < 0.5:
            x, y = int(round(x)), int(round(y))
        p = img.get_psf_xy(x, y)
        mon.event("PSFs handed out")
        mon.check("PSF has the stamp shape", p.shape == (ny, nx), got=p.shape)
        mon.check("PSF has unit sum", abs(p.sum() - 1) < 1e-6,
                  got=float(p.sum()), at=[x, y])
        if a[0] is None:
            want = basis[0]
        else:
            r, c = int(np.round(x)) - ny // 2, int(np.round(y)) - nx // 2
            #  outside of the image the values of its edge go on
            g = [np.clip(v, 0, s - 1) for v, s in zip(
                np.mgrid[r : r + ny, c : c + nx], shape)]
            n = nrm[g[0], g[1]]
            want = sum(b * np.asarray(f(*g)) / n for f, b in zip(a, basis))
            want = want / want.sum()
        mon.close("PSF at a position model", p, want, 1e-6, at=[x, y])
        mon.key(len(basis), ny % 2, nx % 2, ny == nx, cls, fit)
    mon.sample(shape=list(shape), components=len(basis), stamp=[ny, nx],
               positions=len(where))
    img._clean()
