"""Stars used to measure the PSF, and their stamps."""

import numpy as np

from .. import gen, ref

ID = "C08"
RULE = (
    "one case = one field (density, S/N, crowding, edge stars, stamp shape, "
    "minimum sources, careful pick and damage drawn); catalogue and stamps are "
    "compared with independent detection, selection and cut-out models; "
    "key = stamp option|strict|few stars|crowded|damage|class"
)
REQUIRED = ["catalogue model", "stamp model", "one stamp per position"]


def cases(tier, seed):
    n = 96 if tier == "quick" else 1500
    return [{"seed": seed, "i": i} for i in range(n)]


def run(params, mon):
    from properimage.single_image import SingleImage, SingleImageGaussPSF

    rng = gen.rng_of(params)
    i = params["i"]
    strict = i % 3 == 0
    few = i % 5 == 0 and not strict
    crowd = bool(rng.random() < 0.3) or (strict and rng.random() < 0.6)
    shape = [(300, 310), (280, 333)][rng.integers(2)] if strict else (
        gen.shape_of(rng))
    twins = i % 12 in (4, 7)
    if twins:
        strict = few = crowd = False
        shape = (280, 300)
    n = 60 if strict else (7 if few else None)
    sx = rng.uniform(1.4, 2.6)
    im, pos, flux = gen.field(
        rng, shape, n=n, sx=sx, sy=sx * rng.uniform(0.8, 1.25),
        theta=rng.uniform(0, 3), noise=rng.uniform(3, 9),
        margin=rng.choice([3.0, 14.0]), lo=rng.choice([900.0, 3000.0]),
        sep=15.0 if strict else (21.0 if twins else 18.0))
    if crowd:  # companions
        k = rng.integers(0, len(pos), max(3, len(pos) // 4))
        off = rng.uniform(4, 8, len(k))
        ang = rng.uniform(0, 6.28, len(k))
        im += gen.stars(shape, pos[k] + np.c_[off * np.sin(ang),
                                              off * np.cos(ang)],
                        flux[k] * rng.uniform(0.3, 0.9, len(k)), sx)
    if twins:  # hardly a star of its own
        ang, off = rng.uniform(0, 6.28, len(pos)), rng.uniform(3, 3.6, len(pos))
        off = sx * off[:, None] * np.c_[np.sin(ang), np.cos(ang)]
        im += gen.stars(shape, pos + off,
                        flux * rng.uniform(0.6, 0.95, len(pos)), sx)
    hurt = bool(rng.random() < 0.4)
    if hurt:
        im = gen.damage(rng, im)
    opts = {"strict_star_pick": strict}
    sopt = [None, (15, 15), (11, 13), (12, 12), (21, 17), (9, 9)][
        rng.integers(6)] if not strict else [None, (15, 15)][rng.integers(2)]
    if sopt is not None:
        opts["stamp_shape"] = sopt
    min_s = None
    if rng.random() < 0.4:
        min_s = int(rng.choice([1, 5, 20, 60, 200]))
        opts["min_sources"] = min_s
    cls = SingleImageGaussPSF if rng.random() < 0.25 else SingleImage
    img = cls(im.astype("f4"), **opts)

    m = np.asarray(img.mask)
    dets = ref.detections(img.bkg_sub_img.data, m, img.var,
                          20 if min_s is None else min_s)
    want = ref.select(dets)
    cat = img.best_sources.copy()
    mon.event("detections", len(dets))
    mon.event("stars selected", len(want))
    mon.event("many detections, few good stars",
              len(dets) >= 20 and len(want) == len(dets))
    mon.check("minimum sources reported",
              img.min_sources == (20 if min_s is None else min_s))
    same = mon.check("catalogue model", len(cat) == len(want), got=len(cat),
                     want=len(want))
    if same:
        for f in ("x", "y", "flux", "npix", "flag"):
            mon.close("catalogue model", cat[f], want[f], 1e-6, field=f)
        mon.check("no star is masked",
                  not m[np.round(cat["y"]).astype(int).clip(0, shape[0] - 1),
                        np.round(cat["x"]).astype(int).clip(0, shape[1] - 1)
                        ].any() or hurt)
    shape0 = img.stamp_shape
    if sopt is None:
        mon.check("automatic stamp size", tuple(shape0) == ref.auto_stamp(
            want["npix"]), got=shape0, want=ref.auto_stamp(want["npix"]))
    else:
        mon.check("requested stamp size", tuple(shape0) == tuple(sopt))
    # measured stars: the caller's own pick, if there is one
    every = want
    own = bool(same and len(want) > 8 and rng.random() < 0.3)
    if own:
        pick = rng.permutation(len(want))[: rng.integers(6, len(want))]
        img.update_sources(cat[pick])
        want = want[pick]
        mon.event("picks of the caller")
    n_src = img.n_sources
    spos = img.stamps_pos
    inter = img.interped
    mon.check("one stamp per position", n_src == len(spos), n=n_src,
              pos=len(spos))
    mon.check("stamps are padded by six pixels",
              tuple(img.stamp_shape) == (shape0[0] + 6, shape0[1] + 6),
              got=img.stamp_shape, asked=shape0)
    yx = np.c_[want["y"], want["x"]]
    models = [ref.stamp(inter, shape0, p, img.var) for p in yx]
    really_strict = strict and len(want) > 20
    keep = np.ones(len(want), bool)
    if really_strict:
        keep = np.array([not ref.strict_reject(s) for s in models])
        mon.event("careless stars refused", (~keep).sum())
    ok = mon.check("stars kept model", len(spos) == keep.sum(),
                   got=len(spos), want=int(keep.sum()), n=len(want))
    for k in range(n_src):
        s = img.db.load(k)[0]
        mon.event("stamps inspected")
        mon.check("stamp has the stamp shape",
                  s.shape == tuple(img.stamp_shape), got=s.shape)
        mon.check("stamp is finite and has unit sum",
                  np.isfinite(s).all() and abs(s.sum() - 1) < 1e-6,
                  sum=float(s.sum()))
        if ok:
            mon.close("stamp model", s, models[np.flatnonzero(keep)[k]], 1e-6,
                      k=k)
    if ok:
        mon.close("positions are row, column of the stars", spos,
                  yx[keep], 1e-6)
    final = img.best_sources
    if keep.sum() >= 15:
        mon.check("catalogue and stamps stay aligned",
                  len(final) == len(spos) and np.allclose(
                      np.c_[final["y"], final["x"]], spos))
    else:
        mon.check("few stars: catalogue kept", len(final) == len(want))
    # every bright isolated star of the truth is detected
    lone = [j for j, p in enumerate(pos)
            if flux[j] / (6.3 * sx * sx) > 20 * img.var and 15 < p[0] < shape[0] - 15
            and 15 < p[1] < shape[1] - 15
            and not m[int(p[0]) - 6 : int(p[0]) + 7,
                      int(p[1]) - 6 : int(p[1]) + 7].any()]
    if lone and not crowd and not twins:
        d = np.hypot(dets["y"][None] - pos[lone][:, :1],
                     dets["x"][None] - pos[lone][:, 1:])
        mon.check("bright isolated stars are detected",
                  (d.min(axis=1) < 1.0).mean() > 0.9)
    # refreshing the catalogue gives the same catalogue
    img.update_sources()
    if not really_strict:
        mon.check("refreshed catalogue", len(img.best_sources) == len(every)
                  and np.allclose(img.best_sources["x"], every["x"]))
    mon.key(sopt, really_strict, few, crowd, hurt, cls.__name__, min_s, own)
    mon.sample(shape=list(shape), detections=len(dets), selected=len(want),
               stamps=n_src, stamp_shape=list(img.stamp_shape),
               strict=really_strict)
    img._clean()
