"""Relative transparencies of a set of images."""

import numpy as np

from .. import gen, ref

ID = "C14"
RULE = (
    "one case = 2-6 exposures of one sky with known flux ratios, jittered "
    "centroids, partly different stars and different seeing, in drawn order, "
    "with or without a separate master; zero points and mean magnitudes are "
    "compared with a closed form solution over independently matched "
    "catalogues and with the truth; key = images|master|class|repeat"
)
REQUIRED = ["zero point differences model", "flux ratios of the sky",
            "mean magnitudes model"]


def cases(tier, seed):
    n = 64 if tier == "quick" else 900
    out = [{"seed": seed, "i": i} for i in range(n)]
    out += [{"seed": seed, "i": i, "disjoint": True} for i in range(4)]
    return out


def run(params, mon):
    from properimage import utils
    from properimage.single_image import SingleImage, SingleImageGaussPSF

    rng = gen.rng_of(params)
    i = params["i"]
    shape = gen.shape_of(rng)
    p = 2 + i % 5
    pos = gen.positions(rng, shape, 34, 17.0)
    flux = gen.fluxes(rng, len(pos), 25000, 120000)
    cls = SingleImageGaussPSF if rng.random() < 0.3 else SingleImage
    if params.get("disjoint"):
        imgs = []
        for k in range(3):
            q = gen.positions(rng, shape, 12, 17.0)
            if k:  # keep away from the first field
                q = q[[np.hypot(*(pos - x).T).min() > 7 for x in q]]
            else:
                q = pos
            if len(q) < 3:
                return
            imgs.append(SingleImage(
                (gen.stars(shape, q, np.full(len(q), 2e4), 1.8) + 100
                 + rng.normal(0, 3, shape)).astype("f4"),
                stamp_shape=(13, 13)))
        cats = [(np.c_[s.best_sources["x"], s.best_sources["y"]],
                 s.best_sources["flux"].copy()) for s in imgs]
        want, q = ref.zeropoints(cats)
        if q == 0:
            zps, mags = utils.transparency(imgs)
            mon.event("fields without common stars")
            mon.check("without common stars all images weigh the same",
                      np.array_equal(zps, np.ones(3)), got=zps)
            mon.key("disjoint", i)
        return
    scale = np.exp(rng.uniform(np.log(0.4), np.log(2.5), p))
    imgs = []
    moved = rng.choice(len(pos), 4, replace=False) if i % 3 else []
    for k in range(p):
        sub = rng.random(len(pos)) < 0.95
        for j in moved if k == 1 else []:  # no longer the same star
            ang = rng.uniform(0, 6.28)
            pos[j] += rng.uniform(2.8, 4.5) * np.array([np.sin(ang),
                                                        np.cos(ang)])
        jit = rng.uniform(-0.3, 0.3, (1, 2))
        im = gen.stars(shape, pos[sub] + jit, flux[sub] * scale[k],
                       1.8 + 0.15 * rng.random())
        im += rng.uniform(50, 300) + rng.normal(0, 4, shape)
        imgs.append(cls(im.astype("f4"), stamp_shape=(13, 13)))
    cats = [(np.c_[s.best_sources["x"], s.best_sources["y"]],
             s.best_sources["flux"].copy()) for s in imgs]
    want, q = ref.zeropoints(cats)
    use_master = bool(rng.random() < 0.4)
    rounds = 1 + int(rng.random() < 0.5)
    for rnd in range(rounds):
        if rnd:
            # again, in another order: old identifiers must not leak
            perm = rng.permutation(p)
            imgs = [imgs[k] for k in perm]
            cats = [cats[k] for k in perm]
            scale = scale[perm]
            want, q = ref.zeropoints(cats)
        given = list(imgs)
        if use_master:
            zps, mags = utils.transparency(imgs[1:], master=imgs[0])
        else:
            zps, mags = utils.transparency(imgs)
        mon.event("transparency calls")
        mon.check("the list keeps its images",
                  all(a is b for a, b in zip(given, imgs)))
        if want is None:
            mon.check("without common stars all images weigh the same",
                      np.array_equal(np.asarray(zps), np.ones(p)))
            continue
        mon.event("common stars", q)
        mon.check("one zero point per image", len(zps) == p, got=len(zps))
        mon.close("zero point differences model", zps - zps[0], want, 0,
                  atol=2e-4, q=q, p=p, master=use_master, round=rnd)
        ratio = 10 ** (-0.4 * (zps - zps[0]))
        if q >= 3:
            mon.check("flux ratios of the sky",
                      np.all(np.abs(ratio / (scale / scale[0]) - 1) < 0.06),
                      got=ratio, want=scale / scale[0])
        mon.check("one mean magnitude per common star", len(mags) == q,
                  got=len(mags), want=q)
        if len(mags) == q:
            # mag of star s in image j = zp_j + mean_s (least squares)
            idx = None
            for k in range(1, p):
                m = dict(ref.mutual_pairs(cats[0][0], cats[k][0]))
                idx = m if idx is None else {
                    a: None for a in idx if a in m}
            idx = sorted(idx)
            tab = [[-2.5 * np.log10(cats[0][1][s]) + 20 for s in idx]]
            for k in range(1, p):
                m = dict(ref.mutual_pairs(cats[0][0], cats[k][0]))
                tab.append([-2.5 * np.log10(cats[k][1][m[s]]) + 20
                            for s in idx])
            tab = np.array(tab)
            mon.close("mean magnitudes model",
                      np.sort(np.asarray(mags) + np.mean(zps)),
                      np.sort(tab.mean(axis=0)), 0, atol=5e-3)
        # the catalogues survive: same stars, same fluxes
        for s, (xy, fl) in zip(imgs, cats):
            c = s.best_sources
            o1, o2 = np.argsort(c["flux"]), np.argsort(fl)
            mon.check("catalogues keep their stars",
                      len(c) == len(fl) and np.array_equal(
                          c["flux"][o1], fl[o2]) and np.array_equal(
                          c["x"][o1], xy[o2, 0]))
        mon.key(p, use_master, cls.__name__, rnd, q // 5)
    mon.sample(images=p, scale=scale, zps=zps, common=q)
    for s in imgs:
        s._clean()
