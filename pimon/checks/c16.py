"""Symmetries of the subtraction and recovery of what differs in the sky."""

import numpy as np

from .. import attach, gen, sky
from .c15 import determined, filtered

ID = "C16"
RULE = (
    "one case = one pair of exposures put through one metamorphic relation: an "
    "image minus itself (or minus a brighter copy) vanishes, exchanging the two "
    "images negates the difference and keeps its PSF, sources that exist in one "
    "image only come out at their place with their sign and their flux; key = "
    "relation|PSF model|shape|damage"
)
REQUIRED = ["a scene minus itself vanishes", "exchange negates the difference",
            "new source is positive", "transient at its position",
            "transient flux recovered"]


def cases(tier, seed):
    n = 112 if tier == "quick" else 1200
    rel = ["self", "scaled", "exchange", "transient", "vanished",
           "transient-search", "transient"]
    return [{"seed": seed, "i": i, "rel": rel[i % len(rel)],
             "fit": bool((i // len(rel)) % 2)} for i in range(n)]


def run(params, mon):
    from properimage import operations as op
    from properimage.single_image import SingleImage, SingleImageGaussPSF

    rng = gen.rng_of(params)
    fit, rel = params["fit"], params["rel"]
    cls = SingleImageGaussPSF if fit else SingleImage
    shape = gen.shape_of(rng, small=rel == "transient-search")
    hurt = bool(rng.random() < 0.4)
    loss = float(rng.choice([0.1, 0.25, 0.5])) if not fit else 0.25
    kw = dict(beta=False, shift=False, fitted_psf=fit, inf_loss=loss)

    if rel in ("self", "scaled"):
        d = sky.pair(rng, shape, damage=False)
        a = d["ref"].astype("f8")
        k = 1.0 if rel == "self" else float(np.exp(rng.uniform(-0.7, 0.7)))
        off = 0.0 if rel == "self" else rng.uniform(0, 200)
        b = a * k + off
        if hurt:
            bad = gen.damage(rng, np.zeros(shape))
            a, b = np.where(bad == 0, a, bad), np.where(bad == 0, b, bad)
        r, n = cls(a), cls(b)
        D, P, S, m = op.subtract(r, n, **kw)
        D = D.real
        stars = [np.c_[x.best_sources["x"], x.best_sources["y"]]
                 for x in (r, n)]
        if rel == "scaled":
            keep = determined(sky.parts(r, fit, loss),
                              sky.parts(n, fit, loss), 1e-6)
            mon.event("fourier modes kept", keep.sum())
            D = filtered(D, keep).real
        r._clean()
        n._clean()
        tol = 1e-6 if rel == "self" else 2e-2
        same = np.shape(stars[0]) == np.shape(stars[1]) and np.allclose(
            stars[0], stars[1], atol=0.05)
        if same:
            mon.check("a scene minus itself vanishes",
                      np.abs(D[~m]).max() < tol, rel=rel,
                      worst=np.abs(D[~m]).max(), k=k)
        else:  # a star on the detection limit of one of the two
            mon.event("not the same stars")
        mon.event("pixels", D.size)
    elif rel == "exchange":
        d = sky.pair(rng, shape, damage=hurt,
                     elong=bool(rng.random() < 0.5), transients=2)
        r, n = cls(d["ref"]), cls(d["new"])
        one = op.subtract(r, n, **kw)
        pr, pn = sky.parts(r, fit, loss), sky.parts(n, fit, loss)
        keep = determined(pr, pn)
        ratio = n.zp / r.zp
        two = op.subtract(n, r, **kw)
        back = r.zp / n.zp
        # matching is mutual, so it does not depend on who comes first
        mon.close("flux scale is inverted", ratio * back, 1.0, 1e-6)
        mon.close("exchange negates the difference", filtered(two[0], keep),
                  -filtered(one[0], keep), 1e-4)
        mon.close("exchange keeps the PSF", two[1], one[1], 1e-4)
        mon.equal("exchange keeps the mask", two[3], one[3])
        r._clean()
        n._clean()
    else:
        search = rel == "transient-search"
        d = sky.pair(rng, shape, damage=False, transients=3,
                     t_flux=float(rng.uniform(5000, 15000)),
                     seeing=(rng.uniform(1.5, 2.2), rng.uniform(1.5, 2.2)))
        t_flux = None
        if rel == "vanished":
            args = d["new"], d["ref"]
        else:
            args = d["ref"], d["new"]
        if search:
            kw.update(beta=bool(rng.random() < 0.7), shift=True)
        r, n = cls(args[0], stamp_shape=(17, 17)), cls(args[1],
                                                       stamp_shape=(17, 17))
        attach.reset()
        D, P, S, m = op.subtract(r, n, **kw)
        scale = n.zp / r.zp
        calls = attach.optimizer_calls()
        if kw["beta"] and calls:
            _, x, okay = sky.solution(calls)
            scale = float(x[0]) if okay and len(x) == 3 else scale
        sign = -1 if rel == "vanished" else 1
        far = np.ones(shape, bool)
        far[:16] = far[-16:] = far[:, :16] = far[:, -16:] = False
        pk = np.unravel_index(np.argmax(P), P.shape)
        P0 = np.roll(P, (-pk[0], -pk[1]), (0, 1))
        ph = np.fft.fft2(P0)
        # the optimal flux estimate: sum(D P)/sum(P^2), in units of the noise
        dzp = scale / np.sqrt((r.var * scale) ** 2 + n.var**2)
        flux = np.fft.ifft2(np.fft.fft2(D.real) * ph.conj()).real / (
            (P**2).sum() * dzp)
        ratio = d["ratio"]
        got = []
        for p in d["spots"]:
            y, x = np.round(p).astype(int)
            w = np.s_[y - 5:y + 6, x - 5:x + 6]
            s = sign * S[w]
            k = np.unravel_index(np.argmax(s), s.shape)
            mon.check("transient at its position",
                      np.hypot(k[0] + y - 5 - p[0], k[1] + x - 5 - p[1]) <= (2 if fit else 3),
                      want=p, got=[k[0] + y - 5, k[1] + x - 5])
            mon.check("new source is positive" if sign > 0 else
                      "vanished source is negative",
                      s.max() > 5 * np.std(S[far]) / 3
                      and s.max() > -s.min(), peak=s.max(),
                      trough=s.min())
            f = sign * flux[w].ravel()[np.argmax(sign * flux[w])]
            got.append(f * sign)
        low = 0.8 if fit else 0.6  # a KL basis is a rougher PSF
        # flux in the photometric system of the reference
        true = _true_flux(d, rel, scale)
        mon.check("transient flux recovered",
                  all(low < g * sign / true < 1 / low for g in got),
                  got=got, true=true, ratio=ratio, scale=scale)
        mon.event("transients injected", len(d["spots"]))
        mon.sample(rel=rel, fit=fit, true=true, got=got)
        r._clean()
        n._clean()
    mon.key(rel, fit, shape, hurt, loss)


def _true_flux(d, rel, scale):
    """Flux of the source in the system of the image subtracted from."""
    if rel == "vanished":  # only in the reference
        return d["t_flux"] * d["ratio"]
    return d["t_flux"] * d["ratio"] / scale
