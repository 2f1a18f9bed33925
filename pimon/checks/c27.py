"""Detection of sources in a score image."""

import numpy as np

from .. import gen, ref

ID = "C27"
RULE = (
    "one case = one score image (noise of any mean and level, bright blobs, "
    "blends, plateaus, borders, nothing at all) searched above a threshold; "
    "the detections are compared with a flood fill of the pixels above it and "
    "with the injected positions; key = scene|shape|threshold|detections"
)
REQUIRED = ["one detection for each connected region",
            "position is the weighted centre of the region",
            "significance is in units of the noise", "injected sources found",
            "nothing is found in nothing"]


def cases(tier, seed):
    n = 128 if tier == "quick" else 1600
    return [{"seed": seed, "i": i} for i in range(n)]


def _sorted(cat):
    """By position, immune to rounding."""
    return np.array(sorted((tuple(float(v) for v in t) for t in cat),
                           key=lambda t: (round(t[0], 4), round(t[1], 4))))


def run(params, mon):
    from properimage import utils as u

    rng = gen.rng_of(params)
    shape = tuple(int(v) for v in rng.integers(40, 160, 2))
    scene = ["blobs", "noise", "blend", "plateau", "border", "empty",
             "offset"][params["i"] % 7]
    sd = float(np.exp(rng.uniform(-3, 3)))
    #  a score image is centred on zero; far below it the weights of a centre
    #  of mass would change sign
    level = rng.uniform(-0.2, 3) * sd
    if scene == "empty":
        level, sd = 0.0, 1.0
    S = rng.normal(level, sd, shape)
    pos = []
    if scene in ("blobs", "offset", "blend"):
        for _ in range(int(rng.integers(1, 9))):
            p = rng.uniform([14, 14], [shape[0] - 14, shape[1] - 14])
            if all(np.hypot(*(p - q)) > 22 for q in pos):
                pos.append(p)
        amp = rng.uniform(25, 80, len(pos)) * sd
        S += gen.stars(shape, pos, amp * 2 * np.pi * 4, 2.0)
        if scene == "blend":
            S += gen.stars(shape, [p + 4 for p in pos],
                           amp * 2 * np.pi * 4, 2.0)
    elif scene == "plateau":
        for _ in range(3):
            y, x = rng.integers(0, shape[0]), rng.integers(0, shape[1])
            S[y:y + 5, x:x + 7] = level + 20 * sd
    elif scene == "border":
        S[:3, 5:9] += 30 * sd
        S[-2:, -4:] += 30 * sd
        S[shape[0] // 2, 0] += 40 * sd
    thr = float(rng.choice([2.5, 3.0, 5.0, 8.0, 3.5]))
    if scene == "empty":
        S = np.clip(S, -3, 3)
        thr = 12.0
    keep = S.copy()
    got = u.find_S_local_maxima(S, threshold=thr) if thr != 2.5 \
        else u.find_S_local_maxima(S)
    mon.equal("the image is left alone", S, keep)
    want = ref.local_maxima(S, thr)
    mon.event("detections", len(got))
    mon.check("one detection for each connected region",
              len(got) == len(want), got=len(got), want=len(want),
              scene=scene, thr=thr)
    if scene == "empty":
        mon.check("nothing is found in nothing", len(got) == 0)
    if len(got) == len(want) and got:
        g, w = _sorted(got), _sorted(want)
        mon.close("position is the weighted centre of the region",
                  g[:, :2], w[:, :2], 0, 1e-6)
        mon.close("significance is in units of the noise", g[:, 2], w[:, 2],
                  1e-7)
    lone = [t for t in got if all(abs(v - round(float(v))) < 1e-9
                                  for v in t[:2])]
    if scene == "noise":  # a region of one pixel is that pixel
        mon.check("a lone pixel has its own significance",
                  all(t[2] > thr for t in lone), lone=lone[:5])
        mon.event("lone pixels", len(lone))
    for p in pos if scene != "blend" else []:
        near = [t for t in got if np.hypot(t[1] - p[0], t[0] - p[1]) < 2.0]
        mon.check("injected sources found", len(near) >= 1, pos=p, thr=thr)
        mon.event("sources injected")
        if near:
            mon.check("injected sources are significant",
                      max(t[2] for t in near) > 10, got=near)
    # the search does not depend on the units of the image
    k, c = float(np.exp(rng.uniform(-2, 2))), rng.uniform(-9, 9)
    if len(pos):
        alt = u.find_S_local_maxima(S * k, threshold=thr)
        mon.check("detections do not depend on the units",
                  len(alt) == len(got) and np.allclose(
                      _sorted(alt), _sorted(got), rtol=1e-6, atol=1e-6), k=k)
    mon.key(scene, shape, thr, len(got))
    mon.sample(scene=scene, shape=list(shape), thr=thr, found=len(got))
