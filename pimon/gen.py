"""Synthetic sky images, independent of properimage.simtools."""

import numpy as np


def rng_of(params, salt=0):
    return np.random.default_rng([int(params["seed"]), int(params.get("i", 0)),
                                  int(salt)])


def stars(shape, pos, flux, sx=1.8, sy=None, theta=0.0):
    """Sum of (rotated) gaussians of total flux `flux` at (row, col)."""
    sy = sx if sy is None else sy
    im = np.zeros(shape)
    half = int(np.ceil(8 * max(np.max(sx), np.max(sy))))
    sx = np.broadcast_to(sx, len(pos))
    sy = np.broadcast_to(sy, len(pos))
    theta = np.broadcast_to(theta, len(pos))
    for (r, c), f, a, b, t in zip(pos, flux, sx, sy, theta):
        r0, r1 = max(0, int(r) - half), min(shape[0], int(r) + half + 1)
        c0, c1 = max(0, int(c) - half), min(shape[1], int(c) + half + 1)
        if r0 >= r1 or c0 >= c1:
            continue
        y, x = np.mgrid[r0:r1, c0:c1]
        y, x = y - r, x - c
        u = x * np.cos(t) + y * np.sin(t)
        v = -x * np.sin(t) + y * np.cos(t)
        im[r0:r1, c0:c1] += (
            f * np.exp(-0.5 * ((u / a) ** 2 + (v / b) ** 2))
            / (2 * np.pi * a * b)
        )
    return im


def positions(rng, shape, n, sep=18.0, margin=14.0):
    pos = []
    for _ in range(6000):
        if len(pos) >= n:
            break
        p = rng.uniform([margin, margin],
                        [shape[0] - margin, shape[1] - margin])
        if all(np.hypot(*(p - q)) > sep for q in pos):
            pos.append(p)
    return np.array(pos)


def fluxes(rng, n, lo=3000.0, hi=20000.0):
    return np.exp(rng.uniform(np.log(lo), np.log(hi), n))


SHAPES = [(128, 128), (128, 150), (161, 140), (200, 200), (150, 231),
          (220, 230), (187, 203), (256, 180)]


def shape_of(rng, small=False):
    pool = SHAPES[:5] if small else SHAPES
    return pool[rng.integers(len(pool))]


def field(rng, shape=(200, 210), n=None, sx=1.8, sy=None, theta=0.0,
          noise=5.0, bkg=100.0, sep=18.0, margin=14.0, lo=3000.0, hi=20000.0,
          gradient=0.0):
    """One noisy star field. Returns image (float64), positions, fluxes."""
    n = n or max(14, int(shape[0] * shape[1] / 1200))
    pos = positions(rng, shape, n, sep, margin)
    flux = fluxes(rng, len(pos), lo, hi)
    im = stars(shape, pos, flux, sx, sy, theta)
    im += bkg + rng.normal(0, noise, shape)
    if gradient:
        y, x = np.mgrid[: shape[0], : shape[1]]
        im += gradient * (x / shape[1] + 0.5 * y / shape[0])
    return im, pos, flux


def variable_field(rng, shape=(220, 230), n=60, noise=4.0, bkg=100.0,
                   lo=6000.0, hi=30000.0, s0=1.5, s1=2.6):
    """PSF width grows with the column."""
    pos = positions(rng, shape, n, 17.0, 14.0)
    flux = fluxes(rng, len(pos), lo, hi)
    sx = s0 + (s1 - s0) * pos[:, 1] / shape[1]
    im = stars(shape, pos, flux, sx, s0)
    im += bkg + rng.normal(0, noise, shape)
    return im, pos, flux


def damage(rng, im, pos=None, n_hot=3, n_sat=2, n_low=2, n_nan=3, n_inf=1):
    """Bad pixels: isolated, pairs, lines and blocks. Returns damaged copy."""
    im = im.copy()
    ny, nx = im.shape

    def put(value, kind):
        r, c = rng.integers(0, ny), rng.integers(0, nx)
        h, w = {"one": (1, 1), "pair": (1, 2), "row": (1, 9), "col": (9, 1),
                "block": (int(rng.integers(2, 7)), int(rng.integers(2, 7)))}[
                    kind]
        im[r : r + h, c : c + w] = value

    kinds = ["one", "pair", "row", "col", "block"]
    for k in range(n_sat):
        put(65000.5 + rng.uniform(0, 9000), kinds[rng.integers(5)])
    for k in range(n_low):
        put(-50.5 - rng.uniform(0, 900), kinds[rng.integers(5)])
    for k in range(n_nan):
        put(np.nan, kinds[rng.integers(5)])
    for k in range(n_inf):
        put(np.inf if rng.random() < 0.5 else -np.inf, kinds[rng.integers(5)])
    return im
