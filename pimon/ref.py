"""Independent executable models of what the observed results must be.

Written from the documentation and the published estimators (Lauer 2002;
Zackay, Ofek & Gal-Yam 2016; Zackay & Ofek 2017), with numpy / scipy / sep only:
nothing here imports properimage.  Each stage takes the *observed* result of the
previous stage, so that every property is decided on its own.
"""

import numpy as np
import sep
from astropy.convolution import Box2DKernel, interpolate_replace_nans
from scipy import ndimage


# -- pixels -----------------------------------------------------------------
def window(pix, borders=False, crop=((0, 0), (0, 0))):
    """(row slice, col slice) of the full frame that must survive."""
    r0, r1, c0, c1 = 0, pix.shape[0], 0, pix.shape[1]
    if borders:
        filled = np.argwhere(np.asarray(pix) != 0)
        r0, c0 = filled.min(axis=0)
        r1, c1 = filled.max(axis=0) + 1
    (a, b), (c, d) = crop
    return slice(r0 + a, r1 - b), slice(c0 + c, c1 - d)


def grow(bad, times=7):
    """Three or more bad pixels among the 3x3 neighbourhood make a bad pixel."""
    bad = bad.copy()
    ny, nx = bad.shape
    for _ in range(times):
        p = np.pad(bad.astype(int), 1, mode="symmetric")
        count = sum(p[i : i + ny, j : j + nx]
                    for i in range(3) for j in range(3))
        bad |= count > 2
    return bad


def bad_pixels(values, user=None, low=-50.0, high=65000.0):
    with np.errstate(invalid="ignore"):
        bad = ~np.isfinite(values) | (values > high) | (values < low)
    if user is not None:
        bad |= user.astype(bool)
    return bad


def mask(values, user=None):
    return grow(bad_pixels(values, user))


def fits_mask(plane, thresh=None):
    thresh = 16 if thresh is None else thresh
    if np.median(plane) == 0:
        return plane >= thresh
    return plane <= thresh


# -- background and interpolation ------------------------------------------
def background(values, msk):
    values = np.ascontiguousarray(values)
    if msk.any():
        return sep.Background(values, mask=np.ascontiguousarray(msk))
    return sep.Background(values)


def interped(bkg_sub, msk):
    img = np.where(msk, np.nan, bkg_sub)
    kernel = Box2DKernel(10)
    out = interpolate_replace_nans(img, kernel, convolve=_conv)
    n = 1
    while np.isnan(out).any() and n < 200:
        out = interpolate_replace_nans(out, kernel, convolve=_conv)
        n += 1
    return out


def _conv(*a, **k):
    from astropy.convolution import convolve_fft

    return convolve_fft(*a, **k)


# -- sources ------------------------------------------------------------------
def detections(bkg_sub, msk, rms, min_sources=20):
    img = np.ascontiguousarray(bkg_sub)
    msk = np.ascontiguousarray(msk)
    srcs = sep.extract(img, thresh=8 * rms, mask=msk, minarea=9)
    if len(srcs) < min_sources:
        low = sep.extract(img, thresh=3 * rms, mask=msk, minarea=5)
        if len(low) >= len(srcs):
            srcs = low
    return srcs


def select(srcs):
    npix = np.percentile(srcs["npix"], q=[20, 80])
    flux = np.percentile(srcs["flux"], q=[15, 85])
    ok = (
        (srcs["npix"] >= npix[0]) & (srcs["npix"] <= npix[1])
        & (srcs["flag"] == 0)
        & (srcs["flux"] >= flux[0]) & (srcs["flux"] <= flux[1])
    )
    best = srcs[ok]
    return srcs if len(best) < 5 else best


def auto_stamp(npix):
    size = 3.0 * np.sqrt(np.percentile(npix, q=65))
    if size <= 5:
        return (5, 5)
    n = int(size)
    return (n if n % 2 else n + 1,) * 2


def cutout(img, shape, pos, fill):
    """Pixels around (row, col), filled outside the image."""
    out = np.full(shape, float(fill))
    lo = [int(np.ceil(p - s / 2.0)) for p, s in zip(pos, shape)]
    src, dst = [], []
    for l, s, n in zip(lo, shape, img.shape):
        a, b = max(l, 0), min(l + s, n)
        if a >= b:
            return None
        src.append(slice(a, b))
        dst.append(slice(a - l, b - l))
    out[tuple(dst)] = img[tuple(src)]
    return out


def stamp(img, shape, pos, rms):
    """Background levelled, unit sum stamp, 6 pixels larger than asked."""
    big = (shape[0] + 6, shape[1] + 6)
    s = cutout(img, big, pos, rms)
    s = s + abs(s.min())
    faint = s < np.percentile(np.abs(s), q=70)
    s = s - np.median(s[faint])
    return s / s.sum()


# -- KL decomposition ---------------------------------------------------------
def n_basis(power_desc, inf_loss):
    """Smallest number of components keeping at least 1 - inf_loss."""
    kept = np.cumsum(power_desc)
    ok = np.flatnonzero(1 - kept <= inf_loss)
    return int(ok[0]) + 1 if len(ok) else len(power_desc)


def kl_products(stamps, pos, inf_loss):
    """[(poly coeffs, basis image)] by decreasing power, sign free products.

    Only for catalogues up to 250 stars (covariance route).
    """
    m = np.array([s.ravel() for s in stamps]).T
    cov = np.cov(m, rowvar=False)
    val, vec = np.linalg.eigh(cov)
    power = (np.abs(val) / np.abs(val).sum())[::-1]
    n = n_basis(power, inf_loss)
    shape = stamps[0].shape
    basis = [(m @ vec[:, -1 - k]).reshape(shape) for k in range(n)]
    if n == 1:
        return [None], [basis[0] / basis[0].sum()], power
    a = [fit_poly3(pos[:, 0], pos[:, 1], vec[:, -1 - k]) for k in range(n)]
    return a, basis, power


_TERMS = [(i, j) for i in range(4) for j in range(4 - i)]


def _design(x, y, cx, sx, cy, sy):
    u, v = (x - cx) / sx, (y - cy) / sy
    return np.stack([u**i * v**j for i, j in _TERMS], axis=-1)


def fit_poly3(x, y, z):
    cx, sx = x.mean(), max(np.ptp(x), 1.0)
    cy, sy = y.mean(), max(np.ptp(y), 1.0)
    A = _design(x, y, cx, sx, cy, sy)
    c = np.linalg.lstsq(A, z, rcond=None)[0]
    return lambda X, Y: _design(np.asarray(X, float), np.asarray(Y, float),
                                cx, sx, cy, sy) @ c


def conv_same(a, k):
    """Linear convolution, mirrored borders (scipy convention)."""
    return ndimage.convolve(a, k)


def normal_image(afields, basis, shape):
    """Field of the local PSF sum (Lauer normalisation)."""
    if afields[0] is None:
        from astropy.convolution import convolve_fft

        return convolve_fft(np.ones(shape), basis[0])
    x, y = np.mgrid[: shape[0], : shape[1]]
    return sum(conv_same(np.asarray(a(x, y), float), b)
               for a, b in zip(afields, basis))


def center(p):
    return ndimage.center_of_mass(p)


def shift_phase(shape, dy, dx):
    """Fourier multiplier that moves an image by (+dy, +dx) pixels."""
    return ndimage.fourier_shift(np.ones(shape, complex), (dy, dx))


def s_hat(interp, afields, basis, norm_img, zp, rms):
    """Fourier transform of the matched filter image, unitary transforms."""
    shape = interp.shape
    dy, dx = center(basis[0])
    ph = shift_phase(shape, dy, dx)
    f = lambda a, **k: np.fft.fft2(a, norm="ortho", **k)  # noqa: E731
    if afields[0] is None:
        out = f(interp) * f(basis[0], s=shape).conj() * ph
    else:
        x, y = np.mgrid[: shape[0], : shape[1]]
        out = np.zeros(shape, complex)
        for a, b in zip(afields, basis):
            out += f(interp * a(x, y) / norm_img) * f(b, s=shape).conj() * ph
    return zp / rms**2 * out


def psf_sq(basis, shape):
    return sum(np.abs(np.fft.fft2(b, s=shape, norm="ortho")) ** 2
               for b in basis)


# -- coadd --------------------------------------------------------------------
def coadd(parts, psf_size):
    """parts: list of dict(s_hat, psf_sq, zp, rms)."""
    S = sum(p["s_hat"] for p in parts)
    Q = sum((p["zp"] / p["rms"]) ** 2 * p["psf_sq"] for p in parts)
    root = np.sqrt(Q)
    R = np.fft.ifft2(S / root)
    P = np.fft.ifft2(root * shift_phase(S.shape, psf_size, psf_size))
    return R, P / P.sum()


# -- transparency -------------------------------------------------------------
def mutual_pairs(a, b, radius=2.0):
    """Mutually nearest pairs closer than radius: list of (i, j)."""
    d = np.hypot(a[:, None, 0] - b[None, :, 0], a[:, None, 1] - b[None, :, 1])
    ij = []
    for i in range(len(a)):
        j = int(np.argmin(d[i]))
        if d[i, j] < radius and int(np.argmin(d[:, j])) == i:
            ij.append((i, j))
    return ij


def zeropoints(cats, radius=2.0):
    """Magnitude differences to the first catalogue, closed form.

    cats: list of (xy array (n,2), flux).  None when no star is in all of them.
    """
    common = None
    maps = []
    for xy, _ in cats[1:]:
        m = dict(mutual_pairs(cats[0][0], xy, radius))
        maps.append(m)
        common = set(m) if common is None else common & set(m)
    if not common:
        return None, 0
    idx = sorted(common)
    m0 = -2.5 * np.log10(cats[0][1][idx])
    out = [0.0]
    for m, (_, fl) in zip(maps, cats[1:]):
        out.append(float(np.mean(-2.5 * np.log10(fl[[m[i] for i in idx]])
                                 - m0)))
    return np.array(out), len(idx)


# -- subtraction --------------------------------------------------------------
def gaussian_frame(shape, sx, sy, theta):
    """Unit sum gaussian centred in the frame (x is the column axis)."""
    y, x = np.mgrid[: shape[0], : shape[1]]
    dx, dy = x - shape[1] / 2.0, y - shape[0] / 2.0
    c2, s2, sin2 = np.cos(theta) ** 2, np.sin(theta) ** 2, np.sin(2 * theta)
    a = 0.5 * (c2 / sx**2 + s2 / sy**2)
    b = 0.5 * (sin2 / sx**2 - sin2 / sy**2)
    c = 0.5 * (s2 / sx**2 + c2 / sy**2)
    g = np.exp(-(a * dx**2 + b * dx * dy + c * dy**2))
    return g / g.sum()


def subtract(ref, new, b, shift, zp_new=None):
    """ref / new: dict(img, psf, rms, filled). Zackay et al. 2016, eqs. 12-29.

    Returns D, P, S_corr.  Unitary transforms, as the package documents its
    images; S_corr is only defined up to a positive constant here.
    """
    shape = ref["img"].shape
    f = lambda a, **k: np.fft.fft2(a, norm="ortho", **k)  # noqa: E731
    g = lambda a: np.fft.ifft2(a, norm="ortho")  # noqa: E731
    eps = np.finfo(float).eps
    Pr, Pn = f(ref["psf"], s=shape), f(new["psf"], s=shape)
    Pr[Pr == 0] = eps
    Pn[Pn == 0] = eps
    cr, cn = center(ref["psf"]), center(new["psf"])
    Dr = Pn * f(ref["img"]) * shift_phase(shape, -cn[0], -cn[1])
    Dn = Pr * f(new["img"]) * shift_phase(shape, -cr[0], -cr[1])
    norm = (new["rms"] ** 2 * np.abs(Pr) ** 2
            + ref["rms"] ** 2 * b**2 * np.abs(Pn) ** 2)
    D_hat = (Dn - b * Dr * shift_phase(shape, *shift)) / np.sqrt(norm)
    D = g(D_hat)
    dzp = b / np.sqrt(ref["rms"] ** 2 * b**2 + new["rms"] ** 2)
    P_hat = Pr * Pn * b / (np.sqrt(norm) * dzp)
    P = g(P_hat).real
    cp = center(P)
    pk = np.unravel_index(np.argmax(P), P.shape)
    if abs(cp[0] - pk[0]) > 30 or abs(cp[1] - pk[1]) > 30:
        cp = pk
    S = g(dzp * D_hat * P_hat.conj() * shift_phase(shape, *cp))
    zp_new = b if zp_new is None else zp_new
    kr = g(zp_new * b * Pr.conj() * np.abs(Pn) ** 2 / norm)
    kn = g(zp_new * Pn.conj() * np.abs(Pr) ** 2 / norm)
    V = g(f(new["filled"] + 1.0) * np.fft.fft2(kn**2)) + g(
        f(ref["filled"] + 1.0) * np.fft.fft2(kr**2))
    return D, P, (S / np.sqrt(V)).real


# -- utilities ----------------------------------------------------------------
def components(flag):
    """4-connected components by flood fill, in scan order of first pixel."""
    lab = np.zeros(flag.shape, int)
    out = []
    for i, j in np.argwhere(flag):
        if lab[i, j]:
            continue
        k = len(out) + 1
        todo, comp = [(i, j)], []
        lab[i, j] = k
        while todo:
            a, b = todo.pop()
            comp.append((a, b))
            for c, d in ((a + 1, b), (a - 1, b), (a, b + 1), (a, b - 1)):
                if (0 <= c < flag.shape[0] and 0 <= d < flag.shape[1]
                        and flag[c, d] and not lab[c, d]):
                    lab[c, d] = k
                    todo.append((c, d))
        out.append(np.array(comp))
    return out


def gaussian_moments(p):
    """(sigma_y, sigma_x, theta) from a weighted second moment of a stamp."""
    p = np.clip(p, 0, None)
    p = p / p.sum()
    y, x = np.mgrid[: p.shape[0], : p.shape[1]]
    my, mx = (p * y).sum(), (p * x).sum()
    return (np.sqrt((p * (y - my) ** 2).sum()),
            np.sqrt((p * (x - mx) ** 2).sum()))


def local_maxima(S, threshold=2.5):
    """Connected regions above threshold: (col, row, significance)."""
    from astropy.stats import sigma_clipped_stats

    mean, _, std = sigma_clipped_stats(S, maxiters=3)
    out = []
    for comp in components((S - mean) / std > threshold):
        w = S[comp[:, 0], comp[:, 1]]
        r = (w * comp[:, 0]).sum() / w.sum()
        c = (w * comp[:, 1]).sum() / w.sum()
        out.append((c, r, (S[int(round(r)), int(round(c))] - mean) / std))
    return out


def strict_reject(s):
    """Would a careful pick refuse this (unit sum) stamp?"""
    half = np.asarray(s.shape) / 2.0
    peak = np.argwhere(s == s.max())[0]
    if np.linalg.norm(peak - half) > s.shape[0] / 5.0:
        return True
    if s.std() > 0.15 or (s > 0.5).any():
        return True
    peaks = local_maxima(s, 3.5)
    if len(peaks) > 1:
        return True
    if peaks:
        c, r, _ = peaks[0]
        if np.linalg.norm(np.array([r, c]) - half) > s.shape[0] / 5.0:
            return True
    return False
