"""The simulated sky is what was asked for."""

import numpy as np

from .. import gen

ID = "C29"
RULE = (
    "one case = a batch of random requests to one simulator (gaussian PSFs in "
    "any size, width and angle, Airy patterns, Sersic galaxies, delta sources, "
    "noisy exposures, variable PSF mosaics, cartesian products); the arrays "
    "are measured (sum, centre, widths, symmetry, positions, noise) against "
    "the request; key = simulator|parameters"
)
REQUIRED = ["PSF has unit sum", "PSF is centred", "PSF has the width asked",
            "Airy pattern", "Sersic galaxy", "sources at their place",
            "same seed, same image", "sky noise is the one asked",
            "every combination once", "mosaic of four quadrants"]
KINDS = ["psf", "apsf", "airy", "sersic", "delta", "image", "cart", "varpsf"]


def cases(tier, seed):
    n = 48 if tier == "quick" else 480
    return [{"seed": seed, "i": i, "kind": KINDS[i % 8]} for i in range(n)]


def _moments(a):
    y, x = np.mgrid[: a.shape[0], : a.shape[1]]
    s = a.sum()
    my, mx = (a * y).sum() / s, (a * x).sum() / s
    return (my, mx, (a * (y - my) ** 2).sum() / s,
            (a * (x - mx) ** 2).sum() / s,
            (a * (y - my) * (x - mx)).sum() / s)


def run(params, mon):
    from properimage import simtools as st

    rng = gen.rng_of(params)
    globals()["_" + params["kind"]](st, rng, mon)


def _psf(st, rng, mon):
    for _ in range(6):
        fx = rng.uniform(2.5, 7)
        fy = 0 if rng.random() < 0.4 else rng.uniform(2.5, 7)
        theta = 0 if rng.random() < 0.5 else float(rng.uniform(-180, 180))
        n = int(rng.integers(int(6 * max(fx, fy)), 70))
        form = int(rng.integers(3))
        if fy == 0 and form:  # round unless asked otherwise
            p = st.Psf(n, fx) if form == 1 else st.Psf(n, fx, theta=theta)
            theta = 0 if form == 1 else theta
        else:
            p = st.Psf(n, fx, Y_FWHM=fy, theta=theta)
        fy = fy or fx
        mon.event("PSFs")
        mon.check("PSF has unit sum", abs(p.sum() - 1) < 1e-9, got=p.sum())
        my, mx, vy, vx, vxy = _moments(p)
        c = [(k - 1) / 2 for k in p.shape]
        mon.check("PSF is centred",
                  np.hypot(my - c[0], mx - c[1]) < 0.02, got=[my, mx],
                  want=c, n=n, f=[fx, fy], theta=theta)
        # first width along the rows, then turned
        t = np.deg2rad(theta)
        sx2, sy2 = (fx / 2.355) ** 2, (fy / 2.355) ** 2
        wy = sx2 * np.cos(t) ** 2 + sy2 * np.sin(t) ** 2
        wx = sx2 * np.sin(t) ** 2 + sy2 * np.cos(t) ** 2
        mon.close("PSF has the width asked", [vy, vx], [wy, wx], 0.03,
                  0.05, f=[fx, fy], theta=theta, n=n)
        wxy = (sy2 - sx2) * np.sin(t) * np.cos(t)
        mon.check("PSF is turned as asked",
                  abs(vxy + wxy) < 0.05 * max(sx2, sy2),
                  got=vxy, want=wxy, theta=theta)
        if theta == 0:
            mon.check("PSF is square", p.shape == (n, n), got=p.shape)
            mon.close("PSF is symmetric", p, p[::-1, ::-1], 1e-9)
        mon.check("PSF is positive", (p > -1e-3 * p.max()).all())
        mon.key("psf", n, round(fx, 1), round(fy, 1), round(theta))


def _apsf(st, rng, mon):
    for _ in range(8):
        f = rng.uniform(2.5, 9)
        n = int(rng.integers(int(4 * f) + 4, 60))
        p = st.astropy_Psf(n, f)
        mon.event("PSFs")
        mon.check("PSF has unit sum", abs(p.sum() - 1) < 1e-9)
        my, mx, vy, vx, vxy = _moments(p)
        mon.check("PSF is centred", max(abs(my - (n - 1) / 2),
                                        abs(mx - (n - 1) / 2)) < 0.01,
                  got=[my, mx], n=n)
        mon.close("PSF has the width asked", [vy, vx], [(f / 2.355) ** 2] * 2,
                  0.04, n=n, f=f)
        mon.check("PSF is square", p.shape == (n, n))
        mon.close("PSF is symmetric", p, p.T, 1e-9)
        mon.close("PSF is symmetric", p, p[::-1, ::-1], 1e-9)
        mon.key("apsf", n, round(f, 1))


def _airy(st, rng, mon):
    from scipy.special import j1

    for _ in range(8):
        n = int(rng.integers(3, 50))
        w = rng.uniform(0.5, 8)
        a = st.airy_patron(n, w)
        y, x = np.mgrid[:n, :n] - (n - 1) / 2
        r = np.hypot(y, x) / w
        with np.errstate(all="ignore"):
            want = np.where(r == 0, 1.0, (2 * j1(r) / r) ** 2)
        mon.close("Airy pattern", a, want, 1e-9, n=n, w=w)
        mon.check("Airy pattern is finite", np.isfinite(a).all())
        mon.key("airy", n, round(w, 1))


def _sersic(st, rng, mon):
    for _ in range(8):
        n = int(rng.integers(5, 60))
        k = float(rng.choice([0.5, 1, 2, 4, rng.uniform(0.5, 6)]))
        g = st.gal_sersic(n, k)
        re = (n - 1) / 6.0
        y, x = np.mgrid[:n, :n] - (n - 1) / 2
        r = np.hypot(y, x)
        want = np.where(r <= 4 * re,
                        np.exp(-(1.999 * k - 0.327) * (r / re) ** (1 / k)), 0)
        # the slope at the scale radius is b, relative to the centre
        mon.close("Sersic galaxy", g, want, 1e-9, n=n, k=k)
        mon.close("Sersic galaxy is symmetric", g, g[::-1, ::-1], 1e-12)
        mon.close("Sersic galaxy is symmetric", g, g.T, 1e-12)
        r = float(rng.uniform(0, 30))
        mon.close("Sersic profile", st.perfilsersic(5.0, rng.uniform(1, 99),
                                                    k, r),
                  np.exp(-(1.999 * k - 0.327) * (r / 5.0) ** (1 / k)), 1e-9)
        mon.key("sersic", n, round(k, 1))


def _delta(st, rng, mon):
    for _ in range(20):
        n = int(rng.integers(2, 80))
        d = st.delta_point(n)
        mon.check("one source in the centre", d.sum() == 1 and
                  d[n // 2, n // 2] == 1 and d.shape == (n, n))
        k = int(rng.integers(0, 12))
        flat = rng.permutation(n * n)[:k]
        xy = [(int(v) // n, int(v) % n) for v in flat]
        k = len(xy)
        w = None if rng.random() < 0.3 else rng.uniform(1, 1e4, k)
        arg = [zip(*np.array(xy).T.tolist()) if xy else xy, xy,
               np.array(xy).reshape(-1, 2)][rng.integers(3)]
        d = st.delta_point(n, center=False, xy=arg, weights=w)
        want = np.zeros((n, n))
        for j, (a, b) in enumerate(xy):
            want[a, b] = 1.0 if w is None else w[j]
        mon.equal("sources at their place", d, want, n=n, k=k)
        mon.event("delta sources", k)
        mon.key("delta", n, k, w is None)


def _image(st, rng, mon):
    for _ in range(3):
        _exposure(st, rng, mon)


def _exposure(st, rng, mon):
    n = int(rng.integers(80, 160))
    f = rng.uniform(3, 6)
    fy = 0 if rng.random() < 0.5 else rng.uniform(3, 6)
    sn = float(rng.uniform(5, 60))
    bias = float(rng.uniform(0, 300))
    pos = np.round(gen.positions(rng, (n, n), 5, 34.0, 22.0)).astype(int)
    flux = rng.uniform(1000, 9000, len(pos))
    m = np.zeros((n, n))
    m[pos[:, 0], pos[:, 1]] = flux
    pdf = ["gaussian", "poisson"][rng.integers(2)]
    seed = int(rng.integers(1 << 20)) if rng.random() < 0.7 else 0
    theta = 0 if not fy or rng.random() < 0.4 else float(
        rng.uniform(-180, 180))
    kw = dict(Y_FWHM=fy, SN=sn, bkg_pdf=pdf, seed=seed, bias=bias,
              theta=theta)
    asked = None
    if pdf == "gaussian" and rng.random() < 0.5:
        asked = kw["std"] = float(rng.uniform(1, 30))
    a = st.image(m, n, 1, f, **kw)
    b = st.image(m, n, 1, f, **kw)
    c = st.image(m, n, 1, f, **dict(kw, seed=seed + 1))
    mon.close("same seed, same image", a, b, 1e-9)
    mon.check("another seed, another image", not np.array_equal(a, c))
    mon.check("image has the size asked", a.shape == (n, n))
    u1 = st.image(m, n, 1, f, **dict(kw, seed=None))
    u2 = st.image(m, n, 1, f, **dict(kw, seed=None))
    mon.check("no seed, no repetition", not np.array_equal(u1, u2))
    # what the stars add: a unit sum PSF at the right place
    #  (a PSF of even size has no central pixel: half a pixel of freedom)
    best = None
    for dy in (-0.5, 0.0, 0.5):
        for dx in (-0.5, 0.0, 0.5):
            t = gen.stars((n, n), pos + [dy, dx], flux, (fy or f) / 2.355,
                          f / 2.355, -np.deg2rad(theta))
            v = np.abs(a - np.median(a) - t).max()
            if best is None or v < best[0]:
                best = v, t
    clean = best[1]
    peak = clean.max()
    mean = bias + (peak / sn if pdf == "poisson" else 0.0)
    sd = np.sqrt(peak / sn) if pdf == "poisson" else peak / sn
    sd = asked or sd
    res = a - mean - clean
    far = clean < 1e-3 * sd
    mon.check("sky noise is the one asked",
              0.85 < a[far].std() / sd < 1.15, got=a[far].std(), want=sd,
              pdf=pdf, sn=sn)
    mon.check("sky level is the one asked",
              abs(a[far].mean() - mean) < 6 * sd / np.sqrt(far.sum())
              + 0.02 * peak / sn, got=a[far].mean(), want=mean)
    mon.check("stars have their shape and flux",
              np.abs(res).max() < 6.5 * sd + 0.06 * peak,
              worst=np.abs(res).max(), sd=sd, peak=peak)
    noise = (c - a)[far].std() / np.sqrt(2)
    mon.check("sky noise is the one asked", 0.85 < noise / sd < 1.15)
    u = (a - a[far].mean()) * far
    rho = (u[1:] * u[:-1]).sum() / (u**2).sum()
    mon.check("sky noise is white", abs(rho) < 0.08, rho=rho)
    mon.event("images simulated", 5)
    mon.key("image", n, pdf, round(sn), round(f, 1))
    mon.sample(n=n, pdf=pdf, sd=float(sd), measured=float(a[far].std()))


def _cart(st, rng, mon):
    import itertools

    for _ in range(15):
        k = int(rng.integers(1, 4))
        arrs = [rng.permutation(100)[:rng.integers(1, 7)] for _ in range(k)]
        out = st.cartesian_product(arrs)
        want = np.array(list(itertools.product(*[a.tolist() for a in arrs])))
        mon.check("every combination once", out.shape == want.shape and
                  sorted(map(tuple, out.tolist())) == sorted(
                      map(tuple, want.tolist())))
        mon.equal("combinations in order", out, want)
        mon.key("cart", [len(a) for a in arrs])


def _varpsf(st, rng, mon):
    n = int(rng.integers(90, 150))
    stars = int(rng.integers(4, 20)) * 4
    sn = float(rng.uniform(10, 60))
    seed = int(rng.integers(1 << 20)) if rng.random() < 0.7 else 0
    a = st.sim_varpsf(stars, SN=sn, N=n, seed=seed)
    b = st.sim_varpsf(stars, SN=sn, N=n, seed=seed)
    mon.close("same seed, same image", a, b, 1e-9)
    mon.check("mosaic of four quadrants", a.shape == (2 * n, 2 * n)
              and np.isfinite(a).all())
    c = st.sim_varpsf(stars, SN=sn, N=n, seed=seed + 1)
    mon.check("another seed, another image", not np.array_equal(a, c))
    #  a quadrant depends on its own angle only: change the others
    t = [0, 45, 105, 150]
    j = int(rng.integers(4))
    t2 = [v if k == j else (v + 20) for k, v in enumerate(t)]
    d = st.sim_varpsf(stars, SN=sn, N=n, seed=seed, thetas=t2)
    y, x = (j % 2) * n, (j // 2) * n
    mon.close("mosaic of four quadrants", d[y:y + n, x:x + n],
              a[y:y + n, x:x + n], 1e-9, j=j)
    for k in range(4):
        if k != j:
            y, x = (k % 2) * n, (k // 2) * n
            mon.check("mosaic of four quadrants", not np.array_equal(
                d[y:y + n, x:x + n], a[y:y + n, x:x + n]))
    #  twice the bias, once from the exposure and once from the mosaic
    mon.check("level of the mosaic", abs(np.median(a) - 200) < 0.2 * 200,
              got=np.median(a))
    # without a seed two skies are two skies
    u, v = [st.sim_varpsf(stars, SN=sn, N=n) for _ in range(2)]
    mon.check("no seed, no repetition", not np.array_equal(u, v))
    # where the stars are and how much light they send
    m = st.sim_varpsf(160, SN=60.0, N=n, seed=seed)
    # the sky is as noisy everywhere, and never the same noise twice
    rims = []
    for k in range(4):
        y, x = (k % 2) * n, (k // 2) * n
        q = a[y:y + n, x:x + n]
        rims.append(np.concatenate([q[:4].ravel(), q[-4:].ravel(),
                                    q[:, :4].ravel(), q[:, -4:].ravel()]))
    cc = np.corrcoef(rims) - np.eye(4)
    mon.check("noise of the quadrants is independent",
              np.abs(cc).max() < 0.2, got=np.abs(cc).max())
    box = []
    for k in range(4):
        y, x = (k % 2) * n, (k // 2) * n
        q = m[y:y + n, x:x + n] - np.median(m[y:y + n, x:x + n])
        rim = np.ones((n, n), bool)
        rim[4:-4, 4:-4] = False
        sd = 1.4826 * np.median(np.abs(q[rim]))
        mon.check("stars keep away from the edges", q[rim].max() < 7 * sd
                  + 0.02 * q.max(), rim=q[rim].max(), sd=sd, quadrant=k)
        box.append(np.argwhere(q > 0.15 * q.max()))
        light = (q - np.median(q[rim])).sum()
        want = np.linspace(100.0, 10000.0, 40).sum()
        mon.check("light of the stars", 0.7 * want < light < 1.3 * want,
                  got=light, want=want)
    box = np.concatenate(box)
    fw = 3 * (5 + 5 * 150 / 180)
    mon.check("stars are spread over the frame", (
        box.max(0) - box.min(0) > 0.6 * (n - 2 * fw)).all(),
        got=[box.min(0), box.max(0)], n=n)
    # a single star and hardly any noise: its shape follows the angle
    ths = [0, 45, 105, 150] if rng.random() < 0.5 else rng.uniform(
        0, 180, 4).round(1).tolist()
    m = st.sim_varpsf(4, SN=1e6, N=n, seed=seed, thetas=ths)
    for k, th in enumerate(ths):
        y, x = (k % 2) * n, (k // 2) * n
        q = m[y:y + n, x:x + n] - 200.0
        mon.close("light of the stars", q.sum(), 100.0, 0.02, theta=th)
        c = np.unravel_index(np.argmax(q), q.shape)
        fx, lo = 5 + 5 * th / 180, 3 * (5 + 5 * th / 180)
        mon.check("stars keep away from the edges", all(
            lo - 2 <= v <= n - lo + 2 for v in c), at=c, theta=th)
        w = np.zeros((n, n))
        s = np.s_[max(0, c[0] - 14):c[0] + 15, max(0, c[1] - 14):c[1] + 15]
        w[s] = q[s]
        my, mx, vy, vx, vxy = _moments(w)
        cos, sin = np.cos(np.deg2rad(th)), np.sin(np.deg2rad(th))
        a2, b2 = (fx / 2.355) ** 2, (5 / 2.355) ** 2
        mon.close("mosaic quadrants have their own PSF", [vy, vx, vxy],
                  [a2 * cos**2 + b2 * sin**2, a2 * sin**2 + b2 * cos**2,
                   (a2 - b2) * sin * cos], 0.0, 0.06 * a2, theta=th)
    mon.event("images simulated", 7)
    mon.key("varpsf", n, stars, round(sn))

