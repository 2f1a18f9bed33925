"""Nearest neighbour matching of catalogues."""

import numpy as np

from .. import gen

ID = "C26"
RULE = (
    "one case = a batch of catalogue pairs (random, clustered, gridded with "
    "ties, jittered copies, empty overlaps, any dimension) matched within a "
    "radius; distances, indices and mutual matches are compared with a "
    "brute force search; key = layout|sizes|radius bin"
)
REQUIRED = ["distance is the smallest one", "index realises the distance",
            "no match is told apart", "dimensions must agree"]


def cases(tier, seed):
    n = 24 if tier == "quick" else 240
    return [{"seed": seed, "i": i} for i in range(n)]


def run(params, mon):
    from properimage import utils as u

    rng = gen.rng_of(params)
    for _ in range(40):
        dim = int(rng.choice([1, 2, 2, 2, 3, 5]))
        n1, n2 = rng.integers(1, 60, 2)
        lay = ["random", "grid", "jitter", "cluster", "far"][rng.integers(5)]
        if lay == "grid":
            a = rng.integers(0, 6, (n1, dim)).astype(float)
            b = rng.integers(0, 6, (n2, dim)).astype(float)
        elif lay == "jitter":
            a = rng.uniform(0, 300, (n1, dim))
            n2 = min(n1, int(n2))
            b = a[rng.permutation(n1)[:n2]] + rng.normal(0, 0.7, (n2, dim))
        elif lay == "cluster":
            a = rng.normal(50, 3, (n1, dim))
            b = rng.normal(50, 3, (n2, dim))
        elif lay == "far":
            a = rng.uniform(0, 10, (n1, dim))
            b = rng.uniform(500, 510, (n2, dim))
        else:
            a = rng.uniform(-100, 100, (n1, dim))
            b = rng.uniform(-100, 100, (n2, dim))
        r = [np.inf, 1.5, 2.0, 0.1, 40.0, 1.0][rng.integers(6)]
        form = (lambda v: v.tolist()) if rng.random() < 0.3 else (lambda v: v)
        ca, cb = a.copy(), b.copy()
        dist, ind = u.crossmatch(form(a), form(b), max_distance=r) \
            if np.isfinite(r) or rng.random() < 0.5 else \
            u.crossmatch(form(a), form(b))
        mon.event("points matched", n1)
        full = np.sqrt(((a[:, None, :] - b[None]) ** 2).sum(-1))
        best = full.min(axis=1)
        # the closed and the open ball are both fine on the edge
        edge = np.abs(best - r) < 1e-9
        hit = (best < r) | ~np.isfinite(r)
        dist, ind = np.asarray(dist), np.asarray(ind)
        ok = dist.shape == (n1,) and ind.shape == (n1,)
        mon.check("one answer for each point", ok)
        if not ok:
            continue
        w = hit & ~edge
        mon.check("distance is the smallest one",
                  np.allclose(dist[w], best[w], atol=1e-9), lay=lay, r=r)
        mon.check("index realises the distance",
                  (ind[w] >= 0).all() and (ind[w] < n2).all() and np.allclose(
                      full[np.arange(n1)[w], ind[w]], best[w], atol=1e-9),
                  lay=lay, r=r)
        w = ~hit & ~edge
        mon.check("no match is told apart", np.isinf(dist[w]).all()
                  and (ind[w] == n2).all(), lay=lay, r=r)
        mon.event("points without a match", w.sum())
        mon.check("inputs are left alone", (a == ca).all() and (b == cb).all())
        mon.key(lay, dim, int(n1) // 8, int(n2) // 8, r)
        mon.raises("dimensions must agree", ValueError,
                   lambda: u.crossmatch(np.zeros((4, dim)),
                                        np.zeros((5, dim + 1))))
        if dim == 2 and np.isfinite(r):
            _mutual(u, rng, a, b, r, full, mon)
    mon.sample(lay=lay, dim=dim, n=[int(n1), int(n2)], r=r)


def _mutual(u, rng, a, b, r, full, mon):
    """Catalogue matching: mutually nearest and within the radius."""
    def table(p):
        t = np.zeros(len(p), dtype=[("x", "f8"), ("y", "f8"), ("flux", "f8"),
                                    ("name", "i8"), ("masterindex", "i8")])
        t["x"], t["y"] = p[:, 0], p[:, 1]
        t["name"] = rng.permutation(len(p)) + rng.choice([0, 100])
        return t

    # ties make either answer right: skip them
    s1, s2 = np.sort(full, axis=1), np.sort(full, axis=0)
    if (s1.shape[1] > 1 and (s1[:, 1] - s1[:, 0] < 1e-9).any()) or (
            s2.shape[0] > 1 and (s2[1] - s2[0] < 1e-9).any()):
        mon.event("ties left aside")
        return
    if (np.abs(full - r) < 1e-9).any():
        return
    if not hasattr(u, "_matching"):  # C14 sees the matches as well
        mon.event("no catalogue matching to call")
        return
    ta, tb = table(a), table(b)
    ids = u._matching(ta, tb, masteridskey="name", radius=r)
    want = np.full(len(b), -1)
    for j in range(len(b)):
        i = int(full[:, j].argmin())
        if full[i, j] < r and int(full[i].argmin()) == j:
            want[j] = ta["name"][i]
    got = np.where(np.asarray(ids) < 0, -1, ids)
    mon.equal("mutual matches", got, want, r=r)
    #  who is matched is told as well, the star of number zero included
    ids, yes = u._matching(ta, tb, masteridskey="name", radius=r, masked=True)
    mon.equal("mutual matches", np.where(np.asarray(yes), ids, -1), want, r=r)
    ids = u._matching(ta, tb, radius=r)  # by their place in the catalogue
    mon.equal("mutual matches", np.where(np.asarray(ids) < 0, -1, ids),
              [-1 if w < 0 else int(np.flatnonzero(ta["name"] == w)[0])
               for w in want], r=r)
    used = got[got >= 0]
    mon.check("a star is matched once", len(set(used.tolist())) == len(used))
    mon.event("mutual matches found", len(used))
