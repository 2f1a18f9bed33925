"""Stamp files: one image never reads or removes the ones of another."""

import gc
import multiprocessing as mp
import os
import threading

import numpy as np

from .. import gen, sky

ID = "C25"
RULE = (
    "one case = several images alive at once, used from one thread, many "
    "threads or forked processes, in a random order of questions and disposals; "
    "every answer is compared with the one of the image alone, and the files "
    "and descriptors left in a private scratch folder are counted; key = way "
    "of working|images|order"
)
REQUIRED = ["answer is the one of the image alone",
            "leaving the context removes its files",
            "an exception in the context goes through",
            "operations leave no file behind",
            "failing operations leave no file behind",
            "no file is shared between processes",
            "descriptors do not pile up"]
KINDS = ["order", "threads", "fork", "context", "operations", "descriptors"]


def cases(tier, seed):
    n = 66 if tier == "quick" else 660
    return [{"seed": seed, "i": i, "kind": KINDS[i % 6]} for i in range(n)]


def files():
    out = set()
    for root, _, names in os.walk(os.environ["TMPDIR"]):
        out |= {os.path.join(root, n) for n in names}
    return out


def answer(img):
    a, basis = img.get_variable_psf(inf_loss=0.3)
    p = img.get_psf_xy(60.0, 63.0) if a[0] is not None else basis[0]
    return p / p.sum()


def _images(rng, k):
    out = []
    for _ in range(k):
        shape = (128, int(rng.integers(128, 150)))
        im, pos, flux = gen.field(rng, shape, n=int(rng.integers(16, 26)),
                                  sx=rng.uniform(1.4, 2.6))
        out.append(im.astype("f4"))
    return out


def _new(x):
    from properimage.single_image import SingleImage

    return SingleImage(x, stamp_shape=(13, 13))


def _child(x):
    img = _new(x)
    out = answer(img), img.n_sources, sorted(
        f for f in files() if os.path.basename(img.dbname) in f)
    img._clean()
    return out


def run(params, mon):
    rng = gen.rng_of(params)
    kind = params["kind"]
    k = int(rng.integers(3, 7))
    ims = _images(rng, k)
    alone = []
    start = files()
    for x in ims:
        s = _new(x)
        alone.append(answer(s))
        s._clean()
    mon.check("cleaning leaves no file", files() <= start,
              left=sorted(files() - start)[:4])
    globals()["_" + kind](rng, mon, ims, alone, start)
    mon.key(kind, k, rng.integers(1 << 30))
    mon.sample(way=kind, images=k, files_left=len(files() - start))


def _same(mon, got, want, **kw):
    mon.close("answer is the one of the image alone", got, want, 1e-9, **kw)


def _order(rng, mon, ims, alone, start):
    live = {j: _new(x) for j, x in enumerate(ims)}
    log = []
    for step in range(24):
        if not live:
            break
        j = int(rng.choice(sorted(live)))
        do = ["stamps", "ask", "ask", "clean", "renew"][rng.integers(5)]
        log.append((do, j))
        if do == "stamps":
            live[j].n_sources
        elif do == "ask":
            _same(mon, answer(live[j]), alone[j], log=log[-6:])
        elif do == "clean":
            live.pop(j)._clean()
        else:
            live[j]._clean()
            live[j] = _new(ims[j])
    for j, s in live.items():
        _same(mon, answer(s), alone[j], log=log[-6:])
    mon.event("operations on live images", len(log))
    for s in live.values():
        s._clean()
    mon.check("cleaning leaves no file", files() <= start)
    mon.key(str(log)[:80])


def _threads(rng, mon, ims, alone, start):
    got, bad = {}, []
    gate = threading.Barrier(len(ims))

    def go(j):
        try:
            gate.wait()
            for r in range(3):
                s = _new(ims[j])
                got[j, r] = answer(s)
                s._clean()
        except Exception as e:  # noqa: B902
            bad.append(repr(e))

    ts = [threading.Thread(target=go, args=(j,)) for j in range(len(ims))]
    [t.start() for t in ts]
    [t.join() for t in ts]
    mon.check("threads do not fail", not bad, errors=bad[:3])
    for (j, r), v in got.items():
        _same(mon, v, alone[j])
    mon.event("answers from threads", len(got))
    mon.check("cleaning leaves no file", files() <= start)


def _fork(rng, mon, ims, alone, start):
    kept = _new(ims[0])
    kept.n_sources  # its stamps are on disk while the children run
    #  workers that never import their own copy of the package: plain forks
    with mp.get_context("fork").Pool(4) as pool:
        out = pool.map_async(_child, ims * 2, chunksize=1).get(240)
    for j, (v, n, mine) in enumerate(out):
        _same(mon, v, alone[j % len(ims)], worker=j)
    names = [f for *_, mine in out for f in mine]
    mon.check("no file is shared between processes",
              len(names) == len(set(names)), names=names[:4])
    _same(mon, answer(kept), alone[0])
    kept._clean()
    mon.event("answers from forked processes", len(out))
    mon.check("cleaning leaves no file", files() <= start)


class Mine(Exception):
    pass


def _context(rng, mon, ims, alone, start):
    for j, x in enumerate(ims):
        with _new(x) as s:
            if rng.random() < 0.8:
                _same(mon, answer(s), alone[j])
        mon.check("leaving the context removes its files", files() <= start,
                  left=sorted(files() - start)[:4])
    other = _new(ims[0])
    _same(mon, answer(other), alone[0])
    held = files() - start

    def fails():
        with _new(ims[1]) as s:
            s.n_sources
            raise Mine()

    mon.raises("an exception in the context goes through", Mine, fails)
    mon.check("leaving the context removes its files",
              files() - start == held, left=sorted(files() - start)[:4])
    _same(mon, answer(other), alone[0])
    other._clean()
    other._clean()  # twice is harmless
    mon.check("cleaning leaves no file", files() <= start)
    mon.event("contexts", len(ims) + 1)


def _operations(rng, mon, ims, alone, start):
    from properimage import operations as op

    for form in ("array", "mixed"):
        d = sky.pair(rng, (190, 200), n=34, lo=8000,
                     damage=bool(rng.random() < 0.5))
        mine = _new(d["ref"]) if form == "mixed" else d["ref"]
        if form == "mixed":
            mine.n_sources
        held = files()
        op.subtract(mine, d["new"], beta=False, shift=False,
                    fitted_psf=False, align=bool(rng.random() < 0.5))
        left = files() - held
        mon.check("operations leave no file behind", not left,
                  left=sorted(left)[:4], op="subtract")
        e = sky.stack(rng, (190, 200), k=3, n=34, lo=8000)
        arr = [mine] if form == "mixed" else []
        arr = [_new(e["images"][0])] if form == "mixed" else \
            [e["images"][0]]
        if form == "mixed":
            arr[0].n_sources
        held = files()
        op.coadd(arr + e["images"][1:], align=bool(rng.random() < 0.5),
                 inf_loss=0.4, n_procs=int(rng.integers(1, 4)))
        left = files() - held
        mon.check("operations leave no file behind", not left,
                  left=sorted(left)[:4], op="coadd")
        if form == "mixed":
            mon.check("images of the caller keep their files",
                      held <= files())
            answer(mine), answer(arr[0])
            mine._clean()
            arr[0]._clean()
        mon.event("operations", 2)
    _failures(rng, mon, start)
    mon.check("cleaning leaves no file", files() <= start)


def _failures(rng, mon, start):
    """Operations that end with an error, at some point of their work."""
    from properimage import operations as op
    from properimage.single_image import SingleImage

    class Breaks(SingleImage):
        when = None

        def _at(self, name):
            if name == self.when:
                raise Mine(name)

        @property
        def s_hat_comp(self):
            self._at("image")
            return super().s_hat_comp

        @property
        def interped_hat(self):
            self._at("image")
            return super().interped_hat

        def psf_hat_sqnorm(self):
            self._at("power")
            return super().psf_hat_sqnorm()

        def get_variable_psf(self, *a, **k):
            self._at("psf")
            return super().get_variable_psf(*a, **k)

    d = sky.pair(rng, (150, 160), n=24, lo=900.0, hi=2600.0, ratio=18.0,
                 noise=(3.0, 3.0), seeing=(1.7, 1.8))
    e = sky.stack(rng, (150, 160), k=4, n=24, lo=8000)
    bad = Breaks(e["images"][0], stamp_shape=(13, 13))
    bad.when = str(rng.choice(["image", "psf"]))
    other = e["images"][1]
    way = bool(rng.integers(2))
    small = [x if j else x[:120] for j, x in enumerate(e["images"])]
    calls = {
        "flux ratio out of reach": lambda: op.subtract(
            d["ref"], d["new"], beta=True, shift=bool(way),
            fitted_psf=False),
        "subtracted exposure fails": lambda: op.subtract(
            other if way else bad, bad if way else other, beta=False,
            shift=False, fitted_psf=False),
        "sizes differ": lambda: op.coadd(
            small[::-1] if way else small, align=False, inf_loss=0.5,
            n_procs=int(rng.integers(1, 4))),
        "coadded exposure fails": lambda: op.coadd(
            e["images"][1:] + [bad] if way else [bad] + e["images"][1:],
            align=False, inf_loss=0.5, n_procs=int(rng.integers(1, 4))),
        "aligned exposure fails": lambda: op.coadd(
            e["images"][1:3] + [np.full((150, 160), 90.0)], align=True),
    }
    for what, call in calls.items():
        if what == "coadded exposure fails":
            bad.when = str(rng.choice(["image", "power"]))
        held = files()
        try:
            call()
        except Exception:
            mon.event("operations that failed")
        mine = {f for f in files() if os.path.basename(bad.dbname) in f}
        left = files() - held - mine
        mon.check("failing operations leave no file behind", not left,
                  left=sorted(left)[:4], what=what)
        mon.check("images of the caller keep their files", held <= files(),
                  what=what)
    bad._clean()


def _descriptors(rng, mon, ims, alone, start):
    import tempfile

    from astropy.io import fits
    from properimage.single_image import SingleImage

    tmp = tempfile.mkdtemp(dir=os.environ["TMPDIR"])
    p = os.path.join(tmp, "x.fits")
    fits.PrimaryHDU(ims[0]).writeto(p)
    gc.collect()

    def n_fd():
        return len(os.listdir("/proc/self/fd"))

    def once(j):
        s = SingleImage(p if j % 2 else ims[j % len(ims)],
                        stamp_shape=(13, 13))
        answer(s)
        s._clean()
        return s

    once(0), once(1)
    before = n_fd()
    keep = [once(j) for j in range(10)]
    mon.check("descriptors do not pile up", n_fd() <= before + 3,
              before=before, after=n_fd())
    mon.event("images opened and cleaned", len(keep))
    os.remove(p)
    mon.check("cleaning leaves no file", files() <= start,
              left=sorted(files() - start)[:4])
