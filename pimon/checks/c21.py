"""Parallel coaddition: any worker count, any schedule, each exposure once."""

import threading
import time

import numpy as np

from .. import attach, gen, sky

ID = "C21"
RULE = (
    "one case = one stack coadded sequentially and with several worker counts "
    "while delays are injected at the points where a worker reads an exposure; "
    "exposures that contribute a tag of their own show whether each one is "
    "added exactly once, a failing exposure must fail the operation, and "
    "operations running side by side must not disturb each other; key = "
    "images|workers|observed interleaving"
)
REQUIRED = ["same coadd for every worker count",
            "every exposure is added exactly once",
            "a failing exposure fails the coadd",
            "operations side by side give their own result",
            "reads by a second thread"]


class Injected(Exception):
    pass


#  whatever kind of error an exposure fails with
FAULTS = [type("Injected" + e.__name__, (Injected, e), {}) for e in (
    RuntimeError, ValueError, MemoryError, OSError, KeyError, TypeError,
    IndexError, FloatingPointError, ArithmeticError, AttributeError,
    np.linalg.LinAlgError, NotImplementedError)]


def cases(tier, seed):
    n = 56 if tier == "quick" else 560
    kinds = ["equal", "tags", "equal", "tags", "fail", "side", "tags"]
    return [{"seed": seed, "i": i, "kind": kinds[i % 7]} for i in range(n)]


def _slow_class(base, rng, log, lock, tag=None, bad=None):
    naps = rng.uniform(0, 0.02, 4096)
    state = {"n": 0}

    def nap(who, what):
        with lock:
            k = state["n"]
            state["n"] += 1
            log.append((threading.get_ident(), who, what))
        time.sleep(naps[k % len(naps)])

    class Slow(base):
        @property
        def s_hat_comp(self):
            nap(self.serial, "enter")
            if bad is not None and (self.serial, "image") == tuple(bad[:2]):
                raise bad[2](f"exposure {bad[0]}")
            if tag is None:
                out = base.s_hat_comp.fget(self)
            else:
                out = np.zeros(self.data.shape, complex)
                out.ravel()[self.serial + 1] = 1.0
            nap(self.serial, "exit")
            return out

        def psf_hat_sqnorm(self):
            nap(self.serial, "psf enter")
            if bad is not None and (self.serial, "psf") == tuple(bad[:2]):
                raise bad[2](f"exposure {bad[0]}")
            if tag is None:
                out = base.psf_hat_sqnorm(self)
            else:
                out = np.ones(self.data.shape, complex) * (
                    self.var / self.zp) ** 2 * 4.0 ** self.serial
            nap(self.serial, "psf exit")
            return out

    return Slow


def _interleaving(log):
    order, names = [], {}
    for tid, who, what in log:
        if what == "enter":
            order.append((names.setdefault(tid, len(names)), who))
    return len(names), str(order)


def run(params, mon):
    from properimage import operations as op
    from properimage.single_image import SingleImage

    rng = gen.rng_of(params)
    kind = params["kind"]
    lock, log = threading.Lock(), []
    shape = (128, 128)
    if kind == "side":
        return _side(rng, mon, op)
    k = int(rng.integers(2, 10))
    if kind == "tags":
        k = int(rng.integers(1, 20))
    #  widths growing along the frame: the loss decides on the components
    var = kind == "equal" and rng.random() < 0.6
    loss = float(rng.choice([0.004, 0.02, 0.2])) if var else 0.5
    d = sky.stack(rng, shape, k=min(k, 4) if var else k,
                  n=26 if var else 16, damage=bool(rng.random() < 0.5),
                  variable=var)
    k = len(d["images"])
    if kind == "fail":
        bad = [0, "image", None]
        cls = _slow_class(SingleImage, rng, log, lock, bad=bad)
        imgs = _make(cls, d)
        for j, procs in enumerate((1, 1, 2, 3, int(rng.integers(2, k + 2)),
                                   int(rng.integers(2, k + 2)))):
            where = ["image", "psf"][rng.integers(2)]
            bad[:] = [int(rng.integers(k)), where,
                      FAULTS[(params["i"] // 7 * 6 + j) % len(FAULTS)]]
            mon.raises("a failing exposure fails the coadd", Injected,
                       lambda: op.coadd(imgs, align=False, inf_loss=0.5,
                                        n_procs=procs), procs=procs, k=k,
                       kind=bad[2].__name__, where=where)
            mon.event("faults injected")
            mon.key("fail", bad[2].__name__, where, procs)
    elif kind == "tags":
        cls = _slow_class(SingleImage, rng, log, lock, tag=True)
        imgs = _make(cls, d)
        union = np.logical_or.reduce([np.array(x.mask) for x in imgs])
        workers = {1, 2, 3, k, k + 1, int(rng.integers(1, 2 * k + 3))}
        for procs in sorted(workers):
            del log[:]
            few = int(rng.choice([0, 1, 2, 3])) or None
            R, P, m = _coadd(op, imgs, procs, few)
            if not log:  # the coadd no longer reads this attribute
                mon.event("seam unused")
                continue
            got = np.fft.fft2(np.asarray(R)).ravel()[1:k + 1]
            total = sum(4.0 ** j for j in range(k))
            got = got * np.sqrt(total)
            mon.close("every exposure is added exactly once", got,
                      np.ones(k), 1e-6, procs=procs, k=k, threads=few)
            reads = sorted(w for _, w, what in log if what == "enter")
            mon.event("exposure reads", len(reads))
            mon.equal("parallel mask is the union", m, union, procs=procs)
            nthr, order = _interleaving(log)
            mon.event("reads by a second thread",
                      len(reads) if nthr > 1 else 0)
            mon.key(k, procs, order)
        mon.sample(k=k, workers=sorted(workers), last=order[:120])
    else:
        cls = _slow_class(SingleImage, rng, log, lock)
        imgs = _make(cls, d)
        #  anew, or images that were asked before (with another loss too)
        kept = _make(cls, d)
        if rng.random() < 0.5:
            for x in kept:
                x.get_variable_psf(float(rng.choice([0.01, 0.1, 0.6])))
        one = op.coadd(imgs, align=False, inf_loss=loss, n_procs=1)
        mon.event("exposures of several components",
                  sum(len(x.get_variable_psf()[1]) > 1 for x in imgs))
        imgs += kept
        for procs in sorted({2, 3, k, k + 3}):
            del log[:]
            few = int(rng.choice([0, 1, 2])) or None
            two = _coadd(op, kept, procs, few, loss)
            nthr, order = _interleaving(log)
            mon.event("reads by a second thread", len(log) if nthr > 1 else 0)
            mon.close("same coadd for every worker count", two[0], one[0],
                      1e-9, procs=procs, k=k, threads=few)
            mon.close("same PSF for every worker count", two[1], one[1],
                      1e-9, procs=procs, k=k)
            mon.equal("same mask for every worker count", two[2], one[2])
            mon.check("the worker count does not change the kind of result",
                      all(np.asarray(a).dtype == np.asarray(b).dtype
                          for a, b in zip(one, two)))
            mon.key(k, procs, order)
    for x in imgs:
        x._clean()


def _coadd(op, imgs, procs, few, loss=0.5):
    """Coadd with no more than `few` threads behind the workers."""
    attach.WORKERS[0] = few
    try:
        return op.coadd(imgs, align=False, inf_loss=loss, n_procs=procs)
    finally:
        attach.WORKERS[0] = None


def _make(cls, d):
    imgs = []
    for j, x in enumerate(d["images"]):
        im = cls(x, stamp_shape=(13, 13))
        im.serial = j
        imgs.append(im)
    return imgs


def _side(rng, mon, op):
    """Several operations at once, on images of their own."""
    from properimage.single_image import SingleImage

    jobs = []
    for j in range(4):
        if j % 2:
            d = sky.stack(rng, (128, 128), k=3, n=16, damage=True)
            args = d["images"]
            jobs.append((args, lambda a: op.coadd(
                [SingleImage(x) for x in a], align=False, inf_loss=0.5,
                n_procs=2)))
        else:
            d = sky.pair(rng, (128, 140), damage=True)
            jobs.append(((d["ref"], d["new"]), lambda a: op.subtract(
                *a, beta=False, shift=False, fitted_psf=False,
                inf_loss=0.5)))
    solo = [fn(args) for args, fn in jobs]
    got, bad = [None] * len(jobs), []
    gate = threading.Barrier(len(jobs))

    def go(j):
        try:
            gate.wait()
            time.sleep(float(j % 3) * 0.002)
            got[j] = jobs[j][1](jobs[j][0])
        except Exception as e:  # noqa: B902
            bad.append(repr(e))

    ts = [threading.Thread(target=go, args=(j,)) for j in range(len(jobs))]
    [t.start() for t in ts]
    [t.join() for t in ts]
    mon.check("operations side by side do not fail", not bad, errors=bad)
    mon.event("operations side by side", len(jobs))
    for a, b in zip(solo, got):
        if b is None:
            continue
        for x, y in zip(a, b):
            mon.close("operations side by side give their own result",
                      np.asarray(y, complex), np.asarray(x, complex), 1e-8)
    mon.key("side", len(jobs), rng.integers(1 << 30))
