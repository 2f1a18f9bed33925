"""Splitting work into chunks loses nothing."""

import collections

import numpy as np

ID = "C23"
RULE = (
    "one case = a batch of random sequences (lists, arrays, tuples, strings, "
    "objects that cannot be compared, equal items) split into a random number "
    "of chunks; the chunks together must be the sequence, item by item, each "
    "one once, in contiguous runs of nearly equal length; key = type|length|"
    "chunks"
)
REQUIRED = ["chunks hold every item once", "chunk count", "runs of the input",
            "chunks are balanced"]


class Thing:
    """No order, no equality but identity."""

    def __init__(self, n):
        self.n = n


def cases(tier, seed):
    n = 16 if tier == "quick" else 160
    return [{"seed": seed, "i": i} for i in range(n)]


def run(params, mon):
    from properimage import utils as u

    from .. import gen

    rng = gen.rng_of(params)
    for _ in range(400):
        size = int(rng.integers(0, 40) if rng.random() < 0.8
                   else rng.integers(40, 400))
        num = int(rng.integers(1, 2 * size + 4)) if rng.random() < 0.5 \
            else int(rng.integers(1, 12))
        kind = ["unique", "things", "tuple", "array", "equal", "random",
                "str", "2d", "range"][rng.integers(9)]
        items = list(range(size))
        if kind == "things":
            seq = [Thing(j) for j in items]
        elif kind == "tuple":
            seq = tuple(items)
        elif kind == "array":
            seq = np.arange(size)
        elif kind == "equal":
            seq = [7] * size
        elif kind == "random":
            seq = rng.integers(0, 5, size).tolist()
        elif kind == "str":
            seq = "".join(chr(97 + j % 26) for j in items)
        elif kind == "2d":
            seq = rng.random((size, 3))
        elif kind == "range":
            seq = range(size)
        else:
            seq = rng.permutation(size).tolist()
        before = _ids(seq)
        out = u.chunk_it(seq, num)
        out = list(out)
        mon.event("sequences split")
        mon.check("chunk count", len(out) == num, kind=kind, size=size,
                  num=num, got=len(out))
        got = [y for c in out for y in _ids(c)]
        mon.check("chunks hold every item once",
                  collections.Counter(got) == collections.Counter(before),
                  kind=kind, size=size, num=num)
        # every chunk is a run of consecutive items: put in the right order
        # they rebuild the sequence
        if kind in ("unique", "things", "tuple", "range"):
            where = {y: j for j, y in enumerate(before)}
            runs = [[where[y] for y in _ids(c)] for c in out if len(c)]
            ok = all(r == list(range(r[0], r[0] + len(r))) for r in runs)
            runs.sort()
            mon.check("runs of the input",
                      ok and sum(runs, []) == list(range(size)), kind=kind,
                      size=size, num=num)
        lens = [len(c) for c in out]
        mon.check("chunks are balanced", max(lens) - min(lens) <= 1,
                  lens=lens[:12], size=size, num=num)
        mon.check("the sequence is left alone", _ids(seq) == before)
        mon.key(kind, size, num)
    mon.sample(kind=kind, size=size, num=num, lens=lens[:12])


def _ids(seq):
    out = []
    for y in seq:
        if isinstance(y, Thing):
            out.append(("thing", y.n))
        elif isinstance(y, np.ndarray):
            out.append(tuple(y.tolist()))
        else:
            out.append(y.item() if hasattr(y, "item") else y)
    return out
