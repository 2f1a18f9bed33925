"""Answers computed in a process in which nothing was ever asked before.

A template process is forked right after the imports; every request forks it
again, so state kept by the code under test between operations (caches of
modules, classes or files) cannot reach the answer.
"""

import importlib
import multiprocessing as mp
import os
import signal
import sys

_conn = None
_owner = None


class FreshFailed(RuntimeError):
    """The fresh process could not give an answer."""


def _template(conn, parent):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    while True:
        try:
            mod, fn, args = conn.recv()
        except (EOFError, OSError):
            os._exit(0)
        pid = os.fork()
        if pid == 0:
            try:
                out = getattr(importlib.import_module(mod), fn)(*args)
                conn.send(("ok", out))
            except BaseException as e:  # noqa: B902
                conn.send(("error", repr(e)[:500]))
            os._exit(0)
        _, status = os.waitpid(pid, 0)
        if status:
            conn.send(("died", status))


def start():
    """Fork the template; call it before anything is asked."""
    global _conn, _owner
    if _conn is not None and _owner == os.getpid():
        return
    import numpy as np  # noqa: F401
    import properimage.operations  # noqa: F401
    import properimage.single_image  # noqa: F401
    import properimage.utils  # noqa: F401

    mine, his = mp.Pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    parent = os.getpid()
    pid = os.fork()
    if pid == 0:
        mine.close()
        _template(his, parent)
    his.close()
    _conn, _owner = mine, parent


def answer(mod, fn, *args):
    """Result of `mod.fn(*args)` in a fresh process."""
    start()
    _conn.send((mod, fn, args))
    if not _conn.poll(240):
        raise FreshFailed("no answer in 240 s")
    kind, out = _conn.recv()
    if kind != "ok":
        raise FreshFailed(f"{kind}: {out}")
    return out
