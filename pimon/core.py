"""Recorder, scheduler and verdict of the runtime monitors.

A check module (pimon/checks/cNN.py) defines

    ID, TITLE, RULE, ASSUMPTIONS (optional)
    cases(tier, seed)  -> list of JSON-able dicts
    run(params, mon)   -> drives the real code, feeds the oracles of `mon`

Every case runs in one of eight spawned worker processes with a scratch TMPDIR of
its own; whatever the oracles record comes back to the parent, which decides
(held / violated / inconclusive), writes the evidence and the replay files.
"""

import hashlib
import importlib
import json
import multiprocessing as mp
import os
import pathlib
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = os.environ.get("PIMON_REPO", "/repo")
OUT = VERIF / "out"
KNOWN = VERIF / "known_findings.txt"

QUICK_BUDGET_S = 600.0
THOROUGH_BUDGET_S = 2700.0
# A case that does not end in this time is tried once more on its own slot; if it
# does not end then either, the code under test hangs: a violation.
# Inputs are small: an operation that needs more than this has lost its bounds.
MEMORY_LIMIT = 12 << 30
CASE_WATCHDOG_S = {"quick": 200.0, "thorough": 600.0}


# ---------------------------------------------------------------------------
# recorder
# ---------------------------------------------------------------------------
def _jsonable(o):
    import numpy as np

    if isinstance(o, dict):
        return {str(k): _jsonable(v) for k, v in o.items()}
    if isinstance(o, (list, tuple, set)):
        return [_jsonable(v) for v in o]
    if isinstance(o, np.ndarray):
        if o.size <= 12:
            return [_jsonable(v) for v in o.ravel().tolist()]
        return f"<array {o.shape} {o.dtype}>"
    if isinstance(o, (np.integer,)):
        return int(o)
    if isinstance(o, (np.floating,)):
        return float(o)
    if isinstance(o, (np.bool_,)):
        return bool(o)
    if isinstance(o, complex) or isinstance(o, np.complexfloating):
        return [float(o.real), float(o.imag)]
    if isinstance(o, (str, int, float, bool)) or o is None:
        return o
    return repr(o)[:200]


class Monitor:
    """What the oracles saw during one case."""

    def __init__(self):
        self.oracles = {}  # label -> [evaluated, failed]
        self.events = {}  # event kind -> count
        self.keys = set()  # what made the case distinct / non trivial
        self.failures = []
        self.samples = []

    # -- observations -----------------------------------------------------
    def event(self, kind, n=1):
        self.events[kind] = self.events.get(kind, 0) + int(n)

    def key(self, *parts):
        self.keys.add("|".join(str(p) for p in parts))

    def sample(self, **kw):
        if len(self.samples) < 3:
            self.samples.append(_jsonable(kw))

    # -- oracles ----------------------------------------------------------
    def check(self, label, ok, mech=None, **detail):
        ok = bool(ok)
        rec = self.oracles.setdefault(label, [0, 0])
        rec[0] += 1
        if not ok:
            rec[1] += 1
            if len(self.failures) < 40:
                self.failures.append(
                    {
                        "oracle": label,
                        "mech": mech or label,
                        "detail": _jsonable(detail),
                    }
                )
        return ok

    def close(self, label, got, want, rtol=1e-6, atol=0.0, mech=None, **detail):
        """|got - want| <= atol + rtol * max|want|, same shape, no NaN gap."""
        import numpy as np

        got = np.asarray(got)
        want = np.asarray(want)
        if got.shape != want.shape:
            return self.check(
                label, False, mech, got_shape=got.shape,
                want_shape=want.shape, **detail
            )
        if got.size == 0:
            return self.check(label, True)
        with np.errstate(all="ignore"):
            scale = np.max(np.abs(want))
            err = np.max(np.abs(got - want))
        bound = atol + rtol * scale
        ok = bool(err <= bound)  # False for NaN
        if not ok:
            with np.errstate(all="ignore"):
                delta = np.abs(got - want)
                nbad = int(np.sum(~(delta <= bound)))
            detail = dict(detail, err=err, bound=bound, n_bad=nbad,
                          size=got.size)
        return self.check(label, ok, mech, **detail)

    def equal(self, label, got, want, mech=None, **detail):
        import numpy as np

        got = np.asarray(got)
        want = np.asarray(want)
        ok = got.shape == want.shape
        if ok:
            same = got == want
            if got.dtype.kind in "fc" and want.dtype.kind in "fc":
                same = same | (np.isnan(got) & np.isnan(want))
            ok = bool(np.all(same))
            if not ok:
                detail = dict(detail, n_bad=int(np.sum(~same)), size=got.size)
        else:
            detail = dict(detail, got_shape=got.shape, want_shape=want.shape)
        return self.check(label, ok, mech, **detail)

    def raises(self, label, excs, fn, mech=None, **detail):
        """fn must refuse with one of `excs`."""
        try:
            val = fn()
        except excs as e:
            self.event("refusals")
            return self.check(label, True, mech, exc=repr(e)[:120])
        except Exception as e:  # wrong kind of refusal
            return self.check(label, False, mech, wrong_exception=repr(e)[:200],
                              **detail)
        return self.check(label, False, mech, returned=repr(val)[:120],
                          **detail)

    def dump(self):
        return {
            "oracles": self.oracles,
            "events": self.events,
            "keys": sorted(self.keys),
            "failures": self.failures,
            "samples": self.samples,
        }


# ---------------------------------------------------------------------------
# workers
# ---------------------------------------------------------------------------
def _quiet():
    import logging

    logging.disable(logging.CRITICAL)


def _run_case(mod, params):
    import warnings

    import numpy as np

    warnings.simplefilter("ignore")
    np.random.seed(
        int(hashlib.sha256(json.dumps(params, sort_keys=True).encode())
            .hexdigest()[:8], 16)
    )
    mon = Monitor()
    t0 = time.monotonic()
    try:
        mod.run(params, mon)
    except KeyboardInterrupt:
        raise
    except Exception as e:
        tb = traceback.format_exc()
        mon.check(
            "no unexpected exception",
            False,
            mech="exception:" + type(e).__name__,
            traceback=tb[-1800:], error=repr(e)[:300],
        )
    d = mon.dump()
    d["wall"] = time.monotonic() - t0
    return d


def _worker(check_id, conn, scratch):
    os.environ["TMPDIR"] = scratch
    tempfile.tempdir = None
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY_LIMIT, MEMORY_LIMIT))
    os.chdir(scratch)
    try:
        from . import attach

        attach.install()
        _quiet()
        mod = importlib.import_module(f"pimon.checks.{check_id.lower()}")
        if getattr(mod, "FRESH", False):
            from . import fresh

            fresh.start()
        conn.send(("ready", None))
    except BaseException as e:
        # The code under test does not even import: that is not an outcome a
        # behavioural monitor can judge.
        conn.send(("broken", traceback.format_exc()[-2000:] + repr(e)))
        return
    while True:
        try:
            item = conn.recv()
        except EOFError:
            return
        if item is None:
            return
        idx, params = item
        try:
            res = _run_case(mod, params)
            conn.send(("done", (idx, res)))
        except BaseException:
            conn.send(("error", (idx, traceback.format_exc()[-2000:])))


class _Slot:
    def __init__(self, ctx, check_id, scratch_root, n):
        self.ctx, self.check_id = ctx, check_id
        self.scratch = str(scratch_root / f"w{n}")
        self.start()

    def start(self):
        os.makedirs(self.scratch, exist_ok=True)
        self.conn, child = self.ctx.Pipe()
        self.proc = self.ctx.Process(
            target=_worker, args=(self.check_id, child, self.scratch)
        )
        self.proc.start()
        child.close()
        self.idx = None
        self.ready = False
        self.t0 = time.monotonic()

    def kill(self):
        try:
            self.proc.kill()
            self.proc.join(10)
        except Exception:
            pass
        self.conn.close()


def execute(check_id, case_list, tier, n_workers=8, budget=None):
    """Run the cases; returns (results by index, infrastructure problems)."""
    from multiprocessing.connection import wait

    budget = budget or (
        QUICK_BUDGET_S if tier == "quick" else THOROUGH_BUDGET_S
    )
    ctx = mp.get_context("spawn")
    root = pathlib.Path(tempfile.mkdtemp(prefix="pimon_"))
    results, problems = {}, []
    todo = list(range(len(case_list)))[::-1]
    t0 = time.monotonic()
    slots = []
    broken = False
    hung = set()
    try:
        slots = [
            _Slot(ctx, check_id, root, n)
            for n in range(min(n_workers, max(1, len(case_list))))
        ]
        while True:
            if time.monotonic() - t0 > budget:
                if todo:
                    problems.append(
                        ("budget", f"{len(todo)} cases not started in time")
                    )
                todo = []
                if time.monotonic() - t0 > budget + CASE_WATCHDOG_S[tier]:
                    problems.append(("watchdog", "run over its budget"))
                    break
            if broken:
                break
            for s in slots:
                if s.ready and s.idx is None and todo:
                    s.idx = todo.pop()
                    s.t0 = time.monotonic()
                    s.conn.send((s.idx, case_list[s.idx]))
            if not todo and all(s.idx is None for s in slots):
                break
            busy = [s for s in slots if not s.conn.closed]
            for c in wait([s.conn for s in busy], timeout=1.0):
                s = next(x for x in busy if x.conn is c)
                try:
                    kind, payload = c.recv()
                except (EOFError, OSError):
                    s.proc.join(5)
                    code = s.proc.exitcode
                    if s.idx is not None:
                        results[s.idx] = _died(code)
                        if results[s.idx] is None:
                            del results[s.idx]
                            problems.append(("died", f"worker exit {code}"))
                    else:
                        problems.append(("died", f"worker exit {code}"))
                        broken = True
                    s.kill()
                    s.start()
                    continue
                if kind == "ready":
                    s.ready = True
                elif kind == "broken":
                    problems.append(("import", payload))
                    broken = True
                elif kind == "done":
                    results[payload[0]] = payload[1]
                    s.idx = None
                else:
                    problems.append(("harness", payload[1]))
                    s.idx = None
            for s in slots:
                if (
                    s.idx is not None
                    and time.monotonic() - s.t0 > CASE_WATCHDOG_S[tier]
                ):
                    if s.idx in hung:
                        results[s.idx] = _hangs(CASE_WATCHDOG_S[tier])
                        todo = []  # no point in paying for more of them
                    else:
                        hung.add(s.idx)
                        todo.append(s.idx)
                    s.kill()
                    s.start()
    finally:
        for s in slots:
            try:
                if s.proc.is_alive() and s.idx is None and s.ready:
                    s.conn.send(None)
            except Exception:
                pass
        for s in slots:
            s.proc.join(3)
            s.kill()
        shutil.rmtree(root, ignore_errors=True)
    return results, problems


def _failed(label, mech, **detail):
    return {
        "oracles": {label: [1, 1]}, "events": {}, "keys": [], "samples": [],
        "wall": 0.0,
        "failures": [{"oracle": label, "mech": mech, "detail": detail}],
    }


def _hangs(seconds):
    return _failed("the call ends", "hang", twice_over_seconds=seconds)


def _died(code):
    """A worker killed by a fault signal is a violation, not a harness error."""
    if code is not None and code < 0 and -code in (
        signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE,
        signal.SIGILL,
    ):
        return _failed("no crash", f"signal:{-code}", signal=-code)
    return None


# ---------------------------------------------------------------------------
# known findings
# ---------------------------------------------------------------------------
def known_findings(prop):
    """{mechanism: description} of the findings listed for one property."""
    out = {}
    if not KNOWN.exists():
        return out
    for line in KNOWN.read_text().splitlines():
        if not line.startswith("known:"):
            continue
        parts = line[len("known:"):].strip().split(" ", 2)
        if parts[0] == f"property={prop}" and parts[1].startswith("mech="):
            out[parts[1][5:]] = parts[2]
    return out


# ---------------------------------------------------------------------------
# main
# ---------------------------------------------------------------------------
def _brief(d):
    return {k: (v if k != "traceback" else v[-450:]) for k, v in d.items()}


def run_check(check_id, tier, seed, only=None):
    t0 = time.monotonic()
    mod = importlib.import_module(f"pimon.checks.{check_id.lower()}")
    case_list = only if only is not None else mod.cases(tier, seed)
    results, problems = execute(check_id, case_list, tier)

    oracles, events, keys, samples = {}, {}, set(), []
    failing = []
    for idx in sorted(results):
        r = results[idx]
        for k, (n, f) in r["oracles"].items():
            o = oracles.setdefault(k, [0, 0])
            o[0] += n
            o[1] += f
        for k, n in r["events"].items():
            events[k] = events.get(k, 0) + n
        keys.update(r["keys"])
        if r["samples"] and len(samples) < 6:
            samples.append({"case": _jsonable(case_list[idx]),
                            "observed": r["samples"][0]})
        if r["failures"]:
            failing.append((idx, r["failures"]))

    known = known_findings(check_id)
    seen_known, violations = {}, []
    for idx, fails in failing:
        fresh = [f for f in fails if f["mech"] not in known]
        for f in fails:
            if f["mech"] in known:
                seen_known[f["mech"]] = known[f["mech"]]
        if fresh:
            violations.append((idx, fresh))

    required = set(getattr(mod, "REQUIRED", ()))
    missing = [r for r in required if oracles.get(r, [0])[0] == 0
               and events.get(r, 0) == 0]
    n_oracle = sum(v[0] for v in oracles.values())

    for mech, text in sorted(seen_known.items()):
        print(f"KNOWN-FINDING: property={check_id} mech={mech} {text}")

    OUT.mkdir(exist_ok=True)
    for n, (idx, fails) in enumerate(violations[:10]):
        path = OUT / f"{check_id}-{tier}-{seed}-{idx}.json"
        path.write_text(json.dumps(
            {"property": check_id, "tier": tier, "seed": seed,
             "params": _jsonable(case_list[idx]), "failures": fails},
            indent=1))
        print(f"VIOLATION property={check_id} replay={path}")
        for f in fails[:3]:
            print(f"  oracle: {f['oracle']}  {json.dumps(_brief(f['detail']))[:700]}")

    wall = time.monotonic() - t0
    slowest = max([r["wall"] for r in results.values()] or [0.0])
    evidence = {
        "property": check_id,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": len(results),
            "distinct_nontrivial": len(keys),
            "rule": mod.RULE,
            "samples": samples or [{"case": "none ran"}],
            "cases_planned": len(case_list),
            "oracle_evaluations": n_oracle,
            "oracles": {k: v[0] for k, v in sorted(oracles.items())},
            "events_observed": dict(sorted(events.items())),
            "slowest_case_s": round(slowest, 2),
            "infrastructure_problems": [p[0] for p in problems],
            "known_findings_seen": sorted(seen_known),
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])) or [
            "held on the executions observed; says nothing about inputs the "
            "workload did not drive"
        ],
        "wall_s": round(wall, 2),
        "violations": len(violations),
    }
    if only is None:
        ev = VERIF / "evidence"
        ev.mkdir(exist_ok=True)
        (ev / f"{check_id}.json").write_text(json.dumps(evidence, indent=1))

    print(
        f"{check_id} {tier} seed={seed}: {len(results)}/{len(case_list)} cases,"
        f" {n_oracle} oracle evaluations, {len(keys)} distinct, "
        f"{len(violations)} violating, {wall:.1f}s (slowest case {slowest:.1f}s)"
    )
    if violations:
        return 1
    if problems:
        for kind, text in problems[:5]:
            print(f"INCONCLUSIVE {kind}: {text}", file=sys.stderr)
        fatal = [p for p in problems if p[0] != "budget"]
        if fatal or len(results) < max(1, len(case_list) // 4):
            return 2
    if missing or not n_oracle:
        print(f"INCONCLUSIVE: never observed {missing}", file=sys.stderr)
        return 2
    return 0
