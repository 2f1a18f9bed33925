"""Setup: the tools are there, the oracles can fail, the modules are complete."""

import importlib
import json
import pathlib

import numpy as np

from . import core


def main():
    import astroalign  # noqa: F401
    import astropy  # noqa: F401
    import joblib  # noqa: F401
    import scipy  # noqa: F401
    import sep  # noqa: F401

    m = core.Monitor()
    a = np.arange(6.0)
    assert m.close("x", a, a) and not m.close("x", a, a + 1)
    assert not m.close("x", a * np.nan, a) and not m.close("x", a[:3], a)
    assert m.equal("y", a, a) and not m.equal("y", a, a[::-1])
    assert not m.raises("z", ValueError, lambda: 1)
    assert not m.raises("z", ValueError, lambda: 1 / 0)
    assert len(m.failures) == 6
    # a call that dies or fails is judged, not lost
    assert core._died(-11)["failures"] and core._died(1) is None

    class Boom:
        @staticmethod
        def run(params, mon):
            raise RuntimeError("planted")

    assert core._run_case(Boom, {})["failures"]
    man = json.loads((core.VERIF / "MANIFEST.json").read_text())
    names = {c["property"] for c in man["checks"]}
    for p in sorted((pathlib.Path(__file__).parent / "checks").glob("c*.py")):
        mod = importlib.import_module(f"pimon.checks.{p.stem}")
        for tier in ("quick", "thorough"):
            cases = mod.cases(tier, 1)
            json.dumps(cases)
            assert cases and cases != mod.cases(tier, 2), p.stem
            assert cases == mod.cases(tier, 1), p.stem
        assert mod.ID in names, p.stem
    print(f"selftest: {len(names)} checks ready")
    return 0
