"""python -m pimon ID | --replay FILE | --selftest | --all [quick|thorough]."""

import json
import os
import pathlib
import sys

sys.path.insert(0, os.environ.get("PIMON_REPO", "/repo"))

from pimon import core  # noqa: E402

CHECKS = sorted(
    p.stem.upper()
    for p in (pathlib.Path(__file__).parent / "checks").glob("c[0-9]*.py")
)


def main(argv):
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if argv and argv[0] == "--replay":
        rec = json.loads(pathlib.Path(argv[1]).read_text())
        return core.run_check(rec["property"], rec.get("tier", tier),
                              rec["seed"], only=[rec["params"]])
    if argv and argv[0] == "--selftest":
        from pimon import selftest

        return selftest.main()
    if argv and argv[0] == "--all":
        rc = 0
        for cid in CHECKS:
            code = core.run_check(cid, tier, seed)
            rc = max(rc, code)
            if code:
                print(f"== {cid} exit {code}")
        return rc
    return core.run_check(argv[0].upper(), tier, seed)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
