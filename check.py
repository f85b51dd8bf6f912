#!/usr/bin/env python3
"""check.py PROPERTY  - decide one property (VERIF_TIER, VERIF_SEED).   check.py --setup - prebuild."""
import concurrent.futures
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vf import cli, core, miri, models, proofs, props  # noqa: E402


def setup():
    core.overrides()
    try:
        core.build_all([c for c in core.CONFIGS if c not in ("size", "o0", "native")])
    except core.BuildFailed as e:
        print(e)
        return 1
    with concurrent.futures.ThreadPoolExecutor(8) as pool:
        models.generate_all(pool)
        proofs.all_of_them(pool)
    cli.build()
    cli.shim()
    for t in ("s390x", "i686", "x64"):
        miri.sysroot(miri.LABELS[t][0])
    return 0


def main():
    if len(sys.argv) != 2:
        print(__doc__)
        return 2
    if sys.argv[1] == "--setup":
        return setup()
    chk = core.Check(sys.argv[1])
    try:
        props.run(chk)
    except core.ToolError as e:
        if not chk.violations:
            print(f"ERROR {chk.pid}: {e}")
            return 2
        chk.note(f"check cut short: {e}")
    except Exception:
        traceback.print_exc()
        if not chk.violations:
            return 2
    rc = chk.finish()
    if rc == 0:
        print(f"OK property={chk.pid} tier={chk.tier} states={chk.states} traces={chk.traces} wall={chk.elapsed():.0f}s")
    return rc


if __name__ == "__main__":
    sys.exit(main())
