#!/usr/bin/env python3
"""Builds what the checks need, so that their first run is not slowed down."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vf
import checks

if __name__ == "__main__":
    for fn in checks.PREBUILD:
        fn()
    for d in ("evidence", "replays"):
        os.makedirs(os.path.join(vf.VERIF, d), exist_ok=True)
    print("setup done")
