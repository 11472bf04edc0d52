#!/usr/bin/env python3
"""check.py ID [quick|thorough] - decides one property;  check.py --replay FILE - repeats a reported violation."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import runner  # noqa: E402

if __name__ == "__main__":
    if len(sys.argv) < 2:
        sys.exit(__doc__)
    if sys.argv[1] == "--replay":
        sys.exit(runner.replay(sys.argv[2]))
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    sys.exit(runner.main(sys.argv[1], tier, int(os.environ.get("VERIF_SEED", "1") or 1)))
