#!/usr/bin/env python3
"""run.py <property id> [--thorough]: one property check."""
import os
import resource
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(200000)
from checks import ALL  # noqa: E402
from vf.check import main  # noqa: E402

if __name__ == "__main__":
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    pid = sys.argv[1]
    title, fn = ALL[pid]
    sys.exit(main(pid, title, fn, (fn.__doc__ or title).strip(), sys.argv[2:]))
