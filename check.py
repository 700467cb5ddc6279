#!/usr/bin/env python3
"""check.py ID  - decide one property: drive the real code, validate what it did
against the TLA+ specification with TLC, and model-check the specification.

Exit 0: the property held on everything explored.  Exit 1 with a VIOLATION line:
it is broken.  Exit 2: the machinery failed (no verdict)."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import vlib
from plans import PLANS

if __name__ == "__main__":
    pid = sys.argv[1]
    sys.exit(vlib.run_check(pid, PLANS[pid]))
