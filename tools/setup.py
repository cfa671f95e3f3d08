#!/usr/bin/env python3
"""Check the tools and build the harness, so that later builds are incremental."""

import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import run  # noqa: E402
from checks import CHECKS  # noqa: E402

env = run.environment()
for v in sorted({s["build"] for c in CHECKS.values() for s in c["quick"]}):
    if v != "miri":
        run.build(v, env)
