#!/usr/bin/env python3
"""setup_cmd: builds the harness, so that the checks only rebuild what changed."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import build, BuildError
import interp
import nostd
try:
    build(["dbg", "release"])
except BuildError as e:
    print(e)
    sys.exit(1)
# only C22, C23 and C26 need these, and report it themselves if they cannot be built
for what, job in (("asan", lambda: build(["asan"])), ("miri", interp.build_miri), ("nostd", nostd.prepare)):
    try:
        job()
    except BuildError as e:
        print(f"{what}: {e}")
print("built")
