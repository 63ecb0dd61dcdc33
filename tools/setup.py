#!/usr/bin/env python3
"""setup_cmd: builds every harness once, so that a broken toolchain shows before any check runs."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build  # noqa: E402
import harness  # noqa: E402
import props  # noqa: E402

for name in sorted({h for p in props.PROPS if p['harness'] for h in [p['harness']] + p['also']}):
    h = props.HARNESSES[name]
    if all(os.path.exists(os.path.join(build.SRC, s)) for s in h['src']):
        print(harness.exe_for(name))
