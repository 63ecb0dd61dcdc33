#!/usr/bin/env python3
"""Replays one recorded violation, without the explorer: `replay.py replays/C01-0.txt`."""
import json
import os
import subprocess
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'tools'))
sys.dont_write_bytecode = True
import harness  # noqa: E402
import props  # noqa: E402
import check  # noqa: E402

r = json.load(open(os.path.splitext(sys.argv[1])[0] + '.json'))
p = next(x for x in props.PROPS if x['id'] == r['property'])
exe = harness.exe_for(r.get('harness', p['harness']))
sys.exit(subprocess.call(check.command(exe, r['property'], r['tier'], '/tmp') +
                         ['--replay', r['task'], ','.join(map(str, r['choices']))], env=check.ENV))
