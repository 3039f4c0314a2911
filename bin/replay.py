#!/usr/bin/env python3
"""replay.py FILE: run the execution recorded in a replay file again."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import simlib  # noqa: E402

with open(sys.argv[1]) as f:
    rep = json.load(f)
simlib.build([rep['exe']])
r = simlib.run_fresh(rep['exe'], rep['spec'])
print('status %d class %s hash %s (recorded %s)\n%s' %
      (r['status'], r['cls'], r['hash'], rep['hash'], r['msg']))
for line in simlib.symbolise(rep['exe'], r['msg']):
    print('  ' + line)
sys.exit(1 if r['status'] == 2 else 0)
