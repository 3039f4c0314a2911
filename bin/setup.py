#!/usr/bin/env python3
"""setup_cmd: build everything, which also fills the compiler cache."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import simlib  # noqa: E402
from props import PROPS  # noqa: E402

simlib.build(sorted({p['exe'] for p in PROPS.values()}))
print('built')
