#!/usr/bin/env python3
"""Warm the content addressed build cache (every check rebuilds by itself if the tree differs)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import run
from props import PROPS
seen = set()
for p in PROPS.values():
    for c in p['conf']:
        k = (c['harness'], c.get('san', True))
        if k not in seen:
            seen.add(k)
            try:
                print(run.build(*k), flush=True)
            except run.CheckError as x:
                print('not built:', x)  # the check itself reports it.
