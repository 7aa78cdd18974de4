#!/usr/bin/env python3
"""Warm-up: build every harness feature once (each check rebuilds what changed)."""
import sys
from concurrent.futures import ThreadPoolExecutor
import check, props
def one(f):
    _, _, lock = check.build(f)
    lock.close()
with ThreadPoolExecutor(4) as ex:
    list(ex.map(one, [p.lower() for p in props.PROPS]))
print('setup ok')
