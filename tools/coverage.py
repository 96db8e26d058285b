#!/usr/bin/env python3
"""Which actions and expressions of the specifications TLC never evaluates.

mkdir /tmp/cover; VERIF_COVER=/tmp/cover python3 check.py Pnn (for every property); tools/coverage.py /tmp/cover
Coverage of all runs of a module is added up: an action (or an expression) is reported when no run of any
configuration has reached it."""
import collections
import glob
import os
import re
import sys

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")
actions, exprs = collections.Counter(), collections.Counter()
for f in glob.glob(sys.argv[1] + "/*.out"):
    # an action is listed once for each place it is used in
    a, e = collections.Counter(), collections.Counter()
    for line in open(f):
        if line[0] == '"':
            continue
        m = re.match(r"<(\w+) line (\d+), col (\d+) to line (\d+), col (\d+) of module (\w+)(?: \([^)]*\))?>: (\d+):(\d+)", line)
        if m:
            a[(m[6], m[1], int(m[2]))] += int(m[8])
            continue
        m = re.match(r"\s*\|*line (\d+), col (\d+) to line (\d+), col (\d+) of module (\w+): (\d+)", line)
        if m:
            e[(m[5], int(m[1]), int(m[2]), int(m[3]), int(m[4]))] += int(m[6])
    actions.update(a)
    exprs.update(e)
    for k in a:
        actions[k] += 0
    for k in e:
        exprs[k] += 0
# TLC counts an expression under the action it takes it to be part of, in pieces which differ from place to place:
# reached is what has a count, or has the same beginning as, or holds, something that has
reached = collections.defaultdict(list)
for (mod, l1, c1, l2, c2), n in exprs.items():
    if n:
        reached[mod].append(((l1, c1), (l2, c2)))
lines = {}
print(f"{len(actions)} actions, {len(exprs)} expressions")
for (mod, l1, c1, l2, c2), n in sorted(exprs.items()):
    if n or any(b == (l1, c1) or ((l1, c1) <= b and e <= (l2, c2)) for b, e in reached[mod]):
        continue
    p = f"{SPEC}/{mod}.tla"
    if mod not in lines and os.path.exists(p):
        lines[mod] = open(p).read().split("\n")
    if mod in lines:
        print(f"never evaluated: {mod} {l1}:{c1} {lines[mod][l1 - 1][c1 - 1:c2 if l1 == l2 else None][:110]}")
