#!/usr/bin/env python3
"""Runs the named groups of analyses (all when none is named) on $VERIF_REPO and prints every property violated."""
import os
import sys
sys.path.insert(0, sys.argv[1])
sys.setrecursionlimit(20000)
import check                            # noqa: E402
from sa import build, registry          # noqa: E402

find = check.known()
ctx = registry.Ctx(build.facts(), 'quick')
for g in sys.argv[2:] or registry.GROUPS:
    ctx.need(g)
bad = {}
for (p, rule, cons), (ok, d) in sorted(ctx.rep.obl.items()):
    if not ok and (p, rule, cons) not in find:
        bad.setdefault(p, []).append('  %s @ %s: %s' % (rule, cons, d[:300]))
for g, why in ctx.lost.items():
    for p, gs in registry.PROPS.items():
        if g in gs:
            bad.setdefault(p, []).append('  analysable @ %s: %s' % (g, why))
for p, ls in bad.items():
    print('\n'.join(ls[:20]))
    print('VIOLATION property=%s' % p)
