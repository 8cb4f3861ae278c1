#!/usr/bin/env python3
"""Decides one property of ratelmq from the source in /repo.

usage: python3 check.py ID...      (VERIF_TIER, VERIF_SEED from the environment)

Exit 0: every obligation of the property was discharged (known findings are printed). Exit 1: a line
VIOLATION property=<id> replay=<path> per property, with the violated obligations listed above it."""
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

from sa import build, registry          # noqa: E402


def known():
    """Findings that are recorded instead of repaired: (property, rule, construct) -> what fails."""
    out = {}
    with open(HERE + '/known-findings.txt') as f:
        for line in f:
            if not line.startswith('known: '):
                continue
            head, what = line[7:].rstrip('\n').split(' :: ', 1)
            p, rule, cons = [x.split('=', 1)[1] for x in head.split(' | ')]
            out[(p, rule, cons)] = what
    return out


def decide(pid, rep, facts, wall, tier, seed, find):
    obl = {k: v for k, v in rep.obl.items() if k[0] == pid}
    bad = []
    nknown = []
    for k, (ok, detail) in sorted(obl.items()):
        if ok:
            continue
        if k in find:
            nknown.append((k, find[k]))
        else:
            bad.append((k, detail))
    floor = registry.FLOOR.get(pid, 1)
    if len(obl) < floor:
        bad.append(((pid, 'instances', 'all'), 'only %d obligations found, at least %d expected: the rule lost its anchors'
                    % (len(obl), floor)))
    for k, what in nknown:
        print('KNOWN-FINDING: property=%s %s' % (pid, what))
    rules = {}
    for k, v in obl.items():
        rules.setdefault(k[1], [0, 0])[0 if v[0] else 1] += 1
    os.makedirs(HERE + '/evidence', exist_ok=True)
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'other', 'wall_s': round(wall, 2), 'violations': len(bad),
        'coverage': {
            'explanation': registry.EXPLAIN.get(pid, ''),
            'obligations': len(obl), 'discharged': sum(1 for v in obl.values() if v[0]),
            'rules': {r: {'discharged': a, 'not_discharged': b} for r, (a, b) in sorted(rules.items())},
            'known_findings': [w for _, w in nknown],
            'analyses': rep.numbers(),
            'instances': ['%s @ %s' % (k[1], k[2]) for k in sorted(obl)][:400],
            'crates': {c: len(j['bodies']) for c, j in facts.items()},
        },
        'assumptions': registry.ASSUME,
    }
    with open('%s/evidence/%s.json' % (HERE, pid), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s: %d obligations, %d discharged, %d known findings, %d violated (%.1f s)' %
          (pid, len(obl), ev['coverage']['discharged'], len(nknown), len(bad), wall))
    if bad:
        rp = '%s/evidence/%s.violations.txt' % (HERE, pid)
        with open(rp, 'w') as f:
            for k, d in bad:
                f.write('rule: %s\nconstruct: %s\n%s\n\n' % (k[1], k[2], d))
        for k, d in bad[:20]:
            print('  %s @ %s: %s' % (k[1], k[2], d[:300]))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return False
    return True


def main(ids):
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    find = known()
    t0 = time.time()
    facts = build.facts()
    tf = time.time() - t0
    good = True
    done = {}
    if ids == ['all']:
        ids = sorted(registry.PROPS)
    for pid in ids:
        t1 = time.time()
        rep = registry.run(pid, facts, tier, done)
        good &= decide(pid, rep, facts, tf + time.time() - t1, tier, seed, find)
    return 0 if good else 1


if __name__ == '__main__':
    try:
        sys.exit(main(sys.argv[1:]))
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(2)
