#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: decide one property from the
current source of /repo/jsons."""
import importlib
import json
import os
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)

from jsa.core import Ctx, VERIF            # noqa: E402
from jsa.model import AnalysisBroken       # noqa: E402


def known(prop):
    out = {}
    with open(os.path.join(VERIF, 'known_findings.txt')) as f:
        for line in f:
            line = line.strip()
            if line.startswith('finding: property=%s ' % prop):
                key, _, what = line.split(' ', 2)[2].partition(' -- ')
                out[key.strip()] = what
    return out


def main(argv):
    prop = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t = time.time()
    ctx = Ctx(prop, tier)
    mod = importlib.import_module('jsa.rules.' + prop.lower())
    broken = None
    try:
        mod.check(ctx)
    except Exception as err:
        if not ctx.findings:
            raise
        broken = err
        ctx.undecide('analysis broken: %s' % err)
    listed = known(prop)
    new = [f for f in ctx.findings.values() if f.key not in listed]
    old = [f for f in ctx.findings.values() if f.key in listed]
    if broken and not new:
        raise broken
    out = os.environ.get('JSA_EVID') or os.path.join(VERIF, 'evidence')
    os.makedirs(out, exist_ok=True)
    replays = []
    for i, f in enumerate(sorted(new, key=lambda f: f.key)):
        path = os.path.join(out, '%s-violation-%d.json' % (prop, i))
        with open(path, 'w') as fh:
            json.dump({'property': prop, 'rule': f.rule,
                       'construct': f.construct, 'where': f.where,
                       'message': f.msg, 'source_digest':
                       ctx.prog.digest.hexdigest()}, fh, indent=1)
        replays.append((f, path))
    cov = {'explanation': mod.__doc__.strip() + ' Rules: ' +
           ' | '.join(ctx.rules) +
           ' The analysed source digest is %s.'
           % ctx.prog.digest.hexdigest()[:16]}
    cov.update(ctx.counts)
    cov['functions_analysed'] = len(ctx.samples.get('functions', ()))
    for k, v in ctx.samples.items():
        cov['list_' + k] = sorted(v)[:80]
    cov['undecided'] = ctx.undecided
    cov['notes'] = ctx.notes[:40]
    cov['known_findings'] = [f.key for f in old]
    ev = {'property': prop, 'tier': tier, 'seed': seed,
          'level': LEVEL, 'coverage': cov,
          'wall_s': round(time.time() - t, 2),
          'violations': len(new)}
    with open(os.path.join(out, prop + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1)
    for f in sorted(old, key=lambda f: f.key):
        print('KNOWN-FINDING: property=%s %s (%s)' % (
            prop, f.key, listed[f.key]))
    for f, path in replays:
        print('%s [%s] %s: %s' % (f.where, f.rule, f.construct, f.msg))
        print('VIOLATION property=%s replay=%s' % (prop, path))
    if not new:
        print('%s: no violation; %s' % (prop, ', '.join(
            '%s=%s' % kv for kv in sorted(ctx.counts.items()))))
        for u in ctx.undecided:
            print('  undecided: ' + u)
    return 1 if new else 0


LEVEL = 'other'

if __name__ == '__main__':
    try:
        rc = main(sys.argv[1:])
    except (AnalysisBroken, ArithmeticError, LookupError, TypeError,
            ValueError, AttributeError, RecursionError) as err:
        print('analysis broken: %s' % err)
        rc = 2
    sys.exit(rc)
