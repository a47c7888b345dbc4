#!/usr/bin/env python3
"""check.py --property Cxx: decide one property from /repo's current source."""

import argparse
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
EVID = os.environ.get('VERIF_EVID') or os.path.join(HERE, 'evidence')
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

from sa import obl      # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--property')
    ap.add_argument('--only', help='obligation name filter (development)')
    ap.add_argument('--jobs', type=int, default=None)
    ap.add_argument('--list', action='store_true')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--each', type=float, default=None, help='time limit per obligation (development)')
    ap.add_argument('--selftest', action='store_true', help='load every obligation and exit')
    a = ap.parse_args()
    if a.selftest:
        obl.load_all()
        print('%d obligations' % len(obl.REG))
        return 0
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    obl.load_all()
    ks = [k for k, (ps, tg, nm, f) in enumerate(obl.REG)
          if (a.property is None or a.property in ps) and (a.only is None or a.only in nm or a.only in tg)]
    if a.list:
        for k in ks:
            print(obl.REG[k][0], obl.REG[k][1], obl.REG[k][2])
        return 0
    if not ks:
        print('no obligations for %s' % a.property)
        return 2

    def show(r):
        print('%-9s %6.1fs %s: %s' % ('VIOLATED' if r['violations'] else 'undecided' if r['undecided'] else 'ok',
                                      r['wall'], r['target'], r['name']), flush=True)
    res = obl.run_many(ks, a.jobs, each=a.each, progress=show if a.v else None)
    viol = [(r, m) for r in res for m in r['violations']]
    und = [(r, m) for r in res for m in r['undecided']]
    known = known_findings(a.property)
    rc = 0
    rep = os.path.join(EVID, '%s.replay.txt' % a.property)
    lines = []
    for r, m in viol:
        k = '%s: %s' % (r['target'], r['name'])
        if any(x in k + ': ' + m for x in known):
            print('KNOWN-FINDING: property=%s %s: %s' % (a.property, k, m))
            continue
        lines.append('%s: %s' % (k, m))
        rc = 1
    for r, m in und:
        print('UNDECIDED %s: %s: %s' % (r['target'], r['name'], m))
    if a.property and a.only is None:
        os.makedirs(os.path.join(EVID), exist_ok=True)
        funcs = sorted(set(f for r in res for f in r.get('functions', [])))
        files = sorted(set(f for r in res for f in r.get('files', [])))
        rules = {}
        for r in res:
            for k, v in r.get('loops', {}).items():
                rules[k] = rules.get(k, 0) + v
        ok = [r for r in res if not r['violations'] and not r['undecided']]
        ev = {
            'property': a.property, 'tier': tier, 'seed': seed, 'level': 'other',
            'coverage': {
                'explanation': 'Abstract interpretation of the current source over canonical index-notation terms '
                               '(symbolic dimensions, horizons and inputs); each obligation compares the value-flow '
                               'summary of one operation with its reference and is discharged when the normal forms agree.',
                'obligations': len(res), 'discharged': len(ok),
                'undecided': [{'where': '%s: %s' % (r['target'], r['name']), 'reason': m} for r, m in und],
                'compared_terms': sum(r.get('compared', 0) for r in res),
                'functions_analysed': funcs, 'files_read': files,
                'statements_interpreted': sum(r.get('stmts', 0) for r in res),
                'loop_closure_rules': rules,
                'obligation_list': [{'target': r['target'], 'name': r['name'], 'wall_s': r['wall'],
                                     'terms': r.get('compared', 0),
                                     'verdict': 'violated' if r['violations'] else
                                     'undecided' if r['undecided'] else 'discharged'} for r in res],
                'notes': sorted(set(n for r in res for n in r.get('notes', []))),
            },
            'assumptions': [
                'exact real arithmetic: floating-point rounding is not modelled',
                'matrices the code inverts or factorises are nonsingular',
                'library functions behave as documented (table in sa/libfns.py)',
            ],
            'wall_s': round(time.time() - t0, 2), 'violations': len(lines)}
        with open(os.path.join(EVID, '%s.json' % a.property), 'w') as f:
            json.dump(ev, f, indent=1)
    if lines:
        os.makedirs(os.path.dirname(rep), exist_ok=True)
        with open(rep, 'w') as f:
            f.write('\n'.join(lines) + '\n')
        for l in lines:
            print('  ' + l)
        print('VIOLATION property=%s replay=%s' % (a.property, rep))
    else:
        if os.path.exists(rep):
            os.remove(rep)
        print('%s: %d obligations, %d discharged, %d undecided, %.1fs' % (
            a.property, len(res), sum(1 for r in res if not r['violations'] and not r['undecided']),
            len(set(id(r) for r, m in und)), time.time() - t0))
    return rc


def known_findings(prop):
    p = os.path.join(HERE, 'known_findings.txt')
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding: property=%s ' % prop):
                out.append(l.split(' ', 2)[2])
    return out


if __name__ == '__main__':
    sys.exit(main())
