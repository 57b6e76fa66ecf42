#!/usr/bin/env python3
"""Decide one property (or several) by static analysis of /repo's current source.

usage: check.py PROPERTY [--tier quick|thorough] [--list]

exit 0: the property held on everything analysed (known findings are listed);
exit 1: a VIOLATION line was printed; exit 2: the analysis itself is broken."""
import argparse
import gc
import importlib
import json
import os
import sys
import time
import traceback

if os.environ.get('PYTHONHASHSEED') != '0':        # the same order of work in every run
    os.execve(sys.executable, [sys.executable] + sys.argv, dict(os.environ, PYTHONHASHSEED='0'))

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
gc.disable()

from sa import model, registry        # noqa: E402


def load_known():
    known = {}
    with open(os.path.join(HERE, 'known_findings.txt')) as f:
        for line in f:
            line = line.strip()
            if not line.startswith('known: '):
                continue
            # known: property=C01 key=<key> :: what fails
            head, _, what = line[7:].partition(' :: ')
            prop, _, key = head.partition(' key=')
            known.setdefault(prop.split('=', 1)[1], {})[key.strip()] = what
    return known


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--list', action='store_true')
    ap.add_argument('--no-known', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    pid = a.property
    if pid not in registry.CHECKS:
        print('unknown property', pid)
        return 2
    mod = importlib.import_module('sa.props.' + registry.CHECKS[pid])
    prog = model.Program()
    res = mod.analyse(prog, pid, a.tier)
    known = {} if a.no_known else load_known().get(pid, {})
    new, old = [], []
    for f in res.findings:
        (old if f.key in known else new).append(f)
    if not new:
        for what, have, want in res.floors:
            if have < want:
                raise model.AnalysisBroken('%s: only %d analysed, at least %d expected' % (what, have, want))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    cov = dict(res.coverage)
    cov['explanation'] = res.explanation
    cov['rules'] = res.rules
    cov['samples'] = res.samples[:12]
    cov['known_findings'] = sorted(f.key for f in old)
    cov['analysed_files'] = res.files
    ev = {
        'property': pid, 'tier': a.tier if a.tier in ('quick', 'thorough') else 'quick',
        'seed': int(os.environ.get('VERIF_SEED') or 1),
        'level': 'other', 'coverage': cov, 'assumptions': res.assumptions,
        'wall_s': round(time.time() - t0, 2), 'violations': len(new)}
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1, default=str)
        fh.write('\n')
    seen = set()
    for f in old:
        if f.key not in seen:
            seen.add(f.key)
            print('KNOWN-FINDING: property=%s %s [%s]' % (pid, known[f.key], f.text))
    if new:
        rp = os.path.join(HERE, 'evidence', pid + '.violations.txt')
        with open(rp, 'w') as fh:
            for f in new:
                fh.write('%s\n    key: %s\n' % (f.text, f.key))
        for f in new:
            print(f.text)
            if a.list:
                print('    key:', f.key)
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    print('property %s held: %s' % (pid, json.dumps(res.coverage, default=str)[:600]))
    return 0


if __name__ == '__main__':
    try:
        rc = main()
    except model.AnalysisBroken as e:
        print('ANALYSIS BROKEN:', e)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
