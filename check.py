#!/usr/bin/env python3
"""Decide one property of /repo by static analysis.

usage: check.py PROPERTY [quick|thorough]"""
import fnmatch
import json
import os
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'sa'))
sys.dont_write_bytecode = True
sys.setrecursionlimit(100000)

STATUS = [2]


def main():
    t0 = time.time()
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    from load import AnalysisBroken
    import decide
    try:
        r = decide.decide(pid, tier)
    except AnalysisBroken as e:
        print('ERROR property=%s analysis cannot proceed: %s' % (pid, e))
        STATUS[0] = 2
        return
    known = known_findings(pid)
    out, shown = [], []
    for v in r.violations:
        k = next((x for x in known if x[0] == v.key), None)
        if k is not None:
            shown.append((v, k))
        else:
            out.append(v)
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': r.level,
        'coverage': r.coverage(),
        'wall_s': round(time.time() - t0, 2),
    }
    ev['coverage']['violations'] = [v.brief() for v in out]
    ev['coverage']['known_findings'] = [v.brief() for v, k in shown]
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    path = os.path.join(HERE, 'evidence', pid + '.json')
    with open(path + '.tmp', 'w') as fh:
        json.dump(ev, fh, indent=1, sort_keys=True)
        fh.write('\n')
    os.replace(path + '.tmp', path)
    print('property %s (%s): %s' % (pid, tier, r.summary()))
    for n in r.notes:
        print('note: ' + n)
    for v, k in shown:
        print('KNOWN-FINDING: property=%s %s' % (pid, k[1]))
    if out:
        rp = os.path.join(HERE, 'evidence', '%s.violation.txt' % pid)
        with open(rp, 'w') as fh:
            for v in out:
                fh.write(v.full() + '\n\n')
        for v in out[:20]:
            print(v.full())
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        STATUS[0] = 1
        return
    STATUS[0] = 0


def known_findings(pid):
    """[(key, text)] of the findings listed for this property."""
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.rstrip('\n')
            if line.startswith('known: property=%s ' % pid):
                rest = line[len('known: property=%s ' % pid):]
                key, _, text = rest.partition(' | ')
                out.append((key.strip(), text.strip()))
    return out


threading.stack_size(512 * 1024 * 1024)
th = threading.Thread(target=main)
th.start()
th.join()
sys.stdout.flush()
sys.exit(STATUS[0])
