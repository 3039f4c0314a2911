#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS  # noqa: E402

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def m(*pairs):
    return [{'name': n, 'where': w} for n, w in pairs]


def p(id, title, statement, over, text, why, files, mechanism, observe=None,
      state=None):
    a = {'files': files, 'mechanism': m(*mechanism)}
    if observe:
        a['observe_at'] = observe
    if state:
        a['state'] = [{'name': n, 'meaning': x, 'where': w}
                      for n, x, w in state]
    a['hook_needed'] = None
    return {'id': id, 'title': title, 'statement': statement,
            'quantifier': {'over': over, 'text': text},
            'why_tests_cant': why, 'anchors': a}


from tables import PROPERTIES, NOT_APPLICABLE, CHECKS  # noqa: E402


def main():
    props = [p(*x) if isinstance(x, tuple) else p(**x)
             for x in PROPERTIES + [n[0] for n in NOT_APPLICABLE]]
    with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
        for x in props:
            assert len(x['title']) <= 80, x['id']
            f.write(json.dumps(x) + '\n')
    checks = []
    for x in props:
        i = x['id']
        if i not in PROPS:
            continue
        checks.append({
            'property': i,
            'quick_cmd': 'python3 bin/check.py %s quick' % i,
            'thorough_cmd': 'python3 bin/check.py %s thorough' % i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': 'deterministic simulation: seeded search over '
                         'schedules, faults and operation histories; '
                         + CHECKS[i][0],
            'level': 'exploration',
            'level_note': CHECKS[i][1] + ' Samples schedules and inputs; a '
                          'clean batch is evidence, not proof. Trusts the '
                          'simulated task scheduler, locks and heap to '
                          'behave like oneTBB, pthreads and malloc.'})
    claimed = {c['property'] for c in checks}
    na = [{'property': n[0]['id'] if isinstance(n[0], dict) else n[0][0],
           'reason': n[1]} for n in NOT_APPLICABLE]
    for x in props:
        assert (x['id'] in claimed) != any(
            n['property'] == x['id'] for n in na), x['id']
    man = {'version': 1, 'setup_cmd': 'python3 bin/setup.py',
           'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo: task scheduler, locks, threads and '
                    'heap are intercepted at link time; memory accesses by '
                    'compiler instrumentation. known-findings.txt lists '
                    'genuine defects.'}
    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
