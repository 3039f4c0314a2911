#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: seeded search for violations."""
import collections
import json
import os
import queue
import re
import subprocess
import sys
import threading
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import simlib  # noqa: E402
from props import PROPS, REAL, STUB  # noqa: E402

VERIF = simlib.VERIF


def known_findings(prop):
    """Lines 'finding: property=<id> workload=<w> class=<c> match=<regex>'."""
    out = []
    path = os.path.join(VERIF, 'known-findings.txt')
    if not os.path.exists(path):
        return out
    with open(path) as f:
        for line in f:
            m = re.match(r'finding: property=(\S+) workload=(\S+) class=(\S+) '
                         r'match=(.*?) -- (.*)$', line.strip())
            if m and m.group(1) == prop:
                out.append({'workload': m.group(2), 'cls': m.group(3),
                            'match': re.compile(m.group(4)),
                            'what': m.group(5)})
    return out


def reader(p, out):
    for line in p.stdout:
        out.put(line)
    out.put(None)


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else \
        os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    info = PROPS[prop]
    exe = info['exe']
    t0 = time.time()
    simlib.build([exe])
    t_build = time.time() - t0
    seconds = float(os.environ.get('VERIF_SECONDS', 0)) or \
        (info['quick_s'] if tier == 'quick' else info['thorough_s'])
    ran0 = time.time()
    q = queue.Queue()
    procs = []
    errlog = open(os.path.join(VERIF, 'build', 'run.%s.log' % prop), 'w')
    for c in range(simlib.NCPU):
        p = subprocess.Popen(
            [os.path.join(simlib.BUILD, exe), 'batch', '--prefix', prop + '.',
             '--seed', str(seed), '--start', str(c), '--stride',
             str(simlib.NCPU), '--count', '1000000000', '--seconds',
             str(seconds), '--cpu', str(c), '--twice-every', '32',
             '--max-bad', '1000', '--wall', '90'],
            stdout=subprocess.PIPE, stderr=errlog, text=True,
            env=simlib.tool_env())
        procs.append(p)
        threading.Thread(target=reader, args=(p, q), daemon=True).start()

    runs = collections.Counter()
    status = collections.Counter()
    faults = [0] * len(simlib.FAULTS)
    probes = [0] * 64
    tot = collections.Counter()
    hashes = set()
    scheds = set()
    policies = collections.Counter()
    nondet = 0
    twice = 0
    samples = []
    bad = []
    skipped = collections.Counter()
    alive = len(procs)
    stop_at = None
    kf = known_findings(prop)
    while alive:
        try:
            line = q.get(timeout=1)
        except queue.Empty:
            line = ''
        if line is None:
            alive -= 1
            continue
        if line:
            try:
                idx, j = line.split(' ', 1)
                r = json.loads(j)
            except ValueError:
                continue
            if r.get('twice'):
                twice += 1
            if r.get('nondeterministic'):
                nondet += 1
                continue
            r['index'] = int(idx)
            runs[r['workload']] += 1
            status[r['status']] += 1
            policies[simlib.POLICIES[r['policy']]] += 1
            for i, v in enumerate(r['faults']):
                faults[i] += v
            for i, v in r['probes']:
                probes[i] += v
            for k in ('events', 'steps', 'switches', 'tasks'):
                tot[k] += r[k]
            if r['status'] == 1 and (r['switches'] or any(r['faults'])):
                hashes.add(r['hash'])
            if r['switches']:
                scheds.add(r['sched'])
            if r['status'] in (3, 4):
                skipped[r['msg']] += 1
            if len(samples) < 5 and r['switches'] and len(runs) > len(samples):
                samples.append({k: r[k] for k in (
                    'index', 'workload', 'events', 'switches', 'tasks', 'hash',
                    'sched')})
            if r['status'] == 2:
                bad.append(r)
                if stop_at is None and not any(
                        k['workload'] == r['workload'] and k['cls'] == r['cls']
                        for k in kf):
                    stop_at = time.time() + 4
        if stop_at and time.time() > stop_at:
            for p in procs:
                p.terminate()
            stop_at = time.time() + 1e9
    for p in procs:
        p.wait()
    errlog.close()
    t_run = time.time() - ran0

    # --- judge what was found
    confirmed = None
    unconfirmed = 0
    known_seen = collections.Counter()
    fresh = []
    for r in bad:
        hit = None
        for k in kf:
            if k['workload'] == r['workload'] and k['cls'] == r['cls'] and \
                    k['match'].search(
                        r['msg'] + ' ' + ' '.join(simlib.symbolise(exe,
                                                                   r['msg']))):
                hit = k
                break
        if hit:
            known_seen[hit['what']] += 1
        else:
            fresh.append(r)
    fresh.sort(key=lambda r: len(r['choices']) + len(r['draws']))
    for r in fresh[:12]:
        g = simlib.gate(exe, r)
        if g is None:
            unconfirmed += 1
            continue
        confirmed = g
        confirmed['index'] = r['index']
        break
    for k in kf:
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    rc = 0
    violations = 0
    replay_path = None
    mini = None
    if confirmed:
        violations = 1
        rc = 1
        best, tried = simlib.minimise(
            exe, confirmed, 40 if tier == 'quick' else 120)
        g = simlib.gate(exe, best)
        if g is None:
            best = confirmed
        else:
            best = g
        os.makedirs(os.path.join(VERIF, 'evidence', 'replay'), exist_ok=True)
        replay_path = os.path.join(
            VERIF, 'evidence', 'replay', '%s-%s.json' % (prop, best['hash']))
        mini = {'attempts': tried, 'draws': len(best['draws']),
                'decisions': len(best['choices']),
                'draws_before': len(confirmed['draws']),
                'decisions_before': len(confirmed['choices'])}
        with open(replay_path, 'w') as f:
            json.dump({
                'property': prop, 'exe': exe, 'verif_seed': seed,
                'run_index': confirmed['index'], 'class': best['cls'],
                'message': best['msg'], 'hash': best['hash'],
                'where': simlib.symbolise(exe, best['msg']),
                'minimised': mini, 'spec': simlib.as_spec(best)}, f, indent=1)
    n = sum(runs.values())
    evidence = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'wall_s': round(time.time() - t0, 2), 'violations': violations,
        'coverage': {
            'evaluations': n,
            'distinct_nontrivial': len(hashes),
            'rule': 'one case = one simulated run, a pure function of '
                    '(VERIF_SEED, property, run index): workload, its inputs, '
                    'faults and every scheduling decision. Non-trivial: at '
                    'least one context switch or one injected fault happened '
                    'in it and it ran to its end; distinct: the hash over all '
                    'inputs, decisions and observed results is new.',
            'samples': samples,
            'runs_per_hour': int(n / max(t_run, 1e-3) * 3600),
            'search_seconds': round(t_run, 2),
            'build_seconds': round(t_build, 2),
            'simulated_time': {
                'unit': 'scheduling points (the code under test reads no '
                        'clock; simulated time is the sequence of points)',
                'scheduling_points': tot['events'],
                'instrumented_operations': tot['steps'],
                'context_switches': tot['switches'],
                'parallel_tasks': tot['tasks']},
            'faults_injected': dict(zip(simlib.FAULTS, faults)),
            'schedule_policies': dict(policies),
            'distinct_interleavings': len(scheds),
            'distinct_interleavings_measure':
                'hash of the sequence of (scheduling point, thread switched '
                'to) of a run',
            'runs_per_workload': dict(sorted(runs.items())),
            'probes': {info['probes'].get(str(i), str(i)): v
                       for i, v in enumerate(probes)
                       if v or str(i) in info.get('probes', {})},
            'determinism_reruns': twice, 'nondeterministic': nondet,
            'inconclusive_runs': dict(skipped),
            'unconfirmed_failures': unconfirmed,
            'known_findings_seen': dict(known_seen),
            'minimisation': mini,
            'real_components': REAL, 'stubbed_components': STUB},
        'assumptions': info['assumptions'],
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1)
    print('%s %s: %d runs in %.0f s (build %.0f s), %d distinct interleavings, '
          '%d inconclusive, %d determinism reruns, %d diverged' % (
              prop, tier, n, t_run, t_build, len(scheds),
              sum(skipped.values()), twice, nondet))
    if confirmed:
        print('violation class %s in %s: %s' % (
            best['cls'], best['workload'], best['msg'][:600]))
        print('VIOLATION property=%s replay=%s' % (prop, replay_path))
    elif fresh:
        print('error: %d failing runs, none reproduced' % len(fresh))
        rc = 2
    elif n == 0 or (status[1] == 0):
        print('error: no run completed')
        rc = 2
    sys.exit(rc)


if __name__ == '__main__':
    try:
        main()
    except RuntimeError as e:
        print('error: %s' % e)
        sys.exit(2)
