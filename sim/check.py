# -*- coding: utf-8 -*-
"""python -m sim.check ID [--tier quick|thorough] [--runs N] [--jobs N] | --replay FILE

Exit 0: held in every simulated run.  Exit 1: VIOLATION line and replay file.
Exit 2: the machinery could not give an answer.
"""
import argparse
import collections
import json
import os
import subprocess
import sys

from . import core, kload, runner, seams

try:                    # which line events a traced frame gets depends on what the JIT has compiled
    import pypyjit
    pypyjit.set_param('off')
    PYTHON = [sys.executable, '--jit', 'off']
except ImportError:
    PYTHON = [sys.executable]

HERE = runner.HERE
CAP = {'quick': 420.0, 'thorough': 3 * 3600.0}
REAL = ['every module of the kajiki package in the working tree (loader, xml_template, text, template, ir, util, '
        'lnotab, i18n, markup_template, entities, integration): unmodified source, compiled from the tree at start',
        'expat and the SAX reader, the Python tokenizer and compiler, pkg_resources',
        'the file system (a scratch directory in memory); bytes and modification times are real']
STUB = ['thread scheduling: real threads, one at a time, every switch chosen by the simulator',
        'threading.Lock/RLock: simulator locks', 'file opening, reading, stat and listing: real calls behind a seam '
        'that schedules, cuts reads short and injects errors', 'clock: simulated', 'the random module: seeded',
        'template users: generated templates, data sources, translators and file editors']


def report(args, seed, tier, prop, agg, wall, viol, extra):
    n = agg['runs']
    ev = {
        'property': prop.ID, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': n,
            'distinct_nontrivial': len(agg['distinct']),
            'rule': prop.RULE + '; distinct: different scenario, interleaving and fault sequence '
                                '(digest of every switch, fault and recorded event)',
            'samples': agg['samples'],
            'simulated_runs': n,
            'planned_runs': agg['planned'],
            'seeds': 'VERIF_SEED=%d; run i is derived from (seed, property, i)' % seed,
            'runs_per_hour': int(n / max(wall, .001) * 3600),
            'simulated_seconds': round(agg['sim_ns'] / 1e9, 3),
            'scheduling_points': agg['steps'],
            'context_switches': agg['switches'],
            'distinct_interleavings': len(agg['ilv']),
            'distinct_interleavings_measure': 'distinct sequences of (thread, site) -> (thread, site) switches in runs '
                                              'with at least one switch',
            'distinct_states': len(agg['states']),
            'distinct_states_measure': 'distinct tuples of code sites (file, function, line) at which the threads '
                                       'stood when a switch was made',
            'faults_injected': dict(agg['faults']),
            'run_endings': dict(agg['ends']),
            'probes': dict(agg['probes']),
            'real_components': REAL, 'stubbed_components': STUB,
        },
        'assumptions': list(getattr(prop, 'ASSUMPTIONS', ())) + [
            'threads switch only at lines (or bytecodes) of kajiki and template code, at lock and file operations and '
            'at calls into the data source; sequentially consistent memory'],
        'wall_s': round(wall, 2),
        'violations': viol,
    }
    ev['coverage'].update(extra)
    d = os.path.join(HERE, 'evidence')
    if not os.path.isdir(d):
        os.makedirs(d)
    path = os.path.join(d, prop.ID + '.json')
    with open(path + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write('\n')
    os.rename(path + '.tmp', path)


def sample(res):
    p = res.get('plan') or {}
    return {'run': res['i'], 'end': res['end'], 'scenario': p.get('scn'), 'preemptions': p.get('preempt', [])[:60],
            'faults': p.get('faults', []), 'trace': p.get('trace'), 'steps': res.get('steps'),
            'digest': res.get('digest')}


def replay_file(path, quiet=False):
    with open(path) as f:
        rec = json.load(f)
    b = runner.Batch(rec['property'], 0, 'quick', 1, 1, 1e9)
    try:
        b.setup()
        res = runner.run_checked(b.prop, rec['plan'], b.root(0), b.kajiki)
    finally:
        b.cleanup()
    return rec, res


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    ap.add_argument('--runs', type=int)
    ap.add_argument('--jobs', type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument('--replay')
    ap.add_argument('--json', action='store_true')
    ap.add_argument('--digests')
    ap.add_argument('--noshrink', action='store_true')      # for trials: no replay file
    args = ap.parse_args(argv)
    if args.replay:
        rec, res = replay_file(args.replay)
        if args.json:
            print('REPLAY ' + json.dumps({'digest': res.get('digest'), 'violations': res['violations'],
                                          'end': res['end']}))
        else:
            same = res.get('digest') == rec['digest']
            for v in res['violations']:
                print('reproduced: %s: %s' % (v['class'], v['detail']))
            print('end=%s digest %s the recorded one' % (res['end'], 'equals' if same else 'DIFFERS from'))
        if res['end'] == 'error':
            print('\n'.join(res['notes'].get('errors', [])), file=sys.stderr)
            return 2
        if res['violations']:
            print('VIOLATION property=%s replay=%s' % (rec['property'], args.replay))
            return 1
        return 0
    pid = args.property.upper()
    tier = args.tier
    t0 = runner.now()
    prop = runner.prepare(pid)
    total = args.runs or prop.RUNS[tier]
    b = runner.Batch(pid, args.seed, tier, total, args.jobs, CAP[tier])
    agg = {'runs': 0, 'planned': total, 'distinct': set(), 'samples': [], 'sim_ns': 0, 'steps': 0, 'switches': 0,
           'ilv': set(), 'states': set(), 'faults': collections.Counter(), 'ends': collections.Counter(),
           'probes': collections.Counter()}
    bad = []
    errors = []
    knowns = {}
    digests = {}

    def on_result(res):
        agg['runs'] += 1
        agg['ends'][res['end']] += 1
        if res['end'] == 'error':
            errors.append(res)
            return
        if res.get('nontrivial'):
            agg['distinct'].add(res['digest'])
        agg['sim_ns'] += res.get('sim_ns', 0)
        agg['steps'] += res.get('steps', 0)
        agg['switches'] += res.get('switches', 0)
        if res.get('switches'):
            agg['ilv'].add(res['ilv'])
        if len(agg['states']) < 2000000:
            agg['states'].update(res.get('states', ()))
        agg['faults'].update(res.get('faults', {}))
        agg['probes'].update(res.get('probes', {}))
        if res['i'] < 3 and len(agg['samples']) < 3:
            agg['samples'].append(sample(res))
        if args.digests:
            digests[res['i']] = res.get('digest')
        for v in res['violations']:
            k = runner.known_match(b.known, v)
            if k is None:
                bad.append((res['i'], res))
                break
            knowns[k['id']] = k

    code = 0
    try:
        b.setup()
        b.run(on_result)
        if args.digests:
            with open(args.digests, 'w') as f:
                json.dump(sorted(digests.items()), f)
        for k in knowns.values():
            print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
        if errors:
            print('HARNESS ERROR in run %s' % errors[0]['i'])
            print('\n'.join(errors[0]['notes'].get('errors', []))[-4000:])
        if bad:
            bad.sort(key=lambda x: x[0])
            code = 1 if handle(b, bad, pid, args, tier) else 2
        elif errors:
            code = 2
        elif agg['runs'] < total * .1:
            print('only %d of %d runs were possible in the time allowed' % (agg['runs'], total))
            code = 2
        wall = runner.now() - t0
        report(args, args.seed, tier, prop, agg, wall, 1 if code == 1 else 0, {'jobs': args.jobs})
        print('%s %s: %d of %d runs, %d distinct non-trivial, %d interleavings, faults %s, %.1f s' % (
            pid, tier, agg['runs'], total, len(agg['distinct']), len(agg['ilv']), dict(agg['faults']), wall))
    finally:
        b.cleanup()
    return code


def handle(b, bad, pid, args, tier):
    """Shrinks the first failing run that fails again from its record, writes and tries its replay file."""
    if args.noshrink:
        v = bad[0][1]['violations'][0]
        print('run %d: %s: %s' % (bad[0][0], v['class'], v['detail']))
        return True
    best = None
    for i, res in bad[:4]:
        small, tried = runner.shrink(b, res, budget_s=45 if tier == 'quick' else 240)
        if small is not None or best is None:
            best = (i, res, small, tried)
        if small is not None:
            break
    i, res, small, tried = best
    plan, last = small or (res['plan'], res)
    v = [v for v in last['violations'] if runner.known_match(b.known, v) is None][0]
    d = os.path.join(HERE, 'out')
    if not os.path.isdir(d):
        os.makedirs(d)
    path = os.path.join(d, '%s-seed%d-run%d.json' % (pid, args.seed, i))
    rec = {'property': pid, 'seed': args.seed, 'run': i, 'tier': tier, 'class': v['class'],
           'detail': v['detail'], 'violations': last['violations'], 'digest': last['digest'], 'plan': plan,
           'shrink_runs': tried, 'original_preemptions': len(res['plan'].get('preempt', [])),
           'preemptions': len(plan.get('preempt', [])), 'faults': len(plan.get('faults', []))}
    with open(path, 'w') as f:
        json.dump(rec, f, indent=1)
    same = False
    if small:
        p = subprocess.run(PYTHON + ['-m', 'sim.check', '--replay', path, '--json'], cwd=HERE,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
        for line in p.stdout.decode('utf-8', 'replace').splitlines():
            if line.startswith('REPLAY '):
                got = json.loads(line[7:])
                same = got['digest'] == last['digest'] and bool(got['violations'])
    print('%s: %s' % (v['class'], v['detail']))
    print('run %d, %d -> %d preemptions, %d faults, %d runs to shrink, replay in a new process: %s' % (
        i, rec['original_preemptions'], rec['preemptions'], rec['faults'], tried,
        'identical' if same else 'NOT identical'))
    print('VIOLATION property=%s replay=%s' % (pid, path))
    return True


if __name__ == '__main__':
    sys.exit(main())
