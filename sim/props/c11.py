# -*- coding: utf-8 -*-
"""C11: a render composed of several files uses whole, current versions of each."""
from .. import common, compose

ID = 'C11'
RUNS = {'quick': 2400, 'thorough': 30000}
RULE = ('a case is one simulated run: a generated page that extends, includes and imports other files (XML or text; '
        'file, package or Pyramid loader), rendered by several threads while editors replace each of the files; '
        'non-trivial when a file changed during a render')
ASSUMPTIONS = ['files are replaced atomically, each version with a modification time of its own']


def generate(rng, i, tier):
    scn = compose.gen_scene(rng)
    common.number(scn['threads'])
    if rng.random() < .08:
        scn['links'] = rng.choice(('target', 'repoint', 'release'))
    plan = {'scn': scn}
    plan.update(common.policy(rng, light=True))
    if rng.random() < .4:
        plan['trace']['only'] = ['loader.py', 'template.py', 'tpl']
        plan['trace']['frac'] = 1000
    if rng.random() < .6:
        plan['policy']['p_io'] = rng.choice((.05, .2, .5))
    return plan


def execute(run):
    w = compose.World(run)

    def handler(t, op):
        if op['op'] == 'edit':
            w.edit(op['name'], op['move'])
        else:
            w.render(t, op)
    for ops in run.scn['threads']:
        run.spawn(ops, handler)
    run.go()
    if run.sim.end != 'done':
        return
    run.nontrivial = False
    for r in w.renders:
        if any(w.site.changed(n, r['a'], r['b']) for n in w.ts['files']):
            run.nontrivial = True
        w.judge(r)
    # at rest, every part is the newest
    class T(object):
        fired, faults_allowed = (), ()
    r = w.render(T, {'id': -1, 'seed': run.plan.get('rseed', 0), 'op': 'final'})
    w.judge(r)
