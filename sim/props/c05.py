# -*- coding: utf-8 -*-
"""C05: with reload on, an import returns the template currently on disk."""
from .. import common, loading

ID = 'C05'
RUNS = {'quick': 3500, 'thorough': 40000}
RULE = ('a case is one simulated run: 1-3 template files, importer threads and editor threads replacing, deleting, '
        're-creating, corrupting and rewriting them in place with newer, older, sub-second and epoch modification '
        'times; non-trivial when an import ran after or during a change of its file')
ASSUMPTIONS = ['every version of a file has a modification time of its own, at least 1 ms from the others',
               'imports that overlap an in-place rewrite of their file may do anything; later ones may not']


def edits(rng, nfiles, n, ver, hows, ndirs=1):
    out = []
    for _ in range(n):
        ver[0] += 1
        out.append({'op': 'edit', 'f': rng.randrange(nfiles), 'v': ver[0], 'how': rng.choice(hows),
                    'move': loading.mtime_moves(rng), 'd': rng.randrange(ndirs)})
    return out


def generate(rng, i, tier):
    kind = rng.choice(('file', 'file', 'file', 'package', 'pyramid'))
    nf = rng.choice((1, 1, 2, 3))
    files = loading.gen_files(rng, nf, kind)
    ver = [0]
    initial = []
    for f in range(nf):
        if rng.random() < .9:
            ver[0] += 1
            initial.append({'f': f, 'v': ver[0], 'move': ('=', loading.BASE + rng.randrange(1000) * 10**9)})
    hows = rng.choice((('atomic',), ('atomic', 'atomic', 'delete'), ('atomic', 'inplace'),
                       ('atomic', 'atomic', 'atomic', 'delete', 'bad:unclosed', 'bad:badexpr', 'bad:badbytes')))
    threads = []
    if rng.random() < .35:
        # one thread alternating: every edit is complete before the next import
        ops = []
        for _ in range(rng.randint(3, 8)):
            ops += edits(rng, nf, 1, ver, hows)
            for _ in range(rng.choice((1, 1, 2))):
                ops.append({'op': 'import', 'f': ops[-1].get('f') if rng.random() < .7 else rng.randrange(nf)})
        threads.append(ops)
    for _ in range(rng.choice((1, 1, 2))):
        threads.append(edits(rng, nf, rng.randint(1, 4), ver, hows))
    for _ in range(rng.choice((1, 2, 2, 3))):
        threads.append([{'op': 'import', 'f': rng.randrange(nf)} for _ in range(rng.randint(2, 5))])
    if rng.random() < .3:
        threads.append([{'op': 'clock', 'ns': rng.choice((-3600, 3600, -10**7, 5)) * 10**9} for _ in range(3)])
    scn = {'site': {'kind': kind, 'front': loading.front(rng, kind)}, 'files': files, 'initial': initial, 'threads': common.number(threads)}
    if rng.random() < .2:
        scn['decoys'] = True
    if rng.random() < .2:
        scn['links'] = rng.choice(('target', 'target', 'repoint', 'release'))
    plan = {'scn': scn}
    plan.update(common.policy(rng, light=True))
    if rng.random() < .5:
        # most of the interest lies in the loader and around file operations
        plan['trace']['only'] = ['loader.py', 'pyramid.py']
        plan['trace']['frac'] = 1000
        plan['policy']['p_io'] = rng.choice((.1, .3, .6))
        if rng.random() < .5:
            plan['trace']['ops'] = 1000
    if rng.random() < .2:
        plan['read_chunk'] = rng.choice((700, 4000))
    return plan


def execute(run):
    w = loading.World(run)
    w.spawn()
    run.go()
    run.nontrivial = any(w.site.changed(w.files[r['f']]['name'], 0, r['b']) and len(
        w.site.timeline(w.files[r['f']]['name'])) > 1 for r in w.records)
    for r in w.records:
        w.judge_fresh(r)
    # when everything has come to rest, one more import of each file sees the last version
    if run.sim.end == 'done':
        loading.final_imports(w)
