# -*- coding: utf-8 -*-
"""Pieces shared by the properties' scenarios."""
import os

from . import core, gen, harness, source


# ---------------------------------------------------------------- plans
def policy(rng, faults=None, int_gap=0, budget=None, lines=True, light=False, fn=.2):
    """A random scheduling policy: the style of preemption differs from run to run."""
    style = rng.choice(('gap', 'gap', 'hot', 'io', 'mix'))
    pol = {'seed': rng.getrandbits(40), 'budget': budget or rng.choice((1, 2, 3, 5, 8, 15, 30, 60, 120))}
    if style in ('gap', 'mix'):
        pol['gap'] = rng.choice((3, 8, 20, 60, 200, 600))
    if style in ('hot', 'mix'):
        pol['p_hot'] = rng.choice((.005, .02, .06, .15))
        pol['q_hot'] = rng.choice((.2, .5, .9))
    if style in ('io', 'mix'):
        pol['p_io'] = rng.choice((.05, .15, .4, .8))
    if faults:
        pol['faults'] = faults
    if int_gap:
        pol['int_gap'] = int_gap
        if rng.random() < .4:
            # interrupts at a few chosen lines, however seldom they are reached
            pol['int_gap'] = 10**7
            pol['i_hot'] = rng.choice((.003, .01, .03, .1))
    trace = {'frac': 0, 'salt': 't%d' % rng.getrandbits(20)}
    if lines and (int_gap or style != 'io' or rng.random() < .3):
        trace['frac'] = rng.choice((1000, 1000, 500, 200, 80)) if not light else rng.choice((1000, 300, 60))
        if rng.random() < .15:
            trace['ops'] = rng.choice((1000, 300, 100))
    if lines and not int_gap and rng.random() < fn:
        # a few functions only, and nearly every line of them
        for k in ('p_hot', 'q_hot', 'p_io'):
            pol.pop(k, None)
        pol['gap'] = rng.choice((1, 2, 3, 5))
        if rng.random() < .7:
            pol['lines'] = 1
        pol['budget'] = rng.choice((15, 30, 60, 120))
        trace['frac'] = rng.choice((20, 40, 80, 160))
    return {'policy': pol, 'trace': trace, 'rseed': rng.getrandbits(30), 'listsalt': rng.randrange(1000)}


def number(threads):
    """Gives every operation its stable number."""
    n = 0
    for th in threads:
        for op in th:
            n += 1
            op['id'] = n
    return threads


# ---------------------------------------------------------------- files
def place(run, ts, where='', mtime_ns=None, prefix=''):
    """Writes the sources of a template set; returns name -> (source, lines)."""
    src = gen.sources(ts, (lambda n: prefix + n) if prefix else None)
    for name, (s, _) in src.items():
        run.write_file(os.path.join(where, name), s, mtime_ns)
    return src


def entry(ts, e):
    """The set with another of its files as the page: the layouts a page extends can be rendered as well."""
    names = [n for n in sorted(ts['files']) if n.split('.')[0] in ('mid', 'layout') and n != ts['main']]
    return dict(ts, main=names[e % len(names)]) if e is not None and names else ts


def ops_by_kind(ts):
    """How many nodes of each kind a template set has (for reporting)."""
    out = {}

    def walk(x):
        if isinstance(x, dict):
            if 't' in x:
                out[x['t']] = out.get(x['t'], 0) + 1
            for v in x.values():
                walk(v)
        elif isinstance(x, list):
            for v in x:
                walk(v)
    walk(ts['files'])
    return out


# ---------------------------------------------------------------- judging renders
def cut(s, j, n=60):
    return repr(s[max(0, j - n):j + n])


def first_diff(a, b):
    for j in range(min(len(a), len(b))):
        if a[j] != b[j]:
            return j
    return min(len(a), len(b))


def judge_complete(run, what, ts, src, text, translate=None, cls='wrong-output', **kw):
    """A render that completed: its log and text are those of the model."""
    m = gen.Model(ts, src.log, translate, **kw)
    try:
        exp = m.run()
    except gen.Mismatch as e:
        run.viol('wrong-evaluation', '%s: %s' % (what, e))
        return False
    if m.stopped:
        run.viol('wrong-evaluation', '%s: completed although the template goes on evaluating after %d evaluations'
                 % (what, len(src.log)))
        return False
    if m.pos != len(src.log):
        run.viol('wrong-evaluation', '%s: evaluations beyond the template: %r' % (
            what, [e[:2] for e in src.log[m.pos:m.pos + 3]]))
        return False
    if text != exp:
        j = first_diff(text, exp)
        run.viol(cls, '%s: at %d got %s expected %s' % (what, j, cut(text, j), cut(exp, j)))
        return False
    return True


def judge_partial(run, what, ts, src, text, translate=None, cls='wrong-output', must_reach=False, **kw):
    """A render that stopped early: its text is a prefix of what the model outputs."""
    m = gen.Model(ts, src.log, translate, **kw)
    try:
        exp = m.run()
    except gen.Mismatch as e:
        run.viol('wrong-evaluation', '%s: %s' % (what, e))
        return False
    if m.pos != len(src.log):
        run.viol('wrong-evaluation', '%s: evaluations beyond the point of failure: %r' % (
            what, [e[:2] for e in src.log[m.pos:m.pos + 3]]))
        return False
    if not exp.startswith(text):
        j = first_diff(text, exp)
        run.viol(cls, '%s: not a prefix: at %d got %s expected %s' % (what, j, cut(text, j), cut(exp, j)))
        return False
    return True


def exc_text(e):
    return harness.describe(e)
