# -*- coding: utf-8 -*-
"""One simulated run, executed in a forked child that starts from an untouched kajiki."""
import gc
import os
import random
import shutil
import sys
import traceback

from . import core, seams, kload


class Long(Exception):
    """The run takes too many steps, although it gets on."""


class Run(object):
    """What a property's scenario code sees."""

    def __init__(self, plan, root, kajiki):
        self.plan = plan
        self.scn = plan['scn']
        self.root = root if root.endswith('/') else root + '/'
        self.kajiki = kajiki
        self.sim = core.Sim(plan, os.path.join(kload.REPO, 'kajiki') + os.sep,
                            step_cap=plan.get('step_cap', 12000000))
        self.sim.template_prefixes = ('<string>', self.root)
        self.violations = []
        self.notes = {}
        self.nontrivial = True
        self.keep = []              # objects kept alive, so that identities stay distinct
        seams.begin(self.sim, self.root, plan.get('read_chunk', 0))
        seams.seed_random(plan.get('rseed', 0), plan.get('rbias', 0))

    # ------------------------------------------------------------ violations
    def viol(self, cls, detail, **data):
        self.violations.append({'class': cls, 'detail': detail, 'data': data})

    # ------------------------------------------------------------ files
    def path(self, name):
        return os.path.join(self.root, name)

    def write_file(self, name, data, mtime_ns=None):
        """Atomic replacement, outside the simulation (no points)."""
        path = self.path(name)
        d = os.path.dirname(path)
        if not os.path.isdir(d):
            os.makedirs(d)
        tmp = path + '.new~'
        if not isinstance(data, bytes):
            data = data.encode('utf-8')
        fd = seams._real['os_open'](tmp, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644)
        try:
            os.write(fd, data)
        finally:
            seams._real['os_close'](fd)
        if mtime_ns is not None:
            os.utime(tmp, ns=(mtime_ns, mtime_ns))
        os.rename(tmp, path)

    # ------------------------------------------------------------ threads
    def spawn(self, ops, handler, faults=()):
        """A simulated thread performing *ops* in order with handler(t, op)."""
        def body(t):
            for op in ops:
                self.sim.begin_op(t, op['id'], op.get('faults', faults))
                self.sim.rearm()
                self.sim.advance(1000000)
                self.sim.point('op', 'op:' + op['op'])
                handler(t, op)
                t.faults_allowed = ()
        return self.sim.add(body)

    def go(self):
        end = self.sim.run()
        if end in ('deadlock', 'stepcap') and self.plan.get('liveness', True):
            where = ['%d:%s:%s@%s' % (t.tid, t.op, t.state, t.site) for t in self.sim.threads]
            self.viol('no-progress', '%s: %s' % (end, ' '.join(where)))
        if end == 'long':
            raise Long              # nothing follows from it
        return end

    def result(self):
        s = self.sim
        for e in s.errors:
            self.notes.setdefault('errors', []).append(e)
        return {
            'end': s.end, 'violations': self.violations, 'digest': s.digest.hexdigest(),
            'ilv': s.ilv.hexdigest()[:16], 'steps': s.steps, 'switches': s.switches,
            'faults': s.fault_counts, 'probes': s.probes, 'states': sorted(s.states),
            'sim_ns': s.sim_ns, 'notes': self.notes, 'nontrivial': bool(self.nontrivial),
            'plan': s.recorded_plan(), 'opens': seams.S.opens,
        }


def execute(prop, plan, root, kajiki):
    """In the child: returns the result dict."""
    gc.disable()
    run = Run(plan, root, kajiki)
    try:
        prop.execute(run)
    except Long:
        run.nontrivial = False
    except BaseException:
        run.sim.errors.append(traceback.format_exc())
        run.sim.end = 'error'
    finally:
        sys.settrace(None)
    seams.S.sim = None
    return run.result()


def call_outcome(f, *a, **kw):
    """('ok', value) or ('exc', exception) for a call into the code under test."""
    try:
        return 'ok', f(*a, **kw)
    except BaseException as e:
        return 'exc', e


def clean_dir(root):
    for n in os.listdir(root):
        p = os.path.join(root, n)
        if os.path.isdir(p) and not os.path.islink(p):
            shutil.rmtree(p, ignore_errors=True)
        else:
            os.unlink(p)


def describe(exc):
    return '%s: %s' % (type(exc).__name__, str(exc)[:300])
