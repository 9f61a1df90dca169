# -*- coding: utf-8 -*-
"""Deterministic simulator: real threads, one running at a time, every switch decided here.

A run is a pure function of a *plan* (JSON): the scenario (what each simulated
thread does), the trace scope (which functions yield at every line), and either
a scheduling policy with a seed (generation) or the recorded decisions (replay).
Decisions are keyed by (thread, operation, n-th scheduling point in the operation),
so that they stay meaningful when other operations or decisions are removed.
"""
import _thread
import hashlib
import linecache
import os
import random
import re
import sys
import zlib

_allocate_lock = _thread.allocate_lock
_get_ident = _thread.get_ident
Random = random.Random
_RELEASE = re.compile(r'\.(release|close|__exit__|__enter__|acquire)\(|^\s*with\b')


def crc(s):
    return zlib.crc32(s.encode('utf-8', 'surrogatepass')) & 0xffffffff


def derive(*parts):
    """A 63-bit integer from any printable parts (independent of hash seeds)."""
    h = hashlib.sha256('\x1f'.join(str(p) for p in parts).encode('utf-8')).digest()
    return int.from_bytes(h[:8], 'big') >> 1


class SimThread(object):
    def __init__(self, tid, body):
        self.tid = tid
        self.body = body
        self.baton = _allocate_lock()
        self.baton.acquire()
        self.state = 'ready'        # ready, blocked, done
        self.blocked_on = None
        self.timeout_ok = False
        self.timed_out = False
        self.op = -1                # stable id of the operation in progress
        self.n = 0                  # scheduling points passed in this operation
        self.faults_allowed = ()    # fault kinds the operation is exposed to
        self.quiet = 0              # >0: no scheduling points (harness code)
        self.site = 'start'
        self.fired = []             # faults fired in this operation
        self.tracing = False
        self.shield = 0             # line events at which no interrupt is delivered
        self.last_injected = None
        self.open_files = []        # SimRaw objects opened by this operation


class Fault(object):
    __slots__ = ('kind', 'arg')

    def __init__(self, kind, arg=None):
        self.kind = kind
        self.arg = arg


class Sim(object):
    def __init__(self, plan, repo_prefix, step_cap=600000):
        self.plan = plan
        self.threads = []
        self.cur = None
        self.by_ident = {}
        self.history = []
        self.steps = 0
        self.step_cap = step_cap
        self.users = 0               # evaluations and operations so far,
        self.user_at = 0             # and the step of the last one
        self.end = None              # how the run ended
        self.main_lock = _allocate_lock()
        self.main_lock.acquire()
        self.now_ns = 1500000000 * 10**9
        self.t0_ns = self.now_ns
        self.sim_ns = 0              # simulated time covered (monotonic sum)
        self.repo_prefix = repo_prefix
        self.template_prefixes = ('<string>', 'sim:')
        self.digest = hashlib.sha1()
        self.states = set()
        self.ilv = hashlib.sha1()
        self.fault_counts = {}
        self.switches = 0
        self.probes = {}
        self.errors = []
        # recorded decisions
        self.out_preempt = []
        self.out_faults = []
        self.replay = 'preempt' in plan
        if self.replay:
            self.r_pre = {}
            for tid, op, n, nxt in plan['preempt']:
                self.r_pre[(tid, op, n)] = nxt
            self.r_fault = {}
            for tid, op, n, kind, arg in plan['faults']:
                self.r_fault[(tid, op, n)] = (kind, arg)
        else:
            pol = plan['policy']
            self.rng = Random(pol['seed'])
            self.salt = 'hot%d' % pol['seed']
            self.p_hot = pol.get('p_hot', 0.0)
            self.q_hot = pol.get('q_hot', 0.0)
            self.i_hot = pol.get('i_hot', self.p_hot)   # share of the lines that attract interrupts
            self.gap = pol.get('gap', 0)
            self.io_gap = self.gap and not pol.get('lines')     # does *gap* count points that are no lines?
            self.p_io = pol.get('p_io', 0.0)
            self.budget = pol.get('budget', 0)
            self.fpol = pol.get('faults', {})       # kind -> [budget, prob or gap]
            self.fbudget = dict((k, v[0]) for k, v in self.fpol.items())
            self.countdown = self._draw_gap(self.gap)
            # 'interrupt' at lines: hot-site or gap driven
            self.int_cd = self._draw_gap(pol.get('int_gap', 0))
            self.int_gap = pol.get('int_gap', 0)
            self.i_nth = pol.get('i_nth', 0)        # interrupt at the n-th line of an operation
        self.trace_frac = plan.get('trace', {}).get('frac', 0)      # 0..1000
        self.trace_salt = plan.get('trace', {}).get('salt', '')
        self.trace_only = plan.get('trace', {}).get('only')        # file base names, or None
        self.op_frac = plan.get('trace', {}).get('ops', 0)          # 0..1000: opcode points
        self._opscope = {}
        self._release_line = {}
        self._scope = {}
        self._scope_keep = []
        self._hot = {}

    # ------------------------------------------------------------- bookkeeping
    def _draw_gap(self, g):
        if not g:
            return -1
        return 1 + int(self.rng.expovariate(1.0 / g))

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def record(self, kind, **data):
        """Append an event to the history; returns its global sequence number."""
        seq = len(self.history)
        data['ev'] = kind
        data['seq'] = seq
        t = self.current()
        data['tid'] = t.tid if t else None
        self.history.append(data)
        self.digest.update(('%s|%s|%s;' % (kind, data['tid'], data.get('tag', ''))).encode('utf-8', 'replace'))
        return seq

    def log(self, s):
        self.digest.update(s.encode('utf-8', 'replace'))

    def current(self):
        return self.by_ident.get(_get_ident())

    def advance(self, ns):
        self.now_ns += ns
        self.sim_ns += abs(ns)

    # ------------------------------------------------------------- threads
    def add(self, body):
        t = SimThread(len(self.threads), body)
        self.threads.append(t)
        return t

    def run(self):
        for t in self.threads:
            _thread.start_new_thread(self._thread_main, (t,))
        first = self._pick_next(None)
        self.cur = first
        first.baton.release()
        self.main_lock.acquire()
        return self.end

    def _thread_main(self, t):
        self.by_ident[_get_ident()] = t
        t.baton.acquire()
        try:
            try:
                self._settrace(t)
                t.body(t)
            finally:
                sys.settrace(None)
                t.tracing = False
        except BaseException as e:     # harness error: bodies catch what they expect
            import traceback
            self.errors.append('thread %d: %s' % (t.tid, traceback.format_exc()))
            self.finish('error')
            return
        t.state = 'done'
        t.site = 'done'
        self._leave(t)

    def _settrace(self, t):
        if self.trace_frac:
            t.tracing = True
            sys.settrace(self._tracer)

    def rearm(self):
        """Tracing is switched off by an exception raised from a tracer."""
        t = self.current()
        if t is not None and self.trace_frac and not t.quiet:
            sys.settrace(self._tracer)

    def finish(self, how):
        if self.end is None:
            self.end = how
            self.main_lock.release()

    def capped(self):
        """Too many steps: without end, or a run that is merely long."""
        return 'stepcap' if self.steps - self.user_at > 1000000 or self.users > 50000 else 'long'

    def stuck(self, where):
        """The current thread makes no progress although it reaches no scheduling point."""
        t = self.current()
        if t is not None:
            t.site = where
            self.finish('stepcap')
            self._park(t)

    def _park(self, t):
        lock = _allocate_lock()
        lock.acquire()
        lock.acquire()              # for ever; the process exits under us

    def _runnable(self, but=None):
        return [x for x in self.threads if x.state == 'ready' and x is not but]

    def _pick_next(self, t):
        """Next thread when *t* cannot go on (finished or blocked)."""
        cands = self._runnable()
        if not cands:
            # let a timed wait expire, if there is one
            for x in self.threads:
                if x.state == 'blocked' and x.timeout_ok:
                    x.timed_out = True
                    x.state = 'ready'
                    x.blocked_on = None
                    return x
            return None
        if len(cands) == 1:
            return cands[0]
        if t is None:
            key = (-1, -1, 0)
        else:
            key = (t.tid, t.op, -t.n - 1)
        if self.replay:
            tid = self.r_pre.get(key)
            for x in cands:
                if x.tid == tid:
                    return x
            return cands[0]
        nxt = cands[self.rng.randrange(len(cands))]
        self.out_preempt.append([key[0], key[1], key[2], nxt.tid])
        return nxt

    def _leave(self, t):
        nxt = self._pick_next(t)
        if nxt is None:
            if all(x.state == 'done' for x in self.threads):
                self.finish('done')
            else:
                self.finish('deadlock')
            return
        self._note_switch(t, nxt)
        self.cur = nxt
        nxt.baton.release()

    def _note_switch(self, t, nxt):
        self.switches += 1
        s = '%d@%s>%d@%s' % (t.tid, t.site, nxt.tid, nxt.site)
        self.digest.update(s.encode('utf-8'))
        self.ilv.update(s.encode('utf-8'))
        self.states.add(crc('|'.join(x.site for x in self.threads)))

    def _switch(self, t, nxt):
        self._note_switch(t, nxt)
        self.cur = nxt
        nxt.baton.release()
        t.baton.acquire()

    def block(self, on, timeout_ok=False):
        """Block the current simulated thread until unblock(on)."""
        t = self.current()
        t.state = 'blocked'
        t.blocked_on = on
        t.timeout_ok = timeout_ok
        t.timed_out = False
        self.probe('blocked_on_lock')
        nxt = self._pick_next(t)
        if nxt is None:
            self.finish('deadlock')
            self._park(t)
        if nxt is not t:
            self._switch(t, nxt)
        return not t.timed_out

    def unblock(self, on):
        for x in self.threads:
            if x.state == 'blocked' and x.blocked_on is on:
                x.state = 'ready'
                x.blocked_on = None

    # ------------------------------------------------------------- operations
    def begin_op(self, t, op, faults=()):
        t.op = op
        t.n = 0
        t.inl = 0
        t.faults_allowed = faults
        t.fired = []
        t.open_files = []

    # ------------------------------------------------------------- points
    def point(self, kind, what, fault_kinds=()):
        """A scheduling point outside traced lines. Returns a Fault or None."""
        t = self.current()
        if t is None or t.quiet or self.end is not None:
            if self.end is not None and t is not None:
                self._park(t)
            return None
        t.site = what
        t.n += 1
        self.steps += 1
        if kind == 'user' or kind == 'op':
            self.users += 1
            self.user_at = self.steps
        if self.steps > self.step_cap:
            self.finish(self.capped())
            self._park(t)
        fault = None
        nxt = None
        if self.replay:
            k = (t.tid, t.op, t.n)
            f = self.r_fault.get(k)
            if f is not None:
                fault = Fault(f[0], f[1])
            tid = self.r_pre.get(k)
            if tid is not None:
                nxt = self.threads[tid]
                if nxt.state != 'ready' or nxt is t:
                    nxt = None
        else:
            rng = self.rng
            if self.budget > 0:
                go = False
                if self.p_io and rng.random() < self.p_io:
                    go = True
                elif self.io_gap:
                    self.countdown -= 1
                    if self.countdown <= 0:
                        self.countdown = self._draw_gap(self.gap)
                        go = True
                if not go and self.p_hot and self._is_hot(what, self.p_hot) and rng.random() < self.q_hot:
                    go = True
                if go:
                    nxt = self._preempt_to(t)
            for fk in fault_kinds:
                if fk in t.faults_allowed and self.fbudget.get(fk, 0) > 0 \
                        and rng.random() < self.fpol[fk][1]:
                    self.fbudget[fk] -= 1
                    fault = Fault(fk, rng.getrandbits(16))
                    self.out_faults.append([t.tid, t.op, t.n, fk, fault.arg])
                    break
        if nxt is not None:
            self._switch(t, nxt)
        if fault is not None:
            self._note_fault(t, fault, what)
        return fault

    def _note_fault(self, t, fault, what):
        t.fired.append(fault.kind)
        self.fault_counts[fault.kind] = self.fault_counts.get(fault.kind, 0) + 1
        self.digest.update(('F%s@%s' % (fault.kind, what)).encode('utf-8'))

    def _preempt_to(self, t):
        cands = self._runnable(but=t)
        if not cands:
            return None
        nxt = cands[self.rng.randrange(len(cands))]
        self.budget -= 1
        self.out_preempt.append([t.tid, t.op, t.n, nxt.tid])
        return nxt

    def _is_hot(self, site, p):
        h = self._hot.get(site)
        if h is None:
            h = self._hot[site] = crc(self.salt + site) / 4294967296.0 < p
        return h

    # ------------------------------------------------------------- tracing
    def _tracer(self, frame, event, arg):
        code = frame.f_code
        sc = self._scope.get(id(code))
        if sc is None:
            sc = self._scope_of(code)
            self._scope[id(code)] = sc
            self._scope_keep.append(code)
        if sc is False:
            return None
        if self.op_frac and self._op_scope_of(code, sc):
            frame.f_trace_opcodes = True
        return self._local

    def _scope_of(self, code):
        fn = code.co_filename
        if fn.startswith(self.repo_prefix):
            base = os.path.basename(fn)
        else:
            for p in self.template_prefixes:
                if fn.startswith(p):
                    base = 'tpl'
                    break
            else:
                return False
        if self.trace_only is not None and base not in self.trace_only:
            return False
        if self.trace_frac < 1000 and \
                crc(self.trace_salt + base + code.co_name) % 1000 >= self.trace_frac:
            return False
        return base

    def _op_scope_of(self, code, base):
        r = self._opscope.get(id(code))
        if r is None:
            r = self._opscope[id(code)] = \
                crc('op' + self.trace_salt + base + code.co_name) % 1000 < self.op_frac
        return r

    def _no_interrupt_here(self, frame):
        """Nobody can defend a line that only releases a resource: no interrupt there."""
        code = frame.f_code
        key = (code.co_filename, frame.f_lineno)
        r = self._release_line.get(key)
        if r is None:
            text = linecache.getline(*key) if code.co_filename.startswith(self.repo_prefix) else ''
            r = self._release_line[key] = bool(_RELEASE.search(text))
        return r

    def _local(self, frame, event, arg):
        if event == 'opcode':
            line = False
        elif event == 'line':
            line = True
        else:
            if event == 'exception':
                # the next line of this frame may stand for the clean-up of a with block
                t = self.by_ident.get(_get_ident())
                if t is not None:
                    t.shield = max(t.shield, 1)
            return self._local
        t = self.by_ident.get(_get_ident())
        if t is None or t.quiet:
            return self._local
        if self.end is not None:
            self._park(t)
        t.n += 1
        self.steps += 1
        if self.steps > self.step_cap:
            self.finish(self.capped())
            self._park(t)
        if self.replay:
            k = (t.tid, t.op, t.n)
            tid = self.r_pre.get(k)
            f = self.r_fault.get(k)
            if tid is None and f is None:
                return self._local
            t.site = self._site(frame)
            if tid is not None:
                nxt = self.threads[tid]
                if nxt.state == 'ready' and nxt is not t:
                    self._switch(t, nxt)
            if f is not None:
                self._interrupt(t, Fault(f[0], f[1]))
            return self._local
        nxt = None
        if self.budget > 0:
            if self.gap:
                self.countdown -= 1
                if self.countdown <= 0:
                    self.countdown = self._draw_gap(self.gap)
                    t.site = self._site(frame)
                    nxt = self._preempt_to(t)
            if nxt is None and self.p_hot:
                site = self._site(frame)
                if self._is_hot(site, self.p_hot) and self.rng.random() < self.q_hot:
                    t.site = site
                    nxt = self._preempt_to(t)
        fault = None
        if line and t.shield:
            t.shield -= 1
        elif line and self.int_gap and 'interrupt' in t.faults_allowed \
                and self.fbudget.get('interrupt', 0) > 0 and not self._no_interrupt_here(frame):
            self.int_cd -= 1
            go = self.int_cd <= 0
            if go:
                self.int_cd = self._draw_gap(self.int_gap)
            elif self.i_nth:
                t.inl += 1
                go = t.inl == self.i_nth
            elif self.i_hot:
                site = self._site(frame)
                go = self._is_hot('i' + site, self.i_hot) and self.rng.random() < 0.4
            if go:
                t.site = self._site(frame)
                fault = Fault('interrupt', self.rng.getrandbits(16))
                self.fbudget['interrupt'] -= 1
                self.out_faults.append([t.tid, t.op, t.n, 'interrupt', fault.arg])
        if nxt is not None:
            self._switch(t, nxt)
        if fault is not None:
            self._interrupt(t, fault)
        return self._local

    def _site(self, frame):
        code = frame.f_code
        return '%s:%s:%d' % (self._scope.get(id(code)) or '?', code.co_name,
                             frame.f_lineno - code.co_firstlineno)

    def _interrupt(self, t, fault):
        self._note_fault(t, fault, t.site)
        exc = make_interrupt(fault.arg)
        t.last_injected = exc
        raise exc

    # ------------------------------------------------------------- result
    def recorded_plan(self):
        p = dict(self.plan)
        p.pop('policy', None)
        if not self.replay:
            p['preempt'] = self.out_preempt
            p['faults'] = self.out_faults
        return p


class SimTimeout(Exception):
    """Stands for an exception delivered asynchronously (alarm handlers, worker timeouts)."""


class SimBaseInterrupt(BaseException):
    pass


def make_interrupt(arg):
    cls = (KeyboardInterrupt, SimTimeout, MemoryError, SystemExit, SimBaseInterrupt,
           RecursionError)[arg % 6]
    return cls('injected')


def quietly(sim):
    return _Quiet(sim)


class _Quiet(object):
    """Code in this block is part of the harness: untraced, no points."""
    def __init__(self, sim):
        self.sim = sim

    def __enter__(self):
        self.t = self.sim.current()
        if self.t is not None:
            self.t.quiet += 1
            self.saved = sys.gettrace()
            sys.settrace(None)

    def __exit__(self, *a):
        if self.t is not None:
            self.t.quiet -= 1
            if not self.t.quiet:
                sys.settrace(self.saved)
        return False
