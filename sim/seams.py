# -*- coding: utf-8 -*-
"""The seams: file access, locks, clock and randomness as the code under test sees them.

Everything passes straight through unless a simulation is running, the calling
thread is one of its threads and (for files) the path lies under the scratch root.
"""
import _thread
import builtins
import errno
import io
import os
import pathlib
import random
import sys
import threading
import time

from . import core

_real = {
    'open': builtins.open, 'stat': os.stat, 'lstat': os.lstat, 'listdir': os.listdir,
    'scandir': os.scandir, 'os_open': os.open, 'os_read': os.read, 'os_close': os.close,
    'access': os.access, 'fstat': os.fstat, 'readlink': os.readlink,
    'time': time.time, 'time_ns': time.time_ns, 'sleep': time.sleep,
    'monotonic': time.monotonic, 'perf_counter': time.perf_counter,
    'urandom': os.urandom,
}


class State(object):
    sim = None
    root = None          # scratch directory, ends with a separator
    read_chunk = 0       # upper bound of bytes per read, 0: unbounded
    files = []           # every SimRaw opened in the simulation
    fds = {}             # raw descriptors opened in the simulation -> label
    opens = 0


S = State()


def _active():
    sim = S.sim
    if sim is None:
        return None
    t = sim.current()
    if t is None or t.quiet:
        return None
    return sim


def _label(path):
    if isinstance(path, int):
        return None
    try:
        p = os.fspath(path)
    except TypeError:
        return None
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    if not p.startswith(S.root):
        p = os.path.abspath(p) if not os.path.isabs(p) else os.path.normpath(p)
        if not (p + '/').startswith(S.root):
            return None
    return p[len(S.root):]


ERRNOS = {
    'open_err': (errno.EIO, errno.EACCES, errno.EMFILE, errno.ENFILE, errno.ENOENT, errno.EINTR,
                 errno.ENOMEM, errno.ESTALE),
    'read_err': (errno.EIO, errno.ESTALE, errno.EINTR, errno.ENOMEM),
    'stat_err': (errno.EIO, errno.EACCES, errno.ESTALE, errno.ENAMETOOLONG),
    'list_err': (errno.EIO, errno.EACCES, errno.EMFILE),
}


def make_oserror(kind, arg, path):
    e = ERRNOS[kind]
    no = e[arg % len(e)]
    return OSError(no, os.strerror(no) + ' (injected)', str(path))


def _fault(sim, fault, path):
    if fault is None:
        return
    t = sim.current()
    if fault.kind == 'read_int':
        exc = core.make_interrupt(fault.arg)
    elif fault.kind in ERRNOS:
        exc = make_oserror(fault.kind, fault.arg, path)
    else:
        return
    t.last_injected = exc
    raise exc


class SimRaw(io.RawIOBase):
    """A read-only raw file whose every read is a scheduling and fault point."""

    def __init__(self, sim, path, label, opener=None):
        self._f = io.FileIO(path, 'rb', opener=opener) if opener else io.FileIO(path, 'rb')
        self._sim = sim
        self._label = label
        self.name = path
        S.files.append(self)
        S.opens += 1
        t = sim.current()
        if t is not None:
            t.open_files.append(self)
            t.shield = 1

    def readable(self):
        return True

    def seekable(self):
        return True

    def seek(self, *a):
        return self._f.seek(*a)

    def tell(self):
        return self._f.tell()

    def fileno(self):
        return self._f.fileno()

    def readinto(self, b):
        n = len(b)
        if _active():
            sim = S.sim
            fault = sim.point('io', 'read:' + self._label, ('read_err', 'read_int', 'short'))
            if fault is not None and fault.kind == 'short':
                n = min(n, 1 + fault.arg % 7)
            else:
                _fault(sim, fault, self.name)
            if S.read_chunk:
                n = min(n, S.read_chunk)
        data = self._f.read(n)
        b[:len(data)] = data
        return len(data)

    def readall(self):
        parts = []
        while True:
            data = self.read(8192)
            if not data:
                return b''.join(parts)
            parts.append(data)

    def close(self):
        if not self._f.closed:
            self._f.close()
        super(SimRaw, self).close()


def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None,
             closefd=True, opener=None):
    sim = _active()
    if sim is not None and not isinstance(file, int) and not set('wax+') & set(mode):
        label = _label(file)
        if label is not None:
            fault = sim.point('io', 'open:' + label, ('open_err', 'read_int'))
            _fault(sim, fault, file)
            raw = SimRaw(sim, os.fspath(file), label, opener)
            sim.log('open ' + label)
            if buffering == 0:
                if 'b' not in mode:
                    raise ValueError("can't have unbuffered text I/O")
                return raw
            buf = io.BufferedReader(raw, buffering if buffering > 1 else 8192)
            if 'b' in mode:
                return buf
            text = io.TextIOWrapper(buf, encoding, errors, newline, buffering == 1)
            text.mode = mode
            return text
    return _real['open'](file, mode, buffering, encoding, errors, newline, closefd, opener)


def _wrap_path(key, what, kinds):
    real = _real[key]

    def wrapper(path='.', *a, **kw):
        sim = _active()
        if sim is not None:
            label = _label(path)
            if label is not None:
                fault = sim.point('io', what + ':' + label, kinds)
                _fault(sim, fault, path)
        return real(path, *a, **kw)
    wrapper.__name__ = key
    return wrapper


def _fixed_listing(path, names):
    """Directory order is arbitrary in reality; here it is a function of the names."""
    sim = S.sim
    salt = str(sim.plan.get('listsalt', 0))
    return sorted(names, key=lambda n: core.crc(salt + str(n)))


def sim_listdir(path='.'):
    sim = _active()
    if sim is not None:
        label = _label(path)
        if label is not None:
            fault = sim.point('io', 'list:' + label, ('list_err',))
            _fault(sim, fault, path)
            return _fixed_listing(path, _real['listdir'](path))
    return _real['listdir'](path)


class _Scan(object):
    def __init__(self, entries):
        self._it = iter(entries)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass


def sim_scandir(path='.'):
    sim = _active()
    if sim is not None:
        label = _label(path)
        if label is not None:
            fault = sim.point('io', 'list:' + label, ('list_err',))
            _fault(sim, fault, path)
            with _real['scandir'](path) as it:
                d = dict((e.name, e) for e in it)
            return _Scan([d[n] for n in _fixed_listing(path, d)])
    return _real['scandir'](path)


def sim_os_open(path, flags, *a, **kw):
    sim = _active()
    if sim is not None and not flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT):
        label = _label(path)
        if label is not None:
            fault = sim.point('io', 'open:' + label, ('open_err', 'read_int'))
            _fault(sim, fault, path)
            fd = _real['os_open'](path, flags, *a, **kw)
            S.fds[fd] = label
            S.opens += 1
            return fd
    return _real['os_open'](path, flags, *a, **kw)


def sim_os_read(fd, n):
    sim = _active()
    if sim is not None and fd in S.fds:
        fault = sim.point('io', 'read:' + S.fds[fd], ('read_err', 'read_int', 'short'))
        if fault is not None and fault.kind == 'short':
            n = min(n, 1 + fault.arg % 7)
        else:
            _fault(sim, fault, S.fds[fd])
        if S.read_chunk:
            n = min(n, S.read_chunk)
    return _real['os_read'](fd, n)


def sim_os_close(fd):
    S.fds.pop(fd, None)
    return _real['os_close'](fd)


def sim_fstat(fd):
    sim = _active()
    if sim is not None:
        fault = sim.point('io', 'fstat', ('stat_err',))
        _fault(sim, fault, 'fd')
    return _real['fstat'](fd)


# ------------------------------------------------------------------ clock
def sim_time():
    return S.sim.now_ns / 1e9 if _active() else _real['time']()


def sim_time_ns():
    return S.sim.now_ns if _active() else _real['time_ns']()


def sim_mono():
    return S.sim.sim_ns / 1e9 if _active() else _real['monotonic']()


def sim_perf():
    return S.sim.sim_ns / 1e9 if _active() else _real['perf_counter']()


def sim_sleep(s):
    sim = _active()
    if sim is None:
        return _real['sleep'](s)
    sim.advance(int(s * 1e9))
    sim.point('sleep', 'sleep')


def sim_urandom(n):
    sim = _active()
    if sim is None:
        return _real['urandom'](n)
    return bytes(random._inst.getrandbits(8) for _ in range(n))


# ------------------------------------------------------------------ locks
_real_allocate = _thread.allocate_lock
_real_lock_type = _thread.LockType


class SimLock(object):
    """A lock whose blocking is decided by the simulator."""

    def __init__(self):
        self._held = False

    def acquire(self, blocking=True, timeout=-1):
        sim = _active()
        if sim is not None:
            sim.point('lock', 'acquire')
            while self._held:
                if not blocking:
                    return False
                if not sim.block(self, timeout_ok=timeout is not None and timeout >= 0):
                    return False
            self._held = True
            sim.current().shield = 1
            return True
        while self._held:
            if not blocking:
                return False
            if S.sim is not None and S.sim.current() is not None:
                S.sim.block(self)      # quiet code still must not spin
                continue
            raise RuntimeError('deadlock outside the simulation')
        self._held = True
        return True

    acquire_lock = acquire

    def release(self):
        if not self._held:
            raise RuntimeError('release unlocked lock')
        self._held = False
        sim = S.sim
        if sim is not None:
            sim.unblock(self)
            if _active():
                sim.point('lock', 'release')

    release_lock = release

    def locked(self):
        return self._held

    locked_lock = locked

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()


class SimRLock(object):
    def __init__(self):
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self._owner == me and self._count:
            self._count += 1
            return True
        sim = _active()
        if sim is not None:
            sim.point('lock', 'acquire')
        while self._count:
            if not blocking:
                return False
            if S.sim is not None and S.sim.current() is not None:
                if not S.sim.block(self, timeout_ok=timeout is not None and timeout >= 0):
                    return False
                continue
            raise RuntimeError('deadlock outside the simulation')
        self._owner = me
        self._count = 1
        if sim is not None:
            sim.current().shield = 1
        return True

    def release(self):
        if self._owner != _thread.get_ident() or not self._count:
            raise RuntimeError('cannot release un-acquired lock')
        self._count -= 1
        if not self._count:
            self._owner = None
            sim = S.sim
            if sim is not None:
                sim.unblock(self)
                if _active():
                    sim.point('lock', 'release')

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self._owner == _thread.get_ident() and self._count > 0

    def _release_save(self):
        c, o = self._count, self._owner
        self._count, self._owner = 0, None
        if S.sim is not None:
            S.sim.unblock(self)
        return c, o

    def _acquire_restore(self, x):
        self.acquire()
        self._count, self._owner = x


def _new_lock():
    return SimLock()


def _new_rlock(*a, **kw):
    return SimRLock()


# ------------------------------------------------------------------ randomness
MAX_DRAWS = 500000          # in one run; more is taken for an endless search for a free value


def seed_random(seed, bias=0):
    """bias>0: in that many of 100 draws the generator returns a value it returned before."""
    random.seed(seed)
    inst = random._inst
    inst.__dict__.pop('_randbelow', None)
    rng = core.Random(core.derive('bias', seed))
    real = type(inst)._randbelow
    draws = [0]

    def biased(n):
        draws[0] += 1
        if draws[0] > MAX_DRAWS and S.sim is not None:
            S.sim.stuck('random')
        if bias and rng.randrange(100) < bias:
            return rng.randrange(2) if n > 1 else 0
        return real(inst, n)
    inst._randbelow = biased


_installed = []


def install():
    """Called once per process, before the copy of kajiki under test is imported."""
    if _installed:
        return
    _installed.append(True)
    builtins.open = sim_open
    io.open = sim_open
    os.stat = _wrap_path('stat', 'stat', ('stat_err',))
    os.lstat = _wrap_path('lstat', 'stat', ('stat_err',))
    os.access = _wrap_path('access', 'stat', ())
    os.listdir = sim_listdir
    os.scandir = sim_scandir
    os.open = sim_os_open
    os.read = sim_os_read
    os.close = sim_os_close
    os.fstat = sim_fstat
    try:
        acc = pathlib._normal_accessor
        type(acc).stat = staticmethod(os.stat)
        type(acc).listdir = staticmethod(os.listdir)
        type(acc).scandir = staticmethod(os.scandir)
        type(acc).open = staticmethod(os.open)
    except AttributeError:
        pass
    time.time = sim_time
    time.time_ns = sim_time_ns
    time.monotonic = sim_mono
    time.perf_counter = sim_perf
    time.sleep = sim_sleep
    os.urandom = sim_urandom
    _thread.allocate_lock = _new_lock
    _thread.allocate = _new_lock
    _thread.RLock = _new_rlock
    threading.Lock = _new_lock
    threading._allocate_lock = _new_lock
    threading.RLock = _new_rlock
    threading._CRLock = _new_rlock


def begin(sim, root, read_chunk=0):
    S.sim = sim
    S.root = root if root.endswith('/') else root + '/'
    S.read_chunk = read_chunk
    S.files = []
    S.fds = {}
    S.opens = 0


def leaked():
    """Labels of the files opened in the simulation and still open."""
    return [f._label for f in S.files if not f._f.closed] + sorted(S.fds.values())
