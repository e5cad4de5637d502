"""A cooperative scheduler: real threads, exactly one of which runs.

A thread gives the baton up only at a scheduling point (a disk or network
operation, a metadata read, or a source line of the code under test) and the
seeded scheduler decides there whether another one continues.  A run is a
function of its choices; they are recorded as [point, thread] pairs, and a
recorded list replays the run.
"""
import dis
import logging
import os
import random
import sys
import threading

from . import simdisk

_REAL_LOCK = threading.Lock
_REAL_RLOCK = threading.RLock
_CURRENT = None


class Deadlock(Exception):
    pass


# what a global may hold without being state that threads share
_CONST = (type(os), type, type(lambda: 0), type(len), int, float, complex, str, bytes, tuple, frozenset, type(None), bool,
          logging.Logger)


_SHARED = {}


def shared_lines(frame):
    """Lines of this code that touch mutable state of the module or of a class:
    where the threads of a wrong tree would meet."""
    code = frame.f_code
    lines = _SHARED.get(code)
    if lines is None:
        lines = _SHARED[code] = set()
        line, cls = None, None
        for i in dis.get_instructions(code):
            line = i.positions.lineno if i.positions and i.positions.lineno else line
            if i.opname == 'STORE_GLOBAL':
                lines.add(line)
            elif i.opname == 'LOAD_GLOBAL':
                v = frame.f_globals.get(i.argval, None)
                cls = v if isinstance(v, type) else None
                if i.argval in frame.f_globals and not isinstance(v, _CONST) and not callable(v):
                    lines.add(line)
                continue
            elif cls is not None and i.opname == 'STORE_ATTR':
                lines.add(line)
            elif cls is not None and i.opname in ('LOAD_ATTR', 'LOAD_METHOD'):
                v = cls.__dict__.get(i.argval, None) if isinstance(i.argval, str) else None
                if isinstance(v, (dict, list, set, bytearray)):
                    lines.add(line)
            cls = None
    return lines


class Schedule:
    """choice of the next thread at each scheduling point"""

    def __init__(self, spec):
        self.spec = spec or {}
        self.explicit = None
        if 'explicit' in self.spec:
            self.explicit = {int(a): int(b) for a, b in self.spec['explicit']}
        self.rng = random.Random(self.spec.get('seed', 0))
        self.p = self.spec.get('p', 0.1)
        # switch only where a thread is at a source line for the first (second,
        # fourth, ...) time: rare lines count as much as those of a hot loop
        self.fresh = bool(self.spec.get('fresh'))
        self.seen = {}

    def pick(self, step, current, runnable, where=None, shared=False):
        """current: index or None when the current one ended."""
        if self.explicit is not None:
            t = self.explicit.get(step)
            if t is not None and t in runnable:
                return t
            return current if current in runnable else runnable[0]
        if current not in runnable:
            return self.rng.choice(runnable)
        if self.fresh and where is not None:
            n = self.seen[current, where] = self.seen.get((current, where), 0) + 1
            if shared:
                if len(runnable) > 1 and self.rng.random() < 0.3:
                    return self.rng.choice([t for t in runnable if t != current])
                return current
            if n & (n - 1):
                return current
        if len(runnable) > 1 and self.rng.random() < self.p:
            return self.rng.choice([t for t in runnable if t != current])
        return current


class Scheduler:
    def __init__(self, spec, prefixes=(), line_level=False, disk=None, max_steps=400000):
        self.schedule = Schedule(spec)
        self.prefixes = tuple(prefixes)
        self.line_level = line_level
        self.disk = disk
        self.step = 0
        self.max_steps = max_steps
        self.switches = []          # [step, thread] actually taken
        self.threads = []
        self.done = []
        self.cv = threading.Condition(_REAL_LOCK())
        self.turn = None
        self.results = []
        self.blocked = 0
        self.points = {}

    # -- called in the simulated threads
    def me(self):
        return getattr(threading.current_thread(), 'sim_index', None)

    def point(self, kind='line', where=None, shared=False):
        i = self.me()
        if i is None or self.turn != i:
            return
        self.points[kind] = self.points.get(kind, 0) + 1
        self.step += 1
        if self.step > self.max_steps:
            raise simdisk.SimHang(f'{self.step} scheduling points')
        run = [k for k in range(len(self.threads)) if not self.done[k]]
        nxt = self.schedule.pick(self.step, i, run, where, shared)
        if nxt != i:
            self.switches.append([self.step, nxt])
            self._hand(nxt, i)

    def yield_blocked(self):
        """The current thread cannot go on (a lock): somebody else must."""
        i = self.me()
        if i is None:
            return False
        run = [k for k in range(len(self.threads)) if not self.done[k] and k != i]
        if not run:
            raise Deadlock('every thread waits')
        self.blocked += 1
        if self.blocked > 20000:
            raise Deadlock('no thread makes progress')
        self.step += 1
        nxt = run[(self.step) % len(run)]
        self.switches.append([self.step, nxt])
        self._hand(nxt, i)
        return True

    def _hand(self, nxt, me):
        with self.cv:
            self.turn = nxt
            self.cv.notify_all()
            while self.turn != me:
                self.cv.wait()

    def _trace(self, frame, event, arg):
        fn = frame.f_code.co_filename
        if not fn.startswith(self.prefixes):
            return None
        return self._line

    def _line(self, frame, event, arg):
        if event == 'line':
            n = frame.f_lineno
            self.point('line', (frame.f_code, n), n in shared_lines(frame))
        return self._line

    def run(self, fns, procs=None):
        """Run the functions as simulated threads; returns [(status, value)]."""
        global _CURRENT
        self.threads = []
        self.done = [False] * len(fns)
        self.results = [None] * len(fns)
        for i, fn in enumerate(fns):
            t = threading.Thread(target=self._body, args=(i, fn), daemon=True)
            t.sim_index = i
            t.sim_proc = procs[i] if procs else 'main'
            self.threads.append(t)
        old_hook = None
        if self.disk is not None:
            old_hook = self.disk.hook
            self.disk.hook = self.point
        prev, _CURRENT = _CURRENT, self
        try:
            first = self.schedule.pick(0, None, list(range(len(fns))))
            if first != 0:
                self.switches.append([0, first])
            for t in self.threads:
                t.start()
            with self.cv:
                self.turn = first
                self.cv.notify_all()
                while not all(self.done):
                    self.cv.wait()
            for t in self.threads:
                t.join()
        finally:
            _CURRENT = prev
            if self.disk is not None:
                self.disk.hook = old_hook
        return self.results

    def _body(self, i, fn):
        with self.cv:
            while self.turn != i:
                self.cv.wait()
        if self.line_level:
            sys.settrace(self._trace)
        try:
            self.results[i] = ('ok', fn())
        except simdisk.SimCrash:
            self.results[i] = ('crash', None)
        except (simdisk.SimHang, Deadlock) as e:
            self.results[i] = ('hang', repr(e))
        except BaseException as e:
            self.results[i] = ('raise', e)
        finally:
            sys.settrace(None)
            with self.cv:
                self.done[i] = True
                run = [k for k in range(len(self.threads)) if not self.done[k]]
                if run:
                    self.step += 1
                    nxt = self.schedule.pick(self.step, None, run)
                    if nxt != run[0]:
                        self.switches.append([self.step, nxt])
                    self.turn = nxt
                else:
                    self.turn = None
                self.cv.notify_all()


# ---- locks made by the code under test ----------------------------------------
class SimLock:
    """A lock of the code under test: a waiting thread gives the baton up."""

    def __init__(self, make):
        self._l = make()

    def acquire(self, blocking=True, timeout=-1):
        s = _CURRENT
        if s is None or s.me() is None:
            return self._l.acquire(blocking, timeout)
        s.point('lock')
        while not self._l.acquire(False):
            if not blocking:
                return False
            if timeout is not None and timeout >= 0:
                d = simdisk.current()
                if d is not None:
                    d.clock += timeout
                return False
            s.yield_blocked()
        return True

    def release(self):
        self._l.release()

    def locked(self):
        return self._l.locked()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def __getattr__(self, name):
        return getattr(self._l, name)


def _factory(make, prefix):
    def lock(*a, **kw):
        f = sys._getframe(1)
        if f.f_code.co_filename.startswith(prefix):
            return SimLock(make)
        return make(*a, **kw)
    return lock


def install(prefix):
    threading.Lock = _factory(_REAL_LOCK, prefix)
    threading.RLock = _factory(_REAL_RLOCK, prefix)
    try:
        import fcntl
        real_flock = fcntl.flock

        def flock(fd, op):
            s = _CURRENT
            if s is None or s.me() is None or op & (fcntl.LOCK_NB | fcntl.LOCK_UN):
                return real_flock(fd, op)
            while True:
                try:
                    return real_flock(fd, op | fcntl.LOCK_NB)
                except BlockingIOError:
                    s.yield_blocked()
        fcntl.flock = flock
    except ImportError:
        pass
