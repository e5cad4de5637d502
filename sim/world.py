"""A simulated machine and the processes that run on it.

`World.boot(fn)` runs fn in a forked interpreter - a process of the simulated
machine, so that nothing but the disk survives it - with the seams active, and
takes the state of the disk back when the process ends, however it ends.
"""
import gc
import os
import pickle
import select
import signal
import sys
import traceback

from . import env, simdisk
from .simdisk import SimCrash, SimHang, HarnessError  # noqa

BOOT_LIMIT = float(os.environ.get('NGC_BOOT_LIMIT', '90'))


class Outcome:
    """status: ok / raise / crash / hang / died"""

    def __init__(self, status, value=None, exc=None, msg='', where='', tb=''):
        self.status, self.value, self.exc, self.msg = status, value, exc, msg
        self.where, self.tb = where, tb

    @property
    def ok(self):
        return self.status == 'ok'

    def __repr__(self):
        if self.status == 'ok':
            return 'ok'
        if self.status == 'raise':
            return f'raised {self.exc}: {self.msg[:200]} at {self.where}'
        return f'{self.status} {self.msg}'


def describe(e):
    """(type, message, last frame in the code under test, 'sim' when the
    innermost frame belongs to the harness)"""
    where = ''
    tbs = traceback.extract_tb(e.__traceback__)
    p = env.prefix()
    for f in tbs:
        if f.filename.startswith(p):
            where = f'{f.filename[len(p):]}:{f.name}'
    names = [c.__name__ for c in type(e).__mro__]
    return names, str(e), where, ''.join(traceback.format_exception(e))[-3000:]


def bitten(e):
    """Is an injected fault in the exception chain?"""
    seen = set()
    while e is not None and id(e) not in seen:
        seen.add(id(e))
        if 'injected' in str(e):
            return True
        e = e.__cause__ or e.__context__
    return False


class World:
    def __init__(self, scratch, seed=0, chunk=1 << 20, shuffle=True, net_segment=1 << 14,
                 dirs=('in', 'tmp')):
        self.root = os.path.join(scratch, 'm')
        if os.path.isdir(self.root):
            simdisk._rmtree(self.root)
        simdisk._makedirs(self.root)
        for d in dirs:
            simdisk._makedirs(os.path.join(self.root, d))
        self.disk = simdisk.Disk(self.root, seed, chunk, shuffle)
        self.disk.net_segment = net_segment
        self.boots = 0

    def put(self, rel, data):
        """The harness (an earlier, synced user) writes a file."""
        p = os.path.join(self.root, rel)
        simdisk._makedirs(os.path.dirname(p))
        with simdisk.real['open'](p, 'wb') as f:
            f.write(data)
        self.disk._sync_from_real()

    def remove(self, rel):
        """The harness (an earlier, synced user) removes a directory."""
        p = os.path.join(self.root, rel)
        if os.path.isdir(p):
            simdisk._rmtree(p)
        self.disk._sync_from_real()

    def path(self, rel):
        return os.path.join(self.root, rel)

    def boot(self, fn, *args, plan=None, seed=None, cwd='', keep_trace=True):
        """One process: returns an Outcome."""
        self.boots += 1
        d = self.disk
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                signal.alarm(0)
                blob = _child(d, fn, args, plan, seed, self.path(cwd))
                mv = memoryview(blob)
                while mv:
                    mv = mv[simdisk.real['os.write'](w, mv[:1 << 16]):]
            except BaseException:
                try:
                    simdisk.real['os.write'](2, traceback.format_exc().encode())
                except BaseException:
                    pass
                code = 3
            os._exit(code)
        os.close(w)
        chunks = []
        limit = simdisk.real['time.time']() + BOOT_LIMIT
        timed_out = False
        while True:
            left = limit - simdisk.real['time.time']()
            if left <= 0:
                timed_out = True
                break
            rd, _, _ = select.select([r], [], [], left)
            if rd:
                b = os.read(r, 1 << 20)
                if not b:
                    break
                chunks.append(b)
        os.close(r)
        if timed_out:
            os.kill(pid, signal.SIGKILL)
        _, st = os.waitpid(pid, 0)
        if timed_out:
            self.disk.reboot_real()
            return Outcome('hang', msg=f'no end within {BOOT_LIMIT:.0f} s')
        if os.WIFSIGNALED(st):
            if os.WTERMSIG(st) == signal.SIGKILL:
                raise HarnessError('a simulated process was killed from outside')
            self.disk.reboot_real()
            return Outcome('died', msg=f'signal {os.WTERMSIG(st)}')
        if os.WEXITSTATUS(st) != 0:
            raise HarnessError('the simulated process failed to report')
        self.disk, out = pickle.loads(b''.join(chunks))
        return out


def _child(d, fn, args, plan, seed, cwd):
    sys.stdout = sys.stderr = env.Null()
    gc.disable()
    os.chdir(cwd)
    import random
    import numpy
    import torch
    s = d.rng.getrandbits(31) if seed is None else seed
    random.seed(s)
    numpy.random.seed(s)
    torch.manual_seed(s)
    d.fds = {}
    if plan is not None:
        d.plan(plan)
    with simdisk.attach(d):
        try:
            out = Outcome('ok', fn(d, *args))
        except SimCrash:
            out = Outcome('crash', msg=repr(d.crash_info))
        except SimHang as e:
            out = Outcome('hang', msg=str(e))
        except BaseException as e:
            names, msg, where, tb = describe(e)
            out = Outcome('raise', exc=names[0], msg=msg, where=where, tb=tb)
            out.mro = names
            out.bitten = bitten(e)
            del e
        # a process that ended normally has flushed and closed its files
        if out.status not in ('crash',):
            gc.collect()
    d.heal()
    return pickle.dumps((d, out))


def dispatch_isolated(scratch, fn, *args, **kw):
    """A process on a machine whose disk does not matter."""
    w = World(scratch, dirs=('in', 'tmp'))
    return w.boot(fn, *args, **kw)
