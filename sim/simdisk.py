"""The simulated machine: a disk, its faults, the directory listing order, the
clock, the network and the temp-name entropy.

Files live in a scratch directory; every operation that the code under test
performs on a path below it goes through the functions in this module, which
replace builtins.open / io.open and the functions of `os`.  Each one is an
*operation* with a number; the fault plan of the run names the operations that
fail, and how.  Nothing here draws from a real clock, from os.urandom or from a
global PRNG: a run is a function of its case.

Real code: everything above these calls (the repository, torch, torch_geometric,
mido, pretty_midi, networkx, shutil, pathlib, tempfile, glob, fsspec).
Stub: the calls themselves (a journal and a fault in front of the real call),
urllib.request.urlopen, the clock, os.urandom, torch.save/torch.load's C++ file
reader and writer (their bytes go through the simulated file instead).
"""
import builtins
import contextlib
import email.message
import errno
import http.client
import io
import os
import random
import shutil
import tempfile
import threading
import time
import urllib.request

real = {
    'open': io.open,
    'os.open': os.open, 'os.close': os.close, 'os.write': os.write, 'os.read': os.read,
    'os.replace': os.replace, 'os.rename': os.rename,
    'os.remove': os.remove, 'os.unlink': os.unlink, 'os.link': os.link,
    'os.symlink': os.symlink,
    'os.mkdir': os.mkdir, 'os.rmdir': os.rmdir,
    'os.truncate': os.truncate, 'os.ftruncate': os.ftruncate,
    'os.fsync': os.fsync, 'os.fdatasync': os.fdatasync,
    'os.listdir': os.listdir, 'os.scandir': os.scandir,
    'os.urandom': os.urandom, 'os.getpid': os.getpid,
    'os.stat': os.stat,
    'time.time': time.time, 'time.time_ns': time.time_ns,
    'time.sleep': time.sleep,
    'urlopen': urllib.request.urlopen,
}


class SimCrash(BaseException):
    """The simulated process died here."""


class SimHang(BaseException):
    """The run used up its operations: no progress."""


class HarnessError(Exception):
    """The simulator, not the code under test, is at fault."""


_CUR = None  # the active Disk


def current():
    return _CUR


class Inode:
    __slots__ = ('data', 'durable', 'log', 'isdir', 'mode')

    def __init__(self, data=b'', isdir=False):
        self.data = bytearray(data)
        self.durable = bytes(data)
        self.log = []          # volatile data operations since the last fsync
        self.isdir = isdir

    def apply(self, op):
        kind = op[0]
        if kind == 'w':
            _, off, b = op
            if len(self.data) < off:
                self.data.extend(b'\0' * (off - len(self.data)))
            self.data[off:off + len(b)] = b
        else:
            n = op[1]
            if n < len(self.data):
                del self.data[n:]
            else:
                self.data.extend(b'\0' * (n - len(self.data)))
        self.log.append(op)

    def sync(self):
        self.durable = bytes(self.data)
        self.log = []


APPLIES = {
    # fault kind -> operation classes it can hit
    'crash': None,                 # any: the process is killed
    'power': None,                 # any: every process is killed, unsynced data may go
    'kbint': None,                 # any: KeyboardInterrupt in the running process
    'eio': ('open_r', 'open_w', 'read', 'write', 'fsync', 'rename', 'mkdir', 'link', 'unlink', 'trunc'),
    'eio_read': ('open_r', 'read'),
    'enospc': ('open_w', 'write', 'fsync', 'rename', 'mkdir', 'link'),
    'edquot': ('open_w', 'write', 'mkdir'),
    'emfile': ('open_r', 'open_w'),
    'eacces': ('open_w', 'rename', 'mkdir', 'link', 'unlink'),
    'erofs': ('open_w', 'rename', 'mkdir', 'link', 'unlink'),
    'nomem': ('open_r', 'open_w', 'read', 'write', 'alloc'),
    'oom': ('alloc',),
    'vanish': ('open_r',),         # somebody else removed the raw file that is to be read
    'short_read': ('read',),
    'short_write': ('write',),
    'reset': ('net_read',),        # connection reset in the body
    'eof': ('net_read',),          # the body silently ends early
    'timeout': ('net_open', 'net_read'),
    'refused': ('net_open',),
    'http500': ('net_open',),
    'http404': ('net_open',),
    'clock_back': None,            # the clock steps back, the operation itself succeeds
    'clock_fwd': None,
}
ERRNO = {'eio': errno.EIO, 'eio_read': errno.EIO, 'enospc': errno.ENOSPC, 'edquot': errno.EDQUOT,
         'emfile': errno.EMFILE, 'eacces': errno.EACCES, 'erofs': errno.EROFS}
BENIGN = {'short_read', 'short_write', 'clock_back', 'clock_fwd'}


class Fault:
    __slots__ = ('at', 'kind', 'count', 'frac', 'proc', 'only', 'skip')

    def __init__(self, d):
        self.at = d['at']
        self.kind = d['kind']
        self.count = d.get('count', 1)     # hits this many applicable operations
        self.frac = d.get('frac', 0.5)     # part of a write that still happens
        self.proc = d.get('proc')          # only operations of this simulated process
        self.only = d.get('only')          # only these operation classes
        self.skip = d.get('skip', 0)       # let so many applicable operations pass


class Disk:
    """One simulated machine."""

    def __init__(self, root, seed=0, chunk=1 << 20, shuffle=True):
        self.root = os.path.realpath(root)
        self.prefix = self.root + os.sep
        self.rng = random.Random(seed)
        self.chunk = chunk
        self.shuffle = shuffle
        self.nops = 0
        self.op_class_counts = {}
        self.faults = []
        self.fired = {}
        self.log = []             # (n, proc, class, relpath, detail)
        self.keep_log = True
        self.clock = 1_700_000_000.0
        self.names = {}           # relpath -> Inode
        self.base_names = {}      # names at the last boot (durable)
        self.meta = []            # metadata operations since boot
        self.barrier = 0          # metadata before this index is durable
        self.fds = {}             # fd -> (relpath, Inode, flags)
        self.dead = set()         # dead processes
        self.power_off = False
        self.bypass = 0
        self.server = None
        self.hook = None          # scheduler: called at each operation
        self.crash_info = None
        self.fetches = []
        self.opened = 0
        self.frozen = False       # no numbering or faults: the harness itself acts
        self.net_segment = 1 << 14
        self.max_ops = 400000
        self.tick = 0.001
        self.alloc_ops = False    # tensor allocations of the code under test are operations
        self._sync_from_real()

    def __getstate__(self):
        d = dict(self.__dict__)
        d['hook'] = None
        d['fds'] = {}
        d['frozen'] = False
        return d

    # ---- bookkeeping -------------------------------------------------
    def rel(self, path):
        try:
            p = os.fspath(path)
        except TypeError:
            return None
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        if not p:
            return None
        p = os.path.abspath(p)
        if p == self.root:
            return ''
        if p.startswith(self.prefix):
            d, b = os.path.split(p)
            # resolve symlinks of the directory part only if there are any
            return p[len(self.prefix):]
        return None

    def abs(self, rel):
        return self.prefix + rel if rel else self.root

    def proc(self):
        return getattr(threading.current_thread(), 'sim_proc', 'main')

    def _sync_from_real(self):
        """Take the real tree as the durable state (a boot)."""
        self.names = {}
        for d, dirs, files in _walk(self.root):
            r = d[len(self.prefix):] if d != self.root else ''
            if r:
                self.names[r] = Inode(isdir=True)
            for f in files:
                p = os.path.join(d, f)
                with real['open'](p, 'rb') as fh:
                    self.names[p[len(self.prefix):]] = Inode(fh.read())
        self.base_names = dict(self.names)
        self.meta = []
        self.barrier = 0
        for ino in self.names.values():
            ino.sync()

    def plan(self, faults):
        """Faults for the operations from here on: `at` counts from now."""
        self.faults = [Fault(dict(f, at=f['at'] + self.nops)) for f in faults]

    def heal(self):
        self.faults = []

    # ---- one operation -----------------------------------------------
    def op(self, cls, rel, detail=''):
        """Called before an operation. Returns a benign fault or None; raises
        the injected error."""
        if self.frozen:
            return None
        proc = self.proc()
        if self.power_off or proc in self.dead:
            raise SimCrash()
        if self.hook is not None:
            self.hook(cls)
            if self.power_off or proc in self.dead:
                raise SimCrash()
        n = self.nops
        self.nops += 1
        self.clock += self.tick
        if n >= self.max_ops:
            raise SimHang(f'{n} operations')
        self.op_class_counts[cls] = self.op_class_counts.get(cls, 0) + 1
        if self.keep_log:
            self.log.append((n, proc, cls, rel, detail))
        for f in self.faults:
            if f.count <= 0 or n < f.at:
                continue
            if f.proc is not None and f.proc != proc:
                continue
            a = APPLIES[f.kind]
            if a is not None and cls not in a:
                continue
            if f.only is not None and cls not in f.only:
                continue
            if f.kind == 'vanish' and not (rel.startswith('ds/raw/') and rel in self.names):
                continue
            if f.skip > 0:
                f.skip -= 1
                continue
            f.count -= 1
            key = f.kind + ':' + cls
            self.fired[key] = self.fired.get(key, 0) + 1
            if self.keep_log:
                self.log.append((n, proc, 'FAULT', f.kind, ''))
            if f.kind == 'crash':
                if cls == 'write':
                    return f            # a part of the write happens first
                self.die(proc, n, cls, rel)
            if f.kind == 'power':
                if cls == 'write':
                    return f
                self.power(n, cls, rel)
            if f.kind == 'kbint':
                raise KeyboardInterrupt('injected')
            if f.kind == 'nomem':
                raise MemoryError('injected')
            if f.kind == 'oom':
                # what torch raises when its own allocator fails
                raise RuntimeError("[enforce fail at alloc_cpu.cpp:83] err == 0. DefaultCPUAllocator: "
                                   "can't allocate memory (injected)")
            if f.kind == 'vanish':
                real['os.unlink'](self.abs(rel))
                self.j_unlink(rel)
                raise OSError(errno.ENOENT, os.strerror(errno.ENOENT) + ' (injected)', rel)
            if f.kind == 'clock_back':
                self.clock -= 86400.0 * 3
                return None
            if f.kind == 'clock_fwd':
                self.clock += 86400.0 * 3
                return None
            if f.kind in ERRNO:
                if cls == 'write':
                    return f
                raise OSError(ERRNO[f.kind], os.strerror(ERRNO[f.kind]) + ' (injected)', rel)
            return f
        return None

    def look(self, rel):
        """A metadata read: no number and no fault, but a scheduling point."""
        proc = self.proc()
        if self.power_off or proc in self.dead:
            raise SimCrash()
        if self.hook is not None:
            self.hook('stat')
            if self.power_off or proc in self.dead:
                raise SimCrash()

    def die(self, proc, n=None, cls=None, rel=None):
        self.dead.add(proc)
        self.crash_info = ('crash', n, cls, rel)
        raise SimCrash()

    def power(self, n=None, cls=None, rel=None):
        self.power_off = True
        self.crash_info = ('power', n, cls, rel)
        raise SimCrash()

    def is_dead(self, proc):
        return self.power_off or proc in self.dead

    def touch(self, fd=None, path=None):
        try:
            os.utime(fd if fd is not None else path, (self.clock, self.clock))
        except OSError:
            pass

    # ---- journal -----------------------------------------------------
    def j_create(self, rel, isdir=False):
        ino = Inode(isdir=isdir)
        self.names[rel] = ino
        self.meta.append(('add', rel, ino))
        return ino

    def j_unlink(self, rel):
        self.names.pop(rel, None)
        self.meta.append(('del', rel))

    def j_link(self, src, dst):
        ino = self.names.get(src)
        if ino is not None:
            self.names[dst] = ino
            self.meta.append(('add', dst, ino))

    def j_rename(self, src, dst):
        moved = [(k, v) for k, v in self.names.items() if k == src or k.startswith(src + os.sep)]
        for k, v in moved:
            del self.names[k]
        for k in [k for k in self.names if k == dst or k.startswith(dst + os.sep)]:
            del self.names[k]
        for k, v in moved:
            self.names[dst + k[len(src):]] = v
        self.meta.append(('mv', src, dst))

    def j_fsync(self, ino):
        if ino is not None:
            ino.sync()
        self.barrier = len(self.meta)

    # ---- crash states ------------------------------------------------
    def consistent(self):
        """Does the journal describe the real tree?"""
        seen = set()
        for d, dirs, files in _walk(self.root):
            if d != self.root:
                seen.add(d[len(self.prefix):])
            for f in files:
                r = os.path.join(d, f)[len(self.prefix):]
                seen.add(r)
                ino = self.names.get(r)
                if ino is None or ino.isdir:
                    return False
                with real['open'](os.path.join(d, f), 'rb') as fh:
                    if fh.read() != bytes(ino.data):
                        return False
        return seen == set(self.names)

    def reboot(self, how=None, rng=None):
        """After a crash: put the tree into the state that survives it.

        how: {'meta': number of metadata operations after the barrier that
        survive (None: all), 'data': 'none'|'all'|'random', 'seed': int}
        Only a power loss loses anything that a system call had finished."""
        lost = 0
        if self.power_off:
            if not self.consistent():
                self.bypass += 1
            else:
                how = how or {}
                r = random.Random(how.get('seed', 0))
                k = how.get('meta')
                extra = len(self.meta) - self.barrier
                cut = len(self.meta) if k is None else self.barrier + min(k, extra)
                lost += len(self.meta) - cut
                names = dict(self.base_names)
                for m in self.meta[:cut]:
                    if m[0] == 'add':
                        names[m[1]] = m[2]
                    elif m[0] == 'del':
                        names.pop(m[1], None)
                    else:
                        _, src, dst = m
                        moved = [(a, b) for a, b in names.items()
                                 if a == src or a.startswith(src + os.sep)]
                        for a, b in moved:
                            del names[a]
                        for a in [a for a in names if a == dst or a.startswith(dst + os.sep)]:
                            del names[a]
                        for a, b in moved:
                            names[dst + a[len(src):]] = b
                policy = how.get('data', 'random')
                content = {}
                for rel_ in sorted(names):
                    ino = names[rel_]
                    if ino.isdir or id(ino) in content:
                        continue
                    if policy == 'all' or not ino.log:
                        content[id(ino)] = bytes(ino.data)
                        continue
                    lost += 1
                    if policy == 'none':
                        content[id(ino)] = ino.durable
                        continue
                    t = Inode(ino.durable)
                    keep = r.randint(0, len(ino.log))
                    for o in ino.log[:keep]:
                        t.apply(o)
                    if keep < len(ino.log) and ino.log[keep][0] == 'w' and r.random() < 0.5:
                        _, off, b = ino.log[keep]
                        if len(b) > 1:
                            t.apply(('w', off, b[:r.randint(1, len(b) - 1)]))
                    content[id(ino)] = bytes(t.data)
                self._materialise(names, content)
            self._sync_from_real()
        self.fds = {}
        self.dead = set()
        self.power_off = False
        self.crash_info = None
        self.faults = []
        return lost

    def reboot_real(self):
        """The process was lost together with its journal: take the real tree."""
        self.fds = {}
        self.dead = set()
        self.power_off = False
        self.faults = []
        self._sync_from_real()

    def _materialise(self, names, content):
        for e in real['os.scandir'](self.root):
            if e.is_dir(follow_symlinks=False):
                _rmtree(e.path)
            else:
                real['os.unlink'](e.path)
        for rel_ in sorted(names):
            ino = names[rel_]
            p = self.abs(rel_)
            if ino.isdir:
                _makedirs(p)
        for rel_ in sorted(names):
            ino = names[rel_]
            if not ino.isdir:
                p = self.abs(rel_)
                _makedirs(os.path.dirname(p))
                with real['open'](p, 'wb') as fh:
                    fh.write(content[id(ino)])

    def tree(self, sub=''):
        """relpath -> bytes of every file below sub (real tree)."""
        out = {}
        base = self.abs(sub)
        if not os.path.isdir(base):
            return out
        for d, dirs, files in _walk(base):
            for f in files:
                p = os.path.join(d, f)
                with real['open'](p, 'rb') as fh:
                    out[p[len(base) + 1:]] = fh.read()
        return out

    @contextlib.contextmanager
    def free(self):
        """The harness acts: no numbering, no faults; the journal still records."""
        old = self.frozen
        self.frozen = True
        try:
            yield
        finally:
            self.frozen = old


def _walk(top):
    stack = [top]
    while stack:
        d = stack.pop()
        dirs, files = [], []
        with real['os.scandir'](d) as it:
            for e in it:
                (dirs if e.is_dir(follow_symlinks=False) else files).append(e.name)
        yield d, sorted(dirs), sorted(files)
        stack.extend(os.path.join(d, x) for x in sorted(dirs))


def _rmtree(p):
    for d, dirs, files in list(_walk(p))[::-1]:
        for f in files:
            real['os.unlink'](os.path.join(d, f))
        real['os.rmdir'](d)


def _makedirs(p):
    if not os.path.isdir(p):
        _makedirs(os.path.dirname(p))
        try:
            real['os.mkdir'](p)
        except FileExistsError:
            pass


# ---------------------------------------------------------------------------
class SimRaw(io.RawIOBase):
    """A file below the managed root."""

    def __init__(self, disk, fd, rel, ino, name, readable, writable, append, mode, closefd=True):
        self._d = disk
        self._fd = fd
        self._rel = rel
        self._ino = ino
        self.name = name
        self._r = readable
        self._w = writable
        self._a = append
        self.mode = mode
        self._proc = disk.proc()
        self._closefd = closefd
        self._gone = False
        disk.opened += 1

    def readable(self):
        self._check()
        return self._r

    def writable(self):
        self._check()
        return self._w

    def seekable(self):
        self._check()
        return True

    def fileno(self):
        self._check()
        return self._fd

    def isatty(self):
        return False

    def _check(self):
        if self.closed:
            raise ValueError('I/O operation on closed file')

    def _live(self):
        return self._d is _CUR and not self._d.is_dead(self._proc)

    def readinto(self, b):
        self._check()
        if not self._r:
            raise io.UnsupportedOperation('not readable')
        d = self._d
        n = len(b)
        f = d.op('read', self._rel, n) if d is _CUR else None
        if f is not None and f.kind == 'short_read' and n > 1:
            n = max(1, int(n * f.frac))
            n = min(n, 1 + d.rng.randrange(64))
        data = real['os.read'](self._fd, n)
        b[:len(data)] = data
        return len(data)

    def write(self, b):
        self._check()
        if not self._w:
            raise io.UnsupportedOperation('not writable')
        d = self._d
        b = bytes(b)
        if not self._live():
            return len(b)            # the process is dead: nothing reaches the disk
        total = 0
        if not b:
            return 0
        while total < len(b):
            part = b[total:total + d.chunk]
            try:
                f = d.op('write', self._rel, len(part))
            except BaseException:
                if total and False:
                    return total
                raise
            if f is not None:
                keep = int(len(part) * f.frac)
                if f.kind == 'short_write':
                    keep = max(1, keep)
                    self._put(part[:keep])
                    return total + keep
                if keep:
                    self._put(part[:keep])
                if f.kind == 'crash':
                    d.die(self._proc, d.nops - 1, 'write', self._rel)
                if f.kind == 'power':
                    d.power(d.nops - 1, 'write', self._rel)
                raise OSError(ERRNO[f.kind], os.strerror(ERRNO[f.kind]) + ' (injected)', self._rel)
            self._put(part)
            total += len(part)
        return total

    def _put(self, part):
        d = self._d
        if self._a:
            off = os.lseek(self._fd, 0, os.SEEK_END)
        else:
            off = os.lseek(self._fd, 0, os.SEEK_CUR)
        done = 0
        while done < len(part):
            done += real['os.write'](self._fd, part[done:])
        d.touch(fd=self._fd)
        if self._ino is not None:
            self._ino.apply(('w', off, part))

    def seek(self, pos, whence=0):
        self._check()
        return os.lseek(self._fd, pos, whence)

    def tell(self):
        self._check()
        return os.lseek(self._fd, 0, os.SEEK_CUR)

    def truncate(self, size=None):
        self._check()
        if size is None:
            size = self.tell()
        if not self._live():
            return size
        self._d.op('trunc', self._rel, size)
        real['os.ftruncate'](self._fd, size)
        if self._ino is not None:
            self._ino.apply(('t', size))
        return size

    def close(self):
        if self.closed:
            return
        try:
            super().close()
        finally:
            if not self._gone:
                self._gone = True
                self._d.opened -= 1
                self._d.fds.pop(self._fd, None)
                if self._closefd:
                    real['os.close'](self._fd)

    def __del__(self):
        try:
            self.close()
        except BaseException:
            pass


def _flags(mode):
    m = set(mode)
    if 'r' in m:
        fl = 0
    elif 'w' in m:
        fl = os.O_CREAT | os.O_TRUNC
    elif 'x' in m:
        fl = os.O_CREAT | os.O_EXCL
    else:
        fl = os.O_CREAT | os.O_APPEND
    if '+' in m:
        fl |= os.O_RDWR
    elif 'r' in m:
        fl |= os.O_RDONLY
    else:
        fl |= os.O_WRONLY
    return fl | os.O_CLOEXEC


def sim_os_open(path, flags, mode=0o777, *, dir_fd=None):
    d = _CUR
    rel = d.rel(path) if d is not None and dir_fd is None else None
    if rel is None:
        return real['os.open'](path, flags, mode, dir_fd=dir_fd) if dir_fd is not None \
            else real['os.open'](path, flags, mode)
    writing = bool(flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC))
    f = d.op('open_w' if writing else 'open_r', rel, '')
    p = d.abs(rel)
    existed = os.path.lexists(p)
    fd = real['os.open'](path, flags, mode)
    rel = os.path.realpath(p)[len(d.prefix):] if os.path.islink(p) else rel
    if not existed and os.path.lexists(p):
        ino = d.j_create(rel)
        d.touch(path=p)
    else:
        ino = d.names.get(rel)
        if ino is not None and flags & os.O_TRUNC and not ino.isdir:
            ino.apply(('t', 0))
            d.touch(path=p)
    d.fds[fd] = (rel, ino, flags)
    return fd


def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None,
             closefd=True, opener=None):
    d = _CUR
    if d is None:
        return real['open'](file, mode, buffering, encoding, errors, newline, closefd, opener)
    if isinstance(file, int):
        if file not in d.fds:
            return real['open'](file, mode, buffering, encoding, errors, newline, closefd, opener)
        rel = d.fds[file][0]
    else:
        rel = d.rel(file)
        if rel is None and opener is None:
            return real['open'](file, mode, buffering, encoding, errors, newline, closefd, opener)
        if rel is None and opener is not None:
            return real['open'](file, mode, buffering, encoding, errors, newline, closefd, opener)
    text = 'b' not in mode
    base = mode.replace('b', '').replace('t', '').replace('U', '')
    if sorted(base.replace('+', '')) not in (['r'], ['w'], ['a'], ['x']):
        raise ValueError(f'invalid mode: {mode!r}')
    if text and buffering == 0:
        raise ValueError("can't have unbuffered text I/O")
    if not text and (encoding is not None or errors is not None or newline is not None):
        raise ValueError("binary mode doesn't take an encoding, errors or newline argument")
    if isinstance(file, int):
        fd = file
        own = closefd
        d.op('open_w' if base != 'r' else 'open_r', rel, 'fd')
    else:
        own = True
        if opener is not None:
            fd = opener(file, _flags(base))
            if fd not in d.fds:
                r = d.rel(file)
                d.fds[fd] = (r, d.names.get(r), _flags(base))
        else:
            fd = sim_os_open(file, _flags(base), 0o666)
        rel = d.fds[fd][0]
    if os.path.isdir(d.abs(rel)):
        if own:
            real['os.close'](fd)
        raise IsADirectoryError(errno.EISDIR, os.strerror(errno.EISDIR), file)
    ino = d.fds[fd][1]
    raw = SimRaw(d, fd, rel, ino, file, 'r' in base or '+' in base,
                 base != 'r', 'a' in base, mode if 'b' in mode else base + 'b', own)
    if 'a' in base:
        os.lseek(fd, 0, os.SEEK_END)
    line = False
    size = io.DEFAULT_BUFFER_SIZE
    if buffering == 0:
        return raw
    if buffering == 1 and text:
        line = True
    elif buffering > 1:
        size = buffering
    if '+' in base:
        buf = io.BufferedRandom(raw, size)
    elif base == 'r':
        buf = io.BufferedReader(raw, size)
    else:
        buf = io.BufferedWriter(raw, size)
    if not text:
        return buf
    t = io.TextIOWrapper(buf, encoding, errors, newline, line_buffering=line)
    t.mode = mode
    return t


def sim_close(fd):
    d = _CUR
    if d is not None:
        d.fds.pop(fd, None)
    return real['os.close'](fd)


def sim_write(fd, data):
    d = _CUR
    if d is None or fd not in d.fds:
        return real['os.write'](fd, data)
    rel, ino, flags = d.fds[fd]
    raw = SimRaw(d, fd, rel, ino, rel, False, True, bool(flags & os.O_APPEND), 'wb', closefd=False)
    raw._gone = True
    d.opened -= 1
    return raw.write(data)


def sim_read(fd, n):
    d = _CUR
    if d is None or fd not in d.fds:
        return real['os.read'](fd, n)
    f = d.op('read', d.fds[fd][0], n)
    if f is not None and f.kind == 'short_read' and n > 1:
        n = min(n, 1 + d.rng.randrange(64))
    return real['os.read'](fd, n)


def sim_fsync(fd):
    d = _CUR
    n = fd if isinstance(fd, int) else fd.fileno()
    if d is None or n not in d.fds:
        return real['os.fsync'](fd)
    rel, ino, _ = d.fds[n]
    d.op('fsync', rel)
    d.j_fsync(ino)
    return None


def _two(name):
    def call(src, dst, *a, **kw):
        d = _CUR
        rs = d.rel(src) if d is not None else None
        rd = d.rel(dst) if d is not None else None
        if rs is None and rd is None or kw.get('src_dir_fd') is not None or kw.get('dst_dir_fd') is not None:
            return real[name](src, dst, *a, **kw)
        d.op('rename', rd if rd is not None else rs, f'{rs}')
        r = real[name](src, dst, *a, **kw)
        if rs is not None and rd is not None:
            d.j_rename(rs, rd)
        elif rs is not None:
            d.j_unlink(rs)
        else:
            with real['open'](d.abs(rd), 'rb') as fh:
                ino = d.j_create(rd)
                ino.data = bytearray(fh.read())
                ino.sync()
        return r
    return call


def sim_link(src, dst, *a, **kw):
    d = _CUR
    rs = d.rel(src) if d is not None else None
    rd = d.rel(dst) if d is not None else None
    if rd is None:
        return real['os.link'](src, dst, *a, **kw)
    d.op('link', rd, f'{rs}')
    r = real['os.link'](src, dst, *a, **kw)
    d.j_link(rs, rd)
    return r


def sim_symlink(src, dst, *a, **kw):
    return real['os.symlink'](src, dst, *a, **kw)


def _del(name):
    def call(path, *a, **kw):
        d = _CUR
        rel = d.rel(path) if d is not None and kw.get('dir_fd') is None else None
        if rel is None:
            return real[name](path, *a, **kw)
        d.op('unlink', rel)
        r = real[name](path, *a, **kw)
        d.j_unlink(rel)
        return r
    return call


def sim_mkdir(path, mode=0o777, *, dir_fd=None):
    d = _CUR
    rel = d.rel(path) if d is not None and dir_fd is None else None
    if rel is None:
        return real['os.mkdir'](path, mode, dir_fd=dir_fd) if dir_fd is not None \
            else real['os.mkdir'](path, mode)
    d.op('mkdir', rel)
    r = real['os.mkdir'](path, mode)
    d.j_create(rel, isdir=True)
    return r


def sim_truncate(path, length):
    d = _CUR
    if d is not None:
        if isinstance(path, int):
            if path in d.fds:
                return sim_ftruncate(path, length)
        else:
            rel = d.rel(path)
            if rel is not None:
                d.op('trunc', rel, length)
                r = real['os.truncate'](path, length)
                ino = d.names.get(rel)
                if ino is not None:
                    ino.apply(('t', length))
                return r
    return real['os.truncate'](path, length)


def sim_ftruncate(fd, length):
    d = _CUR
    if d is None or fd not in d.fds:
        return real['os.ftruncate'](fd, length)
    rel, ino, _ = d.fds[fd]
    d.op('trunc', rel, length)
    r = real['os.ftruncate'](fd, length)
    if ino is not None:
        ino.apply(('t', length))
    return r


def sim_listdir(path='.'):
    d = _CUR
    rel = d.rel(path) if d is not None and not isinstance(path, int) else None
    if rel is None:
        return real['os.listdir'](path)
    d.op('list', rel)
    out = sorted(real['os.listdir'](path))
    if d.shuffle:
        d.rng.shuffle(out)
    return out


class _Scan:
    def __init__(self, entries):
        self._it = iter(entries)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None

    def close(self):
        self._it = iter(())


def sim_scandir(path='.'):
    d = _CUR
    rel = d.rel(path) if d is not None and not isinstance(path, int) else None
    if rel is None:
        return real['os.scandir'](path)
    d.op('list', rel)
    with real['os.scandir'](path) as it:
        out = sorted(it, key=lambda e: e.name)
    if d.shuffle:
        d.rng.shuffle(out)
    return _Scan(out)


def sim_stat(path, *a, **kw):
    d = _CUR
    if d is not None and not isinstance(path, int) and not d.frozen:
        rel = d.rel(path)
        if rel is not None:
            d.look(rel)
    return real['os.stat'](path, *a, **kw)


def sim_urandom(n):
    d = _CUR
    if d is None:
        return real['os.urandom'](n)
    return d.rng.randbytes(n)


def sim_getpid():
    d = _CUR
    if d is None:
        return real['os.getpid']()
    name = d.proc()
    # p0, p1, ... are processes of their own, t0, t1, ... threads of one
    return 4001 + int(name[1:]) if name[0] == 'p' and name[1:].isdigit() else 4000


class _Names(tempfile._RandomNameSequence):
    """Temporary names out of the seed of the run."""

    def __init__(self, seed):
        self._r = random.Random(seed)

    @property
    def rng(self):
        return self._r


def sim_time():
    d = _CUR
    return real['time.time']() if d is None else d.clock


def sim_time_ns():
    d = _CUR
    return real['time.time_ns']() if d is None else int(d.clock * 1e9)


def sim_sleep(s):
    d = _CUR
    if d is None:
        return real['time.sleep'](s)
    d.clock += s


# ---- network ----------------------------------------------------------------
class _Incomplete(http.client.IncompleteRead):
    def __str__(self):
        return super().__repr__() + ' (injected)'


class _Response:
    """The body of one HTTP response of the simulated server."""

    def __init__(self, disk, url, body):
        self.d, self.url, self.body, self.pos = disk, url, body, 0
        self.status = self.code = 200
        self.headers = email.message.Message()
        self.headers['Content-Length'] = str(len(body))
        self.headers['Content-Type'] = 'audio/midi'
        self.reason = self.msg = 'OK'
        self.cut = False

    def read(self, n=-1):
        left = len(self.body) - self.pos
        whole = n is None or n < 0
        if self.cut:
            return b''
        if whole:
            n = left
        # a segment at a time, like a socket would return less than asked for
        out = b''
        while n > 0 and left > 0:
            f = self.d.op('net_read', self.url.rsplit('/', 1)[-1], min(n, left))
            seg = min(n, left, self.d.net_segment)
            if f is not None:
                keep = int(seg * f.frac)
                if f.kind == 'reset':
                    raise ConnectionResetError(errno.ECONNRESET, 'Connection reset by peer (injected)')
                if f.kind == 'timeout':
                    raise TimeoutError('The read operation timed out (injected)')
                if f.kind == 'eof':
                    self.cut = True
                    out += self.body[self.pos:self.pos + keep]
                    self.pos += keep
                    if whole:
                        # only a read of the whole body notices, as in http.client
                        raise _Incomplete(out, len(self.body) - self.pos)
                    return out
            out += self.body[self.pos:self.pos + seg]
            self.pos += seg
            n -= seg
            left -= seg
        return out

    def readinto(self, b):
        data = self.read(len(b))
        b[:len(data)] = data
        return len(data)

    def getcode(self):
        return 200

    def readable(self):
        return True

    def getheader(self, name, default=None):
        return self.headers.get(name, default)

    def isclosed(self):
        return False

    def info(self):
        return self.headers

    def geturl(self):
        return self.url

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None


def sim_urlopen(url, *a, **kw):
    d = _CUR
    if d is None:
        return real['urlopen'](url, *a, **kw)
    u = url if isinstance(url, str) else url.full_url
    if any(not '!' <= c <= '~' for c in u):
        # as http.client does
        raise http.client.InvalidURL(f"URL can't contain control characters. {u!r}")
    name = urllib.parse.unquote(u.rsplit('/', 1)[-1].split('#')[0].split('?')[0])
    f = d.op('net_open', name)
    d.fetches.append(u)
    if f is not None:
        if f.kind == 'refused':
            raise urllib.error.URLError(ConnectionRefusedError(errno.ECONNREFUSED, 'refused (injected)'))
        if f.kind == 'timeout':
            raise urllib.error.URLError(TimeoutError('timed out (injected)'))
        code = 500 if f.kind == 'http500' else 404
        raise urllib.error.HTTPError(u, code, 'injected', {}, io.BytesIO(b'oops'))
    if d.server is None or name not in d.server:
        raise urllib.error.HTTPError(u, 404, 'Not Found', {}, io.BytesIO(b''))
    return _Response(d, u, d.server[name])


# ---- torch ------------------------------------------------------------------
def _patch_torch():
    import torch
    real_save, real_load = torch.save, torch.load
    real['torch.save'], real['torch.load'] = real_save, real_load

    def sim_save(obj, f, *a, **kw):
        d = _CUR
        if d is None or isinstance(f, io.BytesIO):
            return real_save(obj, f, *a, **kw)
        if isinstance(f, (str, os.PathLike)):
            if d.rel(f) is None:
                return real_save(obj, f, *a, **kw)
            with builtins.open(f, 'wb') as fh:
                sim_save(obj, fh, *a, **kw)
            return None
        if not hasattr(f, 'write'):
            return real_save(obj, f, *a, **kw)
        buf = io.BytesIO()
        real_save(obj, buf, *a, **kw)
        data = buf.getvalue()
        step = max(1, d.chunk)
        for i in range(0, len(data), step):
            f.write(data[i:i + step])
        return None

    def sim_load(f, *a, **kw):
        d = _CUR
        if d is not None and isinstance(f, (str, os.PathLike)) and d.rel(f) is not None:
            with builtins.open(f, 'rb') as fh:
                data = fh.read()
            kw.pop('mmap', None)
            return real_load(io.BytesIO(data), *a, **kw)
        if d is not None and isinstance(f, (io.BufferedIOBase, io.RawIOBase)) and not isinstance(f, io.BytesIO):
            return real_load(io.BytesIO(f.read()), *a, **kw)
        return real_load(f, *a, **kw)

    torch.save, torch.load = sim_save, sim_load
    torch.serialization.save, torch.serialization.load = sim_save, sim_load


def _patch_alloc(prefix):
    """Tensor allocations made by the code under test."""
    import sys
    import numpy
    import torch

    def wrap(mod, name):
        fn = getattr(mod, name)

        def call(*a, **kw):
            d = _CUR
            if d is not None and d.alloc_ops and sys._getframe(1).f_code.co_filename.startswith(prefix):
                d.op('alloc', name)
            return fn(*a, **kw)
        call.__name__ = name
        call.__wrapped__ = fn
        setattr(mod, name, call)
    for name in ('zeros', 'tensor', 'stack', 'cat', 'ones', 'empty', 'randperm', 'as_tensor', 'full',
                 'zeros_like', 'ones_like', 'full_like', 'rand', 'arange'):
        wrap(torch, name)
    for name in ('percentile', 'diff', 'array', 'clip'):
        wrap(numpy, name)


_installed = False


def install(prefix=None):
    """Put the seams in place. Without an active Disk they change nothing."""
    global _installed
    if _installed:
        return
    _installed = True
    import urllib.error  # noqa
    builtins.open = io.open = sim_open
    os.open, os.close, os.write, os.read = sim_os_open, sim_close, sim_write, sim_read
    os.replace, os.rename = _two('os.replace'), _two('os.rename')
    os.remove, os.unlink = _del('os.remove'), _del('os.unlink')
    os.rmdir = _del('os.rmdir')
    os.link, os.symlink = sim_link, sim_symlink
    os.mkdir = sim_mkdir
    os.truncate, os.ftruncate = sim_truncate, sim_ftruncate
    os.fsync, os.fdatasync = sim_fsync, sim_fsync
    os.listdir, os.scandir = sim_listdir, sim_scandir
    os.stat = sim_stat
    os.urandom = random._urandom = sim_urandom
    os.getpid = sim_getpid
    time.time, time.time_ns, time.sleep = sim_time, sim_time_ns, sim_sleep
    urllib.request.urlopen = sim_urlopen
    shutil._USE_CP_SENDFILE = False
    if hasattr(shutil, '_USE_CP_COPY_FILE_RANGE'):
        shutil._USE_CP_COPY_FILE_RANGE = False
    shutil._use_fd_functions = False

    class _IO:
        open = staticmethod(sim_open)

        def __getattr__(self, name):
            return getattr(io, name)
    tempfile._io = _IO()
    c = getattr(tempfile, '_TemporaryFileCloser', None)
    if c is not None:
        c.cleanup.__defaults__ = tuple(os.unlink if v is real['os.unlink'] else v
                                       for v in c.cleanup.__defaults__ or ())
    _patch_torch()
    if prefix:
        _patch_alloc(prefix)


@contextlib.contextmanager
def attach(d):
    """Activate a Disk."""
    global _CUR
    root = d.root
    old_seq, old_tmp = tempfile._name_sequence, tempfile.tempdir
    tempfile._name_sequence = _Names(d.rng.getrandbits(32))
    if os.path.isdir(os.path.join(root, 'tmp')):
        tempfile.tempdir = os.path.join(root, 'tmp')
    prev, _CUR = _CUR, d
    try:
        yield d
    finally:
        _CUR = prev
        tempfile._name_sequence, tempfile.tempdir = old_seq, old_tmp
