"""What a batch of runs covered."""
import hashlib
import re

KEEP_TRACE = False
SCRATCH = None       # left out of traces: it differs between workers


class Stats:
    def __init__(self):
        self.runs = 0
        self.boots = 0
        self.ops = 0
        self.sim_time = 0.0
        self.op_classes = {}
        self.fired = {}
        self.probes = {}
        self.states = set()
        self.schedules = set()
        self.switches = 0
        self.points = {}
        self.bypass = 0
        self.nontrivial = 0
        self.samples = []
        self.cases = set()
        self.trace = []
        self.digest = hashlib.sha256()

    def hit(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def world(self, w):
        d = w.disk
        self.boots += w.boots
        self.ops += d.nops
        self.sim_time += d.clock - 1_700_000_000.0
        self.bypass += d.bypass
        for k, v in d.op_class_counts.items():
            self.op_classes[k] = self.op_classes.get(k, 0) + v
        for k, v in d.fired.items():
            self.fired[k] = self.fired.get(k, 0) + v
        self.note([(n, p, c, norm(r), norm(x) if isinstance(x, str) else x) for n, p, c, r, x in d.log])
        if KEEP_TRACE:
            self.trace += [list(e) for e in d.log]

    def state(self, *parts):
        self.states.add(h(parts))

    def schedule(self, sched):
        self.switches += len(sched.switches)
        self.schedules.add(h(sched.switches))
        for k, v in sched.points.items():
            self.points[k] = self.points.get(k, 0) + v
        self.note(sched.switches)

    def note(self, obj):
        """Everything observed goes into the run's digest (determinism check)."""
        t = repr(obj)
        self.digest.update((t.replace(SCRATCH, '@') if SCRATCH else t).encode())

    def dump(self):
        return {k: (sorted(v) if isinstance(v, set) else v)
                for k, v in self.__dict__.items() if k not in ('digest', 'trace')} | {'digest': self.digest.hexdigest()}

    def merge(self, d):
        for k in ('runs', 'boots', 'ops', 'sim_time', 'switches', 'bypass', 'nontrivial'):
            setattr(self, k, getattr(self, k) + d[k])
        for k in ('op_classes', 'fired', 'probes', 'points'):
            t = getattr(self, k)
            for a, b in d[k].items():
                t[a] = t.get(a, 0) + b
        self.states |= set(d['states'])
        self.schedules |= set(d['schedules'])
        self.cases |= set(d['cases'])
        self.samples += d['samples']


def norm(rel):
    """A path without the random part of temporary names."""
    return re.sub(r'[0-9a-f]{8,}|tmp[a-z0-9_]{8}', '*', rel or '')


def h(x):
    return hashlib.blake2b(repr(x).encode(), digest_size=8).hexdigest()
