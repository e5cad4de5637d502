"""What each check covers, in words (for the evidence files)."""
REAL = ['every module of the repository that the workload reaches', 'torch', 'torch_geometric', 'mido',
        'pretty_midi', 'networkx', 'shutil, tempfile, glob, pathlib, fsspec']
STUBS = ['the disk below open/os.* (a journal and faults in front of the real calls on a scratch directory)',
         'urllib.request.urlopen (a simulated server)', 'time.time, time.sleep, os.urandom',
         "torch.save/torch.load's C++ file access (the bytes go through the simulated file)",
         'sklearn.manifold.TSNE, wandb (not installed; never called by a workload)']
ASSUMPTIONS = [
    'file system: operations on one machine take effect in order; a name that was replaced atomically is either old '
    'or new; after a power loss metadata operations survive as a prefix of their order that includes everything '
    'before the last fsync, and data written without fsync may be lost or torn',
    'a run samples schedules and faults; it does not enumerate them',
]
COMMON = ('Samples seeded schedules and fault sequences; a clean batch is evidence, not proof. Trusts the reference model of '
          'sim/model.py and the crash model in the assumptions.')


def _m(technique, rule, state, note=COMMON, **kw):
    return dict(technique=technique, rule=rule, state=state, note=note, **kw)


META = {
    'C01': _m('kill and power-loss injection into dataset builds, recovery checked against a reference model',
              'random corpus, configuration, history of 1-3 processes with a kill or power loss at a random or class-targeted operation and a '
              'random surviving disk state; non-trivial: at least one crash hit a process',
              'distinct (process number, crash kind, operation class, path) and trees found after a crash'),
    'C02': _m('error injection into disk, network and memory operations of dataset builds',
              'random corpus and 1-3 processes with 1-4 faults each (failed, short and interrupted operations, raw files that vanish); non-trivial: a fault fired',
              'distinct (process number, faults fired, outcome, tree afterwards)'),
    'C03': _m('simulated histories of opens by processes with different settings, with faults and restarts',
              '2-6 processes that open (once or several times each, also with another pre-processing), read, mutate and reload datasets of 1-3 settings in one folder; non-trivial: a complete dataset was opened again',
              'distinct (step, setting, view, outcome, tree)'),
    'C04': _m('differential simulation against a reference model under swept environments (hash seed, listing order, short transfers, clock, random stream)',
              'random corpus, 8 hash seeds, benign faults; non-trivial: several instruments and a graph with more than two nodes',
              'distinct (graph sizes, configuration)'),
    'C05': _m('seeded simulation of the random stream',
              'random corpus and ratios, 7 random streams each; non-trivial: a graph with 8 or more nodes and 3 to n-3 of them in training',
              'distinct pairs of (train mask, validation mask)'),
    'C06': _m('simulated histories of builds by several builders with allocation failures, interrupts and rejected input',
              '3-24 steps (build, partial iteration, abandon, clear, new builder) over 1-3 scores; non-trivial: at least two builds finished',
              'distinct (step kind, table size, failed, graphs waiting)'),
    'C07': _m('simulated histories of builds and iterations with allocation failures, interrupts and rejected input, against a queue model',
              'as C06; non-trivial: at least two graphs were emitted',
              'distinct (step kind, queue length, failed, rejected input, fault fired)'),
    'C08': _m('crash, power-loss and error injection into MIDI writes, and a seeded scheduler interleaving writers and readers',
              'random pieces, present targets, 1-3 processes with 1-3 writes each or 2-3 concurrent clients; non-trivial: a fault fired or clients ran concurrently',
              'distinct (overwrite, target present, outcome, faults) and (crash point, surviving content)',
              COMMON + ' Files are judged by an independent SMF parser (sim/smfparse.py).'),
    'C10': _m('crash, power-loss and error injection into training processes that save, restart and resume, with concurrent trainers',
              '2-4 processes with 1-2 trainers of 1-5 epochs that save, reload (their own or another model type) and retry a failed load; a model of acknowledged saves; non-trivial: a fault fired',
              'distinct (process, faults, candidates per file)',
              COMMON + ' The trainer loop is the harness\'s; Experiments, torch.save and torch.load are real.'),
    'C11': _m('crash, power-loss and error injection into training processes that update and reload metrics, with concurrent trainers',
              '2-4 processes with 1-2 trainers of 1-5 epochs that update some or all metrics, reload (their own or another model type) and retry a failed load; a model of acknowledged metric files; non-trivial: a fault fired',
              'distinct (process, faults, candidates per file)',
              COMMON + ' The trainer loop is the harness\'s; Experiments, torch.save and torch.load are real.'),
    'C12': _m('read errors, short reads, allocation failures and truncations injected into MIDI reads',
              'random pieces, 2-8 reads by path, bytes, parsed object or from_file, then clean reads; non-trivial: a fault fired or the file was cut',
              'distinct (source, cut, faults, outcome, number of operations)'),
    'C13': _m('seeded scheduler interleaving clients that add and look up signatures, checked against a step-function model of the recorded history',
              '6-40 calls by 1-3 clients on 1-2 collections; non-trivial: additions and lookups happened. No fault applies: nothing here does I/O',
              'distinct (kind, number of signatures, exact hit, signature in effect)'),
    'C15': _m('simulation of the random stream: seeded streams and streams of rarely drawn values',
              'random graphs and pipelines of 1-5 transforms, or a real dataset that is split and accessed (also by a loader) with transforms, under 3-160 streams; non-trivial: something could be dropped',
              'distinct (pipeline, nodes kept, edges kept) and splits',
              COMMON + ' The only nondeterminism is the random source (torch.rand, torch.randperm, numpy.random).'),
    'C17': _m('seeded scheduler switching threads at source lines of the repository, with I/O faults confined to one thread',
              '2-3 threads of 1-3 tasks (read, build, write, signatures, dataset), compared with each thread alone; non-trivial: at least 3 switches',
              'distinct (task, outcome, faults); see also the distinct schedules'),
    'C14': _m('seeded scheduler interleaving the operations of 2-3 processes, with kills and errors',
              'random corpus, 2-3 openers, switch probability 0.02-0.8 at every operation; every run has at least two openers',
              'distinct (outcomes, faults, tree)'),
    'C16': _m('network and disk fault injection into downloads and copies',
              'random corpus of 1-4 files, online or local, 1-3 processes with faults, with edited sources, added files and files named by their raw copy in between, then a clean one; non-trivial: a fault fired',
              'distinct (step, faults fired, raw folder)'),
}
