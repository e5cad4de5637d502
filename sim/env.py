"""The interpreter of a simulated process: module stubs, seams, the code under test."""
import logging
import os
import sys
import types
import warnings

REPO = os.environ.get('NGC_REPO', '/repo')
_ready = False


class Null:
    encoding = 'utf-8'
    errors = 'strict'

    def write(self, s):
        return len(s)

    def flush(self):
        pass

    def isatty(self):
        return False

    def fileno(self):
        raise OSError('no file')


def _stub(name, **attrs):
    """A stub for a third-party module that is not installed here."""
    try:
        __import__(name)
        return
    except ImportError:
        pass
    m = types.ModuleType(name)
    m.__dict__.update(attrs)
    sys.modules[name] = m
    if '.' in name:
        parent, leaf = name.rsplit('.', 1)
        if parent in sys.modules:
            setattr(sys.modules[parent], leaf, m)


def setup(shared=False):
    """Import the code under test with the seams in place."""
    global _ready
    if _ready:
        return
    _ready = True
    warnings.simplefilter('ignore')
    os.environ.setdefault('MPLBACKEND', 'Agg')
    os.environ.setdefault('WANDB_MODE', 'offline')
    from . import simdisk, sched
    # other modules first: the seams only concern what runs afterwards.
    import torch
    torch.set_num_threads(1)
    import numpy, networkx, mido, pretty_midi, librosa  # noqa
    import torch_geometric, torch_geometric.data, torch_geometric.transforms  # noqa
    sched.install(os.path.realpath(REPO) + os.sep)
    simdisk.install(os.path.realpath(REPO) + os.sep)
    sys.path.insert(0, os.path.realpath(REPO))
    _stub('sklearn')
    _stub('sklearn.manifold', TSNE=object)
    _stub('wandb')
    librosa.midi_to_note(60)
    import neural_graph_composer.midi_dataset  # noqa
    import neural_graph_composer.midi_reader  # noqa
    if shared:
        import ngc_shared  # noqa
    logging.disable(logging.CRITICAL)


def prefix():
    return os.path.realpath(REPO) + os.sep
