"""The properties and what a run of each costs."""
import importlib

# id -> (module, class, quick runs, needs ngc_shared)
PROPS = {
    'C01': ('dataset', 'Crash', 1600, False),
    'C02': ('dataset', 'Faults', 1600, False),
    'C03': ('dataset', 'Reopen', 1200, False),
    'C04': ('dataset', 'Content', 1600, False),
    'C05': ('dataset', 'Masks', 600, False),
    'C06': ('builder', 'Tables', 2400, False),
    'C07': ('builder', 'Emission', 2400, False),
    'C08': ('midi', 'Write', 2000, False),
    'C10': ('experiment', 'Checkpoints', 1200, True),
    'C11': ('experiment', 'Metrics', 1200, True),
    'C12': ('midi', 'Read', 2400, False),
    'C13': ('midi', 'Lookups', 6000, False),
    'C14': ('dataset', 'Concurrent', 1200, False),
    'C15': ('tfm', 'Transforms', 2400, True),
    'C16': ('dataset', 'RawFiles', 1600, False),
    'C17': ('threads', 'Threads', 800, False),
}
THOROUGH = 40          # times the quick runs (until the time is used up)

LEVEL = 'exploration'


def load(pid):
    from . import env
    mod, cls, n, shared = PROPS[pid]
    env.setup(shared)
    m = importlib.import_module('sim.props.' + mod)
    p = getattr(m, cls)()
    assert p.id == pid
    return p
