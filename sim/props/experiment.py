"""Checkpoints and metrics of training runs over crashes, failures and restarts."""
import hashlib
import os

from .. import sched as schedmod
from ..world import World, bitten, describe
from .dataset import gen_reboot, CRASHES, _Sched

ERRORS = ('eio', 'enospc', 'edquot', 'emfile', 'eacces', 'erofs', 'nomem', 'kbint', 'eio_read')
KINDS = {'train': ('train_losses', 'train_f1s', 'train_accs', 'train_recalls', 'train_precisions'),
         'validation': ('val_accs', 'val_f1s', 'val_precisions', 'val_recalls'),
         'test': ('test_accs', 'test_f1s', 'test_precisions', 'test_recalls', 'test_aps', 'test_aucs')}


class Pieces(list):
    num_classes = 3


def fp(obj):
    """A fingerprint of nested state."""
    import torch
    h = hashlib.blake2b(digest_size=8)

    def go(o):
        if isinstance(o, torch.Tensor):
            h.update(repr((str(o.dtype), tuple(o.shape), o.tolist())).encode())
        elif isinstance(o, dict):
            for k in sorted(o, key=repr):
                h.update(repr(k).encode())
                go(o[k])
        elif isinstance(o, (list, tuple)):
            h.update(b'[%d' % len(o))
            for x in o:
                go(x)
        else:
            h.update(repr(o).encode())
    go(obj)
    return h.hexdigest()


def lists(e, kind):
    return [[float(v) for v in getattr(e, n)] for n in KINDS[kind]]


def trainer(d, tr, log, salt):
    """One training process: resume, then train, save and update metrics.
    Everything the user can rely on is noted in the log before and after."""
    import torch
    from ngc_shared import Experiments
    t = tr['type']
    with d.free():
        g = torch.Generator().manual_seed(7)
        e = Experiments(Pieces([1, 2, 3]), epochs=100, batch_size=1, model_type=t)
        e.metrics_rate = tr['rate']
        e.model = torch.nn.Linear(3, 2)
        with torch.no_grad():
            for p in e.model.parameters():
                p.copy_(torch.rand(p.shape, generator=g))
        e.optimizer = torch.optim.Adam(e.model.parameters(), lr=0.01) if tr['opt'] == 'adam' else \
            torch.optim.SGD(e.model.parameters(), lr=0.01, momentum=0.9)
        if tr['out'] != 'checkpoints':
            e.metrics_dir = tr['out'] + '-m'
    def state():
        return [e.start_epoch, fp(e.model.state_dict()), fp(e.optimizer.state_dict()), {k: lists(e, k) for k in KINDS}]

    def load(name):
        for again in (tr.get('again', 0), 0):
            had = state()                            # what a load that finds nothing leaves
            log.append(['load', name, None, None])
            try:
                e.load_checkpoint(name, tr['out'])
            except (Exception, KeyboardInterrupt) as x:
                if not bitten(x) or not again:
                    raise
                continue                             # the user tries again
            break
        now = state()
        log[-1][2] = [e.start_epoch, e.current_epoch]
        log[-1][3] = now[1:3]
        log[-1] += [now[3], now == had, had[3]]
        return {k: [list(a) for a in now[3][k]] for k in KINDS}

    ref = load(t)
    epoch = e.start_epoch if e.start_epoch else tr['first']
    for n, todo in enumerate(tr['epochs']):
        e.current_epoch = epoch
        x = (hash_float(salt, t, epoch, n))
        with d.free():
            for _ in range(todo['steps']):
                e.optimizer.zero_grad()
                e.model(torch.full((2, 3), x)).pow(2).sum().backward()
                e.optimizer.step()
        if todo.get('clear'):
            e.clear_metric()
            ref = {k: [[] for _ in KINDS[k]] for k in KINDS}
        for kind in todo['metrics'] * todo.get('times', 1):
            names = KINDS[kind]
            # all but the loss and the validation metrics may be left out
            vals = [None if m in todo.get('omit', ()) else
                    round(hash_float(salt, t, epoch, n, kind, m, len(ref[kind][0])), 6) for m in names]
            for a, v in zip(ref[kind], vals):
                if v is not None:
                    a.append(v)
            saves = e.current_epoch % tr['rate'] == 0
            if saves:
                log.append(['metric', t, kind, [list(a) for a in ref[kind]], None])
            kw = dict(zip(names, vals))
            if kind == 'train':
                e.update_metrics(kw['train_losses'], train_f1=kw['train_f1s'], train_acc=kw['train_accs'],
                                 train_recall=kw['train_recalls'], train_precision=kw['train_precisions'])
            elif kind == 'validation':
                e.update_val_metric(kw['val_accs'], kw['val_f1s'], kw['val_precisions'], kw['val_recalls'])
            else:
                e.update_test_metric(test_acc=kw['test_accs'], test_f1=kw['test_f1s'], test_precision=kw['test_precisions'],
                                     test_recall=kw['test_recalls'], test_ap=kw['test_aps'], test_auc=kw['test_aucs'])
            if saves:
                log[-1][-1] = 'ok'
        for again in range(1 + todo.get('twice', 0) if todo['save'] else 0):
            if again:
                # the best state of an epoch so far
                with d.free():
                    e.optimizer.zero_grad()
                    e.model(torch.full((2, 3), hash_float(salt, t, epoch, n, again))).pow(2).sum().backward()
                    e.optimizer.step()
            log.append(['save', t, epoch, [fp(e.model.state_dict()), fp(e.optimizer.state_dict())], None])
            try:
                e.save_checkpoint(epoch, e.optimizer.state_dict(), tr['out'], t)
                log[-1][-1] = 'ok'
            except (Exception, KeyboardInterrupt) as x:
                if not bitten(x):
                    raise
                log[-1][-1] = 'raise'       # training goes on
        if todo.get('model'):
            log.append(['model', t, 'final.pt', fp(e.model.state_dict()), None])
            try:
                e.save_model(f'{t}-final.pt', tr['out'] + '-models')
                log[-1][-1] = 'ok'
            except (Exception, KeyboardInterrupt) as x:
                if not bitten(x):
                    raise
                log[-1][-1] = 'raise'
        epoch += 1
        if todo.get('reload'):
            # back to the last state, or on from that of another model
            ref = load(todo['reload'])
            epoch = (e.start_epoch or epoch) if todo['reload'] == t else max(epoch, e.start_epoch)


def hash_float(*parts):
    return int(hashlib.blake2b(repr(parts).encode(), digest_size=4).hexdigest(), 16) / 2 ** 32


def client_train(d, trs, salt, schedule):
    d.progress = [[] for _ in trs]
    if len(trs) == 1:
        trainer(d, trs[0], d.progress[0], salt)
        return None
    s = schedmod.Scheduler(schedule, disk=d)
    res = s.run([lambda k=k, tr=tr: trainer(d, tr, d.progress[k], (salt, k)) for k, tr in enumerate(trs)],
                procs=[f'p{k}' for k in range(len(trs))])
    s.cv = s.threads = s.disk = None
    out = []
    for a, b in res:
        if a == 'raise':
            n, m, where, tb = describe(b)
            out.append((a, [n[0], m[:200], where, bitten(b)]))
        else:
            out.append((a, b and str(b)))
    return out, s.switches, s.points


def client_models(d, names):
    import torch
    out = {}
    for n in names:
        try:
            out[n] = fp(torch.load(n))
        except FileNotFoundError:
            out[n] = None
        except Exception as e:
            out[n] = f'unreadable: {type(e).__name__}: {e}'[:200]
    return out


class File:
    """What a file may hold: values (None: absent) with an acknowledgement each."""

    def __init__(self):
        self.e = [({None}, True)]

    def add(self, value, acked):
        self.e.append(({value}, acked))

    def may(self, power=False):
        acked = [i for i, (_, a) in enumerate(self.e) if a]
        i = acked[-2] if power and len(acked) > 1 else acked[-1]
        return set().union(*[v for v, _ in self.e[i:]])

    def settle(self):
        """After a loss of power the medium holds one of the candidates."""
        self.e = [(self.may(True), True)]


class Training:
    focus = None

    def gen(self, r, i, tier):
        types = r.choice([['a'], ['a', 'ab'], ['ab', 'a'], ['gcn', 'gcn_train'], ['m1', 'm'],
                          r.choice([['GCN', 'gcn'], ['m[1]', 'm1'], ['a.b', 'a'], ['my model', 'my'], ['x*', 'xy']])])
        case = {'seed': r.randrange(1 << 30), 'chunk': r.choice([1 << 20, 4096, 700]), 'first': r.choice([0, 0, 5, 8, 97, 998]),
                'rate': r.choice([1, 1, 2, 3]), 'opt': r.choice(['adam', 'sgd']), 'out': r.choice(['checkpoints', 'checkpoints', 'run/x', 'runs [x]'])}
        procs = []
        for _ in range(r.choice([2, 2, 3, 4])):
            group = [r.choice(types)]
            if len(types) > 1 and r.random() < 0.3:
                group = list(types)
            trs = []
            for t in group:
                ep = []
                for _ in range(r.choice([1, 2, 3, 5])):
                    ms = [k for k in KINDS if r.random() < (0.6 if self.id == 'C11' else 0.2)]
                    ep.append({'steps': r.choice([1, 1, 2]), 'metrics': ms, 'save': r.random() < 0.75, 'model': r.random() < 0.15})
                    if r.random() < 0.35:
                        ep[-1]['omit'] = ['test_aps', 'test_aucs'] if r.random() < 0.7 else \
                            [m for m in KINDS['train'][1:] + KINDS['test'] if r.random() < 0.3]
                    if r.random() < 0.15:
                        ep[-1]['twice'] = r.choice([1, 1, 2])
                    if r.random() < 0.06:
                        # a long training: as many values as a hundred epochs give
                        ep[-1]['times'] = r.choice([30, 60, 110])
                    if r.random() < 0.06:
                        ep[-1]['clear'] = True
                    if r.random() < 0.12:
                        ep[-1]['reload'] = r.choice(types) if len(group) == 1 else t
                trs.append({'type': t, 'epochs': ep, 'again': int(r.random() < 0.3)})
            plan = []
            if r.random() < 0.85:
                for _ in range(r.choice([1, 1, 2])):
                    f = {'kind': r.choice(CRASHES) if r.random() < 0.6 else r.choice(ERRORS),
                         'frac': r.choice([0.0, 0.3, 0.5, 0.9, 1.0]), 'at': 0}
                    if r.random() < 0.5:
                        f['at'] = r.randrange(0, 10 + 9 * sum(len(x['epochs']) for x in trs))
                    else:
                        f['only'] = [r.choice(['open_w', 'write', 'fsync', 'rename', 'mkdir', 'read', 'open_r', 'unlink'])]
                        f['skip'] = r.randrange(0, 8)
                    if len(trs) > 1 and f['kind'] != 'power':
                        f['proc'] = f'p{r.randrange(len(trs))}'
                    if r.random() < 0.1:
                        f['count'] = r.choice([2, 1000])
                    plan.append(f)
            procs.append({'trainers': trs, 'plan': plan, 'reboot': gen_reboot(r),
                          'schedule': {'seed': r.randrange(1 << 30), 'p': r.choice([0.05, 0.2, 0.5, 0.9])}})
        case['steps'] = procs
        return case

    def run(self, case, scratch, st):
        w = World(scratch, seed=case['seed'], chunk=case['chunk'], dirs=('tmp',))
        common = {k: case[k] for k in ('first', 'rate', 'opt', 'out')}
        files = {}                # (type, 'save', epoch) / (type, 'metric', kind) / (type, 'model', name) -> File
        bad, switches_all = [], {}
        types = sorted({x for s in case['steps'] for t in s['trainers']
                        for x in [t['type']] + [e['reload'] for e in t['epochs'] if 'reload' in e]})
        last = []
        for t in types:
            last.append({'trainers': [{'type': t, 'epochs': [{'steps': 1, 'metrics': list(KINDS), 'save': True}] * 2}],
                         'plan': [], 'reboot': {}, 'schedule': {}})
            last.append({'trainers': [{'type': t, 'epochs': []}], 'plan': [], 'reboot': {}, 'schedule': {}})
        for k, s in enumerate(case['steps'] + last):
            before = dict(w.disk.fired)
            w.disk.progress = []
            trs = [dict(common, **t) for t in s['trainers']]
            o = w.boot(client_train, trs, (case['seed'], k), s['schedule'], plan=s['plan'])
            fired = sorted(x for x in w.disk.fired if w.disk.fired[x] != before.get(x, 0))
            power = any(x.startswith('power') for x in fired)
            if fired:
                st.nontrivial = 1
            what = f'process {k} with {",".join(fired) or "no fault"}'
            st.note((k, o.status, o.exc, w.disk.progress))
            if o.status == 'ok' and o.value is not None:
                res, sw, points = o.value
                switches_all[k] = sw
                st.schedule(_Sched(sw, points))
                for j, (a, b) in enumerate(res):
                    if a == 'raise' and not b[3] or a == 'hang':
                        bad.append(f'{what}, trainer {j} ({trs[j]["type"]}): {b}')
                    if a == 'crash' and not any(x.split(':')[0] in CRASHES for x in fired):
                        bad.append(f'{what}, trainer {j} died')
            elif o.status == 'raise' and not o.bitten or o.status in ('hang', 'died'):
                bad.append(f'{what}: {o!r}')
            elif o.status == 'crash' and not any(x.split(':')[0] in CRASHES for x in fired):
                bad.append(f'{what}: died')
            for log in w.disk.progress:
                for ev in log:
                    bad += [f'{what}: {p}' for p in self.event(ev, files, st)]
                    if bad:
                        break
            w.disk.reboot(s['reboot'])
            if power:
                for f in files.values():
                    f.settle()
            st.state(k, tuple(fired), tuple(sorted((key[:2], len(f.may())) for key, f in files.items())))
            if bad:
                break
        if not bad and self.id == 'C10':
            ms = {f'{case["out"]}-models/{t}-final.pt': files.get((t, 'model', 'final.pt')) for t in types}
            o = w.boot(client_models, [m for m in ms if ms[m]])
            if not o.ok:
                bad.append(f'loading saved models: {o!r}')
            else:
                for n, v in o.value.items():
                    if v not in ms[n].may():
                        bad.append(f'{n} holds {v}, expected one of {sorted(map(str, ms[n].may()))}')
        if switches_all:
            case['_switches'] = switches_all
        st.world(w)
        return bad[:4]

    def event(self, ev, files, st):
        """Update the model with one event of a trainer's log; problems of a load."""
        if ev[0] in ('save', 'metric', 'model'):
            key = (ev[1], ev[0], ev[2])
            v = ev[3] if isinstance(ev[3], str) else repr(ev[3])
            files.setdefault(key, File()).add(v, ev[-1] == 'ok')
            return []
        _, t, epochs, got = ev[:4]
        if epochs is None or len(ev) < 7:
            return []                        # the load did not finish
        out = []
        cps = {k[2]: f for k, f in files.items() if k[0] == t and k[1] == 'save'}
        allowed = {}
        must = False
        for n in sorted(cps, reverse=True):
            m = cps[n].may()
            allowed[n] = {x for x in m if x is not None}
            if None not in m:
                must = True
                break
        n = epochs[0] - 1 if epochs[0] else None
        if ev[5] and not must:
            return []                        # nothing to load: everything stayed as it was
        if self.id == 'C10':
            if epochs[0] != epochs[1]:
                out.append(f'{t}: resumes at epoch {epochs[0]} but counts from {epochs[1]}')
            if n is None:
                if must:
                    out.append(f'{t}: nothing was loaded although epoch {max(allowed)} was saved')
            elif n not in allowed:
                out.append(f'{t}: resumed from epoch {n}; complete saves that count: {sorted(allowed)}')
            elif repr(got) not in allowed[n]:
                out.append(f'{t}: weights or optimizer state after loading epoch {n} are not those saved for it')
            st.hit('resumed' if n is not None else 'fresh')
        elif n is not None:
            for kind in KINDS:
                f = files.get((t, 'metric', kind))
                may = f.may() if f else {None}
                v = repr(ev[4][kind])
                # without a saved file the trainer keeps what it has (a new one: nothing)
                ok = v in may or None in may and ev[4][kind] == ev[6][kind]
                if not ok:
                    out.append(f'{t}: {kind} metrics after the restart are {v[:150]}, '
                               f'expected {" or ".join(str(m)[:150] for m in sorted(map(str, may)))}')
                st.hit('metrics_restored' if v in may else 'metrics_absent')
        return out

    def shrink(self, case):
        sw = case.pop('_switches', None)
        steps = case['steps']
        for i in range(len(steps)):
            yield dict(case, steps=steps[:i] + steps[i + 1:])
        for i, s in enumerate(steps):
            def put(s2):
                return dict(case, steps=steps[:i] + [s2] + steps[i + 1:])
            for j in range(len(s['plan'])):
                yield put(dict(s, plan=s['plan'][:j] + s['plan'][j + 1:]))
            if len(s['trainers']) > 1:
                for j in range(len(s['trainers'])):
                    yield put(dict(s, trainers=s['trainers'][:j] + s['trainers'][j + 1:],
                                   plan=[{a: b for a, b in f.items() if a != 'proc'} for f in s['plan']]))
                if sw and i in sw and 'explicit' not in s['schedule']:
                    yield put(dict(s, schedule={'explicit': sw[i]}))
                ex = s['schedule'].get('explicit') or []
                size = len(ex) // 2
                while size >= 1:
                    for a in range(0, len(ex), size):
                        yield put(dict(s, schedule={'explicit': ex[:a] + ex[a + size:]}))
                    size //= 2
            for j, t in enumerate(s['trainers']):
                for m in range(len(t['epochs'])):
                    yield put(dict(s, trainers=s['trainers'][:j] + [dict(t, epochs=t['epochs'][:m] + t['epochs'][m + 1:])]
                                   + s['trainers'][j + 1:]))
                for m, e in enumerate(t['epochs']):
                    for extra in ('reload', 'times', 'clear'):
                        if extra not in e:
                            continue
                        e2 = {a: b for a, b in e.items() if a != extra}
                        yield put(dict(s, trainers=s['trainers'][:j] + [dict(t, epochs=t['epochs'][:m] + [e2] + t['epochs'][m + 1:])]
                                       + s['trainers'][j + 1:]))
                    for x in range(len(e['metrics'])):
                        e2 = dict(e, metrics=e['metrics'][:x] + e['metrics'][x + 1:])
                        yield put(dict(s, trainers=s['trainers'][:j] + [dict(t, epochs=t['epochs'][:m] + [e2] + t['epochs'][m + 1:])]
                                       + s['trainers'][j + 1:]))
        for k, v in (('chunk', 1 << 20), ('first', 0), ('out', 'checkpoints'), ('opt', 'sgd')):
            if case[k] != v:
                yield dict(case, **{k: v})


class Checkpoints(Training):
    id = 'C10'


class Metrics(Training):
    id = 'C11'
