"""Dataset properties: crash safety, faults, reopening, content, masks, concurrency, raw files."""
import os

from .. import dsutil, model, sched as schedmod
from ..world import World
from ..simdisk import BENIGN
from ..stats import norm

CRASHES = ('crash', 'power')
ERRORS = ('eio', 'eio_read', 'enospc', 'edquot', 'emfile', 'eacces', 'erofs', 'nomem', 'kbint', 'vanish')
NET = ('reset', 'eof', 'timeout', 'refused', 'http500', 'http404')


def reseed(s):
    """All random streams a program can draw from."""
    import random
    import numpy
    import torch
    random.seed(s)
    numpy.random.seed(s)
    torch.manual_seed(s)


# ---- client programs (run inside a simulated process) -------------------------
def client_open(d, root, cfg, files, whole, hooks, np_seed=None):
    if np_seed is not None:
        reseed(np_seed)
    given = list(files) if files is not None else None
    ds = dsutil.open_dataset(d, root, cfg, files, whole, hooks=hooks)
    before = sum(d.fired.values())
    try:
        snap = dsutil.snapshot(ds, cfg)
    except Exception as e:
        if sum(d.fired.values()) != before:
            raise
        # the open reported success, and nothing went wrong since
        snap = {'graphs': [], 'len': 0, 'sets': [], 'index': {},
                'problems': [f'the dataset cannot be used: {type(e).__name__}: {str(e)[:100]}']}
    if files is not None and files != given:
        snap['problems'].append("the caller's list of files was changed")
    return snap


# ---- case generation ------------------------------------------------------------
def gen_corpus(r, cfgs, lo=1, hi=3, opts=None, drums=True):
    fulls = [dsutil.full(c) for c in cfgs]
    while True:
        n = r.randint(lo, hi)
        o = {'rich': r.random() < 0.4, 'max_steps': r.choice([4, 8, 12]), 'max_tracks': r.choice([1, 2, 4])}
        if hi > 1 and r.random() < (opts or {}).get('scale', 0.01):
            # more files than one digit counts
            n = r.randint(10, 13)
            o = {'max_steps': 3, 'max_tracks': 2, 'many': 2}
        o.update(opts or {})
        scores = [model.good_score(r, fulls, o, need_melody=not (drums and r.random() < 0.15))
                  for _ in range(n)]
        if n > 1 and r.random() < 0.06:
            # the same piece under two names
            scores[r.randrange(n)] = scores[r.randrange(n)]
        if all(model.dataset(scores, c)[0] for c in fulls):
            return scores


def est_ops(case):
    n = len(case['scores'])
    size = 22000 + 9000 * n
    return 50 + 26 * n + 2 * (size // max(case['chunk'], 1))


def gen_fault(r, kinds, est):
    f = {'kind': r.choice(kinds), 'frac': r.choice([0.0, 0.3, 0.5, 0.9, 1.0])}
    x = r.random()
    if x < 0.5:
        f['at'] = r.randrange(0, est)
    elif x < 0.9:
        f['at'] = 0
        cls = {'reset': ['net_read'], 'eof': ['net_read'], 'timeout': ['net_open', 'net_read'],
               'refused': ['net_open'], 'vanish': ['open_r'], 'http500': ['net_open'], 'http404': ['net_open']}.get(f['kind'])
        if cls:
            f['only'] = [r.choice(cls)]
        else:
            f['only'] = [r.choice(['open_w', 'write', 'fsync', 'rename', 'mkdir', 'read', 'open_r', 'unlink'])]
        f['skip'] = r.randrange(0, 8) if r.random() < 0.7 else r.randrange(0, 60)
    else:
        f['at'] = r.randrange(0, est)
        f['count'] = r.choice([2, 3, 1000])
    return f


def gen_reboot(r):
    return {'meta': r.choice([None, 0, 1, 2, 3, r.randrange(0, 30)]),
            'data': r.choice(['none', 'random', 'random', 'all']), 'seed': r.randrange(1 << 30)}


def base_case(r, cfgs=None, **kw):
    cfgs = cfgs or [dsutil.gen_cfg(r)]
    case = {'cfgs': cfgs, 'scores': gen_corpus(r, cfgs, **kw), 'seed': r.randrange(1 << 30),
            'chunk': r.choice([1 << 20, 1 << 14, 2048, 600]), 'netseg': r.choice([16, 64, 200, 1 << 14]),
            'online': r.random() < 0.4, 'hooks': {}}
    if r.random() < 0.25:
        case['hooks']['pre_transform'] = 'tag'
    if r.random() < 0.15:
        case['hooks']['transform'] = 'mark'
    return case


def build_world(case, scratch):
    w = World(scratch, seed=case['seed'], chunk=case['chunk'], net_segment=case['netseg'])
    n = len(case['scores'])
    blobs = [model.smf(s) for s in case['scores']]
    names = case.get('names') or [f'f{i}.mid' for i in range(n)]
    for nm, b in zip(names, blobs):
        w.put('in/' + nm, b)
    w.disk.server = dict(zip(names, blobs))
    w.disk.alloc_ops = bool(case.get('alloc'))
    w.source = dict(zip(names, blobs))
    files = None if case['online'] else ['in/' + nm for nm in names]
    return w, files


def same_names(r, n):
    """Names of pieces that lie in several folders under the same few names."""
    return [f's{k}/{r.choice(["p", "p", "p_1", "q"])}.mid' for k in range(n)]


def refs_of(case):
    return [dsutil.Reference(case['scores'], c, case['hooks']) for c in case['cfgs']]


def raw_problems(w, source, versions=None):
    out = []
    if any('/' in n for n in source):
        # pieces of the same name from several folders: only the content tells them apart
        known = set(source.values()).union(*(versions or {}).values())
        return [f'raw file {name} holds {len(data)} bytes that are not those of any source'
                for name, data in w.disk.tree('ds/raw').items() if name.endswith('.mid') and data not in known]
    for name, data in w.disk.tree('ds/raw').items():
        if name.endswith('.mid'):
            if name not in source:
                out.append(f'raw file {name} is not one of the sources')
            elif source[name] != data and data not in (versions or {}).get(name, ()):
                out.append(f'raw file {name} holds {len(data)} bytes that are not the {len(source[name])} of its source')
    return out


def tree_state(w):
    return tuple(sorted((norm(k), len(v)) for k, v in w.disk.tree('ds').items()))


def simplify_scores(case):
    """Smaller corpora with the same configurations."""
    sc = case['scores']
    if len(sc) > 1:
        for i in range(len(sc)):
            yield dict(case, scores=sc[:i] + sc[i + 1:], names=None)
    for i, s in enumerate(sc):
        if len(s['tracks']) > 1:
            for j in range(len(s['tracks'])):
                t = dict(s, tracks=s['tracks'][:j] + s['tracks'][j + 1:])
                yield dict(case, scores=sc[:i] + [t] + sc[i + 1:])
        for j, tr in enumerate(s['tracks']):
            k = len(tr['notes'])
            for part in ((0, k // 2), (k // 2, k)):
                if k > 2:
                    t2 = dict(tr, notes=tr['notes'][part[0]:part[1]])
                    t = dict(s, tracks=s['tracks'][:j] + [t2] + s['tracks'][j + 1:])
                    yield dict(case, scores=sc[:i] + [t] + sc[i + 1:])
        for key in ('tempos', 'timesigs', 'keysigs'):
            if s.get(key):
                yield dict(case, scores=sc[:i] + [dict(s, **{key: []})] + sc[i + 1:])
        if s.get('spell'):
            yield dict(case, scores=sc[:i] + [dict(s, spell={})] + sc[i + 1:])


def valid(case):
    """Shrunk corpora must stay unambiguous and non-empty, settings legal."""
    for c in case['cfgs']:
        f = dsutil.full(c)
        if f['train_ratio'] + f['val_ratio'] > 1:
            return False
    try:
        for c in case['cfgs']:
            f = dsutil.full(c)
            if not model.dataset(case['scores'], f)[0]:
                return False
        return True
    except model.Ambiguous:
        return False


def shrink_common(case, steps_key='steps'):
    st = case.get(steps_key) or []
    for i in range(len(st)):
        yield dict(case, **{steps_key: st[:i] + st[i + 1:]})
    for i, s in enumerate(st):
        for j in range(len(s.get('plan') or [])):
            s2 = dict(s, plan=s['plan'][:j] + s['plan'][j + 1:])
            yield dict(case, **{steps_key: st[:i] + [s2] + st[i + 1:]})
    for i, s in enumerate(st):
        for j in range(len(s.get('prior') or [])):
            s2 = dict(s, prior=s['prior'][:j] + s['prior'][j + 1:])
            yield dict(case, **{steps_key: st[:i] + [s2] + st[i + 1:]})
    if len(case.get('cfgs', [])) > 1 and all(s.get('cfg', 0) == 0 for s in st):
        yield dict(case, cfgs=case['cfgs'][:1])
    if case.get('hooks'):
        yield dict(case, hooks={})
    for i, c in enumerate(case.get('cfgs', [])):
        for k in list(c):
            c2 = {a: b for a, b in c.items() if a != k}
            c3 = dict(case, cfgs=case['cfgs'][:i] + [c2] + case['cfgs'][i + 1:])
            if valid(c3):
                yield c3
    if case.get('online'):
        yield dict(case, online=False)
    if case.get('chunk', 1 << 20) != 1 << 20:
        yield dict(case, chunk=1 << 20)
    for c in simplify_scores(case):
        if valid(c):
            yield c
    for i, s in enumerate(st):
        for j, f in enumerate(s.get('plan') or []):
            for k, v in (('count', 1), ('skip', f.get('skip', 0) // 2), ('at', f['at'] // 2), ('frac', 0.5)):
                if k in f and f[k] != v:
                    s2 = dict(s, plan=s['plan'][:j] + [dict(f, **{k: v})] + s['plan'][j + 1:])
                    yield dict(case, **{steps_key: st[:i] + [s2] + st[i + 1:]})


class Prop:
    stale = ()

    def shrink(self, case):
        return shrink_common(case)

    def outcome(self, w, st, o, what):
        st.note((what, repr(o)))


def verify_open(w, st, case, files, ref, cfg, whole, what, ordered, faults_gone=True):
    """A clean open must succeed and be complete."""
    o = w.boot(client_open, w.path('ds'), cfg, files, whole, case['hooks'])
    st.note((what, repr(o)))
    if not o.ok:
        return None, [f'{what}: {o!r}']
    pr = dsutil.check_view(o.value, ref, whole, ordered)
    return o.value, [f'{what}: {p}' for p in pr[:3]]


class Crash(Prop):
    """C01: interrupted builds recover."""
    id = 'C01'

    def gen(self, r, i, tier):
        cfgs = [dsutil.gen_cfg(r)]
        if r.random() < 0.3:
            cfgs.append(dsutil.sibling(r, cfgs[0]))
        case = base_case(r, cfgs, hi=2)
        est = est_ops(case)
        steps = []
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            s = {'cfg': r.randrange(len(cfgs)), 'whole': r.random() < 0.4, 'plan': []}
            if r.random() < 0.9:
                s['plan'].append(gen_fault(r, CRASHES, est))
                if r.random() < 0.2:
                    s['plan'].append(gen_fault(r, ('short_write', 'short_read', 'clock_back', 'clock_fwd'), est))
            s['reboot'] = gen_reboot(r)
            s['cycle'] = r.random() < 0.2        # power is lost after the process ended
            steps.append(s)
        case['steps'] = steps
        return case

    def run(self, case, scratch, st):
        w, files = build_world(case, scratch)
        refs = refs_of(case)
        ordered = not case['online']
        seen = {}
        bad = []
        crashed = False
        for k, s in enumerate(case['steps']):
            cfg, ref = case['cfgs'][s['cfg']], refs[s['cfg']]
            o = w.boot(client_open, w.path('ds'), cfg, files, s['whole'], case['hooks'], plan=s['plan'])
            st.note((k, repr(o)))
            what = f'process {k}'
            if o.status == 'ok':
                bad += [f'{what} (no crash hit it): {p}' for p in dsutil.check_view(o.value, ref, s['whole'], ordered)[:3]]
                key = (s['cfg'], s['whole'])
                if key in seen and seen[key] != o.value:
                    bad.append(f'{what}: a dataset that had been returned before now differs')
                seen[key] = o.value
            elif o.status == 'crash':
                crashed = True
                ci = w.disk.crash_info
                st.state(k, ci[0], ci[2], norm(ci[3]))
            else:
                bad.append(f'{what} after a crash: {o!r}' if crashed else f'{what}: {o!r}')
            power = w.disk.power_off
            if s.get('cycle') and not power:
                w.disk.power_off = power = True
            lost = w.disk.reboot(s['reboot'])
            if power:
                st.hit('power_cycles')
                if lost:
                    st.hit('power_cycle_lost_something')
                seen = {}
            if crashed:
                st.state(tree_state(w))
            if bad:
                break
        if not bad:
            order = [(c, v) for c in range(len(case['cfgs'])) for v in (False, True)]
            for c, v in order + order[:1]:
                val, pr = verify_open(w, st, case, files, refs[c], case['cfgs'][c], v,
                                      'open after the last restart', ordered)
                bad += pr
                if val is not None:
                    if (c, v) in seen and seen[(c, v)] != val:
                        bad.append('a dataset that had been returned before the crash now differs')
                    seen[(c, v)] = val
                if bad:
                    break
            bad += raw_problems(w, w.source)
        if crashed:
            st.nontrivial += 1
        st.world(w)
        return bad


class Faults(Prop):
    """C02: failing I/O, network and memory."""
    id = 'C02'

    def gen(self, r, i, tier):
        cfgs = [dsutil.gen_cfg(r)]
        case = base_case(r, cfgs, hi=2)
        est = est_ops(case)
        kinds = list(ERRORS) + (list(NET) * 2 if case['online'] else [])
        kinds = r.sample(kinds, r.randint(1, min(5, len(kinds))))
        steps = []
        for _ in range(r.choice([1, 1, 2, 3])):
            plan = [gen_fault(r, kinds, est) for _ in range(r.choice([1, 1, 2, 3]))]
            if r.random() < 0.3:
                plan.append(gen_fault(r, ('short_write', 'short_read', 'clock_back'), est))
            steps.append({'cfg': 0, 'whole': r.random() < 0.4, 'plan': plan})
        if r.random() < 0.15:
            # memory runs out in the middle of the computation
            case['alloc'] = True
            for s in steps:
                s['plan'] = [{'kind': r.choice(['nomem', 'oom', 'oom', 'kbint']), 'at': 0, 'only': ['alloc'],
                              'skip': r.randrange(0, r.choice([5, 40, 200])), 'count': r.choice([1, 1, 1000])}]
        elif r.random() < 0.15:
            # only faults that no program may notice
            steps = [{'cfg': 0, 'whole': False, 'plan': [
                {'kind': r.choice(['short_read', 'short_write', 'clock_back', 'clock_fwd']),
                 'at': r.randrange(0, est), 'count': r.choice([1, 5, 10000]),
                 'frac': r.choice([0.1, 0.5, 0.9])} for _ in range(r.randint(1, 3))]}]
        case['steps'] = steps
        if not case['online'] and r.random() < 0.15:
            # after some use a piece is edited, and the dataset is to be built again
            s = dict(steps[0], edit=0)
            j = r.randrange(len(case['scores']))
            s['edit'] = [j, edited(r, case['scores'][j])]
            scores = list(case['scores'])
            scores[j] = s['edit'][1]
            if valid(dict(case, scores=scores)):
                case['steps'] = [{'cfg': 0, 'whole': False, 'plan': []}, s] + steps[1:]
        return case

    def run(self, case, scratch, st):
        w, files = build_world(case, scratch)
        ref = refs_of(case)[0]
        cfg = case['cfgs'][0]
        ordered = not case['online']
        bad = []
        hit = False
        versions = None
        for k, s in enumerate(case['steps']):
            before = dict(w.disk.fired)
            if s.get('edit'):
                j, score = s['edit']
                case = dict(case, scores=case['scores'][:j] + [score] + case['scores'][j + 1:])
                ref = refs_of(case)[0]
                name = list(w.source)[j]
                versions = {name: [w.source[name]]}
                w.remove('ds/processed')
                w.source[name] = model.smf(score)
                w.put('in/' + name, w.source[name])
            o = w.boot(client_open, w.path('ds'), cfg, files, s['whole'], case['hooks'], plan=s['plan'])
            st.note((k, repr(o)))
            fired = [x for x in w.disk.fired if w.disk.fired[x] != before.get(x, 0)]
            hard = [x for x in fired if x.split(':')[0] not in BENIGN]
            hit = hit or bool(fired)
            what = f'process {k} with {",".join(sorted(fired)) or "no fault"}'
            if o.status == 'ok':
                bad += [f'{what} reported success: {p}'
                        for p in dsutil.check_view(o.value, ref, s['whole'], ordered)[:3]]
                if hard:
                    st.hit('fault_survived')
            elif o.status == 'raise':
                if not hard:
                    bad.append(f'{what}: {o!r}')
                else:
                    st.hit('fault_reported')
            else:
                bad.append(f'{what}: {o!r}')
            st.state(k, tuple(sorted(fired)), o.status, o.exc, tree_state(w))
            bad += [f'{what}: {p}' for p in raw_problems(w, w.source, None if o.status == 'ok' else versions)]
            w.disk.reboot({})
            if bad:
                break
        if not bad:
            first = {}
            for v in (case['steps'][-1]['whole'] if case['steps'] else False, True, False):
                val, pr = verify_open(w, st, case, files, ref, cfg, v, 'the next open without faults', ordered)
                bad += pr
                if v in first and first[v] != val:
                    bad.append('two opens without faults give different data')
                first[v] = val
                if bad:
                    break
        if hit:
            st.nontrivial += 1
        st.world(w)
        return bad

    def shrink(self, case):
        if any('edit' in s for s in case['steps']):
            return shrink_edits(case, ('edit',))
        return shrink_common(case)


def shrink_edits(case, extra):
    """The edits belong to the scores as they are."""
    for i, s in enumerate(case['steps']):
        yield dict(case, steps=case['steps'][:i] + case['steps'][i + 1:])
        for e in extra:
            if e not in s:
                continue
            s2 = {a: b for a, b in s.items() if a != e}
            yield dict(case, steps=case['steps'][:i] + [s2] + case['steps'][i + 1:])
        for j in range(len(s['plan'])):
            s2 = dict(s, plan=s['plan'][:j] + s['plan'][j + 1:])
            yield dict(case, steps=case['steps'][:i] + [s2] + case['steps'][i + 1:])


def spoil(ds):
    """What a careless user can do to a delivered dataset."""
    for k in range(len(ds)):
        g = ds[k]
        g.x += 1000
        g.y.zero_()
        g.edge_attr.mul_(-1)
        g.edge_index.zero_()
        for m in ('train_mask', 'val_mask', 'test_mask'):
            if m in g:
                g[m].fill_(True)
    for name in ('hash_to_index', 'index_to_hash', 'notes_to_hash', 'hash_to_notes'):
        getattr(ds, name).clear()


def client_reopen(d, root, cfg, files, whole, hooks, acts, prior=()):
    """Opens and uses the dataset the way a training script would.

    prior: datasets opened before in the same process, [(key, cfg, whole, spoil it?)]."""
    import numpy
    import torch
    reseed(acts['np_seed'])
    kept = []
    for key, c, wh, bad in prior:
        other = dsutil.open_dataset(d, root, c, files, wh, hooks=hooks)
        if bad:
            spoil(other)
        kept.append((key, c, other, bad))
    import warnings
    with warnings.catch_warnings(record=True) as said:
        warnings.simplefilter('always')
        ds = dsutil.open_dataset(d, root, cfg, files, whole, hooks=acts.get('hooks', hooks))
    said = {h for h in ('pre_filter', 'pre_transform') for w in said if h in str(w.message)}
    n = len(ds)
    order = [acts['order'][k % len(acts['order'])] % n for k in range(acts['peek'])] if n else []
    problems = []
    for i in order:
        a = ds[i]
        if ds.get_graph_id() != i:
            problems.append(f'graph id {ds.get_graph_id()} after reading graph {i}')
        a.y = None
        a.x = None
        a.extra = 1
    if acts.get('loader') and n:
        import warnings
        from torch_geometric.loader import DataLoader
        seen = 0
        for b in DataLoader(ds, batch_size=acts['loader'], shuffle=True):
            seen += b.num_graphs
        if seen != n:
            problems.append(f'a loader delivered {seen} graphs of {n}')
    for name in ('hash_to_index', 'index_to_hash', 'notes_to_hash', 'hash_to_notes'):
        t = getattr(ds, name)
        t.clear()
        if not getattr(ds, name):
            problems.append(f'{name} is not read-only')
    snap = dsutil.snapshot(ds, cfg)
    snap['problems'] += problems
    if kept:
        spoil(ds)
    snap['said'] = sorted(said)
    return snap, [(key, dsutil.snapshot(other, c)) for key, c, other, bad in kept if not bad]


OTHERS = {'pre_filter': ['even', 'all1', 'all2'], 'pre_transform': ['tag', 'same1', 'same2']}


class Reopen(Prop):
    """C03: reopening."""
    id = 'C03'

    def gen(self, r, i, tier):
        cfgs = [dsutil.gen_cfg(r)]
        for _ in range(r.choice([0, 1, 2])):
            c = dsutil.sibling(r, r.choice(cfgs))
            key = lambda x: (x.get('include_velocity', False), x.get('feature_vec_size', 12), x.get('tolerance', 0.2))
            if key(c) not in [key(x) for x in cfgs]:
                cfgs.append(c)
        case = base_case(r, cfgs, hi=2)
        case['steps'] = [{
            'cfg': r.randrange(len(cfgs)), 'whole': r.random() < 0.5,
            'files': r.choice(['same', 'same', 'none']),
            'np_seed': r.randrange(1 << 30), 'order': [r.randrange(50) for _ in range(6)],
            'peek': r.randrange(0, 6), 'loader': r.choice([0, 0, 1, 2]),
            'prior': [(r.randrange(len(cfgs)), r.random() < 0.5, r.random() < 0.6)
                      for _ in range(r.choice([0, 0, 0, 1, 1, 2]))],
            'plan': ([{'kind': r.choice(['short_read', 'clock_back', 'clock_fwd', 'crash', 'power', 'eio_read', 'emfile', 'nomem']),
                       'at': r.randrange(0, 30), 'count': r.choice([1, 3, 1000])}] if r.random() < 0.35 else []),
            'reboot': gen_reboot(r),
        } for _ in range(r.randint(2, 6))]
        for s in case['steps']:
            if r.random() < 0.15:
                # the user asks for another pre-processing than that of the stored data
                s['other'] = r.choice(['pre_filter', 'pre_transform'])
                s['by'] = r.choice([None, *OTHERS[s['other']]])
        if r.random() < 0.2:
            case['hooks']['pre_filter'] = 'all1'
        if r.random() < 0.2:
            case['hooks'].setdefault('pre_transform', 'same1')
        return case

    def run(self, case, scratch, st):
        w, files = build_world(case, scratch)
        refs = refs_of(case)
        ordered = not case['online']
        seen, built = {}, set()
        markers = True
        bad = []
        for k, s in enumerate(case['steps']):
            ci = s['cfg']
            first = ci not in built
            plan = [] if first else s['plan']
            fl = files
            if s['files'] == 'none' and not first:
                fl = None
            before_fired = dict(w.disk.fired)
            tree = {a: b for a, b in w.disk.tree('ds').items() if 'processed' in a}
            mark = len(w.disk.log)
            acts, differs = s, []
            if s.get('other') and not first:
                h = dict(case['hooks'])
                h.pop(s['other'], None)
                if s['by']:
                    h[s['other']] = s['by']
                acts = dict(s, hooks=h)
                if h != case['hooks']:
                    differs = [s['other']]
            prior = [((c, wh), case['cfgs'][c], wh, sp) for c, wh, sp in s.get('prior', ())
                     if c < len(case['cfgs']) and (c in built or c == ci)]
            o = w.boot(client_reopen, w.path('ds'), case['cfgs'][ci], fl, s['whole'], case['hooks'], acts, prior, plan=plan)
            st.note((k, repr(o)))
            fired = [x for x in w.disk.fired if w.disk.fired[x] != before_fired.get(x, 0)]
            hard = [x for x in fired if x.split(':')[0] not in BENIGN]
            what = f'open {k} ({"first" if first else "again"}{", " + ",".join(fired) if fired else ""})'
            if o.status == 'ok':
                snap, others = o.value
                said = snap.pop('said')
                if markers and not hard and said != differs:
                    bad.append(f'{what}: it warns about {said or "nothing"}, the pre-processing differs in {differs or "nothing"}')
                if differs:
                    st.hit('opened_with_another_preprocessing')
                for (c, wh), sn, name in [((ci, s['whole']), snap, what)] + \
                        [(k2, sn, what + ', dataset opened earlier in the same process') for k2, sn in others]:
                    bad += [f'{name}: {p}' for p in dsutil.check_view(sn, refs[c], wh, ordered)[:3]]
                    if (c, wh) in seen and seen[(c, wh)] != sn:
                        bad.append(f'{name}: not the data that was returned before')
                    seen[(c, wh)] = sn
                if prior:
                    st.hit('several_opens_in_one_process')
                built.add(ci)
            elif not (o.status == 'raise' and hard or o.status == 'crash'):
                bad.append(f'{what}: {o!r}')
            if not first:
                touched = [e for e in w.disk.log[mark:] if e[2] in ('write', 'open_w', 'rename', 'unlink', 'trunc', 'link')
                           and str(e[3]).startswith('ds/processed')]
                if touched:
                    bad.append(f'{what}: it {touched[0][2]}s {norm(touched[0][3])} of a complete dataset')
                now = {a: b for a, b in w.disk.tree('ds').items() if 'processed' in a}
                if now != tree and not w.disk.power_off:
                    bad.append(f'{what}: the processed files changed')
                st.nontrivial += 1
                if fl is None and not case['online']:
                    st.hit('reopened_without_the_file_list')
            power = w.disk.power_off
            w.disk.reboot(s['reboot'])
            if power:
                # a rename that never reached the disk may be gone with the power
                seen, built = {}, set()
                markers = False
            st.state(k, ci, s['whole'], o.status, tree_state(w))
            if bad:
                break
        bad += raw_problems(w, w.source)
        st.world(w)
        return bad


class Content(Prop):
    """C04: the content of both views."""
    id = 'C04'

    def gen(self, r, i, tier):
        cfgs = [dsutil.gen_cfg(r)]
        case = base_case(r, cfgs, hi=4 if tier == 'quick' else 6)
        if r.random() < 0.2:
            case['hooks']['pre_filter'] = 'even'
            ref = refs_of(case)[0]
            if not ref.per or not ref.whole:
                del case['hooks']['pre_filter']
        case['steps'] = [{
            'whole': v, 'np_seed': r.randrange(1 << 30),
            'plan': ([{'kind': r.choice(['short_read', 'short_write', 'clock_back', 'clock_fwd']),
                       'at': r.randrange(0, 60), 'count': r.choice([1, 20, 100000]), 'frac': r.choice([0.1, 0.5])}]
                     if r.random() < 0.4 else [])}
            for v in r.sample([False, True], 2)]
        case['dup'] = r.random() < 0.1 and not case['online']
        if not case['online'] and r.random() < 0.12:
            case['names'] = same_names(r, len(case['scores']))
        return case

    def run(self, case, scratch, st):
        w, files = build_world(case, scratch)
        scores = list(case['scores'])
        if case.get('dup'):
            files = files + files[:1]
            scores = scores + scores[:1]
        ref = dsutil.Reference(scores, case['cfgs'][0], case['hooks'])
        bad = []
        for s in case['steps']:
            o = w.boot(client_open, w.path('ds'), case['cfgs'][0], files, s['whole'], case['hooks'], s['np_seed'],
                       plan=s['plan'])
            st.note(repr(o))
            what = 'whole-piece view' if s['whole'] else 'per-instrument view'
            if not o.ok:
                bad.append(f'{what}: {o!r}')
                break
            bad += [f'{what}: {p}' for p in dsutil.check_view(o.value, ref, s['whole'], not case['online'])[:3]]
            want = ref.view(s['whole'])
            st.state(tuple((len(g[0]), len(g[1])) for g in want), tuple(sorted(case['cfgs'][0].items())))
            w.disk.reboot({})
            if bad:
                break
        if len(ref.per) > 1 and any(len(g[0]) > 2 for g in ref.per):
            st.nontrivial += 1
        st.world(w)
        return bad

    def shrink(self, case):
        yield from shrink_common(case)
        if case.get('dup'):
            yield dict(case, dup=False)


def client_masks(d, base, cfg, files, seeds):
    out = []
    for k, s in enumerate(seeds):
        for whole in (False, True):
            reseed(s)
            ds = dsutil.open_dataset(d, f'{base}{k}', cfg, files, whole)
            out.append((s, whole, dsutil.snapshot(ds, cfg)['graphs']))
    return out


class Masks(Prop):
    """C05: the masks."""
    id = 'C05'

    def gen(self, r, i, tier):
        c = dsutil.gen_cfg(r)
        c['do_split_mask'] = True
        k = r.random()
        if k < 0.3:
            c['train_ratio'], c['val_ratio'] = r.choice([(0, 0), (1, 0), (0, 1), (0.5, 0.5), (1.0, 0.0), (0.0, 0.5), (0.34, 0.33)])
        elif k < 0.8:
            a = r.random()
            b = r.random() * (1 - a)
            c['train_ratio'], c['val_ratio'] = round(a, 3), round(b, 3)
            if c['train_ratio'] + c['val_ratio'] > 1:
                c['val_ratio'] = 0.0
        case = base_case(r, [c], hi=2, opts={'max_steps': r.choice([2, 6, 30, 30]), 'palette': r.choice([(1, 5), (8, 24), (8, 24)])})
        case['online'] = False
        case['hooks'] = {}
        seeds = [r.randrange(1 << 31) for _ in range(6)]
        case['seeds'] = seeds + [seeds[0]]
        return case

    def run(self, case, scratch, st):
        w, files = build_world(case, scratch)
        cfg = dsutil.full(case['cfgs'][0])
        ref = refs_of(case)[0]
        o = w.boot(client_masks, w.path('ds'), case['cfgs'][0], files, case['seeds'])
        st.note(repr(o))
        bad = []
        if not o.ok:
            bad.append(repr(o))
        else:
            per_seed = {}
            variety = {}
            for s, whole, graphs in o.value:
                if len(graphs) != len(ref.view(whole)):
                    bad.append(f'{len(graphs)} graphs, expected {len(ref.view(whole))}')
                for gi, g in enumerate(graphs):
                    bad += [f'graph {gi}: {t}' for t in dsutil.mask_problems(g, cfg)[:2]]
                    st.state(tuple(g['masks']['train_mask'] or ()), tuple(g['masks']['val_mask'] or ()))
                    n = len(g['y'])
                    for name, m in g['masks'].items():
                        if n >= 8 and 3 <= sum(m or ()) <= n - 3:
                            variety.setdefault((whole, gi, name), set()).add(tuple(m))
                key = (s, whole)
                m = [g['masks'] for g in graphs]
                if key in per_seed and per_seed[key] != m:
                    bad.append('the same random stream gives different masks')
                per_seed[key] = m
            for key, v in variety.items():
                st.hit('split_varies')
                if len(v) == 1 and len(set(case['seeds'])) >= 5:
                    bad.append(f'{key[2]} does not depend on the random stream')
            if variety:
                st.nontrivial += 1
        st.world(w)
        return bad[:4]

    def shrink(self, case):
        for c in shrink_common(case):
            yield c
        sd = case['seeds']
        if len(sd) > 1:
            yield dict(case, seeds=sd[:1])
            yield dict(case, seeds=sd[:len(sd) // 2])


def edited(r, score):
    """The score after an edit: other pitches (the file keeps its length) or a note less."""
    k = r.choice([-2, -1, 1, 2])
    tracks = []
    for t in score['tracks']:
        notes = [dict(x) if isinstance(x, dict) else list(x) for x in t['notes']]
        tracks.append(dict(t, notes=notes))
    out = dict(score, tracks=tracks)
    if r.random() < 0.3:
        t = max(tracks, key=lambda t: len(t['notes']))
        if len(t['notes']) > 3:
            t['notes'].pop()
            return out
    for t in tracks:
        for x in t['notes']:
            p = 'pitch' if isinstance(x, dict) else 2
            x[p] = x[p] + k if 1 <= x[p] + k <= 127 else x[p]
    return out


class RawFiles(Prop):
    """C16: raw files under faults."""
    id = 'C16'

    def gen(self, r, i, tier):
        cfgs = [dsutil.gen_cfg(r)]
        case = base_case(r, cfgs, hi=4)
        case['online'] = r.random() < 0.65
        n = len(case['scores'])
        kinds = list(NET) * (3 if case['online'] else 0) + list(ERRORS) + list(CRASHES) * 2
        kinds = r.sample(kinds, 4)
        # most of the operations on raw files come first
        est = 12 + 10 * n
        steps = []
        for _ in range(r.choice([1, 2, 2, 3])):
            plan = [gen_fault(r, kinds, est) for _ in range(r.choice([1, 1, 2]))]
            for f in plan:
                if f['kind'] in NET and r.random() < 0.7:
                    f['at'], f['skip'] = 0, r.randrange(0, 12)
            steps.append({'cfg': 0, 'whole': False, 'plan': plan, 'reboot': gen_reboot(r)})
        case['steps'] = steps
        if not case['online']:
            scores = list(case['scores'])
            for s in steps[1:]:
                if r.random() < 0.4:
                    # a piece was edited: the dataset is to be built again
                    j = r.randrange(n)
                    new = edited(r, scores[j])
                    scores[j] = new
                    if not valid(dict(case, scores=scores)):
                        break
                    s['edit'] = [j, new]
                    s['old'] = r.random() < 0.4
            for s in steps[1:]:
                if r.random() < 0.5:
                    # some pieces are named by their copy in the raw folder
                    s['own'] = [j for j in range(n) if r.random() < 0.6]
            if n > 1 and r.random() < 0.5:
                # the dataset of a part of the pieces is extended later
                take = r.randint(1, n - 1)
                if valid(dict(case, scores=case['scores'][:take])):
                    steps[0]['take'] = take
                    if r.random() < 0.5:
                        steps[0]['plan'] = []
        if r.random() < 0.3:
            odd = ['a-b', 'sub-1', 'x.y', 'p[1]'] if case['online'] else ['a b', 'sub-1', 'x.y', 'Ü', 'p[1]']
            case['names'] = [r.choice(odd) + f'{k}.mid' for k in range(n)]
        elif not case['online'] and n > 1 and r.random() < 0.2:
            case['names'] = same_names(r, n)
            for s in steps:
                s.pop('own', None)
        return case

    def run(self, case, scratch, st):
        w, files = build_world(case, scratch)
        ref = refs_of(case)[0]
        cfg = case['cfgs'][0]
        bad = []
        hit = False
        have = {}
        names = list(w.source)
        versions = {n: [w.source[n]] for n in names}
        all_files, all_ref, part = files, ref, None
        for k, s in enumerate(case['steps'] + [None]):
            before = dict(w.disk.fired)
            plan = s['plan'] if s else []
            take = (s or {}).get('take')
            if part and take != part:
                w.remove('ds/processed')
            part = take
            if s and s.get('edit'):
                j, score = s['edit']
                case = dict(case, scores=case['scores'][:j] + [score] + case['scores'][j + 1:])
                all_ref = refs_of(case)[0]
                w.remove('ds/processed')
                w.source[names[j]] = model.smf(score)
                w.put('in/' + names[j], w.source[names[j]])
                if s.get('old'):
                    # restored from an archive: its time of change is long ago
                    os.utime(w.path('in/' + names[j]), (1e9, 1e9))
                versions[names[j]].append(w.source[names[j]])
            nf = len(w.disk.fetches)
            files, ref = all_files, all_ref
            if files and s and s.get('own'):
                raw = w.disk.tree('ds/raw')
                files = [f'ds/raw/{names[j]}' if j in s['own'] and raw.get(names[j]) == w.source[names[j]] else f
                         for j, f in enumerate(files)]
                if files != all_files:
                    st.hit('named_by_the_raw_copy')
            if take:
                files = files[:take]
                ref = refs_of(dict(case, scores=case['scores'][:take]))[0]
            o = w.boot(client_open, w.path('ds'), cfg, files, False, case['hooks'], plan=plan)
            st.note((k, repr(o)))
            fired = [x for x in w.disk.fired if w.disk.fired[x] != before.get(x, 0)]
            hit = hit or bool(fired)
            what = f'process {k} with {",".join(sorted(fired)) or "no fault"}'
            hard = [x for x in fired if x.split(':')[0] not in BENIGN]
            if o.status == 'ok':
                bad += [f'{what}: {p}' for p in dsutil.check_view(o.value, ref, False, not case['online'])[:2]]
            elif o.status == 'raise' and hard or o.status == 'crash':
                pass
            else:
                bad.append(f'{what}: {o!r}')
            # a file that is already there is not fetched again
            again = [u for u in w.disk.fetches[nf:] if u.rsplit('/', 1)[-1] in have]
            if again:
                bad.append(f'{what}: {again[0]} was downloaded although it was there')
            w.disk.reboot(s['reboot'] if s else {})
            # a finished open has copied what is there now
            bad += [f'after {what}: {p}' for p in raw_problems(w, w.source, None if o.status == 'ok' else versions)]
            raw = w.disk.tree('ds/raw')
            have = {n for n in raw if raw[n] == w.source.get(n)} if case['online'] else {}
            st.state(k, tuple(sorted(fired)), tuple(sorted((norm(a), len(b)) for a, b in raw.items())))
            if take:
                st.hit('extended_later')
            if bad:
                break
        raw = w.disk.tree('ds/raw')
        if not bad and (set(w.source.values()) - set(raw.values()) if any('/' in n for n in names) else set(w.source) - set(raw)):
            bad.append('a complete dataset without all of its raw files')
        if hit:
            st.nontrivial += 1
        st.world(w)
        return bad

    def shrink(self, case):
        extra = ('edit', 'own', 'take')
        if any(e in s for s in case['steps'] for e in extra):
            yield from shrink_edits(case, extra)
            return
        yield from shrink_common(dict(case))
        if case.get('names'):
            yield dict(case, names=None)


def client_concurrent(d, root, openers, cfgs, files, hooks, schedule):
    s = schedmod.Scheduler(schedule, disk=d)

    def opener(k, o):
        def go():
            ds = dsutil.open_dataset(d, root, cfgs[o['cfg']], list(files) if files is not None else None,
                                     o['whole'], hooks=hooks)
            return dsutil.snapshot(ds, cfgs[o['cfg']])
        return go
    res = s.run([opener(k, o) for k, o in enumerate(openers)], procs=[f'p{k}' for k in range(len(openers))])
    out = []
    from ..world import describe, bitten
    for a, b in res:
        if a == 'raise':
            n, m, where, tb = describe(b)
            out.append((a, (n, m, where, bitten(b), tb)))
        else:
            out.append((a, b))
    s.cv = s.threads = s.disk = None
    return out, s.switches, s.points


class _Sched:
    def __init__(self, switches, points):
        self.switches, self.points = switches, points


class Concurrent(Prop):
    """C14: several processes open the same root."""
    id = 'C14'

    def gen(self, r, i, tier):
        cfgs = [dsutil.gen_cfg(r)]
        if r.random() < 0.35:
            cfgs.append(dsutil.sibling(r, cfgs[0]))
        case = base_case(r, cfgs, hi=2)
        n = r.choice([2, 2, 3])
        case['openers'] = [{'cfg': r.randrange(len(cfgs)), 'whole': r.random() < 0.4} for _ in range(n)]
        case['schedule'] = {'seed': r.randrange(1 << 30), 'p': r.choice([0.02, 0.05, 0.15, 0.4, 0.8])}
        plan = []
        x = r.random()
        if x < 0.4:
            f = gen_fault(r, ('crash',), est_ops(case))
            f['proc'] = f'p{r.randrange(n)}'
            plan.append(f)
        elif x < 0.55:
            plan.append(gen_fault(r, ('power',), est_ops(case) * n))
        elif x < 0.7:
            f = gen_fault(r, ('eio', 'enospc', 'emfile'), est_ops(case))
            f['proc'] = f'p{r.randrange(n)}'
            plan.append(f)
        case['plan'] = plan
        case['reboot'] = gen_reboot(r)
        return case

    def run(self, case, scratch, st):
        w, files = build_world(case, scratch)
        refs = refs_of(case)
        ordered = not case['online']
        o = w.boot(client_concurrent, w.path('ds'), case['openers'], case['cfgs'], files, case['hooks'],
                   case['schedule'], plan=case['plan'])
        bad = []
        if not o.ok:
            st.note(repr(o))
            bad.append(repr(o))
            st.world(w)
            return bad
        res, switches, points = o.value
        case['_switches'] = switches
        st.schedule(_Sched(switches, points))
        fired = list(w.disk.fired)
        for k, (status, val) in enumerate(res):
            op = case['openers'][k]
            what = f'opener {k} of {len(res)}'
            st.note((k, status))
            if status == 'ok':
                bad += [f'{what}: {p}' for p in dsutil.check_view(val, refs[op['cfg']], op['whole'], ordered)[:2]]
                st.hit('opener_ok')
            elif status == 'crash':
                if not any(f.split(':')[0] in CRASHES for f in fired):
                    bad.append(f'{what} died')
            elif status == 'raise' and val[3]:
                pass                       # it was this one that the fault hit
            else:
                bad.append(f'{what}: {status} {val[0][0]}: {val[1][:150]} at {val[2]}' if status == 'raise'
                           else f'{what}: {status} {val}')
        st.state(tuple(s for s, _ in res), tuple(sorted(fired)), tree_state(w))
        w.disk.reboot(case['reboot'])
        if not bad:
            for c in range(len(case['cfgs'])):
                for v in (False, True):
                    if bad:
                        break
                    val, pr = verify_open(w, st, case, files, refs[c], case['cfgs'][c], v,
                                          'open after all of them', ordered)
                    bad += pr
        bad += raw_problems(w, w.source)
        st.nontrivial += 1
        st.world(w)
        return bad

    def shrink(self, case):
        sw = case.pop('_switches', None)
        if 'explicit' not in case['schedule']:
            if sw is not None:
                yield dict(case, schedule={'explicit': sw})
        else:
            ex = case['schedule']['explicit']
            n = len(ex)
            size = n // 2
            while size >= 1:
                for a in range(0, n, size):
                    yield dict(case, schedule={'explicit': ex[:a] + ex[a + size:]})
                size //= 2
        if len(case['openers']) > 2:
            for k in range(len(case['openers'])):
                yield dict(case, openers=case['openers'][:k] + case['openers'][k + 1:])
        if case['plan']:
            yield dict(case, plan=[])
        for c in shrink_common(case):
            if all(op['cfg'] < len(c['cfgs']) for op in c['openers']):
                yield c


ALL = [Crash, Faults, Reopen, Content, Masks, RawFiles, Concurrent]
