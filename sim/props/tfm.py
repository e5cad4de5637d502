"""Random graph transforms and dataset splits over the streams of randomness."""
import math
from fractions import Fraction

from .. import dsutil, model
from ..world import World
from . import dataset as D

SPREAD = 160


class Streams:
    """The random source of the process.  Mode 'plain' is the seeded stream, the
    other modes deliver legal values that a stream yields only rarely."""

    def __init__(self):
        import torch
        self.torch = torch
        self.rand, self.randperm = torch.rand, torch.randperm
        self.mode = 'plain'

        def rand(*a, **kw):
            t = self.rand(*a, **kw)
            if self.mode == 'plain' or t.numel() == 0:
                return t
            z = {'low': 0.0, 'high': 1 - 2 ** -24}.get(self.mode)
            if z is not None:
                return torch.where(self.rand(t.shape) < 0.5, torch.full_like(t, z), t)
            return t

        def randperm(n, *a, **kw):
            t = self.randperm(n, *a, **kw)
            if self.mode == 'low':
                return torch.sort(t)[0]
            if self.mode == 'high':
                return torch.sort(t, descending=True)[0]
            return t
        torch.rand, torch.randperm = rand, randperm

    def set(self, s):
        import random
        import numpy
        random.seed(s['seed'])
        numpy.random.seed(s['seed'] & 0x7fffffff)
        self.torch.manual_seed(s['seed'])
        self.mode = s.get('mode', 'plain')


def make(g):
    import torch
    from torch_geometric.data import Data
    n = g['n']
    x = torch.zeros((n, 2, g['d']) if g['deep'] else (n, g['d']))
    for i in range(n):
        x[i].view(-1)[-1] = (7 * i) % 13
        x[i].view(-1)[0] = 100 + i
    kw = {'x': x, 'y': torch.tensor([3 * i + 1 for i in range(n)], dtype=torch.long),
          'edge_index': torch.tensor(g['edges'], dtype=torch.long).reshape(-1, 2).t().contiguous()}
    if g['attr']:
        kw['edge_attr'] = torch.tensor([[0.5 + k] for k in range(len(g['edges']))]).reshape(-1, 1)
    if g['masks']:
        for k, name in enumerate(('train_mask', 'val_mask', 'test_mask')):
            kw[name] = torch.tensor([m == k for m in g['masks']], dtype=torch.bool)
    if g['lists']:
        kw['label'] = [3 * i + 1 for i in range(n)]
        kw['node_hash'] = [10 ** 15 + i for i in range(n)]
    if g.get('elabel'):
        kw['edge_label'] = torch.tensor([k % 2 for k in range(g['elabel'])])
    return Data(**kw)


def snap(d, position=False):
    """Plain data of a graph: one record per node (all that belongs to it), the edges."""
    import torch
    n = d.x.size(0)
    bad = []
    if d.num_nodes != n:
        bad.append(f'{d.num_nodes} nodes for {n} feature rows')
    rows = d.x.reshape(n, d.x.numel() // n if n else 0).tolist()
    cols = {'x': rows}
    for k in ('y', 'train_mask', 'val_mask', 'test_mask', 'label', 'node_hash'):
        v = d[k] if k in d else None
        if v is None:
            continue
        cols[k] = v.tolist() if isinstance(v, torch.Tensor) else list(v)
        if len(cols[k]) != n:
            bad.append(f'{k} has {len(cols[k])} entries for {n} nodes')
    ei = d.edge_index.tolist()
    ea = d.edge_attr
    if len(ei) != 2 or d.edge_index.dtype != torch.long:
        bad.append(f'edge index of shape {tuple(d.edge_index.shape)}, {d.edge_index.dtype}')
        ei = [[], []]
    w = [None] * len(ei[0]) if ea is None else ea.tolist()
    if len(w) != len(ei[0]):
        bad.append(f'{len(w)} edge attributes for {len(ei[0])} edges')
    if any(not 0 <= v < n for v in ei[0] + ei[1]):
        bad.append(f'an edge of a graph of {n} nodes leads to node {max(ei[0] + ei[1])}')
    nodes = edges = None
    if not bad:
        names = list(range(n)) if position else [r[0] for r in rows]
        if position == 'class':
            names = list(cols['y'])
        nodes = {names[i]: {k: c[i] for k, c in cols.items()} for i in range(n)}
        if len(nodes) != n:
            bad.append('a node occurs twice')
        edges = [[names[a], names[b], ww] for a, b, ww in zip(ei[0], ei[1], w)]
    return {'bad': bad, 'nodes': sorted(nodes.items()) if nodes is not None else [], 'edges': edges or [],
            'elabel': d.edge_label.tolist() if 'edge_label' in d else None,
            'gid': int(d.graph_id) if 'graph_id' in d else None}


def transform(op):
    from neural_graph_composer.transforms import RandomNodeDrop, RandomEdgeDrop, AddDegreeTransform
    return {'nodes': lambda: RandomNodeDrop(op['p']), 'edges': lambda: RandomEdgeDrop(op['p']),
            'degree': AddDegreeTransform}[op['t']]()


def client_graphs(d, g, ops, streams):
    """For every stream: snapshots after every step of the pipeline."""
    from ngc_shared import Experiments
    S = Streams()
    out = []
    for s in streams:
        S.set(s)
        data = make(g)
        rec = [snap(data)]
        changed = None
        for k, op in enumerate(ops):
            if op['t'] == 'remove':
                data = Experiments.remove_nodes_and_edges(data, op['p'])
            else:
                before = snap(data)
                new = transform(op)(data)
                if snap(data) != before:
                    changed = k
                data = new
            rec.append(snap(data))
        out.append([rec, changed])
    return out


def client_split(d, root, cfg, files, whole, ratio, streams, gids, access=()):
    """Splits of a real dataset: positions of the items of each part."""
    from ngc_shared import Experiments
    from neural_graph_composer.transforms import GraphIDTransform
    ds = dsutil.open_dataset(d, root, cfg, files, whole)
    S = Streams()
    snaps = dsutil.snapshot(ds, cfg)
    prints = [repr((k['nodes'], k['edges'], k['y'], k['masks'])) for k in snaps['graphs']]
    out = []
    for s in streams:
        S.set(s)
        e = Experiments(ds, batch_size=1)
        e.train_ration = ratio
        e.split(ds)
        parts = []
        for part in (e.train_dataset, e.test_dataset):
            ids = []
            for i in range(len(part)):
                c, p = dsutil.canon(part[i], dsutil.full(cfg), ds.hash_to_notes, ds.index_to_hash)
                ids.append(repr((c['nodes'], c['edges'], c['y'], c['masks'])))
            parts.append(ids)
        out.append(parts)
    seen = []
    plain = [snap(ds[i], True) for i in range(len(ds))]
    ds.transform = GraphIDTransform(ds)
    for i in gids:
        i %= len(ds)
        seen.append([i, snap(ds[i], True), plain[i]])
    ds.transform = None
    want = [snap(ds[i], 'class') for i in range(len(ds))]
    got = []
    for i, op, s, batch in access:
        i %= len(ds)
        S.set(s)
        ds.transform = transform(op)
        if batch:
            from torch_geometric.loader import DataLoader
            for b in DataLoader(ds, batch_size=batch):
                for g in b.to_data_list():
                    got.append([len(got), op, snap(g, 'class'), None])
            got[-len(ds):] = [[k, op, g[2], want[k]] for k, g in enumerate(got[-len(ds):])]
        else:
            got.append([i, op, snap(ds[i], 'class'), want[i]])
        ds.transform = None
        if [snap(ds[k], 'class') for k in range(len(ds))] != want:
            got.append([i, op, None, want[i]])
            break
    return prints, out, seen, got


def sizes(p, n):
    return {int(p * n), math.floor(Fraction(str(p)) * n)}


def judge(op, a, b):
    """Problems of one step from snapshot a to snapshot b."""
    if b['bad']:
        return b['bad']
    na, nb = dict(map(tuple, a['nodes'])), dict(map(tuple, b['nodes']))
    ea, eb = [tuple(map(repr, e)) for e in a['edges']], [tuple(map(repr, e)) for e in b['edges']]
    out = []
    if op['t'] in ('nodes', 'remove'):
        k = len(na) - len(nb)
        if k not in sizes(op['p'], len(na)):
            out.append(f'{k} of {len(na)} nodes dropped with a share of {op["p"]}')
        for t, rec in nb.items():
            if t not in na:
                out.append(f'node {t} appeared')
            elif rec != na[t]:
                out.append(f'node {t} was {na[t]} and is now {rec}')
        keep = {repr(t) for t in nb}
        want = [e for e in ea if e[0] in keep and e[1] in keep]
        if sorted(want) != sorted(eb):
            out.append(f'edges between the nodes that remain: {len(want)} before, now {len(eb)}'
                       if len(want) != len(eb) else 'an edge changed its ends or its weight')
    elif op['t'] == 'edges':
        if na != nb:
            out.append('dropping edges changed the nodes')
        left = sorted(ea)
        for e in eb:
            if e in left:
                left.remove(e)
            else:
                out.append(f'edge {e} appeared')
                break
        if op['p'] == 0 and left:
            out.append('edges were dropped although none was to be')
        if op['p'] == 1 and eb:
            out.append('edges remain although all were to be dropped')
    elif op['t'] == 'degree':
        deg = {t: 0 for t in na}
        for e in a['edges']:
            deg[e[0]] += 1
        want = {t: dict(rec, x=rec['x'] + [float(deg[t])]) for t, rec in na.items()}
        if nb != want:
            t = [t for t in want if nb.get(t) != want[t]]
            out.append(f'node {t and t[0]}: {nb.get(t[0]) if t else nb} instead of {want[t[0]] if t else want}')
        if ea != eb:
            out.append('adding degrees changed the edges')
    if a['elabel'] != b['elabel'] and op['t'] != 'remove':
        out.append('the edge labels changed')
    return out


class Transforms(D.Prop):
    id = 'C15'

    def gen(self, r, i, tier):
        streams = [{'seed': r.randrange(1 << 30), 'mode': r.choice(['plain', 'plain', 'low', 'high'])}
                   for _ in range(r.choice([3, 6, 10]))]
        if r.random() < 0.2:
            cfg = {k: v for k, v in dsutil.gen_cfg(r).items()}
            case = D.base_case(r, [cfg], opts={'max_tracks': 6, 'max_steps': 5})
            case.update(online=False, hooks={}, chunk=1 << 20, kind='split', whole=r.random() < 0.3,
                        ratio=r.choice([0.8, 0.8, 0.5, 0.29, 0.0, 1.0, 0.34]), streams=streams,
                        gids=[r.randrange(12) for _ in range(r.randint(1, 8))],
                        access=[[r.randrange(12), {'t': r.choice(['nodes', 'edges', 'degree']),
                                                   'p': r.choice([0.0, 0.2, 0.5, 0.9])},
                                 {'seed': r.randrange(1 << 30), 'mode': r.choice(['plain', 'low', 'high'])},
                                 r.choice([0, 0, 1, 3])] for _ in range(r.randint(0, 6))])
            return case
        n = r.choice([1, 2, 3, 5, 8, 13, 30])
        e = r.choice([0, 1, n, 3 * n])
        g = {'n': n, 'd': r.choice([1, 2, 5]), 'deep': r.random() < 0.3, 'attr': r.random() < 0.8,
             'edges': [[r.randrange(n), r.randrange(n)] for _ in range(e)],
             'masks': [r.randrange(4) for _ in range(n)] if r.random() < 0.7 else None,
             'lists': r.random() < 0.6}
        if r.random() < 0.3:
            g['elabel'] = r.randint(1, 2 * n + 2)
        if r.random() < 0.15:
            # the spread over many streams
            n = r.choice([3, 4, 5, 6])
            p = r.choice([0.34, 0.5, 0.67])
            g.update(n=n, edges=[[a, b] for a in range(n) for b in range(n)], masks=None, deep=False, elabel=None)
            return {'kind': 'spread', 'graph': g, 'ops': [{'t': r.choice(['nodes', 'edges', 'remove']), 'p': p}],
                    'streams': [{'seed': r.randrange(1 << 30)} for _ in range(SPREAD)], 'seed': r.randrange(1 << 30)}
        ops = []
        for k in range(r.choice([1, 1, 2, 4])):
            t = r.choice(['nodes', 'nodes', 'edges', 'edges', 'degree', 'remove'])
            p = r.choice([0.0, 0.1, 0.2, 0.29, 0.5, 0.7, 0.9, round(r.random(), 3)])
            ops.append({'t': t, 'p': p})
        if r.random() < 0.2:
            ops.append({'t': r.choice(['nodes', 'edges', 'remove']), 'p': 1.0})
        streams.append(dict(streams[0]))
        return {'kind': 'graph', 'graph': g, 'ops': ops, 'streams': streams, 'seed': r.randrange(1 << 30)}

    def run(self, case, scratch, st):
        bad = []
        if case['kind'] == 'split':
            w, files = D.build_world(case, scratch)
            o = w.boot(client_split, 'ds', case['cfgs'][0], files, case['whole'], case['ratio'], case['streams'], case['gids'],
                       case.get('access', ()))
            st.world(w)
            st.note(repr(o))
            if not o.ok:
                return [repr(o)]
            prints, parts, gids, access = o.value
            st.note(o.value)
            for s, (tr, te) in zip(case['streams'], parts):
                if len(tr) not in sizes(case['ratio'], len(prints)):
                    bad.append(f'{len(tr)} of {len(prints)} graphs in the training part with a share of {case["ratio"]}')
                if sorted(tr + te) != sorted(prints):
                    bad.append(f'stream {s}: the two parts are not a partition of the dataset')
                st.state('split', tuple(prints.index(x) for x in tr if x in prints))
            for i, got, want in gids:
                if got['bad'] or got['gid'] != i:
                    bad.append(f'graph {i} has the graph id {got["gid"]} {got["bad"]}')
                elif dict(got, gid=None) != dict(want, gid=None):
                    bad.append(f'adding the graph id changed graph {i}')
            for i, op, got, want in access:
                what = f'graph {i} of a dataset with the transform {op["t"]} {op["p"]}'
                bad += [f'{what}: it changed the stored graph'] if got is None else \
                    [f'{what}: {p}' for p in judge(op, want, got)]
                st.hit('transform_on_access')
            if len(prints) > 2:
                st.nontrivial = 1
            return bad[:4]
        w = World(scratch, seed=case['seed'])
        o = w.boot(client_graphs, case['graph'], case['ops'], case['streams'])
        st.world(w)
        st.note(repr(o))
        if not o.ok:
            return [repr(o)]
        st.note(o.value)
        for s, (rec, changed) in zip(case['streams'], o.value):
            for k, op in enumerate(case['ops']):
                bad += [f'stream {s}, step {k} ({op["t"]}): {p}' for p in judge(op, rec[k], rec[k + 1])]
                if bad:
                    break
            if changed is not None:
                bad.append(f'step {changed} ({case["ops"][changed]["t"]}) changed the graph it was given')
            if bad:
                return bad[:4]
            st.state(tuple(op['t'] for op in case['ops']), tuple(n[0] for n in rec[-1]['nodes']),
                     tuple(map(str, rec[-1]['edges'])))
        if case['kind'] == 'graph':
            a, b = o.value[0], o.value[-1]
            if case['streams'][0] == case['streams'][-1] and a != b:
                bad.append('the same random stream gave two results')
            if any(op['p'] > 0 for op in case['ops']) and case['graph']['n'] > 1:
                st.nontrivial = 1
            return bad
        bad += self.spread(case, [rec for rec, _ in o.value])
        st.nontrivial = 1
        return bad

    def spread(self, case, recs):
        """Every node or edge is dropped by some stream and kept by another."""
        op = case['ops'][0]
        n = case['graph']['n']
        if op['t'] == 'edges':
            m = len(recs[0][0]['edges'])
            total = m * len(recs)
            got = sum(m - len(r[1]['edges']) for r in recs)
            sd = math.sqrt(total * op['p'] * (1 - op['p']))
            if abs(got - total * op['p']) > 7 * sd + 1:
                return [f'{got} of {total} edges dropped with probability {op["p"]}']
            every = {tuple(e[:2]) for r in recs for e in r[0]['edges']}
            kept = [{tuple(e[:2]) for e in r[1]['edges']} for r in recs]
        else:
            if not 0 < min(sizes(op['p'], n)) < n:
                return []
            every = {x[0] for x in recs[0][0]['nodes']}
            kept = [{x[0] for x in r[1]['nodes']} for r in recs]
        out = []
        for e in sorted(every):
            c = sum(e in k for k in kept)
            if c == 0 or c == len(kept):
                out.append(f'{op["t"]} {op["p"]}: {e} was {"kept" if c else "dropped"} under all of {len(kept)} random streams')
        return out

    def shrink(self, case):
        s = case['streams']
        if case['kind'] != 'spread':
            for i in range(len(s)):
                if len(s) > 1:
                    yield dict(case, streams=s[:i] + s[i + 1:])
        if case['kind'] == 'split':
            for i in range(len(case['gids'])):
                yield dict(case, gids=case['gids'][:i] + case['gids'][i + 1:])
            for i in range(len(case.get('access', ()))):
                yield dict(case, access=case['access'][:i] + case['access'][i + 1:])
            yield from (c for c in D.simplify_scores(case) if D.valid(c))
            return
        for i in range(len(case['ops'])):
            if len(case['ops']) > 1:
                yield dict(case, ops=case['ops'][:i] + case['ops'][i + 1:])
        g = case['graph']
        for i in range(len(g['edges'])):
            yield dict(case, graph=dict(g, edges=g['edges'][:i] + g['edges'][i + 1:]))
        if g['n'] > 1 and case['kind'] == 'graph':
            n = g['n'] - 1
            yield dict(case, graph=dict(g, n=n, edges=[e for e in g['edges'] if max(e) < n],
                                        masks=g['masks'] and g['masks'][:n]))
        for k, v in (('masks', None), ('lists', False), ('elabel', None), ('deep', False), ('d', 1), ('attr', False)):
            if g.get(k) != v and g.get(k) is not None:
                yield dict(case, graph=dict(g, **{k: v}))


ALL = [Transforms]
