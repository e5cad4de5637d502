"""Clients of the dataset, and the comparison of what they see with the model."""
import os
from . import model

DEFAULTS = {
    'include_velocity': False, 'feature_vec_size': 12, 'filter_single_notes': False,
    'tolerance': 0.2, 'remove_label': True, 'do_sanity_check': False,
    'do_split_mask': True, 'train_ratio': 0.7, 'val_ratio': 0.15,
}


# picklable hooks a user could pass (their repr goes into the processed folder)
def pre_transform_tag(data):
    data.tag = int(data.x.size(0)) * 7 + 1
    return data


def pre_filter_even(data):
    return data.x.size(0) % 2 == 0


class Hook:
    """A hook without effect that is known by its parameter."""

    def __init__(self, name, value):
        self.name, self.value = name, value

    def __call__(self, data):
        return data if self.name == 'Same' else True

    def __repr__(self):
        return f'{self.name}({self.value})'


def transform_mark(data):
    data.marked = True
    return data


HOOKS = {'same1': Hook('Same', 1), 'same2': Hook('Same', 2), 'all1': Hook('All', 1), 'all2': Hook('All', 2),
         'tag': pre_transform_tag, 'even': pre_filter_even, 'mark': transform_mark}


def full(cfg):
    c = dict(DEFAULTS)
    c.update(cfg)
    return c


def gen_cfg(r, small=False):
    c = {}
    if r.random() < 0.4:
        c['include_velocity'] = True
    if r.random() < 0.4:
        c['feature_vec_size'] = r.choice([1, 2, 3, 4, 5, 8, 16, 32, 64, 128])
    if r.random() < 0.25:
        c['filter_single_notes'] = True
    if r.random() < 0.25:
        c['tolerance'] = r.choice([0.1, 0.5, 0.3, 0.15, 0.25])
    if r.random() < 0.3:
        c['remove_label'] = False
    if r.random() < 0.3:
        c['do_sanity_check'] = True
    if r.random() < 0.25:
        c['do_split_mask'] = False
    if r.random() < 0.4:
        a = r.randint(0, 20)
        b = r.randint(0, 20 - a)
        c['train_ratio'], c['val_ratio'] = a / 20, b / 20
    return c


def sibling(r, cfg):
    """Another configuration whose data belongs beside cfg's in the same root."""
    c = dict(cfg)
    k = r.choice(['include_velocity', 'feature_vec_size', 'tolerance'])
    if k == 'include_velocity':
        c[k] = not cfg.get(k, False)
    elif k == 'feature_vec_size':
        c[k] = r.choice([n for n in (3, 4, 5, 8, 12, 16, 32) if n != cfg.get(k, 12)])
    else:
        c[k] = r.choice([t for t in (0.1, 0.2, 0.25, 0.3, 0.5, 0.15) if t != cfg.get(k, 0.2)])
    if r.random() < 0.5:
        # settings that are not in its name may differ as well
        a = r.randint(0, 20)
        c['train_ratio'], c['val_ratio'] = a / 20, r.randint(0, 20 - a) / 20
        c['do_split_mask'] = r.random() < 0.8
        c['filter_single_notes'] = r.random() < 0.2
    return c


def open_dataset(disk, root, cfg, files=None, whole=False, loc='in', hooks=None, url='http://sim/midi'):
    from neural_graph_composer.midi_dataset import MidiDataset
    kw = full(cfg)
    kw.update({k: HOOKS[v] for k, v in (hooks or {}).items()})
    return MidiDataset(root=root, midi_files=files, per_instrument_graph=not whole,
                       default_midi_loc=loc, default_webserver=url, **kw)


def snapshot(ds, cfg):
    """What a user sees, as plain data. {'graphs': [...], 'problems': [...]}"""
    import torch
    cfg = full(cfg)
    problems = []
    h2n, n2h = ds.hash_to_notes, ds.notes_to_hash
    h2i, i2h = ds.hash_to_index, ds.index_to_hash
    if {v: k for k, v in h2n.items()} != n2h or {v: k for k, v in n2h.items()} != h2n:
        problems.append('the notes table and the hash table are not inverse to each other')
    if {v: k for k, v in h2i.items()} != i2h or {v: k for k, v in i2h.items()} != h2i:
        problems.append('the index table and the hash table are not inverse to each other')
    if set(h2i) != set(h2n):
        problems.append('the index table and the notes table do not have the same hashes')
    if i2h and (max(i2h) - min(i2h) + 1 != len(i2h)):
        problems.append('the class indices have gaps')
    if ds.total_num_classes != len(h2n):
        problems.append(f'total_num_classes {ds.total_num_classes} for {len(h2n)} note sets')
    graphs = []
    for i in range(len(ds)):
        d = ds[i]
        g, p = canon(d, cfg, h2n, i2h)
        graphs.append(g)
        problems += [f'graph {i}: {t}' for t in p]
    y = [v for g in graphs for v in g.get('y', ())]
    if y and not max(y) < ds.num_classes:
        problems.append(f'num_classes is {ds.num_classes}, there is a class {max(y)}')
    want = {'num_nodes': len(y), 'num_edges': sum(len(g['edges']) for g in graphs),
            'num_labels': sum(len(set(g.get('y', ()))) for g in graphs)}
    got = ds.compute_statistics()
    if not any(g.get('bad') for g in graphs) and got != want:
        problems.append(f'statistics {got}, the graphs have {want}')
    return {'graphs': graphs, 'problems': problems, 'len': len(ds),
            'sets': sorted(sorted(s) for s in n2h),
            'index': {i: tuple(sorted(h2n[h])) for i, h in i2h.items() if h in h2n}}


def canon(d, cfg, h2n, i2h):
    import torch
    p = []
    x = d.x
    n = x.size(0)
    size = cfg['feature_vec_size']
    vel = cfg['include_velocity']
    if tuple(x.shape) != ((n, 2, size) if vel else (n, size)):
        p.append(f'feature matrix of shape {tuple(x.shape)}')
        return {'nodes': [], 'edges': [], 'bad': True}, p
    if d.num_nodes != n:
        p.append(f'{d.num_nodes} nodes for {n} feature rows')
    y = d.y.tolist()
    if len(y) != n:
        p.append(f'{len(y)} classes for {n} nodes')
    nodes, keys = [], []
    for i in range(n):
        row = x[i, 0] if vel else x[i]
        ps = [v for v in row.tolist() if v != 0]
        key = frozenset(int(v) for v in ps)
        k = len(ps)
        if any(v != int(v) for v in ps) or len(key) != k:
            p.append(f'node {i}: pitches {ps}')
        if row.tolist()[:k] != ps:
            p.append(f'node {i}: pitches are not at the front of the row')
        vv = None
        if vel:
            vr = x[i, 1].tolist()
            if any(vr[k:]):
                p.append(f'node {i}: a velocity without a pitch')
            vv = {int(a): v for a, v in zip(ps, vr)}
        keys.append(key)
        nodes.append((tuple(sorted(key)), tuple(sorted(vv.items())) if vv is not None else None))
        if i < len(y):
            if y[i] not in i2h or i2h[y[i]] not in h2n:
                p.append(f'node {i}: class {y[i]} is not in the tables')
            elif h2n[i2h[y[i]]] != key:
                p.append(f'node {i}: class {y[i]} stands for {sorted(h2n[i2h[y[i]]])}, '
                         f'its features for {sorted(key)}')
    if len(set(keys)) != n:
        p.append('two nodes with the same pitches')
    nh = getattr(d, 'node_hash', None)
    if nh is None or list(nh) != [i2h.get(v) for v in y]:
        p.append('node hashes do not match the classes')
    ei = d.edge_index
    ea = d.edge_attr
    edges = []
    if ei.dim() != 2 or ei.size(0) != 2 or ea.dim() != 2 or tuple(ea.shape) != (ei.size(1), 1):
        p.append(f'edges {tuple(ei.shape)} with attributes {tuple(ea.shape)}')
    else:
        for a, b, w in zip(ei[0].tolist(), ei[1].tolist(), ea[:, 0].tolist()):
            if not (0 <= a < n and 0 <= b < n):
                p.append(f'edge {a}->{b} of a graph of {n} nodes')
                continue
            edges.append((tuple(sorted(keys[a])), tuple(sorted(keys[b])), w))
    lab = getattr(d, 'label', None)
    masks = {}
    for m in ('train_mask', 'val_mask', 'test_mask'):
        t = getattr(d, m, None)
        masks[m] = None if t is None else (t.dtype == torch.bool and t.dim() == 1 and t.tolist())
    return {'nodes': sorted(nodes, key=repr), 'edges': sorted(edges), 'label': list(lab) if lab is not None else None,
            'y': y, 'masks': masks, 'tag': getattr(d, 'tag', None), 'marked': getattr(d, 'marked', None),
            'order': [k for k in (tuple(sorted(k)) for k in keys)]}, p


def key_of(g):
    """The part of a snapshot graph that the model determines."""
    return (tuple(g['nodes']), tuple(g['edges']))


model_key = model.key_of_graph


class Reference:
    """What each view of a corpus should hold."""

    def __init__(self, scores, cfg, hooks=None):
        c = full(cfg)
        self.cfg, self.hooks = c, hooks or {}
        per, whole = model.dataset(scores, c)
        table = {}
        for s in scores:
            model.file_graphs(s, c, table)
        self.sets = sorted(sorted(s) for s in table)
        keep = (lambda g: len(g.nodes) % 2 == 0) if self.hooks.get('pre_filter') == 'even' else (lambda g: True)
        self.per = [model_key(g) for g in per if keep(g)]
        self.whole = [model_key(g) for g in whole if keep(g)]

    def view(self, whole):
        return self.whole if whole else self.per


def brief(key):
    return f'{len(key[0])} nodes, {len(key[1])} edges, total weight {sum(e[2] for e in key[1]):g}'


def check_view(snap, ref, whole, ordered=True, masks=True):
    """Problems of one view against the model."""
    out = list(snap['problems'])
    want = ref.view(whole)
    got = [key_of(g) for g in snap['graphs']]
    cfg = ref.cfg
    if len(got) != len(want):
        out.append(f'{len(got)} graphs, expected {len(want)}')
    elif ordered:
        for i, (a, b) in enumerate(zip(got, want)):
            if a != b:
                out.append(f'graph {i} differs: {diff(a, b)}')
    elif sorted(got, key=repr) != sorted(want, key=repr):
        miss = [w for w in want if w not in got]
        out.append(f'{len(miss)} expected graphs are missing, e.g. {brief(miss[0]) if miss else "a duplicate"}')
    if snap['sets'] != ref.sets:
        out.append(f'{len(snap["sets"])} note sets in the tables, expected {len(ref.sets)}')
    for i, g in enumerate(snap['graphs']):
        if g.get('bad'):
            continue
        if cfg['remove_label'] and not whole:
            if g['label'] is not None:
                out.append(f'graph {i}: labels were to be removed')
        elif g['label'] is None or [int(v) for v in g['label']] != g['y']:
            out.append(f'graph {i}: labels differ from the classes')
        if ref.hooks.get('pre_transform') == 'tag':
            t = g['tag']
            t = t.item() if hasattr(t, 'item') else t
            if t != len(g['nodes']) * 7 + 1:
                out.append(f'graph {i}: the pre_transform was not applied')
        if ref.hooks.get('transform') == 'mark' and not g['marked']:
            out.append(f'graph {i}: the transform was not applied')
        if masks:
            out += [f'graph {i}: {t}' for t in mask_problems(g, cfg)]
    return out


def mask_problems(g, cfg):
    m = g['masks']
    n = len(g['y'])
    if not cfg['do_split_mask']:
        return ['masks although none were asked for'] if any(v is not None for v in m.values()) else []
    if any(not isinstance(v, list) for v in m.values()):
        return ['a mask is missing or not a boolean vector']
    if any(len(v) != n for v in m.values()):
        return ['a mask has not one entry per node']
    out = []
    for i in range(n):
        if sum(bool(m[k][i]) for k in m) != 1:
            out.append(f'node {i} is in {sum(bool(m[k][i]) for k in m)} of the masks')
            break
    tr, va = int(cfg['train_ratio'] * n), int(cfg['val_ratio'] * n)
    want = {'train_mask': tr, 'val_mask': va, 'test_mask': n - tr - va}
    for k in m:
        if sum(m[k]) != want[k]:
            out.append(f'{k} has {sum(m[k])} nodes of {n}, expected {want[k]}')
    return out


def diff(a, b):
    an, bn = set(a[0]), set(b[0])
    if an != bn:
        return f'nodes {sorted(an - bn)[:2]} instead of {sorted(bn - an)[:2]}'
    ae, be = set(a[1]), set(b[1])
    return f'edges {sorted(ae - be)[:2]} instead of {sorted(be - ae)[:2]}'


def files_of(scores, prefix='in'):
    return [f'{prefix}/f{i}.mid' for i in range(len(scores))]
