"""The graph builder over histories of builds, failures and iterations."""
from .. import dsutil, model
from ..world import World
from . import dataset as D

OPTS = ('include_velocity', 'feature_vec_size', 'filter_single_notes')


class _Two:
    """A collection whose second member is not a note sequence."""

    def __init__(self, seqs, bad_at):
        self.seqs = seqs
        self.keys = list(seqs)
        self.bad_at = min(bad_at, len(self.keys))

    def __iter__(self):
        ks = list(self.keys)
        ks.insert(self.bad_at, '?')
        return iter(ks)

    def __getitem__(self, k):
        if k != '?':
            return self.seqs[k]
        return _Not()


class _Not:
    class instrument:
        is_drum = False
    notes = [1, 2, 3]


BAD = {
    'size': {'feature_vec_size': 0}, 'size_type': {'feature_vec_size': 3.5}, 'tolerance': {'tolerance': 2.0},
    'tolerance_type': {'tolerance': 1}, 'flag': {'filter_single_notes': None}, 'trim': {'default_trim_time': 0.5},
    'buckets': {'velocity_num_buckets': 0}, 'type': {'node_attr_type': 'Tensor'},
}


def client(d, blobs, ops, nb):
    """Executes the history; returns what a user observes after every step."""
    from neural_graph_composer.midi_graph_builder import MidiGraphBuilder
    from neural_graph_composer.midi_reader import MidiReader
    parsed = {}
    builders = {}
    its = {}
    last_cfg = {}
    out = []

    def seqs(k):
        if k not in parsed:
            parsed[k] = MidiReader.read(blobs[k])
        return parsed[k]

    def tables(b):
        return [sorted((sorted(k), v) for k, v in b.notes_to_hash.items()),
                sorted((k, sorted(v)) for k, v in b.hash_to_notes.items()),
                sorted(b.hash_to_index.items()), sorted(b.index_to_hash.items())]

    for k in range(len(blobs)):
        seqs(k)
    for op in ops:
        b = op['b']
        if b not in builders:
            builders[b] = MidiGraphBuilder()
        B = builders[b]
        rec = {'exc': None, 'graphs': []}
        d.faults = []
        if op.get('plan'):
            d.plan(op['plan'])
        fired = sum(d.fired.values())
        try:
            if op['op'] == 'build':
                c = op['cfg']
                kw = {'feature_vec_size': c['feature_vec_size'], 'is_include_velocity': c['include_velocity'],
                      'filter_single_notes': c['filter_single_notes'], 'is_per_instrument': not op['whole']}
                s = seqs(op['score'])
                if op.get('bad') == 'member':
                    s = _Two(s, op.get('bad_at', 1))
                elif op.get('bad'):
                    kw.update(BAD[op['bad']])
                B.build(s, **kw)
            elif op['op'] == 'next':
                key = (b, op['it'])
                if key not in its:
                    its[key] = iter(B) if op.get('plain') else B.graphs(skip_label=op['skip'], is_sanity_check=op['sanity'])
                try:
                    for _ in range(op.get('n', 1)):
                        g = next(its[key])
                        # the settings are those of the build the graph came from: try them all
                        rec['graphs'].append(see(g, B))
                except StopIteration:
                    rec['stop'] = True
                    del its[key]
            elif op['op'] == 'close':
                g = its.pop((b, op['it']), None)
                if g is not None:
                    g.close()
            elif op['op'] == 'clear':
                for t in (B.notes_to_hash, B.hash_to_notes, B.hash_to_index, B.index_to_hash):
                    t.clear()
            elif op['op'] == 'new':
                builders[b] = MidiGraphBuilder()
                for key in [k for k in its if k[0] == b]:
                    del its[key]
        except (MemoryError, KeyboardInterrupt, ValueError, TypeError, RuntimeError) as e:
            if isinstance(e, RuntimeError) and 'injected' not in str(e):
                raise
            rec['exc'] = [type(e).__name__, 'injected' in str(e), str(e)[:200]]
            if op['op'] == 'next':
                its.pop((b, op['it']), None)
        d.faults = []
        rec['fired'] = sum(d.fired.values()) - fired
        rec['tables'] = {k: tables(x) for k, x in builders.items()}
        rec['left'] = {k: len(x.pyg_data) for k, x in builders.items()}
        rec['subs'] = {k: len(x.sub_graphs) for k, x in builders.items()}
        out.append(rec)
    return out


def see(g, B):
    """Plain data of an emitted graph, together with what the tables say now."""
    vel = g.x.dim() == 3
    cfg = {'include_velocity': vel, 'feature_vec_size': g.x.size(-1)}
    snap, problems = dsutil.canon(g, cfg, B.hash_to_notes, B.index_to_hash)
    lab = snap['label']
    if lab is not None and [int(v) for v in lab] != snap['y']:
        problems.append('labels differ from the classes')
    return {'key': dsutil.key_of(snap) if not snap.get('bad') else None, 'problems': problems,
            'label': lab is not None, 'size': g.x.size(-1), 'y': snap.get('y')}


def tset(x):
    """lists (after JSON) to tuples"""
    return tuple(tset(v) for v in x) if isinstance(x, (list, tuple)) else x


class _Builder(D.Prop):
    def gen(self, r, i, tier):
        n = r.randint(1, 3)
        cfgs = []
        for _ in range(r.randint(1, 2)):
            cfgs.append({'include_velocity': r.random() < 0.4, 'feature_vec_size': r.choice([12, 12, 3, 4, 8, 32, 64]),
                         'filter_single_notes': r.random() < 0.2})
        fulls = [dsutil.full(c) for c in cfgs]
        scores = [model.good_score(r, fulls, {'rich': r.random() < 0.4, 'max_steps': r.choice([3, 6, 10]),
                                              'max_tracks': r.choice([1, 2, 4]), 'scale': 0.03}, need_melody=r.random() < 0.9)
                  for _ in range(n)]
        nb = r.choice([1, 1, 2, 3])
        faulty = r.random() < 0.7
        ops = []
        for _ in range(r.randint(3, 14 if tier == 'quick' else 24)):
            b = r.randrange(nb)
            x = r.random()
            if x < 0.45 or not ops:
                op = {'op': 'build', 'b': b, 'score': r.randrange(n), 'cfg': r.choice(cfgs), 'whole': r.random() < 0.4}
                if faulty and r.random() < 0.35:
                    if r.random() < 0.4:
                        op['bad'] = r.choice(list(BAD) + ['member'] * 3)
                        op['bad_at'] = r.randrange(0, 4)
                    else:
                        op['plan'] = [{'kind': r.choice(['nomem', 'oom', 'oom', 'kbint']), 'at': 0, 'only': ['alloc'],
                                       'skip': r.randrange(0, r.choice([3, 15, 60])), 'count': r.choice([1, 1000])}]
            elif x < 0.85:
                op = {'op': 'next', 'b': b, 'it': r.randrange(2), 'n': r.choice([1, 1, 2, 50]),
                      'skip': r.random() < 0.2, 'sanity': r.random() < 0.4, 'plain': r.random() < 0.2}
                if op['plain']:
                    op['skip'] = op['sanity'] = False
                if faulty and r.random() < 0.15:
                    op['plan'] = [{'kind': r.choice(['nomem', 'oom']), 'at': 0, 'only': ['alloc'], 'skip': r.randrange(0, 3), 'count': 1}]
            elif x < 0.93:
                op = {'op': 'close', 'b': b, 'it': r.randrange(2)}
            elif x < 0.97:
                op = {'op': 'clear', 'b': b}
            else:
                op = {'op': 'new', 'b': b}
            ops.append(op)
        for b in range(nb):
            ops.append({'op': 'next', 'b': b, 'it': 9, 'n': 1000, 'skip': False, 'sanity': True, 'end': True})
        return {'scores': scores, 'ops': ops, 'cfgs': cfgs, 'nb': nb, 'seed': r.randrange(1 << 30)}

    def observe(self, case, scratch, st):
        w = World(scratch, seed=case['seed'])
        w.disk.alloc_ops = True
        w.disk.max_ops = 400000
        w.disk.keep_log = False
        blobs = [model.smf(s) for s in case['scores']]
        o = w.boot(client, blobs, case['ops'], case['nb'])
        st.note(repr(o))
        if o.ok:
            st.note(o.value)
        st.world(w)
        return o

    def plan_of(self, case, op):
        """(graphs the build makes, note sets it registers)"""
        f = dsutil.full(op['cfg'])
        table = {}
        per, whole = model.file_graphs(case['scores'][op['score']], f, table)
        gs = [model.key_of_graph(g) for g in ([whole] if whole else [])] if op['whole'] else \
            [model.key_of_graph(g) for g in per]
        return gs, [tuple(sorted(s)) for s in table]

    def run(self, case, scratch, st):
        o = self.observe(case, scratch, st)
        if not o.ok:
            return [repr(o)]
        bad = []
        for k, (op, rec) in enumerate(zip(case['ops'], o.value)):
            if rec['exc']:
                name, injected, msg = rec['exc']
                legit = injected or op.get('bad') and name in ('ValueError', 'TypeError') or \
                    op['op'] == 'next' and name == 'ValueError'
                if not legit:
                    return [f'step {k} {op["op"]}: {name}: {msg}']
        bad = self.judge(case, o.value, st)
        return bad[:4]

    def shrink(self, case):
        ops = case['ops']
        n = len(ops)
        size = n // 2
        while size >= 1:
            for a in range(0, n, size):
                yield dict(case, ops=ops[:a] + ops[a + size:])
            size //= 2
        for i, op in enumerate(ops):
            for k in ('plan', 'bad'):
                if op.get(k):
                    yield dict(case, ops=ops[:i] + [{a: b for a, b in op.items() if a != k}] + ops[i + 1:])
        for c in D.simplify_scores(dict(case, cfgs=case['cfgs'])):
            if len(c['scores']) == len(case['scores']) and self.ok(c):
                yield c

    def ok(self, case):
        try:
            for c in case['cfgs']:
                for s in case['scores']:
                    model.file_graphs(s, dsutil.full(c))
            return True
        except model.Ambiguous:
            return False


class Tables(_Builder):
    """C06"""
    id = 'C06'

    def judge(self, case, recs, st):
        bad = []
        known, must, may = {}, {}, {}
        builds = 0
        for k, (op, rec) in enumerate(zip(case['ops'], recs)):
            b = op['b']
            if op['op'] == 'new':
                known.pop(b, None), must.pop(b, None), may.pop(b, None)
            if op['op'] == 'build' and not op.get('bad') in [x for x in BAD]:
                sets = self.plan_of(case, op)[1]
                may.setdefault(b, set()).update(sets)
                if not rec['exc']:
                    must.setdefault(b, set()).update(sets)
                    builds += 1
            what = f'step {k} ({op["op"]})'
            for bb, (n2h, h2n, h2i, i2h) in rec['tables'].items():
                a = {tset(x): y for x, y in n2h}
                c = {x: tset(y) for x, y in h2n}
                e, f = dict(map(tuple, h2i)), dict(map(tuple, i2h))
                if len(set(a.values())) != len(a) or {v: x for x, v in a.items()} != c:
                    bad.append(f'{what}: the tables of note sets and hashes are not inverse to each other')
                if len(set(e.values())) != len(e) or {v: x for x, v in e.items()} != f:
                    bad.append(f'{what}: the tables of hashes and classes are not inverse to each other')
                if not set(e) <= set(c):
                    bad.append(f'{what}: a class without note set')
                if must.get(bb, set()) - set(a) or any(c2 not in e for s, c2 in a.items() if s in must.get(bb, ())):
                    bad.append(f'{what}: a note set of a finished build has no class')
                if set(a) - may.get(bb, set()):
                    bad.append(f'{what}: a note set that was never built: {sorted(set(a) - may.get(bb, set()))[:2]}')
                now = {s: e.get(h) for s, h in a.items()}
                for s, i in known.get(bb, {}).items():
                    if i is not None and now.get(s) != i:
                        bad.append(f'{what}: the class of {s} was {i} and is now {now.get(s)}')
                        break
                known[bb] = now
            for g in rec['graphs']:
                bad += [f'{what}: {p}' for p in g['problems'] if 'class' in p or 'hash' in p or 'label' in p]
            st.state(op['op'], len(known.get(b, ())), bool(rec['exc']), rec['left'].get(b))
            if bad:
                break
        if builds >= 2:
            st.nontrivial += 1
        return bad


class Emission(_Builder):
    """C07"""
    id = 'C07'

    def judge(self, case, recs, st):
        bad = []
        queue, maybe = {}, {}
        emitted = 0
        its = {}
        for k, (op, rec) in enumerate(zip(case['ops'], recs)):
            b = op['b']
            q = queue.setdefault(b, [])
            what = f'step {k} ({op["op"]} on builder {b})'
            if op['op'] == 'new':
                queue[b] = q = []
                its = {x: v for x, v in its.items() if x[0] != b}
            elif op['op'] == 'build':
                gs = [] if op.get('bad') in BAD else self.plan_of(case, op)[0]
                if rec['exc'] is None and not op.get('bad'):
                    q += [(g, op['cfg']['feature_vec_size'], op['cfg']['include_velocity']) for g in gs]
                elif rec['exc'] is None and op.get('bad'):
                    if op['bad'] == 'member' or rec['left'][b] > len(q):
                        # accepted although not valid: nothing to compare with
                        return bad
                else:
                    # the instruments finished before the failure may be there
                    n = rec['left'][b] - len(q)
                    if not 0 <= n <= len(gs):
                        bad.append(f'{what}: {rec["left"][b]} graphs are waiting after a failed build, {len(q)} before')
                        break
                    if n:
                        st.hit('instruments_kept_after_failure')
                    q += [(g, op['cfg']['feature_vec_size'], op['cfg']['include_velocity']) for g in gs[:n]]
                    st.hit('failed_builds')
            elif op['op'] == 'next':
                for g in rec['graphs']:
                    if not q:
                        bad.append(f'{what}: a graph was emitted a second time or never built')
                        break
                    want, size, vel = q.pop(0)
                    emitted += 1
                    if g['size'] != size or tset(g['key']) != want:
                        bad.append(f'{what}: the graph emitted is not the next one that was built: '
                                   f'{dsutil.diff(tset(g["key"]), want) if g["key"] else "malformed"}')
                        break
                    bad += [f'{what}: {p}' for p in g['problems']]
                    if not op.get('plain') and its.get((b, op['it']), op).get('skip') == g['label']:
                        bad.append(f'{what}: labels {"" if g["label"] else "not "}given')
                if rec.get('stop'):
                    its.pop((b, op['it']), None)
                    if q:
                        bad.append(f'{what}: the iteration ended with {len(q)} graphs still waiting')
                elif rec['exc']:
                    its.pop((b, op['it']), None)
                    if not rec['exc'][1] and rec['tables'][b][1]:
                        bad.append(f'{what}: {rec["exc"]}')
                    if rec['exc'][1]:
                        st.hit('failed_emissions')
                else:
                    its.setdefault((b, op['it']), op)
                    if len(rec['graphs']) < op.get('n', 1):
                        bad.append(f'{what}: {len(rec["graphs"])} graphs')
            elif op['op'] == 'close':
                its.pop((b, op['it']), None)
            for bb, n in rec['left'].items():
                if not bad and n != len(queue.get(bb, [])):
                    bad.append(f'{what}: {n} graphs are waiting in builder {bb}, {len(queue.get(bb, []))} were built and not emitted')
            if op.get('end') and not bad and not rec['exc'] and (rec['left'][b] or rec['subs'][b]):
                bad.append(f'{what}: after the last graph {rec["left"][b]} and {rec["subs"][b]} are still held')
            st.state(op['op'], len(q), bool(rec['exc']), op.get('bad'), bool(rec['fired']))
            if bad:
                break
        if emitted >= 2:
            st.nontrivial += 1
        return bad


ALL = [Tables, Emission]
