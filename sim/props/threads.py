"""Threads of one process that work on objects of their own, switched at source lines."""
import os

from .. import dsutil, env, model, smfparse, sched as schedmod
from ..simdisk import APPLIES
from ..world import World, bitten, describe
from .dataset import _Sched, simplify_scores
from .midi import gen_piece, see, do_write, client_lookup  # noqa

ERRORS = ('eio', 'enospc', 'emfile', 'eacces', 'nomem', 'short_write', 'short_read')


def signatures(ops):
    """A history of additions and lookups on a collection of one's own."""
    from neural_graph_composer.midi.midi_sequences import MidiNoteSequences
    from neural_graph_composer.midi.midi_time_signature import MidiTempoSignature, MidiTimeSignature
    from neural_graph_composer.midi.midi_key_signature import MidiKeySignature
    q = MidiNoteSequences()
    out = []
    for kind, t, v in ops:
        if v is not None:
            if kind == 'tempo':
                q.add_tempo_signature(MidiTempoSignature(t, v[0], v[1]))
            elif kind == 'time':
                q.add_time_signatures(MidiTimeSignature(t, v[0], v[1]))
            else:
                q.add_key_signatures(MidiKeySignature(t, v[0], v[1]))
        else:
            x = {'tempo': q.tempo_signature, 'time': q.time_signature, 'key': q.key_signature}[kind](t)
            out.append([kind, t, str(x[0]), str(x[1])])
    return out


def task(op, blobs, shared, base):
    from neural_graph_composer.midi_reader import MidiReader
    from neural_graph_composer.midi_graph_builder import MidiGraphBuilder
    k = op['do']
    if k == 'sigs':
        return signatures(op['ops'])
    if k == 'dataset':
        snap = dsutil.snapshot(dsutil.open_dataset(None, os.path.join(base, 'ds'), op['cfg'],
                                                   [os.path.join('in', f'm{op["score"]}.mid')], op['whole']), op['cfg'])
        return [[dsutil.key_of(g) for g in snap['graphs']], snap['problems'], snap['sets']]
    if op.get('shared'):
        q = shared[op['score']]
    elif op.get('src') == 'mido':
        q = MidiReader.read(op['object'])
    elif op.get('path'):
        q = MidiReader.read(f'in/m{op["score"]}.mid')
    else:
        q = MidiReader.read(blobs[op['score']])
    if k == 'read':
        return see(q)
    if k == 'write':
        p = os.path.join(base, op['name'])
        do_write(q, p, op)
        with open(p, 'rb') as f:
            data = f.read()
        try:
            c = smfparse.content(data)
        except (smfparse.Bad, IndexError) as e:
            return f'not a complete MIDI file: {e}'
        return c
    b = MidiGraphBuilder()
    c = dsutil.full(op['cfg'])
    b.build(q, feature_vec_size=c['feature_vec_size'], is_include_velocity=c['include_velocity'],
            filter_single_notes=c['filter_single_notes'], is_per_instrument=not op['whole'])
    out = []
    for g in b.graphs():
        s, problems = dsutil.canon(g, c, b.hash_to_notes, b.index_to_hash)
        out.append([dsutil.key_of(s), s['label'], s['y'], problems])
    return out


def client(d, blobs, work, nshared, schedule, alone):
    import io
    import mido
    from neural_graph_composer.midi_reader import MidiReader
    with d.free():
        shared = [MidiReader.read(b) for b in blobs] if nshared else None
        work = [[dict(op, object=mido.MidiFile(file=io.BytesIO(blobs[op['score']]))) if op.get('src') == 'mido' else op
                 for op in ops] for ops in work]
    logs = [[] for _ in work]

    def thread(c, ops):
        base = f't{c}'

        def go():
            for op in ops:
                try:
                    logs[c].append(['ok', task(op, blobs, shared, base)])
                except (Exception, KeyboardInterrupt) as e:
                    n, m, where, tb = describe(e)
                    logs[c].append(['raise', n[0], m[:200], where, bitten(e)])
        return go
    if alone:
        for c, ops in enumerate(work):
            thread(c, ops)()
        return logs
    s = schedmod.Scheduler(schedule, prefixes=(env.prefix(),), line_level=True, disk=d, max_steps=6_000_000)
    res = s.run([thread(c, ops) for c, ops in enumerate(work)], procs=[f't{c}' for c in range(len(work))])
    s.cv = s.threads = s.disk = None
    return [(a, None if b is None else repr(b)) for a, b in res], s.switches, s.points, logs


def gen_schedule(r):
    if r.random() < 0.5:
        return {'seed': r.randrange(1 << 30), 'p': r.choice([0.003, 0.01, 0.02, 0.05]), 'fresh': True}
    return {'seed': r.randrange(1 << 30), 'p': r.choice([0.0005, 0.003, 0.02, 0.1, 0.4])}


class Threads:
    id = 'C17'

    def gen(self, r, i, tier):
        n = r.randint(1, 3)
        cfg = dsutil.gen_cfg(r)
        full = dsutil.full(cfg)
        scores = []
        while len(scores) < n:
            s = gen_piece(r)
            try:
                model.file_graphs(s, full)
            except model.Ambiguous:
                continue
            if model.file_graphs(s, full)[0]:
                scores.append(s)
        work = []
        kinds = r.choice([['read'], ['build'], ['write'], ['sigs'], ['read', 'build', 'write', 'sigs'], ['read', 'build', 'write', 'sigs', 'dataset'],
                          ['dataset'], ['build', 'read']])
        share = r.random() < 0.3
        mido = r.random() < 0.15         # every thread reads parsed objects
        for c in range(r.choice([2, 2, 3])):
            ops = []
            for j in range(r.choice([1, 1, 2, 3])):
                k = r.choice(kinds)
                op = {'do': k}
                if k == 'sigs':
                    seq = []
                    for _ in range(r.choice([4, 12])):
                        kind = r.choice(['tempo', 'time', 'key'])
                        v = None
                        if r.random() < 0.5:
                            v = {'tempo': [r.choice([60.0, 90.0, 150.0, 200.0]), r.choice([96, 220, 480])],
                                 'time': [r.choice([2, 3, 5, 7]), r.choice([2, 4, 8])],
                                 'key': [r.randrange(12), r.choice([0, 1])]}[kind]
                        seq.append([kind, r.choice([0.0, 0.5, 1.0, 2.0, 3.5]), v])
                    op['ops'] = seq
                else:
                    op['score'] = r.randrange(n)
                    op['path'] = r.random() < 0.4
                    if mido or r.random() < 0.2:
                        op['src'] = 'mido'
                    op['whole'] = r.random() < 0.3
                    op['cfg'] = cfg
                    if k == 'write':
                        op.update(name=f'o{j}.mid', how='write', overwrite=True)
                    if k == 'dataset' and any(o['do'] == 'dataset' for o in ops):
                        op['do'] = 'build'
                    if share and op['do'] != 'dataset':
                        op['shared'] = True
                ops.append(op)
            work.append(ops)
        plan = []
        if r.random() < 0.45:
            c = r.randrange(len(work))
            does = {o['do'] for o in work[c]}
            cls = ['open_r', 'read'] + (['open_w', 'write', 'fsync', 'rename'] * 2 if does & {'write', 'dataset'} else [])
            for o in work[c]:
                if o['do'] in ('read', 'build', 'write') and r.random() < 0.7:
                    o['path'] = True
            only = r.choice(cls)
            f = {'kind': r.choice([k for k in ERRORS if APPLIES[k] is None or only in APPLIES[k]]), 'at': 0,
                 'proc': f't{c}', 'frac': 0.5, 'only': [only], 'skip': r.choice([0, 0, 0, 1, 1, 2, 4])}
            plan.append(f)
        return {'scores': scores, 'cfg': cfg, 'work': work, 'share': share, 'plan': plan, 'seed': r.randrange(1 << 30),
                'chunk': r.choice([1 << 20, 4096, 300]),
                'schedule': gen_schedule(r)}

    def world(self, case, scratch, blobs):
        w = World(scratch, seed=case['seed'], chunk=case['chunk'], dirs=('in', 'tmp', 't0', 't1', 't2'))
        for k, b in enumerate(blobs):
            w.put(f'in/m{k}.mid', b)
        return w

    def run(self, case, scratch, st):
        blobs = [model.smf(s) for s in case['scores']]
        want = []
        for c, ops in enumerate(case['work']):
            w = self.world(case, scratch, blobs)
            o = w.boot(client, blobs, [[] for _ in range(c)] + [ops], case['share'], None, True)
            if not o.ok:
                return [f'thread {c} alone: {o!r}']
            want.append(o.value[c])
            st.boots += 1
        w = self.world(case, scratch, blobs)
        o = w.boot(client, blobs, case['work'], case['share'], case['schedule'], False, plan=case['plan'])
        st.note(repr(o))
        if not o.ok:
            st.world(w)
            return [repr(o)]
        res, switches, points, logs = o.value
        case['_switches'] = switches
        st.schedule(_Sched(switches, points))
        st.note(logs)
        bad = []
        hurt = {f['proc'] for f in case['plan']} if w.disk.fired else set()
        for c, (status, detail) in enumerate(res):
            if status != 'ok':
                bad.append(f'thread {c}: {status} {detail}')
                continue
            for j, (op, a, b) in enumerate(zip(case['work'][c], logs[c], want[c])):
                st.state(op['do'], a[0], bool(hurt), a == b)
                if a == b:
                    continue
                if a[0] == 'raise' and a[4] and f't{c}' in hurt:
                    st.hit('own_failure')
                    continue
                bad.append(f'thread {c}, {op["do"]} {j}: {tell(a)}; alone: {tell(b)}{first_difference(a, b)}')
        if len(switches) >= 3:
            st.nontrivial = 1
        st.world(w)
        return bad[:4]

    def shrink(self, case):
        sw = case.pop('_switches', None)
        if case['plan']:
            yield dict(case, plan=[])
        work = case['work']
        if len(work) > 2:
            for c in range(len(work)):
                yield dict(case, work=work[:c] + work[c + 1:], plan=[])
        for c, ops in enumerate(work):
            if len(ops) > 1:
                for j in range(len(ops)):
                    yield dict(case, work=work[:c] + [ops[:j] + ops[j + 1:]] + work[c + 1:])
        sc = case['schedule']
        if 'explicit' not in sc:
            if sw is not None:
                yield dict(case, schedule={'explicit': sw})
        else:
            ex = sc['explicit']
            size = max(len(ex) // 2, 1) if ex else 0
            while size >= 1:
                for a in range(0, len(ex), size):
                    yield dict(case, schedule={'explicit': ex[:a] + ex[a + size:]})
                size //= 2
        if 'explicit' not in sc:
            for c in simplify_scores(dict(case, cfgs=[case['cfg']])):
                if len(c['scores']) == len(case['scores']) and all(
                        model.instruments(s) and all(i['notes'] for i in model.instruments(s)) for s in c['scores']):
                    yield c


def tell(x):
    return f'raised {x[1]}: {x[2][:120]} at {x[3]}' if x[0] == 'raise' else 'a result'


def first_difference(a, b, path=''):
    if a[0] == 'raise' or b[0] == 'raise':
        return ''

    def go(x, y, p):
        if type(x) is not type(y):
            return p, x, y
        if isinstance(x, dict):
            for k in sorted(set(x) | set(y), key=str):
                if x.get(k) != y.get(k):
                    return go(x.get(k), y.get(k), p + [k])
        if isinstance(x, (list, tuple)) and len(x) == len(y):
            for k, (u, v) in enumerate(zip(x, y)):
                if u != v:
                    return go(u, v, p + [k])
        return p, x, y
    p, x, y = go(a[1], b[1], [])
    return f' ({p}: {str(x)[:100]} instead of {str(y)[:100]})'


ALL = [Threads]
