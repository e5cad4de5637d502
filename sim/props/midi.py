"""MIDI files: writing under failures and concurrency, reading from faulty media, signature lookups."""
import gc
import math
import os

from .. import dsutil, model, smfparse, sched as schedmod
from ..world import World, bitten, describe
from ..stats import norm
from ..simdisk import BENIGN
from .dataset import (gen_fault, gen_reboot, simplify_scores, shrink_common, _Sched, CRASHES)

WRITE_ERRORS = ('eio', 'enospc', 'edquot', 'emfile', 'eacces', 'erofs', 'nomem', 'kbint', 'short_write')


def gen_piece(r):
    """A score with at least one note; gentle enough for every reader."""
    while True:
        s = model.gen_score(r, {'rich': r.random() < 0.3, 'max_steps': r.choice([2, 6, 12]), 'scale': 0.05})
        end = max([n[1] for t in s['tracks'] for n in t['notes']] + [1])
        for _ in range(r.choice([0, 0, 0, 1, 1, 3])):
            s['timesigs'].append([r.randrange(1, end + 1), r.choice([2, 3, 5, 7]), r.choice([2, 4, 8, 16])])
        for _ in range(r.choice([0, 0, 0, 1, 1, 3])):
            s['keysigs'].append([r.randrange(1, end + 1), r.choice(list(range(8)) + list(range(249, 256))), r.choice([0, 1])])
        if model.instruments(s) and all(i['notes'] for i in model.instruments(s)):
            return s


# ---- what a reader of a sequence collection sees --------------------------------
def see(q):
    tr = []
    for k in q:
        s = q[k]
        tr.append([s.instrument.instrument_num, bool(s.instrument.is_drum),
                   [[float(n.start_time), float(n.end_time), int(n.pitch), int(n.velocity),
                     int(n.numerator), int(n.denominator), bool(n.is_drum), int(n.program)] for n in s.notes]])
    return {'tracks': tr, 'resolution': int(q.resolution), 'total': float(q.total_time),
            'tempo': [[float(t.midi_time), float(t.qpm)] for t in q.tempo_signatures],
            'time': [[float(t.midi_time), [int(t.numerator), int(t.denominator)]] for t in q.time_signatures],
            'key': [[float(t.midi_time), [int(t.midi_key), t.mode.name == 'MINOR']] for t in q.key_signatures]}


def read_expected(score):
    conv = model.seconds(score)
    ts = smfparse._steps([[float(conv(t)), (a, c)] for t, a, c in sorted(score['timesigs'], key=lambda e: e[0])], (4, 4))
    ks = smfparse._steps([[float(conv(t)), smfparse.key_of(a, c)] for t, a, c in sorted(score['keysigs'], key=lambda e: e[0])],
                         (0, False))
    te = smfparse._steps([[float(conv(t)), 6e7 / u] for t, u in sorted(score['tempos'], key=lambda e: e[0])], 120.0)
    tr = []
    for i in model.instruments(score):
        ns = []
        for a, b, p, v in i['notes']:
            num, den = [x for t, x in ts if t <= float(a) + 1e-9][-1]
            ns.append([float(a), float(b), p, v, num, den, i['drum'], i['program']])
        tr.append([i['program'], i['drum'], ns])
    return {'tracks': tr, 'resolution': score['tpb'], 'tempo': te, 'time': ts, 'key': ks,
            'total': max(n[1] for t in tr for n in t[2])}


def read_problems(got, want):
    tol = 1e-6
    if [t[:2] for t in got['tracks']] != [t[:2] for t in want['tracks']]:
        return [f'instruments {[t[:2] for t in got["tracks"]]}, the file has {[t[:2] for t in want["tracks"]]}']
    for k, (a, b) in enumerate(zip(got['tracks'], want['tracks'])):
        if len(a[2]) != len(b[2]):
            return [f'instrument {k} has {len(a[2])} notes, the file has {len(b[2])}']
        o = lambda n: (round(n[0], 5), n[2])
        for x, y in zip(sorted(a[2], key=o), sorted(b[2], key=o)):
            if abs(x[0] - y[0]) > tol or abs(x[1] - y[1]) > tol or x[2:] != y[2:]:
                return [f'instrument {k}: note {x}, the file has {y}']
    if got['resolution'] != want['resolution'] or abs(got['total'] - want['total']) > tol:
        return [f'resolution {got["resolution"]}, total {got["total"]}; the file has {want["resolution"]}, {want["total"]}']
    for what in ('tempo', 'time', 'key'):
        # signatures as steps over time
        g = []
        for t, v in got[what]:
            v = tuple(v) if isinstance(v, list) else v
            if g and abs(t - g[-1][0]) < tol:
                g[-1][1] = v
            else:
                g.append([t, v])
            if len(g) > 1 and _same(g[-1][1], g[-2][1]):
                g.pop()
        w = want[what]
        if len(g) != len(w) or any(abs(x[0] - y[0]) > tol or not _same(x[1], y[1]) for x, y in zip(g, w)):
            return [f'{what} signatures {g}, the file has {w}']
    return []


def _same(a, b):
    if isinstance(a, float) and isinstance(b, float):
        return abs(a - b) <= 2e-7 * max(abs(a), abs(b))
    return a == b


# ---- C08: writing -----------------------------------------------------------------
def expected_of(score, how):
    """Content of a file written from the score: the whole collection ('write') or
    one of its instruments by the callback (['cb', instrument, tempo, resolution])."""
    e = smfparse.expected(score)
    if how == 'write':
        return e
    _, j, tempo, res = how
    return {'instruments': [e['instruments'][j]], 'tempo': [[0.0, float(tempo)]], 'time': [[0.0, (4, 4)]],
            'key': [[0.0, (0, False)]], 'tick': 60.0 / tempo / res}


def do_write(q, path, op):
    from neural_graph_composer.midi_reader import MidiReader
    from neural_graph_composer.midi.callbacks import save_midi_callback
    if op['how'] == 'write':
        if op['overwrite'] is None:
            MidiReader.write(q, path)
        else:
            MidiReader.write(q, path, do_overwrite=op['overwrite'])
    else:
        _, j, tempo, res = op['how']
        s = q[list(q)[j]]
        save_midi_callback(path, s.instrument, s.notes, q.total_time, tempo=tempo, resolution=res)


def client_write(d, blobs, ops, paths):
    """Writes one after the other; d.progress survives the death of the process."""
    from neural_graph_composer.midi_reader import MidiReader
    with d.free():
        qs = [MidiReader.read(b) for b in blobs]
    d.progress = []
    out = []
    for k, op in enumerate(ops):
        d.progress.append([k, None])
        fired = dict(d.fired)
        try:
            do_write(qs[op['score']], paths[op['target']], op)
            res = ['ok']
        except (Exception, KeyboardInterrupt) as e:
            n, m, where, tb = describe(e)
            res = ['raise', n[0], m, where, bitten(e)]
            del e
        d.progress[-1][1] = res[0]
        res.append(sorted(x for x in d.fired if d.fired[x] != fired.get(x, 0)))
        out.append(res)
        with d.free():
            out[-1].append({p: _slurp(p) for p in set(paths)})
    return out


def _slurp(p):
    try:
        with open(p, 'rb') as f:
            return f.read()
    except FileNotFoundError:
        return None


def client_roundtrip(d, paths):
    from neural_graph_composer.midi_reader import MidiReader
    out = {}
    for p in paths:
        try:
            out[p] = see(MidiReader.read(p))
        except Exception as e:
            out[p] = repr(e)
    return out


def min_gap(notes):
    by = {}
    for a, b, p, _ in notes:
        by.setdefault(p, []).append(a)
    return min([y - x for v in by.values() for x, y in zip(sorted(v), sorted(v)[1:])], default=1)


TARGETS = ['out/t.mid', 'out/sub/u.mid', 'out/no ext']


class Write:
    """C08"""
    id = 'C08'

    def gen(self, r, i, tier):
        n = r.randint(1, 3)
        case = {'scores': [gen_piece(r) for _ in range(n)], 'seed': r.randrange(1 << 30),
                'chunk': r.choice([1 << 20, 1 << 14, 700, 120, 31]),
                'present': {t: r.choice([None, None, None, 'junk', 'midi', 'midi', 'empty']) for t in TARGETS}}
        case['mode'] = 'threads' if i % 3 == 2 else 'serial'

        def op(conc=False):
            sc = r.randrange(n)
            how = 'write'
            if r.random() < 0.25:
                ins = model.instruments(case['scores'][sc])
                how = ['cb', r.randrange(len(ins)), r.choice([60.0, 90.0, 120.0, 150.0]), r.choice([96, 220, 480])]
                # a note shorter than a tick cannot be written
                short = min(min(b - a for a, b, _, _ in ins[how[1]]['notes']), min_gap(ins[how[1]]['notes']))
                if short <= 2 * 60.0 / how[2] / how[3]:
                    how = 'write'
            return {'score': sc, 'how': how, 'overwrite': True if how != 'write' else r.choice([True, True, True, True, True, False, None]),
                    'target': 0 if conc and r.random() < 0.9 else r.randrange(len(TARGETS))}
        if case['mode'] == 'serial':
            steps = []
            for _ in range(r.choice([1, 1, 2, 3])):
                ops = [op() for _ in range(r.choice([1, 1, 2, 3]))]
                plan = []
                if r.random() < 0.9:
                    for _ in range(r.choice([1, 1, 1, 2])):
                        kinds = CRASHES if r.random() < 0.5 else WRITE_ERRORS
                        plan.append(write_fault(r, kinds, case['chunk'], len(ops)))
                steps.append({'ops': ops, 'plan': plan, 'reboot': gen_reboot(r)})
            case['steps'] = steps
        else:
            k = r.choice([2, 2, 3])
            # threads of one process, or processes
            L = case['letter'] = r.choice('pt')
            case['clients'] = []
            for c in range(k):
                if c and r.random() < 0.4:
                    case['clients'].append([{'read': r.choice(['raw', 'reader']), 'target': 0}
                                            for _ in range(r.choice([1, 3, 6]))])
                else:
                    case['clients'].append([op(True) for _ in range(r.choice([1, 1, 2]))])
            case['schedule'] = {'seed': r.randrange(1 << 30), 'p': r.choice([0.05, 0.2, 0.5, 0.9])}
            case['plan'] = []
            x = r.random()
            if x < 0.35 and L == 'p':
                f = write_fault(r, ('crash',), case['chunk'], 1)
                f['proc'] = f'{L}{r.randrange(k)}'
                case['plan'].append(f)
            elif x < 0.5:
                f = write_fault(r, ('enospc', 'eio'), case['chunk'], 1)
                f['proc'] = f'{L}{r.randrange(k)}'
                f['only'] = [r.choice(['open_w', 'write', 'fsync'])]
                f['at'], f['skip'] = 0, r.randrange(0, 6)
                case['plan'].append(f)
        return case

    # -- a world with old files
    def world(self, case, scratch):
        w = World(scratch, seed=case['seed'], chunk=case['chunk'], dirs=('in', 'tmp', 'out', 'out/sub'))
        old = model.smf(dict(case['scores'][0], end=0, tpb=case['scores'][0]['tpb'] + 24))
        first = {}
        for t in TARGETS:
            p = case['present'][t]
            if p:
                first[t] = {'junk': b'not a midi file' * 9, 'midi': old, 'empty': b''}[p]
                w.put(t, first[t])
            else:
                first[t] = None
        for n in ('out/t.mid.bak', 'out/other.mid', 'out/sub/t.mid', 'in/t.mid'):
            w.put(n, b'a neighbour: ' + n.encode())
        return w, first

    def matches(self, data, cand, case):
        """None when the bytes are the candidate's content, else why not."""
        if cand is None or isinstance(cand, bytes):
            return None if data == cand else 'other bytes'
        if data is None:
            return 'no file'
        try:
            got = smfparse.content(data)
        except (smfparse.Bad, IndexError) as e:
            return f'not a complete MIDI file ({e}), {len(data)} bytes'
        d = smfparse.differences(got, expected_of(case['scores'][cand[0]], cand[1]))
        return d[0] if d else None

    def which(self, data, cands, case):
        why = []
        for c in cands:
            x = self.matches(data, c, case)
            if x is None:
                return c, None
            why.append(x)
        return None, '; '.join(str(x)[:160] for x in why[-2:])

    def neighbours(self, w, known):
        t = w.disk.tree('')
        out = [f'{n} was changed by writing another file' for n in known if n not in TARGETS and t.get(n) != known[n]]
        return out, t

    def run(self, case, scratch, st):
        if case['mode'] == 'threads':
            return self.run_threads(case, scratch, st)
        w, cur = self.world(case, scratch)
        paths = [w.path(t) for t in TARGETS]
        blobs = [model.smf(s) for s in case['scores']]
        bad = []
        known = w.disk.tree('')
        steps = case['steps'] + [{'ops': [{'score': k, 'how': 'write', 'overwrite': True, 'target': k % len(TARGETS)}
                                          for k in range(len(case['scores']))], 'plan': [], 'reboot': {}}]
        left = set()
        hist = {t: [cur[t]] for t in TARGETS}       # contents since the last loss of power
        for k, s in enumerate(steps):
            w.disk.progress = []
            before = dict(w.disk.fired)
            o = w.boot(client_write, blobs, s['ops'], paths, plan=s['plan'])
            fired = sorted(x for x in w.disk.fired if w.disk.fired[x] != before.get(x, 0))
            st.note((k, repr(o)))
            if fired:
                st.nontrivial = 1
            may = {t: [cur[t]] for t in TARGETS}
            what = f'process {k} with {",".join(fired) or "no fault"}'
            if o.status == 'ok':
                for j, (op, res) in enumerate(zip(s['ops'], o.value)):
                    t = TARGETS[op['target']]
                    new = (op['score'], op['how'])
                    seen = {TARGETS[paths.index(p)]: b for p, b in res[-1].items()}
                    what_j = f'{what}, write {j} to {t}'
                    allowed = [new] if res[0] == 'ok' else [cur[t]] + ([new] if res[4] else [])
                    if op['overwrite'] is not True and cur[t] is not None:
                        allowed = [cur[t]]
                        if res[0] == 'ok':
                            bad.append(f'{what_j}: succeeded although the file existed and overwriting was not asked for')
                    if res[0] == 'raise' and not res[4]:
                        if not (res[1] == 'FileExistsError' and op['overwrite'] is not True and cur[t] is not None):
                            bad.append(f'{what_j}: raised {res[1]} {res[2][:150]} at {res[3]}')
                        else:
                            st.hit('refused')
                    got, why = self.which(seen[t], allowed, case)
                    if why:
                        bad.append(f'{what_j} ({res[0]}): {why}')
                    else:
                        cur[t] = got if not isinstance(got, tuple) else (got[0], got[1])
                        hist[t].append(cur[t])
                    for u in TARGETS:
                        if u != t and self.which(seen[u], [cur[u]], case)[1]:
                            bad.append(f'{what_j}: {u} was changed too')
                    st.state(op['overwrite'], cur[t] is None, res[0], tuple(res[-2]), op['how'] == 'write')
                    if bad:
                        break
            elif o.status == 'crash':
                for j, res in w.disk.progress:
                    op = s['ops'][j]
                    t = TARGETS[op['target']]
                    new = (op['score'], op['how'])
                    if op['overwrite'] is not True and all(c is not None for c in may[t]):
                        continue
                    may[t] = [new] if res == 'ok' else may[t] + [new]
                    hist[t].append(new)
            else:
                bad.append(f'{what}: {o!r}')
            power = any(x.startswith('power') for x in fired)
            w.disk.reboot(s['reboot'])
            if o.status == 'crash':
                for t in TARGETS:
                    cands = hist[t] if power else may[t]
                    data = w.disk.tree('').get(t)
                    got, why = self.which(data, cands, case)
                    if why:
                        bad.append(f'after {what} ({o.msg}): {t} is neither old nor new: {why}')
                    else:
                        cur[t] = got
                    if power:
                        hist[t] = [cur[t]]
                    st.state('crash', tuple(fired), norm(o.msg.split(',', 2)[-1]), cands.index(got) if not why else -1)
            p, tree = self.neighbours(w, known)
            bad += [f'after {what}: {x}' for x in p]
            extra = set(tree) - set(known) - set(TARGETS)
            if not fired and extra - left:
                bad.append(f'{what}: left {sorted(extra - left)[0]} behind')
            left |= extra
            if bad:
                break
        if not bad:
            o = w.boot(client_roundtrip, [w.path(TARGETS[k % len(TARGETS)]) for k in range(len(case['scores']))])
            if not o.ok:
                bad.append(f'reading back: {o!r}')
            else:
                last = {}
                for k in range(len(case['scores'])):
                    last[w.path(TARGETS[k % len(TARGETS)])] = k
                for p, k in last.items():
                    v = o.value[p]
                    if isinstance(v, str):
                        bad.append(f'reading back {os.path.basename(p)}: {v[:200]}')
                        continue
                    e = smfparse.expected(case['scores'][k])
                    g = [[a[0], a[1], len(a[2])] for a in v['tracks'] if a[2]]
                    x = [[a[0], a[1], len(a[2])] for a in e['instruments']]
                    if g != x:
                        bad.append(f'reading back: instruments {g}, written {x}')
        st.world(w)
        return bad[:4]

    # -- concurrent clients
    def run_threads(self, case, scratch, st):
        w, first = self.world(case, scratch)
        paths = [w.path(t) for t in TARGETS]
        blobs = [model.smf(s) for s in case['scores']]
        known = w.disk.tree('')
        o = w.boot(client_threads, blobs, case['clients'], paths, case['schedule'], case.get('letter', 'p'), plan=case['plan'])
        st.nontrivial = 1
        bad = []
        if not o.ok:
            st.note(repr(o))
            st.world(w)
            return [repr(o)]
        res, switches, points, logs = o.value
        case['_switches'] = switches
        st.schedule(_Sched(switches, points))
        fired = sorted(w.disk.fired)
        w.disk.reboot({})
        tree = w.disk.tree('')
        writers = {t: [] for t in TARGETS}      # (client, op, status)
        for c, (ops, log) in enumerate(zip(case['clients'], logs)):
            status, detail = res[c]
            if status == 'crash':
                if not any(f.startswith('crash') for f in fired):
                    bad.append(f'client {c} died')
            elif status != 'ok':
                bad.append(f'client {c}: {status} {detail}')
            for op, rec in zip(ops, log + [['crash']] * (1 if len(log) < len(ops) else 0)):
                if 'read' not in op:
                    writers[TARGETS[op['target']]].append((c, op, rec))
        st.note([(s, [r[:2] if r[0] != 'read' else (r[0], norm(str(r[1])[:40])) for r in log]) for (s, _), log in zip(res, logs)])
        for t in TARGETS:
            contents = [(op['score'], op['how']) for _, op, rec in writers[t]]
            ok = [(op, rec) for _, op, rec in writers[t] if rec[0] == 'ok']
            maybe = [(op, rec) for _, op, rec in writers[t] if rec[0] == 'crash' or rec[0] == 'raise' and rec[4]]
            soft = [op for op, _ in ok if op['overwrite'] is not True]
            if first[t] is not None and soft:
                bad.append(f'{t}: a writer that must not overwrite succeeded although the file existed')
            if len(soft) > 1:
                bad.append(f'{t}: {len(soft)} writers that must not overwrite all succeeded')
            for c, op, rec in writers[t]:
                if rec[0] == 'raise' and not rec[4]:
                    others = first[t] is not None or len(writers[t]) > 1
                    if not (rec[1] == 'FileExistsError' and op['overwrite'] is not True and others):
                        bad.append(f'client {c} writing {t}: raised {rec[1]} {rec[2][:150]} at {rec[3]}')
            hard = [op for op, _ in ok if op['overwrite'] is True]
            cands = [(op['score'], op['how']) for op in (hard or soft)]
            cands += [(op['score'], op['how']) for op, _ in maybe]
            if not ok:
                cands = [first[t]] + cands
            got, why = self.which(tree.get(t), cands, case)
            if why:
                bad.append(f'{t} in the end: {why}')
            st.state(t, len(ok), len(maybe), tuple(fired), cands.index(got) if not why else -1)
            # readers
            for c, (ops, log) in enumerate(zip(case['clients'], logs)):
                for op, rec in zip(ops, log):
                    if 'read' not in op or TARGETS[op['target']] != t or rec[0] != 'read':
                        continue
                    can = [first[t]] + contents
                    if op['read'] == 'raw':
                        got, why = self.which(rec[1], can, case)
                        if why:
                            bad.append(f'client {c} read {t}: {why}')
                        st.hit('reader_saw_old' if got is first[t] else 'reader_saw_new')
                    elif isinstance(rec[1], str):
                        soft_ok = first[t] is None or case['present'][t] in ('junk', 'empty')
                        if not soft_ok:
                            bad.append(f'client {c} could not read {t}: {rec[1][:200]}')
                        elif 'No such file' not in rec[1] and case['present'][t] not in ('junk', 'empty'):
                            bad.append(f'client {c} could not read {t}: {rec[1][:200]}')
        p, tree2 = self.neighbours(w, known)
        bad += p
        extra = set(tree2) - set(known) - set(TARGETS)
        if not fired and extra:
            bad.append(f'{sorted(norm(e) for e in extra)[0]} was left behind')
        st.world(w)
        return bad[:4]

    def shrink(self, case):
        sw = case.pop('_switches', None)
        if case['mode'] == 'threads':
            sc = case['schedule']
            if 'explicit' not in sc:
                if sw is not None:
                    yield dict(case, schedule={'explicit': sw})
            else:
                ex = sc['explicit']
                size = len(ex) // 2
                while size >= 1:
                    for a in range(0, len(ex), size):
                        yield dict(case, schedule={'explicit': ex[:a] + ex[a + size:]})
                    size //= 2
            if case['plan']:
                yield dict(case, plan=[])
            for c in range(len(case['clients'])):
                if len(case['clients']) > 2:
                    yield dict(case, clients=case['clients'][:c] + case['clients'][c + 1:])
                ops = case['clients'][c]
                if len(ops) > 1:
                    for j in range(len(ops)):
                        yield dict(case, clients=case['clients'][:c] + [ops[:j] + ops[j + 1:]] + case['clients'][c + 1:])
        else:
            for k, s in enumerate(case['steps']):
                if len(s['ops']) > 1:
                    for j in range(len(s['ops'])):
                        yield dict(case, steps=case['steps'][:k] + [dict(s, ops=s['ops'][:j] + s['ops'][j + 1:])] + case['steps'][k + 1:])
        for t in TARGETS:
            if case['present'][t]:
                yield dict(case, present=dict(case['present'], **{t: None}))
        used = {op['score'] for s in case.get('steps', []) for op in s['ops']} | \
               {op['score'] for c in case.get('clients', []) for op in c if 'score' in op}
        if len(case['scores']) - 1 not in used and len(case['scores']) > 1:
            yield dict(case, scores=case['scores'][:-1])
        for c in shrink_common(dict(case, cfgs=[])):
            if len(c['scores']) == len(case['scores']) and all(
                    model.instruments(s) and all(i['notes'] for i in model.instruments(s)) for s in c['scores']) and \
                    self.callbacks_ok(c):
                yield c

    def callbacks_ok(self, c):
        ops = [op for s in c.get('steps', []) for op in s['ops']] + [op for cl in c.get('clients', []) for op in cl]
        return all(op['how'][1] < len(model.instruments(c['scores'][op['score']])) for op in ops
                   if 'how' in op and op['how'] != 'write')


def write_fault(r, kinds, chunk, nops):
    f = {'kind': r.choice(kinds), 'frac': r.choice([0.0, 0.3, 0.5, 0.9, 1.0]), 'at': 0}
    per = 7 + min(300 // chunk, 8)
    if r.random() < 0.5:
        f['at'] = r.randrange(0, per * nops)
    else:
        f['only'] = r.choice([['open_w'], ['write'], ['fsync'], ['rename', 'link'], ['unlink']])
        f['skip'] = r.choice([0, 0, 0, 1, 1, 2, 3])
    if r.random() < 0.1:
        f['count'] = r.choice([2, 1000])
    return f


def client_threads(d, blobs, clients, paths, schedule, letter='p'):
    from neural_graph_composer.midi_reader import MidiReader
    with d.free():
        qs = [[MidiReader.read(b) for b in blobs] for _ in clients]
    logs = [[] for _ in clients]
    s = schedmod.Scheduler(schedule, disk=d)

    def client(c, ops):
        def go():
            for op in ops:
                p = paths[op['target']]
                try:
                    if 'read' in op:
                        if op['read'] == 'raw':
                            logs[c].append(['read', read_all(p)])
                        else:
                            try:
                                logs[c].append(['read', see(MidiReader.read(p))])
                            except Exception as e:
                                logs[c].append(['read', f'{type(e).__name__}: {e}'])
                    else:
                        do_write(qs[c][op['score']], p, op)
                        logs[c].append(['ok'])
                except (Exception, KeyboardInterrupt) as e:
                    n, m, where, tb = describe(e)
                    logs[c].append(['raise', n[0], m, where, bitten(e)])
        return go
    res = s.run([client(c, ops) for c, ops in enumerate(clients)], procs=[f'{letter}{c}' for c in range(len(clients))])
    s.cv = s.threads = s.disk = None
    return [(a, None if b is None else repr(b)) for a, b in res], s.switches, s.points, logs


def read_all(p):
    """A reader that takes what is there, piece by piece."""
    try:
        with open(p, 'rb') as f:
            return f.read()
    except FileNotFoundError:
        return None


# ---- C12: reading --------------------------------------------------------------------
READ_ERRORS = ('eio_read', 'eio', 'emfile', 'nomem', 'kbint', 'enospc', 'eacces')


def client_read(d, reads, blobs, base):
    """Executes the reads; one record per read."""
    import io
    import mido
    from neural_graph_composer.midi_reader import MidiReader
    out = []
    objects = {}
    kept = []
    for op in reads:
        data = blobs[op['score']]
        if op.get('cut') is not None:
            data = data[:op['cut']]
        path = os.path.join(base, f'm{op["score"]}{"" if op.get("cut") is None else "c%d" % op["cut"]}.mid')
        rec = {'tmp0': sorted(os.listdir(os.path.join(base, '..', 'tmp')))}
        if op.get('shared'):
            # a file that the user saves one piece after the other to
            path = os.path.join(base, 'shared.mid')
            with d.free(), open(path, 'wb') as f:
                f.write(data)
        src = path
        if op['src'] == 'bytes':
            src = data
        elif op['src'] == 'mido':
            with d.free():
                try:
                    src = mido.MidiFile(file=io.BytesIO(data))
                except Exception:
                    src = None          # the client has no object to pass
            if op.get('again') and op.get('cut') is None:
                src = objects.setdefault(op['score'], src)
        d.faults = []
        if op.get('plan'):
            d.plan(op['plan'])
        fired = dict(d.fired)
        n0 = d.nops
        try:
            if src is None:
                rec['skip'] = True
            elif op['src'] == 'from_file':
                q = MidiReader.from_file(path)
            else:
                q = MidiReader.read(src)
            if src is not None:
                rec['got'] = see(q)
                if op.get('keep'):
                    kept.append((q, rec))
                elif op.get('spoil'):
                    # what a careless user can do to a piece
                    for k in q:
                        for x in q[k].notes:
                            x.pitch, x.velocity = 1, 1
                        q[k].notes.clear()
                    for x in (q.tempo_signatures, q.time_signatures, q.key_signatures):
                        x.clear()
                q = None
        except (Exception, KeyboardInterrupt) as e:
            n, m, where, tb = describe(e)
            rec['exc'] = [n, m[:200], where, bitten(e)]
            del e
        src = None
        d.faults = []
        rec['fired'] = sorted(x for x in d.fired if d.fired[x] != fired.get(x, 0))
        rec['ops'] = d.nops - n0
        with d.free():
            gc.collect()
            rec['open'] = len(d.fds)
            rec['tmp'] = sorted(os.listdir(os.path.join(base, '..', 'tmp')))
        out.append(rec)
    for q, rec in kept:
        rec['late'] = see(q) == rec['got']
    return out


def transposed(score):
    """A piece whose file differs in nothing but the pitches, not even in its size."""
    for k in (1, -1):
        tracks = [dict(t, notes=[dict(x, pitch=x['pitch'] + k) if isinstance(x, dict) else
                                 list(x[:2]) + [x[2] + k] + list(x[3:]) for x in t['notes']]) for t in score['tracks']]
        ps = [x['pitch'] if isinstance(x, dict) else x[2] for t in tracks for x in t['notes']]
        if ps and min(ps) >= 1 and max(ps) <= 127:
            out = dict(score, tracks=tracks)
            if len(model.smf(out)) == len(model.smf(score)):
                return out


class Read:
    """C12"""
    id = 'C12'

    def gen(self, r, i, tier):
        n = r.randint(1, 3)
        case = {'scores': [gen_piece(r) for _ in range(n)], 'seed': r.randrange(1 << 30),
                'chunk': r.choice([1 << 20, 4096, 100, 17, 3])}
        if r.random() < 0.2:
            other = transposed(case['scores'][0])
            if other:
                case['scores'].append(other)
                n += 1
        sizes = [len(model.smf(s)) for s in case['scores']]
        reads = []
        for _ in range(r.randint(2, 8)):
            k = r.randrange(n)
            op = {'score': k, 'src': r.choice(['path', 'path', 'path', 'bytes', 'mido', 'from_file'])}
            x = r.random()
            if x < 0.3:
                # where a transfer may have stopped: anywhere, or just before the end
                op['cut'] = r.choice([r.randrange(sizes[k]), sizes[k] - r.randint(1, 12), r.randrange(min(40, sizes[k]))])
                op['cut'] = max(0, min(op['cut'], sizes[k] - 1))
            elif x < 0.8:
                f = {'kind': r.choice(READ_ERRORS + ('short_read',) * 2), 'at': 0, 'frac': r.choice([0.0, 0.2, 0.5, 0.9])}
                per = 3 + min(sizes[k] // case['chunk'], 200)
                if r.random() < 0.6:
                    f['at'] = r.randrange(0, per * (3 if op['src'] == 'mido' else 1))
                else:
                    f['only'] = [r.choice(['read', 'open_r', 'open_w', 'write', 'unlink'])]
                    f['skip'] = r.choice([0, 0, 1, r.randrange(0, per)])
                if r.random() < 0.2:
                    f['count'] = r.choice([2, 1000])
                op['plan'] = [f]
            if r.random() < 0.5:
                op[r.choice(['keep', 'spoil'])] = True
            if r.random() < 0.3:
                op['again' if op['src'] == 'mido' else 'shared'] = True
            reads.append(op)
        case['reads'] = reads
        return case

    def run(self, case, scratch, st):
        w = World(scratch, seed=case['seed'], chunk=case['chunk'])
        blobs = [model.smf(s) for s in case['scores']]
        for op in case['reads']:
            k = op['score']
            c = op.get('cut')
            w.put(f'in/m{k}{"" if c is None else "c%d" % c}.mid', blobs[k] if c is None else blobs[k][:c])
        before = w.disk.tree('in')
        reads = case['reads'] + [{'score': k, 'src': s} for k in range(len(blobs)) for s in ('path', 'bytes', 'mido')
                                 if any(op['score'] == k for op in case['reads'])]
        # the last read of a parsed object is one of an object that was read before
        reads = [dict(op, again=True) if j >= len(case['reads']) and op['src'] == 'mido' else op for j, op in enumerate(reads)]
        for k in range(len(blobs)):
            w.put(f'in/m{k}.mid', blobs[k])
        before = w.disk.tree('in')
        o = w.boot(client_read, reads, blobs, w.path('in'))
        bad = []
        if not o.ok:
            st.note(repr(o))
            st.world(w)
            return [repr(o)]
        want = [read_expected(s) for s in case['scores']]
        leaked = set()
        for j, (op, rec) in enumerate(zip(reads, o.value)):
            fired = rec['fired']
            what = f'read {j} ({op["src"]}{"" if op.get("cut") is None else ", cut at %d" % op["cut"]}{", " + ",".join(fired) if fired else ""})'
            st.note((j, fired, rec.get('exc'), rec.get('got')))
            st.state(op['src'], op.get('cut') is not None, tuple(fired), rec.get('exc', [['ok']])[0][0], rec['ops'])
            if fired or op.get('cut') is not None:
                st.nontrivial = 1
            hard = [f for f in fired if f.split(':')[0] not in BENIGN]
            if rec.get('skip'):
                continue
            if 'got' in rec:
                if op.get('cut') is not None:
                    bad.append(f'{what}: {len(blobs[op["score"]])} bytes cut to {op["cut"]} were read as a piece of '
                               f'{sum(len(t[2]) for t in rec["got"]["tracks"])} notes')
                else:
                    bad += [f'{what}: {p}' for p in read_problems(rec['got'], want[op['score']])]
                if not rec.get('late', True):
                    bad.append(f'{what}: the piece changed afterwards')
                st.hit('read_ok')
            else:
                n, m, where, bit = rec['exc']
                if not (bit or op.get('cut') is not None):
                    bad.append(f'{what}: raised {n[0]}: {m} at {where}')
                if op['src'] == 'from_file' and n[0] != 'KeyboardInterrupt' and 'ValueError' not in n:
                    bad.append(f'{what}: from_file raised {n[0]}')
                st.hit('read_raised')
            if rec['open']:
                bad.append(f'{what}: {rec["open"]} files are still open')
            new = set(rec['tmp']) - set(rec['tmp0'])
            if new and not any(f.endswith(':unlink') or f.startswith('kbint') for f in fired):
                bad.append(f'{what}: left a temporary file behind')
        left = w.disk.tree('in')
        left.pop('shared.mid', None)
        if left != before:
            bad.append('reading changed the input files')
        st.world(w)
        return bad[:4]

    def shrink(self, case):
        rd = case['reads']
        for i in range(len(rd)):
            if len(rd) > 1:
                yield dict(case, reads=rd[:i] + rd[i + 1:])
        for i, op in enumerate(rd):
            if op.get('plan'):
                yield dict(case, reads=rd[:i] + [{k: v for k, v in op.items() if k != 'plan'}] + rd[i + 1:])
        if case['chunk'] != 1 << 20:
            yield dict(case, chunk=1 << 20)
        for c in simplify_scores(case):
            if len(c['scores']) == len(case['scores']) and all(
                    model.instruments(s) and all(i['notes'] for i in model.instruments(s)) for s in c['scores']):
                c['reads'] = [dict(op, cut=min(op['cut'], len(model.smf(c['scores'][op['score']])) - 1))
                              if op.get('cut') is not None else op for op in rd]
                yield c


# ---- C13: signature lookups --------------------------------------------------------------
def client_lookup(d, ncol, ops, schedule, nclients):
    from neural_graph_composer.midi.midi_sequences import MidiNoteSequences
    from neural_graph_composer.midi.midi_time_signature import MidiTempoSignature, MidiTimeSignature
    from neural_graph_composer.midi.midi_key_signature import MidiKeySignature
    cols = [MidiNoteSequences() for _ in range(ncol)]
    log = []
    s = schedmod.Scheduler(schedule, disk=d)

    def one(c, op):
        q = cols[op['col']]
        k = op['kind']
        if op['op'] == 'add':
            t = op['t']
            if k == 'tempo':
                q.add_tempo_signature(MidiTempoSignature(t, op['v'][0], op['v'][1]))
            elif k == 'time':
                q.add_time_signatures(MidiTimeSignature(t, op['v'][0], op['v'][1]))
            else:
                q.add_key_signatures(MidiKeySignature(t, op['v'][0], op['v'][1]))
            return None
        if op['op'] == 'bad':
            if k == 'tempo':
                q.add_tempo_signature(MidiTempoSignature(op['t'], -1.0))
            elif k == 'time':
                q.add_time_signatures(MidiTimeSignature(op['t'], 3, 5))
            else:
                q.add_key_signatures(MidiKeySignature(op['t'], 0, 7))
            return None
        if op['op'] == 'initial':
            return q.initial_tempo()
        if op['op'] == 'list':
            return [[x.midi_time] + ([x.qpm] if k == 'tempo' else [x.numerator, x.denominator] if k == 'time' else
                                     [x.midi_key, x.mode.name])
                    for x in {'tempo': q.slice_tempo_signature, 'time': q.slice_time_signatures,
                              'key': q.slice_key_signatures}[k](*([op['to']] if 'to' in op else []))]
        v = {'tempo': q.tempo_signature, 'time': q.time_signature, 'key': q.key_signature}[k](op['t'])
        if k == 'key':
            return [v[0].name, v[1]]
        return list(v)

    def client(c):
        def go():
            for op in [o for o in ops if o['c'] == c]:
                d.op('call', op['op'], op['kind'])         # the scheduling point between calls
                try:
                    log.append([c, op, 'ok', one(c, op)])
                except Exception as e:
                    log.append([c, op, type(e).__name__, str(e)[:100]])
        return go
    res = s.run([client(c) for c in range(nclients)], procs=['main'] * nclients)
    s.cv = s.threads = s.disk = None
    return [(a, repr(b)) for a, b in res], log, s.switches, s.points


class Lookups:
    """C13"""
    id = 'C13'

    def gen(self, r, i, tier):
        ncol, nc = r.choice([1, 1, 2]), r.choice([1, 2, 3])
        grid = r.choice([[0.0, 0.5, 1.0], [0.0, 1.0, 2.0, 3.0, 4.0], [k * 0.5 for k in range(20)], [0.0, 0.125, 7.25, 1000.0],
                         [0.0] + sorted(round(r.uniform(0.001, 300.0), 6) for _ in range(12)),
                         [0.0, 0.001, 0.0011, 59.999, 60.0, 60.001], [float(k) for k in range(130)]])
        # just before and after a start, as close as the numbers get
        near = [math.nextafter(g, b) for g in grid for b in (0.0, 1e9)] + [g + e for g in grid for e in (-1e-4, 1e-4)]
        near = [t for t in near if t >= 0]
        ops = []
        kinds = r.choice([['tempo', 'time', 'key'], ['tempo', 'time', 'key'], ['tempo'], ['time'], ['key']])
        for _ in range(r.choice([6, 15, 40, 40, 150])):
            k = r.choice(kinds)
            op = {'c': r.randrange(nc), 'col': r.randrange(ncol), 'kind': k}
            x = r.random()
            if x < 0.42:
                op['op'] = 'add'
                op['t'] = r.choice(grid)
                op['v'] = {'tempo': [r.choice([60.0, 90.0, 100.0, 120.0, 150.0, 200.0]), r.choice([96, 220, 480])],
                           'time': [r.choice([2, 3, 4, 5, 6, 7]), r.choice([1, 2, 4, 8])],
                           'key': [r.randrange(12), r.choice([0, 1])]}[k]
            elif x < 0.84:
                op['op'] = 'get'
                op['t'] = r.choice(r.choice([grid, grid + [g + 0.25 for g in grid] + [0.0, 1e6], near]))
            elif x < 0.89:
                op.update(op='bad', t=r.choice(grid))
            elif x < 0.94:
                op.update(op='list')
                if r.random() < 0.5:
                    op['to'] = r.choice(grid + near)
            else:
                op.update(op='initial', kind='tempo')
            ops.append(op)
        return {'ncol': ncol, 'nclients': nc, 'ops': ops, 'seed': r.randrange(1 << 30),
                'schedule': {'seed': r.randrange(1 << 30), 'p': r.choice([0.1, 0.4, 0.8])}}

    def run(self, case, scratch, st):
        w = World(scratch, seed=case['seed'])
        o = w.boot(client_lookup, case['ncol'], case['ops'], case['schedule'], case['nclients'])
        if not o.ok:
            st.note(repr(o))
            st.world(w)
            return [repr(o)]
        res, log, switches, points = o.value
        case['_switches'] = switches
        st.schedule(_Sched(switches, points))
        bad = [f'client {c}: {a} {b}' for c, (a, b) in enumerate(res) if a != 'ok']
        ref = {}
        adds = gets = 0
        for n, (c, op, status, val) in enumerate(log):
            k = op['kind']
            L = ref.setdefault((op['col'], k), {0.0: None})
            what = f'call {n}, {k} of collection {op["col"]}'
            if op['op'] == 'add':
                if status != 'ok':
                    bad.append(f'{what}: adding at {op["t"]} raised {status}: {val}')
                L[op['t']] = op['v']
                adds += 1
                continue
            if op['op'] == 'bad':
                if status == 'ok':
                    bad.append(f'{what}: an invalid signature was accepted')
                continue
            if status != 'ok':
                bad.append(f'{what}: {op["op"]} raised {status}: {val}')
                continue
            if op['op'] == 'get':
                t = max(x for x in L if x <= op['t'])
                v = L[t] if L[t] is not None else DEFAULT[k]
                want = [['MAJOR', 'MINOR'][v[1]], v[0]] if k == 'key' else [int(v[0]), v[1]]
                gets += 1
                st.state(k, len(L), op['t'] in L, t)
                if val != want:
                    bad.append(f'{what}: at {op["t"]} {val}, expected {want} (in effect since {t})')
            elif op['op'] == 'initial':
                v = L[0.0] if L[0.0] is not None else DEFAULT['tempo']
                if val != v[0]:
                    bad.append(f'{what}: initial tempo {val}, expected {v[0]}')
            else:
                ts = [x[0] for x in val]
                if ts != sorted(ts):
                    bad.append(f'{what}: listed out of order {ts}')
                last = {x[0]: x[1:] for x in val}
                to = op.get('to')
                if to is not None and ts and ts[-1] > to:
                    bad.append(f'{what}: the list up to {to} has a signature at {ts[-1]}')
                for t, v in L.items():
                    if to is not None and t > to:
                        continue
                    v = v if v is not None else DEFAULT[k]
                    want = [v[0], ['MAJOR', 'MINOR'][v[1]]] if k == 'key' else v if k == 'time' else v[:1]
                    if last.get(t) != want:
                        bad.append(f'{what}: the list has {last.get(t)} at {t}, expected {want}')
        if adds and gets:
            st.nontrivial = 1
        st.note(log)
        st.world(w)
        return bad[:4]

    def shrink(self, case):
        sw = case.pop('_switches', None)
        ops = case['ops']
        size = len(ops) // 2
        while size >= 1:
            for a in range(0, len(ops), size):
                yield dict(case, ops=ops[:a] + ops[a + size:])
            size //= 2
        if case['nclients'] > 1:
            yield dict(case, nclients=1, ops=[dict(o, c=0) for o in ops])
        if 'explicit' not in case['schedule'] and sw is not None:
            yield dict(case, schedule={'explicit': sw})


DEFAULT = {'tempo': [120.0, 480], 'time': [4, 4], 'key': [0, 0]}
