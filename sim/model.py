"""Reference model: scores, their MIDI bytes, and the graphs a user should get.

Independent of the repository: the Standard MIDI File bytes are written here and
the graphs are computed from the score with exact rational arithmetic.

score = {'tpb': 480, 'type': 1,
         'tempos': [[tick, us_per_beat], ...],
         'timesigs': [[tick, num, den], ...], 'keysigs': [[tick, sf, minor], ...],
         'tracks': [{'channel': 0, 'program': 0, 'notes': [[on, off, pitch, vel], ...]}, ...],
         'end': tick, 'spell': {...}}
Every score track becomes an SMF track of its own (after a conductor track), or
all of them share one track when 'merge' is set.
"""
import bisect
import random
from fractions import Fraction as F

DRUM = 9
TICK_MARGIN = F(1, 10 ** 6)


class Ambiguous(Exception):
    """The score sits on a rounding boundary; the case is not used."""


# ---- SMF bytes ---------------------------------------------------------------
def _vlq(n):
    out = [n & 0x7f]
    n >>= 7
    while n:
        out.append(0x80 | (n & 0x7f))
        n >>= 7
    return bytes(reversed(out))


def _track(events, running=False):
    """events: [(tick, rank, bytes)]"""
    out = bytearray()
    last = 0
    status = None
    for tick, _, b in sorted(events, key=lambda e: (e[0], e[1])):
        out += _vlq(tick - last) + (b[1:] if running and b[0] == status else b)
        status = b[0] if b[0] < 0xf0 else None
        last = tick
    return b'MTrk' + len(out).to_bytes(4, 'big') + bytes(out)


def end_tick(score):
    e = score.get('end', 0)
    for t in score['tracks']:
        for n in t['notes']:
            e = max(e, n[1], n[0] + 1)
    for k in ('tempos', 'timesigs', 'keysigs'):
        for ev in score.get(k, ()):
            e = max(e, ev[0])
    return e


def smf(score):
    """The file. score['spell'] picks among spellings of the same music: how a note
    ends, running status, the order of simultaneous events, and events that are no
    music (texts, controllers, system exclusive)."""
    sp = score.get('spell') or {}
    end = end_tick(score)
    eot = b'\xff\x2f\x00'
    cond = []
    for tick, us in score.get('tempos', ()):
        cond.append((tick, 0, b'\xff\x51\x03' + us.to_bytes(3, 'big')))
    for tick, num, den in score.get('timesigs', ()):
        cond.append((tick, 0, b'\xff\x58\x04' + bytes([num, den.bit_length() - 1, 24, 8])))
    for tick, sf, minor in score.get('keysigs', ()):
        cond.append((tick, 0, b'\xff\x59\x02' + bytes([sf & 0xff, minor])))
    groups = []
    if score.get('merge'):
        groups.append((cond, score['tracks']))
    else:
        groups.append((cond, []))
        for t in score['tracks']:
            groups.append(([], [t]))
    chunks = []
    on_rank, off_rank = (2, 3) if sp.get('on_first') else (3, 2)
    for base, tracks in groups:
        ev = list(base)
        for t in tracks:
            ch = t['channel']
            if t.get('name'):
                nm = t['name'].encode()
                ev.append((0, 1, b'\xff\x03' + _vlq(len(nm)) + nm))
            if t['program'] or not sp.get('no_zero'):
                ev.append((0, 1, bytes([0xc0 | ch, t['program']])))
            for on, off, pitch, vel in t['notes']:
                ev.append((on, on_rank, bytes([0x90 | ch, pitch, vel])))
                ev.append((off, off_rank, bytes([0x90 | ch, pitch, 0]) if sp.get('end') == 'on0' else
                           bytes([0x80 | ch, pitch, 64 if sp.get('end') == 'vel' else 0])))
        if sp.get('noise') is not None:
            ev += _noise(sp['noise'] + len(chunks), end, sorted({t['channel'] for t in tracks}))
        if sp.get('blob') and not chunks:
            ev.append((0, 0, b'\xff\x01' + _vlq(sp['blob']) + b'x' * sp['blob']))
        ev.append((end, 9, eot))
        chunks.append(_track(ev, sp.get('running')))
    typ = 0 if len(chunks) == 1 and not sp.get('type1') else 1
    return (b'MThd' + (6).to_bytes(4, 'big') + typ.to_bytes(2, 'big') +
            len(chunks).to_bytes(2, 'big') + score['tpb'].to_bytes(2, 'big') + b''.join(chunks))


def _noise(seed, end, channels):
    """Events that change nothing a reader is asked for."""
    r = random.Random(seed)
    out = []
    for _ in range(r.randint(1, 8)):
        tick = r.choice([0, end, r.randrange(end + 1)])
        kind = r.choice(['text', 'lyric', 'marker', 'sysex', 'specific', 'cc', 'bend', 'press', 'poly'])
        if kind in ('cc', 'bend', 'press', 'poly') and not channels:
            kind = 'text'
        c = r.choice(channels) if channels else 0
        body = bytes(r.randrange(32, 127) for _ in range(r.choice([0, 1, 5, 130])))
        if kind in ('text', 'lyric', 'marker', 'specific'):
            typ = {'text': 1, 'lyric': 5, 'marker': 6, 'specific': 0x7f}[kind]
            b = bytes([0xff, typ]) + _vlq(len(body)) + body
        elif kind == 'sysex':
            b = b'\xf0' + _vlq(len(body) + 1) + body + b'\xf7'
        elif kind == 'cc':
            b = bytes([0xb0 | c, r.choice([1, 7, 10, 11, 64]), r.randrange(128)])
        elif kind == 'bend':
            b = bytes([0xe0 | c, r.randrange(128), r.randrange(128)])
        elif kind == 'press':
            b = bytes([0xd0 | c, r.randrange(128)])
        else:
            b = bytes([0xa0 | c, r.randrange(30, 100), r.randrange(128)])
        out.append((tick, r.choice([0, 1, 4]), b))
    return out


def gen_spell(r):
    if r.random() < 0.4:
        return {}
    sp = {'end': r.choice(['off', 'on0', 'on0', 'vel']), 'running': r.random() < 0.5, 'on_first': r.random() < 0.3,
          'no_zero': r.random() < 0.5, 'type1': r.random() < 0.3}
    if r.random() < 0.5:
        sp['noise'] = r.randrange(1 << 20)
    return sp


# ---- times -------------------------------------------------------------------
def tempo_map(score):
    """[(tick, seconds per tick)], the way a type 0/1 file defines it."""
    tpb = score['tpb']
    scales = [(0, F(500000, 10 ** 6 * tpb))]
    for tick, us in sorted(score.get('tempos', ()), key=lambda e: e[0]):
        s = F(us, 10 ** 6 * tpb)
        if tick == 0:
            scales = [(0, s)]
        elif s != scales[-1][1]:
            scales.append((tick, s))
    return scales


def seconds(score):
    scales = tempo_map(score)
    at = [F(0)]
    for (a, s), (b, _) in zip(scales, scales[1:]):
        at.append(at[-1] + (b - a) * s)
    ticks = [a for a, _ in scales]

    def conv(tick):
        i = bisect.bisect_right(ticks, tick) - 1
        return at[i] + (tick - ticks[i]) * scales[i][1]
    return conv


# ---- what the reader should deliver ------------------------------------------
def instruments(score):
    """[{program, channel, drum, notes:[(start, end, pitch, vel)]}] in file order.

    A note ends at its note-off, or at the next onset in its SMF track when that
    comes first (the reader's documented repair of hanging notes)."""
    conv = seconds(score)
    end = end_tick(score)
    groups = [score['tracks']] if score.get('merge') else [[t] for t in score['tracks']]
    out = []
    for tracks in groups:
        ev = []
        k = 0
        on_rank, off_rank = (2, 3) if (score.get('spell') or {}).get('on_first') else (3, 2)
        for t in tracks:
            for on, off, pitch, vel in t['notes']:
                ev.append((off, off_rank, k, 0, t, pitch, 0))
                k += 1
                ev.append((on, on_rank, k, 1, t, pitch, vel))
                k += 1
        # the writer sorts by (tick, rank) and is stable
        ev.sort(key=lambda e: (e[0], e[1]))
        open_ = {}
        found = {}

        def close(key, tick):
            on, vel, t = open_.pop(key)
            ins = found.get((t['program'], t['channel']))
            if ins is None:
                ins = {'program': t['program'], 'channel': t['channel'],
                       'drum': t['channel'] == DRUM, 'notes': []}
                found[(t['program'], t['channel'])] = ins
                out.append(ins)
            ins['notes'].append((conv(on), conv(tick), key[1], vel))

        for tick, rank, _, is_on, t, pitch, vel in ev:
            key = (t['channel'], pitch)
            if is_on:
                for k2 in list(open_):
                    if open_[k2][0] < tick:
                        close(k2, tick)
                open_[key] = (tick, vel, t)
            elif key in open_ and open_[key][0] != tick:
                close(key, tick)
        for k2 in list(open_):
            close(k2, end)
    return out


# ---- graphs ------------------------------------------------------------------
def _percentile95(diffs):
    d = sorted(diffs)
    pos = F(95, 100) * (len(d) - 1)
    lo = int(pos)
    if lo + 1 >= len(d):
        return d[-1]
    return d[lo] + (d[lo + 1] - d[lo]) * (pos - lo)


def groups(notes, filter_single):
    starts = sorted(n[0] for n in notes)
    diffs = [b - a for a, b in zip(starts, starts[1:])]
    tol = _percentile95(diffs) if len(diffs) >= 2 else F(0)
    if 0 < tol < F(1, 50):
        raise Ambiguous('tolerance')
    data = {}
    for n in notes:
        if tol == 0:
            key = n[0]
        else:
            q = n[0] / tol
            fl = q.numerator // q.denominator
            fr = q - fl
            if abs(fr - F(1, 2)) < TICK_MARGIN:
                raise Ambiguous('tie')
            key = fl if fr < F(1, 2) else fl + 1
        data.setdefault(key, []).append(n)
    if filter_single:
        data = {k: v for k, v in data.items() if len(v) > 1}
    return [data[k] for k in sorted(data)]


def rescale(vels):
    if len(vels) == 1:
        v = F(vels[0] * 95, 127) + 32
        fl = v.numerator // v.denominator
        if abs(v - fl - F(1, 2)) < TICK_MARGIN:
            raise Ambiguous('velocity')
        r = fl if v - fl < F(1, 2) else fl + 1
        return [min(127, max(32, r))]
    lo, hi = min(vels), max(vels)
    if lo == hi:
        return [32] * len(vels)
    out = []
    for v in vels:
        x = F((v - lo) * 95, hi - lo) + 32
        fl = x.numerator // x.denominator
        if x != fl and x - fl > 1 - TICK_MARGIN:
            raise Ambiguous('velocity')
        out.append(fl)
    return out


class G:
    """A graph keyed by pitch sets."""

    def __init__(self):
        self.nodes = {}       # pitch set -> {pitch: velocity} or None
        self.edges = {}       # (a, b) -> weight

    def canon(self):
        return (frozenset((p, frozenset(v.items()) if v is not None else None)
                          for p, v in self.nodes.items()),
                frozenset((a, b, w) for (a, b), w in self.edges.items()))


def add_sequence(g, notes, cfg, table=None):
    """One instrument's notes into g. Returns g."""
    last = list(g.nodes)[-1] if g.nodes else None
    size = cfg['feature_vec_size']
    for grp in groups(notes, cfg.get('filter_single_notes', False)):
        whole = frozenset(n[2] for n in grp)
        if len(whole) > size:
            order = list(whole)
            parts = [frozenset(order[i:i + size]) for i in range(0, len(order), size)]
        else:
            parts = [whole]
        for part in parts:
            vel = None
            if cfg.get('include_velocity'):
                best = {}
                for n in grp:
                    if n[2] in part:
                        best[n[2]] = max(best.get(n[2], 0), n[3])
                ps = list(part)
                vel = dict(zip(ps, rescale([best[p] for p in ps])))
            if table is not None and part not in table:
                table[part] = len(table) + 1
            if last is None:
                g.nodes[part] = vel
                g.edges[(part, part)] = 1.0
            elif (part, last) in g.edges:
                g.edges[(part, last)] += 1.0
            elif (last, part) in g.edges:
                g.edges[(last, part)] += 1.0
            else:
                g.nodes[part] = vel
                g.edges[(last, part)] = 1.0
            last = part
    return g


def file_graphs(score, cfg, table=None):
    """(per-instrument graphs, whole-piece graph or None)"""
    per, whole = [], G()
    ins = [i for i in instruments(score) if not i['drum'] and len(i['notes']) != 1]
    for i in ins:
        g = add_sequence(G(), i['notes'], cfg, table)
        if g.nodes:
            per.append(g)
    for i in ins:
        add_sequence(whole, i['notes'], cfg, table)
    return per, (whole if whole.nodes else None)


def dataset(scores, cfg):
    """([per-instrument graphs], [whole-piece graphs]) of the corpus in order."""
    per, whole = [], []
    for s in scores:
        p, w = file_graphs(s, cfg)
        per += p
        if w is not None:
            whole.append(w)
    return per, whole


def key_of_graph(g):
    nodes = sorted(((tuple(sorted(k)), tuple(sorted((p, float(x)) for p, x in v.items())) if v is not None else None)
                    for k, v in g.nodes.items()), key=repr)
    edges = sorted((tuple(sorted(a)), tuple(sorted(b)), w) for (a, b), w in g.edges.items())
    return (tuple(nodes), tuple(edges))


# ---- generation --------------------------------------------------------------
CHORDS = [(0, 4, 7), (0, 3, 7), (0, 5, 9), (0, 4, 7, 11), (0, 7), (0,)]


def _part(r, tpb, n, rich, palette=(1, 5)):
    """Notes of one instrument: steps of random length; per step a chord out of a
    small palette, so that nodes and transitions repeat."""
    step = r.choice([tpb // 4, tpb // 2, tpb])
    base = r.randrange(40, 70)
    pal = []
    for _ in range(r.randint(*palette)):
        root = base + r.randrange(0, 24)
        if rich and r.random() < 0.4:
            k = r.randint(4, 16)
            pal.append(sorted(r.sample(range(30, 100), k)))
        else:
            pal.append([root + i for i in r.choice(CHORDS)])
    notes = []
    tick = r.choice([0, 0, step, r.randrange(0, 2 * tpb)])
    jitter = r.choice([0, 0, max(1, tpb // 60)])
    gaps = r.choice([[1], [1], [1, 2], [1, 1, 3]])
    for _ in range(n):
        chord = r.choice(pal)
        dur = r.choice([step, step // 2, step * 2])
        flat = r.random() < 0.3
        v0 = r.randint(1, 127)
        for p in chord:
            on = tick + (r.randint(0, jitter) if jitter else 0)
            notes.append([on, on + max(1, dur), p, v0 if flat else r.randint(1, 127)])
        tick += step * r.choice(gaps)
        if r.random() < 0.15:
            tick += r.randrange(1, tpb)
    return _clean(notes)


def _clean(notes):
    """No note-on of a pitch while the same pitch already starts on that tick."""
    seen, out = set(), []
    for n in sorted(notes, key=lambda n: n[0]):
        if (n[0], n[2]) in seen:
            continue
        seen.add((n[0], n[2]))
        out.append(n)
    return out


def gen_score(r, opts=None):
    o = {'rich': False, 'max_tracks': 4, 'max_steps': 12, 'tempo_changes': True, 'palette': (1, 5)}
    o.update(opts or {})
    tpb = r.choice([24, 96, 120, 220, 480, 480, 960, 1920, 9600])
    big = r.choice(o.get('scales', ['blob', 'many', 'late', 'late', 'wide'])) if r.random() < o.get('scale', 0.02) else None
    nt = r.randint(1, o['max_tracks'])
    chans = r.sample([0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 11], nt)
    shared = r.random() < o.get('shared', 0.1)
    if shared:
        # tracks that share channels, and more of them than there are channels
        nt = r.randint(2, o.get('many', 20) if o['max_tracks'] > 2 else 4)
        chans = [r.randrange(16) for _ in range(nt)]
    if big == 'wide':
        # an orchestra
        shared, nt, o['max_steps'] = True, r.randint(25, 60), 3
        chans = [r.randrange(16) for _ in range(nt)]
    tracks = []
    for i in range(nt):
        t = {'channel': chans[i], 'program': r.randrange(0, 128),
             'notes': _part(r, tpb, r.randint(1, o['max_steps']), o['rich'], o['palette'])}
        if r.random() < 0.12:
            t['notes'] = t['notes'][:1]      # a single-note track
        if r.random() < 0.15:
            t['channel'] = DRUM
        if r.random() < 0.3:
            t['name'] = r.choice(['Piano', 'Bass', 'Lead'])
        tracks.append(t)
    for t in [t for t in tracks if t['channel'] == DRUM][1:] if not shared else []:     # one drum track at most
        t['channel'] = [c for c in range(9) if c not in [x['channel'] for x in tracks]][0]
    score = {'tpb': tpb, 'tracks': tracks, 'tempos': [], 'timesigs': [], 'keysigs': []}
    end = max([n[1] for t in tracks for n in t['notes']] + [tpb])
    if r.random() < 0.7:
        score['tempos'].append([0, r.randint(250000, 1000000)])
    if o['tempo_changes']:
        for _ in range(r.choice([0, 0, 0, 1, 2])):
            score['tempos'].append([r.randrange(1, end + 1), r.randint(250000, 1000000)])
    score['tempos'].sort(key=lambda e: e[0])
    if r.random() < 0.5:
        score['timesigs'].append([0, r.choice([2, 3, 4, 6]), r.choice([4, 8])])
    if r.random() < 0.3:
        score['keysigs'].append([0, r.choice([0, 1, 2, 253, 254]), r.choice([0, 1])])
    if r.random() < 0.2 and not o.get('no_merge') and not shared:
        score['merge'] = True
    score['end'] = end + r.choice([0, 1, tpb])
    score['spell'] = gen_spell(r)
    if big not in (None, 'wide'):
        _scale(r, score, big)
    return score


def _scale(r, score, kind):
    """Sizes that ordinary pieces do not have."""
    if kind == 'blob':
        # a file of several read buffers
        score['spell']['blob'] = r.choice([66000, 140000])
    elif kind == 'many':
        # more note sets than fit a byte
        t = r.choice([t for t in score['tracks'] if t['channel'] != DRUM] or score['tracks'])
        step = score['tpb'] // 4
        pairs = [[p] for p in range(21, 109)] + [[p, p + k] for k in (3, 4, 7) for p in range(21, 101)]
        r.shuffle(pairs)
        v = r.randint(1, 127)
        t['notes'] = [[i * step, i * step + step // 2, p, v] for i, c in enumerate(pairs[:r.choice([140, 300])]) for p in c]
        score['end'] = max(score['end'], t['notes'][-1][1])
    else:
        # long after the start: delta times of three and four bytes
        by = r.choice([1 << 14, 1 << 17, (1 << 21) + 5])
        for t in score['tracks']:
            t['notes'] = [[a + by, b + by, p, v] for a, b, p, v in t['notes']]
        for k in ('tempos', 'timesigs', 'keysigs'):
            score[k] = [[e[0] + by if e[0] else 0] + e[1:] for e in score[k]]
        score['end'] += by


def good_score(r, cfgs, opts=None, need_melody=True, tries=400):
    """A score without rounding ambiguities under each of the configurations."""
    for _ in range(tries):
        s = gen_score(r, opts)
        if need_melody and not any(i for i in instruments(s)
                                   if not i['drum'] and len(i['notes']) > 1):
            continue
        try:
            for c in cfgs:
                file_graphs(s, c)
        except Ambiguous:
            continue
        return s
    raise RuntimeError('no unambiguous score')
