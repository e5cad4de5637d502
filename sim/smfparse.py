"""An independent reader of Standard MIDI Files, used as an oracle."""
from . import model


class Bad(Exception):
    pass


def parse(b):
    """bytes -> score dict (see model.py); raises Bad unless it is a whole file."""
    if b[:4] != b'MThd' or len(b) < 14:
        raise Bad('no header')
    n = int.from_bytes(b[4:8], 'big')
    typ, ntr, div = (int.from_bytes(b[8 + 2 * i:10 + 2 * i], 'big') for i in range(3))
    pos = 8 + n
    tracks, tempos, ts, ks = [], [], [], []
    end = 0
    for _ in range(ntr):
        if b[pos:pos + 4] != b'MTrk':
            raise Bad('no track')
        size = int.from_bytes(b[pos + 4:pos + 8], 'big')
        body = b[pos + 8:pos + 8 + size]
        if len(body) != size:
            raise Bad('track cut off')
        pos += 8 + size
        e = _track(body, tracks, tempos, ts, ks)
        end = max(end, e)
    if pos != len(b):
        raise Bad(f'{len(b) - pos} bytes after the last track')
    return {'tpb': div, 'tempos': tempos, 'timesigs': ts, 'keysigs': ks, 'tracks': tracks, 'end': end}


def _track(b, tracks, tempos, ts, ks):
    i = 0
    tick = 0
    status = None
    prog = {}
    open_ = {}
    mine = {}
    ended = False

    def vlq():
        nonlocal i
        v = 0
        while True:
            if i >= len(b):
                raise Bad('number cut off')
            c = b[i]
            i += 1
            v = v << 7 | c & 127
            if not c & 128:
                return v

    def inst(ch):
        k = (ch, prog.get(ch, 0))
        if k not in mine:
            mine[k] = {'channel': ch, 'program': k[1], 'notes': []}
            tracks.append(mine[k])
        return mine[k]

    while i < len(b):
        if ended:
            raise Bad('events after the end of the track')
        tick += vlq()
        c = b[i]
        if c == 0xff:
            typ = b[i + 1]
            i += 2
            n = vlq()
            d = b[i:i + n]
            if len(d) != n:
                raise Bad('meta event cut off')
            i += n
            if typ == 0x2f:
                ended = True
            elif typ == 0x51:
                tempos.append([tick, int.from_bytes(d, 'big')])
            elif typ == 0x58:
                ts.append([tick, d[0], 1 << d[1]])
            elif typ == 0x59:
                ks.append([tick, d[0], d[1]])
            continue
        if c in (0xf0, 0xf7):
            i += 1
            n = vlq()
            i += n
            continue
        if c & 0x80:
            status = c
            i += 1
        elif status is None:
            raise Bad('data without status')
        kind, ch = status & 0xf0, status & 15
        if kind in (0xc0, 0xd0):
            if kind == 0xc0:
                prog[ch] = b[i]
            i += 1
            continue
        p, v = b[i], b[i + 1]
        i += 2
        if kind == 0x90 and v:
            open_.setdefault((ch, p), []).append((tick, v))
        elif kind in (0x80, 0x90):
            if open_.get((ch, p)):
                on, vel = open_[(ch, p)].pop(0)
                inst(ch)['notes'].append([on, tick, p, vel])
    if not ended:
        raise Bad('no end of track')
    if any(open_.values()):
        raise Bad('a note without an end')
    return tick


def content(b):
    """What a listener gets: instruments, tempo, time and key over seconds."""
    s = parse(b)
    conv = model.seconds(s)
    ins = []
    for t in s['tracks']:
        if t['notes']:
            ins.append([t['program'], t['channel'] == 9,
                        sorted([float(conv(n[0])), float(conv(n[1])), n[2], n[3]] for n in t['notes'])])
    return {'instruments': ins, 'tempo': _steps([[float(conv(t)), 6e7 / u] for t, u in s['tempos']], 120.0),
            'time': _steps([[float(conv(t)), (a, c)] for t, a, c in s['timesigs']], (4, 4)),
            'key': _steps([[float(conv(t)), key_of(a, c)] for t, a, c in s['keysigs']], (0, False)),
            'tick': float(max(s for _, s in model.tempo_map(s)))}


def expected(score):
    conv = model.seconds(score)
    ins = [[i['program'], i['drum'], sorted([float(n[0]), float(n[1]), n[2], n[3]] for n in i['notes'])]
           for i in model.instruments(score) if i['notes']]
    return {'instruments': ins, 'tempo': _steps([[float(conv(t)), 6e7 / u] for t, u in score.get('tempos', ())], 120.0),
            'time': _steps([[float(conv(t)), (a, c)] for t, a, c in score.get('timesigs', ())], (4, 4)),
            'key': _steps([[float(conv(t)), key_of(a, c)] for t, a, c in score.get('keysigs', ())], (0, False)),
            'tick': float(max(s for _, s in model.tempo_map(score)))}


def key_of(sf, minor):
    """(pitch class of the tonic, minor)"""
    sf = sf - 256 if sf > 127 else sf
    return ((sf * 7 + (9 if minor else 0)) % 12, bool(minor))


def _steps(ev, default):
    """A step function as [[time, value]] without repetitions."""
    out = [[0.0, default]]
    for t, v in sorted(ev, key=lambda e: e[0]):
        if t <= out[-1][0] + 1e-9:
            out[-1][1] = v
        else:
            out.append([t, v])
        if len(out) > 1 and out[-1][1] == out[-2][1]:
            out.pop()
    return out


def _at(steps, t):
    return [v for u, v in steps if u <= t][-1]


def differences(got, want):
    """Problems of a file's content against the expected one."""
    out = []
    # a note may move to the nearest tick of the collection's own resolution
    # (and by what the whole microseconds of the tempo in a file add up to)
    tol = 0.51 * want['tick'] + 1e-4 + 4.1e-6 * max([n[1] for i in want['instruments'] for n in i[2]], default=0.0)
    a, b = got['instruments'], want['instruments']
    if [(i[0], i[1]) for i in a] != [(i[0], i[1]) for i in b]:
        return [f'instruments {[(i[0], i[1]) for i in a]}, expected {[(i[0], i[1]) for i in b]}']
    for k, (x, y) in enumerate(zip(a, b)):
        out += _notes(k, x[2], y[2], tol)
    # a signature after the last note is not heard
    last = max([n[1] for i in b for n in i[2]], default=0.0) - 2 * tol
    for what in ('time', 'key', 'tempo'):
        # as functions of time, everywhere except around a change
        cuts = sorted({0.0, last} | {e[0] for e in got[what] + want[what] if 0 < e[0] < last})
        for u, v in zip(cuts, cuts[1:]):
            if v - u <= 2.02 * tol:
                continue
            p, q = _at(got[what], (u + v) / 2), _at(want[what], (u + v) / 2)
            # a change of tempo by less than the resolution of a file is none
            if abs(p - q) > 1e-3 * q if what == 'tempo' else p != q:
                out.append(f'{what} {p} at {(u + v) / 2:.3f} s, expected {q} ({got[what]}, expected {want[what]})')
                break
    return out


def _notes(k, x, y, tol):
    if len(x) != len(y):
        return [f'instrument {k} has {len(x)} notes, expected {len(y)}']
    # pair the notes of a pitch in order of time
    key = lambda n: (n[2], n[0])
    for p, q in zip(sorted(x, key=key), sorted(y, key=key)):
        if p[2:] != q[2:] or abs(p[0] - q[0]) > tol or abs(p[1] - q[1]) > tol:
            return [f'instrument {k}: note {p}, expected {q}']
    return []
