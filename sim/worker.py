"""A worker interpreter: runs a slice of the cases of one property.

The job arrives as JSON on stdin, the answer goes to job['out'].  Started with a
PYTHONHASHSEED of its own, which is part of what the replay file records.
"""
import gc
import json
import os
import random
import signal
import sys
import time
import traceback

now = time.monotonic


def case_of(P, pid, seed, tier, i):
    return P.gen(random.Random(f'{pid}:{seed}:{tier}:{i}'), i, tier)


def one(P, case, scratch):
    from . import stats
    stats.SCRATCH = scratch
    st = stats.Stats()
    case = json.loads(json.dumps(case))        # what the replay file would hold
    bad = P.run(case, scratch, st)
    st.runs = 1
    if st.nontrivial:
        st.nontrivial = 1
        st.cases.add(stats.h(json.dumps({k: v for k, v in case.items() if k != '_switches'}, sort_keys=True)))
    return case, bad, st


def search(P, job, scratch):
    from . import stats
    total = stats.Stats()
    digests, found = {}, None
    t0 = now()
    for i in range(job['start'], job['n'], job['step']):
        if now() - t0 > job['limit'] or os.path.exists(job['stop']):
            break
        case, bad, st = one(P, case_of(P, job['property'], job['seed'], job['tier'], i), scratch)
        digests[str(i)] = [st.digest.hexdigest(), bool(bad)]
        if len(total.samples) < 1 and st.nontrivial:
            total.samples.append(brief(case))
        st.samples = []
        total.merge(st.dump())
        if bad:
            found = {'i': i, 'case': case, 'violations': bad}
            open(job['stop'], 'w').close()
            break
    return {'stats': total.dump(), 'digests': digests, 'found': found}


def brief(case):
    c = {k: v for k, v in case.items() if k not in ('scores', '_switches')}
    if 'scores' in case:
        c['scores'] = [{'tracks': len(s['tracks']), 'notes': [len(t['notes']) for t in s['tracks']],
                        'tempos': len(s.get('tempos', ()))} for s in case['scores']]
    return c


def again(P, job, scratch):
    """The same cases once more, in another process."""
    out = {}
    for i in job['cases']:
        case, bad, st = one(P, case_of(P, job['property'], job['seed'], job['tier'], i), scratch)
        out[str(i)] = [st.digest.hexdigest(), bool(bad)]
    return {'digests': out}


def minimise(P, job, scratch):
    """Greedy: the first simpler case that still violates the property."""
    t0 = now()
    case = job['case']
    case, bad, _ = one(P, case, scratch)
    if not bad:
        return {'case': None}
    best, tried, kept = (case, bad), 0, 0
    progress = True
    while progress and now() - t0 < job['limit']:
        progress = False
        for cand in P.shrink(dict(best[0])):
            if now() - t0 > job['limit']:
                break
            tried += 1
            try:
                c, b, _ = one(P, cand, scratch)
            except Exception:
                continue               # not a valid case
            if b:
                best, kept, progress = (c, b), kept + 1, True
                break
    return {'case': {k: v for k, v in best[0].items() if k != '_switches'}, 'violations': best[1],
            'tried': tried, 'kept': kept}


def replay(P, job, scratch):
    from . import stats
    stats.KEEP_TRACE = True
    case, bad, st = one(P, job['case'], scratch)
    return {'violations': bad, 'trace': st.trace, 'digest': st.digest.hexdigest()}


def main():
    job = json.load(sys.stdin)
    import faulthandler
    faulthandler.register(signal.SIGUSR1)
    from . import registry, simdisk
    P = registry.load(job['property'])
    gc.collect()
    gc.freeze()
    scratch = job['scratch']
    os.makedirs(scratch, exist_ok=True)
    try:
        out = {'search': search, 'again': again, 'minimise': minimise, 'replay': replay}[job['do']](P, job, scratch)
    except BaseException:
        out = {'error': traceback.format_exc()[-4000:]}
    with simdisk.real['open'](job['out'] + '.part', 'w') as f:
        json.dump(out, f, default=str)
    simdisk.real['os.replace'](job['out'] + '.part', job['out'])
    os._exit(0)


if __name__ == '__main__':
    main()
