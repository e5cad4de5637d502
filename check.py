#!/usr/bin/env python3
"""check.py --property ID [--replay FILE]

Runs the simulated search of one property against /repo's working tree.
Exit 0: held on everything explored.  Exit 1: a VIOLATION line was printed.
Exit 2: the check itself failed.
"""
import argparse
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
PY = os.environ.get('NGC_PYTHON', '/opt/venv/bin/python')
REPO = os.environ.get('NGC_REPO', '/repo')
SLOTS = 8
now = time.monotonic


def slot_hashseed(seed, k):
    return (seed * 1009 + k * 7919 + 1) % 4294967295


def env_for(hashseed):
    e = {k: v for k, v in os.environ.items() if k in ('PATH', 'HOME', 'LANG', 'LC_ALL', 'TMPDIR')}
    e.update(PYTHONHASHSEED=str(hashseed), PYTHONDONTWRITEBYTECODE='1', CUDA_VISIBLE_DEVICES='',
             OMP_NUM_THREADS='1', MKL_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MPLBACKEND='Agg',
             WANDB_MODE='offline', NGC_REPO=REPO, PYTHONPATH=HERE, TZ='UTC')
    return e


class Job:
    def __init__(self, base, name, hashseed, **job):
        self.out = os.path.join(base, name + '.json')
        self.err = os.path.join(base, name + '.err')
        self.scratch = os.path.join(base, name)
        job.update(out=self.out, scratch=self.scratch)
        self.job = job
        self.p = subprocess.Popen([PY, '-W', 'ignore', '-m', 'sim.worker'], stdin=subprocess.PIPE,
                                  stdout=subprocess.DEVNULL, stderr=open(self.err, 'wb'),
                                  cwd=HERE, env=env_for(hashseed), start_new_session=True)
        self.p.stdin.write(json.dumps(job).encode())
        self.p.stdin.close()

    def wait(self, limit):
        try:
            self.p.wait(max(0.1, limit))
        except subprocess.TimeoutExpired:
            pass
        timed_out = self.p.poll() is None
        self.end()
        if os.path.exists(self.out):
            with open(self.out) as f:
                return json.load(f)
        with open(self.err, 'rb') as f:
            tail = f.read()[-2000:].decode(errors='replace')
        return {'error': ('timed out\n' if timed_out else f'ended with {self.p.returncode}\n') + tail}

    def end(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        self.p.wait()


def head():
    try:
        return subprocess.run(['git', '-C', REPO, 'describe', '--always', '--dirty'], capture_output=True,
                              text=True, timeout=20).stdout.strip()
    except Exception:
        return ''


def do_replay(pid, path, base):
    with open(path) as f:
        rec = json.load(f)
    r = Job(base, 'replay', rec['hashseed'], do='replay', property=pid, case=rec['case']).wait(300)
    return rec, r


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--property')
    ap.add_argument('--selftest', action='store_true')
    ap.add_argument('--replay')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--runs', type=int)
    ap.add_argument('--out', default=os.path.join(HERE, 'evidence'))
    a = ap.parse_args()
    from sim.registry import PROPS, THOROUGH, LEVEL
    from sim import meta
    pid = 'C04' if a.selftest else a.property
    if pid not in PROPS:
        ap.error(f'unknown property {pid}')
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = now()
    base = tempfile.mkdtemp(prefix=f'ngc-{pid}-')
    jobs = []
    try:
        if a.selftest:
            # the simulator runs here: one case, twice, with the same trace
            out = [Job(base, f't{k}', 5, do='again', property=pid, seed=1, tier='quick', cases=[0, 1]).wait(300) for k in (0, 1)]
            print(out[0])
            return 0 if out[0] == out[1] and 'error' not in out[0] else 2
        if a.replay:
            rec, r = do_replay(pid, a.replay, base)
            if 'error' in r:
                print(r['error'], file=sys.stderr)
                return 2
            for v in r['violations']:
                print('  ' + v)
            if r['violations']:
                print(f'VIOLATION property={pid} replay={a.replay}')
                return 1
            print('no violation')
            return 0
        os.makedirs(a.out, exist_ok=True)
        n = a.runs or PROPS[pid][2] * (THOROUGH if tier == 'thorough' else 1)
        limit = float(os.environ.get('NGC_LIMIT_S', '640' if tier == 'thorough' else '330'))
        stop = os.path.join(base, 'stop')
        print(f'property {pid} tier {tier} seed {seed}: up to {n} simulated runs of {REPO} ({head()})', flush=True)
        for k in range(SLOTS):
            jobs.append(Job(base, f's{k}', slot_hashseed(seed, k), do='search', property=pid, seed=seed, tier=tier,
                            start=k, step=SLOTS, n=n, limit=limit, stop=stop))
        res = [j.wait(limit + 130 - (now() - t0)) for j in jobs]
        errors = [(k, r['error']) for k, r in enumerate(res) if 'error' in r]
        from sim.stats import Stats
        total = Stats()
        for r in res:
            if 'stats' in r:
                total.merge(r['stats'])
        founds = sorted(((r['found']['i'], k) for k, r in enumerate(res) if r.get('found')))
        search_s = now() - t0
        # determinism: a part of the runs again, in fresh processes
        redo, differ, redone = [], [], 0
        if not founds and not errors:
            for k in range(SLOTS):
                mine = sorted((int(i) for i in res[k]['digests']))[:3 if tier == 'quick' else 12]
                redo.append(Job(base, f'd{k}', slot_hashseed(seed, k), do='again', property=pid, seed=seed, tier=tier,
                                cases=mine))
            for k, j in enumerate(redo):
                r = j.wait(120)
                if 'error' in r:
                    errors.append((k, r['error']))
                    continue
                for i, d in r['digests'].items():
                    redone += 1
                    if d != res[k]['digests'][i]:
                        differ.append(int(i))
                    if d[1]:
                        founds.append((int(i), k))
        violation = None
        if founds:
            violation = report(pid, seed, tier, a.out, base, res, founds)
        write_evidence(a.out, pid, tier, seed, n, total, search_s, now() - t0, differ, redone, violation, LEVEL, meta)
        if violation:
            for v in violation['violations'][:5]:
                print('  ' + v)
            print(f'VIOLATION property={pid} replay={violation["path"]}')
            return 1
        for k, e in errors:
            print(f'worker {k}: {e}', file=sys.stderr)
        if founds:
            print('a violation was seen but did not reproduce in a fresh process', file=sys.stderr)
            return 2
        if errors:
            return 2
        if differ:
            print(f'note: {len(differ)} of {redone} repeated runs left another trace', file=sys.stderr)
        if tier == 'quick' and total.runs < n // 4:
            print(f'only {total.runs} of {n} runs were done in time', file=sys.stderr)
            return 2
        print(f'held in {total.runs} runs, {total.boots} simulated processes, {total.ops} operations, '
              f'{sum(total.fired.values())} injected faults, {len(total.states)} states, {now() - t0:.0f} s')
        return 0
    finally:
        for j in jobs:
            j.end()
        shutil.rmtree(base, ignore_errors=True)


def report(pid, seed, tier, out, base, res, founds):
    """Minimise, write the replay file, and replay it in a fresh process."""
    for n, (i, k) in enumerate(founds[:3]):
        hs = slot_hashseed(seed, k)
        f = res[k].get('found')
        if f is None or f['i'] != i:
            continue
        m = Job(base, f'm{n}', hs, do='minimise', property=pid, case=f['case'], limit=100).wait(220)
        cands = []
        if m.get('case'):
            cands.append((m['case'], m['violations']))
        cands.append(({a: b for a, b in f['case'].items() if a != '_switches'}, f['violations']))
        for c, v in cands:
            path = os.path.join(out, f'{pid}-replay-{tier}-{seed}.json')
            rec = {'property': pid, 'hashseed': hs, 'seed': seed, 'tier': tier, 'index': i, 'code': head(),
                   'violations': v, 'minimised': {'tried': m.get('tried'), 'kept': m.get('kept')}, 'case': c}
            with open(path, 'w') as fh:
                json.dump(rec, fh, indent=1)
            _, r = do_replay(pid, path, base)
            if r.get('violations'):
                rec['violations'] = r['violations']
                rec['trace'] = r.get('trace')
                with open(path, 'w') as fh:
                    json.dump(rec, fh, indent=1)
                return {'path': path, 'violations': r['violations']}
    return None


def write_evidence(out, pid, tier, seed, n, st, search_s, wall, differ, redone, violation, level, meta):
    hours = max(search_s, 1e-6) / 3600
    m = meta.META.get(pid, {})
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': level,
        'coverage': {
            'evaluations': st.runs, 'distinct_nontrivial': min(st.nontrivial, len(st.cases)),
            'rule': m.get('rule', ''), 'samples': st.samples[:3],
            'planned_runs': n, 'runs_per_hour': round(st.runs / hours), 'seeds_per_hour': round(st.runs / hours),
            'simulated_processes': st.boots, 'simulated_operations': st.ops,
            'simulated_seconds': round(st.sim_time, 3),
            'operations_by_class': dict(sorted(st.op_classes.items())),
            'faults_injected': sum(st.fired.values()), 'faults_by_kind_and_operation': dict(sorted(st.fired.items())),
            'distinct_states': len(st.states), 'state_measure': m.get('state', ''),
            'distinct_schedules': len(st.schedules), 'context_switches': st.switches,
            'scheduling_points': dict(sorted(st.points.items())),
            'probes': dict(sorted(st.probes.items())),
            'writes_past_the_seam': st.bypass,
            'runs_repeated_in_a_fresh_process': redone, 'repeated_runs_that_differed': len(differ),
            'real_code': m.get('real', meta.REAL), 'stubs': m.get('stubs', meta.STUBS),
        },
        'assumptions': m.get('assumptions', meta.ASSUMPTIONS),
        'wall_s': round(wall, 1), 'violations': 1 if violation else 0,
    }
    path = os.path.join(out, f'{pid}.json')
    with open(path + '.part', 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(path + '.part', path)


if __name__ == '__main__':
    sys.exit(main())
