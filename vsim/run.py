"""Driver: `python -m vsim.run C01 [--tier T] [--runs N] [--workers W]`.

exit 0: the property held on every run;  exit 1 and a VIOLATION line: it is
broken;  any other exit: an error of the machinery.
"""
import argparse
import collections
import importlib.util
import json
import os
import queue
import shutil
import subprocess
import sys
import tempfile
import threading
import time

from . import core

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = os.environ.get('VSIM_PYTHON', '/opt/venv/bin/python')


def load_meta(prop):
    """RUNS/BATCH/... without importing the code under test."""
    path = os.path.join(VERIF, 'vsim', 'props', prop.lower() + '.py')
    meta = dict()
    import ast
    with open(path) as f:
        tree = ast.parse(f.read())
    for node in tree.body:
        if isinstance(node, ast.Assign) and len(node.targets) == 1:
            name = getattr(node.targets[0], 'id', '')
            if name.isupper():
                try:
                    meta[name] = ast.literal_eval(node.value)
                except ValueError:
                    pass
    return meta


class Worker:
    def __init__(self, prop, hashseed, scratch):
        self.dir = tempfile.mkdtemp(prefix='w', dir=scratch)
        env = dict(os.environ)
        env.update(
            PYTHONHASHSEED=str(hashseed), PYTHONDONTWRITEBYTECODE='1',
            MPLBACKEND='Agg', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
            MKL_NUM_THREADS='1', PYTHONPATH=VERIF, TMPDIR=self.dir,
            MPLCONFIGDIR=self.dir, HOME=self.dir,
            PATH='/opt/venv/bin:/usr/local/bin:/usr/bin:/bin')
        self.p = subprocess.Popen(
            [PY, '-m', 'vsim.worker', prop], cwd=self.dir, env=env,
            stdin=subprocess.PIPE, stdout=subprocess.PIPE,
            stderr=None if os.environ.get('VSIM_STDERR') else
            subprocess.DEVNULL, text=True)
        line = self._readline()
        if not line:
            raise core.HarnessError('worker died during start')
        r = json.loads(line)
        if 'fatal' in r:
            self.close()
            raise core.HarnessError('import failed:\n' + r['fatal'])

    def _readline(self):
        return self.p.stdout.readline()

    def ask(self, **q):
        try:
            self.p.stdin.write(json.dumps(q) + '\n')
            self.p.stdin.flush()
            line = self._readline()
        except BrokenPipeError:
            line = ''
        if not line:
            rc = self.p.wait()
            return dict(died=rc)
        return json.loads(line)

    def close(self):
        try:
            self.p.stdin.close()
        except Exception:
            pass
        try:
            self.p.wait(timeout=5)
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.wait()
        shutil.rmtree(self.dir, ignore_errors=True)


def load_findings():
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return json.load(f)['findings']


def is_known(prop, vio, findings):
    for f in findings:
        if (f['property'] == prop and f.get('kind') == vio['kind'] and
                f.get('contains', '') in vio['msg']):
            return f
    return None


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int,
                    default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--runs', type=int)
    ap.add_argument('--workers', type=int, default=8)
    ap.add_argument('--replay')
    ap.add_argument('--selftest', type=int, default=0)
    ap.add_argument('--no-evidence', action='store_true')
    ap.add_argument('--keep-going', action='store_true')
    a = ap.parse_args(argv)
    scratch = tempfile.mkdtemp(prefix='vsim-')
    try:
        if a.replay:
            return replay(a, scratch)
        if a.selftest:
            return selftest(a, scratch)
        return check(a, scratch)
    except core.HarnessError as e:
        print(f'HARNESS-ERROR property={a.prop}\n{e}', flush=True)
        return 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def plan(prop, seed, tier, runs):
    meta = load_meta(prop)
    n = runs or meta['RUNS'][tier]
    nb = meta.get('BATCHES', {}).get(tier, 16 if tier == 'quick' else 64)
    nb = max(1, min(nb, n))
    size = -(-n // nb)
    batches = list()
    i = 0
    b = 0
    while i < n:
        batches.append((
            b, core.seed_int(seed, prop, 'hash', b) % (2**32 - 1),
            list(range(i, min(n, i + size)))))
        i += size
        b += 1
    return meta, n, batches


def run_batches(prop, seed, tier, batches, workers, scratch, stop_event,
                deadline, on_result):
    q = queue.Queue()
    for b in batches:
        q.put(b)
    errors = list()

    def loop():
        while not stop_event.is_set():
            try:
                b, hs, idx = q.get_nowait()
            except queue.Empty:
                return
            if time.monotonic() > deadline:
                return
            try:
                w = Worker(prop, hs, scratch)
            except core.HarnessError as e:
                errors.append(str(e))
                stop_event.set()
                return
            try:
                for i in idx:
                    if stop_event.is_set() or time.monotonic() > deadline:
                        break
                    s = core.seed_int(seed, prop, i)
                    r = w.ask(op='run', seed=s, tier=tier)
                    r.update(index=i, hashseed=hs, batch=b, first=idx[0])
                    if 'died' in r:
                        r['error'] = f'worker died, rc={r["died"]}, run {i}'
                        errors.append(r['error'])
                        stop_event.set()
                        break
                    on_result(r)
            finally:
                w.close()

    ts = [threading.Thread(target=loop, daemon=True) for _ in range(workers)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    return errors


def check(a, scratch):
    prop, tier = a.prop, a.tier
    t0 = time.monotonic()
    meta, n, batches = plan(prop, a.seed, tier, a.runs)
    cap = float(os.environ.get('VSIM_CAP', '0')) or meta.get(
        'CAP', {}).get(tier, 420 if tier == 'quick' else 3 * 3600)
    print(f'property={prop} tier={tier} VERIF_SEED={a.seed} runs={n} '
          f'batches={len(batches)} workers={a.workers}', flush=True)
    findings = load_findings()
    results = list()
    vios = list()
    known = dict()
    harness = list()
    lock = threading.Lock()
    stop = threading.Event()

    def on_result(r):
        with lock:
            results.append(r)
            if r.get('error'):
                harness.append(r)
                if len(harness) > 5:
                    stop.set()
            v = r.get('violation')
            if v:
                f = is_known(prop, v, findings)
                if f:
                    known.setdefault(f['id'], r)
                else:
                    vios.append(r)
                    if not a.keep_going:
                        stop.set()

    errors = run_batches(
        prop, a.seed, tier, batches, a.workers, scratch, stop,
        t0 + cap, on_result)
    status = 0
    for f in findings:
        if f['property'] == prop and f['id'] in known:
            print(f'KNOWN-FINDING: property={prop} {f["what"]}')
    replay_path = None
    if vios:
        vios.sort(key=lambda r: r['index'])
        if a.keep_going:
            c = collections.Counter(
                (r['violation']['kind']) for r in vios)
            print(c)
            seen = set()
            for r in vios:
                if r['violation']['kind'] not in seen:
                    seen.add(r['violation']['kind'])
                    print(r['index'], r['violation']['kind'],
                          r['violation']['msg'][:3000])
        replay_path = report(a, vios[0], scratch, batches)
        print(f'VIOLATION property={prop} replay={replay_path}', flush=True)
        status = 1
    elif errors or harness:
        for e in errors[:3]:
            print('HARNESS-ERROR', e)
        for r in harness[:3]:
            print('HARNESS-ERROR run', r['index'], r['error'])
        status = 2
    elif len(results) < min(n, meta.get('MIN_RUNS', {}).get(tier, n // 10)):
        print(f'HARNESS-ERROR only {len(results)} of {n} runs fit the cap')
        status = 2
    wall = time.monotonic() - t0
    if not a.no_evidence:
        write_evidence(a, meta, results, vios, wall, known)
    done = [r for r in results if not r.get('discarded')]
    print(f'{len(results)} runs ({len(done)} in scope), '
          f'{len(vios)} violations, {wall:.1f} s', flush=True)
    return status


def report(a, r, scratch, batches):
    """Confirm in a fresh process, minimise, write the replay file."""
    prop = a.prop
    os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
    path = os.path.join(
        VERIF, 'replays', f'{prop}-s{a.seed}-r{r["index"]}.json')
    kind = r['violation']['kind']
    doc = dict(
        property=prop, seed=a.seed, index=r['index'], tier=a.tier,
        hashseed=r['hashseed'], kind=kind, prefix=[],
        choices=r['choices'], minimised=False)
    try:
        w = Worker(prop, r['hashseed'], scratch)
        c = w.ask(op='run', choices=r['choices'], tier=a.tier, keep_log=True)
        w.close()
        ok = bool(c.get('violation')) and c['violation']['kind'] == kind
        if ok:
            w = Worker(prop, r['hashseed'], scratch)
            m = w.ask(op='minimise', choices=r['choices'], kind=kind,
                      tier=a.tier, budget=40)
            w.close()
            if m.get('ok'):
                w = Worker(prop, r['hashseed'], scratch)
                c2 = w.ask(op='run', choices=m['choices'], tier=a.tier,
                           keep_log=True)
                w.close()
                v2 = c2.get('violation')
                if v2 and v2['kind'] == kind:
                    c = c2
                    doc.update(choices=m['choices'], minimised=True,
                               shrink_tries=m['tried'],
                               original_choices=len(r['choices']))
        else:
            # depends on earlier runs in the same interpreter
            doc['prefix'] = list(range(r['first'], r['index']))
            c = r
        doc['violation'] = c.get('violation') or r['violation']
        doc['digest'] = c.get('digest')
        doc['trace'] = c.get('events', [])[-400:]
        doc['faults'] = c.get('faults')
    except core.HarnessError as e:
        doc['violation'] = r['violation']
        doc['note'] = str(e)
    with open(path, 'w') as f:
        json.dump(doc, f, indent=1)
    v = doc['violation']
    print(f'violation class: {v["kind"]}\n{v["msg"][:1500]}')
    return path


def replay(a, scratch):
    with open(a.replay) as f:
        doc = json.load(f)
    prop = doc['property']
    w = Worker(prop, doc['hashseed'], scratch)
    for i in doc['prefix']:
        w.ask(op='run', seed=core.seed_int(doc['seed'], prop, i),
              tier=doc['tier'])
    r = w.ask(op='run', choices=doc['choices'], tier=doc['tier'],
              keep_log=True)
    w.close()
    for e in r.get('events', []):
        print(e)
    if r.get('error'):
        print('HARNESS-ERROR', r['error'])
        return 2
    v = r.get('violation')
    if v:
        print(v['kind'], v['msg'])
        same = r['digest'] == doc.get('digest')
        print(f'digest {r["digest"]} same-as-recorded={same}')
        print(f'VIOLATION property={prop} replay={a.replay}')
        return 1
    print('no violation on replay')
    return 0


def selftest(a, scratch):
    """Same seeds, several worker counts and processes: same digests."""
    n = a.selftest
    table = list()
    meta, _, batches = plan(a.prop, a.seed, a.tier, n)
    for workers, order in ((8, 1), (3, -1), (5, 1)):
        got = dict()
        lock = threading.Lock()

        def on_result(r):
            with lock:
                if r.get('error'):
                    print('HARNESS-ERROR', r['error'])
                got[r['index']] = (r['digest'], str(r['violation'])[:60])
        bs = batches[::order]
        err = run_batches(
            a.prop, a.seed, a.tier, bs, workers, scratch,
            threading.Event(), time.monotonic() + 3600, on_result)
        if err:
            print(err)
            return 2
        table.append(got)
    bad = [i for i in table[0]
           if any(t.get(i) != table[0][i] for t in table[1:])]
    # each in a fresh process, without the batch's earlier runs
    alone = 0
    for b, hs, idx in batches[:8]:
        i = idx[-1]
        w = Worker(a.prop, hs, scratch)
        r = w.ask(op='run', seed=core.seed_int(a.seed, a.prop, i),
                  tier=a.tier)
        w.close()
        if r.get('digest') != table[0][i][0]:
            alone += 1
            bad.append(('alone', i))
    print(f'{a.prop}: {len(table[0])} seeds x3, {len(bad)} divergent '
          f'({alone} alone): {bad[:10]}')
    return 1 if bad else 0


def write_evidence(a, meta, results, vios, wall, known):
    done = [r for r in results if not r.get('discarded')]
    faults = collections.Counter()
    probes = collections.Counter()
    states = set()
    comp = dict()
    now = 0.0
    steps = 0
    events = 0
    digests = set()
    nontriv = set()
    for r in done:
        faults.update(r['faults'])
        probes.update(r['probes'])
        states.update(r['states'])
        comp.update(r['components'])
        now += r['now']
        steps += r['steps']
        events += r['n_events']
        digests.add(r['digest'])
        if r['nontrivial']:
            nontriv.add(r['digest'])
    for p in meta.get('PROBES', []):
        probes.setdefault(p, 0)
    samples = [
        dict(index=r['index'], hashseed=r['hashseed'], digest=r['digest'],
             sample=r['sample'])
        for r in sorted(done, key=lambda r: r['index'])
        if r.get('sample') is not None][:3]
    cov = dict(
        evaluations=len(done), distinct_nontrivial=len(nontriv),
        rule=meta.get('RULE', ''), samples=samples or [dict(
            note='no run in scope')],
        discarded_runs=len(results) - len(done),
        seeds_per_hour=round(3600 * len(results) / max(wall, 1e-9)),
        simulated_time=round(now, 3),
        simulated_time_unit=meta.get('TIME_UNIT', 'steps'),
        simulated_steps=steps, events=events,
        faults_injected=dict(sorted(faults.items())),
        probes=dict(sorted(probes.items())),
        distinct_executions=len(digests),
        distinct_states=len(states),
        distinct_states_measure=meta.get('STATE_MEASURE', ''),
        components=comp, hash_seeds=len({r['hashseed'] for r in results}),
        workers=a.workers, known_findings_seen=sorted(known))
    doc = dict(
        property=a.prop, tier=a.tier, seed=a.seed,
        level=meta.get('LEVEL', 'exploration'), coverage=cov,
        assumptions=meta.get('ASSUMPTIONS', []),
        wall_s=round(wall, 2), violations=len(vios))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    path = os.path.join(VERIF, 'evidence', f'{a.prop}.json')
    with open(path + '.tmp', 'w') as f:
        json.dump(doc, f, indent=1)
    os.replace(path + '.tmp', path)


if __name__ == '__main__':
    sys.exit(main())
