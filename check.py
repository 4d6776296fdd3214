#!/usr/bin/env python3
"""Driver: seeded simulation of one property.

    check.py C07                      explore (tier and seed from VERIF_TIER / VERIF_SEED)
    check.py C07 --replay FILE        execute one recorded run again

Exit 0: the property held on everything explored.  Exit 1: a violation, with a
VIOLATION line and a minimised replay file.  Exit 2: the check could not decide.
"""
import argparse
import collections
import hashlib
import importlib
import json
import os
import queue
import random
import subprocess
import sys
import tempfile
import threading
import time
import shutil

HERE = os.path.dirname(os.path.abspath(__file__))
PYTHON = '/opt/vp/venv/bin/python'
if __name__ == '__main__' and sys.prefix != os.path.dirname(os.path.dirname(PYTHON)) and os.path.exists(PYTHON):
    os.environ.pop('PYTHONPATH', None)
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    os.execv(PYTHON, [PYTHON] + sys.argv)
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, 'sim'))
import build as simbuild  # noqa: E402

NW = int(os.environ.get('VERIF_WORKERS', '8'))
SCRATCH = None


class Worker:
    def __init__(self, name, hs, nat, path):
        e = simbuild.clean_env()
        e.update(PYTHONPATH=':'.join(path), LD_PRELOAD=f'{nat}/libsimio.so', SIM_NATIVE=nat,
                 PYTHONHASHSEED=str(hs), OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1',
                 NUMEXPR_NUM_THREADS='1', NUMEXPR_MAX_THREADS='1', OMP_NUM_THREADS='4',
                 MPLBACKEND='Agg', MPLCONFIGDIR=SCRATCH + '/mpl', HOME=SCRATCH, TMPDIR=SCRATCH,
                 SIM_SCRATCH=SCRATCH, HDF5_USE_FILE_LOCKING='TRUE', TZ='UTC',
                 SIM_PARTS=json.dumps(getattr(simbuild, 'DIRS', {})))
        self.hs = hs
        cmd = [simbuild.PY, '-W', 'ignore', os.path.join(HERE, 'sim', 'host.py'), name]
        if NOASLR:
            cmd = ['setarch', os.uname().machine, '-R'] + cmd
        self.p = subprocess.Popen(cmd, env=e, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=open(SCRATCH + f'/worker{hs}.err', 'ab'), text=True, cwd=SCRATCH)
        self.ready = None

    def hello(self):
        line = self.p.stdout.readline()
        if not line:
            raise RuntimeError('worker did not start: ' + tail(SCRATCH + f'/worker{self.hs}.err'))
        d = json.loads(line)
        if not d['ready']:
            raise RuntimeError('worker could not load the code under test:\n' + d['error'])
        self.ready = True

    def run(self, spec):
        try:
            self.p.stdin.write(json.dumps({'id': 0, 'spec': spec}) + '\n')
            self.p.stdin.flush()
            line = self.p.stdout.readline()
        except BrokenPipeError:
            line = ''
        if not line:
            return {'error': 'worker died: ' + tail(SCRATCH + f'/worker{self.hs}.err')}
        return json.loads(line)

    def close(self):
        try:
            self.p.kill()
            self.p.wait()
        except Exception:
            pass


def tail(p):
    try:
        return open(p).read()[-3000:]
    except OSError:
        return ''


def detect_noaslr():
    try:
        return subprocess.run(['setarch', os.uname().machine, '-R', '/bin/true'],
                              capture_output=True).returncode == 0
    except OSError:
        return False


NOASLR = detect_noaslr()


def fresh_run(name, spec, nat, path):
    w = Worker(name, spec.get('hs', 0), nat, path)
    try:
        w.hello()
        return w.run(spec)
    finally:
        w.close()


class Pool:
    """One worker per hash seed; job i always runs on worker i mod NW."""

    def __init__(self, name, nat, path, n=NW):
        self.name, self.nat, self.path = name, nat, path
        self.ws = [Worker(name, k, nat, path) for k in range(n)]
        err = None
        for w in self.ws:
            try:
                w.hello()
            except RuntimeError as e:
                err = err or e
        if err:
            self.close()
            raise err

    def map(self, specs, deadline=None, stop=None):
        """Run specs (each carries 'hs'); yields (index, result) as they come."""
        out = queue.Queue()
        byw = collections.defaultdict(list)
        for i, s in enumerate(specs):
            byw[s['hs'] % len(self.ws)].append((i, s))
        flag = threading.Event()

        def go(w, jobs):
            for i, s in jobs:
                if flag.is_set() or (deadline and time.monotonic() > deadline):
                    break
                out.put((i, w.run(s)))
            out.put(None)
        ts = [threading.Thread(target=go, args=(self.ws[k], j), daemon=True) for k, j in byw.items()]
        for t in ts:
            t.start()
        left = len(ts)
        while left:
            r = out.get()
            if r is None:
                left -= 1
                continue
            yield r
            if stop and stop(r):
                flag.set()
        for t in ts:
            t.join()

    def close(self):
        for w in self.ws:
            w.close()


def known_findings():
    """known_findings.json: list of {property, signature, what, spec?}."""
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return json.load(open(p))


def sig_of(v):
    return v.get('sig') or v['class']


def sha(o):
    return hashlib.sha256(json.dumps(o, sort_keys=True).encode()).hexdigest()[:16]


def fail(msg):
    print('CHECK-ERROR ' + msg, flush=True)
    return 2


def minimise(pool, mod, spec, viol, budget):
    """Greedy: take the first simpler spec that fails in the same class."""
    t0 = time.monotonic()
    cur, curv, tried = spec, viol, 0
    while time.monotonic() - t0 < budget:
        cand = []
        seen = {json.dumps(cur, sort_keys=True)}
        for c in mod.shrink(json.loads(json.dumps(cur))):
            k = json.dumps(c, sort_keys=True)
            if k not in seen:
                seen.add(k)
                cand.append(c)
        if not cand:
            break
        best = None
        # candidates keep the hash seed, so spread them over fresh copies is not
        # possible; run them in order on the worker that owns the seed
        for c in cand:
            if time.monotonic() - t0 > budget:
                break
            tried += 1
            r = pool.ws[c['hs'] % len(pool.ws)].run(c)
            v = r.get('viol')
            if v and sig_of(v) == sig_of(curv):
                best = (c, v)
                break
        if not best:
            break
        cur, curv = best
    return cur, curv, tried


def main():
    global SCRATCH
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or '1'))
    ap.add_argument('--replay')
    ap.add_argument('--runs', type=int)
    ap.add_argument('--determinism', type=int, default=0,
                    help='run this many seeds several times on different workers and diff')
    a = ap.parse_args()
    t_start = time.monotonic()
    name = a.prop.lower()
    mod = importlib.import_module('props.' + name)
    SCRATCH = tempfile.mkdtemp(prefix='aecheck.')
    try:
        return go(a, name, mod, t_start)
    finally:
        shutil.rmtree(SCRATCH, ignore_errors=True)


def go(a, name, mod, t_start):
    prop = a.prop.upper()
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    print(f'{prop} seed={a.seed} tier={tier}', flush=True)
    try:
        nat, path, dirs = simbuild.build(mod.PARTS)
    except simbuild.BuildError as e:
        return fail('the instrumented build of /repo failed: ' + str(e)[-3000:])
    simbuild.DIRS = dirs
    t_build = time.monotonic() - t_start

    if a.replay:
        rec = json.load(open(a.replay))
        r = fresh_run(name, rec['spec'], nat, path)
        if 'error' in r:
            return fail('replay: ' + r['error'])
        v = r.get('viol')
        print(json.dumps({k: r[k] for k in ('viol', 'digest', 'stats', 'log') if k in r}, indent=1))
        if v:
            same = 'exactly' if r['digest'] == rec.get('digest') and sig_of(v) == rec.get('signature') else 'differently'
            print(f'reproduced {same}')
            print(f'VIOLATION property={prop} replay={a.replay}')
            return 1
        print('the recorded run satisfies the property on this tree')
        return 0

    mod.SEED = a.seed
    n = a.runs or mod.RUNS[tier]
    cap = mod.CAP[tier] if hasattr(mod, 'CAP') else {'quick': 240, 'thorough': 3000}[tier]
    specs = []
    for i in range(n):
        s = mod.gen(random.Random(f'{a.seed}/{prop}/{i}'), tier, i)
        s['hs'] = i % NW
        s['i'] = i
        specs.append(s)
    # regressions: the minimised specs of earlier genuine findings, always run
    reg = os.path.join(HERE, 'regress', prop + '.json')
    if os.path.exists(reg):
        for s in json.load(open(reg)):
            s.setdefault('hs', 0)
            s['i'] = -1
            specs.insert(0, s)
    try:
        pool = Pool(name, nat, path)
    except RuntimeError as e:
        return fail(str(e)[-4000:])
    try:
        return explore(a, name, mod, prop, tier, specs, pool, nat, path, cap, t_start, t_build)
    finally:
        pool.close()


def explore(a, name, mod, prop, tier, specs, pool, nat, path, cap, t_start, t_build):
    known = [k for k in known_findings() if k.get('property') == prop and k.get('kind') != 'fixed']
    t0 = time.monotonic()
    stats = collections.Counter()
    sigs, inters, states = set(), set(), set()
    nrun = nontriv = errors = 0
    simns = 0
    samples, viols, errs, seen_known = [], [], [], {}
    digests = {}
    walls = 0.0

    if a.determinism:
        return determinism(a, specs, nat, path, name)

    def is_known(v):
        for k in known:
            if k['signature'] == sig_of(v):
                return k
        return None

    def stop(r):
        v = r[1].get('viol')
        if v and not is_known(v):
            return True
        return 'error' in r[1]

    for i, r in pool.map(specs, deadline=t0 + cap, stop=stop):
        if 'error' in r:
            errs.append((i, r['error']))
            continue
        nrun += 1
        walls += r['wall']
        digests[i] = r['digest']
        for k, v in r.get('stats', {}).items():
            stats[k] += v
        simns += r.get('sim_ns', 0)
        for x in r.get('inter', ()):
            inters.add(x)
        for x in r.get('states', ()):
            states.add(x)
        if r.get('nontrivial', True):
            sg = r.get('sig') or r['digest']
            if sg not in sigs:
                sigs.add(sg)
                if len(samples) < 3:
                    samples.append({'spec': trim(specs[i]), 'observed': r.get('note', ''), 'digest': r['digest']})
        v = r.get('viol')
        if v:
            k = is_known(v)
            if k:
                seen_known.setdefault(k['signature'], k)
            else:
                viols.append((i, v, r['digest']))
    wall = time.monotonic() - t0

    for k in seen_known.values():
        print(f'KNOWN-FINDING: property={prop} {k["what"]}', flush=True)

    # repeat a sample of seeds on a different worker: one seed, one execution
    rep_n = rep_bad = 0
    if not viols and not errs:
        idx = [i for i in sorted(digests) if i % max(1, len(specs) // 16) == 0][:16]
        again = []
        for i in idx:
            s = dict(specs[i])
            again.append(s)
        shift = [dict(s, hs=s['hs']) for s in again]
        for j, r in pool.map(shift, deadline=time.monotonic() + 60):
            if 'error' in r:
                continue
            rep_n += 1
            if r['digest'] != digests[idx[j]]:
                rep_bad += 1
                print(f'NOTE run {idx[j]} did not repeat: {digests[idx[j]]} then {r["digest"]}', flush=True)

    rc = 0
    if viols:
        rc = report(a, name, mod, prop, tier, specs, viols, pool, nat, path)
    elif errs:
        rc = fail(f'run {errs[0][0]}: {errs[0][1][-3000:]}')

    perh = 3600.0 / wall if wall > 0 else 0
    faults = {k[6:]: v for k, v in sorted(stats.items()) if k.startswith('fault:')}
    ev = {
        'property': prop, 'tier': tier, 'seed': a.seed, 'level': 'exploration',
        'coverage': {
            'evaluations': nrun,
            'distinct_nontrivial': len(sigs),
            'rule': mod.RULE,
            'samples': samples,
            'simulated_runs': int(stats.get('sim_runs', nrun)),
            'runs_per_hour': round(stats.get('sim_runs', nrun) * perh),
            'seeds_per_hour': round(nrun * perh),
            'simulated_time_s': round(simns / 1e9, 3),
            'faults_injected': faults,
            'distinct_interleavings': len(inters),
            'interleaving_measure': getattr(mod, 'INTER', 'hash of the sequence of scheduling or fault decisions and the operations they hit'),
            'distinct_states': len(states),
            'probes': {k: v for k, v in sorted(stats.items()) if not k.startswith('fault:')},
            'real_components': mod.REAL, 'stub_components': mod.STUB,
            'repeated_runs': rep_n, 'repeated_runs_that_differed': rep_bad,
            'stopped_by_time_cap': nrun + len(errs) < len(specs) and not viols and not errs,
        },
        'assumptions': getattr(mod, 'ASSUME', []),
        'wall_s': round(time.monotonic() - t_start, 2),
        'violations': 1 if rc == 1 else 0,
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    p = os.path.join(HERE, 'evidence', prop + '.json')
    with open(p + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(p + '.tmp', p)
    zero = [k for k in getattr(mod, 'PROBES', ()) if not stats.get(k)]
    if zero and rc == 0:
        print(f'NOTE probes never hit: {zero}')
    print(f'{prop}: {nrun} seeds, {stats.get("sim_runs", nrun)} simulated runs, {len(sigs)} distinct non-trivial, '
          f'{len(inters)} interleavings, faults {sum(faults.values())}, build {t_build:.1f}s, run {wall:.1f}s, rc={rc}', flush=True)
    return rc


def trim(s):
    t = json.dumps(s)
    return s if len(t) < 4000 else json.loads(json.dumps({'truncated': t[:3500]}))


def report(a, name, mod, prop, tier, specs, viols, pool, nat, path):
    # gate: the same seed again in this worker and in a fresh process; a
    # candidate that does not repeat is never reported
    why = ''
    for i, v, dg in sorted(viols, key=lambda x: x[0])[:5]:
        spec = specs[i]
        print(f'candidate violation {sig_of(v)}: {v["msg"][:600]}', flush=True)
        r1 = pool.ws[spec['hs'] % len(pool.ws)].run(spec)
        r2 = fresh_run(name, spec, nat, path)
        bad = [r for r in (r1, r2) if 'error' in r or not r.get('viol') or sig_of(r['viol']) != sig_of(v)]
        if not bad:
            break
        why = f'the candidate violation did not reproduce: {json.dumps(bad[0])[:1500]}'
    else:
        return fail(why)
    budget = 45 if tier == 'quick' else 240
    m, mv, tried = minimise(pool, mod, spec, v, budget)
    r3 = fresh_run(name, m, nat, path)
    if 'error' in r3 or not r3.get('viol') or sig_of(r3['viol']) != sig_of(mv):
        m = spec
        r3 = fresh_run(name, m, nat, path)
        if 'error' in r3 or not r3.get('viol'):
            return fail(f'the violation did not reproduce in a fresh process: {json.dumps(r3)[:1500]}')
    mv = r3['viol']
    os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
    f = os.path.join(HERE, 'replays', f'{prop}-{a.seed}-{sha(m)}.json')
    with open(f, 'w') as h:
        json.dump({'property': prop, 'seed': a.seed, 'tier': tier, 'signature': sig_of(mv), 'violation': mv,
                   'spec': m, 'digest': r3['digest'], 'trace': r3.get('log', ''), 'found_with': spec,
                   'minimisation_runs': tried,
                   'replay_with': f'check.py {prop} --replay {f}'}, h, indent=1)
    print(f'violation: {mv["class"]}: {mv["msg"][:1500]}')
    print(f'minimised in {tried} runs; repeated identically in a fresh process')
    print(f'VIOLATION property={prop} replay={f}', flush=True)
    return 1


def determinism(a, specs, nat, path, name):
    """Every seed twice, in tens of processes, at two worker counts, under
    other hash seeds; the digests must agree."""
    base, bad = {}, 0
    for n, note in ((8, 'a'), (3, 'b')):
        pool = Pool(name, nat, path, n)
        sp = [dict(s) for s in specs[:a.determinism]]
        for i, r in pool.map(sp):
            d = r.get('digest') or ('ERR ' + r.get('error', '')[-300:])
            if base.setdefault(i, d) != d:
                bad += 1
                print('DIFF', i, base[i], d)
        pool.close()
    print(f'determinism: {len(base)} seeds x2, {bad} differ')
    return 2 if bad else 0


if __name__ == '__main__':
    sys.exit(main())
