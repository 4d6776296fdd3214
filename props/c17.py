"""See DESIGN.md."""
PARTS = {'cpp', 'fnd', 'hist'}
RUNS = {'quick': 160, 'thorough': 6000}
CAP = {'quick': 150, 'thorough': 2400}
SEED = 1
RULE = ('Each seed runs the complete program on one world twice: once plainly, once with another directory order, wall clock, process id, '
        'contents of fresh memory, location of the files, transient faults, and in half of the runs in another interpreter with another '
        'hash seed; every stored quantity and attribute must be the same bits. Non-trivial: always (the two executions differ in all of '
        'these); distinct: by world and operation log.')
INTER = 'hash of the file operations and thread schedule of each run'
PROBES = ('other_hash_seed', 'same_interpreter')


def gen(rng, tier, i):
    import prog
    import runs
    c = prog.pool_cfg(SEED, rng, i, n=2 if tier == 'quick' else 60, tag='c17')
    return {'cfg': c, 'seed': rng.randrange(1 << 30), 'pid': rng.randint(2, 60000), 'peer': rng.random() < 0.5,
            'flags': rng.choice([7, 7, 7, 1, 2, 4]), 'under': rng.choice(['', 'deeper/er', 'M3.00_D2.00', 'x y', 'gyre', 'l2m+2n+9']),
            'plan': runs.soft_plan(rng) if rng.random() < 0.3 else []}


PEER = None


def preload():
    global PEER
    import json
    import os
    import subprocess
    import sys
    import host
    hs = int(os.environ['PYTHONHASHSEED'])
    e = dict(os.environ, PYTHONHASHSEED=str(hs + 1000))
    PEER = subprocess.Popen([sys.executable, '-W', 'ignore', os.path.join(host.HERE, 'host.py'), 'peer'], env=e, stdin=subprocess.PIPE,
                            stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    import prog  # noqa: F401
    import runs
    runs.preload()
    d = json.loads(PEER.stdout.readline() or '{"ready": false, "error": "the second interpreter did not start"}')
    if not d['ready']:
        raise RuntimeError(d['error'])


def _run(spec, c):
    import json
    import prog
    import runs
    from props import peer
    from saves import Bad
    cfg = spec['cfg']
    name, g = prog.good_ref(cfg)
    want = {k: runs.hsh(v) for k, v in g.items()}
    s = {k: spec[k] for k in ('cfg', 'seed', 'pid', 'flags', 'under', 'plan')}
    s['k'] = spec['seed'] % 97
    if spec['peer']:
        PEER.stdin.write(json.dumps({'id': 0, 'spec': s}) + '\n')
        PEER.stdin.flush()
        r = json.loads(PEER.stdout.readline() or '{"error": "the second interpreter died"}')
        if 'error' in r:
            raise RuntimeError(r['error'])
    else:
        r = peer.run(s)
    c.hit('other_hash_seed' if spec['peer'] else 'same_interpreter')
    c.st['sim_runs'] += 1
    c.hit('fs_ops', r['seq'])
    c.simns += r['sim_ns']
    c.inter.append(r['log'])
    c.hit('fault:soft', r['fired'])
    for b, k in ((1, 'directory_order'), (2, 'clock'), (4, 'memory')):
        c.hit('varied_' + k, bool(spec['flags'] & b))
    what = f'same run again ({"another interpreter" if spec["peer"] else "same interpreter"}, flags {spec["flags"]})'
    if r['status'] != 'ok':
        raise Bad('run_fails', f'{what} ended with {r["status"]} {r["exc"]}')
    if sorted(r['files']) != [name]:
        raise Bad('other_files', f'{what} stored {sorted(r["files"])} instead of {name}')
    f = r['files'][name]
    d = [k for k in sorted(set(f) | set(want)) if f.get(k) != want.get(k)]
    if d:
        raise Bad('not_reproducible', f'{what}: different bits in {d[:5]}')
    c.nontriv = True
    c.dig.append(runs.hsh(sorted(f.items())))


def run(spec):
    import prog
    return prog.wrap(_run)(spec)


def shrink(spec):
    import prog
    if spec['peer']:
        yield dict(spec, peer=False)
    if spec['under']:
        yield dict(spec, under='')
    for b in (1, 2, 4):
        if spec['flags'] & b:
            yield dict(spec, flags=spec['flags'] & ~b)
    yield from prog.shrink_common(spec)


from runs import REAL, STUB, ASSUME  # noqa: E402,F401
