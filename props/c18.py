"""See DESIGN.md."""
PARTS = {'cpp', 'fnd', 'hist'}
RUNS = {'quick': 100, 'thorough': 7000}
CAP = {'quick': 150, 'thorough': 2400}
SEED = 1
RULE = ('Each seed is a history of two to five complete solver runs of two configurations under two save names in one output directory. Every run but the '
        'last may crash at any file operation, meet I/O errors or a full disk, be refused because an input is missing for the time being, or be '
        'followed by a power cut. After each one, every result file holds its earlier or the complete new results; the last run meets no fault, so it '
        'must finish and store exactly what it stores in an empty directory. Non-trivial: a fault fired or power was cut; distinct: by history and operation log.')
INTER = 'hash of the file operations of each run with the faults that hit them, and of each state left by a power cut'
PROBES = ('recovered', 'left_old', 'left_new', 'left_none', 'refused', 'fault:power_loss')


def gen(rng, tier, i):
    import prog
    import runs
    c = prog.pool_cfg(SEED, rng, i, n=2 if tier == 'quick' else 60, tag='c18', most=2)
    steps = []
    for k in range(rng.choice([1, 1, 2, 2, 3, 4])):
        s = dict(seed=rng.randrange(1 << 30), b=rng.random() < 0.5, name=rng.choice(['results', 'results', 'r']), plan=[], budget=-1)
        x = rng.random()
        if x < 0.35:
            s['plan'] = runs.crash_plan(rng, 1, rng.choice([2, 5, 12]))
        elif x < 0.55:
            for _ in range(rng.choice([1, 1, 2])):
                s['plan'].append(runs.rule(rng.choice(['read', 'openr', 'openw', 'write', 'fsync', 'close', 'rename', 'mkdir', 'unlink', 'opendir', 'stat', 'trunc']),
                                           'err', arg=rng.choice([5, 28, 13]), nth=rng.randint(1, rng.choice([1, 3, 40])), count=rng.choice([1, 1, 100000])))
        elif x < 0.65:
            s['budget'] = rng.choice([0, 1, 100, 5000, 20000])
        elif x < 0.8:
            s['power'] = rng.randrange(1 << 30)
        elif x < 0.88:
            s['away'] = rng.randrange(1 << 30)
        steps.append(s)
    steps.append(dict(seed=rng.randrange(1 << 30), b=rng.random() < 0.5, name=rng.choice(['results', 'results', 'r']), plan=[], budget=-1))
    return {'cfg': c, 'steps': steps}


def preload():
    import prog  # noqa: F401
    import runs
    runs.preload()


def _other(cfg):
    """The same star and modes, computed in another way."""
    c = dict(cfg)
    if c.get('poly'):
        if c.pop('integ', None) is None:
            c['integ'] = 'simpson'
    else:
        c['adiabatic'] = not c.get('adiabatic', True)
    return c


def _run(spec, c):
    import os
    import random
    import shutil
    import neighbours
    import prog
    import runs
    import saves
    import world
    from saves import Bad
    cfgs = [spec['cfg'], _other(spec['cfg'])]
    want = [prog.good_ref(x) for x in cfgs]
    root = c.world(spec['cfg'])
    have = {}            # file -> contents
    for no, s in enumerate(spec['steps']):
        cfg = cfgs[s['b']]
        rel, new = want[s['b']]
        path = os.path.join(os.path.dirname(rel), s['name'] + os.path.basename(rel)[len('results'):])
        world.write_inlist(os.path.join(root, 'inlists', 'run.toml'), root, cfg)
        moved = None
        if s.get('away'):
            gd, md, tag = neighbours.dirs(root, cfg)
            r = random.Random(s['away'])
            d = r.choice(list(gd) + [md])
            f = os.path.join(d, r.choice(sorted(os.listdir(d)))) if r.random() < 0.7 else d
            moved = (f, os.path.join(c.dir, 'away'))
            os.rename(*moved)
        if s.get('power'):
            snap = os.path.join(c.dir, 'snap')
            shutil.rmtree(snap, ignore_errors=True)
            shutil.copytree(root, snap)
        p = c.solve(root, cfg, name=s['name'], seed=s['seed'], plan=s['plan'], budget=s['budget'], pid=3000 + no, journal=bool(s.get('power')))
        if moved:
            os.rename(moved[1], moved[0])
        what = f'run {no} of {len(spec["steps"])} ({"B" if s["b"] else "A"} as {s["name"]!r}), which ended with {p.status} {p.exc[:80]}'
        if prog.bad_exit(p):
            raise Bad('hangs_or_dies', f'{what}: {p.status} {p.exc}')
        acked = p.status == 'ok'
        if acked and moved:
            raise Bad('refused_input_used', f'{what}: stored results although {os.path.relpath(moved[0], root)} was missing')
        if moved:
            c.hit('refused')
            c.nontriv = True
        if not acked and not p.hit and s['budget'] < 0 and not moved:
            raise Bad('run_fails', f'{what}, met no fault: {p.tb[-400:]} {p.out[-200:]}')
        if s.get('power'):
            ops = saves.parse(p.journal)
            r = random.Random(s['power'])
            at = len(ops) if r.random() < 0.25 else r.randint(0, len(ops))
            after = os.path.join(c.dir, 'after')
            c.hit('fault:power_loss')
            c.hit('writes_lost', saves.power_loss(snap, after, ops, at, r))
            shutil.rmtree(root)
            os.rename(after, root)
            acked = acked and at == len(ops)
            what += f', then power was lost after {at} of {len(ops)} changes'
            c.nontriv = True
            c.inter.append(runs.hsh(c.inter[-1], at, sorted(runs.tree(os.path.join(root, 'out')).items())))
        c.nontriv = c.nontriv or p.hit > 0
        got = prog.result(root)
        for f in set(have) - {path}:
            if f not in got:
                raise Bad('earlier_results_lost', f'{what}: {f} is gone')
            d = runs.diff(got[f], have[f])
            if d:
                raise Bad('earlier_results_changed', f'{what}: {f} differs in {d}')
        alien = set(got) - set(have) - {path}
        if alien:
            raise Bad('unknown_results', f'{what}: left result files {sorted(alien)}')
        old, now = have.get(path), got.get(path)
        if path in got and now is None:
            raise Bad('unreadable', f'{what}: {path} cannot be read')
        is_new = now is not None and not runs.diff(now, new)
        is_old = (now is None and old is None) or (now is not None and old is not None and not runs.diff(now, old))
        if acked and not is_new:
            raise Bad('not_recovered' if no else 'other_results',
                      f'{what}: {path} is {"missing" if now is None else "different in " + str(runs.diff(now, new))} from what the run stores in an empty directory')
        if not is_new and not is_old:
            raise Bad('mixed_results', f'{what}: {path} holds neither the earlier nor the new results: {runs.diff(now, new) if now else "gone"}')
        if is_new:
            have[path] = new
        c.hit('left_new' if is_new else 'left_old' if now is not None else 'left_none')
        c.dig.append(runs.hsh(sorted((k, sorted((v or {}).items())) for k, v in got.items())))
    c.hit('recovered')


def run(spec):
    import prog
    return prog.wrap(_run)(spec)


def shrink(spec):
    import prog
    ss = spec['steps']
    for i in range(len(ss)):
        if len(ss) > 1:
            yield dict(spec, steps=ss[:i] + ss[i + 1:])
    for i, s in enumerate(ss):
        for t in prog.shrink_common({'cfg': {'modes': {r: {'n': [1, 1]} for r in ('parent', 'daughter_1', 'daughter_2')}}, 'plan': s['plan']}):
            yield dict(spec, steps=ss[:i] + [dict(s, plan=t['plan'])] + ss[i + 1:])
        for k in ('power', 'away'):
            if s.get(k):
                yield dict(spec, steps=ss[:i] + [dict(s, **{k: 0})] + ss[i + 1:])
        for k, v in (('b', False), ('name', 'results'), ('budget', -1)):
            if s[k] != v:
                yield dict(spec, steps=ss[:i] + [dict(s, **{k: v})] + ss[i + 1:])
    yield from prog.shrink_common(spec)


from runs import REAL, STUB, ASSUME  # noqa: E402,F401
