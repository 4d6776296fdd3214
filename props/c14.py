"""See DESIGN.md."""
PARTS = {'cpp', 'fnd', 'hist'}
RUNS = {'quick': 160, 'thorough': 9000}
CAP = {'quick': 150, 'thorough': 2400}
SEED = 1
RULE = ('Each seed runs the complete program one to three times in one world while inputs may be missing and any file operation may fail, be interrupted, tear or be the last '
        'one before a crash or before the disk is full, and compares the whole directory tree before and after. '
        'Non-trivial: a fault fired or a second run; distinct: by world, faults and operation log.')
INTER = 'hash of the file operations of each run with the faults that hit them'
PROBES = ('trees_compared', 'inputs_missing', 'run_crash', 'run_ok', 'run_exc')


def gen(rng, tier, i):
    import prog
    import runs
    c = prog.pool_cfg(SEED, rng, i, n=2 if tier == 'quick' else 60, tag='c14', most=2)
    steps = []
    for k in range(rng.choice([1, 1, 2, 3])):
        s = dict(seed=rng.randrange(1 << 30), name=rng.choice(['results', 'r', 'run-2.5']), plan=[], budget=-1, sub=rng.choice(['', '', 'sub', '/deep/er']))
        x = rng.random()
        if x < 0.3:
            s['plan'] = runs.crash_plan(rng, 1, rng.choice([2, 5, 12]))
        elif x < 0.45:
            s['plan'] = [runs.rule(rng.choice(['read', 'openr', 'opendir', 'stat']), rng.choice(['crash_before', 'crash_after']),
                                   nth=rng.randint(1, rng.choice([5, 60, 300])))]
        elif x < 0.75:
            for _ in range(rng.choice([1, 1, 2])):
                s['plan'].append(runs.rule(rng.choice(['read', 'openr', 'openw', 'write', 'fsync', 'close', 'rename', 'mkdir', 'unlink', 'opendir', 'stat', 'trunc']),
                                           'err', arg=rng.choice([5, 28, 13]), nth=rng.randint(1, rng.choice([1, 3, 40])), count=rng.choice([1, 1, 100000])))
        elif x < 0.85:
            s['budget'] = rng.choice([0, 1, 100, 5000, 20000])
        if rng.random() < 0.25:
            s['away'] = rng.randrange(1 << 30)
        steps.append(s)
    return {'cfg': c, 'steps': steps}


def preload():
    import prog  # noqa: F401
    import runs
    runs.preload()


def _run(spec, c):
    import os
    import random
    import neighbours
    import prog
    import runs
    import world
    from saves import Bad
    cfg = spec['cfg']
    name, g = prog.good_ref(cfg)
    root = c.world(cfg)
    out = root + '/out'
    for no, s in enumerate(spec['steps']):
        cc = dict(cfg, saving=dict(cfg['saving'], save_dir=s['sub']))
        world.write_inlist(os.path.join(root, 'inlists', 'run.toml'), root, cc)
        gone_missing = None
        if s.get('away'):
            # an input file, an input directory or what it holds is missing
            r = random.Random(s['away'])
            gd, md, tag = neighbours.dirs(root, cfg)
            d = r.choice(list(gd) + [md])
            fs = [os.path.join(d, x) for x in sorted(os.listdir(d))]
            gone_missing = [(x, os.path.join(root, f'away{no}-{j}')) for j, x in enumerate(r.choice([[d], [r.choice(fs)], fs, [os.path.join(root, 'out')]])) if os.path.exists(x)]
            for x, y in gone_missing:
                os.rename(x, y)
            c.hit('inputs_missing')
        alone = runs.Untouched(c, root, [name, 'results.h5'], skip=('out',), free=('./',) if gone_missing else ())
        before, top = runs.tree(root), sorted(os.listdir(c.dir)) + sorted(os.listdir(os.path.dirname(root)))
        with alone:
            p = c.solve(root, cfg, name=s['name'], seed=s['seed'], plan=s['plan'], budget=s['budget'], pid=3000 + no)
        after = runs.tree(root)
        for x, y in gone_missing or ():
            if not os.path.exists(x):
                os.rename(y, x)
        what = f'run {no}, which ended with {p.status} {p.exc[:100]},'
        if prog.bad_exit(p):
            raise Bad('hangs_or_dies', f'{what}: {p.status} {p.exc}')
        if p.status != 'ok' and not p.hit and s['budget'] < 0 and not gone_missing:
            raise Bad('run_fails', f'{what} met no fault: {p.tb[-300:]}')
        c.nontriv = c.nontriv or p.hit > 0 or no > 0 or bool(gone_missing)
        if sorted(os.listdir(c.dir)) + sorted(os.listdir(os.path.dirname(root))) != top:
            raise Bad('written_elsewhere', f'{what} created files beside the world')
        alone.check(what)
        ch = sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k))
        alien = [k for k in ch if not k.startswith('out/')]
        if alien:
            raise Bad('input_changed', f'{what} changed {alien[:5]}, which are not in its output directory')
        want = os.path.normpath(f'out/hdf5_output/{s["sub"]}/{s["name"]}' + os.path.basename(name)[len('results'):])
        parents = {'out/'} if gone_missing else set()
        d = os.path.dirname(want)
        while d != 'out':
            parents.add(d + '/')
            d = os.path.dirname(d)
        rest = [k for k in ch if k != want and not (k in parents and k in after)]
        gone = [k for k in ch if k not in after]
        if gone:
            raise Bad('removed', f'{what} removed {gone[:4]}')
        if ' unlink ' in p.log and any(' unlink ' in ln and ' FAULT:' in ln for ln in p.log.split('\n')):
            # what cannot be removed may stay, but nothing that was there may change
            if any(k in before for k in rest):
                raise Bad('output_changed', f'{what} changed {[k for k in rest if k in before][:5]}')
        elif p.status != 'crash' and rest:
            raise Bad('left_behind', f'{what} left or changed {rest[:5]} in the output directory')
        if p.status == 'crash' and any(k in before for k in rest):
            raise Bad('output_changed', f'{what} changed {[k for k in rest if k in before][:5]}')
        if p.status == 'ok' and want not in after:
            raise Bad('nothing_stored', f'{what} did not store {want}')
        if p.status == 'exit' and want in ch:
            raise Bad('failed_but_stored', f'{what} stored {want}')
        c.hit('trees_compared')
        c.dig.append(runs.hsh(sorted(k for k in after)))


def run(spec):
    import prog
    return prog.wrap(_run)(spec)


def shrink(spec):
    import prog
    import saves
    ss = spec['steps']
    for i in range(len(ss)):
        if len(ss) > 1:
            yield dict(spec, steps=ss[:i] + ss[i + 1:])
    for i, s in enumerate(ss):
        for t in prog.shrink_common({'cfg': {'modes': {r: {'n': [1, 1]} for r in ('parent', 'daughter_1', 'daughter_2')}}, 'plan': s['plan']}):
            yield dict(spec, steps=ss[:i] + [dict(s, plan=t['plan'])] + ss[i + 1:])
        for k, v in (('sub', ''), ('name', 'r'), ('budget', -1)):
            if s[k] != v:
                yield dict(spec, steps=ss[:i] + [dict(s, **{k: v})] + ss[i + 1:])
    yield from prog.shrink_common(spec)


from runs import REAL, STUB, ASSUME  # noqa: E402,F401
