"""See DESIGN.md."""
PARTS = {'cpp', 'fnd', 'hist'}
RUNS = {'quick': 480, 'thorough': 12000}
CAP = {'quick': 150, 'thorough': 2400}
SEED = 1
RULE = ('Each seed runs the complete program on one world while reads, opens, directory listings or status calls on the stellar model, the '
        'mode files or the inlist fail (once or for good), are interrupted or return less than asked, or while an input file is cut short: '
        'the run either stores exactly the results of the undisturbed run or stores nothing. Interruptions and short reads must be '
        'invisible. Non-trivial: a fault fired; distinct: by world, fault and operation log.')
INTER = 'hash of the file operations of each run with the faults that hit them'
PROBES = ('hard', 'soft', 'cut', 'aborted', 'identical_despite_error')


def gen(rng, tier, i):
    import prog
    import runs
    c = prog.pool_cfg(SEED, rng, i, n=2 if tier == 'quick' else 60, tag='c13', most=2)
    x = rng.random()
    s = {'cfg': c, 'seed': rng.randrange(1 << 30), 'plan': [], 'cut': None}
    if x < 0.55:
        s['kind'] = 'hard'
        for _ in range(rng.choice([1, 1, 2])):
            cls = rng.choice(['read', 'read', 'read', 'read', 'openr', 'opendir', 'stat', 'read|openr'])
            sub = rng.choice(['GYRE', 'GYRE', 'GYRE/ad', 'GYRE/nad', 'MESA', 'inlists', 'detail'] if not c.get('poly')
                             else ['POLY', 'POLY/modes', 'POLY/structure', 'inlists', 'detail'])
            hi = 20 if cls in ('opendir', 'openr') else rng.choice([4, 40, 400, 400])
            s['plan'].append(runs.rule(cls, 'err', arg=rng.choice([5, 5, 5, 24, 13, 2]) if cls != 'read' else 5, nth=rng.randint(1, hi),
                                       count=rng.choice([1, 1, 2, 5, 100000]), sub=sub))
    elif x < 0.75:
        s['kind'] = 'soft'
        s['plan'] = runs.soft_plan(rng)
    else:
        s['kind'] = 'cut'
        s['cut'] = [rng.randrange(1 << 30), rng.random()]
    return s


def preload():
    import prog  # noqa: F401
    import runs
    runs.preload()


def _run(spec, c):
    import os
    import random
    import neighbours
    import prog
    import runs
    import world
    from saves import Bad
    cfg = spec['cfg']
    name, g = prog.good_ref(cfg)
    root = c.world(cfg)
    what = spec['kind']
    if spec['cut']:
        gd, md, tag = neighbours.dirs(root, cfg)
        r = random.Random(spec['cut'][0])
        used = [os.path.join(d, world.detail_name(l, m, n, tag)) for l, m, n, _ in neighbours.modes(cfg) for d in gd]
        if cfg.get('poly'):
            used += [os.path.join(md, f) for f in os.listdir(md)]
        elif r.random() < 0.6:
            used = [os.path.join(md, f) for f in os.listdir(md)]
        if r.random() < 0.3:
            used = [os.path.join(root, 'inlists', 'run.toml')]
        f = r.choice(used)
        size = os.path.getsize(f)
        at = int(spec['cut'][1] * size)
        toml = f.endswith('.toml')
        if r.random() < (0.1 if toml else 0.4):        # close to the end, or at the end of a line
            at = size - r.randrange(min(size, 60))
        elif r.random() < (0.8 if toml else 0.3) and f.endswith(('.dat', '.toml')):
            with open(f, 'rb') as h:
                text = h.read()
            if toml and r.random() < 0.5:     # where it may still be a complete inlist for some other run
                at = text.index(b'[coupling_coefficient]') + int(spec['cut'][1] * (size - text.index(b'[coupling_coefficient]')))
            at = text[:at].rfind(b'\n') + 1
        os.truncate(f, at)
        what = f'{os.path.relpath(f, root)} cut to {at} of {size} bytes'
        c.hit('fault:file_cut')
    p = c.solve(root, cfg, seed=spec['seed'], plan=spec['plan'])
    res = prog.result(root)
    c.hit(spec['kind'])
    c.nontriv = p.hit > 0 or bool(spec['cut'])
    c.dig.append(runs.hsh(sorted((k, sorted((v or {}).items())) for k, v in res.items())))
    if prog.bad_exit(p):
        raise Bad('hangs_or_dies', f'{what}: {p.status} {p.exc}')
    if p.status != 'ok':
        if res:
            raise Bad('failed_but_stored', f'{what}: the run ended with {p.status} {p.exc} but stored {sorted(res)}')
        if not p.hit and not spec['cut']:
            raise Bad('run_fails', f'{what}: no fault fired, yet the run ended with {p.status} {p.exc}')
        if spec['kind'] == 'soft':
            raise Bad('interruption_breaks_run', f'interrupted or short reads: the run ended with {p.status} {p.exc} {p.tb[-300:]}')
        c.hit('aborted')
        return
    prog.same(res, {name: g}, f'{what}: the run stored results although inputs could not be read')
    c.hit('identical_despite_error', p.hit > 0 and spec['kind'] == 'hard')


def run(spec):
    import prog
    return prog.wrap(_run)(spec)


def shrink(spec):
    import prog
    yield from prog.shrink_common(spec)


from runs import REAL, STUB, ASSUME  # noqa: E402,F401
