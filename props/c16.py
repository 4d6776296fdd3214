"""See DESIGN.md."""
PARTS = {'cpp', 'fnd', 'hist'}
RUNS = {'quick': 160, 'thorough': 6000}
CAP = {'quick': 150, 'thorough': 2400}
SEED = 1
RULE = ('Each seed runs the complete program on a synthetic star for one choice of mode degrees, orders and radial order ranges '
        '(equal, overlapping, nested or disjoint ranges of daughters of the same or of different kind) under a seeded directory order, '
        'clock, fresh memory and transient faults, and compares the stored triads and the per-mode data of every row with the model. '
        'Non-trivial: more than one triad or a fault fired; distinct: by world, schedule and operation log.')
INTER = 'hash of the file operations and thread schedule of each run'
PROBES = ('same_kind', 'different_kind', 'rows', 'unknown_units')


def gen(rng, tier, i):
    import runs
    c = runs.cfg_gen(rng, small=True)
    kind = rng.choice(['same', 'same', 'diff', 'diff'])
    if kind == 'same':
        l, m, mp = 1, *rng.choice([(1, 2), (1, 2), (0, 0)])
        a, b = (l, m), (l, m)
    else:
        a, b, mp = rng.choice([((1, 1), (1, -1), 0), ((1, -1), (1, 1), 0), ((1, 1), (3, 1), 2), ((1, 1), (1, 0), 1), ((3, 1), (1, 1), 2), ((1, 0), (1, 1), 1)])
    up = rng.choice([0, 0, 0, 0, 0, rng.randint(60, 120), rng.randint(220, 240)])
    lo = rng.randint(13, 24) + up
    r1 = [lo, lo + rng.choice([0, 0, 1, 1, 2])]
    how = rng.choice(['equal', 'overlap', 'nested', 'disjoint', 'below'])
    r2 = {'equal': list(r1), 'overlap': [r1[1], r1[1] + rng.choice([0, 1])], 'nested': [r1[0], r1[0]],
          'disjoint': [r1[1] + 1, r1[1] + rng.choice([1, 2])], 'below': [r1[0] - 1, r1[0] - rng.choice([0, 1])]}[how]
    p0 = rng.randint(8, 12) + (up // 2 if rng.random() < 0.5 else up)
    c['modes'] = dict(parent=dict(l=2, m=mp, n=[p0, p0 + rng.choice([0, 0, 1])]), daughter_1=dict(l=a[0], m=a[1], n=r1),
                      daughter_2=dict(l=b[0], m=b[1], n=r2))
    c['n_grid'] = 20
    if rng.random() < 0.5:
        c['frequency'] = freq_gen(rng)
    return {'cfg': c, 'seed': rng.randrange(1 << 30), 'plan': runs.soft_plan(rng) if rng.random() < 0.4 else []}


def freq_gen(rng):
    """Units and frames in which the mode files state frequencies; without units all of them do."""
    none = rng.random() < 0.2
    if rng.random() < 0.1:          # GYRE writes units that the program cannot convert
        import world
        k = [[rng.choice(world.OTHER_UNITS), rng.choice(['INERTIAL', 'COROT_I'])]]
        return k * rng.choice([1, 1, 2]) + ([['CYC_PER_DAY', 'INERTIAL']] if rng.random() < 0.3 else [])
    return [['NONE' if none else rng.choice(['CYC_PER_DAY', 'HZ', 'UHZ', 'RAD_PER_SEC']), rng.choice(['INERTIAL', 'INERTIAL', 'COROT_I', 'COROT_O'])]
            for _ in range(rng.choice([1, 1, 2, 3]))]


def preload():
    import saves  # noqa: F401
    import runs
    runs.preload()


def _run(spec, c):
    import prog
    import runs
    import enum_model
    import world
    from saves import Bad
    cfg = spec['cfg']
    root = c.world(cfg)
    p = c.solve(root, cfg, seed=spec['seed'], plan=spec['plan'])
    if world.unknown_units(cfg):
        c.hit('unknown_units')
        c.nontriv = True
        if prog.result(root):
            raise Bad('stored_in_unknown_units', f'modes {world.mode_table(cfg)}: a mode file states its frequency in {cfg["frequency"]}, yet the run ended with '
                                                 f'{p.status} and stored {sorted(prog.result(root))}')
        if p.status not in ('ok', 'exit', 'exc'):
            raise Bad('odd_end', f'a mode file states its frequency in {cfg["frequency"]}: the run ended with {p.status}')
        return
    enum_model.check(root, cfg, p, c)
    c.nontriv = len(enum_model.wanted(cfg)) > 1 or p.hit > 0
    c.dig.append(runs.hsh(sorted((k, sorted(v.items())) for k, v in prog.result(root).items())))


def run(spec):
    import prog
    return prog.wrap(_run)(spec)


def shrink(spec):
    import prog
    yield from prog.shrink_common(spec)


from runs import REAL, STUB, ASSUME  # noqa: E402,F401
