"""See DESIGN.md."""
PARTS = {'cpp', 'fnd', 'hist'}
RUNS = {'quick': 500, 'thorough': 25000}
CAP = {'quick': 120, 'thorough': 1500}
RULE = ('Each seed saves two to six result sets of different mode kinds under names, subdirectories and extra specifiers chosen to '
        'collide when names are mangled (prefixes, dots, dashes, dotted directories, names that look like the added suffix); some '
        'saves meet I/O errors, crashes or interruptions. After every save each earlier result must be intact and be found under '
        'the path the analysis code builds for it. Non-trivial: a fault fired or several files exist; distinct: by outcomes, '
        'contents and operation log.')
INTER = 'hash of the file operations of each simulated save with the faults that hit them'
PROBES = ('found_by_loader',)
NAMES = ['r', 'results', 'run_2', 'run-2', 'run.2', 'run.2.5', 'M3.00_Xc0.5', 'a', 'ab', 'abc', 'bc', 'c', 'r_k_0_0_0_m_2_1_1', 'r.h5',
         'Run', 'x+y', '2024-01-02', 'r_', 'model_1_jvb_2023', 'star 1', 'k', 'm_2']
SUBS = ['', '', '', 'sub', 'a', 'ab', 'sub/deep', '/sub', 'sub/', 'v1.2', 'x-1', '/ab/c', 'deep/er/']


def gen(rng, tier, i):
    import saves
    import runs
    steps = []
    names = rng.sample(NAMES, rng.choice([1, 2, 2, 3]))
    subs = rng.sample(SUBS, rng.choice([1, 1, 2]))
    extras = rng.choice([[''], [''], ['', 'x'], ['bc', '']])
    bases = rng.choice([['out'], ['out'], ['out'], ['out', 'out/v1.5'], ['out/']])
    for k in range(rng.randint(2, 6)):
        s = dict(item=saves.gen_item(rng), name=rng.choice(names), seed=rng.randrange(1 << 30), sub=rng.choice(subs),
                 extra=rng.choice(extras), base=rng.choice(bases))
        if not s['sub'] and s['extra'] and rng.random() < 0.5:
            s['extra'] = ''
        x = rng.random()
        if x < 0.1:
            s['plan'] = runs.crash_plan(rng, 1, rng.choice([2, 5, 12]))
        elif x < 0.2:
            s['plan'] = [runs.rule(rng.choice(['write', 'fsync', 'close', 'rename', 'openw', 'mkdir']), 'err',
                                   arg=rng.choice([5, 28, 122]), nth=rng.randint(1, rng.choice([1, 1, 2, 3])),
                                   count=rng.choice([1, 100000]), sub='out')]
        elif x < 0.35:
            s['plan'] = [dict(r, sub='out') for r in runs.soft_plan(rng, True)]
        steps.append(s)
    return {'steps': steps, 'loader': True}


def preload():
    import saves
    saves.preload()


def run(spec):
    import saves
    return saves.history(spec)


def shrink(spec):
    import saves
    yield from saves.shrink_history(spec)
    ss = spec['steps']
    for i, s in enumerate(ss):
        if s.get('base', 'out') != 'out':
            yield dict(spec, steps=ss[:i] + [dict(s, base='out')] + ss[i + 1:])


from runs import REAL, STUB, ASSUME  # noqa: E402,F401
