"""See DESIGN.md."""
PARTS = {'cpp', 'fnd', 'hist'}
RUNS = {'quick': 500, 'thorough': 25000}
CAP = {'quick': 120, 'thorough': 1500}
RULE = ('Each seed makes two to five saves in the three open modes (write, append, read/write) to one or two files, with result '
        'sets of different kinds and sizes (1, 2 or 4 triads, stellar or polytropic); some saves meet I/O errors, crashes or '
        'interruptions. After every save the complete file contents are compared with a model of the mode. Non-trivial: a save '
        'met existing contents or a fault; distinct: by outcomes, contents and operation log.')
INTER = 'hash of the file operations of each simulated save with the faults that hit them'
PROBES = ('mode_r+_over', 'mode_a_over', 'mode_w_over', 'mode_r+_fresh', 'mode_a_fresh')


def gen(rng, tier, i):
    import saves
    import runs
    steps = []
    names = rng.choice([['r'], ['r'], ['r', 's']])
    kinds = rng.choice([['a1', 'a3'], ['a1', 'a3', 'p2', 'q1'], ['a3', 'q1', 'p2'], ['a1'], ['b1', 'c2', 'a1']])
    for k in range(rng.choice([2, 2, 3, 4, 5])):
        s = dict(item=saves.gen_item(rng, kinds), name=rng.choice(names), seed=rng.randrange(1 << 30),
                 mode=rng.choice(['w', 'a', 'r+']) if k else rng.choice(['w', 'w', 'w', 'a', 'r+']))
        x = rng.random()
        if x < 0.12:
            s['plan'] = runs.crash_plan(rng, 1, rng.choice([2, 5, 12, 60]))
        elif x < 0.27:
            s['plan'] = [runs.rule(rng.choice(['write', 'write', 'fsync', 'close', 'trunc', 'rename', 'openw', 'read', 'openr']), 'err',
                                   arg=rng.choice([5, 28, 122]), nth=rng.randint(1, rng.choice([1, 1, 2, 2, 50])),
                                   count=rng.choice([1, 100000]), sub='out')]
        elif x < 0.4:
            s['plan'] = [dict(r, sub='out') for r in runs.soft_plan(rng, True)]
        steps.append(s)
    return {'steps': steps}


def preload():
    import saves
    saves.preload()


def run(spec):
    import saves
    return saves.mode_history(spec)


def shrink(spec):
    import saves
    yield from saves.shrink_history(spec)
    ss = spec['steps']
    for i, s in enumerate(ss):
        if s['mode'] != 'w':
            yield dict(spec, steps=ss[:i] + [dict(s, mode='w')] + ss[i + 1:])


from runs import REAL, STUB, ASSUME  # noqa: E402,F401
