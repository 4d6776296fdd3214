"""See DESIGN.md."""
PARTS = {'cpp', 'fnd', 'hist'}
RUNS = {'quick': 900, 'thorough': 40000}
CAP = {'quick': 100, 'thorough': 1500}
RULE = ('Each seed saves results two to four times under one or two names; saves crash at an arbitrary operation (before, after '
        'or in the middle of a write), meet a full disk or a persistent I/O error, or lose power at an arbitrary point, where '
        'unsynced writes are lost or torn; the last save is free of faults. After every event the result file must hold '
        'either the complete earlier or the complete new results. Non-trivial: a fault fired or power was cut; distinct: by '
        'outcomes, contents and operation log.')
INTER = 'hash of the file operations of each simulated save with the faults that hit them, and of each state left by a power cut'
PROBES = ('left_old', 'power_left_old', 'power_left_new', 'fault:power_loss')


def gen(rng, tier, i):
    import saves
    import runs
    steps = []
    names = rng.choice([['r'], ['r'], ['r', 'results']])
    kinds = rng.sample(saves.NAMES, 2)
    for k in range(rng.choice([1, 2, 2, 3])):
        s = dict(item=saves.gen_item(rng, kinds), name=rng.choice(names), seed=rng.randrange(1 << 30))
        x = rng.random()
        if x < 0.45:
            s['plan'] = runs.crash_plan(rng, 1, rng.choice([2, 5, 12, 60]))
        elif x < 0.65:
            s['plan'] = [runs.rule(rng.choice(['write', 'write', 'fsync', 'close', 'trunc', 'rename', 'openw', 'write|fsync|close']), 'err',
                                   arg=rng.choice([5, 28, 30, 122]), nth=rng.randint(1, rng.choice([1, 1, 2, 2, 50])), count=100000, sub='out')]
        elif x < 0.75:
            s['budget'] = rng.choice([0, 1, 100, 2048, 8192, rng.randint(0, 40000)])
        if rng.random() < 0.5:
            s['power'] = [rng.randrange(1 << 30) for _ in range(3)]
        steps.append(s)
    steps.append(dict(item=saves.gen_item(rng, kinds), name=rng.choice(names), seed=rng.randrange(1 << 30)))
    return {'steps': steps}


def preload():
    import saves
    saves.preload()


def run(spec):
    import saves
    return saves.history(spec)


def shrink(spec):
    import saves
    return saves.shrink_history(spec)


from runs import REAL, STUB, ASSUME  # noqa: E402,F401
