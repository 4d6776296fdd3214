"""See DESIGN.md."""
PARTS = {'cpp', 'fnd', 'hist'}
RUNS = {'quick': 2600, 'thorough': 60000}
CAP = {'quick': 100, 'thorough': 1500}
RULE = ('Each seed saves seeded result values of a real solver object (six kinds: 1 to 4 triads, three mode kinds, stellar and '
        'polytropic; ordinary values plus NaN, infinities, zeros and denormals) one to three times while the simulated file '
        'system shortens or interrupts transfers, or fails single operations; whenever the save reports success, every value '
        'is read back and compared bit for bit. Non-trivial: at least one fault fired; distinct: by outcomes, contents and '
        'operation log.')
INTER = 'hash of the file operations of each simulated save with the faults that hit them'
PROBES = ('ok_despite_fault', 'save_ok', 'save_exc')


def gen(rng, tier, i):
    import saves
    import runs
    steps = []
    for k in range(rng.choice([1, 1, 2, 3])):
        s = dict(item=saves.gen_item(rng), name=rng.choice(['r', 'results', 'run_2']), seed=rng.randrange(1 << 30))
        x = rng.random()
        if x < 0.35:
            s['plan'] = [dict(r, sub='out') for r in runs.soft_plan(rng, True)]
        elif x < 0.8:
            cls = rng.choice(['write', 'write', 'write', 'trunc', 'fsync', 'close', 'openw', 'rename', 'write|fsync|close', 'flock', 'mkdir'])
            act, arg = rng.choice([('err', 5), ('err', 28), ('err', 28), ('err', 122), ('torn_err', 28000 + rng.choice([1, 50, 99]))])
            if cls not in ('write',) and act == 'torn_err':
                act, arg = 'err', 28
            s['plan'] = [runs.rule(cls, act, arg=arg, nth=rng.randint(1, rng.choice([1, 1, 2, 2, 5, 50])), count=rng.choice([1, 1, 1, 2, 30]), sub='out')]
            if rng.random() < 0.3:
                s['plan'] += [dict(r, sub='out') for r in runs.soft_plan(rng, True)]
        steps.append(s)
    return {'steps': steps, 'only': 'success'}


def preload():
    import saves
    saves.preload()


def run(spec):
    import saves
    return saves.history(spec)


def shrink(spec):
    import saves
    return saves.shrink_history(spec)


from runs import REAL, STUB, ASSUME  # noqa: E402,F401
