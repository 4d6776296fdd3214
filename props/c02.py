"""See DESIGN.md."""
PARTS = {'cpp'}
RUNS = {'quick': 14000, 'thorough': 250000}
CAP = {'quick': 120, 'thorough': 1500}
OP = 'ld'
RULE = ('Each seed makes 5 calls on seeded grids (2 to 400 points, four kinds of values) with a requested team of 1 to 33 '
        'threads; a seeded scheduler (random preemption, priority change points, synchronisation-only, or one stalled '
        'member) decides every interleaving and may grant a smaller team. Non-trivial: at least one switch between '
        'team members inside a parallel region; distinct: by results and schedule hash.')
INTER = 'hash of the sequence of (step, member) switches, team sizes and chunk hand-outs of one parallel call'
PROBES = ('regions', 'fault:team_shrunk', 'fault:member_stalled', 'fault:preemption')


def gen(rng, tier, i):
    import kern
    return {'ops': [kern.gen_op(rng, OP) for _ in range(5)]}


def preload():
    import kern
    kern.preload_cpp()


def run(spec):
    import kern
    return kern.run_ops(spec)


def shrink(spec):
    import kern
    return kern.shrink_ops(spec)


from kern_meta import REAL, STUB, ASSUME  # noqa: E402,F401
