"""See DESIGN.md."""
PARTS = {'hist'}
RUNS = {'quick': 11000, 'thorough': 150000}
CAP = {'quick': 120, 'thorough': 1500}
OPS = 'opt'.split(',')
RULE = ('Each seed makes 4 calls of the compiled histogram routines on seeded samples (3 to 300 values, four distributions), '
        'parallel and serial, with 1 to 13 threads; a seeded scheduler decides every interleaving and may grant a smaller '
        'team. Non-trivial: at least one switch between team members inside a parallel region; distinct: by results and '
        'schedule hash.')
INTER = 'hash of the sequence of (step, member) switches, team sizes and chunk hand-outs of one parallel call'
PROBES = ('regions', 'fault:team_shrunk', 'fault:member_stalled', 'fault:preemption')


def gen(rng, tier, i):
    import hist
    return {'ops': [hist.gen_op(rng, rng.choice(OPS)) for _ in range(4)]}


def preload():
    import hist
    hist.preload()


def run(spec):
    import hist
    import kern
    return kern.run_ops(spec, hist.OPS)


def shrink(spec):
    import hist
    return hist.shrink(spec)


from kern_meta import STUB, ASSUME  # noqa: E402,F401
REAL = ['the six Cython modules of the histogram library compiled from /repo', 'the Python driver functions around them',
        'numpy', 'the CPython interpreter']
