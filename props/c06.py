"""See DESIGN.md."""
PARTS = {'cpp', 'hist'}
RUNS = {'quick': 9000, 'thorough': 100000}
CAP = {'quick': 120, 'thorough': 1500}
RULE = ('Each seed picks one kernel call and a history of 1 to 12 earlier calls (other kernels, the same kernel with other '
        'values, sizes, thread counts or the very same buffers, unknown method names); the call is made in a process '
        'without history and in one with the history, where all fresh memory is filled with seeded garbage. Non-trivial: '
        'the history made at least one call and the garbage filled at least one block; distinct: by results and schedule.')
INTER = 'hash of the schedule of every parallel call made by the two processes'
KINDS = ['disc', 'disc', 'ld', 'int', 'int', 'bin', 'kern', 'opt']


def one(rng):
    import hist
    import kern
    k = rng.choice(KINDS)
    o = kern.gen_op(rng, k) if k in kern.OPS else hist.gen_op(rng, k)
    if k == 'disc':
        o['warp'] = rng.random() < 0.4
    return o


def gen(rng, tier, i):
    t = one(rng)
    t['n'] = min(t['n'], 600)
    t['reuse'] = rng.random() < 0.4
    h = []
    for _ in range(rng.randint(1, 12)):
        r = rng.random()
        if r < 0.45:
            o = dict(t, aseed=rng.randrange(1 << 30))
            if rng.random() < 0.5:
                o['n'] = rng.choice([t['n'], t['n'] + 1, max(3, t['n'] - 1), 2 * t['n']])
            if rng.random() < 0.5:
                o['nt'] = rng.choice([1, 2, 3, 4, 8])
            if rng.random() < 0.3 and 'how' in o:
                o['how'] = rng.choice(['trapz', 'simpson'])
            if rng.random() < 0.3 and 'mu' in o:
                o['mu'] = rng.choice([[0.0, 1.0], [-1.0, 1.0], [0.1, 0.7]])
        elif r < 0.55:
            o = {'k': 'odd', 'n': t['n'], 'aseed': rng.randrange(1 << 30), 'name': rng.choice(['', 'claret', 'boole', 'TRAPZ'])}
        else:
            o = one(rng)
            o['n'] = min(o['n'], 600)
            o['reuse'] = rng.random() < 0.4
        h.append(o)
    return {'target': t, 'hist': h, 'garbage': rng.randrange(1 << 30)}


def preload():
    import hist
    import kern
    kern.preload_cpp()
    hist.preload()


def op_odd(op, st, inter, dig):
    """Names the library does not know select the default method."""
    import numpy as np
    import kern
    from kern import call
    r = np.random.RandomState(op['aseed'])
    x = np.linspace(0, 1, op['n'])
    y = r.rand(op['n'])
    out = np.zeros(op['n'])
    call('unknown integration', kern.k_integrate, y, x, False, op['name'], 1, False)
    call('unknown limb darkening', kern.k_ld, x, out, op['name'], 1, False)


def run(spec):
    import hist
    import host
    import kern
    ops = dict(kern.OPS, **hist.OPS, odd=op_odd)
    out = []
    st, inter = {'sim_runs': 0}, []
    for history in (None, spec['hist']):
        def body():
            s, it = {}, []
            try:
                for o in history or ():
                    ops[o['k']](o, s, it, [])
                host.simgomp().omp_set_num_threads(4)
                dig = []
                ops[spec['target']['k']](spec['target'], s, it, dig)
            except kern.Viol as e:
                return {'viol': e.v, 'st': s, 'it': it, 'dig': None}
            return {'viol': None, 'st': s, 'it': it, 'dig': dig}
        if history is None:
            p = host.inspect(body)
        else:
            with host.Scratch() as d:
                p = host.proc(body, d, seed=spec['garbage'], flags=host.POISON)
        st['sim_runs'] += 1
        if p.status != 'ok':
            if p.status == 'exc':
                raise RuntimeError(p.exc + p.tb)
            return {'viol': {'class': 'kernel_crash', 'msg': f'{p.status} {p.exc}'}, 'digest': 'crash', 'stats': st, 'inter': []}
        v = p.value
        for k, x in v['st'].items():
            st[k] = st.get(k, 0) + x
        inter += v['it']
        if v['viol']:
            w = dict(v['viol'])
            w['msg'] += ' (after a history of calls)' if history else ' (no history)'
            return {'viol': w, 'digest': kern.digest([], inter + [w['class']]), 'stats': st, 'inter': inter}
        out.append(v['dig'])
    st['history_calls'] = len(spec['hist'])
    st['fault:garbage_memory'] = 1
    viol = None
    if out[0] != out[1]:
        viol = {'class': 'history', 'msg': f'a {spec["target"]["k"]} call on {spec["target"]["n"]} points returned other bits after '
                                          f'{len(spec["hist"])} unrelated calls'}
    return {'viol': viol, 'digest': kern.digest(out[0] + out[1], inter), 'stats': st, 'inter': inter,
            'nontrivial': True, 'sim_ns': st.get('steps', 0) * 1000,
            'note': f'{len(spec["hist"])} earlier calls, then {spec["target"]["k"]} on {spec["target"]["n"]} points'}


def shrink(spec):
    h = spec['hist']
    for i in range(len(h)):
        if len(h) > 1:
            yield dict(spec, hist=[h[i]])
    for i in range(len(h)):
        yield dict(spec, hist=h[:i] + h[i + 1:])
    t = spec['target']
    for n in (3, 5, 9, t['n'] // 2):
        if 3 <= n < t['n']:
            yield dict(spec, target=dict(t, n=n))


from kern_meta import STUB, ASSUME  # noqa: E402,F401
REAL = ['C++ kernels and Cython bindings compiled from /repo', 'the six Cython modules of the histogram library', 'numpy',
        'the CPython interpreter']
STUB = STUB + ['memory allocator: fresh blocks are filled with seeded garbage']
