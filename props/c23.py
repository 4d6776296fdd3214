"""See DESIGN.md."""
PARTS = {'cpp', 'fnd', 'hist'}
RUNS = {'quick': 128, 'thorough': 6000}
CAP = {'quick': 200, 'thorough': 2400}
SEED = 1
RULE = ('Each seed runs the complete program on one world with parallel mode coupling switched off, and one to three times with it switched on, each under another seeded schedule of its '
        'threads: which thread runs at every memory access and synchronisation, how many threads each parallel region gets, stalls. No schedule may contain a data race, end in a '
        'deadlock, or store anything but what the serial run stores, up to the rounding of reordered sums. Non-trivial: the scheduler switched threads; distinct: by interleaving and world.')
INTER = 'hash of the sequence in which the threads were allowed their memory accesses, and of the file operations'
PROBES = ('compared', 'omp_switches')


def gen(rng, tier, i):
    import prog
    import runs
    c = prog.pool_cfg(SEED, rng, i, n=2 if tier == 'quick' else 80, tag='c23', most=3, parallel=False)
    return dict(cfg=c, runs=[dict(seed=rng.randrange(1 << 30), icv=rng.choice([1, 2, 3, 4, 4, 7, 8]),
                                  sched=dict(seed=rng.randrange(1 << 31), policy=rng.randrange(4), p=rng.choice([0.005, 0.02, 0.1, 0.4]), team=rng.choice([0, 0, 1]), detect=1),
                                  plan=runs.soft_plan(rng) if rng.random() < 0.2 else []) for _ in range(rng.choice([1, 2, 3]))])


def preload():
    import prog  # noqa: F401
    import runs
    runs.preload()


def close(a, b):
    """The largest difference relative to rounding, or None when not comparable."""
    import numpy as np
    if a.dtype != b.dtype or a.shape != b.shape:
        return None
    if a.dtype.kind not in 'fc':
        return 0.0 if a.tobytes() == b.tobytes() else None
    fa, fb = np.isfinite(a), np.isfinite(b)
    if (fa != fb).any() or a[~fa].astype(str).tolist() != b[~fb].astype(str).tolist():
        return None
    if not fa.any():
        return 0.0
    x, y = a[fa], b[fb]
    d = np.abs(x - y)
    return float((d / np.maximum(np.maximum(np.abs(x), np.abs(y)), 1e-300)).max()) if d.any() else 0.0


TOL = 1e-7


def _run(spec, c):
    import prog
    import host
    import runs
    from saves import Bad
    cfg = spec['cfg']
    name, g = prog.good_ref(cfg)
    gv = runs.values(g)
    par = dict(cfg, parallel=True)
    for k, s in enumerate(spec['runs']):
        root = c.world(par, k)

        def fn(icv=s['icv'], f=runs.solve_fn(root)):
            host.simgomp().omp_set_num_threads(icv)
            f()
        p = host.proc(fn, root, seed=s['seed'], plan=s['plan'], gsched=s['sched'], flags=host.SHUFFLE | host.CLOCK | host.POISON)
        c.took(p, s['plan'])
        what = f'a run with parallel mode coupling ({s["icv"]} threads, schedule {s["sched"]["seed"]})'
        if p.gomp and p.gomp['fatals']:
            raise Bad('threads_stuck', f'{what}: {p.gomp["fatal"][:300]}')
        if p.gomp and p.gomp['races']:
            raise Bad('data_race', f'{what}: {p.gomp["race"][:300]}')
        if p.status != 'ok':
            raise Bad('run_fails', f'{what} ended with {p.status} {p.exc} {p.tb[-300:]}, with it switched off the run ends well')
        res = prog.result(root)
        if sorted(res) != [name] or res[name] is None:
            raise Bad('other_files', f'{what} stored {sorted(res)} instead of {name}')
        v = runs.values(res[name])
        if sorted(v) != sorted(gv):
            raise Bad('other_quantities', f'{what} stores other quantities: {sorted(set(v) ^ set(gv))[:4]}')
        worst = 0.0
        for q in sorted(gv):
            if g[q] == res[name][q]:
                continue
            if not hasattr(v[q], 'dtype') or not hasattr(gv[q], 'dtype'):
                if q.split('@')[-1] in SETTINGS:
                    continue
                raise Bad('other_results', f'{what}: {q} is {v[q]} instead of {gv[q]}')
            d = close(v[q], gv[q])
            if d is None or d > TOL:
                raise Bad('other_results', f'{what}: {q} differs from the serial run: ' + prog.show(res[name], g, q))
            worst = max(worst, d)
        c.hit('compared')
        c.hit('exact', worst == 0)
        c.hit('rounded', worst > 0)
        for lim in (1e-15, 1e-13, 1e-11, 1e-9):
            c.hit(f'worst_above_{lim}', worst > lim)
        c.nontriv = c.nontriv or bool(p.gomp and p.gomp['switches'])
        c.dig.append((worst, runs.hsh(sorted(res[name].items()))))


SETTINGS = ()


def run(spec):
    import prog
    return prog.wrap(_run)(spec)


def shrink(spec):
    import prog
    if len(spec['runs']) > 1:
        for x in spec['runs']:
            yield dict(spec, runs=[x])
    for i, s in enumerate(spec['runs']):
        if s['plan']:
            yield dict(spec, runs=spec['runs'][:i] + [dict(s, plan=[])] + spec['runs'][i + 1:])
        if s['icv'] > 2:
            yield dict(spec, runs=spec['runs'][:i] + [dict(s, icv=2)] + spec['runs'][i + 1:])
        for pol in range(s['sched']['policy']):
            for sd in (1, 2, 3):
                yield dict(spec, runs=spec['runs'][:i] + [dict(s, sched=dict(s['sched'], policy=pol, seed=sd))] + spec['runs'][i + 1:])
    yield from prog.shrink_common(spec)


from runs import REAL, STUB, ASSUME  # noqa: E402,F401
