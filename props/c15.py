"""See DESIGN.md."""
PARTS = {'cpp', 'fnd', 'hist'}
RUNS = {'quick': 140, 'thorough': 4000}
CAP = {'quick': 150, 'thorough': 2400}
SEED = 1
RULE = ('Each seed runs the complete program on one world of several triads and again, in a fresh process, on one or two of its triads '
        'alone; every row of every stored quantity must be the same bits. Directory order, clock, fresh memory and transient faults '
        'differ between the runs. Non-trivial: a row that was not the first of its grid; distinct: by world, triad and operation log.')
INTER = 'hash of the file operations of each run'
PROBES = ('rows_compared', 'later_rows')


def gen(rng, tier, i):
    import prog
    import runs
    c = prog.pool_cfg(SEED, rng, i, n=2 if tier == 'quick' else 60, tag='c15', multi=True, parallel=False)
    return {'cfg': c, 'picks': [rng.randrange(1 << 30) for _ in range(rng.choice([1, 2]))], 'seed': rng.randrange(1 << 30),
            'plan': runs.soft_plan(rng) if rng.random() < 0.3 else []}


def preload():
    import prog  # noqa: F401
    import runs
    runs.preload()


def _run(spec, c):
    import prog
    import runs
    import world
    import random
    from saves import Bad
    cfg = spec['cfg']
    name, g = prog.good_ref(cfg)
    gv = runs.values(g)
    rows = [tuple(int(x) for x in r) for r in gv['quantum_numbers/n']]
    for k, pick in enumerate(spec['picks']):
        j = random.Random(pick).randrange(len(rows))
        root = c.world(cfg, k)
        one = runs.copy_spec(cfg)
        for r, n in zip(('parent', 'daughter_1', 'daughter_2'), rows[j]):
            one['modes'][r]['n'] = [n, n]
        import os
        world.write_inlist(os.path.join(root, 'inlists', 'run.toml'), root, one)
        p = c.solve(root, cfg, seed=spec['seed'] + k, plan=spec['plan'])
        what = f'triad {rows[j]} (row {j} of {len(rows)})'
        if p.status != 'ok':
            raise Bad('alone_fails', f'{what}: part of a grid it is computed, alone the run ended with {p.status} {p.exc} {p.out[-300:]}')
        res = prog.result(root)
        if sorted(res) != [name]:
            raise Bad('other_files', f'{what}: stored {sorted(res)} instead of {name}')
        s = res[name]
        sv = runs.values(s)
        if tuple(int(x) for x in sv['quantum_numbers/n'][0]) != rows[j]:
            c.hit('swapped_order')
            continue
        if sorted(s) != sorted(g):
            raise Bad('other_quantities', f'{what}: stores other quantities: {sorted(set(s) ^ set(g))[:4]}')
        nt = len(rows)
        for q in sorted(g):
            a, b = g[q], s[q]
            if len(a) == 3 and len(a[1]) >= 1 and a[1][0] == nt and q != 'x' and '@' not in q:
                row = gv[q][j:j + 1]
                if row.tobytes() != sv[q].tobytes() or b[0] != a[0]:
                    raise Bad('row_differs', f'{what}: {q} is {row.tolist()} in the grid and {sv[q].tolist()} alone')
            elif a != b:
                raise Bad('attribute_differs', f'{what}: {q} differs: ' + prog.show(b, a, q))
        c.hit('rows_compared')
        c.hit('later_rows', j > 0)
        c.nontriv = c.nontriv or j > 0
        c.dig.append(runs.hsh(sorted(s.items())))


def run(spec):
    import prog
    return prog.wrap(_run)(spec)


def shrink(spec):
    import prog
    if len(spec['picks']) > 1:
        for x in spec['picks']:
            yield dict(spec, picks=[x])
    yield from prog.shrink_common(spec)


from runs import REAL, STUB, ASSUME  # noqa: E402,F401
