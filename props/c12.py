"""See DESIGN.md."""
PARTS = {'cpp', 'fnd', 'hist'}
RUNS = {'quick': 200, 'thorough': 8000}
CAP = {'quick': 150, 'thorough': 2400}
SEED = 1
RULE = ('Each seed adds neighbours to the input directories of a world (modes of other orders, degrees and kinds whose names extend, shorten or '
        'resemble those of the selected modes, other stars, summaries, notes, directories, dangling links, rewritten inlists), shuffles every directory '
        'listing, and runs the complete program: same bits as without neighbours, also when these come and go between any two file operations of the run. In a third of the runs one neighbour also matches a selected '
        'mode or profile, or a selected file is missing: the run must end without storing anything. '
        'Non-trivial: a neighbour was added; distinct: by world, neighbours and operation log.')
INTER = 'hash of the file operations (with the shuffled listings) of each run'
PROBES = ('neighbours', 'ambiguous', 'missing', 'stored', 'came_during_run', 'went_during_run')
KINDS = ['n_prefix', 'n_longer', 'n_other', 'l_other', 'm_other', 'm_sign', 'p_mode', 'other_star', 'no_detail', 'summary', 'note', 'dir', 'dangling',
         'mesa_other', 'mesa_suffix', 'mesa_gyre', 'mesa_dir', 'other_inlist', 'alien_dir', 'n_minus']
AMB = ['dup_mode', 'dup_tag', 'dup_profile', 'dup_link', 'dup_zero']
MISS = ['no_mode', 'no_profile', 'no_dir']


def gen(rng, tier, i):
    import prog
    c = prog.pool_cfg(SEED, rng, i, n=2 if tier == 'quick' else 60, tag='c12')
    forms = None
    if rng.random() < 0.5:          # other ways to state the same selection
        forms = {'model': rng.choice(['tuple', 'list', 'reversed']), 'modes': rng.choice(['tuple', 'str', 'per_mode', 'per_mode', 'reversed', 'one'])}
    per = bool(forms) and forms['modes'] == 'per_mode'
    adds = [[rng.choice(KINDS + ['dup_tag'] * per), rng.randrange(1 << 30)] for _ in range(rng.randint(1, 8))]
    x = rng.random()
    if x < 0.2:
        adds.insert(rng.randrange(len(adds) + 1), [rng.choice(AMB), rng.randrange(1 << 30)])
    elif x < 0.33:
        adds.insert(rng.randrange(len(adds) + 1), [rng.choice(MISS), rng.randrange(1 << 30)])
    s = {'cfg': c, 'adds': adds, 'seed': rng.randrange(1 << 30), 'early': rng.random() < 0.3}
    if forms:
        s['forms'] = forms
    if not any(k in MISS for k, _ in adds) and rng.random() < 0.4:     # they come, and some go, during the run
        s['early'] = False
        # when: a share of all file operations of the run, or a number of them
        s['when'] = [[rng.choice([rng.random(), rng.random(), rng.randint(1, 60)]), rng.choice([1, 1, 2, 5, 20, 100]) if rng.random() < 0.5 else 0] for _ in adds]
    return s


def preload():
    import prog  # noqa: F401
    import runs
    runs.preload()


def _run(spec, c):
    import os
    import random
    import neighbours
    import prog
    import runs
    from saves import Bad
    cfg = spec['cfg']
    name, g = prog.good_ref(cfg)
    if spec.get('forms'):
        cfg = dict(cfg, forms=spec['forms'])
        c.hit('form:' + spec['forms']['modes'])
    root = runs.root_of(c.dir)
    when = spec.get('when')
    if spec['early']:       # neighbours are there before the real files
        for k, s in spec['adds']:
            if k in KINDS:
                neighbours.add(root, cfg, k, random.Random(s), c)
        tmp = os.path.join(c.dir, 'fresh')
        runs.build(tmp, cfg)
        import shutil
        shutil.copytree(tmp, root, dirs_exist_ok=True)
        import world
        world.write_inlist(os.path.join(root, 'inlists', 'run.toml'), root, cfg)
    else:
        runs.build(root, cfg)
    fatal = False
    acts, mine = {}, {}

    def come(j):
        was = set(runs.tree(root))
        neighbours.add(root, cfg, spec['adds'][j][0], random.Random(spec['adds'][j][1]), c)
        mine[j] = sorted(set(runs.tree(root)) - was)

    def go(j):
        import shutil
        for f in mine.get(j, ()):
            q = os.path.join(root, f)
            if f.endswith('/'):
                shutil.rmtree(q, ignore_errors=True)
            elif os.path.lexists(q):
                os.unlink(q)
    if when:
        hi = prog.ref(spec['cfg'])['seq']
        when = [[k := a if isinstance(a, int) else 1 + int(a * hi), z and k + z] for a, z in when]
    for j, (a, z) in enumerate(when or ()):
        acts.setdefault(a, []).append((come, j))
        if z:
            acts.setdefault(z, []).append((go, j))
    for k, s in spec['adds']:
        if when:
            pass
        elif k in AMB or k in MISS or not spec['early']:
            neighbours.add(root, cfg, k, random.Random(s), c)
        amb = k in AMB and not (k == 'dup_tag' and (cfg.get('forms') or {}).get('modes') == 'per_mode')   # those texts go on beyond the tag
        fatal = fatal or amb or k in MISS
        c.hit('ambiguous', amb)
        c.hit('missing', k in MISS)
        c.hit('neighbours', k in KINDS)
        c.hit('add:' + k)
    before = runs.tree(root, skip=(root + '/out',))
    if when:
        import conc
        import host
        p, done = conc.between(runs.solve_fn(root), root, {k: (lambda v=v: [f(j) for f, j in v]) for k, v in acts.items()}, seed=spec['seed'],
                               gsched=prog.gs(cfg), flags=host.SHUFFLE | host.CLOCK | host.POISON)
        p.hit = c.took(p)
        c.inter.append(str([(k, acts[k][0][1]) for k in done]))
        c.hit('came_during_run', len(mine))
        c.hit('fault:neighbour_came', len(mine))
        gone = sum(1 for k in done for f, _ in acts[k] if f is go)
        c.hit('went_during_run', gone)
        c.hit('fault:neighbour_went', gone)
    else:
        p = c.solve(root, cfg, seed=spec['seed'])
    res = prog.result(root)
    c.nontriv = True
    what = f'with neighbours {[k for k, _ in spec["adds"]]}' + (f' that came and went before the file operations {when}' if when else '')
    c.dig.append(runs.hsh(sorted((k, sorted((v or {}).items())) for k, v in res.items())))
    if fatal and when and p.status == 'ok' and not res:
        raise Bad('silent', f'{what}: the run ended well but stored nothing')
    if fatal and when and p.status == 'ok':
        fatal = False                   # the second file came too late to matter
    if fatal:
        if res:
            raise Bad('stored_from_ambiguous_input', f'{what}: no unique file for each mode and profile, yet the run ended with {p.status} and '
                                                     f'stored {sorted(res)}' + ('' if p.status != 'ok' else ' as a success'))
        return
    if p.status != 'ok':
        raise Bad('neighbour_breaks_run', f'{what} the run ended with {p.status} {p.exc} {p.out[-300:]}')
    prog.same(res, {name: g}, what)
    c.hit('stored')
    after = runs.tree(root, skip=(root + '/out',))
    for j in mine if when else ():
        for f in mine[j]:
            before.pop(f, None)
            after.pop(f, None)
    if after != before:
        d = sorted(k for k in set(after) | set(before) if after.get(k) != before.get(k))
        raise Bad('inputs_changed', f'{what}: the run changed {d[:5]}')


def run(spec):
    import prog
    return prog.wrap(_run)(spec)


def shrink(spec):
    import prog
    a = spec['adds']
    for i in range(len(a)):
        yield dict(spec, adds=a[:i] + a[i + 1:], **({'when': spec['when'][:i] + spec['when'][i + 1:]} if spec.get('when') else {}))
    if spec.get('when'):
        yield {k: v for k, v in spec.items() if k != 'when'}
        for i, (x, y) in enumerate(spec['when']):
            if y:
                yield dict(spec, when=[*spec['when'][:i], [x, 0], *spec['when'][i + 1:]])
    if spec['early']:
        yield dict(spec, early=False)
    if spec.get('forms'):
        yield {k: v for k, v in spec.items() if k != 'forms'}
    yield from prog.shrink_common(spec)


from runs import REAL, STUB, ASSUME  # noqa: E402,F401
