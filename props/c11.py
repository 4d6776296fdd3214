"""See DESIGN.md."""
PARTS = {'cpp', 'fnd', 'hist'}
RUNS = {'quick': 420, 'thorough': 25000}
CAP = {'quick': 150, 'thorough': 2400}
SEED = 1
RULE = ('Each seed runs two to five processes at once on one output directory: saves of different result sets under the same or different names, '
        'readers of a result file, and sometimes a complete solve run or a save that is killed at an arbitrary operation. A seeded scheduler '
        'decides the order of every file operation of all of them. Saves and reads of one file must be explained by some serial order '
        'that respects which ended before which began; nobody without a fault may fail; no other file may appear. '
        'Non-trivial: the scheduler switched between processes; distinct: by interleaving and contents.')
INTER = 'hash of the sequence in which the processes were allowed their file operations'
PROBES = ('save_and_save', 'read_during_save', 'killed', 'solve_and_save', 'mode_a', 'mode_r+')


def gen(rng, tier, i):
    import prog
    import saves
    items = [saves.gen_item(rng, rng.choice([['a1', 'q1'], ['a3', 'p2'], ['a1', 'a3'], None])) for _ in range(5)]
    names = rng.choice([['r'], ['r', 'r'], ['r', 's'], ['r', 's', 'run-2.5'], ['r', 'r.h5', 'r_']])
    sub = rng.choice([['', ''], ['', ''], ['sub'], ['', 'sub'], ['new/deep']])
    before = [dict(name=n, item=saves.gen_item(rng, [items[0][0]]), sub=rng.choice(sub)) for n in set(names) if rng.random() < 0.6]
    before.sort(key=lambda b: b['name'])
    jobs = []
    for k in range(rng.choice([2, 2, 3, 3, 4, 5])):
        x = rng.random()
        n = rng.choice(names)
        if x < 0.6 or k == 0:
            j = dict(kind='save', name=n, item=rng.choice(items), sub=rng.choice(sub), seed=rng.randrange(1 << 30))
            if rng.random() < 0.2:
                j['kill'] = rng.randint(1, rng.choice([5, 15, 40]))
            elif rng.random() < 0.25:
                j['mode'] = rng.choice(['a', 'r+'])
                j['name'] = f'own{k}'
                j['sub'] = ''
                if j['mode'] == 'r+' or rng.random() < 0.7:
                    before.append(dict(name=j['name'], item=saves.gen_item(rng, [j['item'][0]]), sub='', path=True))
        else:
            j = dict(kind='read', name=n, sub=rng.choice(sub), seed=rng.randrange(1 << 30))
            own = [q['name'] for q in jobs if q.get('mode')]
            if own and rng.random() < 0.5:
                j.update(name=rng.choice(own), sub='')
        jobs.append(j)
    if rng.random() < 0.12:
        jobs[-1] = dict(kind='solve', name='solved', seed=rng.randrange(1 << 30))
    return {'before': before, 'jobs': jobs, 'sched': [rng.randrange(1 << 30), rng.randrange(3)],
            'cfg': prog.pool_cfg(SEED, rng, i, n=1, tag='c11', most=1, parallel=False) if jobs[-1]['kind'] == 'solve' else None}


def preload():
    import saves
    import prog  # noqa: F401
    saves.preload()


def _job(root, j, path):
    import os
    import runs
    import saves
    if j['kind'] == 'solve':
        return runs.solve_fn(root, j['name'])
    if j['kind'] == 'read':
        def fn():
            return runs._load(path) if os.path.exists(path) else None
        return fn
    if j.get('mode'):
        return saves.mode_saver(root, os.path.join(root, 'out', j['name'] + '.h5'), j['item'], j['mode'])
    return saves.saver(root, j['name'], j['item'], sub=j['sub'])


def _path(root, j, km):
    import os
    import saves
    if j.get('mode') or j.get('path') or j['name'].startswith('own'):
        return os.path.join(root, 'out', j['name'] + km + '.h5')
    return saves.path_of(root, dict(j, item=[[k for k, v in saves.KM.items() if v == km][0], 0]))


def _run(spec, c):
    import os
    import conc
    import host
    import prog
    import runs
    import saves
    from saves import Bad
    flags = host.SHUFFLE | host.CLOCK | host.POISON
    solving = any(j['kind'] == 'solve' for j in spec['jobs'])
    if solving:
        root = c.world(spec['cfg'])
        sname, sdata = prog.good_ref(spec['cfg'])
    else:
        root = runs.root_of(c.dir)
        os.makedirs(os.path.join(root, 'out'))
    first = {}
    for b in spec['before']:
        km = saves.KM[b['item'][0]]
        if b.get('path'):
            p = host.proc(saves.mode_saver(root, os.path.join(root, 'out', b['name'] + '.h5'), b['item'], 'w'), root, seed=77, flags=flags)
        else:
            p = host.proc(saves.saver(root, b['name'], b['item'], sub=b['sub']), root, seed=77, flags=flags)
        if p.status != 'ok':
            raise Bad('plain_save_fails', f'a single save ended with {p.exc or p.status} {p.tb[-300:]}')
        first[_path(root, b, km)] = saves.full_of(b['item'])
    jobs, paths = [], []
    for j in spec['jobs']:
        if j['kind'] == 'solve':
            path = None
        elif j['kind'] == 'read':
            like = [q for q in spec['jobs'] if q['kind'] == 'save' and q['name'] == j['name']] + \
                   [q for q in spec['before'] if q['name'] == j['name']] + [{'item': ['a1', 0]}]
            path = _path(root, j, saves.KM[like[0]['item'][0]])
        else:
            path = _path(root, j, saves.KM[j['item'][0]])
        paths.append(path)
        jobs.append((_job(root, j, path), j.get('kill'), dict(seed=j['seed'], flags=flags, gsched=prog.gs(spec['cfg']) if j['kind'] == 'solve' else None)))
    span, trace, sw = conc.run(jobs, root, *spec['sched'])
    c.inter.append(runs.hsh(trace))
    c.hit('switches', sw)
    c.nontriv = sw > len(jobs)
    byfile = {}
    what = ', '.join(f'{k}: {j["kind"]} {j.get("mode", "")} {os.path.relpath(q, root) if q else j["name"]}' + (f' (killed at {j["kill"]})' if j.get('kill') else '')
                     for k, (j, q) in enumerate(zip(spec['jobs'], paths)))
    for k, j in enumerate(spec['jobs']):
        t0, t1, p = span[k]
        p.hit = c.took(p)
        killed = p.status == 'crash' and j.get('kill')
        c.hit('killed', bool(killed))
        if killed:
            c.hit('fault:process_killed')
        elif p.status != 'ok':
            raise Bad('fails_beside_others', f'{what}; process {k} met no fault but ended with {p.status} {p.exc} {p.tb[-400:]} {p.out[-200:]}')
        if j['kind'] == 'solve':
            c.hit('solve_and_save')
            continue
        if j['kind'] == 'read':
            byfile.setdefault(paths[k], []).append((t0, t1, 'r', None, p.value, True))
        else:
            c.hit('mode_' + j.get('mode', 'w'))
            byfile.setdefault(paths[k], []).append((t0, t1, 'w', (j.get('mode', 'w'), saves.full_of(j['item'])), None, not killed))
    for path in sorted(set(byfile) | set(first)):
        ops = byfile.get(path, [])
        ws = [o for o in ops if o[2] == 'w']
        c.hit('save_and_save', any(a[0] < b[1] and b[0] < a[1] for a in ws for b in ws if a is not b))
        c.hit('read_during_save', any(a[0] < b[1] and b[0] < a[1] for a in ws for b in ops if b[2] == 'r'))
        got = runs.load(path) if os.path.exists(path) else None
        f = os.path.relpath(path, root)
        if got is None and os.path.exists(path):
            raise Bad('unreadable', f'{what}; afterwards {f} cannot be read')
        c.dig.append((f, runs.hsh(sorted(got.items()) if got else None)))
        ends = conc.linearise(ops + [(1 << 60, 1 << 61, 'r', None, got, True)], first.get(path), lambda s, a: saves.merge(s, a[1], a[0]))
        if not ends:
            seen = []
            names = [('earlier contents', first.get(path))] + [(f'save {k}', saves.full_of(j['item'])) for k, j in enumerate(spec['jobs']) if j['kind'] == 'save']
            for o in [o for o in ops if o[2] == 'r'] + [(0, 0, 0, 0, got)]:
                seen.append(next((n for n, v in names if v == o[4]), 'something else'))
            raise Bad('not_serial', f'{what}; {f}: readers saw {seen[:-1]}, afterwards it holds {seen[-1]}; no serial order explains this')
    if solving:
        got = runs.load(os.path.join(root, os.path.dirname(sname), 'solved' + os.path.basename(sname)[len('results'):]))
        d = runs.diff(got, sdata)
        if d:
            raise Bad('solve_disturbed', f'{what}; the complete run stored other results than alone: {d}')
    kills = any(j.get('kill') for j in spec['jobs'])
    okp = set(byfile) | set(first)
    for f in sorted(k for k in runs.tree(root) if k.startswith('out/') and not k.endswith('/')):
        p = os.path.join(root, f)
        if p in okp or solving and os.path.basename(f).startswith('solved'):
            continue
        if kills and not f.endswith('.h5'):
            c.hit('leftover_after_kill')
            continue
        raise Bad('stray_file', f'{what}; left {f} behind')


def run(spec):
    import prog
    return prog.wrap(_run)(spec)


def shrink(spec):
    js = spec['jobs']
    if len(js) > 1:
        for i in range(len(js)):
            yield dict(spec, jobs=js[:i] + js[i + 1:])
    for i, b in enumerate(spec['before']):
        if b.get('path'):       # overwriting needs a file
            continue
        yield dict(spec, before=spec['before'][:i] + spec['before'][i + 1:])
    for i, j in enumerate(js):
        if j.get('kill'):
            yield dict(spec, jobs=js[:i] + [{k: v for k, v in j.items() if k != 'kill'}] + js[i + 1:])
        if j.get('sub'):
            yield dict(spec, jobs=[dict(x, sub='') if 'sub' in x else x for x in js], before=[dict(x, sub='') for x in spec['before']])
    for p in (1, 2):
        if spec['sched'][1] != p:
            for s in (1, 2, 3):
                yield dict(spec, sched=[s, p])


from runs import REAL, STUB, ASSUME  # noqa: E402,F401
