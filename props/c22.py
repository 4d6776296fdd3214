"""See DESIGN.md."""
PARTS = {'cpp', 'fnd', 'hist'}
RUNS = {'quick': 176, 'thorough': 9000}
CAP = {'quick': 150, 'thorough': 2400}
SEED = 1
RULE = ('Each seed runs the complete program on one world with seeded settings of everything that only concerns messages and bookkeeping (progress bars, verbose, debug, '
        'debug information, pre-check and process-number settings, the unused rotation percentage), seeded environment variables and working directory, and its output going to a console that is a file on '
        'the simulated disk, on which writes may be short, be interrupted, fail, tear or be the last one before a crash or before the disk is full. The stored results must be, bit for bit, '
        'those of a plain run; after a failing console there may instead be none. Non-trivial: another setting or a fault; distinct: by world, settings and operation log.')
INTER = 'hash of the settings and of the file operations of each run with the faults that hit them'
PROBES = ('opt_bars', 'opt_verbose', 'opt_debug', 'opt_info', 'soft', 'console_failed', 'stored', 'nothing_stored')
ENV = [('OMP_NUM_THREADS', ['1', '3', '64', '0', 'x']), ('COLUMNS', ['0', '7', '300', 'x']), ('TZ', ['Asia/Kolkata', 'x/y', '']), ('LC_ALL', ['C', 'nl_BE.UTF-8', 'xx']), ('HOME', ['/nonexistent', '']),
       ('PYTHONUNBUFFERED', ['1']), ('TERM', ['dumb', '']), ('MKL_NUM_THREADS', ['2']), ('HDF5_USE_FILE_LOCKING', ['BEST_EFFORT']), ('LANG', ['tr_TR.UTF-8']), ('TMPDIR', ['/nonexistent'])]


def gen(rng, tier, i):
    import prog
    import runs
    c = prog.pool_cfg(SEED, rng, i, n=2 if tier == 'quick' else 60, tag='c22', **(dict(least=3, most=11, wide=(5, 5, 7, 11)) if i % 8 > 5 else dict(most=2)))
    s = dict(cfg=c, seed=rng.randrange(1 << 30), plan=[], budget=-1, before=rng.random() < 0.4,
             opt=dict(bars=rng.random() < 0.5, verbose=rng.random() < 0.5, debug=rng.random() < 0.4, info=rng.random() < 0.4, pre=rng.random() < 0.4,
                      np=rng.choice([1, 2, 8, 64]), rot=rng.choice([20, 20, 0, 35])),
             env=[[k, rng.choice(v)] for k, v in rng.sample(ENV, rng.choice([0, 1, 2, 4]))], cwd=rng.choice(['', '', 'run_scripts', 'run_scripts', 'docs']))
    x = rng.random()
    if x < 0.3:
        s['plan'] = [dict(r, sub='console') for r in runs.soft_plan(rng)]
    elif x < 0.55:
        s['plan'] = [runs.rule('write', rng.choice(['err', 'err', 'err', 'torn_crash', 'crash_before', 'crash_after']), arg=rng.choice([5, 28, 9, 32, 11]),
                               nth=rng.randint(1, rng.choice([1, 2, 8, 60])), count=rng.choice([1, 3, 100000]), sub='console')]
    elif x < 0.7:
        s['budget'] = rng.choice([0, 1, 30, 300, 2000, 20000])
    return s


def preload():
    import prog  # noqa: F401
    import runs
    runs.preload()
    import log_formatter  # noqa: F401


def program(root, name, env, cwd):
    """The run script with its output going to a file."""
    def fn():
        import os
        import sys
        import time
        import logging
        os.environ.update(env)
        time.tzset()
        os.makedirs(os.path.join(root, cwd), exist_ok=True)
        os.chdir(os.path.join(root, cwd))
        os.close(1)
        f = os.open(os.path.join(root, 'console.log'), os.O_WRONLY | os.O_CREAT | os.O_TRUNC | os.O_APPEND, 0o644)
        os.close(2)
        if f != 1 or os.dup(1) != 2:
            raise RuntimeError('harness: no console')
        sys.argv = ['prog', 'run', 'toml', 'inlists/', '--save_file_name', name]
        logging.disable(logging.NOTSET)
        import log_formatter
        import aerunners.solve_quadratic as q
        q.perform_complete_solve_run(log_formatter.set_up_root_logger())
        sys.stdout.flush()
    return fn


def _run(spec, c):
    import os
    import host
    import prog
    import runs
    import world
    from saves import Bad
    cfg = spec['cfg']
    name, g = prog.good_ref(cfg)
    root = c.world(cfg)
    old = None
    if spec['before']:
        p = c.solve(root, cfg, seed=5)
        if p.status != 'ok':
            raise Bad('run_fails', f'a plain run ended with {p.status} {p.exc}')
    os.makedirs(os.path.join(root, spec['cwd']), exist_ok=True)
    world.write_inlist(os.path.join(root, 'inlists', 'run.toml'), root, dict(cfg, opt=spec['opt']))
    before = runs.tree(root)
    with runs.Untouched(c, root, [name], skip=('out',), free=('./', 'console.log')) as alone:
        p = host.proc(program(root, 'results', dict(spec['env']), spec['cwd']), root, seed=spec['seed'], plan=spec['plan'], budget=spec['budget'], gsched=prog.gs(cfg),
                      flags=host.SHUFFLE | host.CLOCK | host.POISON)
    p.hit = c.took(p, spec['plan'])
    after = runs.tree(root)
    soft = spec['plan'] and all(r['act'] in (host.ACT['short'], host.ACT['eintr']) for r in spec['plan'])
    what = f'a run with {spec["opt"]}, {spec["env"]} in ./{spec["cwd"]}, console {spec["plan"] or spec["budget"]}, which ended with {p.status} {p.exc[:120]},'
    for k, v in spec['opt'].items():
        c.hit('opt_' + k, v is True)
    if p.status in ('timeout', 'signal', 'noprogress', 'livelock'):
        raise Bad('hangs_or_dies', f'{what} died')
    if p.status != 'ok' and (not p.hit or soft):
        raise Bad('run_fails', f'{what} met nothing that may stop it: {getattr(p, "tb", "")[-300:]}')
    got = prog.result(root)
    c.hit('soft', bool(soft and p.hit))
    c.hit('console_failed', bool(p.hit and not soft))
    c.hit('stored', name in got)
    c.hit('nothing_stored', name not in got)
    c.nontriv = True
    if p.status == 'ok' and name not in got:
        raise Bad('other_files', f'{what} stored {sorted(got)} instead of {name}')
    if spec['before'] and name not in got:
        raise Bad('lost_results', f'{what} lost the results of the run before')
    for f, v in got.items():
        if f != name:
            raise Bad('other_files', f'{what} stored {f}')
        d = runs.diff(v, g)
        if d:
            raise Bad('other_results', f'{what} left {f} different in {d}: {prog.show(v, g, d[0])}')
    ch = [k for k in sorted(set(before) | set(after)) if before.get(k) != after.get(k) and not k.endswith('/')]
    bad = [k for k in ch if k not in ('console.log', name) and not (p.status != 'ok' and k.startswith('out/'))]
    if bad:
        raise Bad('files_changed', f'{what} changed {bad[:4]}')
    alone.check(what)
    if spec['opt']['debug'] and p.status == 'ok' and not p.hit:
        with open(os.path.join(root, 'console.log')) as f:
            c.hit('console_bytes', len(f.read()))
    c.dig.append(sorted((k, runs.hsh(sorted(v.items())) if v else None) for k, v in got.items()))
    c.inter.append(runs.hsh(spec['opt'], spec['env'], spec['cwd']))


def run(spec):
    import prog
    return prog.wrap(_run)(spec)


def shrink(spec):
    import prog
    if spec['before']:
        yield dict(spec, before=False)
    for k, v in (('bars', False), ('verbose', False), ('debug', False), ('info', False), ('pre', False), ('np', 8), ('rot', 20)):
        if spec['opt'][k] != v:
            yield dict(spec, opt=dict(spec['opt'], **{k: v}))
    for i in range(len(spec['env'])):
        yield dict(spec, env=spec['env'][:i] + spec['env'][i + 1:])
    if spec['cwd']:
        yield dict(spec, cwd='')
    if spec['budget'] >= 0:
        yield dict(spec, budget=-1)
    yield from prog.shrink_common(spec)


from runs import REAL, STUB, ASSUME  # noqa: E402,F401
