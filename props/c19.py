"""See DESIGN.md."""
PARTS = {'cpp', 'fnd', 'hist'}
RUNS = {'quick': 160, 'thorough': 9000}
CAP = {'quick': 150, 'thorough': 2400}
SEED = 1
RULE = ('Each seed stores the results of one to nine models, each in one to three files, some by a history of saves by the real saver that may be '
        'killed, some with many triads, with other files beside them, and runs the complete analysis program on them with seeded directory '
        'order, clock, fresh memory and transient faults. The report on every model must be the one on this model alone, stored in one file of an otherwise empty '
        'directory; the totals are the sums; and the counts must be those of the stored arrays. Non-trivial: two models or files, or a history of saves; '
        'distinct: by reports and operation logs.')
INTER = 'hash of the file operations of each run with the faults that hit them'
PROBES = ('models', 'files', 'saves', 'killed_saves', 'counts_compared', 'isolated', 'soft')


def gen(rng, tier, i):
    import runs
    import ana
    ms = []
    same = [[rng.choice([2, 5, 20, 60]), rng.randrange(1 << 30)]] if rng.random() < 0.4 else []
    for m in range(rng.choice([1, 2, 2, 3, 3, 4, 6, 9])):
        km = rng.choice([((0, 0, 0), (2, 1, 1)), ((0, 0, 0), (2, 1, 1)), ((1, 0, 0), (1, 1, 1)), ((2, 1, 1), (0, 0, 0))])
        fs = []
        for f in range(rng.choice([1, 1, 2, 3])):
            x = rng.random()
            if x < 0.55:
                w = [['rows', rng.randrange(1 << 30), rng.choice([1, 2, 5, 20, 60, 200])]]
                if same and rng.random() < 0.7:
                    w = [['rows', w[0][1], *same[0]]]
            else:
                w = [['save', rng.choice({(0, 0, 0): ['a1', 'a3'], (2, 1, 1): ['b1']}.get(km[0], ['a1'])), rng.randrange(1 << 30),
                      rng.randint(1, 20) if k and rng.random() < 0.4 else 0] for k in range(rng.choice([1, 1, 2, 3]))]
                if km[0] == (1, 0, 0):
                    w = [['rows', rng.randrange(1 << 30), 3]]
            fs.append(dict(spec=rng.choice(['', '', 'x', 'a_b']), how=w))
        ms.append(dict(km=km, files=fs))
    near = [rng.randrange(1 << 30) for _ in range(rng.choice([0, 0, 1, 3]))]
    act = rng.choice([[1] * 5] * 3 + [[rng.randint(0, 1) for _ in range(5)]])
    return dict(models=ms, form=ana.a_form(rng, ms), near=near, actions=act, seed=rng.randrange(1 << 30), verbose=rng.random() < 0.2,
                plan=runs.soft_plan(rng) if rng.random() < 0.3 else [])


def preload():
    import saves
    import ana
    saves.preload()
    import aerunners.analyze_quadratic  # noqa: F401
    ana.REPORT.clear()


def _run(spec, c):
    import ana
    import runs
    from saves import Bad
    root, models, data = ana.place(spec['models'], c, spec['near'], spec.get('form'))
    ana.write_inlist(root, models, actions=spec['actions'], verbose=spec['verbose'], form=spec.get('form'))
    data = ana.joined(data, spec.get('form'))
    before = runs.tree(root)
    with runs.Untouched(c, root) as alone:
        p = ana.go(c, ana.analysis(root), root, seed=spec['seed'], plan=spec['plan'])
    c.hit('models', len(models))
    c.hit('files', sum(len(m) for m in models))
    c.hit('soft', p.hit)
    what = f'the analysis of {len(models)} models in {[len(m) for m in models]} files'
    if p.status != 'ok':
        raise Bad('analysis_fails', f'{what} ended with {p.status} {p.exc[:200]}: {getattr(p, "tb", "")[-300:]}')
    if runs.tree(root) != before:
        raise Bad('files_changed', f'{what} changed files')
    alone.check(what)
    ana.judge(c, spec['actions'], p.out, data, what)
    c.nontriv = len(models) > 1 or len(models[0]) > 1 or c.st.get('saves', 0) > 1
    c.dig.append(runs.hsh(p.out.replace(root, '')))
    c.inter.append(runs.hsh([[sorted(h.items()) for h in m] for m in data], spec['actions']))


def run(spec):
    import prog
    return prog.wrap(_run)(spec)


def _without(form, i):
    return dict(std=form['std'] and form['std'][:i] + form['std'][i + 1:], plain=[j - (j > i) for j in form['plain'] if j != i])


def shrink(spec):
    ms = spec['models']
    for i in range(len(ms)):
        if len(ms) > 1:
            yield dict(spec, models=ms[:i] + ms[i + 1:], form=_without(spec['form'], i))
    if spec['form']['std'] or spec['form']['plain']:
        yield dict(spec, form=dict(std=None, plain=spec['form']['plain']))
        yield dict(spec, form=dict(std=spec['form']['std'], plain=[]))
    for i, m in enumerate(ms):
        for j, f in enumerate(m['files']):
            if len(m['files']) > 1:
                yield dict(spec, models=ms[:i] + [dict(m, files=m['files'][:j] + m['files'][j + 1:])] + ms[i + 1:])
            w = f['how']
            for v in ([w[:-1]] if len(w) > 1 else []) + ([[[*w[0][:2], n, *w[0][3:]]] for n in (1, 2, 5, w[0][2] // 2) if n < w[0][2]] if w[0][0] == 'rows' else []):
                yield dict(spec, models=ms[:i] + [dict(m, files=m['files'][:j] + [dict(f, how=v)] + m['files'][j + 1:])] + ms[i + 1:])
    if spec['near']:
        yield dict(spec, near=[])
    if spec['plan']:
        yield dict(spec, plan=[])
    for k in range(5):
        if spec['actions'][k]:
            a = list(spec['actions'])
            a[k] = 0
            yield dict(spec, actions=a)


REAL = ['the complete analysis program from its command line entry point to the printed report; the saver that stored the results', 'the HDF5 library, h5py, numpy']
STUB = ['kernel file system interface (simio)', 'clock, randomness, fresh heap memory and directory order (simio)',
        'results with many triads: arrays of seeded values in the layout of a real result file']
ASSUME = ['the names the report gives to its models: model1, model2, ...']
