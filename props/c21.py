"""See DESIGN.md."""
PARTS = {'cpp', 'fnd', 'hist'}
RUNS = {'quick': 88, 'thorough': 4000}
CAP = {'quick': 200, 'thorough': 2400}
SEED = 1
RULE = ('Each seed stores the results of one to three models, each in one to three files, and runs the complete plot program one to three times on them, with seeded '
        'directory order, clock and fresh memory, while any file operation may fail, be short, be interrupted or be the last one before a crash or before the disk is full, or after a '
        'selected file was spoilt. A run that ends well must leave every requested figure, bit for bit the one drawn in an undisturbed run from one file per model; '
        'no run may touch anything but the requested figures, and one that cannot load the results touches nothing. Non-trivial: a fault fired, a file was spoilt or a model has several files; '
        'distinct: by contents, faults and operation log.')
INTER = 'hash of the file operations of each run with the faults that hit them'
PROBES = ('figures_compared', 'refused', 'soft', 'write_failed', 'damaged', 'run_crash')
FIGS = {}


def gen(rng, tier, i):
    import runs
    import ana
    import props.c20 as c20
    ms = []
    for m in range(rng.choice([1, 1, 2, 3])):
        ms.append(dict(km=((0, 0, 0), (2, 1, 1)), files=[dict(spec=rng.choice(['', 'x']), how=[['rows', rng.randrange(1 << 30), rng.choice([2, 8, 30, 90])]])
                                                         for f in range(rng.choice([1, 1, 2, 3]))]))
    steps = []
    for k in range(rng.choice([1, 2, 2, 3])):
        s = dict(seed=rng.randrange(1 << 30), plan=[], budget=-1)
        x = rng.random()
        if x < 0.3:
            s['plan'] = runs.soft_plan(rng)
        elif x < 0.5:
            s['plan'] = [runs.rule(rng.choice(['openw', 'write', 'write', 'mkdir', 'close', 'trunc', 'rename', 'fsync']), rng.choice(['err', 'err', 'crash_before', 'crash_after']),
                                   arg=rng.choice([5, 28, 13]), nth=rng.randint(1, rng.choice([1, 3])), count=rng.choice([1, 100000]), sub='plots')]
        elif x < 0.6:
            s['budget'] = rng.choice([0, 1, 100, 3000])
        elif x < 0.75:
            s['plan'] = [runs.rule(rng.choice(['read', 'openr']), rng.choice(['err', 'err', 'crash_before']), arg=rng.choice([5, 2, 13]),
                                   nth=rng.randint(1, rng.choice([2, 8, 30])), count=rng.choice([1, 100000]), sub='out')]
        elif x < 0.88:
            m = rng.randrange(len(ms))
            s['damage'] = [m, rng.randrange(len(ms[m]['files'])), rng.choice(c20.DAMAGE[:-2]), rng.random(), rng.randrange(1 << 30)]
        steps.append(s)
    sh, ov = rng.choice([(True, False), (False, True), (True, True)])
    return dict(models=ms, form=ana.a_form(rng, ms), steps=steps, sharp=sh, overview=ov, formats=rng.choice([['png'], ['png'], ['png', 'jpg']]), sub=rng.choice(['', 'fig']),
                save_dir=rng.choice(['', 'here']))


def preload():
    import saves
    import ana  # noqa: F401
    saves.preload()
    import logging
    import aerunners.plot_quadratic  # noqa: F401
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    f = plt.figure()
    f.text(0.5, 0.5, r'$\Omega$ x')
    import io
    f.savefig(io.BytesIO(), format='png')
    plt.close(f)
    logging.disable(logging.CRITICAL)
    FIGS.clear()


def figures(root):
    import os
    d = os.path.join(root, 'plots')
    out = {}
    for p, ds, fs in os.walk(d):
        for f in fs:
            with open(os.path.join(p, f), 'rb') as h:
                out[os.path.relpath(os.path.join(p, f), root)] = h.read()
    return out


def _ref(spec, data):
    """The figures of an undisturbed run on the same results, one file per model."""
    import host
    import os
    import runs
    import ana
    v = [ana.concat(held) for held in data]
    opt = [spec['sharp'], spec['overview'], spec['formats'], spec['sub'], spec['save_dir']]
    k = runs.hsh([sorted((n, x.tobytes()) for n, x in m.items()) for m in v], opt)
    if k not in FIGS:
        if len(FIGS) > 200:
            FIGS.clear()
        with host.Scratch() as d:
            root = runs.root_of(d, 'one')
            for i, (m, held) in enumerate(zip(v, data)):
                ana.write(os.path.join(root, 'out', 'hdf5_output', f'one{i}_k_0_0_0_m_2_1_1.h5'), held[0], m)
            ana.write_inlist(root, [[(f'one{i}', '', (0, 0, 0), (2, 1, 1))] for i in range(len(v))], sharp=spec['sharp'], overview=spec['overview'],
                             formats=spec['formats'], sub=spec['sub'], save_dir=spec['save_dir'])
            p = host.proc(ana.plots(root), root, flags=0)
            FIGS[k] = (p.status, p.exc[:200] + getattr(p, 'tb', '')[-300:], figures(root))
    return FIGS[k]


def _run(spec, c):
    import os
    import runs
    import ana
    import props.c20 as c20
    from saves import Bad
    root, models, data = ana.place(spec['models'], c, form=spec.get('form'))
    d = os.path.join(root, 'out', 'hdf5_output')
    path = lambda m, f: os.path.join(d, ana.file_name(*models[m][f][:2], models[m][f][2:]))
    ana.write_inlist(root, models, sharp=spec['sharp'], overview=spec['overview'], formats=spec['formats'], sub=spec['sub'], save_dir=spec['save_dir'], form=spec.get('form'))
    data = ana.joined(data, spec.get('form'))
    st, why, want = _ref(spec, data)
    if st != 'ok':
        raise Bad('plain_plots_fail', f'an undisturbed plot run ended with {st} {why}')
    if len(want) != len(spec['formats']) * (spec['sharp'] + spec['overview']):
        raise Bad('figures_missing', f'an undisturbed plot run left {sorted(want)}')
    c.nontriv = any(len(m) > 1 for m in models)
    for no, s in enumerate(spec['steps']):
        if s.get('damage'):
            q = path(*s['damage'][:2])
            with open(q, 'rb') as f:
                kept = f.read()
            c20.damage(q, *s['damage'][2:])
            c.hit('damaged')
        before = runs.tree(root)
        with runs.Untouched(c, root, skip=('plots',), free=('./',)) as alone:
            p = ana.go(c, ana.plots(root), root, seed=s['seed'], plan=s['plan'], budget=s['budget'])
        after = runs.tree(root)
        what = f'plot run {no} of {[len(m) for m in models]} files with {s["plan"] or s.get("damage") or s["budget"]}, which ended with {p.status} {p.exc[:100]},'
        if p.status in ('timeout', 'signal'):
            raise Bad('hangs_or_dies', what)
        hard = bool(s.get('damage')) or s['budget'] >= 0
        if p.status == 'exc' and not hard and not p.hit:
            raise Bad('plots_fail', f'{what} met no fault: {getattr(p, "tb", "")[-300:]}')
        c.nontriv = c.nontriv or hard or bool(p.hit)
        ch = sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k) and not k.endswith('/'))
        bad = [k for k in ch if not k.startswith('plots/')]
        if bad:
            raise Bad('files_changed', f'{what} changed {bad[:3]}')
        alone.check(what)
        if s.get('damage') and (p.status == 'ok' or ch):
            raise Bad('spoilt_results_plotted', f'{what} accepted a spoilt result file and drew {ch[:3]}')
        figs = figures(root)
        if p.status == 'ok':
            for k in sorted(set(want) | set(figs)):
                c.hit('figures_compared')
                if figs.get(k) != want.get(k):
                    raise Bad('other_figure', f'{what} left {k} ' + ('missing' if k not in figs else 'nobody asked for' if k not in want else
                                                                     f'different from the one drawn undisturbed ({len(figs[k])} and {len(want[k])} bytes)'))
        else:
            c.hit('refused')
            if any(r['sub'] == 'out' for r in s['plan']) and ch and p.status == 'exc':
                raise Bad('spoilt_results_plotted', f'{what} could not load the results and drew {ch[:3]}')
            stray = [k for k in figs if k not in want]
            if stray and p.status == 'exc':
                raise Bad('stray_file', f'{what} left {stray[:3]}')
        c.hit('write_failed', p.status == 'exc' and any(r['sub'] == 'plots' for r in s['plan']))
        c.hit('soft', bool(p.hit) and p.status == 'ok')
        if s.get('damage'):
            if os.path.isdir(q):
                os.rmdir(q)
            elif os.path.lexists(q):
                os.unlink(q)
            with open(q, 'wb') as f:
                f.write(kept)
        c.dig.append((p.status, runs.hsh(sorted((k, runs.hsh(v)) for k, v in figs.items()) if p.status == 'ok' else 0)))
    c.inter.append(runs.hsh([[sorted(h.items()) for h in m] for m in data]))


def run(spec):
    import prog
    return prog.wrap(_run)(spec)


def shrink(spec):
    if len(spec['steps']) > 1:
        for i in range(len(spec['steps'])):
            yield dict(spec, steps=spec['steps'][:i] + spec['steps'][i + 1:])
    used = {s['damage'][0] for s in spec['steps'] if s.get('damage')}
    ms = spec['models']
    if len(ms) > 1 and len(ms) - 1 not in used:
        yield dict(spec, models=ms[:-1])
    for i, m in enumerate(ms):
        if len(m['files']) > 1 and i not in used:
            yield dict(spec, models=ms[:i] + [dict(m, files=m['files'][:-1])] + ms[i + 1:])
    for i, s in enumerate(spec['steps']):
        if s['plan']:
            yield dict(spec, steps=spec['steps'][:i] + [dict(s, plan=[])] + spec['steps'][i + 1:])
    for k in ('sharp', 'overview'):
        if spec['sharp'] and spec['overview']:
            yield dict(spec, **{k: False})
    if len(spec['formats']) > 1:
        yield dict(spec, formats=spec['formats'][:1])


REAL = ['the complete plot program from its command line entry point to the stored figures', 'the HDF5 library, h5py, numpy, matplotlib']
STUB = ['kernel file system interface (simio)', 'clock, randomness, fresh heap memory and directory order (simio)',
        'results with many triads: arrays of seeded values in the layout of a real result file', 'no window is shown']
ASSUME = ['figures are compared in raster formats; vector formats carry the date']
