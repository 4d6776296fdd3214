"""See DESIGN.md."""
PARTS = {'cpp', 'fnd', 'hist'}
RUNS = {'quick': 240, 'thorough': 14000}
CAP = {'quick': 150, 'thorough': 2400}
SEED = 1
RULE = ('Each seed stores the results of one to three models and runs the complete analysis program on them while file operations fail or are the last one '
        'before a crash, after selected files were removed, cut short, emptied, overwritten or replaced, or at the same time as one to three saves of other results under the selected '
        'names, with every file operation of all processes ordered by a seeded scheduler. The program must print the whole report on stored results '
        '(each file entirely from one save) or stop with an error before any statement about a model. Non-trivial: a fault fired, a file was damaged or the scheduler switched; '
        'distinct: by interleaving, damage and operation log.')
INTER = 'hash of the damage, of the file operations with the faults that hit them and of the sequence in which the processes were allowed their operations'
PROBES = ('refused', 'reported', 'damaged', 'saved_meanwhile', 'read_old', 'read_new', 'killed_saves')
DAMAGE = ('gone', 'cut', 'cut', 'empty', 'garbage', 'directory', 'dangling', 'other', 'group', 'dataset')


def gen(rng, tier, i):
    import runs
    import ana
    x = rng.random()
    kind = 'damage' if x < 0.35 else 'fault' if x < 0.65 else 'saves'
    ms = []
    for m in range(rng.choice([1, 1, 2, 3])):
        fs = [dict(spec=rng.choice(['', 'x']), how=[['rows', rng.randrange(1 << 30), rng.choice([1, 3, 8, 30])] if kind != 'saves'
                                                   else ['save', rng.choice(['a1', 'a3']), rng.randrange(1 << 30), 0]]) for f in range(rng.choice([1, 1, 2]))]
        ms.append(dict(km=((0, 0, 0), (2, 1, 1)), files=fs))
    s = dict(kind=kind, models=ms, seed=rng.randrange(1 << 30), actions=rng.choice([[1] * 5, [1] * 5, [rng.randint(0, 1) for _ in range(5)]]), plan=[])
    pick = lambda: (lambda m: [m, rng.randrange(len(ms[m]['files']))])(rng.randrange(len(ms)))
    if kind == 'damage':
        s['damage'] = [[*pick(), rng.choice(DAMAGE), rng.random(), rng.randrange(1 << 30)] for _ in range(rng.choice([1, 1, 2]))]
    elif kind == 'fault':
        for _ in range(rng.choice([1, 1, 2])):
            s['plan'].append(runs.rule(rng.choice(['read', 'read', 'openr', 'openr', 'stat', 'opendir']), rng.choice(['err', 'err', 'err', 'crash_before', 'crash_after']),
                                       arg=rng.choice([5, 2, 13, 24, 12]), nth=rng.randint(1, rng.choice([2, 8, 30, 80])), count=rng.choice([1, 1, 100000]),
                                       sub=rng.choice(['out', 'out', 'out', 'inlists'])))
    else:
        s['saves'] = [dict(at=pick(), item=[rng.choice(['a1', 'a3']), rng.randrange(1 << 30)], seed=rng.randrange(1 << 30),
                           kill=rng.randint(1, rng.choice([5, 15, 40])) if rng.random() < 0.25 else None) for _ in range(rng.choice([1, 1, 2, 3]))]
        s['sched'] = [rng.randrange(1 << 30), rng.randrange(3)]
    s['form'] = ana.a_form(rng, ms)
    return s


def preload():
    import saves
    import ana
    saves.preload()
    import aerunners.analyze_quadratic  # noqa: F401
    ana.REPORT.clear()


def damage(path, how, frac, seed):
    """Spoil a stored file: it does not hold complete results any more."""
    import os
    import random
    import h5py
    import ana
    r = random.Random(seed)
    with open(path, 'rb') as f:
        b = f.read()
    if how == 'cut':
        with open(path, 'r+b') as f:
            f.truncate(int(len(b) * frac))
        return
    if how in ('group', 'dataset'):
        need = ['quantum_numbers', 'checks', 'mode_frequency_info', 'linear_driving', 'coupling'] if how == 'group' else \
            ['quantum_numbers/n', 'checks/pre_checks', 'mode_frequency_info/corot_mode_omegas', 'linear_driving/driving_rates',
             'coupling/stationary_three_mode/critical_parent_amplitudes', 'coupling/stationary_three_mode/surface_flux_variations']
        with h5py.File(path, 'r+') as h:
            n = r.choice(need)
            if n in h:
                del h[n]
        return
    os.unlink(path)
    if how == 'empty':
        open(path, 'wb').close()
    elif how == 'garbage':
        with open(path, 'wb') as f:
            f.write(r.randbytes(int(len(b) * frac) + 8))
    elif how == 'directory':
        os.mkdir(path)
    elif how == 'dangling':
        os.symlink(os.path.join(os.path.dirname(path), 'elsewhere.h5'), path)
    elif how == 'other':
        with open(path, 'w') as f:
            f.write('n,l,m\n1,2,2\n')


def _reports(out):
    import ana
    return [s for m, s in ana.statements(out)]


def _run(spec, c):
    import os
    import host
    import runs
    import ana
    from saves import Bad
    root, models, data = ana.place(spec['models'], c, form=spec.get('form'))
    ana.write_inlist(root, models, actions=spec['actions'], form=spec.get('form'))
    d = os.path.join(root, 'out', 'hdf5_output')
    path = lambda m, f: os.path.join(d, ana.file_name(*models[m][f][:2], models[m][f][2:]))
    if spec['kind'] == 'saves':
        return _saves(spec, c, root, models, data, path)
    hurt = []
    for m, f, how, frac, seed in spec.get('damage', ()):
        if [m, f] not in hurt:
            damage(path(m, f), how, frac, seed)
            hurt.append([m, f])
            c.hit('damaged')
            c.hit('damage_' + how)
    before = runs.tree(root)
    with runs.Untouched(c, root) as alone:
        p = ana.go(c, ana.analysis(root), root, seed=spec['seed'], plan=spec['plan'])
    what = f'the analysis of {len(models)} models ' + (f'after {[x[2] for x in spec["damage"]]}' if hurt else f'with faults {[(x["act"], x["arg"], x["nth"]) for x in spec["plan"]]}')
    if runs.tree(root) != before:
        raise Bad('files_changed', f'{what} changed files')
    alone.check(what)
    c.nontriv = bool(hurt) or bool(p.hit)
    c.dig.append((p.status, runs.hsh(p.out.replace(root, ''))))
    c.inter.append(runs.hsh(spec.get('damage')))
    got = _reports(p.out)
    if p.status in ('timeout', 'signal'):
        raise Bad('hangs_or_dies', f'{what} ended with {p.status} {p.exc[:200]}')
    if p.status == 'ok':
        c.hit('reported')
        if hurt:
            raise Bad('spoilt_results_accepted', f'{what} ended well and said {[s[:80] for s in got[:2]]}')
        ana.judge(c, spec['actions'], p.out, ana.joined(data, spec.get('form')), what)
    else:
        c.hit('refused')
        if not hurt and not p.hit:
            raise Bad('analysis_fails', f'{what} met no fault and ended with {p.status} {p.exc[:200]}: {getattr(p, "tb", "")[-300:]}')
        if got:
            raise Bad('partial_report', f'{what} ended with {p.status} {p.exc[:100]}, but reported {got[0][:100]!r}')


def _saves(spec, c, root, models, data, path):
    import itertools
    import os
    import conc
    import host
    import runs
    import saves
    import ana
    from saves import Bad
    flags = host.SHUFFLE | host.CLOCK | host.POISON
    jobs = [(ana.analysis(root), None, dict(seed=spec['seed'], flags=flags))]
    for s in spec['saves']:
        nm = os.path.basename(path(*s['at']))[:-3].split('_k_')[0]
        jobs.append((saves.saver(root, nm, s['item']), s['kill'], dict(seed=s['seed'], flags=flags)))
    span, trace, sw = conc.run(jobs, root, *spec['sched'])
    c.inter.append(runs.hsh(trace))
    c.hit('switches', sw)
    c.hit('saved_meanwhile', len(spec['saves']))
    c.nontriv = sw > len(jobs)
    t0, t1, p = span[0]
    what = f'the analysis of {len(models)} models beside {[(s["at"], s["kill"]) for s in spec["saves"]]}'
    could = {}
    for k, s in enumerate(spec['saves']):
        a, b, q = span[k + 1]
        q.hit = c.took(q)
        killed = q.status == 'crash' and s['kill']
        c.hit('killed_saves', bool(killed))
        c.hit('fault:process_killed', bool(killed))
        if q.status != 'ok' and not killed:
            raise Bad('save_fails', f'{what}; save {k} met no fault and ended with {q.status} {q.exc[:200]}')
        could.setdefault(tuple(s['at']), []).append((a, b, not killed, s['item']))
    p.hit = c.took(p)
    if p.status != 'ok':
        raise Bad('analysis_fails', f'{what} met no fault and ended with {p.status} {p.exc[:200]}: {getattr(p, "tb", "")[-300:]}')
    choice = []
    for m, held in enumerate(data):
        for f in range(len(held)):
            ws = could.get((m, f), [])
            v = [('read_old', held[f])] if not any(b < t0 and sure for a, b, sure, it in ws) else []
            for a, b, sure, it in ws:
                if a < t1 and not any(s2 and b < a2 and b2 < t0 for a2, b2, s2, _ in ws):
                    v.append(('read_new', saves.full_of(it)))
            choice.append(v)
    why = None
    for pick in itertools.product(*choice):
        it = iter(pick)
        try:
            ana.judge(c, spec['actions'], p.out, ana.joined([[next(it)[1] for _ in held] for held in data], spec.get('form')), what)
        except Bad as e:
            why = why or e
            continue
        for k, v in zip(pick, choice):
            if len(v) > 1:
                c.hit(k[0])
        break
    else:
        raise Bad('mixed_report', f'{what}: none of {[len(v) for v in choice]} choices of whole files explains the report: {why}')
    c.dig.append(runs.hsh(p.out.replace(root, '')))


def run(spec):
    import prog
    return prog.wrap(_run)(spec)


def shrink(spec):
    ms = spec['models']
    for k in ('damage', 'saves', 'plan'):
        if len(spec.get(k) or ()) > 1:
            for i in range(len(spec[k])):
                yield dict(spec, **{k: spec[k][:i] + spec[k][i + 1:]})
    used = {x[0] for x in spec.get('damage', ())} | {s['at'][0] for s in spec.get('saves', ())}
    if len(ms) > 1 and len(ms) - 1 not in used:
        yield dict(spec, models=ms[:-1])
    for i, m in enumerate(ms):
        if len(m['files']) > 1 and not any([i, len(m['files']) - 1] == list(x) for x in [x[:2] for x in spec.get('damage', ())] + [s['at'] for s in spec.get('saves', ())]):
            yield dict(spec, models=ms[:i] + [dict(m, files=m['files'][:-1])] + ms[i + 1:])
    for i, s in enumerate(spec.get('saves', ())):
        if s['kill']:
            yield dict(spec, saves=spec['saves'][:i] + [dict(s, kill=None)] + spec['saves'][i + 1:])
    for k in range(5):
        if spec['actions'][k]:
            a = list(spec['actions'])
            a[k] = 0
            yield dict(spec, actions=a)
    if spec.get('sched'):
        for q in (1, 2):
            for n in (1, 2, 3):
                yield dict(spec, sched=[n, q])


REAL = ['the complete analysis program from its command line entry point to the printed report; the saver that stores results meanwhile', 'the HDF5 library, h5py, numpy']
STUB = ['kernel file system interface (simio)', 'the order in which processes reach the file system (seeded scheduler)', 'clock, randomness, fresh heap memory and directory order (simio)',
        'results with many triads: arrays of seeded values in the layout of a real result file']
ASSUME = ['altered bytes inside an array of a file that is otherwise intact cannot be noticed: result files carry no checksums']
