"""See DESIGN.md."""
PARTS = {'cpp', 'fnd', 'hist'}
RUNS = {'quick': 120, 'thorough': 5000}
CAP = {'quick': 200, 'thorough': 2400}
SEED = 1
RULE = ('Each seed runs the complete coupling coefficient profile program one to three times on one world, with seeded directory order, clock, fresh memory, location, working directory and '
        'neighbouring files, while file operations may fail, be short, be interrupted or be the last one before a crash or before the disk is full, or after an input file was cut short. '
        'A run that ends well must leave every figure, bit for bit the one of an undisturbed run (dates in vector figures apart), and print the same numbers, which must be those a grid run stores for the triad; '
        'one that cannot read its inputs draws nothing. Non-trivial: figures were compared or a fault fired; distinct: by world, faults and operation log.')
INTER = 'hash of the file operations of each run with the faults that hit them'
PROBES = ('figures_compared', 'grid_compared', 'zones_compared', 'many_zones', 'terms_compared', 'soft', 'write_failed', 'input_failed', 'neighbours', 'no_profile')
REFS = {}


def gen(rng, tier, i):
    import random
    import prog
    import runs
    import props.c12 as c12
    per = 8
    k = (i % per) + per * rng.randrange(5 if tier == 'quick' else 60)
    r = random.Random(f'{SEED}/c24/{k}')
    c = runs.cfg_gen(r, poly=False)
    c.pop('poly', None)
    c.update(p_flip=0.02, detune=1e-3)
    if r.random() < 0.8:
        # waves of the buoyancy frequency: every order of valid and invalid zones, at the centre, the surface and in between
        x = r.random()
        c['brunt_scale'] = [10.0 ** r.uniform(1.3, 3), r.choice([0, 1, 2, 3, 4, 5, 6]), r.uniform(0, 6)] if x < 0.4 else \
            [10.0 ** r.uniform(1.8, 2.7), r.choice([2, 3, 4, 4, 5, 6]), r.choice([1.57, 1.57, -1.57]) + r.uniform(-0.3, 0.3)]
    n = {x: r.randint(*c['modes'][x]['n']) for x in ('parent', 'daughter_1', 'daughter_2')}
    d1, d2 = c['modes']['daughter_1'], c['modes']['daughter_2']
    if (d1['l'], d1['m']) == (d2['l'], d2['m']) and n['daughter_1'] > n['daughter_2']:
        n['daughter_1'], n['daughter_2'] = n['daughter_2'], n['daughter_1']
        d1['n'] = d2['n'] = [min(d1['n'][0], d2['n'][0]), max(d1['n'][1], d2['n'][1])]
    c['profile'] = dict(n=n, kernels=i == 3 if tier == 'quick' else r.random() < 0.05, terms=r.random() < 0.3)
    steps = []
    for j in range(rng.choice([1, 1, 2, 3])):
        s = dict(seed=rng.randrange(1 << 30), plan=[], budget=-1)
        x = rng.random()
        if x < 0.3:
            s['plan'] = runs.soft_plan(rng)
        elif x < 0.5:
            s['plan'] = [runs.rule(rng.choice(['openw', 'write', 'write', 'mkdir', 'close']), rng.choice(['err', 'err', 'err', 'crash_before', 'crash_after']),
                                   arg=rng.choice([5, 28, 13]), nth=rng.randint(1, rng.choice([1, 2, 6])), count=rng.choice([1, 100000]), sub='figure_output')]
        elif x < 0.58:
            s['budget'] = rng.choice([0, 1, 100, 3000, 30000])
        elif x < 0.75:
            s['plan'] = [runs.rule(rng.choice(['read', 'read', 'openr', 'opendir', 'stat']), 'err', arg=5, nth=rng.randint(1, rng.choice([2, 8, 60])), count=rng.choice([1, 100000]),
                                   sub=rng.choice(['GYRE', 'GYRE/ad', 'GYRE/nad', 'MESA', 'inlists']))]
        elif x < 0.85:
            s['cut'] = [rng.randrange(1 << 30), rng.random()]
        steps.append(s)
    near = [[rng.choice(c12.KINDS), rng.randrange(1 << 30)] for _ in range(rng.choice([0, 0, 1, 4]))]
    return dict(cfg=c, steps=steps, near=near, cwd=rng.choice(['', '', 'here']), name=rng.choice(['results', 'results', 'r.1']))


def preload():
    import runs
    import saves
    saves.preload()
    runs.preload()
    import props.c21 as c21
    c21.preload()
    import aerunners.solve_quadratic  # noqa: F401
    REFS.clear()


def program(root, cwd, name, keep=False):
    import runs
    go = runs.solve_fn(root, name)

    def fn():
        import os
        os.chdir(os.path.join(root, cwd))
        if keep:
            keep_profile(root)
        go()
    return fn


def keep_profile(root):
    """Note the profile that the solver offers after the run."""
    import json
    import os
    import aesolver
    cls = aesolver.QuadraticAEProfileSolver
    call = cls.__call__

    def kept(self, *a, **k):
        try:
            return call(self, *a, **k)
        finally:
            with open(os.path.join(root, 'profile.json'), 'w') as f:
                json.dump([float(x) for x in self.coupling_profile] if getattr(self, 'coupling_profile', None) is not None else None, f)
    cls.__call__ = kept


def zones(cfg, v, prof):
    """The change of the profile over each zone in which the buoyancy frequency is not ten times every other frequency."""
    import numpy as np
    import world
    n2 = world.brunt_n2(cfg)
    if len(prof) == len(n2) - 2:                      # the innermost and outermost points are left out
        n2 = n2[1:-1]
    if len(prof) != len(n2):
        return None
    ok = 0.1 * np.sqrt(n2) > 2 * 2 * np.pi * abs(v['rotation/surface_rotation_frequency'].ravel()[0])
    for w in v['mode_frequency_info/corot_mode_omegas'].ravel():
        ok &= 0.1 * np.sqrt(n2) > abs(w)
    out, i = [], 0
    while i < len(ok):
        if ok[i]:
            i += 1
            continue
        j = i
        while j < len(ok) and not ok[j]:
            j += 1
        out.append(prof[min(j, len(ok) - 1)] - prof[i])
        i = j
    return out


def figures(root, cwd):
    import os
    import re
    out = {}
    for p, ds, fs in os.walk(os.path.join(root, cwd, 'figure_output')):
        for f in fs:
            with open(os.path.join(p, f), 'rb') as h:
                out[os.path.relpath(os.path.join(p, f), os.path.join(root, cwd))] = re.sub(rb'/CreationDate \([^)]*\)', b'', h.read())
    return out


def said(out, root):
    import re
    return re.sub(r'(?m)^\d{4}-\d\d-\d\d \d\d:\d\d:\d\d ', '', out).replace(root, '')


def ended(p):
    """Whether a run ended without an error."""
    return p.status == 'ok' or p.status == 'exit' and p.exc in ('SystemExit(None)', 'SystemExit()', 'SystemExit(0)')


def ref(cfg, name):
    import host
    import os
    import prog
    import runs
    k = runs.hsh(cfg, name)
    if k not in REFS:
        if len(REFS) > 100:
            REFS.clear()
        with host.Scratch() as d:
            root = runs.root_of(d, 'one')
            runs.build(root, cfg)
            p = host.proc(program(root, '', name, keep=True), root, gsched=prog.gs(cfg))
            REFS[k] = (p.status, p.exc[:200] + getattr(p, 'tb', '')[-300:], figures(root, ''), said(p.out, root), ended(p), kept_profile(root))
    return REFS[k]


def kept_profile(root):
    import json
    import os
    if not os.path.exists(os.path.join(root, 'profile.json')):
        return None
    with open(os.path.join(root, 'profile.json')) as f:
        return json.load(f)


def grid(cfg):
    """What a grid run stores for the triad of the profile."""
    import prog
    import runs
    g = {k: v for k, v in cfg.items() if k != 'profile'}
    n = cfg['profile']['n']
    g['modes'] = {r: dict(g['modes'][r], n=[n[r], n[r]]) for r in n}
    name, d = prog.good_ref(g)
    v = runs.values(d)
    # the grid lists daughters of one kind in an order of its own
    if list(v['quantum_numbers/n'].ravel()) == [n['parent'], n['daughter_2'], n['daughter_1']] != [n['parent'], n['daughter_1'], n['daughter_2']]:
        v = {k: x[:, [0, 2, 1]] if getattr(x, 'shape', ()) == (1, 3) else x for k, x in v.items()}
    return v


def first(pat, text):
    import re
    m = re.search(pat, text)
    return None if m is None else [float(x) for x in m.group(1).replace('[', ' ').replace(']', ' ').replace(',', ' ').split()]


def check_numbers(cfg, text, prof, c):
    """The printed numbers against the stored ones of a grid run."""
    import numpy as np
    from saves import Bad
    v = grid(cfg)
    st = 'coupling/stationary_three_mode/'
    c.hit('grid_compared')
    for pat, want, tol in ((r'Normed coupling coefficient eta: (\S+),', v['coupling/generic/|kappa_norm|'].ravel(), 1e-9),
                           (r'Stationary amplitudes \(ppm\): (\[[^]]*\]),', v[st + 'equilibrium_theoretical_amplitudes'].ravel() * 1e6, 1e-6),
                           (r'Parent threshold amplitude for parametric resonance \(ppm\): (\S+),', v[st + 'critical_parent_amplitudes'].ravel() * 1e6, 1e-9),
                           (r'Surface luminosity fluctuations \(ppm\): (\[[^]]*\]),', v[st + 'surface_flux_variations'].ravel() * 1e6, 1e-6)):
        got = first(pat, text)
        if got is None or len(got) != len(want) or not np.allclose(got, want, rtol=tol, atol=tol * 1e-3, equal_nan=True):
            raise Bad('other_numbers', f'a profile run of the triad {cfg["profile"]["n"]} printed {got} for {pat.split(":")[0]}, a grid run stores {want}')
    # what the zones contribute and what is left after the adjustment is the whole, and so are the terms
    eta, adj = (first(p, text)[0] for p in (r'Normed coupling coefficient eta: (\S+),', r'Normed coupling coefficient eta: \S+, after adjustment for TAR validity: (\S+)'))
    parts = first(r'Contributions to the normed coupling coefficient due to TAR non-validity zones: (\[[^]]*\])', text)
    big = max(map(abs, parts + [eta, adj]), default=0)
    if not abs(adj + sum(parts) - eta) <= 1e-9 * big:
        raise Bad('zones_do_not_add_up', f'the coefficient is {eta}, {adj} after the adjustment, and the zones contribute {parts}')
    if prof and cfg.get('brunt') is not False:
        want = zones(cfg, v, prof)
        c.hit('zones_compared', want is not None)
        c.hit('many_zones', len(want or '') > 1)
        if want is not None and (len(parts) != len(want) or not np.allclose(parts, want, rtol=1e-9, atol=1e-9 * max(map(abs, prof)))):
            raise Bad('other_zones', f'the zones of the star in which the approximation does not hold contribute {want}, a profile run printed {parts}')
    terms = [first(rf'{x} normed coupling coefficient \(eta\) contribution: (\S+), after', text) for x in ('First', 'Second', 'Third', 'Fourth')]
    if cfg['profile']['terms']:
        q, k = v['coupling/generic/quadratic_terms'].ravel(), v['coupling/generic/|kappa|'].ravel()[0]
        want = q / k * eta
        if None in terms or not np.allclose([t[0] for t in terms], want, rtol=1e-8, atol=1e-10 * np.abs(want).max()):
            raise Bad('other_numbers', f'a profile run of the triad {cfg["profile"]["n"]} printed the terms {terms}, a grid run stores {want}')
        c.hit('terms_compared')


def _run(spec, c):
    import os
    import random
    import host
    import neighbours
    import prog
    import runs
    import world
    from saves import Bad
    cfg = spec['cfg']
    st, why, want, text, good, prof = ref(cfg, spec['name'])
    if st not in ('ok', 'exit', 'exc'):
        raise Bad('plain_profile_dies', f'an undisturbed profile run ended with {st} {why}')
    if good and want:
        check_numbers(cfg, text, prof, c)
    else:
        c.hit('no_profile')
    root = c.world(cfg)
    os.makedirs(os.path.join(root, spec['cwd']), exist_ok=True)
    for k, s in spec['near']:
        neighbours.add(root, cfg, k, random.Random(s), c)
        c.hit('neighbours')
    pre = os.path.normpath(os.path.join(spec['cwd'], 'figure_output')) + '/'
    for no, s in enumerate(spec['steps']):
        kept = None
        if s.get('cut'):
            gd, md, tag = neighbours.dirs(root, cfg)
            r = random.Random(s['cut'][0])
            n = cfg['profile']['n']
            roles = [(cfg['modes'][x]['l'], cfg['modes'][x]['m'], n[x]) for x in n]
            used = r.choice([[os.path.join(d, world.detail_name(*x, tag)) for x in roles for d in gd], [os.path.join(md, f'profile_{tag}.dat')]])
            f = r.choice(used)
            with open(f, 'rb') as h:
                kept = (f, h.read())
            size = len(kept[1])
            os.truncate(f, size - r.randrange(1, min(size, 60)) if r.random() < 0.4 else int(s['cut'][1] * size))
            c.hit('fault:file_cut')
        before = runs.tree(root)
        with runs.Untouched(c, root, skip=(pre[:-1],), free=('./', spec['cwd'] + '/')) as alone:
            p = host.proc(program(root, spec['cwd'], spec['name']), root, seed=s['seed'], plan=s['plan'], budget=s['budget'], gsched=prog.gs(cfg), flags=host.SHUFFLE | host.CLOCK | host.POISON)
        p.hit = c.took(p, s['plan'])
        after = runs.tree(root)
        what = f'profile run {no} with {s["plan"] or s.get("cut") or s["budget"]}, which ended with {p.status} {p.exc[:100]},'
        if p.status in ('timeout', 'signal', 'noprogress', 'livelock'):
            raise Bad('hangs_or_dies', what)
        hit = bool(p.hit or kept)
        sub = s['plan'][0]['sub'] if s['plan'] else ''
        soft = s['plan'] and all(r['act'] in (host.ACT['short'], host.ACT['eintr']) for r in s['plan'])
        src = hit and not soft and (kept or sub and sub != 'figure_output')
        ch = sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k))
        bad = [k for k in ch if not k.startswith(pre) and not k.endswith('/')]
        if bad:
            raise Bad('files_changed', f'{what} changed {bad[:3]}')
        alone.check(what)
        figs = figures(root, spec['cwd'])
        drawn = [k for k in ch if not k.endswith('/')]
        if not hit and p.status != st or soft and p.status != st:
            raise Bad('run_fails', f'{what} met nothing that may stop it; undisturbed it ended with {st}: {getattr(p, "tb", "")[-300:]}')
        stray = [k for k in figs if k not in want]
        if stray:
            raise Bad('stray_file', f'{what} left {stray[:3]}')
        if ended(p) and good and not (src and not drawn) or not hit:
            for k in sorted(want):
                c.hit('figures_compared')
                if figs.get(k) != want[k]:
                    raise Bad('other_figure', f'{what} left {k} ' + ('missing' if k not in figs else f'different from the one drawn undisturbed ({len(figs[k])} and {len(want[k])} bytes)'))
            t = said(p.out, root)
            if t != text:
                j = next((j for j in range(min(len(t), len(text))) if t[j] != text[j]), min(len(t), len(text)))
                raise Bad('other_numbers', f'{what} printed {t[max(0, j - 60):j + 40]!r} instead of {text[max(0, j - 60):j + 40]!r}')
        elif src and drawn and not ended(p):
            raise Bad('spoilt_input_drawn', f'{what} could not read its inputs and drew {drawn[:3]}')
        c.hit('soft', bool(soft and p.hit))
        c.hit('write_failed', bool(hit and not soft and sub == 'figure_output' and not ended(p)))
        c.hit('input_failed', bool(src and not drawn))
        c.nontriv = c.nontriv or hit or bool(good and want)
        if kept:
            with open(kept[0], 'wb') as h:
                h.write(kept[1])
        c.dig.append((p.status, runs.hsh(sorted((k, runs.hsh(v)) for k, v in figs.items()) if ended(p) else 0)))
    c.inter.append(runs.hsh(cfg, spec['cwd'], spec['near']))


def run(spec):
    import prog
    return prog.wrap(_run)(spec)


def shrink(spec):
    ss = spec['steps']
    for i in range(len(ss)):
        if len(ss) > 1:
            yield dict(spec, steps=ss[:i] + ss[i + 1:])
        for k, v in (('plan', []), ('budget', -1), ('cut', None)):
            if ss[i].get(k) not in (v, None):
                yield dict(spec, steps=ss[:i] + [dict(ss[i], **{k: v})] + ss[i + 1:])
    for i in range(len(spec['near'])):
        yield dict(spec, near=spec['near'][:i] + spec['near'][i + 1:])
    if spec['cwd']:
        yield dict(spec, cwd='')
    c = spec['cfg']
    if c.get('brunt_scale'):
        yield dict(spec, cfg={k: v for k, v in c.items() if k != 'brunt_scale'})
    for k in ('terms', 'kernels'):
        if c['profile'][k]:
            yield dict(spec, cfg=dict(c, profile=dict(c['profile'], **{k: False})))


from runs import STUB  # noqa: E402,F401
REAL = ['the complete profile program from its command line entry point to the stored figures and printed numbers: inlist parsing, model loading, coupling coefficients, '
        'masks, figures', 'the HDF5 library, h5py, numpy, scipy, astropy, matplotlib', 'the C++ kernels and bindings compiled from /repo']
ASSUME = ['the synthetic worlds exercise the same code paths as real MESA and GYRE files', 'no window is shown', 'dates in vector figures are not compared']
