"""See DESIGN.md."""
PARTS = {'cpp', 'fnd', 'hist'}
RUNS = {'quick': 400, 'thorough': 12000}
CAP = {'quick': 150, 'thorough': 2400}
SEED = 1
RULE = ('Each seed holds two worlds, A and B, and inlists for both: A under an arbitrary name (with dots, blanks, prefixes of other names) or the default '
        'name, in any directory, with B under every similar name; A replaced by B, removed or put back before any file operation of the run; A written '
        'differently (other order, tables, comments, line ends, unknown settings); or A with settings left out. The complete program, a solving or an '
        'analysis run, must do exactly what A says (when replaced: all of A or all of B), or store and report nothing. '
        'Non-trivial: another inlist was there, A was replaced, rewritten or incomplete; distinct: by worlds, inlists and operation log.')
INTER = 'hash of the file operations of each run, and of the replacements between them'
PROBES = ('names', 'default', 'other_copy', 'default_directories', 'swapped', 'late_swap', 'rewritten', 'missing', 'stopped', 'stored', 'analysed', 'plotted', 'new_inlist_won', 'old_inlist_won')
NAMES = ['run', 'inlist', 'grid_M3.0', 'a.b.c', 'grid_M3.0_D2.00', '.hidden', 'run.toml', 'x 1', 'gro\u00df', 'run-1', '_', 'run.in', 'RUN', 'a' * 60]
DIRS = ['inlists', 'inlists', 'inlists', 'inlists', 'inlists/deep', 'inlists/v1.2', 'inlists/AESolver_b', 'conf']
FORMS = ['{}/', './{}', '{}', '@/{}/', '../AESolver/{}']
SAVES = ['results', 'results', 'r.1', 'M3.0_D2', 'run', 'A-1']


def gen(rng, tier, i):
    import prog
    s = {'cfg': prog.pool_cfg(SEED, rng, i, n=2 if tier == 'quick' else 60, tag='c25', most=2)}
    s['b'] = rng.choice(['star', 'star', 'modes', 'settings', 'settings', 'place'])
    s['kind'] = rng.choice(['name', 'name', 'name', 'default', 'swap', 'swap', 'swap', 'late', 'rewrite', 'missing', 'missing', 'rot'])
    s['what'] = rng.choice(['analyse', 'analyse', 'plot']) if s['kind'] in ('name', 'default', 'swap', 'rewrite') and rng.random() < 0.3 else 'solve'
    s['seed'] = rng.randrange(1 << 30)
    s['name'] = rng.choice(NAMES)
    s['dir'] = rng.choice(DIRS)
    s['form'] = rng.choice(FORMS)
    s['save'] = rng.choice(SAVES)
    s['cwd'] = rng.random() < 0.25          # called from elsewhere: found beside the script
    if s['kind'] == 'default':
        s.update(name='inlist', dir='inlists', form='{}/')
    s['copy'] = s['kind'] in ('name', 'default', 'rewrite') and not s['cwd'] and rng.random() < 0.3
    s['draw'] = rng.randrange(1 << 30)      # neighbours, places of replacement, ...
    return s


def preload():
    import prog  # noqa: F401
    import runs
    import saves
    runs.preload()
    saves.preload()
    import aerunners.analyze_quadratic  # noqa: F401
    import props.c21
    props.c21.preload()


def other(cfg, how, r):
    """World B: what a user would keep another inlist for."""
    import copy
    b = copy.deepcopy(cfg)
    if how == 'modes':
        d = b['modes'][r.choice(['parent', 'daughter_1', 'daughter_2'])]
        d['n'] = [d['n'][0] + 1, d['n'][1] + 1]
    elif how == 'settings':
        k = r.choice(['adiabatic', 'integ', 'conj', 'saving'])
        if k == 'adiabatic' and not b.get('poly'):
            b['adiabatic'] = not b.get('adiabatic', True)
        elif k == 'integ':
            b['integ'] = 'simpson' if b.get('integ', 'trapz') == 'trapz' else 'trapz'
        else:
            b['saving'] = dict(b['saving'], extra=b['saving'].get('extra', '') + 'b')
    elif how == 'star':
        b['star_seed'] = b['star_seed'] + 1
    return b


def similar(name):
    """Names that a reader might take for this one."""
    n = [name[:k] + '.toml' for k, ch in enumerate(name) if ch == '.' and k]
    n += [name + '.toml.toml', name + '.toml.bak', name + '.toml~', name + '_1.toml', name + '.in', name, name.lower() + '.toml', name.upper() + '.toml',
          name.rsplit('.', 1)[-1] + '.toml', name[1:] + '.toml' if name[1:] else 'n.toml', name[:-1] + '.toml' if name[:-1] else 'm.toml',
          'inlist.toml', 'run.toml', name.replace('.', '_') + '.toml', name + '.TOML']
    return sorted({x for x in n if x != name + '.toml' and not x.startswith('.toml')})


def rewrite(text, r, c):
    """The same settings, written differently."""
    import tomllib
    how = r.choice(['sections', 'comments', 'crlf', 'unknown', 'tables', 'flat', 'ends'])
    c.hit('rewrite:' + how)
    parts, cur = [], None
    for ln in filter(None, text.splitlines()):
        if ln.startswith('['):
            cur = [ln]
            parts.append(cur)
        else:
            cur.append(ln)
    if how == 'sections':
        r.shuffle(parts)
        for p in parts:
            b = p[1:]
            r.shuffle(b)
            p[1:] = b
        return '\n'.join('\n'.join(p) for p in parts) + '\n'
    if how == 'comments':
        return '\n'.join(f'{ln}   # {r.choice(["ignore = 1", "[saving]", "adiabatic = false", ""])}\n\n# x = 3' for p in parts for ln in p) + '\n'
    if how == 'crlf':
        return text.replace('\n', '\r\n')
    if how == 'ends':
        return text.rstrip('\n')
    if how == 'unknown':
        add = ['solver = "none"', 'adiabatic_2 = true', 'n.low = 3', 'terms_cc_conj_x = [1]', 'Adiabatic = false', 'rot_percent_ = 1']
        o = [ln for p in parts for ln in [p[0], *r.sample(add, 2), *p[1:]]]
        return '\n'.join(['title = "x"', 'adiabatic = false', *o, '[other]', 'adiabatic = false', '[plot]', 'load = 1']) + '\n'
    d = tomllib.loads(text)

    def val(v):
        if isinstance(v, bool):
            return 'true' if v else 'false'
        if isinstance(v, str):
            return '"' + v.replace('\\', '\\\\').replace('"', '\\"') + '"'
        if isinstance(v, list):
            return '[ ' + ', '.join(map(val, v)) + ' ]'
        if isinstance(v, dict):
            return '{}' if not v else '{ ' + ', '.join(f'"{k}" = {val(w)}' for k, w in v.items()) + ' }'
        return repr(v)
    o = []

    def go(x, path):
        ks = list(x)
        r.shuffle(ks)
        flat = [k for k in ks if not isinstance(x[k], dict) or not x[k] or (how == 'flat' and path)]
        if path:
            o.append('[' + '.'.join(path) + ']')
        o.extend(f'{k} = {val(x[k])}' for k in flat)
        for k in ks:
            if k not in flat:
                go(x[k], [*path, f'"{k}"' if '-' in k else k])
    go(d, [])
    return '\n'.join(o) + '\n'


def put(path, text):
    import os
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w', newline='') as f:
        f.write(text)


def put_new(path, text):
    """Replace it at once, as an editor or a synchronisation does."""
    import os
    put(path + '.new', text)
    os.replace(path + '.new', path)


def _solver(argv):
    def fn():
        import logging
        import sys
        sys.argv = argv
        import aerunners.solve_quadratic as q
        q.perform_complete_solve_run(logging.getLogger())
    return fn


def _analysis(argv):
    def fn():
        import sys
        import logging
        sys.argv = argv
        import aerunners.analyze_quadratic as q
        logging.disable(logging.NOTSET)
        import log_formatter
        q.perform_complete_analysis_run(log_formatter.set_up_root_logger())
    return fn


def _plots(argv):
    def fn():
        import sys
        import logging
        sys.argv = argv
        import aerunners.plot_quadratic as q
        logging.disable(logging.NOTSET)
        import log_formatter
        q.perform_complete_plotting_run(log_formatter.set_up_root_logger())
    return fn


def _run(spec, c):
    import os
    import random
    import conc
    import host
    import prog
    import runs
    from saves import Bad
    r = random.Random(spec['draw'])
    root = runs.root_of(c.dir)
    kind, solving, plotting = spec['kind'], spec['what'] == 'solve', spec['what'] == 'plot'
    text, want = {}, {}
    for k in 'ab':
        if solving:
            cfg = spec['cfg'] if k == 'a' else other(spec['cfg'], spec['b'], random.Random(spec['draw'] + 1))
            ref = prog.ref(cfg)
            if k == 'b' and (ref['status'] != 'ok' or len(ref['files']) != 1):
                want['b'] = None            # B cannot be computed
            else:
                name, g = prog.good_ref(cfg)
                want[k] = {f'{k}/{os.path.dirname(name)}/{os.path.basename(name).replace("results", spec["save"], 1)}': g}
            p = runs.build(f'{root}/{k}', cfg)
            with open(p) as f:
                text[k] = f.read()
            os.unlink(p)
            gs, seq = prog.gs(spec['cfg']), prog.ref(spec['cfg'])['seq']
        else:
            text[k], want[k] = reports(root, k, c, spec, random.Random(spec['draw'] + ord(k)))
            gs, seq = None, 60
    where = f'{root}/{spec["dir"]}/{spec["name"]}.toml'
    put(where, text['a'])
    what = f'inlist {spec["dir"]}/{spec["name"]}.toml'
    acts, may, none_ok = {}, ['a'], False
    near = r.sample(similar(spec['name']), r.randint(1, 6)) if kind in ('name', 'default') or r.random() < 0.5 else []
    for n in near:
        if not os.path.exists(f'{root}/{spec["dir"]}/{n}'):
            put(f'{root}/{spec["dir"]}/{n}', text['b'])
    if near:
        what += f' beside inlists of other runs called {near}'
    if kind in ('name', 'default'):
        c.hit('names' if kind == 'name' else 'default')
        for d in r.sample([root, root + '/inlists/sub', root + '/elsewhere', root + '/run_scripts', os.path.dirname(root) + '/inlists', root + '/user_input',
                           root + '/inlists/user_input'], 3):
            if not os.path.exists(f'{d}/{spec["name"]}.toml'):
                put(f'{d}/{spec["name"]}.toml', text['b'])
    elif kind in ('swap', 'late'):
        hi = r.choice([13, 13, 20, 60]) if kind == 'swap' else max(60, seq)
        n = r.choice([1, 1, 1, 2, 3])
        for j, k in enumerate(sorted(r.sample(range(1, hi + 1), n))):
            x = r.random()
            acts[k] = (lambda: os.path.exists(where) and os.unlink(where)) if x < 0.15 else (lambda: put_new(where, text['b'])) if j % 2 == 0 else (lambda: put_new(where, text['a']))
            none_ok = none_ok or x < 0.15
            if x >= 0.15 and j % 2 == 0:
                may = ['a', 'b']
        what += f' replaced or removed before the file operations {sorted(acts)}'
    elif kind == 'rot':     # the directories of the modes follow from the rotation rate
        import shutil
        rot = r.choice([20, 5, 0, 100, 12.5])
        poly = spec['cfg'].get('poly')
        ls = [f'rot_percent = {rot}' if ln.startswith('rot_percent') else ln for ln in text['a'].splitlines() if not ln.startswith('specifier.')]
        put(where, '\n'.join(ls) + '\n')
        for k, old, new in (('POLY', 'modes', f'output_rot_{rot}'),) if poly else (('GYRE', 'ad', f'output_rot_{rot}'), ('GYRE', 'nad', f'output_nad_rot_{rot}')):
            if not poly:        # those of polytropes are named in full
                os.rename(f'{root}/a/{k}/{old}', f'{root}/a/{k}/{new}')
            for d in [f'{new}0', f'{new}_old', new[:-1], new + '.0', f'{new[:new.rindex("_")]}_{rot + 1}', old, new.replace('nad_', '') + 'x']:
                src = f'{root}/b/{k}/{old}'
                if r.random() < 0.5 and os.path.isdir(src) and not os.path.exists(f'{root}/a/{k}/{d}'):
                    shutil.copytree(src, f'{root}/a/{k}/{d}')
        what += f' with the default mode directories for {rot} %'
        c.hit('default_directories')
    elif kind == 'rewrite':
        put(where, rewrite(text['a'], r, c))
        c.hit('rewritten')
        what += ' written differently'
    else:
        ls = text['a'].splitlines()
        x = r.random()
        key = [k for k, ln in enumerate(ls) if '=' in ln]
        if x < 0.75:
            gone = r.sample(key, r.choice([1, 1, 2]))
        else:                   # a part of the inlist was left out
            a, z = sorted(r.sample(range(len(ls)), 2))
            gone = range(a, min(z, a + r.choice([3, 8, 30])))
        put(where, '\n'.join(ln for k, ln in enumerate(ls) if k not in set(gone)) + '\n')
        none_ok = True
        what += f' without {[ls[k] for k in gone][:4]}'
        c.hit('missing')
    if spec['cwd']:
        script, form, cwd = f'{root}/run_scripts/x.py', './{}/', root + '/work'
        os.makedirs(cwd, exist_ok=True)
        os.makedirs(root + '/run_scripts', exist_ok=True)
    else:
        script, form, cwd = 'run_scripts/x.py', spec['form'], root
        if spec.get('copy'):            # the script belongs to another copy of the program, with inlists of its own
            script = f'{c.dir}/w/AESolver_copy/run_scripts/x.py'
            put(f'{c.dir}/w/AESolver_copy/{spec["dir"]}/{spec["name"]}.toml', text['b'])
            os.makedirs(os.path.dirname(script))
            c.hit('other_copy')
    rel = form.format(spec['dir']).replace('@', root)
    argv = [script, '--save_file_name', spec['save']] if kind == 'default' else [script, spec['name'], 'toml', rel, '--save_file_name', spec['save']]
    if not solving:
        argv = argv[:-2]
    body = dict(solve=_solver, analyse=_analysis, plot=_plots)[spec['what']](argv)

    def fn():
        os.chdir(cwd)
        body()
    mine = tuple(f'{root}/{k}/{"out" if solving else "plots"}' for k in 'ab')
    before = runs.tree(root, skip=mine)
    kw = dict(seed=spec['seed'], flags=host.SHUFFLE | host.CLOCK | host.POISON)
    if gs:
        kw['gsched'] = gs
    if acts:
        p, done = conc.between(fn, root, acts, **kw)
        c.hit('swapped' if kind == 'swap' else 'late_swap', bool(done))
        c.inter.append(str(done))
    else:
        p, done = host.proc(fn, root, **kw), []
    c.took(p)
    c.hit('fault:inlist_replaced', len(done))
    c.hit('fault:inlist_incomplete', kind == 'missing')
    c.nontriv = True
    if prog.bad_exit(p):
        raise Bad('hangs_or_dies', f'{what}: {p.status} {p.exc}')
    if solving:
        res = {}
        for k in 'ab':
            for f in runs.outputs(f'{root}/{k}'):
                res[os.path.relpath(f, root)] = runs.load(f)
        stray = [f for f in runs.tree(root) if f.endswith('.h5') and f not in before and not f.startswith(('a/out/', 'b/out/'))]
        if stray:
            raise Bad('stored_elsewhere', f'{what}: stored {stray[:3]}')
    else:
        res = {k: v for k, v in figures(root).items()} if plotting else said(p.out)
    c.dig.append(runs.hsh(p.status, sorted((k, sorted((v or {}).items())) for k, v in res.items()) if solving else res))
    if not acts:
        after = runs.tree(root, skip=mine)
        if after != before:
            raise Bad('files_changed', f'{what}: the run changed {sorted(k for k in set(after) | set(before) if after.get(k) != before.get(k))[:5]}')
    if p.status != 'ok' or not res:
        if solving and res:
            raise Bad('failed_but_stored', f'{what}: the run ended with {p.status} {p.exc} but stored {sorted(res)}')
        if not solving and res:
            raise Bad('failed_but_reported', f'{what}: the run ended with {p.status} {p.exc} after {list(res)[:2]}')
        if p.status == 'ok':
            raise Bad('silent', f'{what}: the run ended well but stored nothing')
        if not none_ok and not (done and want['b'] is None):
            raise Bad('inlist_not_obeyed', f'{what}, called {argv} in {os.path.relpath(cwd, root)}: the run ended with {p.status} {p.exc} '
                                           f'{getattr(p, "tb", "")[-300:]}')
        c.hit('stopped')
        return
    c.hit('stored' if solving else 'plotted' if plotting else 'analysed')
    if not solving:
        ok = [k for k in may if res == want[k]]
        if not ok:
            d = [s[:150] for s in res if s not in want['a']]
            raise Bad('other_inlist', f'{what}, called {argv}: the {"figures are" if plotting else "report is"} not the one of this inlist: {d[:2]}'
                                      + (' as the other inlist asks for' if res == want['b'] else ''))
    else:
        ok = [k for k in may if want[k] is not None and sorted(res) == sorted(want[k]) and not any(runs.diff(res[f], want[k][f]) for f in res)]
        if not ok:
            if may == ['a'] or sorted(res) == sorted(want['a']):
                prog.same(res, want['a'], f'{what}, called {argv}')
            if want['b'] is None:
                raise Bad('mixture', f'{what}: stored {sorted(res)} although the second inlist cannot be computed')
            prog.same(res, want['b'], f'{what}: neither the results of the first nor of the second inlist')
    if done:
        c.hit('old_inlist_won' if ok[0] == 'a' else 'new_inlist_won')


def figures(root):
    """{k/plots/name: contents} of all figures of both inlists."""
    import hashlib
    import os
    out = {}
    for d, _, fs in os.walk(root):
        for f in fs:
            p = os.path.join(d, f)
            if '/plots/' in p or p.endswith('.png'):
                with open(p, 'rb') as h:
                    out[os.path.relpath(p, root)] = hashlib.sha256(h.read()).hexdigest()[:24]
    return out


def said(out):
    import ana
    return [str(s) for s in ana.statements(out) if s[0] or s[1].startswith('The ')]


def reports(root, k, c, spec, r):
    """Results of an earlier run below root/k; the inlist that selects them and the report it gets."""
    import ana
    import os
    import runs
    from saves import Bad
    ms = [dict(km=((0, 0, 0), (2, 1, 1)), files=[dict(spec='', how=[['rows', r.randrange(1 << 30), r.choice([2, 5, 20])]])]) for _ in range(r.choice([1, 2]))]
    sub = f'{root}/{k}'
    _, models, data = ana.place(ms, c, (), None, root=sub)
    x = r.random()
    ana.write_inlist(sub, models, actions=[1] * 5, sharp=x < 0.5, overview=x > 0.3, sub=r.choice(['', 'fig']))
    p = f'{sub}/inlists/ana.toml'
    fn = ana.plots(sub) if spec['what'] == 'plot' else ana.analysis(sub)
    q = ana.go(c, fn, sub, seed=spec['seed'])
    if q.status != 'ok':
        raise Bad('plain_run_fails', f'the plain run ended with {q.status} {q.exc} {getattr(q, "tb", "")[-300:]}')
    with open(p) as f:
        t = f.read()
    os.unlink(p)
    if spec['what'] == 'plot':
        import shutil
        w = {f'{k}/{f}': v for f, v in figures(sub).items()}
        shutil.rmtree(f'{sub}/plots')
        return t, w
    return t, said(q.out)


def run(spec):
    import prog
    return prog.wrap(_run)(spec)


def shrink(spec):
    import prog
    for k, v in (('cwd', False), ('copy', False), ('form', '{}/'), ('save', 'results'), ('dir', 'inlists')):
        if spec[k] != v:
            yield dict(spec, **{k: v})
    yield from prog.shrink_common(spec)


from runs import REAL, STUB, ASSUME  # noqa: E402,F401
