"""Analysis and plot runs on stored result files: inlists, synthetic results
with many triads, and an independent reading of what the report must say."""
import copy
import os
import random
import sys
import logging

import host
import runs

HEAD = '''
[saving]
plot.base_dir = '{root}/plots'
plot.save_dir = '{save_dir}'
plot.extra_specifier = ''
plot.save_formats = {formats}
plot.sharpness.save_name = 'sharp'
plot.sharpness.save_subdir = '{sub}'
plot.overview.save_name = 'overview'
plot.overview.save_subdir = '{sub}'
[rotation]
rot_percent = 20
rotating_formalism = true
[GYRE_selection]
gyre_dir_path = '{root}/GYRE/'
alternative.directory_path = {{}}
alternative.file_name = {{}}
[verbosity-debug]
verbose = {verbose}
debug = {debug}
get_debug_info = false
[plotting]
plot.show = false
plot.overview = {overview}
plot.coefficient_profile = false
plot.resonance_sharpness = {sharp}
figure.size = [3.2, 2.4]
figure.dpi = 50
labels.ax_label.size = 12
labels.tick_label.size = 10
labels.tick_label.pad = 7
ticks.size = 8
colors.matplotlib_color_map = 'cividis_r'
misc.plot_cyclic_fs = true
misc.rad_nr = 2
profile.show_kernels = false
profile.show_term_by_term = false
[analysis]
numbers_categories = {a0}
q_Q1_condition = {a1}
isolated_mode_properties = {a2}
isolated_stability_validity_estimators = {a3}
isolated_triad_observables = {a4}
'''


def a_form(rng, models):
    """How the inlist names the files: by standard names (with mass, Xc and radial orders) or custom ones, models in one file with or without a list."""
    std = [[rng.choice([3, 4, 6, 8, 5.5]), rng.choice([0.09, 0.29, 0.5, 0.7]), rng.choice([[[20, 10], [10, 3], [10, 3]], [[20, 10], [47, 17], [10, 3]]])] for _ in models]
    return dict(std=std if rng.random() < 0.3 else None, plain=[i for i, m in enumerate(models) if len(m['files']) == 1 and rng.random() < 0.3])


def joined(data, form):
    """What the models hold: files that are all named without a list form one model."""
    return [sum(data, [])] if form and set(range(len(data))) <= set(form['plain']) else data


def write_inlist(root, models, actions=(1, 1, 1, 1, 1), out='hdf5_output', formats=('png',), sharp=False, overview=True, sub='', save_dir='', form=None, **kw):
    """models: list of models; a model is a list of files (base, spec, k, m)."""
    b = lambda v: 'true' if v else 'false'
    t = HEAD.format(root=root, formats=list(formats), sub=sub, save_dir=save_dir, overview=b(overview), sharp=b(sharp),
                    verbose=b(kw.get('verbose')), debug=b(kw.get('debug')), **{f'a{i}': b(a) for i, a in enumerate(actions)})
    plain, std = (form['plain'], form['std']) if form else ([], None)
    names = [[f[0] for f in m] for m in models]
    specs = [[f[1] for f in m] for m in models]
    suf = [['h5'] * len(m) for m in models]
    names, specs, suf = ([x[0] if i in plain else x for i, x in enumerate(y)] for y in (names, specs, suf))
    mass, xc, pairs = zip(*std) if std else ([3] * len(models), [0.5] * len(models), [[[20, 10], [10, 3], [10, 3]]])
    t += f'''[plotting.load]
nr_files = {len(models)}
base_dir = '{root}/out'
output_dir = '{out}'
use_custom_name = {b(not std)}
base_file_names = {names}
specification_names = {specs}
masses = {list(mass)}
Xcs = {list(xc)}
triple_pairs = {list(pairs)}
meridional_degrees = {[list(m[0][2]) for m in models]}
azimuthal_orders = {[list(m[0][3]) for m in models]}
file_suffix = {suf}
'''
    os.makedirs(os.path.join(root, 'inlists'), exist_ok=True)
    with open(os.path.join(root, 'inlists', 'ana.toml'), 'w') as f:
        f.write(t)


def analysis(root):
    """The program: what run_scripts/analyze_quadratic.py does."""
    def fn():
        sys.argv = ['prog', 'ana', 'toml', 'inlists/']
        import aerunners.analyze_quadratic as q
        logging.disable(logging.NOTSET)
        import log_formatter
        q.perform_complete_analysis_run(log_formatter.set_up_root_logger())
    return fn


def plots(root):
    """The program: what run_scripts/plot_quadratic.py does."""
    def fn():
        sys.argv = ['prog', 'ana', 'toml', 'inlists/']
        import aerunners.plot_quadratic as q
        logging.disable(logging.NOTSET)
        import log_formatter
        q.perform_complete_plotting_run(log_formatter.set_up_root_logger())
    return fn


# ---------------------------------------------------------- stored results
def rows(seed, n, tmpl, like=None):
    """n rows of results in the layout of a stored file (tmpl: {name: canon}); those with the same `like` have the same triads."""
    import numpy as np
    r = np.random.default_rng(seed)
    v = runs.values(tmpl)
    out = {}
    for k, x in v.items():
        if isinstance(x, np.ndarray) and '@' not in k and x.ndim and x.dtype.kind in 'fib' and x.shape[0] == 1:
            y = np.repeat(x, n, axis=0)
            if x.dtype.kind == 'f':
                y = y * r.uniform(0.5, 1.5, y.shape)
            out[k] = y
    orders = np.array([[p, a, b] for p in range(10, 10 + 1 + n // 6) for a in range(18, 40) for b in range(a, 40)])
    out['quantum_numbers/n'] = orders[np.sort((r if like is None else np.random.default_rng(like)).choice(len(orders), n, replace=False))].astype(out['quantum_numbers/n'].dtype)
    ch = r.random((n, 6)) < [0.8, 0.5, 0.5, 0.7, 0.8, 0.9]
    out['checks/pre_checks'] = ch
    par = ch[:, 0]
    w = np.empty((n, 3))
    w[:, 0] = r.uniform(2e-5, 3e-5, n)
    w[:, 1] = w[:, 0] * r.uniform(0.3, 0.6, n)
    w[:, 2] = w[:, 0] - w[:, 1] + w[:, 0] * r.choice([1e-4, 1e-3, 1e-2, 0.1], n) * r.normal(size=n)
    f = 'mode_frequency_info/'
    out[f + 'corot_mode_omegas'] = w
    out[f + 'corot_mode_freqs'] = w / (2 * np.pi)
    rot = 4e-6
    out[f + 'inert_mode_omegas'] = w + rot * np.array([2, 1, 1])
    out[f + 'inert_mode_freqs'] = out[f + 'inert_mode_omegas'] / (2 * np.pi)
    g = np.empty((n, 3))
    g[:, 0] = 10.0 ** r.uniform(-11, -8, n)
    g[:, 1:] = -10.0 ** r.uniform(-11, -7, (n, 2))
    out['linear_driving/driving_rates'] = g
    s = 'coupling/stationary_three_mode/'
    eq = 10.0 ** r.uniform(-6, -2, (n, 3))
    low = r.choice([0, 0, 4])
    for k, x in (('surface_flux_variations', 10.0 ** (r.uniform(-6, -3, (n, 3)) - low)), ('equilibrium_theoretical_amplitudes', eq)):
        out[s + k] = np.where(par[:, None], x, np.nan)
    x = 10.0 ** r.uniform(-7, -3, n)
    if r.random() < 0.3:
        eq[r.random(n) < 0.2, 0] = 0
        out[s + 'surface_flux_variations'][r.random((n, 3)) < 0.1] = 0
        out[s + 'equilibrium_theoretical_amplitudes'] = np.where(par[:, None], eq, np.nan)
        x[r.random(n) < 0.1] = np.inf
    out[s + 'critical_parent_amplitudes'] = np.where(par, x, np.nan).reshape(v[s + 'critical_parent_amplitudes'].shape[:0] + (n,) + v[s + 'critical_parent_amplitudes'].shape[1:])
    return out


def write(path, tmpl, data):
    """A result file with these rows and everything else of the template."""
    import h5py
    import numpy as np
    os.makedirs(os.path.dirname(path), exist_ok=True)
    v = runs.values(tmpl)
    with h5py.File(path, 'w') as h:
        for k, c in tmpl.items():
            if '@' not in k and c[0] != 'group':
                if k in data:
                    h.create_dataset(k, data=data[k])
                elif isinstance(v[k], np.ndarray):
                    h.create_dataset(k, data=v[k])
        for k, c in tmpl.items():
            if '@' in k:
                o, a = k.split('@')
                t = h[o] if o else h
                t.attrs[a] = v[k] if isinstance(v[k], np.ndarray) else c[1]


# ------------------------------------------------------------------ reports
def statements(out):
    """The report as [(model number or 0, text)], without log messages."""
    import re
    st = []
    for ln in out.split('\n'):
        if not ln.strip() or re.match(r'\d{4}-\d\d-\d\d \d\d:', ln):
            continue
        if ln[0] in ' \t' and st:
            st[-1] += '\n' + ln
        else:
            st.append(ln)
    res, last = [], 0
    for s in st:
        h = s.split('\n')[0]
        m = re.search(r'[ (;]model(\d+)\)', h) or re.match(r'Model(\d+) ', h)
        if m:
            last = int(m.group(1))
        elif h.startswith(('The total', 'Information on', 'The following')):
            last = 0
        res.append((last, s))
    return res


def renamed(s, i):
    import re
    return re.sub(r'\b([mM])odel1\b', rf'\g<1>odel{i}', s)


def totals(sts):
    """{text: [number of models or triads, total]} of the summed statements."""
    import re
    d = {}
    for m, s in sts:
        g = re.fullmatch(r'(The total .*\(all )(\d+)( models\)): (\d+)', s)
        if m == 0 and g:
            d[g.group(1) + g.group(3)] = [int(g.group(2)), int(g.group(4))]
    return d


def counts(data):
    """What the report must count, computed from the stored arrays."""
    import numpy as np
    w = data['mode_frequency_info/corot_mode_omegas']
    c = data['checks/pre_checks'].astype(bool)
    with np.errstate(all='ignore'):
        ae = np.abs((w[:, 0] - w[:, 1] - w[:, 2]) / np.abs(w).min(axis=1)) <= 0.1
    return {'Total nr. of Triads': len(w), '_g_box_dot_ok': int(c[:, 3].sum()), 'Quartic': int(c[:, 4].sum()), 'hyperbolic condition': int(c[:, 5].sum()),
            'AE validity': int(ae.sum()), 'stability conditions': int(c[:, -3:].all(axis=1).sum())}


NUM = r'[-+]?(?:\d+\.?\d*(?:e[-+]?\d+)?|inf|nan)'


def facts(v):
    """The quantities of the report, computed from the stored arrays."""
    import numpy as np
    w, wi, g = (v[k] for k in ('mode_frequency_info/corot_mode_omegas', 'mode_frequency_info/inert_mode_omegas', 'linear_driving/driving_rates'))
    st = 'coupling/stationary_three_mode/'
    surf, amp, crit = v[st + 'surface_flux_variations'], v[st + 'equilibrium_theoretical_amplitudes'][:, 0], v[st + 'critical_parent_amplitudes']
    c, n = v['checks/pre_checks'].astype(bool), v['quantum_numbers/n']
    with np.errstate(all='ignore'):
        d = w[:, 0] - w[:, 1] - w[:, 2]
        r = d / np.abs(w).min(axis=1)
        ok = c[:, 0] & ~np.isnan(amp) & (amp != 0)
        t = np.where(ok, crit * (surf[:, 0] / amp) * 1e6, np.nan)
        # isolated: among the triads with a threshold, no other triad of any of its modes has a lower one,
        # and the second lowest threshold of the parent lies above the amplitude of the triad with the lowest
        has = np.flatnonzero(~np.isnan(t))
        low_p, low_d, of_p = {}, {}, {}
        for i in has:
            low_p[n[i, 0]] = min(low_p.get(n[i, 0], np.inf), t[i])
            of_p.setdefault(n[i, 0], []).append(i)
            for x in (n[i, 1], n[i, 2]):
                low_d[x] = min(low_d.get(x, np.inf), t[i])
        iso = np.zeros(len(n), bool)
        left = set()
        for p, m in of_p.items():
            m = sorted(m, key=lambda i: t[i])
            if len(m) > 1 and not t[m[1]] > surf[m[0], 0] * 1e6:
                left.add(int(p))
                continue
            for i in m:
                iso[i] = all(low_p[p] == low_d[x] or abs(low_p[p] - low_d[x]) <= 1e-14 for x in n[i, 1:])
        stab, ae = c[:, -3:].all(axis=1), np.abs(r) <= 0.1
        G = g.sum(axis=1)
        q, q1 = d / G, w[:, 0] / g[:, 0]
        div = lambda a, b: np.where((b == 0) | np.isnan(b), np.nan, a / b)
        rat = np.full((len(n), 2), np.nan)
        for j in (0, 1):
            a = c[:, 0] & ~((surf[:, 0] == 0) | np.isnan(surf[:, 0]))
            b = c[:, 1] & ~((surf[:, j + 1] == 0) | np.isnan(surf[:, j + 1]))
            rat[a, j] = (surf[:, j + 1] / surf[:, 0])[a]
            rat[b, j] = (surf[:, 0] / surf[:, j + 1])[b]
        big = (rat > 1).all(axis=1)
        more = q > q1
        sv = stab & ae & iso
        shift = np.stack([-d * g[:, 0] / G, d * g[:, 1] / G, d * g[:, 2] / G], axis=1) / wi
        spin = 2 * (wi - w)[:, 1:2] / w
    day = 86400.0
    both = big & more
    F = [('Total nr. of Triads', len(n)), ('Nr. of triads with _g_box_dot_ok', c[:, 3].sum()), ('Nr. of triads for which Quartic', c[:, 4].sum()),
         ('Nr. of triads fulfilling the hyperbolic', c[:, 5].sum()), ('Nr. of triads fulfilling the AE validity', ae.sum()),
         ('Nr. of triads fulfilling the isolation validity', iso.sum()), ('Nr. of triads fulfilling the stability conditions', stab.sum()),
         ('Nr. of triads fulfilling the validity conditions', (ae & iso).sum()), ('Nr. of triads fulfilling the stability and validity', sv.sum()),
         ('The number of triads for q > Q1', more.sum()), ('The total number of triads for which q > Q1', more.sum()),
         ('The total number of triads for which both predicted daughter-parent amplitude ratios are larger than unity (all', big.sum()),
         ('The total number of triads for which both predicted daughter-parent amplitude ratios are larger than unity and q > Q1', both.sum()),
         ('The total number of triads for which both predicted daughter-parent amplitude ratios are larger than unity and q <= Q1', (big & ~more).sum())]
    for k, m in (('stable triads', stab), ('unstable triads', ~stab), ('AE-valid triads', ae), ('AE-invalid triads', ~ae), ('isolated triads', iso), ('non-isolated triads', ~iso),
                 ('valid triads', ae & iso), ('invalid triads', ~(ae & iso)), ('stable and valid triads', sv), ('instable and/or invalid triads', ~sv)):
        F.append((f'The total number of {k} for which both predicted daughter-parent amplitude ratios are larger than unity and', (m & both).sum()))
    for k, m in (('AE-valid triads', ae), ('AE-invalid triads', ~ae)):
        F.append((f'The total number of {k} for which both predicted daughter-parent amplitude ratios are larger than unity (all', (m & big).sum()))
    S = sv
    F += [('Radial orders of isolated triads', n[S]), ('Delta Omega of isolated triads', d[S] * day), ('Gamma_sum of isolated triads', G[S] * day * 1e3),
          ('Corot omegas of isolated triads', w[S].T * day), ('Gammas of isolated triads', g[S].T * day * 1e5),
          ('Maximal spin parameter', np.array([np.nanmax(x) for x in spin[S]])), ('AE parameters for isolated', np.abs(r[S])), ('|q| values', np.abs(q[S])),
          ('|q1| values', np.abs(d[S] / g[S, 0])), ('Theta_2 values', -g[S, 1] / g[S, 0]), ('Theta_3 values', -g[S, 2] / g[S, 0]),
          ('O(|eta1|) values', np.abs(v['coupling/generic/|kappa_norm|'][S])), ('Maximal absolute non-linear frequency shifts', np.array([np.nanmax(np.abs(x)) for x in shift[S]]) * 1e3),
          ('Nonlinear combination phases', v[st + 'stationary_relative_luminosity_phases'][S]), ('Surface luminosity fluctuation ratios', rat[S].T)]
    sec = [[('triads of this type', m.sum()), ('q: ', q[m]), ('Q1: ', q1[m]), ('Daughter-parent amplitude ratio: ', rat[m]), ('Radial orders: ', n[m])] for m in (both, big & ~more)]
    return F, sec, left


ISOLATED = (('Delta Omega', 'Gamma_sum', 'Corot omegas', 'Gammas of', 'Maximal spin'), ('AE parameters', '|q| ', '|q1| ', 'Theta_2', 'Theta_3', 'O(|eta1|)'),
            ('Maximal absolute', 'Nonlinear combination', 'Surface luminosity'))


def asked(F, actions):
    """{statement: how often} of those a report with these parts makes about its one model."""
    want = {}
    for key, _ in F:
        if key.startswith(('Total nr.', 'Nr. of')):
            want[key] = actions[0]
        elif key.startswith('The '):
            want[key] = actions[1]
        elif key.startswith('Radial orders'):
            want[key] = sum(map(bool, actions[2:]))
        else:
            want[key] = next(actions[2 + i] for i, k in enumerate(ISOLATED) if key.startswith(k))
    return {k: int(n) for k, n in want.items()}


def check_facts(sts, v, actions):
    """The first statement on a single model that is not what the stored arrays say (or None), and how many were checked."""
    import re
    import numpy as np
    F, sec, left = facts(v)

    def differs(s, x, tail=True):
        if '...' in s:
            return False
        t = s.rsplit(' is ', 1)[-1] if s.startswith('The number') else s.rsplit('): ', 1)[-1] if '(model' in s or 'cpd; ' in s or '10-5' in s or ' models): ' in s else s.split(': ', 1)[-1]
        got = np.array([float(y) for y in re.findall(NUM, t)])
        want = np.asarray(x, float).reshape(-1)
        return len(got) != len(want) or not np.allclose(got, want, rtol=2e-4, atol=1e-7 * (np.nanmax(np.abs(want[np.isfinite(want)]), initial=0)), equal_nan=True)
    at, k, n, notes, seen, ends = -1, 0, 0, 0, {}, []
    for m, s in sts:
        if s.startswith('Information on'):
            ends += [k] if at >= 0 else []
            at, k = at + 1, 0
            continue
        if m == 0 and s.startswith('The following parent'):
            n += 1
            notes += 1
            if {int(y) for y in re.findall(r'\d+', s.split(']')[0])} != left:
                return s, sorted(left), n
            continue
        if at >= 0 and k < 5 and ('triads of this type' in s or k):
            if 'Their properties' in s:
                continue
            if k == 0:
                n += 1
                if int((re.search(r'has (\d+) triads', s) or [0, 0])[1]) != sec[at][0][1]:
                    return s, sec[at][0][1], n
                k = 1 if 'has no' not in s else 5
                continue
            key, x = sec[at][k]
            k += 1
            n += 1
            if not s.startswith(key) or differs(s, x):
                return s, x, n
            continue
        for key, x in F:
            if s.startswith(key):
                n += 1
                seen[key] = seen.get(key, 0) + 1
                if differs(s, x):
                    return s, x, n
    want = asked(F, actions)
    if actions[1]:
        n += 1
        if at != 1 or ends + [k] != [5, 5]:
            return 'the sections on the amplitude ratios', f'2 whole sections, not {ends + [k]}', n
    if left and not notes:
        return 'the note on neglected parents', f'{sorted(left)} to be named', n
    for key in want:
        n += 1
        if seen.get(key, 0) != want[key]:
            return f'{key}: said {seen.get(key, 0)} times', f'been asked for {want[key]} times', n
    return None, None, n


def concat(files):
    """Loaded files joined along the triads, as one set of arrays."""
    import numpy as np
    v = [runs.values(f) for f in files]
    n = [len(x['quantum_numbers/n']) for x in v]
    out = {}
    for k, x in v[0].items():
        if isinstance(x, np.ndarray) and '@' not in k and x.ndim and x.shape[0] == n[0]:
            out[k] = np.concatenate([y[k] for y in v], axis=0)
    return out


# -------------------------------------------------- scenarios of the analysis
REPORT = {}          # contents of one model -> (status, statements) of its report alone


def go(c, fn, root, **kw):
    kw.setdefault('flags', host.SHUFFLE | host.CLOCK | host.POISON)
    plan = kw.get('plan')
    p = host.proc(fn, root, **kw)
    p.hit = c.took(p, plan)
    return p


def file_name(base, spec, km):
    more = ''
    if len(km) > 2 and km[2]:
        mass, xc, (a, b, p) = km[2]
        more = f'_M{mass}_Xc{str(xc).replace(".", "_")}_d{a[0]}_{a[1]}_d{b[0]}_{b[1]}_p{p[0]}_{p[1]}'
    return f'{base}{"_" + spec if spec else ""}{more}_k_{"_".join(str(x) for x in km[0])}_m_{"_".join(str(x) for x in km[1])}.h5'


def place(models, c, near=(), form=None, root=None):
    """Store the results; returns the root, the inlist entries and per model what its files hold."""
    import saves
    root = root or runs.root_of(c.dir)
    d = os.path.join(root, 'out', 'hdf5_output')
    os.makedirs(d)
    for s in near:
        r = random.Random(s)
        n = r.choice(['f0_0_k_0_0_0_m_2_1_1.h5.bak', 'f0_0_k_0_0_0_m_2_1_1.h5~', '.f0_0_k_0_0_0_m_2_1_1.h5', 'f0_k_0_0_0_m_2_1_1.h5', 'f0_0_old_k_0_0_0_m_2_1_1.h5',
                      'f0_0.h5', 'F0_0_k_0_0_0_m_2_1_1.h5', 'f0_0_k_0_0_0_m_2_1_1', 'f0_0_k_0_0_0_m_2_1_1/x.h5', '.f0_0_k_0_0_0_m_2_1_1.h5.part'])
        tm = saves.full_of(['a1', 3])
        q = os.path.join(d, n)
        if not os.path.lexists(q) and not os.path.isfile(os.path.dirname(q)):
            write(q, tm, rows(s, 7, tm))
    entries, data = [], []
    for i, m in enumerate(models):
        e, held = [], []
        km = tuple(tuple(x) for x in m['km'])
        for j, f in enumerate(m['files']):
            std = form['std'][i] if form and form['std'] else None
            path = os.path.join(d, file_name(f'f{i}_{j}', f['spec'], (*km, std)))
            for w in f['how']:
                if w[0] == 'rows':
                    tm = saves.full_of(['a1', 3])
                    write(path, tm, rows(*w[1:3], tm, *w[3:]))
                else:
                    nm = os.path.basename(path)[:-3].split('_k_')[0]
                    plan = [runs.rule(runs.MUT, 'crash_before', nth=w[3], sub='out')] if w[3] else []
                    p = go(c, saves.saver(root, nm, [w[1], w[2]]), root, seed=w[2], plan=plan)
                    if p.status != 'ok' and not p.hit:
                        raise saves.Bad('save_fails', f'a save met no fault and ended with {p.status} {p.exc[:200]}')
                    c.hit('killed_saves', p.status == 'crash')
                    c.hit('saves')
            got = runs.load(path)
            if got is None:
                raise saves.Bad('not_where_loaded', f'{os.path.relpath(path, root)} is missing or unreadable after its results were stored')
            held.append(got)
            e.append((f'f{i}_{j}', f['spec'], km[0], km[1], std))
        entries.append(e)
        data.append(held)
    return root, entries, data


def alone(held, actions):
    """The report on one model alone: one file in an otherwise empty directory."""
    v = concat(held)
    k = runs.hsh(sorted((n, x.tobytes(), x.shape) for n, x in v.items()), list(actions))
    if k not in REPORT:
        if len(REPORT) > 3000:
            REPORT.clear()
        with host.Scratch() as d:
            root = runs.root_of(d, 'one')
            write(os.path.join(root, 'out', 'hdf5_output', 'one_k_0_0_0_m_2_1_1.h5'), held[0], v)
            write_inlist(root, [[('one', '', (0, 0, 0), (2, 1, 1))]], actions=actions)
            p = host.proc(analysis(root), root, flags=0)
            sts = statements(p.out)
            REPORT[k] = (p.status, p.exc[:200] + getattr(p, 'tb', '')[-200:], sts, check_facts(sts, v, actions) if p.status == 'ok' else None)
    return REPORT[k]


def judge(c, actions, out, data, what):
    """Compare a report with those on each model alone and with the stored arrays."""
    from saves import Bad
    got = statements(out)
    tot, infos, notes = {}, set(), []
    for i, held in enumerate(data):
        st, why, want, fact = alone(held, actions)
        if st != 'ok':
            raise Bad('analysis_fails', f'the analysis of model {i + 1} alone ended with {st} {why}')
        c.hit('facts_checked', fact[2])
        if fact[0]:
            raise Bad('wrong_statement', f'the analysis of model {i + 1} alone: {fact[0][:200]!r}, but the stored arrays have {str(fact[1])[:120]}')
        w = [renamed(s, i + 1) for m, s in want if m]
        g = [s for m, s in got if m == i + 1]
        if w != g:
            j = next((j for j in range(min(len(w), len(g))) if w[j] != g[j]), min(len(w), len(g)))
            raise Bad('other_report', f'{what}: model {i + 1}: {(g[j] if j < len(g) else "nothing")[:160]!r} instead of '
                                      f'{(w[j] if j < len(w) else "nothing")[:160]!r} when it is analysed alone')
        for k, (n, t) in totals(want).items():
            tot.setdefault(k, [0, 0])
            tot[k] = [tot[k][0] + n, tot[k][1] + t]
        infos |= {s for m, s in want if m == 0 and s.startswith('Information on')}
        notes += [s for m, s in want if m == 0 and s.startswith('The following')]
        num = counts(concat(held))
        for k, v in num.items():
            for s in g:
                if k in s and '\n' not in s and '(model' in s and s.rsplit(': ', 1)[-1].isdigit():
                    c.hit('counts_compared')
                    if int(s.rsplit(': ', 1)[-1]) != v:
                        raise Bad('wrong_count', f'{what}: {s!r}, but the stored arrays have {v}')
        c.hit('isolated', sum('stability and validity conditions' in s and not s.endswith(': 0') for s in g))
    if {m for m, s in got} - {0} - set(range(1, len(data) + 1)):
        raise Bad('other_report', f'{what}: reports on models {sorted({m for m, s in got})}')
    if totals(got) != tot:
        k = next(k for k in set(tot) | set(totals(got)) if tot.get(k) != totals(got).get(k))
        raise Bad('wrong_total', f'{what}: {k}: {totals(got).get(k)} instead of {tot.get(k)}')
    if sorted(s for m, s in got if m == 0 and s.startswith('The following')) != sorted(notes):
        raise Bad('other_report', f'{what}: the notes on neglected parents differ from those on the models alone')
    if {s for m, s in got if m == 0 and s.startswith('Information on')} != infos:
        raise Bad('other_report', f'{what}: other sections than for the models alone')
