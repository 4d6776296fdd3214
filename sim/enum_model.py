"""Reference model: which triads a run owes, and what their rows hold."""
import collections
import itertools

import runs
import world
from saves import Bad


def wanted(cfg):
    """Multiset of triads; daughters of one kind form unordered pairs."""
    m = cfg['modes']
    rg = {r: range(m[r]['n'][0], m[r]['n'][1] + 1) for r in m}
    kind = lambda r: (m[r]['l'], m[r]['m'])
    if kind('daughter_1') == kind('daughter_2'):
        pairs = sorted({tuple(sorted((a, b))) for a in rg['daughter_1'] for b in rg['daughter_2']})
    else:
        pairs = [(a, b) for a in rg['daughter_1'] for b in rg['daughter_2']]
    return [(p, a, b) for p in rg['parent'] for a, b in pairs]


def same_kind(cfg):
    m = cfg['modes']
    return all(m['daughter_1'][k] == m['daughter_2'][k] for k in 'lm')


def listed(cfg):
    """Rows of the known finding: when the union of the two ranges does not
    iterate in order, pairs across it come in both orders, or from one range."""
    m = cfg['modes']
    a, b = (range(m[r]['n'][0], m[r]['n'][1] + 1) for r in ('daughter_1', 'daughter_2'))
    u = list(set(a) | set(b))
    if not same_kind(cfg) or u == sorted(u):
        return None
    c2 = lambda x: set(itertools.combinations(x, 2))
    sa, sb = set(a), set(b)
    pairs = (c2(sa | sb) - (c2(a) | c2(b))) | (c2(a) - c2(sa - sb)) | (c2(b) - c2(sb - sa))
    pairs = list(pairs) + [(x, x) for x in sa & sb]
    return collections.Counter((p, *q) for p in range(m['parent']['n'][0], m['parent']['n'][1] + 1) for q in pairs)


def check(root, cfg, p, c):
    import numpy as np
    import prog
    m = cfg['modes']
    roles = ('parent', 'daughter_1', 'daughter_2')
    rng = lambda r: f'{m[r]["n"][0]}-{m[r]["n"][1]} (l={m[r]["l"]}, m={m[r]["m"]})'
    what = 'triads ' + ' x '.join(rng(r) for r in roles)
    c.hit('same_kind' if same_kind(cfg) else 'different_kind')
    if p.status != 'ok':
        raise Bad('run_fails', f'{what}: the run ended with {p.status} {p.exc} {getattr(p, "tb", "")[-300:]} {p.out[-200:]}')
    res = prog.result(root)
    if len(res) != 1:
        raise Bad('no_file', f'{what}: {len(res)} result files')
    (_, f), = res.items()
    if f is None:
        raise Bad('unreadable', what + ': the result file cannot be read')
    v = runs.values(f)
    n = v['quantum_numbers/n']
    rows = [tuple(int(x) for x in r) for r in n]
    c.hit('rows', len(rows))
    norm = (lambda t: (t[0],) + tuple(sorted(t[1:]))) if same_kind(cfg) else (lambda t: t)
    have, want = collections.Counter(norm(t) for t in rows), collections.Counter(wanted(cfg))
    known = have != want and collections.Counter(rows) == listed(cfg)
    if set(have) != set(want) and not known:
        raise Bad('other_triads', f'{what}: missing {sorted(set(want) - set(have))[:4]}, unasked {sorted(set(have) - set(want))[:4]}')
    dup = sorted(t for t in have if have[t] > 1)
    for k, e in (('l', 'l'), ('m', 'm')):
        a = next((v[x] for x in v if x in (f'quantum_numbers@{k}', f'quantum_numbers/n@{k}')), None)
        if a is not None and [int(x) for x in np.ravel(a)] != [m[r][e] for r in roles]:
            raise Bad('wrong_quantum_numbers', f'{what}: stored {k} = {np.ravel(a).tolist()}')
    if dup and not known:
        raise Bad('duplicate_triads', f'{what}: {dup[:4]} stored more than once')
    check_rows(v, cfg, rows, what, c)
    if known:
        raise Bad('swapped_duplicate_pair', f'{what}: stored {sorted(rows)[:6]} instead of {sorted(want)[:6]}')


def freqs(cfg, role, n, nad):
    d = cfg['modes'][role]
    # a mode shared by roles is written for the first role that lists it last
    role = world.mode_table(cfg)[(d['l'], d['m'], n)]
    return world.mode_values(cfg, d['l'], d['m'], n, role, nad)


def check_rows(v, cfg, rows, what, c):
    """Every row holds the frequencies and statistics of its own modes."""
    import numpy as np
    roles = ('parent', 'daughter_1', 'daughter_2')
    for pre, nad in (('', False), ('nad_', True)):
        k = pre + 'mode_frequency_info/inert_dimless_mode_omegas'
        if k not in v:
            if nad and cfg.get('poly'):
                continue
            raise Bad('missing', f'{what}: {k} is not stored')
        a = v[k]
        if a.shape != (len(rows), 3):
            raise Bad('row_shape', f'{what}: {k} has shape {a.shape} for {len(rows)} triads')
        for j, t in enumerate(rows):
            for q, r in enumerate(roles):
                w = freqs(cfg, r, t[q], nad)['omega'].real
                if not np.isclose(a[j, q], w, rtol=1e-9, atol=0):
                    raise Bad('row_of_another_mode', f'{what}: {k} of triad {t} holds {a[j, q]!r} for the {r}, whose mode has {w!r}')
        if not cfg.get('poly'):
            k = pre + 'mode_frequency_info/inert_mode_freqs'
            for j, t in enumerate(rows):
                for q, r in enumerate(roles):
                    w = freqs(cfg, r, t[q], nad)['freq'].real / 86400.0
                    if not np.isclose(v[k][j, q], w, rtol=1e-9, atol=0):
                        raise Bad('row_of_another_mode', f'{what}: {k} of triad {t} holds {v[k][j, q]!r} for the {r}, whose mode has {w!r}')
    wu = v['mode_statistics/wu']
    for j, t in enumerate(rows):
        if int(wu[j]) != t[0] - abs(t[1] - t[2]):
            raise Bad('row_of_another_mode', f'{what}: Wu statistic of triad {t} is {wu[j]}')
    if not cfg.get('poly'):
        g = v['linear_driving/driving_rates']
        for j, t in enumerate(rows):
            for q, r in enumerate(roles):
                w = freqs(cfg, r, t[q], True)['omega'].imag
                if w and g[j, q] and (w > 0) != (g[j, q] > 0):
                    raise Bad('row_of_another_mode', f'{what}: driving rate of triad {t} has the sign of another mode for the {r}')
        ratio = np.array([[g[j, q] / freqs(cfg, r, t[q], True)['omega'].imag for q, r in enumerate(roles)] for j, t in enumerate(rows)])
        if not np.allclose(ratio, ratio.flat[0], rtol=1e-6):
            raise Bad('row_of_another_mode', f'{what}: driving rates are not those of the modes of each row: ratio to the input {ratio.tolist()}')
    check_relations(v, cfg, rows, what)
    c.hit('rows_checked', len(rows))


def check_relations(v, cfg, rows, what):
    """Frames, units, spin factors, detunings and sums follow from the frequencies of the modes of the row."""
    import numpy as np
    roles = ('parent', 'daughter_1', 'daughter_2')
    om = cfg['omega_rot']
    ms = np.array([cfg['modes'][r]['m'] for r in roles])

    def same(k, have, want, scale=None):
        tol = 1e-9 * np.max(np.abs(want if scale is None else scale))
        bad = [j for j in range(len(rows)) if not np.all(np.abs(have[j] - want[j]) <= tol)]
        if bad:
            raise Bad('row_of_another_mode', f'{what}: {k} of triad {rows[bad[0]]} holds {np.ravel(have[bad[0]]).tolist()} instead of {np.ravel(want[bad[0]]).tolist()}')
    a = v['mode_frequency_info/inert_mode_omegas']
    unit = float(np.median(a / v['mode_frequency_info/inert_dimless_mode_omegas']))
    for pre, nad in (('', False), ('nad_', True)):
        if nad and cfg.get('poly'):
            continue
        w = np.array([[freqs(cfg, r, t[q], nad)['omega'] for q, r in enumerate(roles)] for t in rows])
        k = pre + 'mode_frequency_info/'
        for fr, x in (('inert', w.real), ('corot', w.real - ms * om)):
            same(k + fr + '_dimless_mode_omegas', v[k + fr + '_dimless_mode_omegas'], x)
            same(k + fr + '_dimless_mode_freqs', v[k + fr + '_dimless_mode_freqs'], x / (2 * np.pi))
            same(k + fr + '_mode_omegas', v[k + fr + '_mode_omegas'], x * unit)
            same(k + fr + '_mode_freqs', v[k + fr + '_mode_freqs'], x * unit / (2 * np.pi))
        wc = w.real - ms * om
        if not nad:
            same('rotation/spin_factors', v['rotation/spin_factors'], 2 * om / wc)
            same('rotation/surface_rotation_frequency', v['rotation/surface_rotation_frequency'], np.full(len(rows), om * unit / (2 * np.pi)))
        else:
            s = 'coupling/stationary_three_mode/'
            same('linear_driving/quality_factors', v['linear_driving/quality_factors'], wc / w.imag)
            same(s + 'detunings', v[s + 'detunings'], (wc[:, 0] - wc[:, 1] - wc[:, 2]) * unit, wc * unit)
            same(s + 'gammas', v[s + 'gammas'], w.imag.sum(axis=1) * unit, w.imag * unit)
