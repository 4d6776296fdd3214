"""Cheap save workload: the real saver fed by real solver objects whose public
result lists carry seeded values, so a save takes milliseconds and every value
is unique.  Oracles: what a result file must hold, read from those same lists.
"""
import copy
import logging
import os
import random
import struct

import host
import runs

SOLVERS = []     # (name, poly, solver)

WORLDS = [
    ('a1', dict(parent=dict(l=2, m=2, n=[10, 10]), daughter_1=dict(l=1, m=1, n=[20, 20]), daughter_2=dict(l=1, m=1, n=[20, 20])), False),
    ('a3', dict(parent=dict(l=2, m=2, n=[10, 10]), daughter_1=dict(l=1, m=1, n=[20, 21]), daughter_2=dict(l=1, m=1, n=[20, 21])), False),
    ('b1', dict(parent=dict(l=2, m=0, n=[11, 11]), daughter_1=dict(l=1, m=0, n=[21, 21]), daughter_2=dict(l=1, m=0, n=[21, 21])), False),
    ('c2', dict(parent=dict(l=2, m=0, n=[11, 12]), daughter_1=dict(l=1, m=1, n=[21, 21]), daughter_2=dict(l=1, m=-1, n=[21, 21])), False),
    ('p2', dict(parent=dict(l=2, m=2, n=[10, 11]), daughter_1=dict(l=1, m=1, n=[20, 20]), daughter_2=dict(l=1, m=1, n=[20, 20])), True),
    ('q1', dict(parent=dict(l=2, m=2, n=[10, 10]), daughter_1=dict(l=1, m=1, n=[20, 20]), daughter_2=dict(l=1, m=1, n=[20, 20])), True),
]
NAMES = [w[0] for w in WORLDS]
MESA = [w[0] for w in WORLDS if not w[2]]
POLY = [w[0] for w in WORLDS if w[2]]


def _solver(root, cfg):
    """Public constructor with the arguments the runner passes."""
    import pathlib
    from aesolver import QuadraticAEGridSolver
    m = cfg['modes']
    sel = dict(driven_n_low=m['parent']['n'][0], driven_n_high=m['parent']['n'][1],
               damped_n_low1=m['daughter_1']['n'][0], damped_n_high1=m['daughter_1']['n'][1],
               damped_n_low2=m['daughter_2']['n'][0], damped_n_high2=m['daughter_2']['n'][1],
               mode_l=[m[r]['l'] for r in m], mode_m=[m[r]['m'] for r in m])
    poly = cfg.get('poly', False)
    s = QuadraticAEGridSolver(
        ['prog', 'run', 'toml', 'inlists/', '--save_file_name', 'x'], rot_pct=20,
        base_dir=f'{root}/POLY/' if poly else f'{root}/GYRE/', alternative_directory_path={}, alternative_file_name={},
        adiabatic=True, use_complex=False, use_symbolic_profiles=True, use_brunt_def=True,
        use_rotating_formalism=True, terms_cc_conj=(True, False, False), polytrope_comp=poly,
        polytrope_mass=3.0, polytrope_radius=4.5, numerical_integration_method='trapz',
        mode_selection_dict=sel, ad_path='modes' if poly else 'ad', nad_path=None if poly else 'nad',
        inlist_path=pathlib.Path(root) / 'inlists' / 'run.toml', toml_use=True)
    s()
    return s


def preload():
    import sys
    runs.preload()
    if SOLVERS:
        return
    with host.Scratch() as d:
        cwd = os.getcwd()
        for name, modes, poly in WORLDS:
            cfg = dict(n_grid=20, star_seed=2, omega_rot=0.2, detune=1e-3, modes=modes,
                       saving=dict(base='out', save_dir='', extra=''), poly=poly)
            root = runs.root_of(d, name)
            runs.build(root, cfg)
            os.chdir(root)
            sys.argv = ['prog', 'run', 'toml', 'inlists/', '--save_file_name', 'x']
            SOLVERS.append((name, poly, _solver(root, cfg)))
        os.chdir(cwd)


# ----------------------------------------------------------- seeded contents
ODD = [0.0, -0.0, float('inf'), float('-inf'), float('nan'), 5e-324, -2.5e-310, 1.7976931348623157e308, -1.0]


def _mut(v, r, odd):
    import numpy as np
    if isinstance(v, (bool, np.bool_)):
        return type(v)(r.random() < 0.5)
    if isinstance(v, (int, np.integer)) and not isinstance(v, bool):
        return v
    if isinstance(v, (float, np.floating)):
        return type(v)(r.choice(ODD) if r.random() < odd else v * (0.5 + r.random()) + r.random() * 1e-9)
    if isinstance(v, (complex, np.complexfloating)):
        return type(v)(v * (0.5 + r.random()))
    if isinstance(v, np.ndarray):
        if v.dtype.kind == 'f':
            a = v * (0.5 + r.random()) + r.random() * 1e-9
            if v.size and r.random() < odd * 3:
                a = np.array(a)
                a.flat[r.randrange(a.size)] = r.choice(ODD)
            return a
        if v.dtype.kind == 'c':
            return v * (0.5 + r.random())
        return v.copy()
    if isinstance(v, tuple):
        return tuple(_mut(x, r, odd) for x in v)
    if isinstance(v, list):
        return [_mut(x, r, odd) for x in v]
    return v


SETTINGS = {'_numerical_integration_method': ['trapz', 'simpson'], '_use_cheby': [False, True], '_cheby_order_mul': [2, 4, 300],
            '_cheby_blow_up': [False, True], '_cheby_blow_up_fac': [1e3, 1000, 0.1]}
ATTRS = {'num_int_method': '_numerical_integration_method', 'use_cheby': '_use_cheby', 'cheby_order_mul': '_cheby_order_mul',
         'cheby_blow_up': '_cheby_blow_up', 'cheby_blow_up_fac': '_cheby_blow_up_fac'}


def contents(name, seed, odd=0.05):
    """A solver object whose public result lists carry values of this seed."""
    import numpy as np
    poly, s = next((p, s) for n, p, s in SOLVERS if n == name)
    r = random.Random(f'{name}/{seed}')
    s = copy.copy(s)
    for k, v in list(vars(s).items()):
        # a private copy of every list, so that forks and saves never share
        if isinstance(v, list):
            setattr(s, k, copy.deepcopy(v))
    np.seterr(all='ignore')
    if seed is not None:
        for i in range(len(s.coupling_info)):
            s.coupling_info[i] = _mut(s.coupling_info[i], r, odd)
            s.mode_freq_info[i] = _mut(s.mode_freq_info[i], r, odd)
            st = s.stat_sol_info[i]
            if st:
                # the quantities that feed the stability checks stay ordinary
                s.stat_sol_info[i] = {k: _mut(v, r, 0 if k in ('gamma', 'detunings', 'linear driving rates') else odd)
                                      for k, v in st.items()}
            cs = s.coupling_statistics[i]
            s.coupling_statistics[i] = (cs[0] + r.randint(0, 5), cs[1] + r.choice([r.randint(0, 50), r.randint(0, 50), -r.randint(100, 70000), r.randint(100, 70000)]))
        for k, v in SETTINGS.items():
            if hasattr(s, k):
                setattr(s, k, r.choice(v))
        mi = copy.copy(getattr(s, '_mode_info_object', None))
        if hasattr(mi, 'combinations_radial_orders'):
            up = r.choice([0, 0, 1, 90, 120, 250, 33000])
            mi.combinations_radial_orders = [[x + (r.randint(0, up) if up else 0) for x in c] for c in mi.combinations_radial_orders]
            s._mode_info_object = mi
    return poly, s


def expected(poly, s, modes=None):
    """What the file must hold, from the solver's public results."""
    import numpy as np
    from aesolver import NumericalSaver  # noqa: F401
    e = {}
    n = len(s.coupling_info)
    f8 = lambda x: np.array(x, dtype=np.float64)

    def put(k, v):
        e[k] = runs.canon(v)
    ci, fi, st = s.coupling_info, s.mode_freq_info, s.stat_sol_info
    fn = ['inert_mode_freqs', 'corot_mode_freqs', 'inert_mode_omegas', 'corot_mode_omegas', 'inert_dimless_mode_freqs',
          'corot_dimless_mode_freqs', 'inert_dimless_mode_omegas', 'corot_dimless_mode_omegas']
    for j, k in enumerate(fn):
        put('mode_frequency_info/' + k, f8([f[j] for f in fi]))
        if not poly:
            put('nad_mode_frequency_info/' + k, f8([f[12 + j] for f in fi]))
    put('rotation/spin_factors', f8([f[8] for f in fi]))
    put('rotation/surface_rotation_frequency', f8([f[9 if poly else 10] for f in fi]))
    put('coupling/generic/|kappa|', f8([c[0] for c in ci]))
    put('coupling/generic/|kappa_norm|', f8([c[1] for c in ci]))
    put('coupling/generic/|eta|', f8([c[2] for c in ci]))
    put('coupling/generic/adiabatic', np.array([c[6] for c in ci], dtype=np.bool_))
    put('coupling/generic/quadratic_terms', f8([c[8] for c in ci]))
    put('normalization/radial', f8([c[5] for c in ci]))
    put('mode_statistics/wu', np.array([c[1] for c in s.coupling_statistics], dtype=np.int64))
    mi = getattr(s, '_mode_info_object', None)
    if hasattr(mi, 'combinations_radial_orders'):
        put('quantum_numbers/n', np.array(mi.combinations_radial_orders, dtype=np.int32))
    for k, a in ATTRS.items():
        if hasattr(s, a):
            put('@' + k, getattr(s, a))
    if not poly:
        put('linear_driving/quality_factors', f8([f[9] for f in fi]))
        put('linear_driving/driving_rates', f8([d['linear driving rates'] for d in st]))
        for k, src in (('detunings', 'detunings'), ('gammas', 'gamma'), ('critical_parent_amplitudes', 'critical parent amplitude'),
                       ('stationary_relative_phases', 'stationary relative phase'),
                       ('stationary_relative_luminosity_phases', 'stationary relative luminosity phase'),
                       ('q_factors', 'q factor'), ('critical_q_factors', 'critical q factor'),
                       ('equilibrium_theoretical_amplitudes', 'equilibrium amplitudes'),
                       ('surface_flux_variations', 'surface flux variations')):
            put('coupling/stationary_three_mode/' + k, f8([d[src] for d in st]))
        from aesolver.pre_checks import check_direct, check_driven, check_parametric
        from aesolver.stability_checker import gss
        put('checks/pre_checks', np.array([[check_parametric(d), check_direct(d), check_driven(d), gss(d['gamma']),
                                            d['linearly stable'], d['hyperbolic']] for d in st], dtype=np.bool_))
    assert n
    return e


def check(got, exp):
    """First difference between a file and what it must hold, or None."""
    if got is None:
        return 'the file cannot be read back'
    for k in sorted(exp):
        if k not in got:
            return f'{k} is missing'
        if got[k] != exp[k]:
            a, b = got[k], exp[k]
            if a[:2] != b[:2]:
                return f'{k} has type and shape {a[:2]} instead of {b[:2]}'
            import numpy as np
            x = np.frombuffer(a[2], np.dtype(a[0])).ravel()
            y = np.frombuffer(b[2], np.dtype(b[0])).ravel()
            j = [i for i in range(x.size) if x[i:i + 1].tobytes() != y[i:i + 1].tobytes()]
            # a computed NaN may come with any payload
            j = [i for i in j if not (x.dtype.kind == 'f' and x[i] != x[i] and y[i] != y[i])]
            if j:
                return f'{k} holds {x[j[0]]!r} instead of {y[j[0]]!r} at element {j[0]} of {x.size}'
    return None


def saver(root, name, item, base='out', sub='', extra=''):
    """Function that saves one item; item = [solver name, value seed]."""
    def fn():
        from aesolver import NumericalSaver
        poly, s = contents(*item)
        NumericalSaver(save_name=name, solving_object=s, base_dir=os.path.join(root, base), save_dir=sub,
                       extra_specifier=extra, polytropic=poly, initial_save_format='hdf5', nr_modes=3)()
    return fn


MODE = {'w': (False, False), 'a': (False, True), 'r+': (True, False)}


def mode_saver(root, path, item, mode):
    """Save to a given path through the HDF5 saver's open modes (w, a, r+)."""
    def fn():
        from aesolver import NumericalSaver
        from aesolver.data_handling.data_specific import HDF5Saver
        poly, s = contents(*item)
        # the unpacked results come from the public saver, which writes elsewhere
        n = NumericalSaver(save_name='scratch', solving_object=s, base_dir=os.path.join(root, 'spare'), polytropic=poly)
        n()
        h = HDF5Saver(path, n.unpacked_data, poly)
        h.h5_mode = MODE[mode]
        h.save_data()
    return fn


_FULL = {}


def full_of(item):
    """Everything a fresh file with this item's results holds."""
    k = tuple(item)
    if k not in _FULL:
        if len(_FULL) > 400:
            _FULL.clear()
        with host.Scratch() as d:
            root = runs.root_of(d, 'full')
            os.makedirs(os.path.join(root, 'out'))
            p = host.proc(saver(root, 'r', item), root, flags=0)
            fs = runs.outputs(root)
            if p.status != 'ok' or len(fs) != 1:
                raise RuntimeError('oracle: a clean save failed: ' + p.exc + getattr(p, 'tb', ''))
            _FULL[k] = runs.load(fs[0])
        w = check(_FULL[k], exp_cached(item))
        if w:
            raise RuntimeError('oracle: a clean save is wrong: ' + w)
    return _FULL[k]


def merge(old, new, mode):
    """Contents after a save in this mode; None when it must be refused."""
    if mode == 'w' or (mode == 'a' and old is None):
        return dict(new)
    if old is None:
        return None
    out = dict(old)
    for k, v in new.items():
        if mode == 'r+' or '@' in k or k not in old:
            out[k] = v
    return out


def mode_history(spec):
    """Saves in different open modes to one or two paths, against a model."""
    st = {'sim_runs': 0}
    dig, inter, log, simns, nontriv = [], [], '', 0, False
    try:
        with host.Scratch() as d:
            root = runs.root_of(d)
            os.makedirs(os.path.join(root, 'out'))
            model = {}
            for no, s in enumerate(spec['steps']):
                path = os.path.join(root, 'out', s['name'] + KM[s['item'][0]] + '.h5')
                old = model.get(path)
                new = merge(old, full_of(s['item']), s['mode'])
                p = host.proc(mode_saver(root, os.path.join(root, 'out', s['name'] + '.h5'), s['item'], s['mode']), root,
                              seed=s.get('seed', 1), plan=s.get('plan'), flags=host.SHUFFLE | host.CLOCK | host.POISON, pid=4000 + no)
                st['sim_runs'] += 1
                simns += p.simtime or 0
                runs.stats_of(p, st, s.get('plan'))
                log = p.log
                inter.append(host.logdigest(p))
                fired = sum(p.fired or [0]) + bool(s.get('plan') and p.status == 'crash')
                what = f'step {no} ({s["item"][0]} to {s["name"]!r}, mode {s["mode"]})'
                st[f'mode_{s["mode"]}_{"over" if old is not None else "fresh"}'] = st.get(
                    f'mode_{s["mode"]}_{"over" if old is not None else "fresh"}', 0) + 1
                if p.status in ('signal', 'noprogress', 'livelock'):
                    raise Bad('save_hangs_or_dies', f'{what}: {p.status} {p.exc}')
                got = runs.load(path) if os.path.exists(path) else None
                if got is None and os.path.exists(path):
                    raise Bad('unreadable', f'{what} ended with {p.status}; the file cannot be read')
                dig.append((p.status, runs.hsh(sorted(got.items()) if got else None)))
                nontriv = nontriv or old is not None or fired > 0
                if new is None:
                    if p.status == 'ok':
                        raise Bad('not_refused', f'{what}: overwriting in a file that does not exist reported success')
                    if got is not None:
                        raise Bad('created', f'{what}: a refused save left a file')
                    continue
                if p.status == 'ok':
                    if got != new:
                        raise Bad('mode_' + s['mode'], f'{what}: wrong contents after the save: ' + moddiff(got, old, new))
                    model[path] = new
                elif not fired:
                    raise Bad('save_fails', f'{what}: without any fault: {p.exc or p.status} {p.tb[-300:]}')
                elif got == new:
                    model[path] = new
                elif got != old:
                    raise Bad('mixed', f'{what} failed and left neither the earlier nor the new contents: ' + moddiff(got, old, new))
                for q, c in model.items():
                    if q != path and runs.load(q) != c:
                        raise Bad('other_file_changed', f'{what} changed {os.path.relpath(q, root)}')
    except Bad as e:
        return {'viol': e.v, 'digest': runs.hsh(dig, inter, e.v), 'stats': st, 'inter': inter, 'log': log[-6000:], 'sim_ns': simns}
    return {'viol': None, 'digest': runs.hsh(dig, inter), 'stats': st, 'inter': inter, 'nontrivial': nontriv,
            'sim_ns': simns, 'states': [x[1] for x in dig],
            'note': '; '.join(f'{s["mode"]}:{s["item"][0]}:{x[0]}' for s, x in zip(spec['steps'], dig))}


def moddiff(got, old, new):
    out = []
    for k in runs.diff(got, new):
        g, n, o = ((x or {}).get(k) for x in (got, new, old))
        out.append(f'{k}: ' + ('missing' if g is None else 'should be absent' if n is None else 'kept the earlier value' if g == o
                               else f'shape {g[1]} instead of {n[1]}' if len(g) == 3 and len(n) == 3 and g[1] != n[1] else 'other value'))
    return ', '.join(out)


def expect_of(item):
    """expected() of an item, evaluated in a throw-away process."""
    def fn():
        poly, s = contents(*item)
        return expected(poly, s)
    p = host.inspect(fn)
    if p.status != 'ok':
        raise RuntimeError('oracle: ' + p.exc + getattr(p, 'tb', ''))
    return p.value


def gen_item(rng, names=None):
    return [rng.choice(names or NAMES), rng.randrange(1 << 30)]


def quiet():
    logging.disable(logging.CRITICAL)


# ------------------------------------------------------- journals and power
def parse(j):
    """Journal of one process: list of (type, seq, off, path, path2, data)."""
    out, i = [], 0
    while i + 40 <= len(j):
        t, l1, l2, pad, seq, off, ln = struct.unpack_from('<iiiiqqq', j, i)
        i += 40
        p1 = j[i:i + l1].decode('utf-8', 'replace')
        i += l1
        p2 = j[i:i + l2].decode('utf-8', 'replace')
        i += l2
        data = b''
        if pad:
            data = j[i:i + ln]
            i += ln
        # a truncation carries its length in off
        out.append((t, seq, off, p1, p2, data, off if t == TRUNC else ln))
    return out


CREATE, WRITE, TRUNC, RENAME, UNLINK, MKDIR, FSYNC, RMDIR = range(1, 9)


def power_loss(src, dst, ops, at, rng):
    """Rebuild in dst what may be left of src plus ops[:at] after a power cut.

    Name-space changes are journaled in order: everything before the last sync
    survives, later ones survive up to an arbitrary point.  Data survives up to
    the last sync of its file; each later write may be lost, kept or torn.
    """
    import shutil
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(src, dst)
    ops = ops[:at]
    last = max([i for i, o in enumerate(ops) if o[0] == FSYNC], default=-1)
    meta = [i for i, o in enumerate(ops) if o[0] in (CREATE, RENAME, UNLINK, MKDIR, RMDIR)]
    later = [i for i in meta if i > last]
    keep = set(i for i in meta if i < last) | set(later[:rng.randint(0, len(later))])
    # run the full history on names to know which inode every write hits
    names, files, nino = {}, {}, 0
    disk = {}
    for i, o in enumerate(ops):
        t, seq, off, p, q, data, ln = o
        if t == CREATE:
            nino += 1
            names[p] = nino
            files[nino] = dict(path=p, writes=[], synced=0, fresh=True)
            if i in keep:
                disk[p] = nino
        elif t in (WRITE, TRUNC):
            if p not in names:
                nino += 1
                names[p] = nino
                files[nino] = dict(path=p, writes=[], synced=0, fresh=False)
                disk[p] = nino
            files[names[p]]['writes'].append((t, off, data, ln))
        elif t == FSYNC:
            if p in names:
                f = files[names[p]]
                f['synced'] = len(f['writes'])
        elif t == RENAME:
            if p not in names:
                nino += 1
                names[p] = nino
                files[nino] = dict(path=p, writes=[], synced=0, fresh=False)
                disk[p] = nino
            names[q] = names.pop(p)
            if i in keep and p in disk:
                a, b = os.path.join(dst, p), os.path.join(dst, q)
                disk[q] = disk.pop(p)
                if not files[disk[q]]['fresh']:
                    if os.path.exists(a):
                        os.replace(a, b)
                elif os.path.exists(b):
                    os.unlink(b)
        elif t == UNLINK:
            names.pop(p, None)
            if i in keep:
                disk.pop(p, None)
                if os.path.exists(os.path.join(dst, p)):
                    os.unlink(os.path.join(dst, p))
        elif t == MKDIR:
            if i in keep:
                os.makedirs(os.path.join(dst, p), exist_ok=True)
        elif t == RMDIR:
            if i in keep and os.path.isdir(os.path.join(dst, p)):
                try:
                    os.rmdir(os.path.join(dst, p))
                except OSError:
                    pass
    lost = 0
    for p, ino in disk.items():
        f = files[ino]
        a = os.path.join(dst, p)
        if not os.path.isdir(os.path.dirname(a)):
            continue
        b = bytearray()
        if not f['fresh'] and os.path.exists(a):
            with open(a, 'rb') as h:
                b = bytearray(h.read())
        for k, (t, off, data, ln) in enumerate(f['writes']):
            if k >= f['synced']:
                x = rng.random()
                if x < 0.4:
                    lost += 1
                    continue
                if x < 0.6 and t == WRITE:
                    data = data[:rng.randint(0, len(data))]
                    lost += 1
            if t == TRUNC:
                if ln < len(b):
                    del b[ln:]
                else:
                    b.extend(b'\0' * (ln - len(b)))
            else:
                if off > len(b):
                    b.extend(b'\0' * (off - len(b)))
                b[off:off + len(data)] = data
        with open(a, 'wb') as h:
            h.write(bytes(b))
    return lost


# ---------------------------------------------------------------- histories
_EXP = {}


def exp_cached(item):
    k = tuple(item)
    if k not in _EXP:
        if len(_EXP) > 400:
            _EXP.clear()
        _EXP[k] = expect_of(item)
    return _EXP[k]


KM = {'a1': '_k_0_0_0_m_2_1_1', 'a3': '_k_0_0_0_m_2_1_1', 'b1': '_k_2_1_1_m_0_0_0', 'c2': '_k_2_0_0_m_0_1_-1',
      'p2': '_k_0_0_0_m_2_1_1', 'q1': '_k_0_0_0_m_2_1_1'}


def path_of(root, st):
    """Where the documentation and the loaders put a result file."""
    sub = (st.get('sub') or '').strip('/')
    d = os.path.join(root, st.get('base', 'out'), 'hdf5_output', sub + (st.get('extra') or ''))
    return os.path.join(os.path.normpath(d), st['name'] + KM[st['item'][0]] + '.h5')


def loader_paths(root, steps, seed):
    """Paths under which the analysis looks for results saved by these steps."""
    def fn():
        from aesolver.read_load_info.load_name_plots import LoadFileName
        out = []
        r = random.Random(seed)
        for s in steps:
            nm, sp = s['name'], ''
            if '_' in nm[1:-1] and r.random() < 0.5:
                i = nm.index('_', 1)
                nm, sp = nm[:i], nm[i + 1:]
                if not sp:
                    nm, sp = s['name'], ''
            k, m = KM[s['item'][0]][3:].split('_m_')
            sub = (s.get('sub') or '').strip('/') + (s.get('extra') or '')
            d = dict(nr_files=1, base_dir=os.path.join(root, s.get('base', 'out')), output_dir='hdf5_output' + ('/' + sub if sub else ''),
                     use_standard_format=False, base_file_names=[nm], specification_names=[sp], file_suffix=['h5'],
                     masses=[3], Xcs=[0.1], triple_pairs=[[[1, 1], [1, 1], [1, 1]]],
                     meridional_degrees=[[int(x) for x in k.split('_')]], azimuthal_orders=[[int(x) for x in m.split('_')]])
            out.append(LoadFileName(d, 0)())
        return out
    p = host.inspect(fn)
    if p.status != 'ok':
        raise Bad('loader_name', f'the analysis cannot name the file: {p.exc} {getattr(p, "tb", "")[-400:]}')
    return p.value


class Bad(Exception):
    def __init__(self, cls, msg):
        self.v = {'class': cls, 'msg': host.plain(msg)}


def history(spec):
    """Run a history of saves against a model holding the last good contents.

    Step: item, name, sub, extra, plan (fault rules), budget (bytes until the
    disk is full), power (seeds of power cuts to try), seed, gc.
    """
    st = {'sim_runs': 0}
    dig, inter, note, log = [], [], [], ''
    simns = 0
    try:
        with host.Scratch() as d:
            root = runs.root_of(d)
            os.makedirs(os.path.join(root, 'out'))
            model = {}      # path -> item
            where_of = {}
            nontriv = False
            for no, s in enumerate(spec['steps']):
                path = path_of(root, s)
                old = model.get(path)
                exp = exp_cached(s['item'])
                snap = None
                if s.get('power'):
                    snap = os.path.join(d, 'snap')
                    import shutil
                    shutil.rmtree(snap, ignore_errors=True)
                    shutil.copytree(root, snap)
                p = host.proc(saver(root, s['name'], s['item'], s.get('base', 'out'), s.get('sub', ''), s.get('extra', '')),
                              root, seed=s.get('seed', 1), plan=s.get('plan'), budget=s.get('budget', -1),
                              flags=host.SHUFFLE | host.CLOCK | host.POISON, journal=bool(s.get('power')), pid=4000 + no)
                st['sim_runs'] += 1
                simns += p.simtime or 0
                runs.stats_of(p, st, s.get('plan'))
                log = p.log
                fired = sum(p.fired or [0]) + (p.enospc or 0)
                inter.append(host.logdigest(p))
                what = f'step {no} ({s["item"][0]} to {s["name"]!r})'
                if p.status in ('signal', 'noprogress', 'livelock'):
                    raise Bad('save_hangs_or_dies', f'{what}: {p.status} {p.exc}')
                st['save_' + p.status] = st.get('save_' + p.status, 0) + 1
                if p.status != 'ok' and not fired and not (s.get('plan') and p.status == 'crash'):
                    raise Bad('save_fails', f'{what}: a save without any fault ended with {p.exc or p.status}: {p.tb[-400:]}')
                if fired or p.status == 'crash':
                    nontriv = True
                nontriv = nontriv or (spec.get('loader') and len(model) > 1)
                got = runs.load(path) if os.path.exists(path) else None
                dig.append((p.status, runs.hsh(sorted(got.items()) if got else None)))
                if p.status == 'ok':
                    w = check(got, exp) if os.path.exists(path) else 'there is no file'
                    if w:
                        raise Bad('success_but_wrong', f'{what}: the save reported success but {w} '
                                                       f'(file {os.path.relpath(path, root)})')
                    if fired:
                        st['ok_despite_fault'] = st.get('ok_despite_fault', 0) + 1
                    model[path] = s['item']
                elif spec.get('only') == 'success':
                    model.pop(path, None)      # what a failed save leaves is another property
                else:
                    k = old_or_new(path, got, old, exp, what, p.status)
                    st['left_' + k] = st.get('left_' + k, 0) + 1
                    if k == 'new':
                        model[path] = s['item']
                # nobody else's file may change
                for q, it in model.items():
                    if q != path:
                        w = check(runs.load(q), exp_cached(it)) if os.path.exists(q) else 'the file is gone'
                        if w:
                            raise Bad('other_file_changed', f'{what} changed {os.path.relpath(q, root)}: {w}')
                if path in model:
                    where_of[path] = s
                if spec.get('loader') and model:
                    for q, lp in zip(model, loader_paths(root, [where_of[q] for q in model], s.get('seed', 1))):
                        w = check(runs.load(lp), exp_cached(model[q])) if os.path.exists(lp) else 'there is no such file'
                        if w:
                            raise Bad('not_found_by_loader', f'{what}: the results saved as {where_of[q]["name"]!r} are not what the '
                                                             f'analysis loads from {os.path.relpath(lp, root)}: {w}')
                        st['found_by_loader'] = st.get('found_by_loader', 0) + 1
                for ps in s.get('power') or ():
                    ops = parse(p.journal)
                    r = random.Random(ps)
                    at = len(ops) if r.random() < 0.35 else r.randint(0, len(ops))
                    dst = os.path.join(d, 'after')
                    st['fault:power_loss'] = st.get('fault:power_loss', 0) + 1
                    st['writes_lost'] = st.get('writes_lost', 0) + power_loss(snap, dst, ops, at, r)
                    q = path_of(dst, s)
                    g = runs.load(q) if os.path.exists(q) else None
                    nontriv = True
                    inter.append(runs.hsh(inter[-1], at, sorted(runs.tree(os.path.join(dst, 'out')).items())))
                    where = f'{what}: power lost after {at} of {len(ops)} changes'
                    k = old_or_new(q, g, old, exp, where, 'power loss')
                    if at == len(ops) and p.status == 'ok' and check(g, exp):
                        raise Bad('acknowledged_save_lost', f'{where}: the save had reported success but the file is {k}')
                    st['power_left_' + k] = st.get('power_left_' + k, 0) + 1
    except Bad as e:
        return {'viol': e.v, 'digest': runs.hsh(dig, inter, e.v), 'stats': st, 'inter': inter, 'log': log[-6000:], 'sim_ns': simns}
    return {'viol': None, 'digest': runs.hsh(dig, inter), 'stats': st, 'inter': inter, 'nontrivial': nontriv,
            'sim_ns': simns, 'states': [x[1] for x in dig],
            'note': '; '.join(f'{s["item"][0]}:{x[0]}' for s, x in zip(spec['steps'], dig))}


def old_or_new(path, got, old, exp, what, how):
    if not os.path.exists(path):
        if old is None:
            return 'nothing'
        raise Bad('old_lost', f'{what} ended with {how}: the earlier result file is gone')
    if not check(got, exp):
        return 'new'
    if old is None:
        raise Bad('torn', f'{what} ended with {how} and left an incomplete result file: {check(got, exp)}')
    w = check(got, exp_cached(old))
    if w:
        raise Bad('torn', f'{what} ended with {how}; the file holds neither the earlier nor the new results: {w}')
    return 'old'


def shrink_history(spec):
    ss = spec['steps']
    for i in range(len(ss)):
        if len(ss) > 1:
            yield dict(spec, steps=ss[:i] + ss[i + 1:])
    for i, s in enumerate(ss):
        def w(**k):
            return dict(spec, steps=ss[:i] + [dict(s, **k)] + ss[i + 1:])
        if s.get('plan'):
            yield w(plan=[])
            if len(s['plan']) > 1:
                for j in range(len(s['plan'])):
                    yield w(plan=s['plan'][:j] + s['plan'][j + 1:])
            for j, r in enumerate(s['plan']):
                if r['count'] > 1:
                    yield w(plan=s['plan'][:j] + [dict(r, count=1)] + s['plan'][j + 1:])
                if r['nth'] > 1:
                    for n in (1, r['nth'] // 2, r['nth'] - 1):
                        yield w(plan=s['plan'][:j] + [dict(r, nth=n)] + s['plan'][j + 1:])
        if s.get('budget', -1) >= 0:
            yield w(budget=-1)
        if s.get('power'):
            yield w(power=[])
            if len(s['power']) > 1:
                for j in range(len(s['power'])):
                    yield w(power=[s['power'][j]])
        if s['item'][0] not in ('a1',):
            yield w(item=['a1', s['item'][1]])
        if s.get('extra'):
            yield w(extra='')
        if s.get('sub'):
            yield w(sub='')
        if s['name'] != 'r':
            yield w(name='r')
