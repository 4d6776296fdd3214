"""Synthetic stellar worlds: MESA profile, GYRE detail files, polytropes, inlist.

Everything is a pure function of the configuration dictionary, so a world can
be rebuilt byte for byte from its replay file.  The numbers are not a real
star; they are smooth, well-conditioned profiles with the right shapes, units
and file formats so that the real solver code runs end to end on them.
"""
import json
import os
import numpy as np
import h5py as _h5

VOID = np.dtype([('re', np.float64), ('im', np.float64)])


def void(a):
    a = np.asarray(a, dtype=np.complex128)
    out = np.zeros(a.shape, dtype=VOID)
    out['re'] = a.real
    out['im'] = a.imag
    return out


class MNum:
    def __init__(self, val):
        self.val = val

    def __format__(self, spec):
        ss = ('{0:' + spec + '}').format(self.val)
        if 'E' in ss:
            m, e = ss.split('E')
            return m + 'E' + e[0] + '0' + e[1:]
        return ss


def _cell(v, first=False):
    w = 40 if first else 41
    if isinstance(v, (int, np.integer)):
        return f'{int(v):{w}}'
    if isinstance(v, str):
        return f'{v:>{w}}'
    return '{0:40.16E}'.format(MNum(float(v)))


BODY = [
    'gamma_1_adDer', 'h1', 'h2', 'he3', 'he4', 'c12', 'c13', 'n14', 'o16',
    'o17', 'ne20', 'ne22', 'mg24', 'al27', 'si28', 's32', 'ar36', 'brunt_N2',
    'brunt_N2_structure_term', 'brunt_N2_composition_term', 'lamb_S',
    'lamb_S2', 'hyeq_lhs', 'hyeq_rhs', 'x', 'y', 'z', 'mlt_mixing_length',
    'log_D_mix', 'log_D_conv', 'log_D_ovr', 'log_D_minimum',
    'conv_mixing_type', 'zone', 'logT', 'logRho', 'luminosity', 'velocity',
    'entropy', 'csound', 'mu', 'q', 'radius', 'tau', 'pressure', 'opacity',
    'eps_nuc', 'non_nuc_neu', 'log_conv_vel', 'mass', 'mmid', 'grada', 'gradT',
    'gradr', 'pressure_scale_height', 'grav',
]
HEADER = {
    'model_number': 5157, 'num_zones': 5, 'initial_mass': 3.0,
    'initial_z': 0.02, 'star_age': 2.0e7, 'time_step': 1.0e4,
    'Teff': 1.25e4, 'photosphere_L': 2.3e3, 'photosphere_r': 6.5,
    'center_eta': -4.95, 'center_h1': 9e-2, 'center_he3': 7e-10,
    'center_he4': 0.9, 'center_c12': 1e-4, 'center_n14': 8e-3,
    'center_o16': 3e-4, 'center_ne20': 1.5e-3, 'star_mass_h1': 3.3,
    'star_mass_he3': 4e-4, 'star_mass_he4': 2.6, 'star_mass_c12': 5.4e-3,
    'star_mass_n14': 2e-2, 'star_mass_o16': 2.8e-2, 'star_mass_ne20': 1e-2,
    'he_core_mass': 0.0, 'c_core_mass': 0.0, 'o_core_mass': 0.0,
    'si_core_mass': 0.0, 'fe_core_mass': 0.0, 'neutron_rich_core_mass': 0.0,
    'tau10_mass': 6.0, 'tau10_radius': 6.5, 'tau100_mass': 6.0,
    'tau100_radius': 6.5, 'dynamic_time': 7e4, 'kh_timescale': 6e4,
    'nuc_timescale': 2.6e7, 'power_nuc_burn': 2.3e3, 'power_h_burn': 2.3e3,
    'power_he_burn': 9e-28, 'power_neu': 1.6e2, 'burn_min1': 50.0,
    'burn_min2': 1e3, 'time_seconds': 1.9e15, 'version_number': '"15140"',
    'compiler': '"gfortran"', 'build': '"10.2.0"',
    'MESA_SDK_version': '"x86_64-linux-21.4.1"', 'date': '"20230119"',
}

MSUN = 1.988409870698051e33
RSUN = 6.957e10
LSUN = 3.828e33
G = 6.674299999999999e-8


def structure(n, seed):
    """Smooth stellar structure on n points, mildly seed dependent."""
    r = np.random.RandomState(seed)
    x = np.linspace(0.0, 1.0, n)
    a = 1.0 + 0.1 * r.rand()
    m = 3.0 * MSUN
    rs = 4.5 * RSUN
    rho_c = 40.0
    # avoid exact zeros at the surface
    rho = rho_c * (1.0 - x ** 2 * 0.9999) ** (2.5 * a)
    mr = m * (x ** 3 * (2.5 - 1.5 * x ** 2)) ** 0.9
    mr[0] = 0.0
    p = 1.0e17 * (1.0 - x ** 2 * 0.9999) ** (3.5 * a)
    t = 2.5e7 * (1.0 - x ** 2 * 0.9999) + 1.2e4
    return {
        'x': x, 'M': m, 'R': rs, 'L': 120.0 * LSUN, 'rho': rho, 'M_r': mr,
        'P': p, 'T': t, 'V_2': 3.0 + 2.0 * x, 'As': 0.4 + x ** 2 * 1.5,
        'U': 3.0 - 2.9 * x ** 2, 'c_1': 0.05 + 0.95 * x ** 1.5,
        'Gamma_1': 5.0 / 3.0 - 0.02 * x, 'nabla': 0.3 - 0.05 * x,
        'nabla_ad': 0.4 - 0.01 * x, 'dnabla_ad': 0.01 * np.ones(n),
    }


def brunt_n2(cfg):
    """The squared buoyancy frequency from the centre to the surface."""
    x = structure(cfg['n_grid'], cfg['star_seed'])['x']
    n2 = 1e-7 * (0.3 + x)
    if cfg.get('brunt_scale'):
        b, k, ph = cfg['brunt_scale']
        n2 = n2 * (b * (1.0 + 0.95 * np.sin(k * np.pi * x + ph)))
    return n2


def mesa_text(cfg):
    n = cfg['n_grid']
    st = structure(n, cfg['star_seed'])
    cols = {}
    r = np.random.RandomState(cfg['star_seed'] + 17)
    x = st['x']
    for name in BODY:
        cols[name] = 0.5 + 0.3 * r.rand() + 0.2 * np.cos((1 + r.rand()) * x)
    cols['zone'] = np.arange(1, n + 1)
    cols['logT'] = np.log10(st['T'])
    cols['logRho'] = np.log10(st['rho'])
    cols['pressure'] = st['P']
    cols['radius'] = x * 4.5
    cols['mass'] = st['M_r'] / MSUN
    cols['q'] = st['M_r'] / st['M']
    cols['luminosity'] = 120.0 * x ** 0.3
    cols['grav'] = G * st['M_r'] / np.maximum((x * st['R']) ** 2, 1e18)
    cols['brunt_N2'] = brunt_n2(cfg)
    cols['gamma_1_adDer'] = st['Gamma_1']
    cols['conv_mixing_type'] = np.zeros(n)
    head = dict(HEADER)
    head['num_zones'] = n
    rows = []
    hv = list(head.items())
    rows.append(''.join(_cell(i + 1, i == 0) for i in range(len(hv))))
    rows.append(''.join(_cell(k, i == 0) for i, (k, _) in enumerate(hv)))
    rows.append(''.join(_cell(v, i == 0) for i, (_, v) in enumerate(hv)))
    rows.append('')
    names = ['zone'] + [b for b in BODY if b != 'zone']
    rows.append(''.join(_cell(i + 1, i == 0) for i in range(len(names))))
    rows.append(''.join(_cell(k, i == 0) for i, k in enumerate(names)))
    # MESA lists zones from the surface inwards
    for z in range(n):
        j = n - 1 - z
        out = []
        for i, k in enumerate(names):
            v = int(z + 1) if k == 'zone' else float(cols[k][j])
            out.append(_cell(v, i == 0))
        rows.append(''.join(out))
    return '\n'.join(rows) + '\n'


def mode_table(cfg):
    """All distinct (role, l, m, n) modes with their frequencies."""
    mi = cfg['modes']
    out = {}
    for role in ('parent', 'daughter_1', 'daughter_2'):
        d = mi[role]
        for n in range(d['n'][0], d['n'][1] + 1):
            out[(d['l'], d['m'], n)] = role
    return out


def mode_values(cfg, l, m, n, role, nad):
    """Frequency (cycles/day, inertial), damping and eigenfunction numbers."""
    r = np.random.RandomState(
        (cfg['star_seed'] * 7919 + l * 1009 + (m + 9) * 131 + n * 17) % (2**31)
    )
    wstar = np.sqrt(G * 3.0 * MSUN / (4.5 * RSUN) ** 3)
    om_rot = cfg['omega_rot']
    # dimensionless co-rotating frequency of a g mode ~ 1/n
    base = 12.0 if l == 1 else 24.0
    w_corot = base / (n + 1.0) * (1.0 + cfg.get('detune', 1e-3) * (r.rand() - 0.5))
    w_in = w_corot + m * om_rot
    to_cpd = wstar / (2 * np.pi) * 86400.0
    if nad:
        grow = (1e-6 if role == 'parent' else -1e-5) * (0.5 + r.rand())
        if r.rand() < cfg.get('p_flip', 0.2):
            grow = -grow
    else:
        grow = 0.0
    w = w_in + 1j * grow * w_corot
    return {
        'omega': w, 'freq': w * to_cpd, 'w_corot': w_corot,
        'amp': 0.5 + r.rand(), 'phase': r.rand() * 0.1, 'rs': r,
    }


def write_detail(path, cfg, l, m, n, role, nad, polytropic=False):
    ng = cfg['n_grid']
    st = structure(ng, cfg['star_seed'])
    mv = mode_values(cfg, l, m, n, role, nad)
    x = st['x']
    osc = np.sin(0.5 + (3 + n % 5) * np.pi * x)
    env = 0.05 + x ** 1.5
    eps = (1.0 + 1e-3j) if nad else 1.0
    xi_r = mv['amp'] * 0.01 * env * osc * eps
    xi_h = mv['amp'] * 0.1 * env * np.cos(0.3 + (3 + n % 5) * np.pi * x) * eps
    lam = {1: 2.0, 2: 6.0}.get(l, l * (l + 1.0)) * (1.0 + 0.05 * mv['amp'])
    f = _h5.File(path, 'w', libver=('earliest', 'v110'), track_order=False)
    with f:
        a = f.attrs
        a['n'] = np.int32(ng)
        a['l'] = np.int32(l)
        a['m'] = np.int32(m)
        a['n_p'] = np.int32(0)
        a['n_g'] = np.int32(n)
        a['n_pg'] = np.int32(-n)
        a['l_i'] = void([l - 0.2])[0]
        a['label'] = np.bytes_(b'')
        # the frame and the units in which the mode file states the frequency
        unit, frame = freq_kind(cfg, l, m, n, nad)
        a['freq_frame'] = np.bytes_(frame.encode())
        a['omega'] = void([mv['omega']])[0]
        w = mv['omega'] - (m * cfg['omega_rot'] if frame != 'INERTIAL' else 0.0)
        if polytropic:
            a['freq'] = void([w])[0]
            a['freq_units'] = np.bytes_(b'NONE')
        else:
            cpd = mv['freq'] if frame == 'INERTIAL' else w * (mv['freq'] / mv['omega']).real
            a['freq'] = void([{'CYC_PER_DAY': cpd, 'HZ': cpd / 86400.0, 'UHZ': cpd / 0.0864,
                               'RAD_PER_SEC': cpd / 86400.0 * 2 * np.pi, 'NONE': w}.get(unit, 3.7 * w)])[0]
            a['freq_units'] = np.bytes_(unit.encode())
            a['M_star'] = np.float64(st['M'])
            a['R_star'] = np.float64(st['R'])
            a['L_star'] = np.float64(st['L'])
        dat = {
            'x': x, 'xi_r': void(xi_r), 'xi_h': void(xi_h),
            'eul_phi': void(1e-3 * env * osc),
            'deul_phi': void(1e-3 * env * np.cos(5 * x)),
            'lambda': void(lam * np.ones(ng)),
            'Gamma_1': st['Gamma_1'],
            'Omega_rot': cfg['omega_rot'] * np.ones(ng),
            'y_1': void(xi_r * 1.1), 'y_2': void(xi_h * 0.9),
            'y_3': void(1e-3 * env), 'y_4': void(1e-3 * env * x),
        }
        if not polytropic:
            for k in ('As', 'M_r', 'P', 'T', 'U', 'V_2', 'c_1', 'dnabla_ad',
                      'nabla', 'nabla_ad', 'rho'):
                dat[k] = st[k]
            dat['c_rad'] = 1.0 + x
            for i, k in enumerate(('eul_P', 'eul_T', 'eul_rho', 'lag_L',
                                   'lag_P', 'lag_T', 'lag_rho')):
                dat[k] = void(1e-2 * (i + 1) * env * osc * eps)
        for k in sorted(dat):
            f.create_dataset(k, data=dat[k])


def write_poly_structure(path, cfg):
    ng = cfg['n_grid']
    z = np.linspace(0.0, 6.89, ng)
    theta = np.maximum(1.0 - (z / 6.89) ** 1.3, 1e-4)
    dtheta = -1.3 * (z / 6.89) ** 0.3 / 6.89 * 0.3
    dtheta[0] = 0.0
    f = _h5.File(path, 'w')
    with f:
        a = f.attrs
        a['Gamma_1'] = np.float64(5.0 / 3.0)
        a['n'] = np.int32(ng)
        a['n_r'] = np.int32(1)
        f.create_dataset('n_poly', data=np.array([3.0]))
        f.create_dataset('z', data=z)
        f.create_dataset('theta', data=theta)
        f.create_dataset('dtheta', data=dtheta)


def freq_kind(cfg, l, m, n, nad):
    kinds = cfg.get('frequency') or [['CYC_PER_DAY', 'INERTIAL']]
    return kinds[(l + 3 * m + n + 5 * nad) % len(kinds)]


def unknown_units(cfg):
    """Some mode file states its frequency in units the program does not know."""
    return not cfg.get('poly') and any(freq_kind(cfg, *k, nad)[0] in OTHER_UNITS for k in mode_table(cfg) for nad in (0, 1))


OTHER_UNITS = ('ACOUSTIC_DELTA', 'GRAVITY_DELTA', 'UPPER_DELTA', 'LOWER_DELTA', 'ACOUSTIC_CUTOFF', 'GRAVITY_CUTOFF', 'ROSSBY_I', 'ROSSBY_O', 'CRITICAL')


def detail_name(l, m, n, tag='M3.00_D2.00'):
    return f'detail_{tag}_g_mode_l{l}m{"+" if m >= 0 else "-"}{abs(m)}n+{n}.h5'


def write_inlist(path, root, cfg):
    mi = cfg['modes']
    cs = lambda b: 'true' if b else 'false'
    o = cfg.get('opt') or {}
    t = []
    w = t.append

    def sub(key, parts, how, whole=None):
        if how == 'str':
            v = repr(whole)
        elif how == 'per_mode':         # one for each of the three modes
            v = repr([f'{whole}_g_mode_l{mi[r]["l"]}m' for r in ('parent', 'daughter_1', 'daughter_2')])
        elif how == 'reversed':
            v = repr(parts[::-1])
        elif how == 'one':
            v = repr([whole])
        else:
            v = repr(parts)
        w(f'{key} = {v}')
        w(f'{key}_to_tuple = {cs(how not in ("str", "per_mode", "list"))}')
    w('[computation]')
    w(f'parallel_pre_check = {cs(o.get("pre"))}')
    w(f'parallel_mode_coupling = {cs(cfg.get("parallel", False))}')
    w(f'nr_parallel_processes = {o.get("np", 8)}')
    w(f"integration_method = '{cfg.get('integ', 'trapz')}'")
    w(f'angular.use_cheby = {cs(cfg.get("cheby", False))}')
    w('angular.cheby_mul = 4')
    w(f'angular.blow_up_protect = {cs(cfg.get("blow"))}')
    w('angular.blow_up_fac = 100000.0')
    pr = cfg.get('profile')
    w(f'compute_grid_models = {cs(not pr)}')
    w(f'compute_coefficient_profile = {cs(pr)}')
    w(f'display_progress = {cs(o.get("bars"))}')
    w('[verbosity-debug]')
    w(f'verbose = {cs(o.get("verbose"))}')
    w(f'debug = {cs(o.get("debug"))}')
    w(f'get_debug_info = {cs(o.get("info"))}')
    w('[saving]')
    sv = cfg['saving']
    w(f"solve.base_dir = '{root}/{sv.get('base', 'out')}'")
    w(f"solve.save_dir = '{sv.get('save_dir', '')}'")
    w(f"solve.extra_specifier = '{sv.get('extra', '')}'")
    w("solve.save_format = 'hdf5'")
    w('[information_folders]')
    w(f"MESA.default.base_dir = '{root}/MESA/'")
    w(f"MESA.default.output_dir = '{root}/MESA/profiles'")
    form = cfg.get('forms') or {}       # how the inlist states which names to select
    sub('MESA.selection.substrings', ['M3.00', 'D2.00'], form.get('model'))
    w("MESA.selection.suffix = 'dat'")
    w(f"GYRE.default.base_dir = '{root}/GYRE/'")
    w(f"GYRE.default.output_dir = '{root}/GYRE/x/'")
    sub('GYRE.selection.detail_substrings', ['detail', 'M3.00', 'D2.00'], form.get('modes'), 'detail_M3.00_D2.00')
    w("GYRE.selection.summary_substring = 'summary'")
    w(f"POLY.structure.default.base_dir = '{root}/POLY/'")
    w(f"POLY.structure.default.output_dir = '{root}/POLY/structure'")
    sub('POLY.structure.selection.substrings', ['poly', 'n_3_0'], form.get('model'))
    w("POLY.structure.selection.suffix = 'h5'")
    w(f"POLY.modes.default.base_dir = '{root}/POLY/'")
    w(f"POLY.modes.default.output_dir = '{root}/POLY/modes'")
    sub('POLY.modes.selection.detail_substrings', ['detail', 'n_3_0'], form.get('modes'), 'detail_n_3_0')
    w("POLY.modes.selection.summary_substring = 'summary'")
    w('[GYRE_selection]')
    w(f"gyre_dir_path = '{root}/GYRE/'")
    w("specifier.adiabatic = 'ad'")
    w("specifier.nonadiabatic = 'nad'")
    w('alternative.directory_path = {}')
    w('alternative.file_name = {}')
    w('[POLY_selection]')
    w(f"mode_path = '{root}/POLY/'")
    w("specifier.modes = 'modes'")
    w('alternative.directory_path = {}')
    w('alternative.file_name = {}')
    w('[POLY_model]')
    mass, radius = cfg.get('poly_model') or (3.0, 4.5)
    w(f'mass = {mass}')
    w(f'radius = {radius}')
    w('[rotation]')
    w(f'rot_percent = {o.get("rot", 20)}')
    w('rotating_formalism = true')
    w('[mode_info]')
    for role in ('parent', 'daughter_1', 'daughter_2'):
        d = mi[role]
        w(f'{role}.n.low = {d["n"][0]}')
        w(f'{role}.n.high = {d["n"][1]}')
        w(f'{role}.l = {d["l"]}')
        w(f'{role}.m = {d["m"]}')
    for role in ('parent', 'daughter_1', 'daughter_2'):
        w(f'coupling.{role}.n = {pr["n"][role] if pr else mi[role]["n"][0]}')
    w('[coupling_coefficient]')
    w(f'symbolic_profiles = {cs(cfg.get("symbolic", True))}')
    w(f'brunt_def_profiles = {cs(cfg.get("brunt", True))}')
    w(f'use_complex = {cs(cfg.get("complex"))}')
    w(f'adiabatic = {cs(cfg.get("adiabatic", True))}')
    w(f'terms_cc_conj = [{", ".join(cs(x) for x in cfg.get("conj", (1, 0, 0)))}]')
    w(f'compute_for_polytrope = {cs(cfg.get("poly", False))}')
    w(f'analytic_polytrope = {cs(cfg.get("analytic"))}')
    w('[plotting]')
    w(f'profile.show_kernels = {cs(pr and pr.get("kernels"))}')
    w(f'profile.show_term_by_term = {cs(pr and pr.get("terms"))}')
    with open(path, 'w') as f:
        f.write('\n'.join(t) + '\n')


def build(root, cfg):
    """Write every input file of the world below root. Returns the inlist."""
    os.makedirs(root, exist_ok=True)
    inl = os.path.join(root, 'inlists')
    os.makedirs(inl, exist_ok=True)
    if cfg.get('poly'):
        os.makedirs(f'{root}/POLY/structure')
        os.makedirs(f'{root}/POLY/modes')
        write_poly_structure(f'{root}/POLY/structure/poly_n_3_0.h5', cfg)
        for (l, m, n), role in sorted(mode_table(cfg).items()):
            write_detail(
                f'{root}/POLY/modes/' + detail_name(l, m, n, 'n_3_0'), cfg,
                l, m, n, role, False, polytropic=True)
    else:
        os.makedirs(f'{root}/MESA/profiles')
        os.makedirs(f'{root}/GYRE/ad')
        os.makedirs(f'{root}/GYRE/nad')
        with open(f'{root}/MESA/profiles/profile_M3.00_D2.00.dat', 'w') as f:
            f.write(mesa_text(cfg))
        for (l, m, n), role in sorted(mode_table(cfg).items()):
            for sub, nad in (('ad', False), ('nad', True)):
                write_detail(f'{root}/GYRE/{sub}/' + detail_name(l, m, n),
                             cfg, l, m, n, role, nad)
    os.makedirs(f"{root}/{cfg['saving'].get('base', 'out')}", exist_ok=True)
    path = os.path.join(inl, 'run.toml')
    write_inlist(path, root, cfg)
    return path
