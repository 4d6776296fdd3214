"""Workload, oracles and helpers for the scenarios that run the whole program.

A simulated run is a fork of the worker that executes the program's own entry
point (or the public saver, or the public analyser) on a synthetic world; simio
owns every file operation of it.
"""
import contextlib
import copy
import hashlib
import json
import logging
import os
import random
import sys

import host

_READY = False


def preload():
    """Import the whole program once; every simulated process is a fork."""
    global _READY
    if _READY:
        return
    host.simio()
    host.simgomp()
    host.stub_poller()
    import numpy  # noqa: F401
    import h5py  # noqa: F401
    import aesolver  # noqa: F401
    import aerunners.solve_quadratic  # noqa: F401
    import ae_analyzer  # noqa: F401
    import world  # noqa: F401
    import warnings
    warnings.simplefilter('ignore')
    _READY = True


# ------------------------------------------------------------ configurations
def mode_cfg(rng, small=False):
    lp, mp, ld, md = rng.choice([(2, 2, 1, 1), (2, 2, 1, 1), (2, 2, 1, 1), (2, 0, 1, 1), (2, 0, 1, 0)])
    if (lp, mp, ld, md) == (2, 0, 1, 1):
        m1, m2 = 1, -1
    else:
        m1 = m2 = md
    wp = rng.choice([0, 0, 1] if small else [0, 1, 2])
    w1 = rng.choice([0, 1] if small else [0, 1, 2])
    p0 = rng.randint(9, 12)
    d0 = rng.randint(19, 23)
    same = m1 == m2 and rng.random() < 0.75
    dn1 = [d0, d0 + w1]
    if same:
        dn2 = list(dn1)
    else:
        e0 = rng.randint(19, 23)
        dn2 = [e0, e0 + rng.choice([0, 1])]
    return dict(parent=dict(l=lp, m=mp, n=[p0, p0 + wp]), daughter_1=dict(l=ld, m=m1, n=dn1),
                daughter_2=dict(l=ld, m=m2, n=dn2))


def cfg_gen(rng, small=False, poly=None, standard=False):
    """A world configuration; standard keeps the (2,2,1,1,1,1) triads."""
    m = mode_cfg(rng, small)
    if standard:
        while (m['parent']['m'], m['daughter_1']['m'], m['daughter_2']['m']) != (2, 1, 1):
            m = mode_cfg(rng, small)
    c = dict(n_grid=rng.choice([20, 30, 40]), star_seed=rng.randint(1, 60), omega_rot=rng.choice([0.1, 0.2, 0.3]),
             detune=rng.choice([1e-3, 1e-3, 1e-2]), modes=m, saving=dict(base='out', save_dir='', extra=''))
    if rng.random() < 0.25:
        c['adiabatic'] = False
    if rng.random() < 0.4:
        c['parallel'] = True
    if poly is None and rng.random() < 0.2 or poly:
        c['poly'] = True
        c.pop('adiabatic', None)
    if rng.random() < 0.3:
        c['integ'] = 'simpson'
    x = rng.random()
    if x < 0.15:
        c['analytic' if c.get('poly') else 'brunt'] = bool(c.get('poly'))
    elif x < 0.2:
        c['conj'] = rng.choice([[1, 1, 0], [0, 0, 0], [0, 1, 1]])
    # rarer settings, drawn apart so that they shift no other draw
    q = random.Random(repr(sorted(c.items(), key=str)))
    if q.random() < 0.15 and not c.get('analytic'):
        c['symbolic'] = False
    if q.random() < 0.5 and c.get('poly'):
        c['poly_model'] = [q.choice([1.0, 3.0, 8.25]), q.choice([1.5, 4.5, 20.0])]
    if q.random() < 0.15:
        c['forms'] = {'model': q.choice(['list', 'reversed']), 'modes': q.choice(['str', 'per_mode', 'reversed', 'one'])}
    return c


def shrink_cfg(c):
    """Simpler configurations of the same world."""
    m = c['modes']
    for r in ('parent', 'daughter_1', 'daughter_2'):
        lo, hi = m[r]['n']
        if hi > lo:
            for nn in ([lo, lo], [hi, hi]):
                d = copy.deepcopy(c)
                d['modes'][r]['n'] = nn
                yield d
    for k in ('adiabatic', 'integ', 'parallel', 'analytic', 'brunt', 'conj', 'symbolic', 'poly_model', 'forms'):
        if k in c:
            d = copy.deepcopy(c)
            d.pop(k)
            yield d


def gsched(c, seed, team=0):
    """Thread schedule of a simulated process; only matters when parallel."""
    return dict(seed=seed & 0x7fffffff, policy=seed % 4, p=0.05, team=team, detect=1)


# ------------------------------------------------------------------- running
def root_of(d, k=''):
    r = os.path.join(d, 'w' + str(k), 'AESolver')
    os.makedirs(os.path.dirname(r), exist_ok=True)
    return r


def build(root, cfg):
    import world
    return world.build(root, cfg)


def solve_fn(root, name='results'):
    """The program: what run_scripts/solve_quadratic.py does."""
    def fn():
        sys.argv = ['prog', 'run', 'toml', 'inlists/', '--save_file_name', name]
        import aerunners.solve_quadratic as q
        q.perform_complete_solve_run(logging.getLogger())
    return fn


def solve(root, name='results', cfg=None, **kw):
    if cfg is not None and 'gsched' not in kw:
        kw['gsched'] = gsched(cfg, kw.get('seed', 0))
    return host.proc(solve_fn(root, name), root, **kw)


# -------------------------------------------------------------- observations
def canon(v):
    """A value as stored: dtype, shape and every bit."""
    import numpy as np
    import h5py
    if isinstance(v, h5py.Empty):
        return ('empty', str(v.dtype))
    if isinstance(v, str):
        return ('str', v)
    if isinstance(v, bytes):
        return ('bytes', v)
    a = np.asarray(v)
    if a.dtype == object:
        return ('obj', repr(a.tolist()))
    return (a.dtype.str, a.shape, a.tobytes())


def _load(path):
    import h5py
    d = {}
    with h5py.File(path, 'r') as f:
        for k, a in f.attrs.items():
            d['@' + k] = canon(a)

        def v(n, o):
            if isinstance(o, h5py.Dataset):
                d[n] = canon(o[()])
            else:
                d[n + '/'] = ('group',)
            for k, a in o.attrs.items():
                d[n + '@' + k] = canon(a)
        f.visititems(v)
    return d


def load(path):
    """Complete contents of a result file, or None when it cannot be read."""
    p = host.inspect(lambda: _load(path))
    return p.value if p.status == 'ok' else None


def values(d):
    """Decode a loaded file into numpy arrays."""
    import numpy as np
    out = {}
    for k, v in d.items():
        out[k] = np.frombuffer(v[2], dtype=np.dtype(v[0])).reshape(v[1]) if len(v) == 3 else v
    return out


def diff(a, b, limit=4):
    """Names in which two loaded files differ."""
    if a is None or b is None:
        return ['unreadable'] if a is not b else []
    bad = [k for k in sorted(set(a) | set(b)) if a.get(k) != b.get(k)]
    return bad[:limit] + (['...'] if len(bad) > limit else [])


def tree(root, skip=()):
    """Every file and directory below root with its contents."""
    out = {}
    for d, ds, fs in os.walk(root):
        ds[:] = sorted(x for x in ds if os.path.join(d, x) not in skip)
        rel = os.path.relpath(d, root)
        out[rel + '/'] = ''
        for f in sorted(fs):
            p = os.path.join(d, f)
            try:
                with open(p, 'rb') as h:
                    out[os.path.normpath(os.path.join(rel, f))] = hashlib.sha256(h.read()).hexdigest()[:24]
            except OSError as e:
                out[os.path.normpath(os.path.join(rel, f))] = 'E%d' % e.errno
    return out


@contextlib.contextmanager
def elsewhere(home):
    """Simulated processes have a home and a temporary directory of their own."""
    import tempfile
    old = {k: os.environ.get(k) for k in ('HOME', 'TMPDIR')}
    os.environ.update(HOME=home + '/home', TMPDIR=home + '/tmp')
    tempfile.tempdir = None
    try:
        yield
    finally:
        for k, v in old.items():
            os.environ.pop(k) if v is None else os.environ.__setitem__(k, v)
        tempfile.tempdir = None


def user_files(d, names):
    """The home and temporary directory of the user, with files of his."""
    home = os.path.join(d, 'user')
    for f in ['home/.bashrc', 'home/.config/aesolver/inlist.toml', 'tmp/lock'] + [x + os.path.basename(n) for n in names for x in ('home/', 'tmp/')]:
        os.makedirs(os.path.dirname(os.path.join(home, f)), exist_ok=True)
        with open(os.path.join(home, f), 'w') as h:
            h.write(f)
    return home


def stamps(root, skip=('out',)):
    """Time stamps and permissions of everything but what lies below these directories."""
    out = {}
    for d, ds, fs in os.walk(root):
        rel = os.path.relpath(d, root)
        ds[:] = [x for x in ds if os.path.normpath(os.path.join(rel, x)) not in skip]
        for f in [''] + fs:
            st = os.lstat(os.path.join(d, f))
            out[os.path.normpath(os.path.join(rel, f)) + ('' if f else '/')] = (st.st_mode, st.st_mtime_ns)
    return out


class Untouched:
    """A run that leaves the files of the user alone: those in his home and temporary
    directory, and the stamps of those in the world. `skip`: the directories it writes to;
    `free`: what may change without being an error (the directories in which it makes them)."""

    def __init__(self, c, root, names=(), skip=(), free=()):
        self.root, self.skip, self.free = root, skip, free
        self.home = user_files(c.dir, names)

    def __enter__(self):
        self.was = tree(self.home), stamps(self.root, self.skip)
        self.env = elsewhere(self.home)
        self.env.__enter__()
        return self

    def __exit__(self, *a):
        self.env.__exit__(*a)
        self.now = tree(self.home), stamps(self.root, self.skip)

    def check(self, what):
        from saves import Bad
        (u, s), (v, t) = self.was, self.now
        if u != v:
            raise Bad('written_elsewhere', f'{what} changed {sorted(k for k in set(u) | set(v) if u.get(k) != v.get(k))[:4]} among the files of the user')
        d = sorted(k for k in s if k in t and s[k] != t[k] and k not in self.free)
        if d:
            raise Bad('files_touched', f'{what} touched {d[:4]}: time stamps or permissions differ')


def outputs(root, base='out'):
    """Result files below the output directory (finished ones: *.h5)."""
    o = []
    for d, ds, fs in os.walk(os.path.join(root, base)):
        ds.sort()
        for f in sorted(fs):
            if f.endswith('.h5') and not f.startswith('.'):
                o.append(os.path.join(d, f))
    return o


def hsh(*o):
    return hashlib.sha256(repr(o).encode()).hexdigest()[:16]


def triads(cfg):
    """The radial-order triads a configuration asks for (reference model)."""
    m = cfg['modes']
    rg = lambda r: range(m[r]['n'][0], m[r]['n'][1] + 1)
    return [(p, a, b) for p in rg('parent') for a in rg('daughter_1') for b in rg('daughter_2')]


# -------------------------------------------------------------- fault plans
def rule(cls, act, arg=0, nth=1, count=1, sub=''):
    mask = 0
    for c in cls.split('|'):
        mask |= host.CLS[c]
    return dict(mask=mask, sub=sub, nth=nth, count=count, act=host.ACT[act], arg=arg)


MUT = 'openw|write|trunc|rename|unlink|mkdir|fsync|close'


def crash_plan(rng, lo, hi):
    """One crash at an arbitrary mutating operation of the output tree."""
    k = rng.choice(['crash_before', 'crash_after', 'torn_crash', 'torn_crash'])
    if k == 'torn_crash':
        return [rule('write', k, arg=rng.choice([1, 10, 50, 90, 99]), nth=rng.randint(1, max(1, min(hi, 3) if hi < 20 else hi)), sub='out')]
    if rng.random() < 0.6:
        return [rule(rng.choice(['openw', 'write', 'fsync', 'fsync', 'close', 'rename', 'rename', 'mkdir']), k,
                     nth=rng.randint(1, rng.choice([1, 2, 2, max(2, hi)])), sub='out')]
    return [rule(MUT, k, nth=rng.randint(1, max(1, hi)), sub='out')]


def soft_plan(rng, opens=False):
    """Faults POSIX allows at any time and that must be invisible.

    The HDF5 library does not retry an interrupted open of an input file, and
    reports it; opens are interrupted only where Python does them.
    """
    out = []
    for _ in range(rng.randint(1, 3)):
        if rng.random() < 0.5:
            out.append(rule('read|write', 'short', arg=rng.choice([1, 30, 60, 90]), nth=rng.randint(1, rng.choice([2, 6, 30])), count=rng.randint(1, 40)))
        else:
            out.append(rule('read|write|openr|openw' if opens else 'read|write', 'eintr', nth=rng.randint(1, rng.choice([2, 6, 40])), count=rng.randint(1, 6)))
    return out


def stats_of(p, st, plan):
    host.count_faults(p, st, plan)
    st['fs_ops'] = st.get('fs_ops', 0) + (p.seq or 0)
    if p.gomp:
        for k in ('regions', 'switches', 'steps'):
            st['omp_' + k] = st.get('omp_' + k, 0) + p.gomp.get(k, 0)


def outcome(p):
    """Short, path-free description of how a process ended."""
    return p.status


def copy_spec(s):
    return json.loads(json.dumps(s))


REAL = ['the complete program from its command line entry point to the HDF5 file: argument and inlist parsing, model loading, '
        'coupling coefficients, stationary solutions, saver', 'the HDF5 library, h5py, numpy, scipy, astropy',
        'the C++ kernels and bindings compiled from /repo']
STUB = ['kernel file system interface: every call below the scratch world passes simio, which may fail, shorten, tear, delay or '
        'crash at it', 'clock, randomness, fresh heap memory and directory order (simio)',
        'OpenMP runtime (simgomp)', 'simple_poller (interactive prompt, not installed)',
        'stellar models and oscillation modes: synthetic files in the MESA and GYRE formats']
ASSUME = ['the synthetic worlds exercise the same code paths as real MESA and GYRE files',
          'a process crash keeps every completed system call; a power failure keeps what was synced plus an arbitrary part of the rest']
