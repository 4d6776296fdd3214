"""Scenarios for the OpenMP kernels: seeded inputs, calls, reference models."""
import ctypes
import json
import os
import sys

import numpy as np

import host

RTOL = 1e-11


def arr(rng, kind, n, lo=-1.0, hi=1.0):
    if kind == 'smooth':
        return np.ascontiguousarray(np.sin(np.linspace(0.3, 5.0 + rng.rand(), n)) * (hi - lo))
    if kind == 'spiky':
        a = rng.rand(n) * 1e-3
        a[rng.randint(0, n)] = 1e6 * (rng.rand() - 0.5)
        return a
    if kind == 'wide':
        return (rng.rand(n) - 0.5) * 10.0 ** rng.randint(-8, 9, size=n)
    return lo + (hi - lo) * rng.rand(n)


class Guard:
    """Arrays with guard zones: kernels may only write where they are asked to."""

    POOL = {}

    def __init__(self, reuse=None):
        self.b = []
        self.reuse = reuse      # same memory for every call of this kind and size

    def give(self, a, const=True, pad=16):
        a = np.asarray(a)
        mark = np.array([-7.77e77] if a.dtype.kind == 'f' else [-77777], dtype=a.dtype)[0]
        if self.reuse:
            k = (self.reuse, len(self.b), a.size, a.dtype.str)
            buf = Guard.POOL.setdefault(k, np.empty(a.size + 2 * pad, dtype=a.dtype))
            buf[:] = mark
        else:
            buf = np.full(a.size + 2 * pad, mark, dtype=a.dtype)
        v = buf[pad:pad + a.size]
        v[:] = a
        self.b.append((buf, v, a.copy() if const else None, mark, pad))
        return v

    def bad(self):
        for buf, v, c, mark, pad in self.b:
            if (buf[:pad] != mark).any() or (buf[pad + v.size:] != mark).any():
                return 'a kernel wrote outside its arrays'
            if c is not None and v.tobytes() != c.tobytes():
                return 'a kernel modified its input'
        return None


def close(a, b, scale):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    with np.errstate(invalid='ignore'):
        ok = np.abs(a - b) <= RTOL * np.abs(scale) + 1e-290
    return bool(np.all(ok | (np.isnan(a) & np.isnan(b)) | (a == b)))


# ------------------------------------------------------------ reference models
def ref_trapz(y, x, es):
    if es:
        h = x[1] - x[0]
        return h * (y.sum() - 0.5 * (y[0] + y[-1])), abs(h) * np.abs(y).sum()
    dx = x[1:] - x[:-1]
    t = dx * (y[1:] + y[:-1]) * 0.5
    return t.sum(), (np.abs(dx) * (np.abs(y[1:]) + np.abs(y[:-1]))).sum()


def ref_integrate(y, x, es, how):
    if how == 'simpson' and es and y.size % 2 == 1:
        h = x[1] - x[0]
        v = h / 3.0 * (y[0] + y[-1] + 4.0 * y[1:-1:2].sum() + 2.0 * y[2:-1:2].sum())
        return v, 4 * abs(h) * np.abs(y).sum()
    return ref_trapz(y, x, es)


def ref_ld(mu):
    return 1.0 + 1.5 * mu


def ref_disc(mu, ang, d1, d2, how):
    k = (mu >= 0.0) & (mu <= 1.0)
    mu, ang, d1, d2 = mu[k], ang[k], d1[k], d2[k]
    ld = ref_ld(mu)
    a = ref_integrate(mu * ang * ld, mu, True, how)
    f = (2.0 * mu * d1 + (mu ** 2 - 1.0) * d2) * ld * mu
    g = (np.abs(2.0 * mu * d1) + np.abs((mu ** 2 - 1.0) * d2)) * ld * mu
    b = ref_integrate(f, mu, True, how)
    s = ref_integrate(g, mu, True, 'trapz')
    return a[0], b[0], a[1], 4 * s[1]


# ------------------------------------------------------------ real entry points
_api = None


def api():
    global _api
    if _api is None:
        d = json.loads(os.environ['SIM_PARTS'])['cpp'] + '/kernel_api.so'
        _api = ctypes.CDLL(d) if os.path.exists(d) else False
    return _api


def k_class(y, x, es, how, nt, par, which):
    a = api()
    if not a:
        return None
    r = ctypes.c_double(0)
    p = ctypes.POINTER(ctypes.c_double)
    ok = a.k_integrate(ctypes.c_int(y.size), y.ctypes.data_as(p), x.ctypes.data_as(p), int(es),
                       how.encode(), nt, int(par), which, ctypes.byref(r))
    return r.value if ok else None


def k_integrate(y, x, es, how, nt, par):
    from num_integrator import cni
    return cni.integrate(how, es, y, x, nt, par)


def k_ld(mu, out, how, nt, par):
    from ld_funcs import ldf
    ldf.compute(mu, out, how, nt, par)


def k_disc(mu, ang, d1, d2, ld, how, nt, par):
    from disc_integrator import di
    return di.get_integrals(mu, ang, d1, d2, ld, how, nt, par)


def preload_cpp():
    import disc_integrator
    import ld_funcs
    import num_integrator
    host.simgomp()
    api()
    # let lazily created module state exist before any fork
    y = np.ones(5)
    x = np.linspace(0, 1, 5)
    k_integrate(y, x, True, 'trapz', 1, False)


# ------------------------------------------------------------ schedules
def gen_sched(rng):
    pol = rng.choice([0, 0, 0, 1, 2, 2, 3])
    return {'seed': rng.randrange(1 << 30), 'policy': pol,
            'p': rng.choice([0.02, 0.1, 0.3, 0.6]) if pol != 1 else 0.0,
            'team': rng.choice([0, 0, 1]), 'detect': 1,
            'icv': rng.choice([1, 2, 3, 4, 5, 7, 8, 13])}


def shrink_sched(s):
    out = []
    if s.get('team'):
        out.append(dict(s, team=0))
    if s['policy'] != 1:
        out.append(dict(s, policy=1, p=0.0))
    if s['policy'] not in (0, 1):
        out.append(dict(s, policy=0, p=0.1))
    if s.get('icv', 4) > 2:
        out.append(dict(s, icv=2))
    return out


class sched(host.omp):
    def __enter__(self):
        super().__enter__()
        host.simgomp().omp_set_num_threads(self.s.get('icv', 4))
        return self


def verdict(cm):
    if cm.fatals:
        return {'class': 'no_progress', 'msg': cm.fatal}
    if cm.races:
        return {'class': 'data_race', 'msg': cm.race}
    return None


def add_stats(st, cm):
    st['steps'] = st.get('steps', 0) + cm.stat['steps']
    for k in ('switches', 'regions', 'preempt_between_read_and_write', 'atomics'):
        st[k] = st.get(k, 0) + cm.stat[k]
    st['fault:team_shrunk'] = st.get('fault:team_shrunk', 0) + cm.stat['teams_shrunk']
    st['fault:member_stalled'] = st.get('fault:member_stalled', 0) + cm.stat['stalls']
    st['fault:preemption'] = st.get('fault:preemption', 0) + cm.stat['switches']


def hosted(fn):
    """Run one scenario in a child process; a crash or hang is a verdict too."""
    p = host.inspect(fn)
    if p.status == 'ok':
        return p.value
    if p.status == 'exc':
        raise RuntimeError('scenario code failed: ' + p.exc + '\n' + p.tb)
    return {'viol': {'class': 'kernel_crash', 'msg': f'the process running the kernel ended with {p.status} {p.exc}'},
            'digest': 'crash-' + p.status, 'stats': {}, 'inter': []}



# ------------------------------------------------------------ operations
class Viol(Exception):
    def __init__(self, cls, msg):
        self.v = {'class': cls, 'msg': msg}


def call(what, fn, *a):
    try:
        return fn(*a)
    except Viol:
        raise
    except Exception as e:
        raise Viol('exception', f'{what} raised {type(e).__name__}: {e}')


def run_sched(op, fn, st, inter):
    """fn() under the operation's schedule; returns its value."""
    with sched(op['sched']) as cm:
        try:
            v = fn()
        finally:
            pass
    add_stats(st, cm)
    inter.append('%016x' % cm.stat['hash'])
    w = verdict(cm)
    if w:
        raise Viol(w['class'], w['msg'])
    return v


def gen_n(rng):
    if rng.random() < 0.03:
        return rng.randint(401, 5000)
    return rng.choice([rng.randint(2, 6), rng.randint(7, 20), rng.randint(21, 80), rng.randint(81, 400)])


KINDS = ['uniform', 'smooth', 'spiky', 'wide']


def op_disc(op, st, inter, dig):
    r = np.random.RandomState(op['aseed'])
    n = op['n']
    lo, hi = op['mu']
    mu = np.linspace(lo, hi, n)
    if op.get('warp'):
        # same size and ends, other directions in between
        mu = lo + (hi - lo) * np.linspace(0.0, 1.0, n) ** (1.0 + r.rand())
    if op.get('rev'):
        mu = mu[::-1].copy()
    g = Guard(op.get('reuse') and 'disc')
    mu = g.give(mu)
    ang, d1, d2 = (g.give(arr(r, op['kind'], n)) for _ in range(3))
    if ((mu >= 0) & (mu <= 1)).sum() < 2:
        return
    ra, rb, sa, sb = ref_disc(mu, ang, d1, d2, op['how'])
    ser = call('serial disc integration', k_disc, mu, ang, d1, d2, op['ld'], op['how'], 1, False)
    par = call('parallel disc integration', lambda: run_sched(
        op, lambda: k_disc(mu, ang, d1, d2, op['ld'], op['how'], op['nt'], True), st, inter))
    for nm, v in (('serial', ser), ('parallel', par)):
        for i, (want, sc) in enumerate(((ra, sa), (rb, sb))):
            if not op.get('warp') and not close(v[i], want, sc):
                raise Viol(f'{nm}_value', f'{nm} disc integral {i + 1} is {v[i]!r}, expected {want!r} (n={n}, nt={op["nt"]}, {op["how"]})')
    if g.bad():
        raise Viol('memory', g.bad())
    dig.append(np.array(ser + par).tobytes())


def op_ld(op, st, inter, dig):
    r = np.random.RandomState(op['aseed'])
    n = op['n']
    g = Guard(op.get('reuse') and 'ld')
    mu = g.give(arr(r, op['kind'], n))
    a = g.give(np.full(n, 1e300), const=False)
    b = g.give(np.full(n, 1e300), const=False)
    call('serial limb darkening', k_ld, mu, a, op['ld'], 1, False)
    call('parallel limb darkening', lambda: run_sched(op, lambda: k_ld(mu, b, op['ld'], op['nt'], True), st, inter))
    want = ref_ld(mu)
    for nm, v in (('serial', a), ('parallel', b)):
        if not close(v, want, 1 + np.abs(want)):
            i = int(np.argmax(np.abs(v - want)))
            raise Viol(f'{nm}_value', f'{nm} limb darkening at index {i} of {n} is {v[i]!r}, expected {want[i]!r} (nt={op["nt"]})')
    if g.bad():
        raise Viol('memory', g.bad())
    dig.append(a.tobytes() + b.tobytes())


def op_int(op, st, inter, dig):
    r = np.random.RandomState(op['aseed'])
    n = op['n']
    g = Guard(op.get('reuse') and 'int')
    x = np.linspace(-1.0, 2.5, n) if op['es'] else np.cumsum(0.01 + r.rand(n))
    if op.get('rev'):
        x = x[::-1].copy()
    x = g.give(x)
    y = g.give(arr(r, op['kind'], n))
    want, sc = ref_integrate(y, x, op['es'], op['how'])
    vals = {}
    vals['serial'] = call('serial integration', k_integrate, y, x, op['es'], op['how'], 1, False)
    vals['parallel'] = call('parallel integration', lambda: run_sched(
        op, lambda: k_integrate(y, x, op['es'], op['how'], op['nt'], True), st, inter))
    for which, nm in ((1, 'trapz'), (2, 'trapz_parallel'), (3, 'simpson'), (4, 'simpson_parallel')):
        v = call(nm, lambda: run_sched(op, lambda: k_class(y, x, op['es'], op['how'], op['nt'], which in (2, 4), which), st, inter))
        if v is None:
            st['routine_absent'] = st.get('routine_absent', 0) + 1
            continue
        w, s2 = ref_integrate(y, x, op['es'], nm.split('_')[0])
        if not close(v, w, s2):
            raise Viol('routine_value', f'{nm} over {n} points gives {v!r}, expected {w!r} (nt={op["nt"]}, equally spaced {op["es"]})')
        vals[nm] = v
    for nm in ('serial', 'parallel'):
        if not close(vals[nm], want, sc):
            raise Viol(f'{nm}_value', f'{nm} {op["how"]} over {n} points gives {vals[nm]!r}, expected {want!r} (nt={op["nt"]}, equally spaced {op["es"]})')
    if g.bad():
        raise Viol('memory', g.bad())
    dig.append(np.array(list(vals.values())).tobytes())


def gen_op(rng, k):
    op = {'k': k, 'n': gen_n(rng), 'aseed': rng.randrange(1 << 30), 'kind': rng.choice(KINDS),
          'nt': rng.choice([1, 2, 3, 4, 4, 5, 7, 8, 16, 33]), 'sched': gen_sched(rng)}
    if k == 'disc':
        op.update(ld='eddington', how=rng.choice(['trapz', 'simpson']),
                  mu=rng.choice([[0.0, 1.0], [-1.0, 1.0], [-0.97, 0.985], [-1.0, 1.3], [0.013, 0.99]]),
                  rev=rng.random() < 0.2)
    elif k == 'ld':
        op.update(ld='eddington')
    elif k == 'int':
        op.update(how=rng.choice(['trapz', 'simpson']), es=rng.random() < 0.5, rev=rng.random() < 0.15)
    return op


OPS = {'disc': op_disc, 'ld': op_ld, 'int': op_int}


def digest(dig, extra=()):
    import hashlib
    h = hashlib.sha256()
    for d in dig:
        h.update(d if isinstance(d, bytes) else repr(d).encode())
    for e in extra:
        h.update(repr(e).encode())
    return h.hexdigest()[:20]


def run_ops(spec, table=None):
    def body():
        st, inter, dig = {'sim_runs': 0}, [], []
        v = None
        ops = table or OPS
        try:
            for op in spec['ops']:
                st['sim_runs'] += 1
                ops[op['k']](op, st, inter, dig)
        except Viol as e:
            v = e.v
        return {'viol': v, 'digest': digest(dig, inter + [v and v['class']]), 'stats': st, 'inter': inter,
                'nontrivial': st.get('switches', 0) > 0, 'sim_ns': st.get('steps', 0) * 1000,
                'note': f'{len(dig)} calls, {st.get("steps", 0)} scheduling points, {st.get("switches", 0)} switches'}
    return hosted(body)


def shrink_ops(spec):
    ops = spec['ops']
    if len(ops) > 1:
        for i in range(len(ops) - 1, -1, -1):
            yield dict(spec, ops=[ops[i]])
        for i in range(len(ops)):
            yield dict(spec, ops=ops[:i] + ops[i + 1:])
        return
    op = ops[0]
    for n in sorted({2, 3, 4, 5, 6, 7, 8, 9, 12, 16, op['n'] // 4, op['n'] // 2, 3 * op['n'] // 4, op['n'] - 1}):
        if 2 <= n < op['n']:
            yield dict(spec, ops=[dict(op, n=n)])
    for nt in (2, 3, 4):
        if nt < op['nt']:
            yield dict(spec, ops=[dict(op, nt=nt)])
    if op['kind'] != 'uniform':
        yield dict(spec, ops=[dict(op, kind='uniform')])
    if op.get('rev'):
        yield dict(spec, ops=[dict(op, rev=False)])
    for s in shrink_sched(op['sched']):
        yield dict(spec, ops=[dict(op, sched=s)])
