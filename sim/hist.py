"""Scenarios for the histogram library (prange kernels and their drivers)."""
import contextlib
import io
import math

import numpy as np

import host
import kern
from kern import Guard, Viol, call, close, run_sched

CJ = {}


def preload():
    import hogg_jacky
    from hogg_jacky.cython_jacky import (cy_jacky, cython_jacky_bin_widths, cython_jacky_binning,
                                         cython_jacky_empirical_density_hist,
                                         cython_jacky_empirical_probability_conversion_factor,
                                         cython_jacky_empirical_probability_hist, cython_jacky_jacky)
    CJ.update(top=hogg_jacky, cy=cy_jacky, bw=cython_jacky_bin_widths, b=cython_jacky_binning,
              edh=cython_jacky_empirical_density_hist, cf=cython_jacky_empirical_probability_conversion_factor,
              eph=cython_jacky_empirical_probability_hist, j=cython_jacky_jacky)
    host.simgomp()
    x = np.linspace(0, 1, 9)
    cy_jacky.hogg_jackknife_likelihood_cython(x, [2.0], [2])


def data(op):
    r = np.random.RandomState(op['aseed'])
    n = op['n']
    k = op['kind']
    if k == 'uniform':
        d = 0.1 + r.rand(n) * 3.0
    elif k == 'normal':
        d = np.exp(r.randn(n) * 0.4) * 2.0
    elif k == 'few':
        d = 0.5 + r.randint(0, 4, size=n) * 0.75
    else:
        d = 10.0 ** (r.rand(n) * 6.0 - 3.0)
    d[0] += 1e-3
    if op.get('nan'):
        d[r.rand(n) < 0.2] = np.nan
        if np.isnan(d).sum() > n - 3:
            d[:] = np.arange(1, n + 1)
    return d


def ref_counts(d, bw, ph, nb, dmin=None):
    if nb == 1:
        return np.array([float(d.size)])
    lo = d.min() if dmin is None else dmin
    b = np.floor((d - lo) / bw - ph).astype(np.int64)
    b[b == nb] = nb - 1
    if (b < 0).any():
        return None
    return np.bincount(b).astype(float)


def ref_log_counts(d, edges):
    nb = edges.size - 1
    b = np.searchsorted(edges, d, side='left') - 1
    b[b == -1] = 0
    b[b == nb] = nb - 1
    return np.bincount(b).astype(float)


def quiet(fn):
    with contextlib.redirect_stdout(io.StringIO()):
        return fn()


def check_arr(what, got, want, op):
    want = np.asarray(want, float)
    if got is None or np.shape(got) != want.shape:
        raise Viol('shape', f'{what}: shape {np.shape(got)}, expected {want.shape}')
    if not close(got, want, np.abs(want)):
        i = int(np.argmax(np.abs(np.asarray(got, float) - want)))
        raise Viol('value', f'{what}: entry {i} of {want.size} is {np.ravel(got)[i]!r}, expected {np.ravel(want)[i]!r}')


def op_bin(op, st, inter, dig):
    """Counting and normalising with a given binning, parallel and serial."""
    d = data(op)
    g = Guard(op.get('reuse') and 'bin')
    d = g.give(d)
    nb, ph = op['nb'], op['ph']
    cy = CJ['cy']
    if op['log']:
        edges = g.give(np.logspace(np.log10(d.min()), np.log10(d.max()), nb + 1))
        cnt = ref_log_counts(d, edges)
        widths = edges[1:] - edges[:-1]
    else:
        bw = float(np.ptp(d) / nb) if op['exact'] else float(np.ptp(d) / (nb - 0.37))
        cnt = ref_counts(d, bw, ph, nb)
        if cnt is None or cnt.size > nb:
            return
        widths = bw
    if not op['log']:
        want = {'count': cnt, 'prob': cnt / d.size, 'dens': cnt / (d.size * widths)}[op['norm']]
    else:
        w = widths[:cnt.size]
        want = {'count': cnt, 'prob': cnt / d.size, 'dens': cnt / (d.size * w)}[op['norm']]
    ep, ed = op['norm'] == 'prob', op['norm'] == 'dens'
    for par in (True, False):
        nm = 'parallel' if par else 'serial'

        def one():
            if op['log']:
                return CJ['top'].histogram_cython_log_spec_edges(d, edges, ep, ed, use_parallel=par)
            if op['api'] == 'spec':
                return CJ['top'].histogram_cython_spec_width(d, bw, ph, ep, ed, nr_bins=nb, use_parallel=par,
                                                             additional_checks=op['chk'])
            f = {'count': cy.histogram_cython, 'prob': cy.empirical_probability_histogram_cython,
                 'dens': cy.empirical_density_histogram_cython}[op['norm']]
            return f(d, bw, nb, ph, op['chk'], par)
        got = call(f'{nm} histogram', lambda: run_sched(op, one, st, inter))
        if op['api'] != 'spec' and not op['log']:
            got, e, b = got
            check_arr(f'{nm} edges', e, np.linspace(d.min(), d.max(), nb + 1), op)
            check_arr(f'{nm} width', b, bw, op)
        check_arr(f'{nm} {op["norm"]} histogram ({nb} bins)', got, want, op)
        # conservation: every sample is counted exactly once
        tot = {'count': np.sum(got), 'prob': np.sum(got) * d.size,
               'dens': np.sum(got * (widths if np.ndim(widths) == 0 else widths[:cnt.size])) * d.size}[op['norm']]
        if abs(tot - d.size) > 1e-9 * d.size:
            raise Viol('conservation', f'{nm} histogram holds {tot!r} of {d.size} samples')
        dig.append(np.asarray(got).tobytes())
    if g.bad():
        raise Viol('memory', g.bad())


def op_kern(op, st, inter, dig):
    """The individual loops, parallel and serial, against their definitions."""
    r = np.random.RandomState(op['aseed'])
    n = op['n']
    g = Guard(op.get('reuse') and 'kern')
    d = g.give(data(op))
    edges = g.give(np.cumsum(0.05 + r.rand(n + 1)))
    cnt0 = np.floor(r.rand(n) * 9 + 2)
    al = op['alpha']
    cf = 3.5 + r.rand()
    bwid = 0.1 + r.rand()
    b, bw, cfm, eph, edh, j = (CJ[k] for k in ('b', 'bw', 'cf', 'eph', 'edh', 'j'))

    def both(name, ser, par, want, scale=None):
        want = np.asarray(want, float)
        sc = np.abs(want) if scale is None else scale
        for nm, f in (('serial', ser), ('parallel', par)):
            try:
                v = call(f'{nm} {name}', lambda: run_sched(op, f, st, inter))
            except Viol as e:
                if "AttributeError: module" in e.v['msg']:
                    # the routine is not public any more: nothing to compare
                    st['routine_absent'] = st.get('routine_absent', 0) + 1
                    continue
                raise
            if np.shape(v) != want.shape or not close(v, want, sc):
                raise Viol('value', f'{nm} {name} over {n} entries is wrong (threads {op["sched"]["icv"]})')
            dig.append(np.asarray(v).tobytes())

    def inplace(f, *a):
        def go():
            h = g.give(cnt0.copy(), const=False)
            f(h, *a)
            return h
        return go
    both('bin assignment', lambda: b.cython_binning_serial_loop(d, d.min(), bwid, op['ph']),
         lambda: b.cython_binning_parallel_loop(d, d.min(), bwid, op['ph']),
         np.floor((d - d.min()) / bwid - op['ph']))
    both('bin widths', lambda: bw.cython_compute_bin_widths(edges), lambda: bw.cython_compute_bin_widths_parallel(edges),
         edges[1:] - edges[:-1])
    both('conversion factor', lambda: cfm.cython_empirical_probability_conversion_serial_loop(cnt0, al),
         lambda: cfm.cython_empirical_probability_conversion_parallel_loop(cnt0, al),
         (cnt0 + al).sum() - 1.0, np.abs(cnt0 + al).sum())
    both('probability scaling', inplace(eph.cython_empirical_probability_hist, cf),
         inplace(eph.cython_empirical_probability_hist_parallel, cf), cnt0 / cf)
    both('probability scaling by count', inplace(eph.cython_empirical_probability_hist_int, 7),
         inplace(eph.cython_empirical_probability_hist_int_parallel, 7), cnt0 / 7.0)
    both('density scaling', inplace(edh.cython_empirical_density_hist, cf, bwid),
         inplace(edh.cython_empirical_density_hist_parallel, cf, bwid), cnt0 / (cf * bwid))
    both('density scaling by count', inplace(edh.cython_empirical_density_hist_int, 7, bwid),
         inplace(edh.cython_empirical_density_hist_int_parallel, 7, bwid), cnt0 / (7.0 * bwid))
    wd = edges[1:] - edges[:-1]
    both('variable density scaling', inplace(edh.cython_variable_bw_empirical_density_hist, cf, edges),
         inplace(edh.cython_variable_bw_empirical_density_hist_parallel, cf, edges), cnt0 / (cf * wd))
    both('variable density scaling by count', inplace(edh.cython_variable_bw_empirical_density_hist_int, 7, edges),
         inplace(edh.cython_variable_bw_empirical_density_hist_int_parallel, 7, edges), cnt0 / (7.0 * wd))
    t = cnt0 * np.log((cnt0 + al - 1.0) / (cf * bwid))
    both('likelihood', lambda: j.cython_jacky_serial_loop(cnt0, al, bwid, cf),
         lambda: j.cython_jacky_parallel_loop(cnt0, al, bwid, cf), t.sum(), np.abs(t).sum())
    t = cnt0 * np.log((cnt0 + al - 1.0) / (cf * wd))
    both('variable likelihood', lambda: j.cython_variable_bw_jacky_serial_loop(cnt0, edges, al, cf),
         lambda: j.cython_variable_bw_jacky_parallel_loop(cnt0, edges, al, cf), t.sum(), np.abs(t).sum())
    if g.bad():
        raise Viol('memory', g.bad())


def op_opt(op, st, inter, dig):
    """Optimal binning selection against a brute-force reference."""
    full = data(op)
    g = Guard(op.get('reuse') and 'opt')
    full = g.give(full)
    d = full[~np.isnan(full)]
    al, nbs, phs = op['alphas'], op['nbs'], op['phs']
    lik = {}
    for a in al:
        for nb in nbs:
            for ph in (phs if not op['log'] else [0.0]):
                with np.errstate(all='ignore'):
                    if op['log']:
                        if nb == 1:
                            e, c = np.array([d.min(), d.max()]), np.array([float(d.size)])
                        else:
                            e = np.logspace(np.log10(d.min()), np.log10(d.max()), nb + 1)
                            c = ref_log_counts(d, e)
                        w = (e[1:] - e[:-1])[:c.size]
                    else:
                        w = np.ptp(d) / float(nb)
                        c = ref_counts(d, w, ph, nb)
                        if c is None:
                            return
                    t = c * np.log((c + a - 1.0) / ((c.size * (1.0 + a) - 1.0) * w))
                lik[(a, nb, ph)] = (t.sum(), np.abs(t).sum())
    ok = {k: v for k, v in lik.items() if not np.isnan(v[0]) and v[0] > -np.inf}
    if not ok:
        return
    best = max(v[0] for v in ok.values())
    eps = 1e-10 * max(v[1] for v in ok.values())
    ep, ed = op['norm'] == 'prob', op['norm'] == 'dens'
    for par in (True, False):
        nm = 'parallel' if par else 'serial'

        def one():
            if op['log']:
                return CJ['top'].log_histogram_likelihood_cython(
                    full, al, nbs, empirical_probability=ep, empirical_density=ed, use_parallel=par,
                    return_binning_parameters=True)
            return CJ['top'].histogram_likelihood_cython(
                full, al, nbs, phs, verbose=op['verb'], empirical_probability=ep, empirical_density=ed,
                additional_checks=op['chk'], use_parallel=par, return_binning_parameters=True)
        got = call(f'{nm} optimal histogram', lambda: run_sched(op, lambda: quiet(one), st, inter))
        h, e, w, prm = got
        # which parameters did it select?  the histogram itself must belong to a
        # parameter set whose likelihood is maximal
        match = None
        for k, v in ok.items():
            if v[0] < best - eps:
                continue
            a, nb, ph = k
            if op['log']:
                if nb == 1:
                    we, c = np.array([d.min(), d.max()]), np.array([float(d.size)])
                else:
                    we = np.logspace(np.log10(d.min()), np.log10(d.max()), nb + 1)
                    c = ref_log_counts(d, we)
                ww = we[1:] - we[:-1]
            else:
                ww = np.ptp(d) / float(nb)
                we = np.linspace(d.min(), d.max(), nb + 1)
                c = ref_counts(d, ww, ph, nb)
            wc = ww if np.ndim(ww) == 0 else ww[:c.size]
            want = {'count': c, 'prob': c / d.size, 'dens': c / (d.size * wc)}[op['norm']]
            if np.shape(h) == want.shape and close(h, want, want) and np.shape(e) == we.shape and \
                    close(e, we, np.abs(we).max()) and np.shape(w) == np.shape(ww) and close(w, ww, np.abs(ww)):
                if prm is None or (abs(vals(prm)[0] - a) < 1e-12 and int(vals(prm)[1]) == nb):
                    match = k
                    break
        if match is None:
            raise Viol('selection', f'the {nm} search over {len(lik)} binnings did not return a histogram of maximal '
                                    f'likelihood (best {best!r}, returned {np.size(h)} bins, parameters {prm!r})')
        dig.append(repr(match))
        dig.append(np.asarray(h).tobytes())
    st['combinations'] = st.get('combinations', 0) + len(lik)
    if g.bad():
        raise Viol('memory', g.bad())


def vals(p):
    v = list(p.values()) if isinstance(p, dict) else list(p)
    return v


OPS = {'bin': op_bin, 'kern': op_kern, 'opt': op_opt}


def gen_op(rng, k):
    op = {'k': k, 'n': rng.choice([rng.randint(3, 12), rng.randint(13, 60), rng.randint(61, 300)]),
          'aseed': rng.randrange(1 << 30), 'kind': rng.choice(['uniform', 'normal', 'few', 'wide']),
          'nt': 4, 'sched': kern.gen_sched(rng), 'norm': rng.choice(['count', 'prob', 'dens']),
          'chk': rng.random() < 0.3}
    if k == 'bin':
        op.update(nb=rng.choice([1, 2, 3, 5, 8, 17, 40]), ph=rng.choice([0.0, 0.0, 0.0, -0.3]), log=rng.random() < 0.3,
                  exact=rng.random() < 0.7, api=rng.choice(['spec', 'full']))
    elif k == 'kern':
        op.update(alpha=rng.choice([0.5, 1.0, 1.3, 2.0, 5.0]), ph=rng.choice([0.0, 0.25, -0.3]))
    else:
        op.update(alphas=rng.sample([0.5, 1.0, 1.01, 1.5, 2.0, 3.0, 5.0, 10.0], rng.randint(1, 4)),
                  nbs=rng.sample([1, 2, 3, 4, 6, 9, 14, 25], rng.randint(1, 5)),
                  phs=rng.choice([[0.0], [0.0, -0.25], [-0.5, 0.0, -0.1]]), log=rng.random() < 0.4,
                  nan=rng.random() < 0.3, verb=rng.random() < 0.2)
    return op


def shrink(spec):
    yield from kern.shrink_ops(spec)
    if len(spec['ops']) == 1:
        op = spec['ops'][0]
        for k in ('alphas', 'nbs', 'phs'):
            if len(op.get(k, ())) > 1:
                for x in op[k]:
                    yield dict(spec, ops=[dict(op, **{k: [x]})])
        for k in ('chk', 'nan', 'verb'):
            if op.get(k):
                yield dict(spec, ops=[dict(op, **{k: False})])
