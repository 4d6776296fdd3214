"""Scenarios that run the complete program, and the references they share."""
import os
import random
import shutil

import enum_model
import host
import runs
from saves import Bad

_REF = {}


def pool_cfg(seed, rng, i, n=3, tag='pool', **kw):
    """One of a few worlds per worker, so that its reference run is shared.

    The world depends on the seed of the check, the tag and the index only.
    """
    per = kw.pop('workers', 8)
    k = (i % per) + per * rng.randrange(n)
    par, multi = kw.pop('parallel', None), kw.pop('multi', False)
    most, least, wide = kw.pop('most', 4), kw.pop('least', 1), kw.pop('wide', None)
    r = random.Random(f'{seed}/{tag}/{k}')
    while True:
        c = runs.cfg_gen(r, **kw)
        if wide:                                      # a number of parents
            p = c['modes']['parent']['n']
            p[1] = p[0] + r.choice(wide) - 1
        if enum_model.listed(c) is not None:      # worlds of the known finding belong to C16
            continue
        if multi and len(enum_model.wanted(c)) < 2:
            continue
        if not least <= len(enum_model.wanted(c)) <= most:
            continue
        break
    if par is not None:
        c.pop('parallel', None)
        if par:
            c['parallel'] = True
    return c


def gs(cfg):
    """The one thread schedule all runs of a world share, unless varied."""
    return dict(seed=cfg['star_seed'] * 7 + 3, policy=cfg['star_seed'] % 4, p=0.02, team=0, detect=0)


def bad_exit(p):
    return p.status in ('signal', 'noprogress', 'livelock')


def ref(cfg):
    """What a fault-free run of this world stores: {relative path: contents}."""
    k = runs.hsh(cfg)
    if k not in _REF:
        if len(_REF) > 200:
            _REF.clear()
        with host.Scratch() as d:
            root = runs.root_of(d)
            runs.build(root, cfg)
            p = runs.solve(root, gsched=gs(cfg))
            fs = runs.outputs(root)
            r = dict(status=p.status, exc=p.exc, tb=getattr(p, 'tb', ''), seq=p.seq or 0, log=p.log, sim_ns=p.simtime or 0,
                     files={os.path.relpath(f, root): runs.load(f) for f in fs}, out=p.out[-800:])
            _REF[k] = r
    return _REF[k]


def good_ref(cfg):
    """The reference contents; a fault-free run must succeed with one file."""
    r = ref(cfg)
    if r['status'] != 'ok' or len(r['files']) != 1:
        raise Bad('plain_run_fails', f'a run without any fault ended with {r["status"]} {r["exc"]} and {len(r["files"])} result files: '
                                     f'{r["tb"][-500:]} {r["out"][-300:]}')
    (name, data), = r['files'].items()
    if data is None:
        raise Bad('plain_run_unreadable', 'the result file of a run without any fault cannot be read')
    return name, data


def snapshot(root, cfg):
    return runs.tree(root, skip=())


def result(root):
    """{relative path: contents} of the finished result files."""
    return {os.path.relpath(f, root): runs.load(f) for f in runs.outputs(root)}


def wrap(body):
    """Turn body(ctx) into a result record of the check."""
    def run(spec):
        c = Ctx()
        viol = None
        try:
            with host.Scratch() as d:
                c.dir = d
                body(spec, c)
        except Bad as e:
            viol = e.v
        r = {'viol': viol, 'digest': runs.hsh(c.dig, c.inter, viol), 'stats': c.st, 'inter': c.inter,
             'nontrivial': c.nontriv, 'sim_ns': c.simns, 'states': c.states, 'note': c.note}
        if viol:
            r['log'] = c.log[-6000:]
        return r
    return run


class Ctx:
    def __init__(self):
        self.dig, self.inter, self.states = [], [], []
        self.st = {'sim_runs': 0}
        self.nontriv = False
        self.simns = 0
        self.log = ''
        self.note = ''

    def took(self, p, plan=None):
        """Account for one simulated process; returns whether a fault hit it."""
        st = self.st
        st['sim_runs'] += 1
        self.simns += p.simtime or 0
        runs.stats_of(p, st, plan)
        self.log = p.log
        self.inter.append(host.logdigest(p))
        if p.gomp:
            self.inter.append(str(p.gomp['hash']))
        st['run_' + p.status] = st.get('run_' + p.status, 0) + 1
        self.dig.append(p.status)
        f = sum(p.fired or [0]) + (p.enospc or 0) + bool(plan and p.status == 'crash')
        return f

    def hit(self, k, n=1):
        self.st[k] = self.st.get(k, 0) + n

    def world(self, cfg, k=''):
        root = runs.root_of(self.dir, k)
        runs.build(root, cfg)
        return root

    def solve(self, root, cfg, **kw):
        kw.setdefault('gsched', gs(cfg))
        kw.setdefault('flags', host.SHUFFLE | host.CLOCK | host.POISON)
        plan = kw.get('plan')
        p = runs.solve(root, **kw)
        p.hit = self.took(p, plan)
        return p


def same(a, b, what):
    """Raise when two {path: contents} results differ."""
    if sorted(a) != sorted(b):
        raise Bad('other_files', f'{what}: result files {sorted(a)} instead of {sorted(b)}')
    for k in a:
        d = runs.diff(a[k], b[k])
        if d:
            raise Bad('other_results', f'{what}: {k} differs in {d}: ' + show(a[k], b[k], d[0]))


def show(a, b, k):
    import numpy as np
    try:
        x, y = a.get(k), b.get(k)
        if x is None or y is None:
            return f'{"missing" if x is None else "extra"} {k}'
        if len(x) == 3 and len(y) == 3 and x[0] != '|O':
            u = np.frombuffer(x[2], np.dtype(x[0])).reshape(x[1])
            v = np.frombuffer(y[2], np.dtype(y[0])).reshape(y[1])
            return f'{np.array2string(u, threshold=8)[:150]} instead of {np.array2string(v, threshold=8)[:150]}'
        return f'{str(x)[:120]} instead of {str(y)[:120]}'
    except Exception as e:
        return repr(e)


def shrink_common(spec):
    for c in runs.shrink_cfg(spec['cfg']):
        yield dict(spec, cfg=c)
    pl = spec.get('plan')
    if pl:
        yield dict(spec, plan=[])
        if len(pl) > 1:
            for i in range(len(pl)):
                yield dict(spec, plan=pl[:i] + pl[i + 1:])
        for i, r in enumerate(pl):
            if r['count'] > 1:
                yield dict(spec, plan=pl[:i] + [dict(r, count=1)] + pl[i + 1:])
            if r['nth'] > 1:
                for n in (1, r['nth'] // 2, r['nth'] - 1):
                    yield dict(spec, plan=pl[:i] + [dict(r, nth=n)] + pl[i + 1:])
