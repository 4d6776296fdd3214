"""Second interpreter of C17: another hash seed, another memory layout."""


def preload():
    import runs
    runs.preload()


def run(spec):
    import prog
    import runs
    import host
    import random
    import os
    cfg = spec['cfg']
    with host.Scratch() as d:
        d2 = os.path.join(d, spec.get('under', ''))
        os.makedirs(d2, exist_ok=True)
        root = runs.root_of(d2, spec.get('k', ''))
        runs.build(root, cfg)
        p = runs.solve(root, gsched=prog.gs(cfg), seed=spec['seed'], plan=spec['plan'], flags=spec['flags'], pid=spec['pid'])
        res = prog.result(root)
        out = {f: {k: runs.hsh(v) for k, v in (x or {'unreadable': 1}).items()} for f, x in res.items()}
        return {'status': p.status, 'exc': p.exc, 'files': out, 'log': host.logdigest(p), 'seq': p.seq or 0, 'sim_ns': p.simtime or 0,
                'fired': sum(p.fired or [0])}
