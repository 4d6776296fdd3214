"""Several simulated processes on one directory tree, one file operation at a time.

Every process stops before each of its file operations; the seeded scheduler
picks which one goes on, and may kill one there.  Nothing else runs meanwhile,
so the interleaving of all file operations is decided by the seed.
"""
import itertools
import os
import random
import select

import host


class Gated:
    def __init__(self, no, fn, root, **kw):
        self.no = no
        self.up_r, up_w = os.pipe()      # requests of the process
        dn_r, self.dn_w = os.pipe()      # permissions
        self.p = host.Proc(fn, root, gate=(up_w, dn_r), pid=6000 + no, **kw)
        os.close(up_w)
        os.close(dn_r)
        self.end = None
        self.ops = 0
        self.settle()

    def settle(self):
        """Wait until it stands before its next operation or has ended."""
        r, _, _ = select.select([self.up_r, self.p.pfd], [], [], 120)
        if self.up_r in r and os.read(self.up_r, 1):
            return
        self.finish()

    def finish(self):
        self.end = self.p.wait()
        os.close(self.up_r)
        os.close(self.dn_w)

    def step(self, kill=False):
        self.ops += 1
        os.write(self.dn_w, b'k' if kill else b'g')
        self.settle()


def run(jobs, root, seed, policy):
    """jobs: list of (fn, kill_at or None, kwargs).  Returns events, processes.

    events: per job (start step, end step) on one global step counter.
    """
    r = random.Random(seed)
    todo = list(range(len(jobs)))
    live = {}
    t = 0
    span = {}
    prio = {i: r.random() for i in todo}
    cur = None
    trace = []
    sw = 0
    try:
        while todo or live:
            t += 1
            cand = sorted(live) + ([todo[0]] if todo else [])
            if policy == 0:
                k = r.choice(cand)
            elif policy == 1:       # bursts
                k = cur if cur in cand and r.random() < 0.93 else r.choice(cand)
            else:                   # priorities with a few change points
                if r.random() < 0.02:
                    prio[cur if cur is not None else 0] = r.random()
                k = max(cand, key=lambda x: prio[x])
            sw += k != cur
            cur = k
            if k in live:
                g = live[k]
                kill = jobs[k][1] is not None and g.ops + 1 >= jobs[k][1]
                g.step(kill)
            else:
                todo.remove(k)
                fn, _, kw = jobs[k]
                live[k] = g = Gated(k, fn, root, **kw)
                span[k] = [t, None]
            trace.append(k)
            if g.end is not None:
                span[k][1] = t
                span[k].append(g.end)
                del live[k]
    finally:
        for g in live.values():
            try:
                os.kill(g.p.pid, 9)
                os.waitpid(g.p.pid, 0)
            except OSError:
                pass
    return span, trace, sw


def between(fn, root, acts, **kw):
    """Run fn; before its k-th file operation something else happens: acts {k: callable}.

    Acts beyond the last operation do not happen.  Returns the ended process
    and the numbers of the acts that happened.
    """
    g = Gated(0, fn, root, **kw)
    done = []
    try:
        while g.end is None:
            k = g.ops + 1
            if k in acts:
                acts[k]()
                done.append(k)
            g.step()
    except BaseException:
        try:
            os.kill(g.p.pid, 9)
            os.waitpid(g.p.pid, 0)
        except OSError:
            pass
        raise
    return g.end, done


def linearise(ops, first, apply):
    """Is there an order of ops that explains every observation?

    ops: list of (start, end, kind, arg, seen, sure); kind 'w' applies arg to
    the state, and may not have happened when not sure; kind 'r' must see the
    state.  Returns one explaining final state per possible end, or nothing.
    """
    ends = []

    def go(left, state):
        if not left:
            ends.append(state)
            return
        first_end = min(o[1] for o in left if o[5]) if any(o[5] for o in left) else None
        for i, o in enumerate(left):
            if first_end is not None and o[0] > first_end:
                continue
            rest = left[:i] + left[i + 1:]
            if o[2] == 'r':
                if o[4] == state:
                    go(rest, state)
            else:
                go(rest, apply(state, o[3]))
    maybe = [o for o in ops if not o[5]]
    sure = [o for o in ops if o[5]]
    for n in range(len(maybe) + 1):
        for c in itertools.combinations(maybe, n):
            # a crashed operation may take effect any time after it started
            go(sure + [(o[0], float('inf'), o[2], o[3], o[4], True) for o in c], first)
    return ends
