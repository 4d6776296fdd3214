"""Simulation worker.

One worker is one Python interpreter started with libsimio preloaded and the
/repo packages on its path.  It executes scenario specifications: run(spec) of a
property module is a pure function of the specification (and of /repo's code).
Each simulated process is a fork of the worker, so it starts from the same
memory image every time; inside it, simio owns the file system, clock,
randomness and fresh memory, and simgomp owns every OpenMP schedule.
"""
import ctypes
import gc
import hashlib
import importlib
import json
import logging
import os
import pickle
import re
import resource
import select
import shutil
import signal
import sys
import tempfile
import time
import traceback
import types

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)

CPU_CAP = 60      # seconds of CPU time a simulated process may use

# ----------------------------------------------------------------- simio
_L = None
OPENR, OPENW, READ, WRITE, TRUNC, CLOSE, RENAME, UNLINK, MKDIR, FSYNC, OPENDIR, STAT, FLOCK = (
    1 << i for i in range(13))
CLS = dict(openr=OPENR, openw=OPENW, read=READ, write=WRITE, trunc=TRUNC,
           close=CLOSE, rename=RENAME, unlink=UNLINK, mkdir=MKDIR,
           fsync=FSYNC, opendir=OPENDIR, stat=STAT, flock=FLOCK)
ACT = dict(err=1, short=2, crash_before=3, crash_after=4, torn_crash=5,
           torn_err=6, eintr=7)
ERRNO = dict(EIO=5, ENOSPC=28, ENOENT=2, EACCES=13, EMFILE=24, EDQUOT=122, EROFS=30)
SHUFFLE, CLOCK, POISON = 1, 2, 4


def simio():
    global _L
    if _L is None:
        _L = ctypes.CDLL(None)
        _L.simio_present()
        _L.simio_log.restype = ctypes.c_char_p
        _L.simio_arm.argtypes = [ctypes.c_char_p, ctypes.c_uint64, ctypes.c_int,
                                 ctypes.c_int, ctypes.c_int, ctypes.c_long,
                                 ctypes.c_int]
        _L.simio_rule.argtypes = [ctypes.c_int, ctypes.c_char_p, ctypes.c_int,
                                  ctypes.c_int, ctypes.c_int, ctypes.c_long]
        _L.simio_simtime.restype = ctypes.c_int64
        _L.simio_seq.restype = ctypes.c_long
        _L.simio_enospc_fired.restype = ctypes.c_long
    return _L


_G = None


def simgomp():
    """The simgomp instance that the /repo extension modules are linked to."""
    global _G
    if _G is None:
        _G = ctypes.CDLL(os.environ['SIM_NATIVE'] + '/libsimgomp.so')
        _G.simgomp_begin.argtypes = [ctypes.c_uint64, ctypes.c_int, ctypes.c_double,
                                     ctypes.c_int, ctypes.c_int, ctypes.c_uint64,
                                     ctypes.c_int]
        _G.simgomp_stat.restype = ctypes.c_uint64
        for f in ('simgomp_race', 'simgomp_fatal', 'simgomp_sched'):
            getattr(_G, f).restype = ctypes.c_char_p
    return _G


GSTAT = ('steps', 'switches', 'regions', 'atomics', 'teams_shrunk', 'stalls',
         'preempt_between_read_and_write', 'accesses', 'hash', 'max_team')


class omp:
    """Context manager: run kernels under one seeded schedule."""

    def __init__(self, sch, log=False):
        self.s = sch
        self.log = log

    def __enter__(self):
        g = simgomp()
        s = self.s
        g.simgomp_begin(s['seed'], s.get('policy', 0), s.get('p', 0.1),
                        s.get('team', 0), s.get('detect', 1),
                        s.get('limit', 20_000_000), 1 if self.log else 0)
        return self

    def __exit__(self, *a):
        g = simgomp()
        g.simgomp_end()
        self.stat = {k: int(g.simgomp_stat(i)) for i, k in enumerate(GSTAT)}
        self.races = g.simgomp_races()
        self.fatals = g.simgomp_fatals()
        self.race = g.simgomp_race().decode()
        self.fatal = g.simgomp_fatal().decode()
        if self.log:
            self.sched = g.simgomp_sched().decode()
        return False


SCRATCH_RE = re.compile(r'/[\w./]*aesim\.\w{8}')


class PR:
    """What one simulated process did."""
    status = ''        # ok exc exit crash signal timeout livelock
    exc = ''
    value = None
    log = ''
    fired = ()
    enospc = 0
    seq = 0
    simtime = 0
    journal = b''
    out = ''
    gomp = None

    def failed(self):
        return self.status != 'ok'


def plain(t):
    """Texts without the random name of the scratch directory."""
    return SCRATCH_RE.sub('<scratch>', t)


def _memfd(name):
    return os.memfd_create(name, 0)


def _slurp(fd):
    n = os.fstat(fd).st_size
    b = b''
    os.lseek(fd, 0, 0)
    while len(b) < n:
        c = os.read(fd, n - len(b))
        if not c:
            break
        b += c
    os.close(fd)
    return b


def _child(fn, root, seed, plan, fds, gate, flags, budget, pid, armed, gsched, capture):
    rfd, lfd, jfd, ofd = fds
    resource.setrlimit(resource.RLIMIT_CPU, (CPU_CAP, CPU_CAP + 5))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    L = simio()
    os.dup2(ofd, 1)
    os.dup2(ofd, 2)
    res = {}
    try:
        os.chdir(root)
        for r in plan or ():
            L.simio_rule(r['mask'], r.get('sub', '').encode(), r.get('nth', 1),
                         r.get('count', 1), r['act'], r.get('arg', 0))
        if gate:
            L.simio_gate(gate[0], gate[1])
        cm = omp(gsched) if gsched else None
        if cm:
            cm.__enter__()
        if armed:
            L.simio_arm(root.encode(), seed & (2**64 - 1), flags,
                        jfd if jfd is not None else -1, lfd, budget, pid)
        try:
            res['value'] = fn()
            res['status'] = 'ok'
        except SystemExit as e:
            res['status'] = 'exit'
            res['exc'] = f'SystemExit({e.code!r})'
        except BaseException as e:
            res['status'] = 'exc'
            res['exc'] = type(e).__name__ + ': ' + plain(str(e))[:300]
            res['tb'] = plain(traceback.format_exc())[-1500:]
        # interpreter exit: objects die, so late writes and errors happen now
        try:
            gc.collect()
        except BaseException:
            pass
        L.simio_disarm()
        if cm:
            cm.__exit__(None, None, None)
            res['gomp'] = dict(cm.stat, races=cm.races, fatals=cm.fatals,
                               race=cm.race, fatal=cm.fatal)
        res['fired'] = [L.simio_fired(i) for i in range(len(plan or ()))]
        res['enospc'] = L.simio_enospc_fired()
        res['seq'] = L.simio_seq()
        res['simtime'] = L.simio_simtime()
        res['log'] = L.simio_log().decode('utf-8', 'replace')
    except BaseException:
        res['status'] = 'harness'
        res['exc'] = traceback.format_exc()
    try:
        b = pickle.dumps(res)
    except Exception as e:
        b = pickle.dumps({'status': 'harness', 'exc': 'pickle: ' + repr(e)})
    os.write(rfd, b) if len(b) < 1 << 20 else [os.write(rfd, b[i:i + (1 << 20)]) for i in range(0, len(b), 1 << 20)]
    os._exit(0)


class Proc:
    """A running simulated process."""

    def __init__(self, fn, root, seed=0, plan=None, journal=False, gate=None,
                 flags=0, budget=-1, pid=4242, armed=True, gsched=None):
        self.plan = plan
        self.fds = (_memfd('res'), _memfd('log'),
                    _memfd('jrn') if journal else None, _memfd('out'))
        sys.stdout.flush()
        sys.stderr.flush()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                _child(fn, root, seed, plan, self.fds, gate, flags, budget,
                       pid, armed, gsched, True)
            finally:
                os._exit(99)
        self.pfd = os.pidfd_open(self.pid)

    def wait(self, timeout=150.0):
        r, _, _ = select.select([self.pfd], [], [], timeout)
        late = not r
        if late:
            os.kill(self.pid, signal.SIGKILL)
        _, st = os.waitpid(self.pid, 0)
        os.close(self.pfd)
        p = PR()
        rfd, lfd, jfd, ofd = self.fds
        rb = _slurp(rfd)
        lb = _slurp(lfd)
        p.journal = _slurp(jfd) if jfd is not None else b''
        p.out = plain(_slurp(ofd).decode('utf-8', 'replace'))
        p.raw = st
        p.fired = []
        p.tb = ''
        if late:
            p.status = 'timeout'
        elif os.WIFSIGNALED(st):
            p.status = 'noprogress' if os.WTERMSIG(st) == signal.SIGXCPU else 'signal'
            p.exc = f'killed by signal {os.WTERMSIG(st)}'
            p.log = lb.decode('utf-8', 'replace')
        elif rb:
            d = pickle.loads(rb)
            if d['status'] == 'harness':
                raise RuntimeError('harness failure in child: ' + d['exc'])
            for k, v in d.items():
                setattr(p, k, v)
        elif os.WEXITSTATUS(st) == 137:
            p.status = 'crash'
            p.log = lb.decode('utf-8', 'replace')
            p.seq = p.log.count('\n')
            if ' livelock' in p.log[-200:]:
                p.status = 'livelock'
        else:
            p.status = 'signal'
            p.exc = f'exit status {os.WEXITSTATUS(st)}'
            p.log = lb.decode('utf-8', 'replace')
        if p.status == 'timeout':
            raise RuntimeError('simulated process exceeded the wall-clock cap')
        return p


def proc(fn, root, **kw):
    return Proc(fn, root, **kw).wait()


def inspect(fn, root='/'):
    """Evaluate fn in a throw-away process (torn files may upset libraries)."""
    return Proc(fn, root, armed=False).wait(60)


def count_faults(p, stats, plan):
    """Which faults really fired, from the log of the process."""
    for ln in p.log.split('\n'):
        i = ln.find(' FAULT:')
        if i >= 0:
            cls = ln.split(' ', 2)[1]
            a, arg = ln[i + 7:].split(' ')[0].split(':')
            name = {1: 'err', 2: 'short', 3: 'crash_before', 4: 'crash_after',
                    5: 'torn_crash', 6: 'torn_err', 7: 'eintr'}[int(a)]
            if name == 'err':
                name = {5: 'EIO', 28: 'ENOSPC', 2: 'ENOENT', 13: 'EACCES', 24: 'EMFILE',
                        122: 'EDQUOT', 30: 'EROFS'}.get(int(arg), 'err')
            k = f'fault:{cls}:{name}'
            stats[k] = stats.get(k, 0) + 1
    if p.enospc:
        stats['fault:disk_full'] = stats.get('fault:disk_full', 0) + 1


def logdigest(p):
    # error texts inside logs carry no addresses; only operation lines are hashed
    return hashlib.sha256(p.log.encode()).hexdigest()[:16]


# ----------------------------------------------------------------- scratch
class Scratch:
    def __init__(self):
        base = os.environ.get('SIM_SCRATCH') or tempfile.gettempdir()
        self.dir = tempfile.mkdtemp(prefix='aesim.', dir=base)

    def __enter__(self):
        return self.dir

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)
        return False


def stub_poller():
    """simple_poller is a third-party console prompt that is not installed."""
    if 'simple_poller' not in sys.modules:
        m = types.ModuleType('simple_poller')

        class Poller:
            def __init__(self, *a, **k):
                pass
        m.Poller = Poller
        sys.modules['simple_poller'] = m


def main():
    name = sys.argv[1]
    sys.path.insert(0, VERIF)
    sys.path.insert(0, HERE)
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)
    logging.disable(logging.CRITICAL)
    try:
        mod = importlib.import_module('props.' + name)
        if hasattr(mod, 'preload'):
            mod.preload()
        gc.collect()
        gc.freeze()      # forks need not look at what they inherited
        out.write(json.dumps({'ready': True}) + '\n')
    except BaseException:
        out.write(json.dumps({'ready': False, 'error': traceback.format_exc()[-4000:]}) + '\n')
        out.flush()
        return
    out.flush()
    for line in sys.stdin:
        job = json.loads(line)
        t = time.monotonic()
        try:
            r = mod.run(job['spec'])
        except BaseException:
            r = {'error': traceback.format_exc()[-4000:]}
        r['wall'] = time.monotonic() - t
        r['id'] = job['id']
        out.write(json.dumps(r) + '\n')
        out.flush()


if __name__ == '__main__':
    main()
