"""Builds the simulator and the instrumented native parts of /repo.

Everything is compiled from /repo's current working tree into
/verif/build/<component>-<hash of all inputs>/ (git-ignored); nothing is written
below /repo.  The C++ and Cython parts are compiled with the project's own flags
plus -fsanitize=thread, whose callbacks our own simgomp library implements, and
are linked against simgomp instead of libgomp.
"""
import concurrent.futures as cf
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys
import sysconfig

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
OUT = os.path.join(VERIF, 'build')
PY = '/opt/vp/venv/bin/python'
SUFFIX = None


class BuildError(Exception):
    pass


def py_info():
    import json
    r = subprocess.run([PY, '-c', (
        'import sysconfig,numpy,json;print(json.dumps([sysconfig.get_paths()["include"],'
        'numpy.get_include(),sysconfig.get_config_var("EXT_SUFFIX")]))')],
        capture_output=True, text=True, env=clean_env())
    if r.returncode:
        raise BuildError(r.stderr)
    return json.loads(r.stdout)


def clean_env():
    e = {k: v for k, v in os.environ.items()
         if k not in ('PYTHONPATH', 'LD_PRELOAD')}
    e.update(PATH='/opt/vp/venv/bin:/usr/local/bin:/usr/bin:/bin',
             PYTHONNOUSERSITE='1', PYTHONDONTWRITEBYTECODE='1', LANG='C.UTF-8',
             OMP_NUM_THREADS='1')
    return e


def run(cmd, cwd=None):
    r = subprocess.run(cmd, cwd=cwd, capture_output=True, text=True,
                       env=clean_env())
    if r.returncode:
        raise BuildError(f'{" ".join(cmd)}\n{r.stdout[-2000:]}{r.stderr[-6000:]}')
    return r.stdout


EXTS = ('.pyx', '.pxd', '.pxi', '.cpp', '.h', '.hpp', '.f90', '.f2py_f2cmap', '.py', '.c')


def tree_inputs(d):
    out = []
    for root, dirs, files in sorted(os.walk(d)):
        dirs[:] = sorted(x for x in dirs if x not in
                         ('build', '_build', '__pycache__', '.git', 'tests'))
        for f in sorted(files):
            if f.endswith(EXTS) and '_tests.cpp' not in f and f != 'main.cpp':
                out.append(os.path.join(root, f))
    return out


def digest(paths, *extra):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode() + b'\0')
        with open(p, 'rb') as f:
            h.update(f.read())
        h.update(b'\0')
    for e in extra:
        h.update(repr(e).encode())
    return h.hexdigest()[:20]


def once(name, key, fn):
    """Build name-key with fn(dir) unless it is complete; atomic publish."""
    os.makedirs(OUT, exist_ok=True)
    final = os.path.join(OUT, f'{name}-{key}')
    if os.path.exists(os.path.join(final, '.ok')):
        return final
    with open(os.path.join(OUT, f'.{name}.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(final, '.ok')):
            return final
        for old in os.listdir(OUT):      # keep the disk small
            if old.startswith(name + '-') and old != f'{name}-{key}':
                shutil.rmtree(os.path.join(OUT, old), ignore_errors=True)
        tmp = final + '.tmp'
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        fn(tmp)
        open(os.path.join(tmp, '.ok'), 'w').close()
        shutil.rmtree(final, ignore_errors=True)
        os.rename(tmp, final)
    return final


def native():
    srcs = [os.path.join(HERE, 'native', f) for f in ('simio.c', 'simgomp.cpp')]

    def mk(d):
        a = subprocess.Popen(['g++', '-O2', '-g', '-std=c++17', '-fPIC', '-shared',
                              '-Wl,-soname,libsimgomp.so', '-o', f'{d}/libsimgomp.so', srcs[1], '-ldl'])
        run(['gcc', '-O2', '-fPIC', '-shared', '-U_FORTIFY_SOURCE',
             '-D_FORTIFY_SOURCE=0', '-fno-builtin', '-o', f'{d}/libsimio.so',
             srcs[0], '-ldl'])
        if a.wait():
            raise BuildError('simgomp does not compile')
    return once('native', digest(srcs), mk)


WRAP = ['-Wl,--wrap=pthread_mutex_lock', '-Wl,--wrap=pthread_mutex_unlock',
        '-Wl,--wrap=pthread_mutex_trylock', '-Wl,--wrap=malloc',
        '-Wl,--wrap=calloc', '-Wl,--wrap=_Znwm', '-Wl,--wrap=_Znam']
NI = 'cpp-numintegrator'
LD = 'cpp-ld-funcs'
DI = 'cpp-disc-integrator'
HM = 'histogram_maker'
FND = 'fornberg-num-deriv'


def copy_pkg(src, dst):
    shutil.copytree(src, dst, ignore=shutil.ignore_patterns(
        'build', '_build', '__pycache__', '*.so', 'tests'))


def cython_ext(nat, base, pyx, cxx_sources, incs, flags, module):
    """Cythonise one pyx and link it with its C++ sources against simgomp."""
    inc, npinc, suf = py_info()
    lang = 'c++' if flags[0].startswith('-std=c++') else 'c'
    gen = os.path.join(base, pyx[:-4] + ('.cpp' if lang == 'c++' else '.c'))
    run([PY, '-m', 'cython', '-3'] + (['--cplus'] if lang == 'c++' else []) +
        ['--module-name', module, '-I', base, '-o', gen, pyx], cwd=base)
    cc = 'g++' if lang == 'c++' else 'gcc'
    objs = []
    procs = []
    incf = [f'-I{i}' for i in incs + [inc, npinc]]
    for s in [gen] + cxx_sources:
        o = os.path.join(base, 'obj_' + module.replace('.', '_') + '_' +
                         os.path.basename(s) + '.o')
        procs.append((s, subprocess.Popen(
            [cc, '-c', '-g1', '-fopenmp', '-fPIC', '-fsanitize=thread',
             '-DNDEBUG', '-w'] + flags + incf + [s, '-o', o],
            env=clean_env(), stderr=subprocess.PIPE, text=True)))
        objs.append(o)
    for s, p in procs:
        err = p.communicate()[1]
        if p.returncode:
            raise BuildError(f'{s}: {err[-4000:]}')
    so = os.path.join(base, *module.split('.')) + suf
    run([cc, '-shared', '-fPIC', '-o', so] + objs +
        [f'-L{nat}', '-Wl,--no-as-needed', '-lsimgomp', f'-Wl,-rpath,{nat}'] + WRAP)
    for o in objs:
        os.remove(o)


def cpp_parts(nat):
    """num_integrator, ld_funcs, disc_integrator."""
    dirs = [os.path.join(REPO, d) for d in (NI, LD, DI)]
    inputs = [p for d in dirs for p in tree_inputs(d)]

    def mk(d):
        for p, s in zip((NI, LD, DI), dirs):
            copy_pkg(s, os.path.join(d, p))
        ni, ld, di = (os.path.join(d, p) for p in (NI, LD, DI))
        nis, lds, dis = ni + '/num_integrator', ld + '/ld_funcs', di + '/disc_integrator'
        fl = ['-std=c++17', '-O3']
        jobs = [
            (ni, 'num_integrator/libcpp_num_integrator.pyx',
             [nis + '/num_integration.cpp'], [nis, ni], 'num_integrator.libcpp_num_integrator'),
            (ld, 'ld_funcs/libcpp_ld_funcs.pyx',
             [lds + '/ld_functions.cpp'], [lds, ld], 'ld_funcs.libcpp_ld_funcs'),
            (di, 'disc_integrator/libcpp_disc_integration.pyx',
             [nis + '/num_integration.cpp', lds + '/ld_functions.cpp',
              dis + '/disc_integrals.cpp'], [nis, lds, dis, di],
             'disc_integrator.libcpp_disc_integration'),
        ]
        with cf.ThreadPoolExecutor(4) as ex:
            fs = [ex.submit(cython_ext, nat, b, x, c, i, fl, m)
                  for b, x, c, i, m in jobs]

            def api():
                # every integration routine of the C++ class, callable directly
                # (the Python layer only reaches some); optional: if the class
                # no longer fits the shim, only the Python entry points are used
                o = os.path.join(d, 'kernel_api.so')
                try:
                    run(['g++', '-shared', '-g1', '-fopenmp', '-fPIC',
                         '-fsanitize=thread', '-w', '-std=c++17', '-O3', f'-I{nis}',
                         os.path.join(HERE, 'native', 'kernel_api.cpp'), '-c', '-o', o + '.o'])
                    run(['g++', '-shared', '-fPIC', '-o', o, o + '.o', f'-L{nat}',
                         '-Wl,--no-as-needed', '-lsimgomp', f'-Wl,-rpath,{nat}'] + WRAP)
                except BuildError as e:
                    print('NOTE integration routines not directly callable:', str(e)[-400:])
            fs.append(ex.submit(api))
            for f in fs:
                f.result()
    key = digest(inputs + [os.path.join(HERE, 'build.py'),
                           os.path.join(HERE, 'native', 'kernel_api.cpp')], nat)
    return once('cpp', key, mk)


def hist_parts(nat):
    src = os.path.join(REPO, HM)
    inputs = tree_inputs(src)

    def mk(d):
        base = os.path.join(d, HM)
        copy_pkg(src, base)
        cj = 'hogg_jacky/cython_jacky'
        mods = sorted(f[:-4] for f in os.listdir(os.path.join(base, cj))
                      if f.endswith('.pyx'))
        with cf.ThreadPoolExecutor(8) as ex:
            for f in [ex.submit(cython_ext, nat, base, f'{cj}/{m}.pyx', [], [base],
                                ['-O3'], f'hogg_jacky.cython_jacky.{m}') for m in mods]:
                f.result()
    key = digest(inputs + [os.path.join(HERE, 'build.py')], nat)
    return once('hist', key, mk)


def fnd_part():
    src = os.path.join(REPO, FND)
    inputs = tree_inputs(src)

    def mk(d):
        base = os.path.join(d, 'src')
        copy_pkg(src, base)
        run([PY, 'setup.py', 'build', '--build-base', 'build', '--build-lib',
             os.path.join(d, 'lib')], cwd=base)
        shutil.rmtree(base, ignore_errors=True)
        if not any(f.startswith('fnd') for f in os.listdir(os.path.join(d, 'lib', 'myfnd'))):
            raise BuildError('fornberg-num-deriv did not build')
    return once('fnd', digest(inputs + [os.path.join(HERE, 'build.py')]), mk)


PURE = ['aesolver', 'gyre-tools', 'hough-func-tools', 'num-tools',
        'py-combinations', 'pytest-util-tools', 'util-tools']


def build(parts):
    """Returns (native dir, PYTHONPATH list)."""
    nat = native()
    path = []
    with cf.ThreadPoolExecutor(3) as ex:
        fs = {}
        if 'cpp' in parts:
            fs['cpp'] = ex.submit(cpp_parts, nat)
        if 'hist' in parts:
            fs['hist'] = ex.submit(hist_parts, nat)
        if 'fnd' in parts:
            fs['fnd'] = ex.submit(fnd_part)
        res = {k: f.result() for k, f in fs.items()}
    if 'cpp' in res:
        path += [os.path.join(res['cpp'], p) for p in (NI, LD, DI)]
    if 'hist' in res:
        path += [os.path.join(res['hist'], HM)]
    if 'fnd' in res:
        path += [os.path.join(res['fnd'], 'lib')]
    path += [os.path.join(REPO, p) for p in PURE]
    return nat, path, res


if __name__ == '__main__':
    import time
    t = time.time()
    print(build(sys.argv[1:] or ['cpp', 'hist', 'fnd']), round(time.time() - t, 1))
