REAL = ['C++ kernels of num_integrator, ld_funcs and disc_integrator compiled from /repo with the shipped flags',
        'their Cython bindings compiled from /repo', 'numpy', 'the CPython interpreter']
STUB = ['OpenMP runtime (libgomp): simgomp decides team sizes, chunk hand-out and every preemption',
        'ThreadSanitizer runtime: its callbacks are the preemption points and the race detector']
ASSUME = ['team members are sequentially consistent between preemption points; weaker memory orders appear only as '
          'data races, which are violations themselves',
          'preemption happens at instrumented memory accesses, atomics, locks and barriers']
