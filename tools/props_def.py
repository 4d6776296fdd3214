PROPS = []
NOTES = {}
NA = []


def claim(note, *a, **k):
    p = P(*a, **k)
    PROPS.append(p)
    NOTES[p['id']] = note


KN = ('Seeded search over interleavings of the real compiled kernels under a simulated OpenMP runtime that decides team sizes, chunk '
      'hand-out and preemptions, with a happens-before race detector; samples, does not enumerate. Trusts the TSan '
      'instrumentation of the compiler and the reference formulae of the check.')
WHY_OMP = ('The unit tests call each kernel a few times under whatever schedule the machine produces; a race or an '
           'order-dependent result needs a particular interleaving, team size or chunk hand-out that they never control.')

claim(KN, 'C01', 'Parallel disc integrals equal the definition under every thread schedule',
      'For every grid of directions with at least two points on the visible disc, every set of function values and both quadrature '
      'methods, the two disc integrals are those of the definition over the visible points only, to rounding, whether computed '
      'serially or in parallel with any number of threads. This holds for every interleaving of the threads and every team size the '
      'runtime grants. The computation finishes, is free of data races, and neither changes its inputs nor touches memory outside its arrays.',
      ['schedules', 'inputs'], 'all grids and values, all thread counts, all interleavings and granted team sizes', WHY_OMP,
      [DI + 'disc_integrals.cpp', DI + 'libcpp_disc_integration.pyx', DI + 'disc_integrals.h'],
      [('parallel loops building the integrands', DI + 'disc_integrals.cpp'), ('selection of the visible points', DI + 'disc_integrals.cpp')],
      ['return value of disc_integrator.di.get_integrals'])
claim(KN, 'C02', 'Parallel limb darkening equals the definition under every thread schedule',
      'For every array of directions, the limb darkening function is written for every element, and equals the definition of the '
      'selected law, whether computed serially or in parallel with any number of threads, under every interleaving and granted team '
      'size. No element outside the requested ones is written, the input is unchanged, there is no data race, and the call finishes.',
      ['schedules', 'inputs'], 'all arrays, thread counts, interleavings and granted team sizes', WHY_OMP,
      [LD + 'ld_functions.cpp', LD + 'libcpp_ld_funcs.pyx'],
      [('parallel element-wise loop', LD + 'ld_functions.cpp')], ['output array of ld_funcs.ldf.compute'])
claim(KN, 'C03', 'Parallel integration equals serial integration under every thread schedule',
      'For every integrand and grid (equally spaced or not, ascending or descending), the trapezoid and Simpson integrals computed in '
      'parallel equal the composite quadrature rule to rounding, for any number of threads, any interleaving and any granted team size, and so '
      'does the serial result. The call is free of data races, finishes, and leaves its inputs unchanged.',
      ['schedules', 'inputs'], 'all integrands and grids of two points or more, thread counts, interleavings, granted team sizes', WHY_OMP,
      [NI + 'num_integration.cpp', NI + 'num_integration.h', NI + 'libcpp_num_integrator.pyx'],
      [('parallel reductions', NI + 'num_integration.cpp'), ('choice between parallel and serial routine', NI + 'num_integration.cpp')],
      ['return value of num_integrator.cni.integrate'])
claim(KN, 'C04', 'Histograms count every sample exactly once under every thread schedule',
      'For every finite sample and every linear or logarithmic binning that covers it, the counts, probabilities and densities returned by the '
      'compiled histogram routines equal their definitions to rounding and together account for every sample exactly once, in serial '
      'and in parallel mode, under every interleaving and team size. The input is unchanged and there is no data race.',
      ['schedules', 'inputs'], 'all samples and covering binnings, all interleavings and team sizes', WHY_OMP,
      [HJ + 'cython_jacky/cython_jacky_binning.pyx', HJ + 'cython_jacky/cython_jacky_empirical_probability_hist.pyx',
       HJ + 'cython_jacky/cython_jacky_empirical_density_hist.pyx', HJ + 'cython_jacky/cy_jacky.py'],
      [('prange loops over samples and bins', HJ + 'cython_jacky/')], ['arrays returned by the histogram functions'])
claim(KN, 'C05', 'The selected optimal binning has maximal likelihood under every schedule',
      'Among the requested prior parameters, numbers of bins and phases, the optimal-histogram search returns a histogram belonging to '
      'a candidate whose jackknife likelihood is maximal to rounding, with the matching bin edges, bin width and parameters, in serial and '
      'in parallel mode, under every interleaving and team size.',
      ['schedules', 'inputs'], 'all samples and candidate lists, all interleavings and team sizes', WHY_OMP,
      [HJ + 'cython_jacky/cython_jacky_jacky.pyx', HJ + 'cython_jacky/cy_jacky.py', HJ + 'shared/'],
      [('parallel likelihood sums', HJ + 'cython_jacky/cython_jacky_jacky.pyx'), ('loop over candidates', HJ)],
      ['tuple returned by the likelihood histogram functions'])
claim(KN, 'C06', 'Kernel results do not depend on earlier calls or on uninitialised memory',
      'A call of a compiled integration, limb darkening, disc or histogram routine returns the same bits in a fresh process as after '
      'any history of other calls, including calls on other sizes, thread counts, methods or on the same buffers, and whatever fresh '
      'memory happens to contain.',
      ['histories', 'inputs', 'schedules'], 'all call histories, all contents of fresh memory, one fixed thread schedule per comparison',
      'The unit tests call each routine from a fresh fixture in one order, with memory that happens to be zero.',
      [NI + 'num_integration.cpp', LD + 'ld_functions.cpp', DI + 'disc_integrals.cpp', HJ],
      [('objects constructed per call', 'the .pyx bindings'), ('initialised accumulators', 'the kernels')],
      ['return values'])

IO = ('Seeded search: the real saver on real solver objects and the real HDF5 library, with every file system call passing a '
      'simulated kernel interface that injects errors, short transfers, crashes and power cuts. Samples fault points and histories. '
      'Trusts the crash model (completed calls survive a process crash; after a power cut synced data survive, later writes and names '
      'survive arbitrarily).')
claim(IO, 'C07', 'A save that reports success has stored every result exactly',
      'Whenever saving the results of a run reports success, the result file read back holds every computed quantity of the run, bit for '
      'bit, in its documented dataset: frequencies, coupling coefficients, stationary solutions, mode statistics, checks, driving rates. '
      'This holds whatever transient interruptions, short transfers or I/O errors occurred: an error that prevents storing is reported, never swallowed.',
      ['fault_sequences', 'inputs'], 'all result values (including NaN, infinities, signed zeros, denormals), all sequences of I/O faults during the save',
      'The tests never save to a failing or slow file system and compare only a few fields of one happy-path file.',
      [SAVER, HS + 'create_group.py', UNP, STO],
      [('unpacking of results per quantity', UNP), ('dataset creation', SAVER)],
      ['the HDF5 result file'], hook=None)
claim(IO, 'C08', 'A crashed or failed save leaves the complete old or the complete new results',
      'If a save fails, the process dies at any point of it, or power is lost at any moment, the result file afterwards holds either the '
      'complete earlier results (or no file, if there were none) or the complete new results, and no other result file changes. A save '
      'that had reported success before a power loss is still there afterwards.',
      ['crash_points', 'fault_sequences', 'histories'], 'all crash points, I/O errors, full disks and power cuts during histories of saves',
      'The tests never interrupt a save.',
      [SAVER, STO], [('assemble in memory, write to a temporary file, sync, rename, sync directory', SAVER)],
      ['the HDF5 result files after the event'])

claim(IO, 'C09', 'Write, append and overwrite saves leave exactly the documented union of results',
      'Saving to an existing result file in write mode replaces it by the new results; in append mode it keeps every stored result and '
      'adds the missing ones; in read/write (overwrite) mode it replaces the stored results by the new ones and keeps the others, also when '
      'the number of triads, the shape or the kind of the results differs. Overwriting in a file that does not exist is refused. After a failed '
      'or crashed save the file is what it was before or what the completed save would have left, and no other file changes.',
      ['histories', 'fault_sequences', 'crash_points'], 'all histories of saves in the three modes, with any faults and crashes in between',
      'The tests write single scalars into one in-memory style file per mode; they never combine result sets of different shapes, nor fail in between.',
      [SAVER, HS + 'overwrite_dataset.py', HS + 'create_group.py', HS],
      [('mode selection', SAVER), ('overwriting one dataset', HS + 'overwrite_dataset.py')],
      ['the HDF5 result file after each save'])
claim(IO, 'C10', 'Every result set is stored under its own name and found there by the loaders',
      'For every save name, subdirectory, extra specifier and combination of modes, the results are saved under the requested directory in '
      'a file whose name is the save name followed by the k and m quantum numbers; result sets that differ in any of these never overwrite or alter each '
      'other; and the file-name builder of the analysis and plotting code finds exactly those results.',
      ['histories', 'inputs', 'fault_sequences'], 'all names (dots, dashes, prefixes), directories, specifiers and histories of saves, with any faults in between',
      'The tests use one name in one directory.',
      [SAVER, STO, 'aesolver/aesolver/read_load_info/load_name_plots.py'],
      [('file name', SAVER), ('directory name', STO), ('name used for loading', 'aesolver/aesolver/read_load_info/load_name_plots.py')],
      ['paths and contents of the result files', 'LoadFileName()'])


PR = ('Seeded search: the complete program from its command line entry point, on small synthetic stars, in a forked process whose file '
      'system, clock, fresh memory, directory order and OpenMP threads are simulated. Samples worlds, schedules and faults. '
      'Trusts that the synthetic stars exercise the code real MESA and GYRE output does.')
MH = 'aesolver/aesolver/model_handling/'
claim(IO, 'C11', 'Concurrent runs on one output directory do not interfere',
      'When several processes work in one output directory at the same time, each save under a name of its own ends with exactly its own '
      'complete results. Saves and reads of one file behave as if they happened one after the other in some order that respects real time: '
      'every reader sees one complete set of results, and no process that meets no fault itself fails because of another. A process that '
      'is killed leaves the others undisturbed and at most a temporary file behind; a complete solver run beside others stores the same bits '
      'as alone.',
      ['schedules', 'crash_points', 'histories'], 'all interleavings of the file operations of concurrent runs, all kill points',
      'No test runs two savers at the same time; interference needs two processes inside the same file operations window.',
      [SAVER, HS + 'overwrite_dataset.py', STO],
      [('private temporary file, replaced atomically', SAVER)],
      ['contents of the result files and values read by concurrent readers'])
claim(PR, 'C12', 'A run uses exactly the selected model and modes, whatever lies beside them',
      'The results of a run are determined by the selected stellar model and the mode files of the selected star and quantum numbers. Other files and '
      'directories beside them, of other modes, kinds, stars or models, or with similar, longer or shorter names, in any listing order, change no '
      'stored bit. When a second file also matches a selected mode or profile, or a selected file is missing, the run stops and stores nothing.',
      ['inputs', 'histories'], 'all contents and listing orders of the input directories',
      'The tests use tidy directories with the expected files only.',
      [INP, 'aesolver/aesolver/read_load_info/', MH + 'load_models.py', MH + 'read_models.py', MH + 'subselection_classes.py'],
      [('selection by name pattern', 'subselection classes of the GYRE and MESA file readers'), ('ambiguity check', 'file handlers')],
      ['result files of the run'])
claim(PR, 'C13', 'A run that cannot read its inputs completely stores no wrong results',
      'When reading the stellar model, a mode file or the inlist fails, or an input file was cut short, the run either stores exactly the results of an undisturbed '
      'run or stores no result at all. Interrupted or short reads never change or abort anything.',
      ['fault_sequences'], 'all I/O errors, short reads, interruptions and truncations of any input at any point of a run',
      'The tests read intact files from a healthy disk.',
      [INP, 'aesolver/aesolver/read_load_info/', MH + 'load_models.py', MH + 'read_models.py', MH + 'subselection_classes.py', 'util-tools/inlist_handler/'],
      [('HDF5 and text readers', 'the readers of the GYRE, MESA and inlist files')], ['result files of the run'])
claim(PR, 'C14', 'A run writes only its result file and never alters its inputs',
      'However a run ends (success, refusal, I/O error, full disk, crash at any point), no file or directory outside its output directory is created, changed '
      'or removed; inside it only the one result file of this run and the directories leading to it appear, plus at most temporary files '
      'after a crash or a failing file system; results stored earlier stay as they were.',
      ['crash_points', 'fault_sequences', 'histories'], 'all crash points, I/O errors and full disks during one or several runs',
      'The tests do not look at the rest of the tree, nor interrupt a run.',
      [SAVER, STO, RUNNER], [('single writer of results', SAVER)], ['the complete directory tree before and after'])
claim(PR, 'C15', 'Every triad of a grid gets the results it would get alone',
      'Each row of every stored quantity equals, bit for bit, what a run for that triad alone stores, whatever triads were computed before it in '
      'the same run and whatever fresh memory, the clock or the directory order contain.',
      ['histories', 'inputs'], 'all grids of triads and positions in them',
      'The tests run one triad, or check the shape of a grid only; state leaking from one triad to the next needs several triads of different quality.',
      [GRID, QS, 'aesolver/aesolver/solver/', STO], [('loop over combinations', GRID), ('per-triad objects', QS)], ['rows of the result file'])
claim(PR, 'C16', 'A run computes each owed triad exactly once and labels its row correctly',
      'The triads of a result file are exactly the combinations of the configured radial order ranges, each once, with daughters of the same kind combined '
      'without regard to order; every row carries the degrees, orders and mode data (frequencies of each mode, whatever units and frame its file states them in) of the triad it is labelled with.',
      ['inputs', 'schedules', 'fault_sequences'], 'all radial order ranges and mode kinds, directory orders and transient faults',
      'The tests check a few combinations of one list and no labels of stored rows.',
      [INP, GRID, 'py-combinations/py_combinations/', STO, 'aesolver/aesolver/frequency_handling/'], [('combination of radial orders', INP), ('row order', STO)],
      ['quantum numbers and frequencies in the result file'])
claim(PR, 'C17', 'A run is reproducible bit for bit',
      'Two runs of the same configuration on the same inputs store the same bits in every quantity and attribute, independent of hash seed, directory '
      'listing order, wall clock, process id, location of the files, contents of fresh memory and transient I/O interruptions.',
      ['schedules', 'histories', 'inputs'], 'all environments of a run; one fixed thread schedule per comparison',
      'The tests run once, in one environment.',
      [GRID, INP, STO, SAVER, MH + 'load_models.py', MH + 'read_models.py', MH + 'subselection_classes.py'], [('iteration over sets and listings', INP)], ['every bit of the result file'])

claim(PR, 'C18', 'Earlier results survive any failure, and a rerun stores what a first run would',
      'Over a history of complete runs in one output directory, where a run may be interrupted at any point, meet I/O errors or a full disk, be refused because an input is '
      'missing for the time being, or be followed by a power cut, every result file at any time holds its earlier or the complete new results, results that were reported as stored '
      'are still there, and a later run that meets no failure finishes and stores exactly what it would have stored in an empty directory.',
      ['histories', 'crash_points', 'fault_sequences'], 'all histories of runs, interruption points, I/O errors and power cuts',
      'No test interrupts a run or repeats one after a failure.',
      [SAVER, STO, GRID, RUNNER], [('replacement of the result file', SAVER)], ['result files after every run', 'bits of the final results'])

AN = ('Seeded simulation of complete analysis and plot runs, each a real process on a simulated file system, clock and memory; samples, does not '
      'enumerate. The statements that are no counts are compared with a report or figure of the same program on each model alone, not with an independent calculation.')

claim(AN, 'C19', 'The analysis reports exactly the selected stored results, every model on its own',
      'For any number of models, however the results of each are divided among files and by whatever history of successful and killed saves those files came to be, the analysis reports on '
      'every selected model exactly what it reports when the model is analysed alone: nothing of it depends on the other models, on neighbouring files, directory '
      'order, clock or fresh memory. Its counts are those of the stored arrays, its totals the sums over the models, and it changes no file.',
      ['histories', 'inputs', 'configurations'], 'all sets of stored results, divisions into files, histories of saves and environments',
      'The analysis has no tests at all.',
      [ANA, ANMASK, ANRUN, LOADN], [('loading and joining of result files', ANA), ('masks', ANMASK)], ['printed report', 'directory tree'])

claim(AN, 'C20', 'The analysis never reports on anything but complete stored results',
      'When a selected result file is missing, unreadable, cut short, replaced by something else or lacks a needed part, or reading it fails, the analysis '
      'stops with an error before it prints a statement about any model. While other processes save results under the selected names, it reports on '
      'results of which every file is entirely the earlier or entirely a later save, never a mixture. It changes no file.',
      ['fault_sequences', 'schedules', 'crash_points'], 'all read faults, damaged files and interleavings with saves', 'The analysis has no tests, and no test fails or interleaves a file operation.',
      [ANA, ANRUN, SAVER], [('reading of result files', ANA), ('replacement of the result file', SAVER)], ['printed report', 'exit status', 'directory tree'])

claim(AN, 'C21', 'A plot run that ends well has stored exactly the requested figures, completely',
      'A plot run that ends well leaves every requested figure in every requested format at the configured place, bit for bit the figure drawn from the same results in an undisturbed '
      'run, whatever the directory order, clock, memory, division of a model into files, earlier figures and transient I/O faults. When the results cannot be loaded it draws nothing; when a figure '
      'cannot be stored it says so. It never touches any file but the requested figures.',
      ['fault_sequences', 'histories', 'configurations'], 'all environments, divisions into files, I/O errors, full disks and crashes', 'The plotter has no tests.',
      [PLO, PLOFIG, PLRUN], [('loading and joining of result files', PLO), ('storing of figures', PLOFIG)], ['figure files', 'exit status', 'directory tree'])

claim(PR, 'C22', 'Messages, diagnostics and the console never change stored results',
      'The settings that only concern messages and bookkeeping (progress bars, verbose, debug, debug information, pre-check and process numbers, the rotation '
      'percentage when mode directories are given), environment variables, the working directory and the state of the console change no bit of what is stored. A console that fails or a disk that fills up with messages may '
      'stop a run, which then leaves the complete results, the earlier ones, or none.',
      ['fault_sequences', 'crash_points', 'configurations'], 'all combinations of these settings and all failures of the console', 'The tests run with one setting and a working console.',
      [RUNNER, GRID, QS, 'util-tools/log_formatter/log_formatter.py'], [('messages during the computation', GRID)], ['every bit of the result file', 'directory tree'])

claim(PR, 'C23', 'A parallel run stores what a serial run stores, under every thread schedule',
      'Switching parallel mode coupling on changes no stored quantity beyond the rounding of reordered sums, for every number of threads and every interleaving of them, '
      'over the complete run: no data race, no deadlock, no other rows, missing values or checks.',
      ['schedules'], 'all worlds, thread numbers and interleavings', 'The tests never compare complete runs, and see one schedule.',
      [QS, HI, DI + 'disc_integrals.cpp', NI], [('parallel integration in the coupling coefficients', HI)], ['every stored quantity'])

claim(PR, 'C24', 'A profile run that ends well has stored its figures and told the stored numbers',
      'A coupling coefficient profile run that ends well leaves every figure of its triad, bit for bit the one of an undisturbed run, and prints the coefficient, terms and amplitudes that a grid run '
      'stores for this triad, and the contribution of each zone in which the approximation does not hold, whatever directory order, neighbouring files, clock, memory, earlier figures and transient faults. '
      'When an input cannot be read completely it draws nothing; when a figure cannot be stored it says so. It touches no file but its figures.',
      ['fault_sequences', 'configurations'], 'all worlds, triads, faults and histories of figures', 'The tests run no complete profile computation and no failing file system.',
      [PROF, RUNNER, QS], [('computation, masks and figures of the profile', PROF)], ['every bit of the figures', 'printed numbers', 'directory tree'])


def na(reason, *a, **k):
    NA.append((P(*a, **k), reason))


claim(PR, 'C25', 'A run obeys exactly the inlist it was given',
      'A solving, analysis or plot run does what the named (or default) inlist says: whatever its name and place, the working directory, similarly named inlists, copies elsewhere, unknown settings, comments and order of its settings. '
      'When the inlist is replaced while the run is going on, the run does all of what the old or all of what the new one says. When it is removed or lacks a setting, the run does what the complete inlist says or stores and reports nothing.',
      ['schedules', 'inputs', 'configurations'], 'all names, places, neighbours and spellings of inlists, and all moments of replacement', 'The tests of the inlist parser read one file in one place; no test runs a program with an inlist.',
      [RUNNER, ANRUN, PLRUN, 'util-tools/generic_parser/generic_parser.py', 'util-tools/inlist_handler/toml_inlist_handler.py', 'util-tools/path_resolver/resolve_paths.py', 'aesolver/aesolver/read_load_info/read_info_dirs.py'],
      [('inlist lookup', 'util-tools/path_resolver/resolve_paths.py'), ('reading of settings', 'util-tools/generic_parser/generic_parser.py'),
       ('model and mode directories', 'aesolver/aesolver/read_load_info/read_info_dirs.py')],
      ['every bit of the result file', 'printed report', 'figures', 'directory tree'])


PURE = 'Pure function of its input: no schedule, clock, fault or history for it to depend on; '
na(PURE + 'simulation would only dress input generation up.', 'C30', 'Coupling coefficients match the analytic definition',
   'For every stellar model and triad, the quadratic coupling coefficient equals the integral expression of the rotating (TAR) formalism.',
   ['inputs'], 'all models and mode triads', 'Tests cover a handful of models.',
   ['aesolver/aesolver/coupling_coefficients/quadratic_coupling_coefficient_rotating.py'],
   [('term-by-term evaluation', 'aesolver/aesolver/coupling_coefficients/')])
na(PURE + 'reproducibility and history independence of the values are covered by C15 and C17.', 'C31',
   'Stationary three-mode solutions satisfy the amplitude equations',
   'For every stable triad, the reported stationary amplitudes, phases and frequencies satisfy the real-valued amplitude equations.',
   ['inputs'], 'all coefficients, rates and detunings', 'Tests sample a few values.',
   ['aesolver/aesolver/stationary_solving/three_mode/'], [('closed-form solution', 'aesolver/aesolver/stationary_solving/three_mode/')])
na(PURE + 'no simulated fault can reach it.', 'C32', 'Hough functions solve the Laplace tidal equation',
   'For every spin parameter and mode geometry, the computed Hough functions and eigenvalues satisfy the Laplace tidal equations to the documented accuracy.',
   ['inputs'], 'all spins and geometries', 'Tests check tabulated cases.', ['hough-func-tools/hough_function/'],
   [('Chebyshev collocation', 'hough-func-tools/hough_function/')])
na(PURE + 'the enumeration of a run\'s triads is covered end to end by C16.', 'C33', 'Combination generators enumerate every combination once',
   'The product and symmetric-product generators return every (un)ordered combination exactly once for every pair of input lists.',
   ['inputs'], 'all input lists', 'Tests check small lists.', ['py-combinations/py_combinations/'], [('itertools products', 'py-combinations/py_combinations/')])
na(PURE + 'numerical derivative of given arrays.', 'C34', 'Finite-difference derivatives have their nominal order',
   'Numerical derivatives on arbitrary grids converge with the nominal order of the stencil.', ['inputs'], 'all smooth functions and grids',
   'Tests check a few functions.', ['fornberg-num-deriv/', 'num-tools/num_deriv/'], [('Fornberg weights', 'fornberg-num-deriv/')])
