prop('G01', '32-bit generators return only 32-bit values',
     'A generator module that declares 32-bit output never returns a number that does not fit into 32 bits, whatever seed and parameter it was created with and however many numbers were drawn before.',
     ['inputs', 'histories', 'configurations'], 'all seeds, all --param variants, all call sequences of every bundled generator',
     GT + ' A rare out-of-range value (a carry, an unmasked branch) is invisible to them.', GENF,
     [('declared output width vs returned value', 'MAKE_UINT32_PRNG / GeneratorParamVariant.nbits and get_bits of each plugin')],
     AI + ': value range at the fixpoint of the state invariant', AINOTE)
prop('G02', 'Generators execute without memory errors or undefined arithmetic',
     'Loading, creating, running (single numbers and bulk sums) and destroying any bundled generator never reads or writes outside of its live objects, never follows a null or uninitialised pointer, never divides by zero, never overflows signed arithmetic and never shifts by the operand width or more. This holds for every seed, every parameter string and every number of calls.',
     ['inputs', 'histories', 'configurations'], 'all seeds, all --param strings, all call sequences of every bundled generator',
     GT + ' Buffer refills, rarely taken branches and non-default variants are not reached.', GENF,
     [('state layout and buffer positions', 'create/get_bits of each plugin'), ('variant table lookup', 'GeneratorParamVariant_find in include/smokerand/cinterface.h')],
     AI + ': bounds, nullness, division, shift and overflow obligations', AINOTE)
prop('G03', 'Generator output never depends on uninitialised memory',
     'No number produced by a bundled generator, and no decision taken while producing it, depends on memory that creation left uninitialised. This holds for every variant selected by the parameter and for every seed.',
     ['inputs', 'histories', 'configurations'], 'all seeds, all --param variants, all call sequences',
     GT + ' Fresh heap memory is usually zero, so a forgotten field passes every test.', GENF,
     [('complete initialisation of the state', 'create callbacks')],
     AI + ': definite initialisation of heap state', AINOTE)
prop('G04', 'Generator instances share no mutable state',
     'After the descriptor of a generator has been filled in, creating, running and destroying its instances modifies only memory that belongs to the instance. Several instances of the same generator can therefore run concurrently without influencing each other.',
     ['schedules', 'histories', 'programs'], 'all interleavings of any number of instances',
     'No existing test runs two instances of a generator at a time.', GENF + ['docs/plugins.md'],
     [('re-entrancy requirement', 'docs/plugins.md'), ('state passed as a pointer', 'GeneratorInfo callbacks')],
     'effect analysis on LLVM IR: writes to static objects reachable from create/get_bits/get_sum/free', AINOTE)
prop('G05', 'Generator modules are self-contained',
     'A bundled generator module needs no symbol from its host apart from the basic memory routines that a freestanding compiler may emit itself; everything else reaches it through the callback table given to it. It can therefore be loaded on every platform with any host program.',
     ['programs', 'configurations'], 'all symbols referenced by all generator modules, irrespective of inlining decisions of the compiler',
     'Undefined symbols of shared objects are not diagnosed by the linker and are hidden by inlining or by the symbols that the test program happens to export.', GENF + ['docs/plugins.md'],
     [('freestanding modules', 'PRNG_CMODULE_PROLOG, docs/plugins.md')],
     'symbol-reference analysis of unoptimised LLVM IR', 'Every referenced external function and variable of every module is enumerated; no approximation. Modules are compiled for x86-64/AVX2.')
prop('G06', 'Generator output is a function of the generator state only',
     'Apart from the modules that are documented as hardware or seeder front-ends, the numbers a generator returns never depend on memory addresses, hardware instructions, the clock or the amount of RAM, and producing them calls no service of the host. The same seed therefore always gives the same sequence.',
     ['inputs', 'histories', 'configurations'], 'all seeds, all --param variants, all call sequences, all memory layouts',
     'Tests run once in one process, so an address- or environment-dependent value is not seen as a difference.', GENF,
     [('outputs derived from the state', 'get_bits/get_sum of each plugin')],
     AI + ': taint (address, hardware, environment, host callbacks)', AINOTE)
prop('G07', 'The seed reaches the output of every generator',
     'For every bundled generator and every variant, except the deliberately unseeded calibration counters, the numbers returned depend on the seed supplied by the host: the seed is requested during creation and flows into the state that determines the output.',
     ['inputs', 'configurations'], 'all variants of all generators',
     GT + ' A variant that ignores its seed gives a perfectly random-looking constant sequence.', GENF,
     [('seeding', 'get_seed32/get_seed64 calls in create')],
     AI + ': seed-to-output data-flow', AINOTE)
prop('G08', 'Bulk sums consume the same stream as single outputs',
     'The bulk summation entry point of every generator variant advances the generator exactly as many times as requested and returns the sum of precisely the numbers that the single-output entry point registered for the same variant would have returned.',
     ['inputs', 'configurations', 'histories'], 'all lengths, all variants of all generators',
     'The bulk sum is used for speed measurements only and its result is not checked by any test.', GENF,
     [('sum functions', 'GET_SUM_FUNC, MAKE_GET_BITS_WRAPPERS and hand-written get_sum functions'), ('pairs of callbacks', 'GeneratorParamVariant tables')],
     'expression-tree equivalence and scalar-evolution trip counts', 'The addend and the single output must be the same expression over one call of the same function on the same state, the call must dominate the latch and run len times. Forms outside of the rule are reported as undecided in the evidence.')
prop('G09', 'Generator descriptors are complete and unknown parameters are refused',
     'Whenever a generator can be created, its descriptor is complete: a name, an output width of 32 or 64 bits and valid create, free and output callbacks, with optional entries either valid or empty. A parameter string that the module does not know never leads to a working generator if the module distinguishes parameters.',
     ['inputs', 'configurations'], 'all --param strings (partitioned by the outcomes of the comparisons made with them)',
     'Tests only load generators with the default parameter.', GENF,
     [('descriptor', 'gen_getinfo of each plugin'), ('parameter tables', 'GeneratorParamVariant_find')],
     AI + ' partitioned by parameter comparisons', AINOTE)
prop('G10', 'Destroying a generator releases everything it allocated',
     'Whatever a generator instance allocates through its host while it is created or used is released by its free callback, exactly once, for every variant, seed and call history.',
     ['inputs', 'histories', 'configurations'], 'all variants, all call sequences',
     'Leaks do not change outputs, and no test counts allocations.', GENF,
     [('ownership', 'create/free callbacks, default_free')],
     AI + ': heap objects live at the exit of free', AINOTE)
COREF = ['src/coretests.c', 'src/extratests.c', 'src/hwtests.c', 'src/lineardep.c', 'src/bat_express.c', 'src/bat_brief.c', 'src/bat_default.c', 'src/bat_full.c', 'src/bat_special.c']
CT = 'The unit tests call a few helper functions with fixed inputs; the batteries themselves are run with one or two generators, in configurations that take seconds, and never with failing allocations.'
BQ = 'all outputs of 32-bit and 64-bit generators, all entries of the express, brief, default, full, Ising and unit-sphere batteries'
prop('C01', 'Statistical tests never misbehave for any generator output',
     'Whatever numbers the generator under test returns, and also if memory runs out, every test of every built-in battery runs without reading or writing outside of its live buffers, without following null or uninitialised pointers, without division by zero, signed overflow, shifts by the operand width or more, or conversions of floating-point numbers that do not fit, and without a double or invalid release of memory.',
     ['inputs', 'faults', 'configurations'], BQ + ', all outcomes of all allocations',
     CT, COREF,
     [('tests and their option structures', 'test functions in src/coretests.c, src/extratests.c, src/hwtests.c'), ('battery tables', 'src/bat_*.c')],
     AI + ': bounds, nullness, ownership, division, shift, overflow and conversion obligations', CNOTE)
prop('C02', 'Every test returns a complete result with the documented penalty',
     'Every test of every built-in battery, for any generator output and any outcome of its allocations, returns a result in which all fields are set: a name, a p-value with its complement, a statistic and the penalty that the documentation assigns to that kind of test. No result is partly uninitialised.',
     ['inputs', 'faults', 'configurations'], BQ + ', all outcomes of all allocations',
     CT + ' Results of the tests are never inspected.', COREF + ['docs/technotes.md'],
     [('result structure', 'TestResults in include/smokerand/core.h'), ('penalties', 'docs/technotes.md, PENALTY_* in the sources')],
     AI + ': value and initialisation of the returned structure at every exit', CNOTE)
prop('C03', 'Every test releases all memory it allocates',
     'When a test of a built-in battery returns, whether it was completed or given up because of insufficient memory or an unsupported word size, everything that it allocated has been released.',
     ['inputs', 'faults', 'configurations'], BQ + ', all outcomes of all allocations',
     CT + ' Leaks change no result.', COREF,
     [('allocation and release of work buffers', 'malloc/calloc/free in the tests and in their helpers')],
     AI + ': heap objects live at the exits of each test', CNOTE)
prop('C04', 'Tests that run concurrently share no mutable state',
     'Tests of a battery may run in several threads at a time: running a test modifies no object with static storage duration (neither directly nor in any function it calls), so the tests cannot influence each other and no data race can arise from them.',
     ['schedules', 'configurations', 'histories'], BQ + ', all interleavings of any number of tests',
     'The existing tests run no battery in several threads with comparison of the results.', COREF,
     [('multithreaded battery', 'TestsBattery_run and the thread function in src/core.c'), ('test functions', 'src/coretests.c, src/extratests.c, src/hwtests.c')],
     'effect analysis on LLVM IR by abstract interpretation: writes to static objects reachable from every battery entry', CNOTE)
prop('C05', 'Test statistics depend only on the output of the generator',
     'The p-value, its complement, the statistic and the penalty returned by any test of a built-in battery, and the decisions taken on the way, are determined by the output of the generator and the settings of the test: they never depend on uninitialised memory, memory addresses, the clock, hardware state or other outside data.',
     ['inputs', 'histories', 'configurations'], BQ,
     CT + ' A dependence on stale memory or time is only visible as an occasional difference between runs.', COREF,
     [('statistics', 'TestResults returned by the tests')],
     AI + ': initialisation and taint of results and branch conditions', CNOTE)
SCAI = 'abstract interpretation of LLVM IR over analysis scenarios (harness/*.c, never executed)'
SCNOTE = ('The whole program from main() is analysed with an abstract generator, battery, file system and thread library (harness/env.c); paths are kept apart, numbers are intervals. '
          'Each scenario fixes a shape (classes of p-values, options, number of tests and threads) and covers every value within it; shapes that are not listed in the harness are not covered. '
          'Trusts clang -O0 lowering and the models of the C library.')
CORE2 = ['src/core.c', 'apps/smokerand.c']
prop('C06', 'Report and exit status agree with the classes of the p-values',
     'For every battery and every set of p-values: a test counts as failed, suspicious or passed exactly according to the documented bounds of its p-value, the summary prints these counts and the grade reduced by the penalties of the failed tests, brief reports keep all failures, --testid/--testname run exactly the selected test, each selected test is run exactly once (also with threads), and the exit status is 0 only if nothing failed, 1 after failures and 2 after errors, including lack of memory; invalid selections, unknown batteries and unusable generators are never a success.',
     ['inputs', 'configurations', 'faults'], 'all p-values of each class, 6-test and 3-test batteries in the listed shapes, all shuffles of the tests, all outcomes of allocations',
     'The test suite checks the generators; reports and exit codes of failing, suspicious or broken runs are never compared with the p-values.', CORE2,
     [('classification', 'get_pvalue_category, interpret_pvalue in src/core.c'), ('summary and report', 'TestResultsSummary, TestResults_print_report, TestsBattery_run'), ('exit status', 'main and run_battery in apps/smokerand.c')],
     SCAI + ': counters, labels, printed values and exit status', SCNOTE)
prop('C07', 'Filters deliver exactly the documented bits of the generator',
     'With --filter every number that a battery receives consists of exactly the documented bits of the output of the generator in the documented order: reverse-bits reverses all 32 or 64 bits, interleaved32 delivers both halves of each word, none lost or duplicated, high32 and low32 the respective half; without a filter the words are unchanged. A filter that does not fit the generator is refused, and generators below the filter are created and destroyed exactly once with their own state.',
     ['inputs', 'histories', 'configurations'], 'all words, all filters, 32-bit and 64-bit generators, all outcomes of allocations',
     'No test runs the program with a filter and looks at the numbers.', CORE2,
     [('enveloped generators', 'define_*_generator in src/core.c'), ('application of filters', 'apply_filter in apps/smokerand.c')],
     'bit-provenance analysis (every bit of every word is tracked to the bit of the generator it comes from) by abstract interpretation of LLVM IR', SCNOTE)

prop('C08', 'Custom batteries run exactly the tests that the file describes',
     'A battery loaded from a text file consists of exactly the tests of the file, in its order and under its names; every number reaches the option of the test that it is given for, unchanged, whatever the order of the parameters, the layout, comments and separators, and exactly the numbers that the test is defined for are accepted. A missing, malformed or empty file, an unknown test, an absent, non-numeric or out-of-range parameter end with the error status before anything is run; names and values of any length stay within their buffers; the result of the run is passed on and all memory is released.',
     ['inputs', 'configurations', 'faults'], 'all 64-bit values of every numeric parameter of the 16 kinds of tests, the layouts and malformations listed in harness/custom.c, all outcomes of allocations',
     'The test suite runs no custom battery; limits, buffer lengths and refusals cannot be enumerated by running batteries that take minutes.', ['src/bat_file.c', 'apps/smokerand.c', 'batscripts/default.cfg'],
     [('parser', 'load_tests, ParserState_process_token in src/bat_file.c'), ('options of tests', 'parse_* functions in src/bat_file.c'), ('run', 'battery_file')],
     'bit-provenance and interval analysis (numbers of the file are symbolic) by abstract interpretation of LLVM IR over scenarios (harness/custom.c, never executed)', SCNOTE)
prop('C09', 'Every command line option takes effect exactly as given, or is refused',
     'Every option of the command line reaches the setting it stands for, with exactly the given value, in any order and combination (the last one counts): threads (1..255), test number, test name, brief report, parameters of the generator and of the battery, filter, length of the output (2^12..2^63). Battery names select the battery of that name. Anything else (unknown or misspelt options, missing, non-numeric or out-of-range values, unknown filters and batteries, contradicting selections) ends with a failure status before anything is run, and no option text of any length or content makes the program read or write outside of its buffers.',
     ['inputs', 'configurations', 'faults'], 'all numeric values of every numeric option, all option texts of up to 60 arbitrary characters, the combinations listed in harness/cli.c, all outcomes of allocations',
     'The test suite never varies the command line.', CORE2,
     [('parser', 'SmokeRandSettings_load and its callbacks in apps/smokerand.c'), ('dispatch', 'main, run_battery'), ('parameters', 'set_cmd_param, get_cmd_param in src/core.c')],
     'interval, bit-provenance and string analysis by abstract interpretation of LLVM IR over scenarios (harness/cli.c, never executed)', SCNOTE)
prop('C10', 'Multithreaded runs: each test once, own generator, no races, fixed seeds',
     'With --threads or --nthreads=N each test of the battery is run exactly once, whatever the random distribution among the threads; its result is reported under its own name and number; every thread uses only its own generator, and all generators are created and seeded by the main thread before the threads start, so that the results do not depend on the schedule. Data that threads share is written only under one common lock, locks are always released and never taken in opposite orders, the results are read only after the threads are finished, and a thread that cannot be started ends the program with a failure.',
     ['schedules', 'configurations', 'faults'], 'all interleavings of the threads, all distributions of three tests among 2 to 4 threads, all outcomes of allocations and of the creation of threads',
     'The tests sample a few schedules of a few batteries; races and lost tests show up only with particular interleavings or shuffles.', ['src/core.c', 'src/threads_intf.c', 'include/smokerand/threads_intf.h'],
     [('dispatcher', 'TestsDispatcher_init, ThreadQueue_*, battery_thread, TestsBattery_run_threads'), ('registry of threads', 'ThreadObj_create, ThreadObj_wait, ThreadObj_current'), ('seeds and messages', 'get_seed64_mt, printf_mt')],
     'lock-set, lock-order, ownership and typestate analysis by abstract interpretation of LLVM IR over scenarios (harness/threads.c, never executed)', SCNOTE)

prop('C11', 'A run is reproducible from its seed; printed seeds encode the run',
     'With --seed=TEXT all seeds that generators and tests obtain are a function of the text alone: every character matters wherever it stands, nothing from the clock, the hardware, the address space or the environment gets in. The seed printed in the report (_NN_base64) encodes the key and the number of threads of this run; given as --seed it restores exactly that key and number of threads. A malformed _ seed is refused with a failure status before any test is run. Without --seed the key depends on entropy of the system.',
     ['inputs', 'configurations', 'faults'], 'all 256-bit keys, all texts of the lengths listed in harness/seeds.c (up to 200 characters), all outcomes of allocations',
     'Tests cannot enumerate keys or texts; a lost bit of the key or an ignored tail of the text goes unnoticed.', ['src/entropy.c', 'src/base64.c', 'src/blake2s.c', 'src/core.c', 'apps/smokerand.c'],
     [('seed generator', 'Entropy_init_from_textseed, Entropy_init_from_base64_seed, Entropy_seed64'), ('text form', 'sr_u32_bigendian_to_base64, sr_base64_to_u32_bigendian'), ('command line, report', 'SmokeRandSettings_txtarg_load, TestsBattery_run')],
     'bit-provenance analysis (through lookup tables) and taint analysis by abstract interpretation of LLVM IR over scenarios (harness/seeds.c, never executed)', SCNOTE)

prop('C12', 'stdin32/stdin64 consume the input stream exactly once, in order',
     'The n-th number of the stdin32 (stdin64) generator consists of the n-th group of 4 (8) bytes of the standard input: no byte is lost, repeated or reordered, also across refills of the internal buffer and below filters. Nothing but the standard input is read. If the input ends, the program ends with a failure status and never computes results from missing data; sharing a stream between threads is refused; the reported number of bytes is the number of bytes read.',
     ['inputs', 'histories', 'faults'], 'all contents of the stream; streams of several blocks and streams that end within or between blocks; all outcomes of allocations',
     'The tests never feed the program through stdin.', ['src/fileio.c', 'apps/smokerand.c'],
     [('input buffer', 'StdinCollector_fill_buffer, get_bits32_raw, get_bits64_raw in src/fileio.c'), ('set-up', 'main in apps/smokerand.c')],
     'bit-provenance analysis by abstract interpretation of LLVM IR over scenarios (harness/stdin.c, never executed)', SCNOTE)
prop('C15', 'stdout modes write exactly the generator output and nothing else',
     'In the stdout mode the standard output carries exactly the sequence of words of the (filtered) generator in the native byte order, 2^n bytes for --maxlen_log2=n; in the stdoutfl mode one number of [0;1] per word, in both floating-point modes 2^n numbers. No message of the program, the generator or the stdin reader is mixed into it, an output error ends the program with a failure, and a complete run ends with status 0.',
     ['inputs', 'configurations', 'faults'], 'all words; 32-bit and 64-bit generators, filters, lengths of 2^12 to 2^15; all outcomes of allocations, failing writes',
     'The tests never look at the data written in the stdout modes.', ['src/core.c', 'apps/smokerand.c', 'src/fileio.c'],
     [('output loops', 'GeneratorInfo_bits_to_file, GeneratorInfo_floats_to_file, GeneratorInfo_accurate_floats_to_file'), ('redirection of messages', 'set_use_stderr_for_printf, printf_ser, printf_mt, GeneratorInfo_print')],
     'bit-provenance and effect analysis (writes to the standard output) by abstract interpretation of LLVM IR over scenarios (harness/stdout.c, never executed)', SCNOTE)
NA = []
