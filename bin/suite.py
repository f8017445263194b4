"""The properties, and the harness entries that decide them: what is symbolic in each, and within which bounds."""
ENV = [
 'The operating system is modelled (engine/src/posix.rs, vfs.rs): files, directories, links, permissions, pipes, processes, signals, threads, clocks. Recorded paths are replayed on the real binary with a scripted cargo; disagreements are reported in this file.',
 'cargo itself is the environment: its answers to locate-project and metadata are those of a well-formed project, its other results are what the harness makes symbolic.',
 'Release arithmetic (no overflow checks); hash maps use fixed keys; log output below INFO is not formatted; the clock advances by 1 us per reading and by the time slept.',
 'x86_64 Linux. Not covered: Windows paths, real terminals (colours and progress bars are off because stdout and stderr are not terminals).',
]
def E(mod, entry, bounds, cost=10, covers=(), tier='quick', secs=None, loose=None):
    # loose: why the real binary cannot be made to follow a path of this entry
    d = dict(loose=loose, mod=mod, entry=entry, bounds=bounds, cost=cost, covers=list(covers), tier=tier)
    if secs: d['secs'] = secs
    return d
P = {}
def prop(id, title, statement, over, text, why, files, mech, observe, entries, note, assumptions=()):
    P[id] = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                 anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe),
                 entries=entries, note=note, assumptions=ENV + list(assumptions))

prop('C01', 'Verdicts, result lists, counts and exit code follow from cargo\'s results',
 'For every combination of results of the cargo commands of a run, each mutant is classified as caught, missed, unviable or timed out exactly as those results imply (build fails: unviable; tests fail: caught; tests pass: missed; a phase over its time limit: timeout), and appears in exactly the corresponding .txt list, summary and count in outcomes.json. The exit code is 4 if the unmutated baseline fails (and then no mutant is tested), else 3 if any mutant timed out, else 2 if any was missed, else 0. A mutant runs its phases once, in order, stopping at the first that does not succeed; with --check the only phase is the check, and with --baseline=skip there is no baseline. (A command ended by a signal counts as neither: the mutant is recorded as a failure, in no list.) The console names each missed and timed-out mutant, caught and unviable ones exactly when -v and -V ask for them, and ends with the same counts.',
 ['inputs', 'histories'], 'every wait status (exit code 0-255, signals 1-64, hang) of every cargo command of a run over up to three mutants',
 'tests sample a few exit codes on a few trees; the classification must hold for every status in every phase and for every combination over several mutants',
 ['src/outcome.rs', 'src/lab.rs', 'src/process.rs', 'src/process/unix.rs', 'src/output.rs', 'src/exit_code.rs', 'src/cargo.rs'],
 [('ScenarioOutcome::summary', 'src/outcome.rs'), ('LabOutcome::exit_code', 'src/outcome.rs'), ('Worker::run_one_scenario', 'src/lab.rs'), ('OutputDir::add_scenario_outcome', 'src/output.rs')],
 ['exit code', 'mutants.out/{caught,missed,timeout,unviable}.txt', 'mutants.out/outcomes.json', 'standard output'],
 [E('vp_verdict', 'verdict_status', 'one mutant, baseline passes; the 16-bit wait status of its build and of its tests is symbolic (every exit code, every signal 1-64)', 16, ['missed', 'caught', 'unviable']),
  E('vp_verdict', 'verdict_base', 'as verdict_status, and the wait statuses of the baseline build and tests are symbolic too', 30, ['baseline failed', 'all mutants tested']),
  E('vp_verdict', 'verdict_combo', 'three mutants; success or failure of every build and test is symbolic, with and without -v and -V', 30, ['missed', 'caught', 'unviable']),
  E('vp_verdict', 'verdict_base_hang', 'one mutant; baseline and mutant commands succeed, fail or hang', 4, ['baseline failed', 'timeout']),
  E('vp_verdict', 'verdict_check', '--check; three mutants; every check succeeds, fails or hangs (two hangs), -v and -V symbolic', 22, ['baseline failed', 'timeout', 'unviable']),
  E('vp_verdict', 'verdict_skip', '--baseline=skip; three mutants; success or failure symbolic', 30, ['missed', 'caught', 'unviable']),
  E('vp_verdict', 'verdict_nextest', 'as verdict_status, with nextest', 30, ['missed', 'caught', 'unviable']),
  E('vp_verdict', 'verdict_hang', 'three mutants; every build and test may succeed, fail or hang until its limit of 0.1 s', 10, ['timeout', 'missed', 'caught', 'unviable']),
 ], 'All wait statuses of all commands of one mutant; success/failure/hang combinations for three mutants. A run longer than that is argued by the loop being the same for each mutant, not decided.')

prop('C02', 'Each cargo command sees the original tree or exactly one mutation',
 'Every cargo command runs on a tree that equals the original source tree apart from at most one mutation, namely the one being tested: no earlier mutation is still applied, and nothing else in the tree differs. Without --in-place this is a copy and the source directory itself is never modified; with --in-place every mutated file is back to its original bytes afterwards. Copies in temporary directories are gone when the run ends.',
 ['histories', 'inputs'], 'every sequence of results (success, failure, time-out) of all cargo commands, copied and in place, and every mix of line endings in the mutated file',
 'tests look at the tree before and after a few runs, never at what each cargo command saw, and only for one sequence of results',
 ['src/lab.rs', 'src/mutant.rs', 'src/build_dir.rs', 'src/copy_tree.rs', 'src/source.rs'],
 [('Mutant::apply / unapply', 'src/mutant.rs'), ('BuildDir::copy_from / in_place', 'src/build_dir.rs'), ('Worker::run_one_scenario', 'src/lab.rs')],
 ['the tree in the working directory of every cargo command', 'the source tree after the run', 'the temporary directory after the run'],
 [E('vp_tree', 'tree_copy', 'four mutants in two files, copied tree; success or failure of every command, baseline included, is symbolic', 16, ['all tested', 'baseline failed']),
  E('vp_tree', 'tree_in_place', 'the same with --in-place; builds and tests of the first two mutants may also hang until a limit of 0.1 s', 35, ['all tested', 'caught', 'missed', 'timeout']),
  E('vp_tree', 'tree_copy_hang', 'two mutants, copied tree; builds and tests may also hang', 4, ['all tested', 'timeout']),
  E('vp_tree', 'tree_crlf_in_place', 'every mix of LF and CRLF over the four lines of the mutated file, --in-place', 11, ['restored']),
  E('vp_tree', 'tree_crlf_copy', 'the same in a copy', 11, ['restored']),
  E('vp_tree', 'tree_link', 'a mutated file is a link: absolute into the tree or out of it, relative, or to another link; copied and in place; symbolic results', 10, ['copied', 'in place']),
 ], 'All success/failure/hang histories over up to four mutants in two files; whole-tree comparison at every cargo command.')

prop('C03', 'A failing system call damages nothing and never yields a wrong result',
 'If any one system call fails during a run, the source tree is still left as it was (with --in-place, unless restoring the file is itself what failed), and temporary directories are removed unless removing them is what failed. The run then either ends with an error exit code, or its exit code and result lists are the ones that the cargo results imply for all mutants.',
 ['fault_sequences', 'crash_points'], 'a failure (EIO) of any one file-system, process or pipe system call at any point of a run, copied and in place',
 'no test injects a failure of the operating system',
 ['src/build_dir.rs', 'src/mutant.rs', 'src/output.rs', 'src/copy_tree.rs', 'src/lab.rs', 'src/source.rs'],
 [('Mutant::apply', 'src/mutant.rs'), ('copy_tree', 'src/copy_tree.rs'), ('error propagation in test_mutants', 'src/lab.rs')],
 ['exit code', 'source tree', 'temporary directory', 'result lists'],
 [E('vp_tree', 'tree_fault', 'two mutants, copied tree; the index of the failing call among all modifying system calls is a symbolic 32-bit number', 5, ['a system call failed', 'no failure', 'error exit']),
  E('vp_tree', 'tree_fault_in_place', 'the same with --in-place', 6, ['a system call failed', 'error exit']),
  E('vp_tree', 'tree_fault_all', 'the same over all fallible system calls, reading ones included', 20, ['a system call failed', 'error exit']),
 ], 'Exactly one failing call (EIO), at every position of a two-mutant run. Faults of several calls, short writes and power loss are outside.')

prop('C04', 'A mutant is exactly the change that its name, JSON and diff describe',
 'For every source text, testing a mutant means that cargo sees the original file with exactly the text of the mutant\'s span replaced by its replacement (and a marker comment), and nothing else changed. The position in its name is the 1-based line and column, in characters, where that text begins; --list, --list --json, mutants.json and outcomes.json agree on file, span, function, replacement and genre; and the diff shown by --list --diff and kept in the output directory turns the original into that mutant. This holds for any Unicode text in comments and strings, tabs, DOS line endings and files without a final newline.',
 ['inputs'], 'every character (by UTF-8 length class with symbolic bytes, tab, newline, carriage return) in comments and strings before, inside and after the mutated text',
 'tests use a few ASCII sources; a wrong column silently tests something else',
 ['src/span.rs', 'src/mutant.rs', 'src/source.rs', 'src/list.rs', 'src/visit.rs', 'src/output.rs'], [('Span::replace / extract', 'src/span.rs'), ('Mutant::mutated_code / diff / name', 'src/mutant.rs'), ('list_mutants', 'src/list.rs')], ['source file seen by each cargo command', '--list output', 'mutants.json', 'diff files'],
 [E('vp_repl', 'repl_list', 'two symbolic characters in comments before and inside the mutated expression; names in --list', 24, ['listed']),
  E('vp_repl', 'repl_json', 'the same; --list --json', 30, ['json']),
  E('vp_repl', 'repl_strings', 'one or two symbolic characters in a string; no final newline', 27, ['listed', 'json']),
  E('vp_repl', 'repl_arms', 'two symbolic characters around match arms and guards', 33, ['listed', 'json']),
  E('vp_repl', 'repl_run', 'as repl_list, every mutant tested: what cargo sees, mutants.json, outcomes.json and diffs', 87, ['applied']),
  E('vp_repl', 'repl_run_cr', 'the same with carriage returns and DOS line endings', 17, ['applied']),
  E('vp_repl', 'repl_run_arms', 'as repl_arms, every mutant tested', 67, ['applied']),
  E('vp_repl', 'repl_run_strings', 'as repl_strings, every mutant tested', 44, ['applied']),
  E('vp_repl', 'repl_run_first', 'mutants on the first line, with a byte order mark or attribute before', 11, ['applied']),
  E('vp_repl', 'repl_diff', '--list --diff, text and JSON', 25, ['diffs']),
  E('vp_repl', 'repl_nocol', '--line-col on and off', 3, ['listed', 'without positions']),
 ], 'Two symbolic characters per source of up to nine lines. Diffs of sources with bare carriage returns are not judged.')

prop('C05', 'Shards k/n partition the mutants, for every k and n',
 'For every n, the mutants listed (or tested) under --shard k/n for k = 0..n-1 are pairwise disjoint and together exactly the mutants of the run without sharding, in the same order: shard k has mutants k, k+n, k+2n and so on. A shard argument that is not two decimal numbers k/n with k < n is refused with a usage error, and nothing is listed or run.',
 ['inputs'], 'every k and n of one digit, two-digit n, and every text up to three bytes over an alphabet of digits, slash, sign, space and dot',
 'tests run one or two values of k/n',
 ['src/shard.rs', 'src/main.rs'], [('Shard::select', 'src/shard.rs'), ('Shard::from_str', 'src/shard.rs')], ['--list output', 'exit code'],
 [E('vp_filter', 'shard_many', 'k and n are symbolic digits; nineteen mutants', 51, ['some', 'rejected']),
  E('vp_filter', 'shard_two_digits', 'k in {0,3,9}, n = 10..19', 22, ['some', 'none']),
  E('vp_filter', 'shard_run', 'five mutants tested under each k/n with n up to 4, in source order and four random orders', 40, ['tested'], loose='the random order is not controlled'),
  E('vp_filter', 'shard_text', 'every text of length 0..3 over "019/-+ ."', 54, ['rejected', 'some']),
 ], 'k, n up to 9 over nineteen mutants, n up to 19 (some k) over nine; larger values and lists only through the same code.')

prop('C06', 'With --in-diff, exactly the mutants overlapping changed lines are selected',
 'With --in-diff, the mutants are exactly those of the full list whose source span includes a line that the diff adds, or a line directly before or after a place where the diff deletes lines. This holds for every unified diff with any amount of context, for paths with or without a/ b/ prefixes, and for files and hunks in any number. A diff whose new text disagrees with the source tree is refused.',
 ['inputs'], 'every placement of hunks of up to three lines in a nine-line file, each line added or context, with a deletion at any position; zero-context diffs with two hunks; the ways a diff names its files; a symbolic byte in the new text',
 'tests use a handful of fixed diffs, none of them without context lines',
 ['src/in_diff.rs', 'src/main.rs'], [('diff_filter', 'src/in_diff.rs'), ('affected_lines', 'src/in_diff.rs'), ('check_diff_new_text_matches', 'src/in_diff.rs')], ['--list output', 'exit code'],
 [E('vp_diff', 'diff_hunk', 'one hunk of 1-3 lines at any line of nine; each line symbolically added or context; an optional deletion at every position', 45, ['all', 'some', 'none'][1:]),
  E('vp_diff', 'diff_u0', 'one or two zero-context hunks, each an addition or a deletion, at every line', 40, ['some', 'none']),
  E('vp_diff', 'diff_path', 'eight ways of naming the file: prefixes, time stamps, /dev/null, other files, binary files', 5, ['some', 'none']),
  E('vp_diff', 'diff_mismatch', 'a byte of a context or added line is symbolic over nine characters, at three positions', 4, ['rejected', 'some']),
  E('vp_diff', 'diff_empty', 'empty diffs', 2, ['none']),
 ], 'One source file of nine lines with four mutants; hunks up to three lines.')

prop('C07', '--iterate tests exactly the mutants not yet caught or unviable',
 'With --iterate, a mutant is skipped if and only if its exact name is in caught.txt, unviable.txt or previously_caught.txt of the existing output directory; all others are tested. previously_caught.txt of the new output directory holds every name that was skipped on account of the earlier ones, so repeated iterations accumulate, and without --iterate nothing is skipped.',
 ['histories', 'inputs'], 'every assignment of earlier results to three mutants, and near-miss names, with and without a final newline',
 'tests do one or two fixed iterations',
 ['src/main.rs', 'src/output.rs'], [('load_previously_caught', 'src/output.rs'), ('write_previously_caught', 'src/output.rs'), ('retain in main', 'src/main.rs')], ['the mutants tested', 'mutants.out/previously_caught.txt', 'mutants.out.old'],
 [E('vp_out', 'out_iterate', 'each of three mutants earlier caught, unviable, previously caught or none of them; stale names', 40, ['tested', 'nothing to test']),
  E('vp_out', 'out_iterate_names', 'six near misses of a name in each of the three files, with or without final newline', 37, ['tested']),
 ], 'One iteration from every earlier result of three mutants; further iterations follow by induction over the output directory, which is part of the symbolic input.')

prop('C08', 'Parallel runs test each mutant once, alone in its tree, under every schedule',
 'With -j N, under every interleaving of the workers, every mutant is tested exactly once, no two cargo commands run in the same directory at the same time, and each command sees the original tree with exactly the one mutation being tested. The result lists, counts, logs and exit code are the same as those the cargo results imply for a sequential run, up to order, and all workers\' copies are removed.',
 ['schedules', 'histories'], 'every choice of runnable thread at every scheduling point for two workers and two mutants; all results and orders of completion for three mutants',
 'a test sees one schedule per run; the workers share a queue, the output directory and the console',
 ['src/lab.rs', 'src/output.rs', 'src/build_dir.rs', 'src/console.rs'], [('test_mutants worker loop', 'src/lab.rs'), ('Worker::run_queue', 'src/lab.rs'), ('output mutex', 'src/lab.rs')], ['every cargo command: directory, tree, time', 'mutants.out', 'exit code'],
 [E('vp_par', 'par_sched', '2 workers, 2 mutants; every choice of the next thread at every blocking or synchronising system call', 29, ['a second directory'], loose='the schedule of the real threads is not controlled'),
  E('vp_par', 'par_results', '2 workers, 3 mutants; symbolic results and durations, fair schedule', 10, ['a second directory'], loose='the schedule of the real threads is not controlled'),
  E('vp_par', 'par_shuffle', '3 mutants in random order: 16 random seeds, one and two workers', 50, ['a second directory', 'in another order'], loose='the schedule of the real threads is not controlled'),
  E('vp_par', 'par_sched3', '2 workers, 3 mutants; every schedule and symbolic results (not exhausted in the time given)', 900, ['a second directory'], 'thorough', loose='the schedule of the real threads is not controlled'),
 ], 'Two workers; context switches at synchronisation and system calls (sequentially consistent memory).')

prop('C09', 'The right time limit applies to each command, and is enforced',
 'Every cargo command that has a time limit is killed, with its whole process group, as soon as it exceeds that limit (within one polling interval), and is never killed before it; a command without a limit is never killed. The limit on a mutant\'s tests is --timeout if given, else the baseline test time times the multiplier (default 5, from the option or configuration) rounded up to a second but at least the minimum test timeout (default 20 s), else 300 s without a baseline; builds have a limit only if --build-timeout or a build multiplier asks for it. Killed commands are reported as time-outs.',
 ['inputs', 'configurations'], 'every duration (in ns) of each command up to some bound, for each way of giving limits',
 'tests use one hanging program and one set of options; durations in between, and the limits themselves, are not observed',
 ['src/timeouts.rs', 'src/process.rs', 'src/process/unix.rs', 'src/lab.rs', 'src/options.rs', 'src/config.rs'], [('Timeouts::from_baseline', 'src/timeouts.rs'), ('Process::poll', 'src/process.rs'), ('terminate_child_impl', 'src/process/unix.rs')], ['when each process is signalled, on the modelled clock', 'result lists', 'exit code'],
 [E('vp_time', 'time_explicit', '--timeout 0.1-0.3 s, --build-timeout 0.2-0.3 s; durations of baseline tests (0-300 ms) and of the mutant\'s build and tests (0-450 ms) symbolic in ns', 36, ['killed', 'ended by itself', 'timeout reported']),
  E('vp_time', 'time_default', 'no options; baseline test time symbolic in 0-5.5 s, mutant\'s tests hang', 16, ['killed']),
  E('vp_time', 'time_mult', 'multipliers and minimum on the command line; baseline build 0-200 ms and tests 0-900 ms symbolic; mutant hangs', 18, ['killed']),
  E('vp_time', 'time_mults', 'multipliers and minimum each absent, configured, given or both; baseline times symbolic; mutant hangs', 60, ['killed']),
  E('vp_time', 'time_skip', '--baseline=skip: 300 s', 5, ['killed']),
  E('vp_time', 'time_skip_explicit', '--baseline=skip with explicit limits; symbolic durations up to 400 ms', 3, ['killed', 'ended by itself']),
 ], 'Durations up to the stated bounds with nanosecond resolution; the polling interval of the real code is part of the model.')

prop('C10', 'An interrupt at any moment stops the run cleanly',
 'If the run is interrupted (Ctrl-C) at any moment, it starts no further cargo commands beyond one already being started, no child process is left running, and it exits with an error. The source tree is as it was before, also with --in-place, and temporary directories are removed; an interrupt that comes after everything was tested may instead leave the normal result.',
 ['schedules', 'crash_points'], 'an interrupt before any one system call of a run',
 'tests cannot place a signal at a chosen point; there is no test of an interrupt at all beyond the timeout machinery',
 ['src/interrupt.rs', 'src/process.rs', 'src/lab.rs', 'src/mutant.rs', 'src/copy_tree.rs'], [('check_interrupted', 'src/interrupt.rs'), ('Process::poll', 'src/process.rs')], ['exit code', 'processes', 'source tree', 'temporary directory'],
 [E('vp_tree', 'tree_intr', 'two mutants, copied tree; the system call before which SIGINT arrives is a symbolic 32-bit number', 18, ['interrupted', 'not interrupted']),
  E('vp_tree', 'tree_intr_in_place', 'the same with --in-place', 12, ['interrupted', 'not interrupted']),
  E('vp_par', 'par_intr', 'the same with two workers and three mutants, one schedule', 40, ['interrupted', 'not interrupted'], loose='the schedule of the real threads is not controlled'),
 ], 'One interrupt, delivered at every system-call boundary of a two-mutant run.')

prop('C11', 'The output directory describes this run, and the previous one is kept',
 'At the end of every run the output directory (in the source tree, or where --output, the environment or the configuration says) describes exactly the mutants of this run: mutants.json lists them, each scenario has its own log holding the output of its own cargo commands and no other, and each mutant has a diff that turns the original file into the mutant and is also in its log. An existing mutants.out becomes mutants.out.old with all its contents, replacing any earlier one; nothing of it shows in the new results.',
 ['histories', 'inputs'], 'every combination of existing output directories, with and without lock files, and every combination of results',
 'tests check a few files after one or two runs',
 ['src/output.rs', 'src/main.rs', 'src/mutant.rs'], [('OutputDir::new', 'src/output.rs'), ('OutputDir::start_scenario', 'src/output.rs'), ('LockFile::acquire_lock', 'src/output.rs')], ['mutants.out', 'mutants.out.old'],
 [E('vp_out', 'out_rotate', 'mutants.out present or not, with results or not, with a lock file or not; mutants.out.old present or not; four ways of naming the output directory', 25, ['rotated', 'tested']),
  E('vp_out', 'out_results', 'three mutants with symbolic results', 6, ['tested']),
 ], 'Three mutants; logs are compared by markers that each cargo command prints.')

prop('C13', 'Options, configuration and environment reach every cargo command unchanged',
 'Every cargo command that checks, builds or tests gets the profile, features, extra arguments, package and test-tool selection of the options and the configuration file (the command line winning where both set a single value, and lists being joined), in the right place, and nothing else; test-only arguments reach only the test command. RUSTFLAGS and CARGO_ENCODED_RUSTFLAGS keep the user\'s flags, in order, with --cap-lints added exactly when asked; the jobserver is passed on exactly when enabled.',
 ['configurations', 'inputs'], 'every combination of the options and where they are given',
 'tests check a few argument vectors of an internal function, not the commands as run',
 ['src/cargo.rs', 'src/options.rs', 'src/config.rs'], [('cargo_argv', 'src/cargo.rs'), ('encoded_rustflags', 'src/cargo.rs'), ('Options::new', 'src/options.rs')], ['argv and environment of every cargo command'],
 [E('vp_argv', 'argv_profile', 'profile and test tool: absent, configured, given, both; --check; --no-config', 29),
  E('vp_argv', 'argv_features', '--all-features, --no-default-features, four values of --features, --check', 16),
  E('vp_argv', 'argv_extra', '0-2 cargo arguments, configured cargo and test arguments, 0-2 test arguments, --check', 38),
  E('vp_argv', 'argv_rustflags', 'cap_lints in six ways, three values of CARGO_ENCODED_RUSTFLAGS, four of RUSTFLAGS, jobserver on and off', 68),
 ], 'All combinations of the listed values of the options.')

prop('C17', 'Name and file filters select exactly the matching mutants',
 'The mutants listed or tested are exactly those of the unfiltered list, in the same order, whose file matches some --file glob (if any is given) and no --exclude glob, and whose name, as --list prints it, matches some --re (if any) and no --exclude-re. Filters from the configuration file apply the same way and are replaced by the corresponding command-line option; --in-diff and --shard select among what these leave. --list-files names every examined file that the file filters let through, whether or not it has mutants. A run that only lists changes nothing on disk and runs no build or test.',
 ['inputs', 'configurations'], 'combinations of nine expressions and ten globs in every role, from the command line and the configuration',
 'tests sample a few filters one at a time',
 ['src/options.rs', 'src/visit.rs', 'src/glob.rs', 'src/main.rs', 'src/config.rs'], [('walk_tree', 'src/visit.rs'), ('build_glob_set', 'src/glob.rs'), ('Options::new', 'src/options.rs')], ['--list output', 'file system', 'processes'],
 [E('vp_filter', 'filter_re', 'each of nine expressions as --re, --exclude-re or both with two others; command line, configuration, or both', 55, ['all', 'some', 'none']),
  E('vp_filter', 'filter_re2', 'pairs of expressions for one option', 30, ['some']),
  E('vp_filter', 'filter_all', 'file, name, diff and shard filters together', 80, ['all', 'some', 'none']),
  E('vp_filter', 'files_list', '--list-files as text and JSON under the same globs', 50, ['all', 'some', 'none']),
  E('vp_filter', 'filter_file', 'each of ten globs as --file, --exclude or both; command line or configuration', 44, ['all', 'some', 'none']),
 ], 'Three files with nine mutants.')
prop('C12', 'A request that makes no sense is refused before anything happens',
 'Options that contradict each other, values that cannot be parsed, a regular expression, glob, error value, diff or time that is not valid, and a configuration file that is not TOML, has an unknown key or a value of the wrong type, whether from the command line, the environment or the configuration, end the run with an error exit code (none of those that report results) before any build or test, without creating or rotating an output directory, and without listing anything. --no-config disregards the configuration file, whatever it holds. Correct requests are not refused.',
 ['inputs', 'configurations'], 'every key of the configuration with one letter changed or added; every key with a value of each type; numbers of up to three characters; some 50 contradictory or malformed sets of options',
 'tests try a few such requests and do not look at what has happened by then',
 ['src/main.rs', 'src/options.rs', 'src/config.rs', 'src/glob.rs', 'src/shard.rs'], [('Args', 'src/main.rs'), ('Options::new', 'src/options.rs'), ('Config::from_str', 'src/config.rs')], ['exit code', 'processes', 'file system', 'standard output'],
 [E('vp_conf', 'conf_key', 'each of 19 keys with a symbolic letter (a-z, A-Z, _ and -) in place of its first, middle or last one, or after it; with and without --no-config', 110, ['accepted', 'refused']),
  E('vp_conf', 'conf_types', 'each key with eleven values of all types', 60, ['accepted', 'refused']),
  E('vp_conf', 'conf_syntax', '22 files: malformed TOML, invalid expressions, globs and times, not UTF-8, a directory; with and without --no-config; listing and testing', 25, ['accepted', 'refused']),
  E('vp_conf', 'opts_bad', '50 sets of options, listing and testing', 25, ['refused']),
  E('vp_conf', 'opts_good', '27 correct sets of options', 20, ['accepted']),
  E('vp_conf', 'opts_env', 'ten values of environment variables', 8, ['accepted', 'refused']),
  E('vp_conf', 'opts_number', 'every text of 1-3 characters over "05.e-x" for five numeric options', 90, ['accepted', 'refused']),
 ], 'The listed requests; other texts only through the same parsers.')

prop('C14', 'Dependencies outside the tree are found from the copy, and nothing else in the manifest changes',
 'In the copy that cargo works on, every relative path of a dependency in the top-level Cargo.toml (in any dependency table, in patch and replace) and of paths in .cargo/config.toml that leads out of the source tree is absolute and denotes the same directory as in the source tree; all other values and keys are the same as in the source, and where nothing needs to change the files are the same byte for byte. With --in-place they are never changed, and files that the source tree links to are left alone.',
 ['inputs'], 'every path of up to four characters over dot, slash and x, and eight longer ones, in twelve kinds of table',
 'tests rewrite two or three fixed manifests',
 ['src/manifest.rs', 'src/build_dir.rs'], [('fix_manifest', 'src/manifest.rs'), ('fix_cargo_config', 'src/manifest.rs'), ('path_is_outside', 'src/path.rs')], ['Cargo.toml and .cargo/config.toml in the working directory of cargo'],
 [E('vp_copy', 'manifest_text', 'the path of a dependency: every text of 1-4 characters over "./x"', 60, ['copied', 'inside', 'outside']),
  E('vp_copy', 'manifest_tables', 'eight paths in twelve kinds of table', 60, ['copied', 'inside', 'outside']),
  E('vp_copy', 'manifest_config', 'pairs of eight paths in .cargo/config.toml', 30, ['copied', 'inside', 'outside']),
  E('vp_copy', 'manifest_bytes', 'manifests with odd spacing and comments, in place or with nothing to change', 10, ['copied']),
  E('vp_copy', 'manifest_links', 'manifests that are links to files inside or outside the tree', 5, ['copied']),
 ], 'The manifest at the top of the tree and .cargo/config.toml. Manifests of member packages are copied as they are (that is what the program does; relative paths out of the tree in them are not claimed).')

prop('C15', 'Exactly the documented mutants are found, in exactly the code that is not excluded',
 'Every binary operator, ! and - outside excluded code gives exactly the documented replacements; every function with a body that is not excluded has its body replaced; every arm of a match that has a _ arm (except that arm and arms with a guard) is deleted and every guard replaced by true and by false. Nothing is found in code that is excluded: items, expressions and files with #[test], #[cfg(test)], #[mutants::skip] or cfg_attr of it, unsafe functions, functions called new in impls and traits, impl Default, arguments of calls to be skipped (by default with_capacity, and those named by options and configuration) and macro arguments; similar names exclude nothing. Modules are found by the rules of the language, in exactly the file that they denote. Names give the enclosing modules, types and functions. A source that cannot be parsed is an error.',
 ['inputs'], 'every text of one or two operator characters (and three ending in =) as operator; eighteen attributes in twelve places; functions in fifteen contexts with nine qualifiers; every sequence of up to three match arms; eight ways to declare a module in four parents',
 'tests have a few fixed examples of each; a mutant that is not generated is not noticed by anyone',
 ['src/visit.rs', 'src/mutant.rs', 'src/options.rs'], [('DiscoveryVisitor', 'src/visit.rs'), ('attrs_excluded', 'src/visit.rs'), ('find_mod_source', 'src/visit.rs'), ('visit_expr_binary', 'src/visit.rs')], ['--list output'],
 [E('vp_disc', 'disc_op1', 'every operator character', 3, ['some', 'rejected']),
  E('vp_disc', 'disc_op2', 'every pair of operator characters', 25, ['some', 'rejected']),
  E('vp_disc', 'disc_op2eq', 'every pair of operator characters before =', 25, ['some', 'rejected']),
  E('vp_disc', 'disc_op3', 'every three operator characters', 300, ['some', 'rejected'], 'thorough'),
  E('vp_disc', 'disc_places', 'three operators in 22 places', 25, ['some']),
  E('vp_disc', 'disc_unary', 'up to three prefix operators, with and without spaces', 25, ['some']),
  E('vp_disc', 'disc_attr_items', '18 attributes at a file, functions, modules, impls, methods and traits', 130, ['some', 'none']),
  E('vp_disc', 'disc_attr_inner', '18 attributes at trait functions, nested functions, calls, method calls, matches and external modules', 130, ['some']),
  E('vp_disc', 'disc_attr2', 'two attributes on one or two items', 130, ['some']),
  E('vp_disc', 'disc_attr_name', 'a symbolic letter anywhere in four attributes', 60, ['some']),
  E('vp_disc', 'disc_fn_ctx', 'six function names in 15 contexts', 40, ['some']),
  E('vp_disc', 'disc_fn_qual', 'nine qualifiers, five contexts, three bodies', 40, ['some']),
  E('vp_disc', 'disc_fn_name', 'a symbolic letter in a method\'s name', 5, ['some']),
  E('vp_disc', 'disc_nested', 'nested functions, impls in functions, trait functions without a body', 10, ['some']),
  E('vp_disc', 'disc_match', 'every sequence of 0-3 arms over four patterns, with and without guards', 60, ['some']),
  E('vp_disc', 'disc_skip_calls', 'nine ways to name calls to skip; ten calls', 10, ['some']),
  E('vp_disc', 'disc_skip_name', 'two symbolic letters in the name called and in the name skipped', 10, ['some']),
  E('vp_disc', 'disc_mods', 'eight declarations in four parents, found as a file, a directory or not at all; decoys', 50, ['some']),
 ], 'Sources of a few functions; each construct alone or in pairs. Guards on a _ arm are not judged.')

prop('C16', 'The copy holds what is needed: all files but version control, output and ignored ones',
 'Without --in-place, the copy contains every file, directory and link of the source tree with the same bytes and permissions, except version-control directories (unless copy_vcs is on, from the option or else the configuration), mutants.out and mutants.out.old, and files that git ignores by .gitignore, .git/info/exclude or the global file if there is a .git directory (unless --gitignore=false). With --in-place nothing is copied.',
 ['inputs', 'configurations'], 'seven kinds of version-control directories, six ways to ask for them, ten ignore files in four places, files and links of all kinds',
 'tests copy one or two small trees',
 ['src/copy_tree.rs', 'src/build_dir.rs', 'src/options.rs'], [('copy_tree', 'src/copy_tree.rs'), ('BuildDir::copy_from', 'src/build_dir.rs')], ['the working directory of each cargo command'],
 [E('vp_copy', 'copy_vcs', 'each of seven directories at the top or below, six combinations of option and configuration', 60, ['copied']),
  E('vp_copy', 'copy_kinds', 'hidden, empty, executable, read-only, oddly named files; seven kinds of links; output directories; in place or not', 20, ['copied']),
  E('vp_copy', 'copy_ignore', 'ten ignore files, in four places, with and without .git, three settings of --gitignore', 60, ['copied']),
 ], 'Trees of some 15 files. What is done with target/ and with patterns of the global ignore file that begin with a slash is not claimed.')

prop('C18', 'The right packages are mutated, and the right packages\' tests are run',
 'Mutants are generated from exactly the packages selected: those named by --package; all of the workspace with --workspace; else the package of the starting directory (the current one, --dir or that of --manifest-path), or at the root of a workspace the root package or its default members. Within a package exactly the source files of library, proc-macro and binary targets are examined, each once, and never one outside the tree. Each mutant, and the baseline, is built and tested with the packages that --test-workspace or --test-package or the configuration name, or else with the mutated package (for the baseline: all mutated packages).',
 ['configurations', 'inputs'], 'fourteen places to start in, seven package selections, four sets of default members, eleven kinds of targets in four places, and all combinations of test options and configuration',
 'tests use a few workspaces and options one at a time; testing the wrong package reports mutants as missed that are not',
 ['src/workspace.rs', 'src/package.rs', 'src/main.rs', 'src/lab.rs', 'src/options.rs', 'src/cargo.rs'], [('Workspace::filter_packages', 'src/workspace.rs'), ('packages_from_metadata', 'src/package.rs'), ('TestsForMutant', 'src/lab.rs'), ('test_package in Options::new', 'src/options.rs')], ['--list output', 'argv of every cargo command'],
 [E('vp_pkg', 'pkg_select', 'a workspace of three or four packages; 14 starting places, seven selections, four sets of default members', 30, ['some', 'none', 'rejected']),
  E('vp_pkg', 'pkg_kinds', 'eleven kinds of targets; its file beside the others, in another package, outside, or that of another target', 20, ['some']),
  E('vp_pkg', 'pkg_tests', 'six settings of test options, four of the configuration, three package selections, --check', 60, ['tested']),
 ], 'Workspaces of four packages with one mutant each. --package takes one name at a time.')

prop('C19', 'Function bodies are replaced with exactly the documented values for their return type',
 'For every return type built from the documented types, the body is replaced with exactly the documented values, each once: booleans, numbers, non-zero numbers, strings, units, options, results (with the error values that were given), vectors, boxes, cells, collections, arrays, slices, references, tuples, iterators, maps, and Default::default() or constructors for others; never for functions that do not return, or impl Trait other than iterators. A body that already is one of the values is not replaced by it.',
 ['inputs'], 'all 44 leaf types, 31 type constructors nested twice, and type names with a symbolic letter',
 'tests check a few dozen types; nesting makes combinations that no test has',
 ['src/fnvalue.rs', 'src/visit.rs', 'src/options.rs'], [('return_type_replacements', 'src/fnvalue.rs'), ('type_replacements', 'src/fnvalue.rs')], ['--list output'],
 [E('vp_ret', 'ret_leaf', '44 types', 10, ['some', 'none']),
  E('vp_ret', 'ret_ctor', '31 constructors of seven types', 60, ['some']),
  E('vp_ret', 'ret_nest1', 'every pair of constructors, part 1 of 4', 100, ['some']),
  E('vp_ret', 'ret_nest2', 'every pair of constructors, part 2 of 4', 100, ['some']),
  E('vp_ret', 'ret_nest3', 'every pair of constructors, part 3 of 4', 100, ['some']),
  E('vp_ret', 'ret_nest4', 'every pair of constructors, part 4 of 4', 100, ['some']),
  E('vp_ret', 'ret_deep', 'three levels of seven constructors', 300, ['some'], 'thorough'),
  E('vp_ret', 'ret_name', 'a symbolic letter or digit at any place of eight names', 60, ['some']),
  E('vp_ret', 'ret_gname', 'a symbolic letter at any place of six names of generic types', 60, ['some']),
  E('vp_ret', 'ret_same', 'bodies that are a symbolic digit, in five forms', 10, ['some']),
  E('vp_ret', 'ret_errors', 'error values from the command line and the configuration', 60, ['some', 'rejected']),
 ], 'Values are compared without regard to spaces and order.')
PROPERTIES = P
