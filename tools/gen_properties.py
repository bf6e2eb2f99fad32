#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script only so the text is easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe or [], hook_needed=None)))

prop("C01", "The user's source tree is never modified unless --in-place is given",
 "When --in-place is not given, no run of cargo-mutants creates, changes, renames or deletes anything in the user's source tree (contents, permissions, symlinks) except inside the mutants.out and mutants.out.old output directories. This holds however the run goes: mutants caught, missed, unviable or timed out, a failing baseline, an interrupt, an I/O error or a kill at any point, and whatever kinds of file (symlinks included) the tree holds.",
 ["inputs","crash_points","fault_sequences","schedules"],
 "all outcome vectors of a small tree; every point at which the tool touches the filesystem, spawns or waits, as a crash, interrupt or fault point; tree shapes with symlinked, hard-linked and read-only files",
 "Tests compare a handful of finished runs; none kills, interrupts or faults the tool at chosen points or uses trees whose links lead back to the original.",
 ["src/build_dir.rs","src/copy_tree.rs","src/mutant.rs","src/lab.rs"],
 [("scratch copy of the tree","src/copy_tree.rs copy_tree"),("writes only below the build dir","src/build_dir.rs overwrite_file")],
 ["files of the source tree before/after"])

prop("C02", "--in-place always puts the source files back exactly as they were",
 "With --in-place, whenever cargo-mutants exits by itself (all mutants tested, failing baseline, mutants failing or timing out at any phase, interrupt by Ctrl-C, failure to start cargo, or an I/O error that aborts the run, other than one in restoring the file itself) every source file has again exactly the bytes it had before the run. Nothing but the output directories is added to or removed from the tree.",
 ["inputs","crash_points","fault_sequences","histories"],
 "all outcome vectors of 1-3 mutants over 1-2 files; an interrupt at every observable step; an I/O failure at every file operation; sources with LF, CRLF, no final newline, BOM, non-ASCII text",
 "One or two tests run in place to completion on an LF-only tree.",
 ["src/lab.rs","src/mutant.rs","src/build_dir.rs","src/source.rs"],
 [("revert after each scenario","src/lab.rs run_one_scenario"),("original text kept in memory","src/source.rs SourceFile")],
 ["files of the source tree after exit"])

prop("C03", "Each cargo run for a mutant sees the original tree plus exactly that mutation",
 "Every cargo process started for a mutant runs in a tree that equals the original sources with exactly that one mutant's replacement applied, and every baseline cargo process sees the unmutated sources. A file whose content changed between two cargo processes of one tree also has a later modification time, so that cargo notices the change. No mutation from another mutant, worker, earlier phase or earlier failure is ever visible, for any job count, ordering of completions and mixture of outcomes.",
 ["schedules","histories","inputs"],
 "all completion orders of up to 3 workers over up to 4 mutants, all outcome vectors, baseline run or skipped, copied or in-place",
 "Tests look at final outcome lists of deterministic single-job runs; nothing inspects the tree a cargo child sees under other schedules.",
 ["src/lab.rs","src/mutant.rs","src/build_dir.rs"],
 [("apply/revert around the phases","src/lab.rs run_one_scenario"),("one build dir per worker","src/lab.rs test_mutants")],
 ["tree digest at start of each cargo child"])

prop("C04", "Every selected mutant is tested exactly once and reported consistently",
 "In a run that completes, every mutant that --list shows with the same options is tested exactly once and appears with one outcome in outcomes.json, and in exactly the one of caught.txt, missed.txt, timeout.txt and unviable.txt that outcome calls for; totals in outcomes.json equal the counts, and mutants.json holds the same set of mutants. Each tested mutant has its own log file recording the cargo commands run for it and, for mutants, its own diff file equal to the diff shown by --list --diff; none is shared or overwritten, even when names collide or paths are too long to be part of a file name.",
 ["schedules","inputs","histories"],
 "all outcome vectors over up to 4 mutants, job counts 1-3 with all completion orders, colliding log names",
 "Tests check a few fixed trees with one worker; agreement under all outcome combinations and worker schedules is not examined.",
 ["src/lab.rs","src/output.rs","src/outcome.rs"],
 [("mutex-protected work queue","src/lab.rs run_queue"),("outcome recording","src/output.rs add_scenario_outcome"),("unique log names","src/output.rs start_scenario")],
 ["mutants.out contents at exit","cargo children started"])

prop("C05", "A mutant's outcome follows from its build and test results",
 "A mutant is reported unviable when its build (or check) fails, caught when the build succeeds and the tests fail, missed when build and tests both succeed, and timeout when a build or test exceeds its limit; with --check a mutant that passes the check is a success and one that fails is unviable. A phase runs only if the previous one succeeded, and the recorded phase results carry the true exit status and command of each cargo run.",
 ["inputs","histories","configurations"],
 "every combination of phase results (exit codes 0,1,2,101 and others, signals, timeout) for baseline and mutants, for cargo and nextest, with and without --check",
 "Tests sample a few real cargo failures; exit codes, signals and phase combinations are not enumerated.",
 ["src/outcome.rs","src/lab.rs","src/cargo.rs","src/process.rs"],
 [("summary of a scenario","src/outcome.rs ScenarioOutcome::summary"),("stop at first failing phase","src/lab.rs run_one_scenario")],
 ["outcomes.json, text lists, cargo child sequence"])

prop("C06", "The exit status reflects the worst result of the run",
 "A completed run exits with 0 if every mutant was caught or unviable (or there were none), 2 if some mutant was missed and none timed out, 3 if any mutant timed out, and 4 if the unmutated tree failed; usage errors exit 1, and a run that cannot complete exits nonzero. The number and order of mutants, workers, display options and --check do not change this.",
 ["inputs","schedules","configurations"],
 "all multisets of outcomes for up to 4 mutants, job counts 1-3, baseline pass/fail/timeout/skip, display options",
 "Each code is tested on one example; combinations, orders and interactions with workers are not.",
 ["src/outcome.rs","src/exit_code.rs","src/main.rs"],
 [("exit code computation","src/outcome.rs LabOutcome::exit_code")],
 ["process exit status"])

prop("C07", "No mutant is tested unless the unmutated baseline passed first",
 "Unless --baseline=skip is given, the unmutated tree is built and tested once, to completion, before any mutation is applied; if that build or test fails, times out or dies, no mutant is ever built or tested, and the run reports the failure and exits with 4. With --baseline=skip no unmutated cargo run happens at all, and a run with no mutants runs no cargo build or test.",
 ["inputs","schedules","configurations"],
 "all baseline phase results x job counts x --check/nextest/in-place x baseline strategy",
 "Two or three example trees with failing baselines are tested.",
 ["src/lab.rs","src/outcome.rs"],
 [("early return after failed baseline","src/lab.rs test_mutants")],
 ["sequence of cargo children with the tree each one saw","exit status"])

prop("C08", "Hung builds and tests are killed at the configured limit and the run goes on",
 "A mutant's tests may run for --timeout seconds if given, otherwise the larger of the minimum test timeout (20 s unless set) and the baseline test time times the multiplier (5 unless set) rounded up, or 300 s when there is no baseline; builds are limited only by --build-timeout or the build multiplier times the baseline build time (with --check the check is the build). A cargo process over its limit is killed with its whole process group, never before the limit, the mutant is recorded as a timeout, and the remaining mutants are still tested.",
 ["configurations","inputs","histories"],
 "all combinations of explicit timeouts, multipliers, minimum and baseline durations from small domains, from command line, environment and config; hang in every phase of every scenario, under virtual time",
 "Tests use a few real seconds on one tree and unit tests of one formula; enforcement instants under all option combinations are never observed.",
 ["src/timeouts.rs","src/process.rs","src/process/unix.rs","src/options.rs"],
 [("timeout formulas","src/timeouts.rs"),("poll loop and group kill","src/process.rs")],
 ["virtual time at which the child group receives a signal"])

prop("C09", "Ctrl-C at any moment stops everything promptly and cleanly",
 "If the tool is interrupted (SIGINT) at any point of a run, running cargo process groups are terminated, any cargo process a worker was just about to start is itself terminated at once, nothing more is copied or tested, the process ends promptly with a nonzero status (unless all the work was already done), temporary build directories are removed, and source files are intact. Results recorded before the interrupt remain in the output directory and no result is recorded for a scenario that did not finish.",
 ["crash_points","schedules"],
 "SIGINT delivered at every intercepted system call and every state of the running cargo children, 1-2 workers, copied and in-place",
 "One test interrupts a run once at an arbitrary time.",
 ["src/interrupt.rs","src/process.rs","src/lab.rs","src/main.rs"],
 [("interrupt flag checks","src/interrupt.rs check_interrupted"),("child termination","src/process.rs")],
 ["children alive after exit, exit status, files left"])

prop("C10", "Scratch build directories are always removed unless --leak-dirs",
 "When a run ends by itself, whatever the outcome (success, missed mutants, failing baseline, timeout, interrupt, error while copying or writing, but not a failing removal), no temporary build directory created by it remains, and nothing else is left in the temporary directory. With --leak-dirs the build directories are kept and are full copies of the unmutated tree.",
 ["inputs","fault_sequences","crash_points","configurations"],
 "all outcome kinds x job counts x interrupt or I/O failure at every step x --leak-dirs",
 "Tests check at most one normal run.",
 ["src/build_dir.rs","src/copy_tree.rs","src/main.rs"],
 [("TempDir ownership","src/build_dir.rs BuildDir")],
 ["contents of TMPDIR after exit"])

prop("C11", "Results on disk are complete, valid and current while a run progresses",
 "Whenever a cargo process for a scenario is running, outcomes.json is valid JSON describing exactly the scenarios finished so far and the four text lists agree with it; mutants.json already holds all selected mutants. If the tool is killed at any instant, each text list holds only complete names of mutants whose tests really finished with that result, and no line already recorded is lost or altered.",
 ["crash_points","schedules","histories"],
 "a kill at every intercepted file operation, including inside a partially performed write; an observation at every start of a cargo child; 1-2 workers",
 "Tests look at the output only after normal completion.",
 ["src/output.rs","src/lab.rs"],
 [("append and rewrite after every scenario","src/output.rs add_scenario_outcome")],
 ["mutants.out at every observation and crash point"])

prop("C12", "--iterate skips exactly the mutants already caught or unviable",
 "A run with --iterate tests exactly the currently selected mutants that are not recorded as caught or unviable by the previous run or by the runs it iterated on, and never skips one that was only missed, timed out, interrupted or not reached. The record carries over any number of iterations, including runs that are filtered, fail, or are interrupted or killed while testing, and starts afresh after a run without --iterate.",
 ["histories","crash_points"],
 "all histories up to 4 runs over {plain, iterate, filtered iterate, interrupted, edited source} and all outcome vectors of 3 mutants",
 "Tests follow one or two fixed histories.",
 ["src/main.rs","src/output.rs","src/visit.rs"],
 [("previously_caught.txt","src/output.rs load_previously_caught, write_previously_caught"),("exclusion by name","src/visit.rs remove_previously_caught")],
 ["mutants tested in each run of the history"])

prop("C13", "An existing mutants.out is rotated intact, and a live one is never disturbed",
 "A run that finds an existing mutants.out moves it with its results unchanged to mutants.out.old (replacing any older one), never losing them even if the run fails or is killed while doing so, and writes a fresh directory that contains nothing from earlier runs; listing commands do not create or touch output directories, and --output, CARGO_MUTANTS_OUTPUT and the config choose where they go. While another invocation holds the output directory's lock, a later run with the same output directory waits and changes nothing in it until the first has ended.",
 ["histories","schedules","configurations"],
 "all histories up to 3-4 runs over {run, list, list-files, --output variants}; a second invocation started at every observable step of a first one that holds the lock",
 "Tests rotate once and lock once.",
 ["src/output.rs","src/main.rs"],
 [("rotation and lock","src/output.rs OutputDir::new, LockFile::acquire_lock")],
 ["directory contents before/after"])

prop("C14", "Shards partition the selected mutants",
 "For every n >= 1 the shards 0/n to (n-1)/n of the same tree and options are pairwise disjoint, together contain every mutant exactly once, keep the listing order, and differ in size by at most one; this composes with all other filters, and listing a shard shows exactly what running that shard tests. Malformed or out-of-range shard arguments are rejected with a usage error.",
 ["inputs","configurations"],
 "all n and k up to beyond the number of mutants, trees with 0..N mutants, with filters, diffs and iterate",
 "Tests try one or two n on fixed lists.",
 ["src/shard.rs","src/main.rs"],
 [("k modulo n selection","src/shard.rs Shard::select")],
 ["--list --shard output, mutants tested"])

prop("C15", "--in-diff selects exactly the mutants whose code the diff touches",
 "Given a unified diff whose new side matches the source tree, --in-diff selects exactly the mutants (allowed by the other filters) whose changed span includes a line that the diff added or changed, or a line adjacent to a deletion; files the diff does not name contribute none. An empty diff selects nothing, and a diff whose new text does not match the tree is rejected with an error rather than giving wrong results.",
 ["inputs"],
 "all edit scripts (insert, delete, replace of any line range, up to two hunks) on small files, with context 0-3, in one or more files, new, deleted, renamed and binary files",
 "A few hand-written diffs are tested.",
 ["src/in_diff.rs"],
 [("affected lines computation","src/in_diff.rs affected_lines"),("staleness check","src/in_diff.rs check_diff_new_text_matches")],
 ["--list --in-diff output"])

prop("C16", "Code marked to be skipped, tests and unsafe functions are never mutated",
 "No mutant is generated inside a file, module, impl, trait, function, or call, unary or match expression marked with a mutants::skip attribute (directly, via cfg_attr, or as an inner attribute), inside functions marked #[test], or functions, impls, traits, modules and files under cfg(test), unsafe functions, Default implementations, functions named new in impls or traits, or the arguments of skipped calls; an excluded module's file is not visited either. Conversely such a marker never suppresses mutants of code outside the marked item.",
 ["programs","inputs"],
 "all nestings up to depth 3 of item kinds (file, mod, impl, trait, fn, nested fn, expression) with each attribute form at each level",
 "Tests use one example per attribute and item kind.",
 ["src/visit.rs"],
 [("attribute checks","src/visit.rs attrs_excluded"),("skip_calls","src/visit.rs visit_expr_call")],
 ["--list --json"])

prop("C17", "A mutation replaces exactly its recorded span, preserving all other text",
 "The mutated file equals the original text with exactly the recorded line/column span replaced by the replacement and marker comment, for any source text including tabs, multi-byte characters, carriage returns, comments, macros and missing final newlines (only CR LF line endings become LF, and only while the mutant is tested); the span always covers the whole operator, guard, arm or function body it names. The diff shown by --list --diff and stored in mutants.out/diff is that change exactly and applies cleanly.",
 ["programs","inputs"],
 "all combinations of construct, position, surrounding text alphabet (ASCII, tab, 2/3/4-byte characters, combining characters, comments, CR LF) and nesting",
 "Tests check a few spans on ASCII LF sources.",
 ["src/mutant.rs","src/span.rs","src/source.rs","src/visit.rs"],
 [("span replacement","src/span.rs Span::replace"),("line/column bookkeeping","src/span.rs"),("diff","src/mutant.rs Mutant::diff")],
 ["--list --json --diff; files seen by cargo children; mutants.out/diff"])

prop("C18", "Listing is deterministic, unambiguous and agrees with what a run tests",
 "For the same tree and options, repeated listings are identical, text and JSON listings show the same mutants in the same order, no mutant appears twice and no two mutants share a name, and a run tests exactly the listed set, in listed order when --no-shuffle is given. Display options (colours, diff, line/column off, log level) never change which mutants are selected.",
 ["inputs","configurations"],
 "all combinations of display and output options over trees with repeated operators, same-named items, several targets and packages",
 "Tests snapshot single listings.",
 ["src/list.rs","src/mutant.rs","src/lab.rs","src/visit.rs"],
 [("names with line and column","src/mutant.rs Mutant::name"),("list output","src/list.rs")],
 ["--list outputs, mutants.json, order of cargo children"])

prop("C19", "File globs and name regexes select exactly the matching mutants",
 "A mutant is selected if and only if its file matches some examine glob (when any is given) and no exclude glob, and its listed name matches some examine regex (when any is given) and no exclude regex. A glob without a slash matches the file name or any directory component at any depth and one with a slash matches the path from the workspace root; modules under an unselected file are still visited, and command-line filters of a kind replace config filters of that kind.",
 ["inputs","configurations"],
 "all combinations of up to 2 globs and regexes from a small alphabet over a tree of nested modules, on the command line, in config, and both",
 "Tests use one filter at a time on one tree.",
 ["src/options.rs","src/glob.rs","src/visit.rs","src/config.rs"],
 [("glob sets","src/glob.rs build_glob_set"),("selection","src/options.rs allows_source_file_path, allows_mutant")],
 ["--list, --list-files"])

prop("C20", "Cargo is run with exactly the options, features and environment requested",
 "Every cargo command line and environment is the one determined by the options: profile, features, test tool, extra cargo arguments for every phase, extra test arguments for the test phase only, lint capping added to (never replacing) the rustc flags set in the environment, and snapshot updating disabled; nothing of the standard input is given to cargo. Command-line values override config values for single-valued settings and add to them for argument lists, --no-config ignores the file, and unknown or malformed configuration is an error rather than being ignored.",
 ["configurations"],
 "all pairs and triples of option sources {absent, config, command line, environment} and values, for every option that reaches cargo, in every phase",
 "Tests cover options one at a time.",
 ["src/cargo.rs","src/options.rs","src/config.rs","src/main.rs"],
 [("argv construction","src/cargo.rs cargo_argv"),("option merging","src/options.rs Options::new")],
 ["argv and environment of cargo children"])

prop("C21", "Mutated and tested packages are exactly those selected",
 "Mutants come from exactly the packages selected: those named by --package, every member with --workspace, otherwise the package containing the start directory, or the default members (all members if none are set) when started at a virtual workspace root. Each mutant is tested with its own package's tests unless --test-workspace or --test-package (command line over config) says otherwise, packages are identified unambiguously, and the baseline covers every package that will be tested.",
 ["configurations","inputs"],
 "workspace shapes (single, root package with members, virtual, default-members, nested, same-prefixed names) x start directories x selection options on command line and in config",
 "Tests try some combinations on two workspaces.",
 ["src/workspace.rs","src/package.rs","src/lab.rs","src/options.rs"],
 [("package filter","src/workspace.rs filter_packages"),("tests for a mutant","src/lab.rs TestsForMutant")],
 ["--list --json packages; --package arguments of cargo children"])

prop("C22", "The scratch copy is faithful: everything the build needs, nothing excluded",
 "Each build directory is a copy of the whole workspace with file contents, executable bits and symlinks preserved and hidden files included. It leaves out only earlier mutants.out and mutants.out.old directories, version-control directories (unless --copy-vcs), and files excluded by gitignore patterns when the tree is inside a git repository (unless --gitignore=false).",
 ["inputs","configurations"],
 "all trees over a small alphabet of entry kinds (file, executable, read-only, hidden, empty dir, symlink to file, dir or nothing, VCS dir, ignored file, nested ignore, previous output) x copy options x inside/outside git",
 "Tests copy a few trees.",
 ["src/copy_tree.rs","src/copy_tree/unix.rs","src/options.rs"],
 [("tree walk with filters","src/copy_tree.rs copy_tree")],
 ["tree seen by the baseline cargo child"])

prop("C23", "Relative paths out of the tree still resolve from the scratch copy",
 "In the scratch copy, every path dependency, replacement or patch in the workspace manifest, and every path override or patch in .cargo/config.toml, refers to the same directory it did in the original tree: paths leading outside the tree become absolute and paths inside it keep pointing inside the copy. All other content of those files stays the same apart from formatting, and the originals are not modified.",
 ["inputs","configurations"],
 "all placements of a path (dependency tables, patch, replace, config paths) x path forms (inside, outside by 1-3 levels, in-and-out, absolute, dot segments) x combinations of two",
 "Tests check a couple of path forms in two tables.",
 ["src/manifest.rs","src/path.rs","src/build_dir.rs"],
 [("manifest fixing","src/manifest.rs fix_manifest, fix_cargo_config"),("ascent computation","src/path.rs ascent")],
 ["Cargo.toml and .cargo/config.toml seen by cargo children"])

prop("C24", "Parallel jobs stay within the limit and never share a build directory",
 "With --jobs=N (or its environment variable) at most min(N, number of mutants) cargo processes run at once, N mutants can really run at the same time, no two concurrently running cargo processes share a build directory, and a build directory's mutation stays fixed while a cargo process runs in it. With any job count and any schedule the run terminates and gives the same outcomes as a single job would.",
 ["schedules","configurations"],
 "all orders of start and completion of cargo children for N=1..3 and up to 4 mutants; thread preemptions at synchronisation and file operations",
 "Tests run -j2 once with an uncontrolled schedule.",
 ["src/lab.rs","src/options.rs"],
 [("scoped worker threads","src/lab.rs test_mutants"),("baseline dir handed to one worker","src/lab.rs build_dir_0")],
 ["set of live cargo children and their directories at every step"])

prop("C25", "The generated mutants are exactly the documented ones for each construct",
 "For every function return type the replacement values, and for every binary operator, unary operator, match arm and match guard the mutations, are exactly those documented, generated once each with the right file, function name and span, wherever the construct occurs in mutable code. Replacements identical to the existing body are not generated.",
 ["programs","inputs"],
 "all return types built from the documented type constructors to depth 2-3, all operators in all operand positions, all match shapes up to 3 arms, in every function context",
 "Tests list expected values for samples of types and operators.",
 ["src/fnvalue.rs","src/visit.rs"],
 [("return value table","src/fnvalue.rs"),("operator tables","src/visit.rs visit_expr_binary, visit_expr_unary, visit_expr_match")],
 ["--list --json"])

prop("C26", "Every module of each target is visited, and nothing else",
 "The files examined for a package are exactly its library and binary target roots plus all files reachable through mod declarations by Rust's rules (name.rs or name/mod.rs, nested inline modules, path attributes, raw identifiers), each once. Test, example and bench targets, files outside the tree and modules excluded by attribute are not examined, and a missing module file does not stop the others from being found.",
 ["programs","inputs"],
 "all module trees up to depth 3 over {inline, name.rs, name/mod.rs, path attribute} below lib.rs, main.rs, mod.rs and non-mod-rs parents",
 "A few layouts are tested.",
 ["src/visit.rs","src/package.rs","src/source.rs"],
 [("module resolution","src/visit.rs find_mod_source"),("target selection","src/package.rs")],
 ["--list-files"])

prop("C27", "I/O failures stop the run with an error; never a false all-clear",
 "If a file operation, copy or process start that the run depends on fails, cargo-mutants ends with a nonzero status and a message; it never exits with 0 or reports a mutant as caught, missed or unviable that was not really tested, and it never hangs. Results already recorded stay valid.",
 ["fault_sequences","schedules"],
 "one failure (EIO, ENOSPC, EACCES, ENOENT, short write) at every intercepted file operation and process start of a run, 1-2 workers",
 "No test injects I/O faults.",
 ["src/lab.rs","src/output.rs","src/build_dir.rs","src/copy_tree.rs","src/process.rs"],
 [("error propagation","src/lab.rs join_threads, run_one_scenario")],
 ["exit status, recorded results versus cargo children that really ran"])

prop("C28", "What a run prints agrees with what it records, on any terminal and any output",
 "A run that ends normally prints on stdout, once each: the number of mutants selected; the verdict on the unmutated baseline (unless skipped), together with its whole log when it failed; for every missed, timed-out or otherwise failed or (with --check) successful mutant one line with the verdict recorded in outcomes.json and the name given by --list; caught ones only with --caught and unviable ones only with --unviable; and at the end a summary with the recorded counts. With --all-logs the logs of the scenarios shown are printed too. Colours, times, the number of jobs, the width of the terminal, the progress display and the bytes printed by cargo (UTF-8 or not) change nothing of that, nor the recorded results or the exit status.",
 ["inputs","schedules"],
 "all vectors of outcomes for up to 3 mutants and the baseline x --caught/--unviable/--all-logs/--check/--no-times/--colors/jobs; output with invalid UTF-8, wide characters, control sequences; stderr, or stdout and stderr, on pseudo-terminals of several widths",
 "Tests compare the output of a few trees; none runs on a terminal or with output that is not UTF-8.",
 ["src/console.rs","src/outcome.rs","src/lab.rs","src/tail_file.rs"],
 [("verdict lines","src/console.rs scenario_finished"),("progress display","src/console.rs LabModel::render, src/tail_file.rs"),("summary","src/outcome.rs summary_string"),("log content","src/outcome.rs get_log_content")],
 ["stdout (or the screen of a terminal emulator), outcomes.json, the lists, exit status"])

prop("C29", "Malformed or odd input never crashes the tool: it works or says what is wrong",
 "Whatever the content of the files it reads that a user or another tool writes - Rust source, cargo-mutants config, manifests and cargo config that it rewrites, a diff, the lists of an earlier run - and whatever kind of directory entry they are (missing, empty, a directory, a link to itself or to nothing, a device), and whatever the values of its options and environment variables, cargo-mutants never panics, dies of a signal, or hangs: it either does its work, or exits with a non-zero status, a message on stderr, nothing listed on stdout, and without having run cargo on a tree it could not prepare. What it lists is always valid JSON with spans that lie within the file.",
 ["inputs"],
 "each of six rich texts cut off after every character, with every one of a set of tokens put in before, or in place of, every character; every one of a set of odd types, attributes, hunk headers, file headers, sequences of hunks, whole files, values of every key of a configuration or manifest, and values of options and environment variables; every kind of directory entry in place of every file read",
 "Tests give a handful of malformed files; the rest of the space is never visited.",
 ["src/visit.rs","src/fnvalue.rs","src/in_diff.rs","src/config.rs","src/manifest.rs","src/output.rs"],
 [("parsing of source","src/visit.rs walk_file, src/fnvalue.rs"),("diff","src/in_diff.rs diff_filter, check_hunk_ranges"),("config","src/config.rs Config::from_str"),("manifests","src/manifest.rs fix_manifest, fix_cargo_config"),("earlier lists","src/output.rs load_previously_caught")],
 ["exit status, stderr, the JSON listing, children run"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=True) + "\n")
print(len(P))
