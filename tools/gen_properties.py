#!/usr/bin/env python3
"""Single source for properties.jsonl: keeps the wording in one reviewable place."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

TIDY = "scripts/run-clang-tidy-cached.cc"
PRE = "bant/util/filesystem-prewarm-cache.cc"
FU = "bant/util/file-utils.cc"
PP = "bant/frontend/parsed-project.cc"

prop("C01", "Cached lint results are never stale, and unchanged files are not redone",
 "After any completed run of the cached linter, the results it reports for every project source are those of analysing the current content of that source together with the current content of the project headers it directly includes, whatever sequence of edits, additions, removals, renames, config or tool-version changes and earlier runs came before; a change to an existing source or header while a run is executing affects at most what that very run reports. A file whose own content, directly included headers and lint configuration were already analysed successfully is not analysed again, except that a file with findings is revisited when the build configuration is newer than its result.",
 ["histories", "schedules"], "every history of source/header/config edits (including reverting to earlier content) interleaved with runs, any worker count and interleaving of the workers, any directory enumeration order",
 "No test exists for the linter script at all; the property quantifies over unbounded edit histories against persistent cache state.",
 [TIDY], [("content-addressed cache key mixing file and included-header content", TIDY + ": BuildWorkList/PathFor"), ("freshness rule for results with findings", TIDY + ": NeedsRefresh")],
 ["report file reachable through the bant_clang-tidy.out symlink", "stdout summary", "set of files handed to clang-tidy"])
prop("C02", "Killing the linter at any point never leaves a wrong cached result",
 "If a linter run is killed at an arbitrary instant (optionally leaving its analysis subprocesses running as orphans), then the next run that completes without faults reports exactly what a run with an empty cache would report for the current sources. A partially written analysis result is never taken for a complete one.",
 ["crash_points", "schedules", "histories"], "every kill point between or inside the system calls of the linter and its analysis children, every worker interleaving, repeated kills, with or without surviving orphans, followed by arbitrary edits and a clean run",
 "Tests cannot enumerate kill points across a multi-threaded run; none exist for this program.",
 [TIDY], [("write to temporary name, repair there, then atomic rename to the final name", TIDY + ": RunClangTidyOn")],
 ["cache directory content", "report of the next clean run"])
prop("C03", "A failed analysis is never recorded or reported as clean",
 "When the analysis of a source cannot be completed (analyser not startable, killed by a signal, result cannot be written because of a full disk or an I/O error), the run does not report success, nothing is cached as that source's result, and the next fault-free run analyses that source again and reports its true findings.",
 ["fault_sequences", "schedules"], "every combination of failing process creation, signal death of an analyser at any point of its output, short writes, ENOSPC and EIO on the result or report files, on any subset of the files, under any worker interleaving",
 "Tests run on a healthy machine: no fork failure, signal death or full disk ever happens there.",
 [TIDY], [("exit status inspection of the analyser", TIDY + ": RunClangTidyOn"), ("stream state after writing the repaired result", TIDY + ": StoreResult")],
 ["exit status", "cache directory content", "report of the next clean run"])
prop("C04", "Lint outcome is independent of worker count and interleaving; workers are safe",
 "For the same sources and starting cache, the linter's report content, summary counts, exit status and final cache content are the same for every number of workers and every interleaving of them; each stale source is analysed exactly once per run. No execution deadlocks, crashes or performs conflicting unsynchronised accesses to shared memory.",
 ["schedules", "configurations"], "every interleaving, at memory-access and system-call granularity, of any number of workers, over work lists that include same-named and same-content files in different directories",
 "A test run observes one interleaving of one machine's scheduler; data races and lost updates need specific ones.",
 [TIDY], [("work queue guarded by a mutex", TIDY + ": RunClangTidyOn"), ("path-repair expression shared by the workers", TIDY + ": FixPathsRegex")],
 ["commands issued per run", "report", "happens-before race detector"])
prop("C05", "Concurrent linter runs sharing one cache do not disturb each other",
 "Any number of linter runs executing at the same time with the same cache (from the same or from different checkouts of the project) each complete without crashing, each report the true findings of their own checkout, and leave only complete, correct results in the cache.",
 ["schedules", "histories", "crash_points"], "every interleaving of two or three simultaneous runs with several workers each, over checkouts that share some, all or no file contents, and with one of them killed part-way",
 "Needs several processes racing at particular points between writing, repairing and renaming the same result; no test starts even one.",
 [TIDY], [("per-location report suffix", TIDY + ": CreateReport"), ("content-addressed results with atomic replacement", TIDY + ": RunClangTidyOn")],
 ["exit status of each run", "reports of each checkout", "cache directory content"])
prop("C06", "Lint exit status, summary and details agree, on every history",
 "In every completed fault-free linter run the exit status is success exactly when no analysed source has findings; the printed summary lists every check that fired with its exact number of occurrences over all sources ordered by decreasing count, and the details file contains every finding of every source of interest exactly once, with file names relative to the project root.",
 ["histories", "schedules"], "every mix of fresh, cached and revisited results over arbitrary edit histories, worker interleavings, and analyser path spellings (relative, ./-prefixed, absolute, build-tool execution root)",
 "No test; the result is assembled from cache entries written by many earlier runs and processes.",
 [TIDY], [("report assembly from the cache", TIDY + ": CreateReport"), ("path canonicalisation", TIDY + ": FixPathsRegex")],
 ["stdout", "bant_clang-tidy.out / .summary symlinks", "exit status"])
prop("C07", "Filesystem prewarming never changes what bant computes",
 "For any command and workspace, the primary output and exit status are the same whether the prewarm cache directory is absent, or the prewarm cache file is missing, current, stale, from another workspace, truncated, binary garbage, unreadable, unwritable or concurrently rewritten by another bant process, and for every timing of the background prewarming activity.",
 ["schedules", "fault_sequences", "histories", "crash_points"], "every interleaving of the prewarm threads with the main work, every cache-file content including the leftovers of runs killed at any point, any I/O error on cache file or prewarmed paths, concurrent bant processes sharing a cache file",
 "The prewarm code has no tests; its effect depends on thread timing and on files left behind by earlier, possibly killed, runs.",
 [PRE, "bant/bant.cc"], [("background replay only touches files via access/readdir", PRE + ": InitCacheFile"), ("best-effort cache writer", PRE + ": WritePrefixed")],
 ["stdout / -o file", "exit status"])
prop("C08", "Prewarming always shuts down, without races, on every schedule",
 "A bant process that uses the prewarm cache always terminates once its main work is done, within a bounded number of further steps and irrespective of how many entries remain to be prewarmed; no prewarm worker is left running, blocked forever or touching released memory, no conflicting unsynchronised memory accesses occur, and the machinery keeps working if some worker is arbitrarily slow.",
 ["schedules", "inputs"], "every interleaving of main thread and worker threads including spurious wake-ups, early exits of the main program, stalled system calls and cache files from empty to thousands of entries",
 "Lost wake-ups and shutdown races appear only under specific interleavings; the existing tests never start the pool.",
 [PRE], [("work queue with mutex and condition variable, cancellation flag", PRE + ": ThreadPool"), ("final self-cancelling work item", PRE + ": InitCacheFile")],
 ["process exit", "deadlock and step-bound detectors", "happens-before race detector"])
prop("C09", "The prewarm cache records exactly the accesses of the run, each once",
 "After a bant run that ends normally with a writable prewarm cache, the cache file holds one line for each distinct file whose content was read and each distinct directory that was enumerated, in order of first access and nothing else; runs that differ only in verbosity, quietness, keep-comment handling, output file or output format (however these options are spelled or combined) use the same cache file, and the next such run prewarms exactly these paths (unless it finishes earlier).",
 ["histories", "schedules", "fault_sequences"], "every sequence of runs with varying flags, patterns and working directories over changing workspaces, including after torn or lost cache files",
 "Untested; requires correlating the system-call history of one process with the file read by the next one.",
 [PRE, FU], [("access recording with duplicate suppression", PRE + ": WritePrefixed"), ("flag-insensitive cache naming", PRE + ": FilesystemPrewarmCacheInit")],
 ["content of $HOME/.cache/bant/fs-warm-*", "system-call history"])
prop("C10", "bant output does not depend on incidental filesystem or hash order",
 "For the same workspace content, command and flags, the primary output and exit status are identical for every directory enumeration order, inode numbering, availability of directory-entry types, read chunking, hash-table iteration order, memory layout and clock.",
 ["configurations", "schedules", "inputs"], "every order in which the filesystem may enumerate directories, legal inode numbers (including large, zero and colliding across devices), entries with unknown type, short reads, hash seeds and clock values, over generated workspaces and all commands",
 "A test machine has one filesystem with one enumeration order; the dependency on order only shows on another.",
 [FU, PP, "bant/explore/header-providers.cc", "bant/frontend/elaboration.cc", "bant/tool/dwyu.cc", "bant/tool/compilation-db.cc"],
 [("ordered maps keyed by package/target", PP), ("directory walk", FU + ": CollectFilesRecursive")],
 ["stdout / -o file", "exit status"])
prop("C11", "An unreadable package affects only itself and is reported",
 "If a BUILD file discovered in the workspace cannot be opened or read, it is named in a message on the error stream, and listing or printing commands produce for every other package exactly what they produce without the fault; the run neither aborts nor omits, duplicates or changes any unaffected package.",
 ["fault_sequences", "inputs"], "every subset of BUILD files and every error (ENOENT, EACCES, EIO, EMFILE, directory in place of file, file vanishing between enumeration and open) hit on open, stat or at any offset while reading",
 "Tests use in-memory contents or healthy temporary files; read errors and mid-read truncation never occur.",
 [PP, FU, "bant/explore/dependency-graph.cc"], [("read-all-or-nothing file loading", FU + ": ReadFileToString"), ("error report and skip", PP + ": AddBuildFile")],
 ["stdout", "stderr"])
prop("C12", "Files are used whole or not at all",
 "Whatever way the operating system splits a read into pieces, bant behaves as if each input file had been read in one piece; and if a file cannot be read up to the size it had when opened, its partial content is never parsed, scanned or otherwise acted upon but treated as unreadable. A file replaced by another version while bant is working is used in one of the two versions.",
 ["fault_sequences", "schedules"], "every sequence of short reads, read errors and premature end-of-file at any offset of any BUILD, workspace or source file, and concurrent truncation or growth of the file by another process between open, stat and read",
 "The kernel returns small regular files in one read in tests, so the retry loop and its failure branch are never exercised.",
 [FU], [("read loop comparing bytes obtained to the size at open", FU + ": ReadFileToString")],
 ["stdout", "stderr"])
prop("C13", "No environment fault or damaged file crashes or hangs bant",
 "For every command, any combination of failing system calls, vanishing or changing files, symbolic-link loops, files torn or bit-flipped by earlier crashes, and unavailable directories leads to normal termination within a bounded number of steps with a defined exit status, never to a crash by signal, uncaught exception, failed internal assertion or endless loop.",
 ["fault_sequences", "crash_points", "inputs"], "every sequence of errors on open, stat, read, readdir, access, getcwd, glob and write; every prefix or bit-flip of a BUILD or workspace file as left by an interrupted writer; every symlink topology; all commands and formats",
 "Unit tests feed well-formed strings; they do not cover error returns of system calls combined with each command's later stages.",
 ["bant/bant.cc", "bant/cli-commands.cc", PP, "bant/frontend/parser.cc", "bant/frontend/elaboration.cc", "bant/explore/dependency-graph.cc", FU, PRE, "bant/tool/dwyu.cc", "bant/tool/compilation-db.cc"],
 [("null-tolerant AST and query code", "bant/frontend/parser.cc, bant/explore/query-utils.cc"), ("loop detection while walking directories", FU + ": CollectFilesRecursive")],
 ["exit status", "signals", "step bound"])
prop("C14", "bant never reports success for output it could not deliver",
 "If any part of the primary output of a command could not be written to standard output or to the requested output file, the exit status is not that of success; when the exit status reports success or findings, the complete output is in place.",
 ["fault_sequences"], "ENOSPC, EIO, EPIPE-like errors and short writes at any write of any command and output format, including the final flush and close, on standard output and on -o files",
 "A full disk never occurs in tests, and no test looks at the exit status of the binary.",
 ["bant/bant.cc", "bant/session.h"], [("stream error state checked before exit", "bant/bant.cc: main")],
 ["exit status", "content of stdout / -o file"])
prop("C15", "bant never modifies the workspace it analyses",
 "No bant command creates, deletes, truncates, writes, renames or changes permissions or times of anything except the output file named by the user and its own prewarm cache file, under every schedule and fault, and the prewarm cache file is only created where the user created the cache directory.",
 ["inputs", "fault_sequences", "schedules", "histories"], "every command, flag, workspace (with hostile names in prewarm cache and BUILD files), fault sequence and thread schedule",
 "Requires observing all system calls of all executions; tests check return values only.",
 [PRE, FU, "bant/bant.cc"], [("read-only access helpers", FU), ("cache writer bound to one file", PRE)],
 ["system-call history"])
prop("C16", "Under read faults, dependency clean-up never suggests an unsafe removal",
 "When some sources, headers or BUILD files cannot be read, the edit script emitted by dependency clean-up removes nothing that it would not also remove when everything is readable, except where its own additions make up for it: no removal from a target with an unreadable own source, none of a library that is always to be linked, and no included header left without a library providing it. Lack of information only ever suppresses removals.",
 ["fault_sequences", "inputs"], "every subset of source files and referenced packages failing to be opened, stat'ed or fully read, over generated workspaces",
 "Tests provide all sources through an in-memory map; a file that exists but cannot be read does not occur.",
 ["bant/tool/dwyu.cc", "bant/explore/header-providers.cc", "bant/explore/dependency-graph.cc"],
 [("'all headers accounted for' flag that suppresses removals", "bant/tool/dwyu.cc"), ("packages that failed to parse", "bant/frontend/parsed-project.cc")],
 ["stdout edit script"])
prop("C17", "Applying the suggested edits converges to a clean workspace",
 "Repeatedly running dependency clean-up (or label canonicalisation) and applying the suggested edits, even if the application is cut short at any point and restarted later, reaches after a bounded number of rounds a workspace for which no more edits are suggested and the exit status says so; the end result does not depend on where the interruptions happened, and every header actually included from a workspace library is then covered by a declared dependency. Only dependencies the target may use are suggested to be added (visible, not deprecated, not testonly unless the target is), dependencies marked to be kept stay, and none is left at the end that provably provides nothing the target asks for.",
 ["histories", "crash_points", "inputs"], "every generated workspace with missing, superfluous, duplicate, aliased and non-canonical dependencies, with the edit application interrupted after any prefix of the script, any number of times",
 "Tests check single edits on fixed examples, never the feedback loop of applying edits and re-running.",
 ["bant/tool/dwyu.cc", "bant/tool/canon-targets.cc", "bant/tool/edit-callback.cc"],
 [("edit computation against declared deps and header providers", "bant/tool/dwyu.cc"), ("canonical label rewriting", "bant/tool/canon-targets.cc")],
 ["edit scripts", "exit status", "final BUILD files"])
prop("C18", "Recursive dependency following visits exactly the reachable targets",
 "With recursion, the reported dependency relation contains exactly the targets reachable from the pattern within the requested number of steps, through declared dependencies and aliases, across packages including the top-level one and across external projects; each BUILD file is opened once, cyclic references terminate, and the reverse relation is its exact mirror.",
 ["inputs", "configurations", "fault_sequences"], "every generated dependency graph (cycles, diamonds, missing targets and packages, root package, external projects), depth limit, and subset of unreadable packages which then count as absent",
 "There is no test of the graph construction; the interesting behaviour depends on what is found on disk while following.",
 ["bant/explore/dependency-graph.cc", "bant/cli-commands.cc"],
 [("round-based work list with visited map", "bant/explore/dependency-graph.cc: BuildDependencyGraph"), ("package lookup on disk", "bant/explore/dependency-graph.cc: PathForPackage")],
 ["depends-on / has-dependents output", "open() history"])
prop("C19", "Package discovery finds every package once, in any filesystem",
 "Recursive discovery from a pattern reports every package whose directory is reachable below the start directory without crossing symbolic links, exactly once, and nothing outside it (apart from the documented skipped directories); symbolic-link loops terminate and unreadable directories hide only what is below them.",
 ["configurations", "inputs", "fault_sequences"], "every directory topology including link cycles, links to ancestors, several mounted devices with coinciding inode numbers, inode numbers 0 and -1, entries without type information, enumeration orders, and opendir/stat failures on any subset of directories",
 "The only test walks one small temporary directory on the local filesystem, with unique inodes and full type information.",
 [FU, PP], [("inode-based revisit suppression", FU + ": CollectFilesRecursive"), ("directory predicate", PP + ": CollectBuildFiles")],
 ["list-packages output"])
prop("C20", "bant holds a bounded number of file descriptors and leaks none",
 "At every moment of every run the number of file and directory descriptors held by bant is bounded by a constant independent of the size of the workspace, and every descriptor it opened for reading inputs is closed again on success and on every error path, so that a low descriptor limit never changes the result.",
 ["fault_sequences", "inputs", "schedules"], "every workspace size, depth and command, error on open/fstat/read/readdir at any point, and descriptor limits down to a small constant",
 "Leaks on error paths are invisible to tests that never inject errors or count descriptors.",
 [FU, PRE], [("scoped closing of descriptors", FU + ": ReadFileToString, CollectFilesRecursive")],
 ["open descriptor table at each step", "exit status under a low descriptor limit"])

prop("C21", "Interrupting the linter ends it orderly and loses nothing",
 "If a linter run is interrupted (SIGINT or SIGQUIT to it and the processes it started, at any instant while analyses are being executed), no analyses are started any more except those already being launched (at most one per worker); the run still ends by itself, its details and summary contain exactly the findings of all sources whose results are complete, it does not report success while some source has no result, and nothing of an interrupted analysis is cached. The next uninterrupted run analyses only what is missing and reports the true findings.",
 ["histories", "schedules", "fault_sequences"], "every instant of the signal relative to the steps of every worker and analyser (including before or while the build tool is asked for its root directory), any number of workers, any earlier cache content",
 "No test delivers a signal to the linter; the windows between two system calls of a worker can not be hit deliberately.",
 [TIDY], [("signal handlers around the analyses", TIDY + ": RunClangTidyOn"), ("exit status inspection of the analyser", TIDY + ": RunClangTidyOn"), ("report of partial results", TIDY + ": CreateReport")],
 ["launched analyses", "details, summary, exit status", "cache content through the next run"])

prop("C22", "bant answers for the directory it is told to work in, or not at all",
 "The primary output and exit status of a command are the same whether it is started in the top directory of a workspace or told to go there from anywhere else (-C, once or several times, absolute, relative or through symbolic links, before or after other arguments), whether the output goes to standard output or to a file (-o), and however much is reported on the error stream (-q, -v). If one of the directories cannot be entered for whatever reason, the command fails, produces no output, and looks at no workspace at all.",
 ["configurations", "inputs", "fault_sequences", "schedules"], "every workspace, command, start directory, sequence and spelling of -C options, position of options, and every error of changing the directory at any of them (missing, no directory, no permission, failing system call), with another workspace waiting in the directory the command was started in",
 "No test starts the program; the failure branch decides if edits for the wrong workspace are suggested.",
 ["bant/bant.cc"], [("current directory changed while options are evaluated, before anything is looked at", "bant/bant.cc: main"), ("output streams of a session", "bant/session.h")],
 ["stdout / -o file", "exit status", "open() history"])

prop("C23", "What the linter cannot read never counts as clean and is never cached",
 "If a source, a project header, the lint configuration, a directory or a cached result cannot be opened or read completely (once, sometimes or throughout a run), the run does not report success unless all sources really are without findings; the findings it reports for a source are those the source has; and nothing derived from partial or missing content is taken for a result by a later run: the next fault-free run reports exactly the true findings, even if the unreadable file then really has the content it appeared to have.",
 ["fault_sequences", "histories", "schedules"], "every open, read, stat and directory error (EIO, EACCES, EMFILE, ENFILE, ESTALE, ENOMEM; after any number of bytes) at every access of the linter to sources, headers, configuration and results, followed by edits or truncation of the affected file and further runs",
 "Tests never inject read errors, and the damage only shows in a later run.",
 [TIDY], [("reading of files", TIDY + ": GetContent"), ("content hash of a source and its headers", TIDY + ": FileGatherer::HashWithIncludes"), ("report from cached results", TIDY + ": CreateReport")],
 ["exit status, details, summary", "result of the next runs"])

prop("C24", "Listings report exactly what the readable part of the workspace declares",
 "Whatever command lists facts about a workspace (targets with rule and location, headers and generated files with the rules that provide them, aliases, packages, external projects), or prints rules, for whatever pattern (and regular expression), with or without following dependencies, in every output format and however the command is abbreviated: it ends, and reports every fact declared in the BUILD files it looks at and could read that the pattern selects, none that is not declared there, in well-formed output; the location it gives is where the fact is declared, and the text of a printed rule is what is written there. BUILD files that cannot be read leave out their own facts only.",
 ["inputs", "configurations", "fault_sequences"], "every generated workspace (libraries with header prefixes, protocol buffers, generated files, aliases, external projects, unusual names), pattern including wildcards, recursion depth, format, and subset of unreadable BUILD files, with files and output transferred in pieces",
 "Tests check single look-ups in workspaces of one or two BUILD files; none runs a listing command.",
 ["bant/cli-commands.cc", "bant/explore/header-providers.cc", "bant/explore/aliased-by.cc", "bant/tool/workspace.cc", "bant/explore/query-utils.cc", "bant/types-bazel.cc", "bant/util/table-printer.cc"],
 [("commands", "bant/cli-commands.cc: RunCommand"), ("header index", "bant/explore/header-providers.cc: ExtractHeaderToLibMapping"), ("pattern matching", "bant/types-bazel.cc: BazelPattern::Match"), ("table formats", "bant/util/table-printer.cc")],
 ["stdout / -o file", "exit status"])

prop("C25", "Compilation database and compile flags cover all sources and what they include",
 "For every pattern, the compilation database is valid JSON with exactly one entry for each source and header of the C++ targets the pattern selects (globs included) and none for any other file; each entry compiles that very file from the workspace directory. Its flags, and the compile flags printed without files, are the options of the project's .bazelrc, the workspace, the build output, every include directory declared by a target that is needed (directly or through any number of dependencies, aliases and external projects), the virtual include directory of every library with an include prefix, and sources and build output of every external project that is depended on, and nothing that no looked-at target mentions. BUILD files or options that cannot be read leave out their own contribution only.",
 ["inputs", "configurations", "fault_sequences"], "every generated workspace, .bazelrc, pattern, recursion option and way of naming the workspace, and subset of unreadable files, with files and output transferred in pieces",
 "No test runs this code at all; what is missing shows only as unresolved includes in an editor.",
 ["bant/tool/compilation-db.cc", "bant/cli-commands.cc", "bant/types-bazel.cc", "bant/explore/dependency-graph.cc"],
 [("entries", "bant/tool/compilation-db.cc: WriteCompilationDBEntry"), ("include directories", "bant/tool/compilation-db.cc: CollectIncDirs"), ("options", "bant/tool/compilation-db.cc: ExtractOptionsFromBazelrc"), ("file names", "bant/types-bazel.cc: BazelPackage::FullyQualifiedFile")],
 ["stdout / -o file", "exit status"])

prop("C26", "Dependency labels keep their meaning and are reduced to their shortest form",
 "Whatever way a dependency is written in a BUILD file (absolute, in the same package, with or without colon, with slashes in its name, with or without redundant target name, referring to the own, an external or from there to the main project, to something that exists, cannot be read, or not), depends-on lists the target that Bazel takes it for. canonicalize suggests to replace exactly those labels of the targets selected by the pattern that are not in the documented short form, each once, by the short form of the same target, leaves alone what is no valid label, and its exit status tells if there was something to do. BUILD files that cannot be read leave out their own targets only.",
 ["inputs", "configurations", "fault_sequences"], "every generated workspace, spelling of every label, pattern, and subset of unreadable BUILD files, with files and output transferred in pieces",
 "The test of this command has five labels of one target in the main project.",
 ["bant/tool/canon-targets.cc", "bant/types-bazel.cc", "bant/explore/dependency-graph.cc", "bant/cli-commands.cc"],
 [("meaning of a label", "bant/types-bazel.cc: BazelTarget::ParseFrom"), ("short form", "bant/types-bazel.cc: BazelTarget::ToStringRelativeTo"), ("edits", "bant/tool/canon-targets.cc: CreateCanonicalizeEdits")],
 ["stdout / -o file", "exit status"])

# Pure functions of their input: listed for breadth, not claimed.
PURE = "Unit tests sample a handful of inputs; the claim is over all inputs."
prop("N01", "Printing a parsed BUILD file and parsing it again yields the same tree",
 "For every BUILD file accepted by the parser, printing the syntax tree and parsing the printed text again gives a structurally identical tree with the same literals.",
 ["inputs"], "every syntactically valid BUILD file", PURE,
 ["bant/frontend/parser.cc", "bant/frontend/print-visitor.cc"], [("print visitor", "bant/frontend/print-visitor.cc")])
prop("N02", "Target patterns match exactly the labels Bazel's pattern language denotes",
 "A target pattern matches a package or target exactly when Bazel's documented pattern syntax says so, and label parsing followed by printing is idempotent.",
 ["inputs"], "every pattern and label string", PURE,
 ["bant/types-bazel.cc"], [("pattern parsing and matching", "bant/types-bazel.cc")])
prop("N03", "Glob include/exclude patterns select the files Bazel would select",
 "The matcher built from include and exclude patterns accepts a path exactly if some include pattern and no exclude pattern matches it, where '*' stays within one path segment and '**' spans segments.",
 ["inputs"], "every pattern list and path", PURE,
 ["bant/util/glob-match-builder.cc"], [("pattern to regular expression translation", "bant/util/glob-match-builder.cc")])
prop("N04", "Every reported source location points at the text it is about",
 "For each fragment of a parsed file, including nested and overlapping ranges, the file, line and column reported are those of the fragment's first character.",
 ["inputs"], "every file content and fragment", PURE,
 ["bant/frontend/linecolumn-map.cc", "bant/frontend/source-locator.cc", "bant/util/disjoint-range-map.h"], [("offset to line/column mapping", "bant/frontend/linecolumn-map.cc")])
prop("N05", "Machine-readable output formats are always well-formed",
 "For any cell content, JSON, CSV, s-expression, plist and graphviz output is well-formed and decodes to the same cells as the native table.",
 ["inputs"], "every table content including quotes, control characters and non-ASCII bytes", PURE,
 ["bant/util/table-printer.cc"], [("per-format quoting", "bant/util/table-printer.cc")])
prop("N06", "Arena memory is aligned, disjoint and stable; arena queues keep order",
 "Every object allocated from the arena is suitably aligned, does not overlap another one and stays valid and in place for the life of the arena, and arena-backed sequences return their elements in insertion order for every sequence of sizes.",
 ["inputs", "histories"], "every sequence of allocation sizes and block sizes", PURE,
 ["bant/util/arena.h", "bant/util/arena-container.h"], [("block chaining", "bant/util/arena.h"), ("bucketed container", "bant/util/arena-container.h")])
prop("N07", "Elaboration preserves the meaning of BUILD expressions",
 "Variable expansion, string and list concatenation, formatting, select() handling and list comprehension expansion yield the values a Bazel evaluation would yield, or leave the expression untouched.",
 ["programs"], "every BUILD program in the supported subset", PURE,
 ["bant/frontend/elaboration.cc"], [("simple elaborator", "bant/frontend/elaboration.cc")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
