_T = ["Analyses of one file are deterministic; sources do not change while a run is in progress (except in C01).",
      "No power loss (data of completed writes survives a killed process); no interrupted system calls (EINTR).",
      "Headers are found below the project's start directory and have a header suffix the linter knows."]
check("C01", "tidy", "History of edits, returns to earlier versions and 2-5 runs (sometimes two checkouts on one cache, sometimes existing files edited or removed while a run is in progress); after every run without such an edit the reported findings are compared with the analyser model applied to the current tree, and the set of analysed files with what was already known. Non-trivial: some run had findings to report.",
      "Exploration by seeded search: no violation in the simulated histories, schedules and enumeration orders; trusts the analyser and shell models.", assumptions=_T)
check("C02", "tidy", "1-3 runs killed before a chosen system call (biased to operations on the cache), children surviving or not, edits in between, then clean runs whose report must be that of the analyser model. Non-trivial: a run really was killed.",
      "Exploration by seeded search over kill points, schedules and histories; kill points are system-call boundaries (write granularity inside stream buffers).", assumptions=_T)
check("C03", "tidy", "Runs under failing fork, dying or unstartable analysers, ENOSPC/EIO on result files and full disks; a run with a failed analysis must not exit 0, the following clean run must report the model's findings. Non-trivial: an analysis really failed.",
      "Exploration by seeded search over fault sequences, subsets of files and schedules.", assumptions=_T + ["Exceptions thrown for lack of threads are outside the property."])
check("C04", "tidy", "The same starting state run with one worker (reference) and with 2-8 workers under random or priority schedules down to single memory accesses; report, summary, exit status, cache content, analysed set compared; happens-before race detection, deadlocks. Non-trivial: more than one analysis in the parallel run.",
      "Exploration by seeded search over interleavings; races are found by vector clocks on the executed schedules.", assumptions=_T)
check("C05", "tidy", "2-4 simultaneous runs over one or two checkouts sharing a cache, one of them sometimes killed; afterwards every completed run's report must equal the model, and a further run finds a complete and correct cache. Non-trivial: always (at least two runs overlap).",
      "Exploration by seeded search over interleavings of several multi-threaded processes.", assumptions=_T)
check("C06", "tidy", "Histories of edits and 1-3 runs; exit status, printed summary, summary file and details file are compared with each other through the analyser model, over all path spellings. Non-trivial: some run had findings.",
      "Exploration by seeded search.", assumptions=_T)
_B = ["Every simulated process is a fresh image of the real program; world content is generated, with the messy features listed in DESIGN.md.",
      "BUILD nesting is bounded (no stack exhaustion); memory is not exhausted; threads can be created."]
check("C07", "bant", "A workspace and several commands; each command is run without a prewarm cache (reference) and then with cache files that are missing, current, stale, foreign, truncated, garbage, unreadable, unwritable, or left by a run killed at a random system call, under random schedules of the 32 workers, with I/O faults on the cache and on prewarmed paths, sometimes several instances at once; output and exit status must equal the reference. Non-trivial: the reference has output and a worker ran.",
      "Exploration by seeded search over schedules, faults and histories.", assumptions=_B)
check("C08", "bant", "Runs with cache files from empty to thousands of entries under random and priority schedules down to single memory accesses, with stalled system calls, spurious wake-ups and early main exits; deadlock, step-bound, happens-before race and heap detectors plus a bound on steps after the main work is done. Non-trivial: at least one item was prewarmed.",
      "Exploration by seeded search over interleavings; races are found by vector clocks on the executed schedules, lifetime errors by a checking heap.", assumptions=_B)
check("C09", "bant", "Histories of runs with varying flags, patterns, directories and torn or lost cache files; the cache file left by a run is compared with the system-call history of that run (each path once, in order), the next run's prewarming with that file. Non-trivial: something was recorded.",
      "Exploration by seeded search.", assumptions=_B)
check("C10", "bant", "Each generated workspace and command is run under several combinations of enumeration order, inode numbering (sequential, random, 0, -1, colliding between devices), missing entry types, read chunking, hash seed and clock; output and exit status must be identical. Non-trivial: the command has output.",
      "Exploration by seeded search over configurations.", assumptions=_B)
check("C11", "bant", "Subsets of BUILD files fail (open, access, fstat, read, midway) while listing and printing; compared with the run on a workspace without these files, and each of them has to be named on the error stream. Non-trivial: a faulted file was attempted.",
      "Exploration by seeded search over fault sets.", assumptions=_B)
check("C12", "bant", "Random read chunking must not change anything; files that cannot be read up to their size (error midway, premature end, growth) must have the same effect as unreadable ones, for all commands. Non-trivial: the faulted file mattered to the output.",
      "Exploration by seeded search over chunkings and faults.", assumptions=_B)
check("C13", "bant", "All commands and formats over workspaces with damaged BUILD files (torn, flipped, spliced tokens), symlink loops, and random faults of every system call, including failing thread creation with a prewarm cache from an earlier run; normal end with a defined exit status within the step bound, no signal, abort or heap error. Non-trivial: always (damage or faults are always present).",
      "Exploration by seeded search over damage and fault sequences; crash, heap and hang detectors.", assumptions=_B)
check("C14", "bant", "Each command is run fault-free (reference) and then with output faults (every, or the n-th write, full disk after a random number of bytes, short writes, error at close) on standard output or -o files; success or findings status only with the complete reference output in place; no failure status without a fault. Non-trivial: the command has output.",
      "Exploration by seeded search over fault positions.", assumptions=_B + ["A standard output that only reports errors at close() by the kernel after exit is not observable by any program."])
check("C15", "bant", "All commands under random faults and hostile prewarm cache files; every modifying system call in the history must concern the -o file or the prewarm cache file in an existing cache directory, and the whole tree outside of these must be unchanged afterwards. Non-trivial: always.",
      "Exploration by seeded search; complete system-call history as oracle.", assumptions=_B)
check("C16", "bant", "A workspace (several providers per header, aliases, outdated copies of sources among the build output) is analysed once without faults (reference) and up to seven times with subsets of sources, headers, BUILD and MODULE files failing in open, access, fstat or read; removals beyond those of the reference are judged by applying the script and comparing with who provides and includes what. Non-trivial: the reference suggests edits and a fault was hit.",
      "Exploration by seeded search over fault subsets and workspaces.", assumptions=_B + ["Directories stay readable (a glob over an unreadable directory is outside the property).", "Headers reach libraries by their path below the project root."])
check("C17", "bant", "Edit scripts are applied by a model of buildozer and the tool run again until nothing is suggested: once with complete rounds, once with up to four interrupted rounds (scripts applied up to a random line, the tool killed at a random system call while writing the script, label canonicalisation in between). Every script is checked (well-formed, refers to existing targets and dependencies, leaves no included header without library, keeps meanings, adds only what the target may use, keeps what is marked to be kept unless -k is given), as are exit status, number of rounds, coverage and absence of superfluous dependencies at the end, and equality of the end results. Non-trivial: some edit was suggested.",
      "Exploration by seeded search over workspaces and interruption histories; trusts the buildozer model.", assumptions=_B + ["Equality of end results only without external projects (what is known about these depends on the dependencies)."])
check("C18", "bant", "Random dependency graphs (cycles, aliases, missing targets and packages, root package, external projects), depth limits and unreadable packages; printed relation, reverse relation and package list compared with breadth-first search over the generated graph, and each BUILD file opened once. Non-trivial: the expected result is not empty.",
      "Exploration by seeded search.", assumptions=_B)
check("C19", "bant", "Random directory trees with symbolic links, mounted devices with coinciding inode numbers, odd names, hostile enumeration, and failing opendir, readdir, stat; listed packages compared with a walk of the tree. Non-trivial: more than one package.",
      "Exploration by seeded search.", assumptions=_B)
check("C20", "bant", "Workspaces from small to hundreds of packages under faults on open, fstat, read, readdir; descriptors held at any time bounded by a constant, none opened for reading left at the end, and runs under a low descriptor limit give the unlimited result. Non-trivial: always.",
      "Exploration by seeded search.", assumptions=_B)
check("C21", "tidy", "A run is interrupted (signal to the linter and everything it started) at a chosen event while analyses execute, sometimes twice, with empty or partly filled cache; analyses begun afterwards, report, summary, exit status are compared with what was complete at that point, and the following run with the model and with what was known. Non-trivial: the interrupt arrived while the linter handled it.",
      "Exploration by seeded search over signal instants, schedules and histories; signals are delivered at system-call and synchronisation boundaries.", assumptions=_T + ["A signal before the first analysis begins may simply end the linter."])
check("C22", "bant", "A command is run in the top directory of a generated workspace (reference), then from other directories (one of them another workspace) with one or several -C options in many spellings and positions, -q/-v, -o, prewarm cache present or not, short reads and writes, slow prewarming; output and status must be the same. With a directory that can't be entered (missing, file, no permission, failing chdir at any of the options): failure status, no output, no file of a workspace opened. Non-trivial: the command has output.",
      "Exploration by seeded search over options, start directories and faults.", assumptions=_B)
check("C23", "tidy", "Runs in which opening or reading (at once or midway, for one, several or all accesses) of a source, header, the configuration or cached results fails, or stat, opendir, readdir fail on the way; success only if the analyser model has no findings, no wrong findings in the details; then the affected file is often cut to what it appeared to be, and a fault-free run must report exactly what the model says. Non-trivial: a fault was hit.",
      "Exploration by seeded search over faults and histories.", assumptions=[_T[0], "The analyser itself can read what the linter can't (the errors are the linter's).", _T[1], _T[2], "With failing stat/opendir/readdir, the linter may end by an uncaught exception (no success is reported then)."])
check("C24", "bant", "Workspaces with libraries in all their variants (globs, prefixes, include directories, label-like file names, gRPC and protocol buffer rules), generated files, aliases, external projects and misleading names; listing commands, abbreviated or not, with random patterns, recursion, formats and hash seeds, hostile enumeration, reads and writes in pieces, and subsets of BUILD files that can't be opened, found or read; the parsed output is compared row by row (printed rules token by token, with -g and -i) with what the generated workspace declares. Non-trivial: the expected listing is not empty.",
      "Exploration by seeded search; executable reference model of all listings.", assumptions=_B + ["include directories and prefixes to strip are relative to the project root (as in the project's tests).", "What a '**' glob finds in sub-packages is not judged."])
check("C25", "bant", "Workspaces with include directories, include prefixes, globs, shared sources, external projects and a .bazelrc; compilation-db and compile-flags with random patterns, -C, -r, -o and hash seeds, hostile enumeration, reads and writes in pieces, and BUILD files or the .bazelrc that can't be opened, found or read; strict JSON reader, entries and flags compared with a model as sets of (resolved) files and directories. Non-trivial: more is expected than the fixed flags.",
      "Exploration by seeded search; executable reference model of files and flags.", assumptions=_B + ["Include directories of targets that are looked at but not needed may be listed.", "What a '**' glob finds in sub-packages or through symbolic links is not judged.", "Command line options in .bazelrc are those without a configuration (build:asan) and outside comments."])
check("C26", "bant", "Workspaces with targets of many names and rules in the main and in external projects, whose dependencies are spelled in all possible ways; canonicalize and depends-on with random patterns and hash seeds, hostile enumeration, reads and writes in pieces, and BUILD files that can't be opened, found or read; edits compared with the documented short form of every label, dependencies with what Bazel takes the label for. Non-trivial: there is a label to be shortened.",
      "Exploration by seeded search; executable reference model of labels.", assumptions=_B + ["Labels in external projects that name their project less than they could (//x in @foo for @foo//x) may be left as they are.", "Dependencies are literal lists (canonicalize does not look at other expressions)."])
NA = {
 "N01": "Pure function of one input text (parse, print): no schedule, clock, I/O fault or history for a simulation to vary.",
 "N02": "Pure function of pattern and label: nothing nondeterministic to simulate (what listing commands select with them is C24).",
 "N03": "Pure function of pattern list and path (the file-system side of globbing is covered by C10 and C19).",
 "N04": "Pure function of file content: nothing nondeterministic to simulate (whole-file use under faults is C12).",
 "N05": "Pure function of table content; delivery of the output under faults is C14, content of the listings C24.",
 "N06": "Single-threaded in-memory data structure without faults or time; a simulator adds nothing over plain testing.",
 "N07": "Pure function of one BUILD text: nothing nondeterministic to simulate.",
}
