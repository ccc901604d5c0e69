prop("C04", "Concurrent store operations on a key behave as if done one at a time",
     "For every interleaving of saves, loads, deletes and listings by concurrent callers on any store, the answers and the final contents are those of some one-at-a-time order of the same calls that respects which call ended before another began. In particular a load never returns a mixture of two saved values, a failure, or a missing part because another caller replaced the value meanwhile; the only permitted refusal is a reported write conflict, which changes nothing. No call deadlocks or touches shared memory without synchronisation.",
     ["schedules", "histories"], "all thread schedules up to a preemption bound of all small concurrent programs over one or two keys, small and split values, on every back end",
     "The tests call the stores from one goroutine; a torn read of a split value needs a save between two particular statements of a load.",
     ["lens/storage.go"],
     [("one snapshot per load, one transaction per save and delete", "lens/storage.go badgerStorage"), ("mutex around the map", "lens/storage.go memStorage")],
     observe=["call/return histories of the Storage interface"])

prop("C08", "Stored test results load back unchanged and stored damage is an error",
     "For every test result, encoding it and decoding the encoding gives back the same test function, frames with their times, stacks and field trees (per function and per extension point), panics, counts and failure flag, however often values, groups of values or stacks repeat in it. Two different field trees or stacks are never confused with each other. Decoding a damaged or cut-off encoding returns an error or some well-formed result, and never panics, recurses without end or hangs.",
     ["inputs", "fault_sequences"], "all results built from all small field trees in all placements, all pairs of trees, every cut and one-byte change of an encoding",
     "Tests round-trip a few results; confusion needs two trees whose identities collide, or a dictionary entry nested inside another.",
     ["lens/types.go", "lens/util.go", "lens/compress.go"],
     [("dictionary encoding of repeated maps, nodes and stacks", "lens/types.go marshalMsgpack"), ("identity of field trees", "lens/types.go FieldValues.ID, FieldValue.ID")],
     observe=["MarshalMsgpack/UnmarshalMsgpack"])

prop("C11", "The monitor records every message once, intact, in order, under any schedule",
     "For every interleaving of concurrently delivered monitor messages, each state message of a known point is recorded exactly once, under the right function, with exactly the received fields, stack and time, and in the order in which messages of one function were accepted; panics and reached points are recorded exactly once under the right function and kind. Messages with unknown ids change nothing. Once all messages were delivered the test's result is always produced, complete, without deadlock or data race.",
     ["schedules", "histories", "inputs"], "all thread schedules up to a preemption bound of all small concurrent message programs, and all message histories to a depth, with and without a selection of stable fields",
     "Tests deliver messages one after the other; lost or reordered frames and missing wake-ups need particular interleavings.",
     ["lens/astexec.go", "lens/util.go"],
     [("per-function lock handed to the recording goroutine", "lens/astexec.go HandleFuncPointState"), ("wait group before the result is built", "lens/astexec.go makeTestResult")],
     observe=["recorded frames, panics and counts", "result production"])

prop("C09", "A value counts as stable exactly when both baseline runs saw it equal",
     "From two runs of a test before the update, exactly those values are kept that both runs captured with the same value at the same field path of the same (k-th) call of the same function through the same project call path; line numbers and, for project functions, module frames do not matter, calls are ordered by their times. Panics are kept as often as both runs had them and a failure in either run is kept. After the update a change of a value is reported exactly when the value was stable and its counterpart differs, so a value that varies between identical runs is never reported and a stable value that changed always is.",
     ["inputs", "histories"], "all pairs of small field trees, call sequences, panic lists, and all small three-run programs through the whole pipeline",
     "Tests compare a few fixed results; a wrong pairing of repeated calls or a leaf mistaken for a group needs specific run pairs.",
     ["lens/astexec.go", "lens/engine.go"],
     [("pairing of calls by project stack and occurrence", "lens/astexec.go testResultStableFields"), ("filter of the run after the update", "lens/astexec.go HandleFuncPointState"), ("field intersection", "lens/astexec.go stableFieldValues")],
     observe=["kept results", "reported changes"])

prop("C10", "The comparison reports every difference and nothing else",
     "For every pair of stored results, the number of same and different values, the reported field changes (per test, function and field, with a text that shows the differing values), the added and removed panics, the regressions and the totals are exactly those that follow from pairing the k-th calls of a function through the same project call path; identical results give no difference. Tests known on only one side produce no entry. A time change is reported for a function exactly when some paired call interval changed by more than the multiplier, and it is the largest one.",
     ["inputs", "histories"], "all pairs of results made of small call sequences, field sets, panic lists, sets of tests with failure flags, and call times, for several multipliers",
     "Tests compare a handful of results; counts go wrong only for specific combinations of repeated calls, missing calls and time orders.",
     ["lens/engine.go", "lens/types.go"],
     [("pairing and counting", "lens/engine.go CompareTestResults"), ("value explanation", "lens/engine.go DiffValues"), ("flattening", "lens/types.go FlattenFieldValues")],
     observe=["CompareTestResults and DiffValues answers"])


prop("C05", "Restore always brings back the exact original source tree",
     "For every sequence of client injections, point injections, line insertions and commits on any files, and whichever of them fail because a file is missing, cannot be parsed or cannot be written completely, Restore afterwards leaves every file with its original content, mode, type and link target and leaves no additional file behind. It reports success, a second Restore changes nothing, and the same modifier can instrument and restore again. A failing write never destroys the original and files that already exist (such as one with the backup's name) are not touched.",
     ["histories", "fault_sequences", "inputs"], "all operation sequences to a depth, all write limits and missing-file faults around every operation, on a tree with links, modes and name clashes",
     "Tests restore after a few fixed edits; losing a file needs a particular order of commit, line insertion and restore, or a write that fails midway.",
     ["lens/asttweak.go", "lens/file.go"],
     [("backup before the first modification", "lens/asttweak.go backupOrigFile"), ("clean-up list", "lens/asttweak.go Restore, addCleanupAction"), ("line insertion", "lens/asttweak.go InsertFuncLines")],
     observe=["file tree after Restore"])

prop("C06", "Instrumented code compiles and behaves as the original",
     "For every function, the source after injecting return-state, panic, entry and finish points compiles, and for every input the function returns the same results, performs the same side effects in the same order the same number of times, and panics with the same value as the original. Expressions of return statements are evaluated exactly once. Other declarations and comments of the file keep their meaning, and no points are injected into a function a second time.",
     ["inputs"], "all functions built from every result list, returned expression, statement form (nested), local declaration and shadowed name of a bounded grammar, on fixed inputs, with and without type information",
     "Tests compare the produced text for a few functions; a broken rewrite needs a particular combination of statement form, result types and names in scope.",
     ["lens/asttweak.go"],
     [("rewriting of returns", "lens/asttweak.go InjectFuncPointReturnStates, buildReturnInstrumentation"), ("recover and re-panic", "lens/asttweak.go InjectFuncPointPanic")],
     observe=["compilation", "results, side effects and panics of original and instrumented program"])

prop("C07", "Every return and panic is reported once with the true values",
     "For every function and every execution of the instrumented code, each return taken sends exactly one state message, with an id belonging to that function and place, that carries the values returned and the parameters, named results and local variables in scope (not the receiver) with the values they have at that moment under their names; a function that ends without a return statement reports as well. A panic that leaves the function is reported once under the panic id of the function. Ids are unique and messages arrive in execution order.",
     ["inputs", "histories"], "all functions of a bounded grammar of statement forms, result lists and declarations, executed on fixed inputs",
     "Tests look for expected text in the instrumented source of a few functions; a return that is skipped or a stale value shows only for specific nestings.",
     ["lens/asttweak.go", "lens/astapi.go"],
     [("which returns are rewritten", "lens/asttweak.go InjectFuncPointReturnStates"), ("which variables are visible", "lens/asttweak.go visibleDeclsBefore")],
     observe=["messages sent by the instrumented program"])


prop("C13", "Module version changes are read exactly from go.mod and go.work files",
     "For every pair of go.mod files, and every pair of workspaces, the reported module changes are exactly the modules whose required version differs between both sides, with the true prior and new version and whether the requirement is indirect, each once and in an order that does not vary between calls; a module's version in a workspace is found in whichever member requires it. The modules to analyse follow exactly from what was asked for (named modules, old and new module file, transitive or not, scope). Members, module files and package patterns of a workspace are found however go.work is written, go versions are ordered as their releases are, exactly the changed functions of modules whose go version is too old for instrumentation are left out, and a module version's directory in the module cache is found for every legal path and version.",
     ["inputs", "configurations"], "all pairs of small go.mod files, all small workspaces, all ways of asking for an update, all pairs of go versions, all kinds of module paths",
     "Tests use a few module files; a lost or swapped version needs a particular combination of members, indirect requirements or letter case.",
     ["lens/module.go", "lens/engine.go"],
     [("difference of module files", "lens/module.go DiffModulesFromGoModFiles, DiffModulesFromGoWorkFiles"), ("requested modules", "lens/engine.go parseInitialModules"), ("workspace parsing", "lens/module.go parseGoWork, ProjectGoModFiles"), ("go version order", "lens/module.go compareGoVersions")],
     observe=["module changes", "member directories, patterns and versions"])

prop("C14", "Exactly the callers and tests that can reach a changed function are found",
     "For every project, each project function from which a changed module function can be reached through calls is listed as a caller, once, with all the changed functions it reaches, its real file and lines; each test function from which such a caller can be reached is listed with all callers it reaches, and functions and tests that cannot reach one are not listed. This holds however the calls are made: directly, through methods, interfaces, closures, function values, goroutines, deferred calls, generics or functions of the module that call back. Only functions the go command runs as tests count as tests.",
     ["inputs"], "all call graphs of a few functions and changed functions rendered as projects, all graphs with main and init functions, all ways of calling and their ordered pairs, all test-like function names, workspaces",
     "Tests analyse a few fixed projects; a missing caller needs a particular cycle, entry function or form of call.",
     ["lens/static.go"],
     [("reverse reachability", "lens/static.go reverseDFS, CallerStaticAnalysis"), ("call graph", "lens/static.go LoadProjectCallGraph"), ("test detection", "lens/static.go isGoTestFunction")],
     observe=["callers, reachable changes, tests and their targets"])

prop("C12", "Changed functions between module versions are found exactly",
     "For every pair of versions of a module, the changed functions are exactly those that exist in both versions, in whatever file, with a different signature or body; changes of formatting or comments outside of functions, of file order or of other functions do not matter. Each is reported once with the old version's text, package, file and module versions, the lowest go version of both, and line marks that are exactly the old lines that changed, widened by the requested radius. With transitive analysis the same holds for each dependency whose required version changed and that the project uses at another version, the version found closest counting, with the same answer on every call.",
     ["inputs", "configurations"], "all pairs of small module versions over every kind of declaration, all requirement graphs of three and four modules, all pairs of short texts for the line marks",
     "Tests compare a few module pairs; a missed or doubled function needs a particular kind of receiver, move or dependency graph.",
     ["lens/module.go"],
     [("comparison of functions", "lens/module.go analyzeModuleChangesInternal, aggregateFunctions"), ("line marks", "lens/module.go computeChangeLineBitmap"), ("transitive levels", "lens/module.go AnalyzeModuleChanges")],
     observe=["changed functions, their module and line marks", "packages of the new version"])

prop("C15", "An analysis run does each stage once, reports it, and cleans up",
     "For every configuration and every combination of stage outcomes, a run performs the stages in order, each once, with exactly the outcome of the previous ones, stops at the first stage that fails with an error that names the failure, and writes exactly one report with the true figures whenever it ends without an error after changed modules were found. Every stage that was started is cleaned up once, in reverse order, and opened stores are closed. With the temporary copy option, the stages see complete copies of project, GOPATH and module cache, nothing is written to the originals, and no copy is left behind however the run ends.",
     ["fault_sequences", "configurations", "histories"], "all outcomes of all stages for all settings and directory layouts",
     "Tests run the engine with a few stand-ins that succeed; a leaked copy or a skipped clean-up needs a failure at a particular stage.",
     ["lens/engine.go", "lens/file.go"],
     [("stage sequence", "lens/engine.go AnalysisEngine.Run"), ("temporary copy", "lens/engine.go setupTempEnvironment, lens/file.go CopyDir")],
     observe=["calls of the providers", "report arguments", "file trees"])

prop("C16", "After an update run the project's module files are as before",
     "However the module update run ends (success, any command failing before or after it changed files, a store or hook failing, a port being taken, a source missing), every file of the project and the module cache, including go.mod, go.sum, go.work and go.work.sum, has its original content, mode and link, no file is added or lost, and existing files with backup names keep their content. The baseline is measured before, and the other results after, every module of the project was updated to exactly the requested versions. The failure of a step is returned as an error.",
     ["fault_sequences", "histories", "configurations"], "every fault point of the update protocol in single modules and workspaces, with all special arrangements of the module files",
     "Tests run one successful update; a file that is not restored needs a command to fail between two particular steps.",
     ["lens/astexec.go", "lens/file.go", "lens/asttweak.go"],
     [("backup and restore around the update", "lens/astexec.go RunModuleUpdateAnalysis"), ("instrumentation around the runs", "lens/astexec.go runMonitoredTestAnalysis")],
     observe=["file trees", "sequence of go commands", "answer"])

prop("C17", "The report states exactly what was found, the same way every time",
     "For every set of findings, the report file lists each changed module, reachable changed function, calling function and test once, in order, with counts equal to the lists, the true figures, per-test outcomes, field changes and time changes, and a test counts as a regression exactly when it passed before and fails after the update. The chart shows the true percentages and exactly the tests that regress or have differences, the riskiest first. The same findings in any order give the same report, and files that were not asked for are not written.",
     ["inputs", "configurations"], "all small sets of callers, tests, outcomes, modules, counts and output files, in different orders",
     "No test reads a produced report; a wrong count or an order that varies needs particular combinations.",
     ["lens/report.go", "lens/engine.go"],
     [("lists and per-test details", "lens/report.go PrepareReportData"), ("figures", "lens/report.go BuildReportMap"), ("charts", "lens/report.go renderChartsToPainter, writeReportCharts")],
     observe=["report JSON", "chart texts"])

prop("C18", "A configuration is accepted exactly when a run can use it",
     "For every combination of settings, preparing a configuration succeeds exactly when a project and an update are named, every module specification is complete, every named file is usable, every number and choice is in its documented range and the requested report files can be written; otherwise an error is returned before any work is done. Preparing changes no existing file and leaves no file behind, names exactly the requested modules in order, and a rejected configuration can be corrected and used. The command line leads to exactly the settings given and the documented defaults.",
     ["configurations", "inputs", "histories"], "all configurations with up to two (three) unusual settings, all ways to name an update, all pairs of command line flags",
     "Tests try single bad values; a setting that is only checked when another is absent needs pairs.",
     ["lens/engine.go", "lens/cmd/flags.go"],
     [("validation", "lens/engine.go Config.Prepare"), ("flags", "lens/cmd/flags.go ParseFlags")],
     observe=["acceptance", "prepared configuration", "file tree"])

prop("C19", "Mutation testing mutates exactly the changed code and undoes everything",
     "For every set of changed functions and tests, mutations are asked for exactly in the files and functions that changed, with line scope exactly on the changed lines, and each mutant is tested by exactly the tests that reach a changed function of its file (or by all tests when asked). A mutant counts as detected exactly when its tests fail, as escaped when they pass, and as skipped when it cannot be built or has no tests; the reported totals are those of the tool, and a failing or unreadable tool run is an error. However the run ends, every file of the project and module cache is as before and no file is left behind.",
     ["inputs", "configurations", "fault_sequences"], "all combinations of changed functions, line marks, assignments of tests, options, test and tool outcomes",
     "Mutation testing has no tests, as the tool is not part of the repository.",
     ["lens/mutation.go", "lens/asttweak.go"],
     [("selection of files, functions and lines", "lens/mutation.go RunMutationTesting"), ("script run for each mutant", "lens/mutation.go buildExecSelectTestsScript, buildExecAllTestsScript")],
     observe=["arguments of the tool", "files during and after the run", "test runs and exit codes per mutant"])

prop("C20", "Commands run exactly as asked and nothing of their output is lost",
     "Every command that is started runs in the requested directory with exactly the environment of the caller, without LD_* entries, in which each requested entry replaces the one of the same name; neither the caller's environment nor its list is changed. The command for a test runs exactly the named test of its package, once, uncached, subtests one at a time, under a time limit, and reports failure exactly when the process did not end with success. Captured output is complete and passed on unchanged, every sink of a duplicated stream gets every byte and any sink's error is reported, and a limited buffer keeps everything that fits and otherwise the most recent part, marked as cut.",
     ["inputs", "histories"], "all combinations of ambient and requested environment entries for every way to start a command, all small output sequences and endings, all write histories of small depth over all kinds of sinks",
     "Tests merge a few environments and look at the prepared command; what a process really receives, or which part of a long output survives, is never checked.",
     ["lens/exec.go", "lens/util_io.go"],
     [("merged environment", "lens/exec.go mergeSafeEnv, NewProjectExec"), ("test command", "lens/exec.go ExecGoTest"), ("output sinks", "lens/util_io.go TeeWriter, limitedRollingBuffer, lockedBuffer")],
     observe=["environment, directory and arguments of started processes", "captured output"])

prop("C21", "Copies and walks are complete or fail, under every schedule",
     "For every source tree, every interleaving of the copying goroutines and every fault, copying a directory either returns an error or leaves an exact copy of all files, directories and links; progress is reported once per entry, the source is unchanged, and nothing happens after the return. A walk calls its handler exactly once per entry and returns an error if a handler failed. Adding write permission changes exactly the missing bits and nothing outside the tree, a file is replaced completely or both stay as they are, containment in a directory is decided by whole path components, at most the given number of activities runs at once and Join waits for all, and keyed locks exclude each other per key.",
     ["schedules", "fault_sequences", "inputs"], "all interleavings up to a preemption bound on small trees with each fault at each place, all small paths, all permission bits, all kinds of source and destination",
     "Tests copy one tree without faults; an error that is lost, or work that goes on after the return, needs a particular interleaving.",
     ["lens/file.go", "lens/util.go", "lens/util_io.go"],
     [("copy and walk", "lens/file.go CopyDir, concurrentWalk, WriteChmod"), ("paths and files", "lens/file.go fileWithinDir, replaceFile, CopyFile"), ("limit and locks", "lens/util.go LimitingWaitGroup, stripedMutex")],
     observe=["file trees at and after the return, errors, progress calls", "concurrent activities"])

prop("C22", "A whole run reports exactly what the update changes for each test",
     "For every project, update and way to ask for it, a run names exactly the changed module functions that the project reaches and exactly the project functions and tests that lead to them. Per test it reports whether the test failed before, whether it fails only after the update (also because its package does not compile any more), how many changed functions it reached, and, for every project function on the way to the module, exactly the variables and results whose value differs, with the old and the new value; values that differ between runs without any update are left out, and changes without effect are not reported. The result does not depend on whether the run works on a copy or in place, on one module or a workspace, or on how the update is named. Afterwards the project and the module cache are as before and nothing is left in the temporary directory.",
     ["inputs", "configurations"], "all combinations of a kind of change of a module function and a way in which the project uses it, in all ways to ask for the update",
     "Tests call single stages with prepared inputs; whether the stages fit together, for a change and a use at once, shows only in whole runs.",
     ["lens/engine.go", "lens/module.go", "lens/static.go", "lens/asttweak.go", "lens/astexec.go", "lens/report.go"],
     [("stages of a run", "lens/engine.go AnalysisEngine.Run"), ("comparison", "lens/engine.go"), ("report", "lens/report.go")],
     observe=["report of the command", "file trees before and after"])
