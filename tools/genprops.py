#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable).
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
           anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=None))
    P.append(d)

p("C01","Result storage behaves as one atomic map per key, whatever the value size",
"For every storage backend and every interleaving of callers, a load returns exactly the bytes of one completed save of that key (the latest one not concurrent with the load), or not-found after a delete or clear; values of any size are never seen torn, mixed or partly missing, and listings name exactly the saved keys. A save, delete or clear that returns an error leaves every key at its previous complete value or at the new one. Differently prefixed views of one store see, list, delete and clear only their own keys.",
["schedules","fault_sequences","histories"],
"all interleavings of concurrent save/load/delete/list/clear callers over the in-memory, badger and prefixed stores, all value sizes around the split limit, and all failures of the underlying transactions",
"storage_test.go drives each backend from one goroutine with a fixed handful of values and no failing transactions.",
["lens/storage.go"],
[("memStorage mutex and copies","lens/storage.go"),("badger transactions, split marker and parts","lens/storage.go"),("key prefixing","lens/storage.go")],
[dict(name="split marker",meaning="main key value naming the number of parts",where="lens/storage.go")],
["Storage interface results"])

p("C02","Every acknowledged monitor message is recorded exactly once, in order",
"Every state, point or panic message that an instrumented test process sends and gets acknowledged is present exactly once in that run's assembled result, with the field values, stack and time it carried, filed under the function that owns its monitor point; nothing that was not sent appears. The recorded frames of one function follow the order in which each sending goroutine made its calls. Assembling a result always finishes once the test process has exited, whatever messages arrived, including messages for unknown points.",
["schedules","fault_sequences","inputs"],
"all interleavings of client goroutines, server handlers and recorder goroutines, and all message losses, delays, truncations, unknown point ids and client deaths",
"ast_test.go runs real processes with a handful of sequential messages; no test reorders, loses or overlaps messages or checks that nothing is lost or duplicated under concurrency.",
["lens/astexec.go","lens/astsrv.go","lens/astclient.go"],
[("per-function lock taken before the handler acknowledges","lens/astexec.go"),("pending counter awaited before assembly","lens/astexec.go"),("acknowledge after handling","lens/astsrv.go")],
[dict(name="caller frames",meaning="frames recorded per function",where="lens/astexec.go")],
["stored test results of the update analysis","monitor server responses"])

p("C03","Damaged monitor messages are rejected whole and never harm the server",
"A monitor request body is either a complete message, decoded to exactly what the client encoded however the bytes were fragmented in transit, or it is refused with an error status and leaves no trace in any result. No byte sequence makes the server crash, hang, or allocate memory out of proportion to the bytes received, and later valid messages are still accepted. Values encoded by the client always decode on the server, within the configured length and recursion limits, and encoding ends for every value, however its parts refer to each other.",
["inputs","fault_sequences"],
"all fragmentations, truncations, read errors and corruptions of all encodable messages, plus arbitrary bytes",
"astapi_test.go round-trips fixed values through an in-memory buffer; a truncated, corrupted or fragmented body is only sampled by a few cases.",
["lens/astsrv.go","lens/astclient.go","lens/astapi.go"],
[("length checks and full reads in the decoder","lens/astsrv.go"),("400 on decode error before the handler runs","lens/astsrv.go")],
None,["HTTP status and recorded handler calls"])

p("C04","Results never mix runs, tests or servers",
"The result stored for a test contains only what the process executing that test sent during that run: messages of other tests running at the same time, of the earlier run of the same test, or of a process that was killed are never attributed to it. A monitor server is used by at most one test at a time, and each test process reports to the server reserved for it. A stored result does not change after it was assembled.",
["schedules","fault_sequences","histories"],
"all interleavings of concurrently monitored tests sharing a server pool, with process kills, delayed deliveries and repeated runs",
"Existing tests run one monitored test at a time with a cooperative process; none delays a message past the end of a run or overlaps tests on the pool.",
["lens/astexec.go","lens/astsrv.go","lens/astclient.go"],
[("server pool channel","lens/astexec.go"),("point handler swap per run","lens/astsrv.go"),("port passed through the environment","lens/astclient.go")],
None,["stored test results"])

p("C05","Undoing instrumentation returns every source file byte for byte",
"After instrumentation has been injected into any set of files by any number of concurrent callers, and whether or not injecting or committing failed part-way, restoring leaves every source file with its original bytes and no backup, generated or temporary file behind. If a disk error prevents that, restore reports an error, the original bytes are still on disk next to the file, and every other file is restored all the same. At every instant an original is on disk either in place or as a complete copy, so a crash at any point loses no source.",
["schedules","fault_sequences","crash_points"],
"all interleavings of concurrent injections and commits, all single and repeated disk faults at every file operation, all crash points",
"asttweak_test.go injects into single files sequentially with a disk that never fails, and does not look at crash states.",
["lens/asttweak.go","lens/file.go"],
[("backup before first write","lens/asttweak.go"),("cleanup actions run by Restore","lens/asttweak.go"),("replaceFile","lens/file.go")],
None,["directory contents before and after"])

p("C06","Update analysis leaves the project and its modules as it found them",
"Whatever happens during an update analysis - a failing toolchain command, failing or killed tests, disk or storage errors, a failing extension - once it returns, project sources, module sources, go.mod and go.sum have their original content, no backup or generated file remains, and every monitor server it started has stopped. When a fault makes the restoration itself impossible, the original content still exists on disk beside the file, and everything that fault does not concern is restored all the same.",
["fault_sequences","schedules"],
"all failure points of every external command, file operation, storage call and server start during an analysis, under all schedules",
"The end-to-end tests exercise only the success path and need a real toolchain; no test fails a step in the middle.",
["lens/astexec.go","lens/asttweak.go","lens/file.go"],
[("deferred restore of go.mod and go.sum","lens/astexec.go"),("deferred AST restore","lens/astexec.go"),("deferred server stop","lens/astexec.go")],
None,["project tree before and after","listening servers"])

p("C07","Monitor points have unique ids and the same meaning under every schedule",
"Every monitor point injected in one session has its own non-zero id, each id occurs at exactly one place in the instrumented sources, and the owner recorded for an id is the function whose body contains it. Up to the numbering, the instrumented source of each file is the same for every interleaving of the concurrent injectors, and injecting a valid project never fails because of timing.",
["schedules","inputs"],
"all interleavings of concurrent injectors over projects with several files per package and several packages",
"Tests inject into one file from one goroutine, so id allocation and reading a package while a sibling file is being rewritten are never contended.",
["lens/asttweak.go","lens/astexec.go"],
[("atomic id counter","lens/asttweak.go"),("per-file lock","lens/asttweak.go"),("concurrent injection","lens/astexec.go")],
None,["instrumented sources","owner maps via attributed results"])

p("C08","A failed stage fails the run: no success report, full cleanup",
"If any stage of a run fails - preparing, copying, module analysis, caller analysis, test discovery, opening storage, monitored execution, mutation testing, comparison or report writing - the run returns an error that carries that failure, and when a stage before report writing failed no report is written. A run that succeeds reports exactly what its stages produced. On every path, success or failure, each stage that completed is cleaned up exactly once, opened storage is closed exactly once and only after the last use, and the temporary copy is removed. In temporary-copy mode the user's project, GOPATH and module cache are never modified and every stage is given the copy's project, GOPATH and module cache directories, which hold what the user's held.",
["fault_sequences","configurations"],
"all choices of failing stage, early-exit conditions and disk faults, in both in-place and temporary-copy mode",
"engine_test.go uses mocks with one failing stage at a time and checks only that an error comes back.",
["lens/engine.go","lens/file.go"],
[("deferred Cleanup per stage","lens/engine.go"),("deferred storage close","lens/engine.go"),("temporary environment","lens/engine.go")],
None,["returned error","provider call log","file tree"])

p("C09","Tree copy and permission walks are complete, or report an error",
"A directory copy that returns success has reproduced every file's bytes, every symbolic link and every directory of the source, also when the source is reached through a link; links that stay inside the tree are links in the copy, and no link of the copy leads to a file outside it (a link to a file elsewhere becomes a copy of that file, a link to a place inside the copied tree leads into the copy); a permission walk that returns success has made every entry writable, and every directory one that can be entered, for everyone. If any file operation fails, an error is returned, and a cancelled copy either is complete or returns an error. When either returns, success or not, it has stopped touching the disk, and the source is never modified.",
["schedules","fault_sequences"],
"all interleavings of the concurrent copy workers with the tree walk, all disk faults and cancellation at any point",
"file_test.go copies small trees once on a healthy disk; a fault while workers are still running is never exercised.",
["lens/file.go"],
[("errgroup workers with context","lens/file.go"),("sync and close errors returned","lens/file.go")],
None,["destination tree","file operations after return"])

p("C10","Verdicts depend only on what the code under test did, not on timing",
"Every return and every panic of a monitored function is reported, with its results and the variables in scope. For a deterministic program under test, every stable field whose value changes with the update is counted and reported as changed, and every stable field that keeps its value is counted as unchanged, under every scheduling of the analysis and of the test processes, so repeating the analysis gives the same verdict. A field that already differs between two runs of the old version is never reported. Added or removed panics, test regressions, and module functions reached are reported exactly as they occurred, and totals equal the sums over tests.",
["schedules","inputs","histories"],
"all schedules of tests, messages and recorder goroutines and all generated programs with stable, unstable and changed fields, panics, repeated calls and several call sites",
"astexec_test.go checks the stability filter and comparison on hand-written results; the whole path from message to verdict is never run under varied schedules.",
["lens/astexec.go","lens/engine.go","lens/types.go","lens/astclient.go"],
[("double run and stable-field intersection","lens/astexec.go"),("frame matching by project stack and occurrence","lens/astexec.go"),("CompareTestResults","lens/engine.go"),("result encoding","lens/types.go")],
None,["comparison counts and reports"])

p("C11","Mutation testing restores sources and reports the tool's own numbers",
"A mutation run returns exactly the total printed by the mutation tool and the number of mutants it counts as passed (those the tests detected); if the tool fails, is missing or prints no summary, or the sources cannot be prepared or restored, an error and no counts are returned. Only files with changed functions are handed to the tool and only names of changed functions are selected; in line-scoped mode exactly the body lines not affected by the change are excluded, whatever comments or layout the source has, and the source is otherwise the same program. For each mutant the generated script runs the tests that reach the mutated file (or all tests), tells the tool whether they noticed, and puts the original back. When the run returns, module sources have their original bytes, the script and the tool's report are gone, and nothing touches them any more.",
["fault_sequences","schedules","inputs"],
"all failure points of file operations, toolchain and tool execution, all outputs of the tool, and all interleavings of the concurrent line editing",
"No existing test reaches this file: it needs an external tool.",
["lens/mutation.go","lens/asttweak.go"],
[("directive insertion with deferred restore","lens/mutation.go"),("summary parsing","lens/mutation.go"),("script removal","lens/mutation.go")],
None,["result and error","module tree","temporary directory","tool arguments"])

p("C12","Captured command output is bounded, complete and keeps the newest bytes",
"However a command's output is fragmented and interleaved, a bounded capture never exceeds its limit after a write, always ends with the newest output, and keeps all of it while it fits; a write always reports the full length so that the command is never blocked or failed by the capture. A shared capture written by two streams contains every write whole, in each stream's order. Duplicated output reaches every sink byte for byte, and every sink that fails, on a write or when closed, is reported without starving the others.",
["inputs","schedules","fault_sequences"],
"all fragmentations and interleavings of writes, all limits, and all sink faults",
"util_io_test.go writes a few fixed strings from one goroutine.",
["lens/util_io.go","lens/exec.go"],
[("rolling trim","lens/util_io.go"),("locked buffer","lens/util_io.go"),("tee writer","lens/util_io.go")],
None,["buffer contents after every write"])

p("C13","Concurrency limits hold and waiting always finishes",
"At most the configured number of activities are ever between take and release of a limiting wait group, join returns only after every activity has released, and it always returns once they have. Two holders of the same key of a striped lock never overlap and the key always maps to the same lock, while waiting on a key always ends once its holder releases.",
["schedules"],
"all interleavings of takers, releasers, joiners and lockers for all limits and key sets",
"util_test.go samples a few real schedules with sleeps.",
["lens/util.go"],
[("token channel","lens/util.go"),("hash-selected mutex","lens/util.go")],
None,["overlap of critical sections"])

p("C14","Monitor servers start usable or fail, and stop within their deadline",
"Starting a monitor server either returns an error (for instance when the port is taken) or a server that already accepts messages. Waiting for a process stops the server promptly after that process exits or at the timeout, whichever comes first, reporting the timeout as an error, and never before. Neither a process that outlives the timeout nor requests still in flight extend the wait beyond a bounded time or leave the server running. Stopping is graceful: requests still in flight when the wait ends are given a bounded time of their own to finish (20 s, whatever is left of the timeout), so those that finish within a few seconds are neither cut off nor reported as an error.",
["schedules","fault_sequences"],
"all process lifetimes, timeouts, in-flight requests, failing ports and interleavings",
"ast_test.go waits for one real short-lived process; timeouts, late exits, port conflicts and stuck requests are not reached.",
["lens/astsrv.go"],
[("ticker poll with deadline","lens/astsrv.go"),("graceful shutdown with timeout","lens/astsrv.go"),("start error hand-over","lens/astsrv.go")],
None,["virtual time of return","server accepting connections"])

p("C15","A report that is written is complete, and a failed write is an error",
"When report writing returns success, the JSON report on disk is complete and its counts, per-test details, performance changes and module figures equal the results it was given, in an order that does not depend on chance (the same results give the same report and the same chart), and a requested chart file is a complete image that shows the same percentages and, worst first, the tests that regressed or changed. If any file operation fails, an error is returned.",
["fault_sequences","inputs"],
"all result sets and all write failures, short writes and close failures of both report files",
"report_test.go only checks that a chart renders from one fixed report; no write failure is tested.",
["lens/report.go","lens/engine.go"],
[("WriteToFile","lens/report.go"),("PrepareReportData","lens/report.go"),("chart writer","lens/report.go")],
None,["files on disk","returned error"])

p("C16","Storage and extension faults surface as analysis errors, never as silence",
"If saving or loading a test result fails, or an extension hook fails, the analysis returns an error that carries the failure; it never returns success with a test missing, or with a result that differs from what was recorded. What comparison reads for a test is exactly what monitoring assembled for it, including repeated stacks, nested fields, panics and extension frames.",
["fault_sequences","inputs","histories"],
"all positions and kinds of storage and extension faults and all recorded results",
"types_test.go round-trips fixed results; no test makes storage fail during an analysis.",
["lens/astexec.go","lens/types.go","lens/engine.go"],
[("error wrapping around SaveState and LoadState","lens/astexec.go"),("deduplicating result encoding","lens/types.go")],
None,["returned error","stored keys","decoded results"])

p("C17","Static reachability finds every caller and test of a changed function",
"Every project function from which a changed module function can be reached in the call graph is listed once, at its place in the sources, with exactly the changes it reaches; every test that reaches a listed function is listed once with exactly the functions it reaches; functions and tests that cannot reach a change are not listed, and a change is called reachable only when the project reaches it. This does not depend on how the concurrent traversals interleave or on chance. A project that cannot be loaded or does not type-check, a source that cannot be read, or a failing extension hook gives an error that carries the failure, never a shorter list.",
["programs","schedules","fault_sequences"],
"all Go projects and module changes, all interleavings of the traversals and all load failures",
"static_test.go covers a few fixture projects under whatever schedule the run happens to have; no test makes loading or a hook fail.",
["lens/static.go","lens/engine.go"],
[("concurrent reverse reachability over the call graph","lens/static.go"),("edges handed to extensions","lens/static.go"),("test discovery","lens/static.go")],
None,["listed callers and tests with their changes","reachable changes","returned error"])
p("C18","Module update analysis finds exactly the updated modules and changed functions",
"Updated modules are those required by both the old and the new module files (go.mod, or the modules of a go.work workspace) at different versions, with these versions and the indirect flag of the new file. For an updated module, the changed functions are exactly those present in both versions whose text without comments differs, each with its old text, its place in the old sources and the old lines that changed; with transitive analysis on, so are the dependencies whose requirement the update changes and that the project also requires, from the version the project has; every module is analysed once and the version required more directly is preferred. The result does not depend on load timing or on chance, and a version that is missing, cannot be loaded or cannot be read gives an error that carries the failure.",
["inputs","schedules","fault_sequences"],
"all module files, all pairs of module versions, all load timings, and all load and read failures",
"module_test.go covers fixed files and two fixed versions, with no failing or slow loads.",
["lens/module.go","lens/engine.go"],
[("go.mod and go.work diffing","lens/module.go"),("concurrent load of both versions","lens/module.go"),("levels of transitive analysis","lens/module.go")],
None,["list of updated modules","changed functions by module","returned error"])
p("C19","Monitoring does not change what the tests do",
"The instrumented sources still compile, and an instrumented test process makes the same calls with the same arguments, results and panics, and passes, fails or crashes just as the original sources do with the same module version - whatever happens to its monitor messages: delayed, lost, cut short, answered too late, or no server to be reached at all. A message holds the program up no longer than the client's own time limits.",
["schedules","fault_sequences","inputs"],
"all schedules, all delivery faults and all generated programs (branches, loops, labels, select, closures, recursion, defer and recover, named results, methods, goroutines, conditions that call, nested function literals), with points at returns, entries, panics and before the calls an extension picks",
"asttweak_test.go compares instrumented text with expected text and never runs it; no test runs an instrumented program against a failing server.",
["lens/asttweak.go","lens/astclient.go"],
[("return, entry and panic points","lens/asttweak.go"),("postLensMonitorMessage and sendLensError","lens/astclient.go"),("client time limit","lens/astclient.go")],
None,["calls, results and outcome of the test processes"])
# pure, sequential: not decided by simulation
p("C20","Instrumentation of any Go construct compiles",
"For every valid Go source file the instrumented source is accepted by the compiler.",
["programs"],"all Go source files",
"asttweak_test.go compares fixed inputs with expected source text.",["lens/asttweak.go"],[("AST rewriting","lens/asttweak.go")])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
print(len(P))
