#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text is reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state:
        d['anchors']['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(d)

prop("C01", "A task starts only after all of its dependencies have succeeded",
 "The command of a task is started, locally or on a remote runner, only after every task it depends on (directly or transitively) has finished with exit status 0, either earlier in this execute call, in an earlier execute call on the same graph, or in an earlier session according to the log. No race between runners finishing, failing, disconnecting or being cancelled makes a task start early.",
 ["schedules", "inputs", "fault_sequences", "histories"],
 "all task graphs, targets, numbers of local slots and remote runners, all interleavings of completions, and all histories of sessions and execute calls on one graph",
 "test_inorder/test_order sample a few fixed graphs on whatever interleaving the OS gives; none combines racing parents, failures, remote runners or repeated execute calls",
 ["src/sync.rs", "src/execgraph.rs"],
 [("unmet-dependency countdown and poisoning", "src/sync.rs _finished_bookkeeping_2"), ("subgraph filtering keeps edges to unfinished parents", "src/execgraph.rs get_subgraph")],
 ["process creation of task commands", "exit of task commands", "log entries"],
 [("n_unmet_deps", "dependencies not yet successful", "src/sync.rs TaskStatus")])

prop("C02", "Each task is started at most once per execute call",
 "In one execute call a task's command is started at most once, even when the task is eligible for several queues and many local slots and remote runners race for it. A task that already succeeded, in this session or according to the log, is never started again.",
 ["schedules", "inputs", "fault_sequences", "histories"],
 "all interleavings of local slots and remote runners competing for tasks with one or several affinity bits, including runner loss and retries of the HTTP exchange",
 "tests start tasks with a single queue and rely on the OS scheduler; two receivers popping two tombstoned copies of the same task at the same moment is never forced",
 ["src/sync.rs", "src/server.rs", "src/localrunner.rs", "src/execgraph.rs"],
 [("taken flag shared by the copies of a task in all queues", "src/sync.rs ReadyTrackerClient::recv"), ("transaction per handed-out task", "src/server.rs start_request_impl"), ("completed/has_success filter", "src/execgraph.rs get_subgraph")],
 ["process creation of task commands", "/start and /end responses"],
 [("taken", "task already claimed from some queue", "src/sync.rs TaskItem")])

prop("C03", "A failure stops everything downstream of it and nothing else",
 "When a task fails (non-zero exit, killed by a signal, command cannot be started, runner lost), no task depending on it, directly or transitively, is started in that session; later execute calls on the same graph object respect this too and do not retry the failed task themselves. Tasks that do not depend on a failed task still all run, as long as the failure limit is not reached and no shutdown is requested.",
 ["schedules", "inputs", "fault_sequences", "histories"],
 "all graphs, failing subsets, failure kinds, interleavings, targets, and sequences of execute calls",
 "tests check a few fixed graphs with one failing shell command and a single execute call",
 ["src/sync.rs", "src/execgraph.rs"],
 [("poisoning of downstream tasks", "src/sync.rs _finished_bookkeeping_2"), ("removal of previously failed tasks and their descendants", "src/execgraph.rs get_subgraph")],
 ["process creation of task commands", "log entries", "return value of execute"],
 [("poisoned", "an upstream task failed", "src/sync.rs TaskStatus")])

prop("C04", "execute runs exactly the requested work and always returns",
 "execute(target) runs every not-yet-successful task in the target's dependency closure (every task when no target is given) whose dependencies succeed and for which a runner exists, runs nothing outside that closure, and does not return before those tasks have finished. A task that already failed in an earlier call on the same graph object, or below such a task, is not run again. Once the started commands have ended, execute returns within bounded time: no schedule, completion order, task output size or input-descriptor behaviour of a command makes it hang.",
 ["schedules", "inputs", "fault_sequences"],
 "all graphs, targets, interleavings, commands that close or ignore their input descriptor, large inputs/outputs, transient fork/pipe failures, early or late child exits",
 "tests can only show that a handful of runs returned; lost wake-ups, missed notifications and pipe deadlocks need particular interleavings or command behaviour",
 ["src/sync.rs", "src/execgraph.rs", "src/localrunner.rs", "src/graphtheory.rs", "src/async_flag.rs"],
 [("ready-or-inflight count reaching zero ends the service loop", "src/sync.rs background_serve"), ("closing of ready channels releases local loops", "src/sync.rs background_serve"), ("transitive closure of the target", "src/execgraph.rs get_subgraph")],
 ["return of execute in simulated time", "set of started commands"],
 [("n_ready_or_inflight", "tasks queued or running", "src/sync.rs ReadyTrackerServer")])

prop("C05", "The value returned by execute tells the truth",
 "execute returns the number of tasks that failed in that call and the keys of the tasks that finished in that call, each exactly once, in an order consistent with the order in which the tasks finished and with the dependencies. A second execute call returns only what that second call did.",
 ["schedules", "inputs", "fault_sequences", "histories"],
 "all graphs, outcomes, interleavings of completion reports from local slots and runners, several execute calls",
 "tests compare the result for small deterministic graphs; miscounting under racing completions, disconnects or cancellation is not sampled",
 ["src/sync.rs", "src/execgraph.rs", "src/pylib.rs"],
 [("finished_order and n_failed", "src/sync.rs background_serve"), ("mapping back to keys", "src/execgraph.rs execute")],
 ["return value of execute", "exits of task commands", "log entries"])

prop("C06", "Sessions resume from the log: reuse of successes, runcounts, failures",
 "A later session on the same log never re-runs a task whose last recorded outcome is success and records a back-reference for each reused task (also for one whose recorded failure is kept); a task whose last recorded outcome is failure is re-run when rerun_failures is on, and otherwise it and everything depending on it is skipped. The run count reported and recorded for a key is 0 when it is new, is unchanged if the key was only queued or succeeded, and grows by one after a run that failed or was cut off, so no two runs of a key whose starts are in the log share a run count (a controller killed within the 100 ms before its start record is flushed can leave a run the log does not know of).",
 ["histories", "crash_points", "inputs", "fault_sequences"],
 "all sequences of sessions over one log, with arbitrary outcomes, orderly endings, interruptions and kills between them",
 "tests chain at most two or three sessions with fixed outcomes and clean exits",
 ["src/logfile2.rs", "src/execgraph.rs", "src/pylib.rs"],
 [("load_runcounts rebuilds the last status per key", "src/logfile2.rs"), ("reused keys are written as backrefs", "src/execgraph.rs get_subgraph"), ("run count rules", "src/pylib.rs logfile_runcount")],
 ["log file content", "process creation of task commands", "logfile_runcount"],
 [("runcounts", "last status per key", "src/logfile2.rs LogFile")])

prop("C07", "The log survives a kill at any instant",
 "After the controller is killed at any instant, including in the middle of a write, a new session can open the same log without error and without losing any record that had been completely written before, and each complete record in the file is still the one that was written. A task that finished successfully more than a second of running time before the kill is still recorded as successful and is not re-run; a partially written last record is ignored.",
 ["crash_points", "schedules", "histories"],
 "every kill instant (between and inside writes to the log), at any point of a session or start-up, repeated over several sessions",
 "no test kills the controller while it is writing; the torn-record state is never produced",
 ["src/logfile2.rs", "src/sync.rs", "src/execgraph.rs"],
 [("append-only JSON lines", "src/logfile2.rs LogFile::write"), ("periodic flush", "src/sync.rs background_serve flush_ticker"), ("reload at start-up", "src/logfile2.rs load_runcounts")],
 ["virtual disk after the kill", "result of constructing ExecGraph again", "which tasks run again"])

prop("C08", "Log records are well-formed and complete when execute returns",
 "In the log, the records of each key in a session follow queued, started, finished in that order, each at most once per run (a run that was queued but not begun when its session ended may be queued again by a later one); each start record is eventually followed by exactly one finish record and each finish record is preceded by a start record, whatever mix of local slots, runner loss, cancellation and shutdown occurs. When execute returns, normally or after an interruption, every task that was started has its finish record and all records are in the file.",
 ["schedules", "fault_sequences", "inputs", "histories"],
 "all interleavings of start/finish reports, heartbeat loss before or after the start report, cancellation and shutdown at any moment",
 "tests look at logs of undisturbed runs and of a few interruptions at one moment",
 ["src/sync.rs", "src/logfile2.rs", "src/server.rs"],
 [("fabricated start record for a finish without start", "src/sync.rs background_serve and drain"), ("drain writes a finish record for whatever is in flight", "src/sync.rs drain")],
 ["log file content at return of execute"])

prop("C09", "At most one writer holds a log at a time",
 "At any moment at most one live process has a given log (more precisely, any log of the same directory, which share a lock file) open for writing: a second attempt to open it while it is held fails with an error and leaves log and holder untouched. The lock is released when the holder closes the log or dies, however it dies, and never earlier.",
 ["schedules", "crash_points", "fault_sequences"],
 "all interleavings of several processes opening, closing and dying around the lock file of one directory",
 "a test opens the log twice in one process in sequence; no test interleaves lock acquisition with release, removal of the lock file or a kill",
 ["src/logfile2.rs"],
 [("advisory lock on a lock file next to the log", "src/logfile2.rs LogFile::new"), ("removal of the lock file on drop", "src/logfile2.rs Drop")],
 ["successful and failed opens per process over time", "writes to the log per process"],
 [(".wrk.lock", "lock file", "src/logfile2.rs")])

prop("C10", "What a command receives and produces is passed on exactly",
 "A started command receives exactly the argument vector of its task and, on the requested descriptor, exactly the input bytes followed by end-of-file, on descriptors that block like those of any other pipe; its exit status (or minus the signal number), complete stdout and stderr, and the key=value pairs it writes on descriptor 3 are what is recorded and printed for that task. Its start record names the process, host and job that ran it. This is the same for local and remote execution, for any sizes and any splitting of reads, writes and network packets, and nothing is attributed to another task.",
 ["inputs", "schedules", "fault_sequences"],
 "all argument vectors, inputs, output sizes and contents, exit codes and signals, partial reads/writes on pipes and sockets, segmentations of HTTP bodies, local and remote runners",
 "tests use a few tiny outputs; short reads/writes, multi-megabyte outputs over HTTP, compression thresholds and interleaved tasks are not sampled",
 ["src/localrunner.rs", "src/bin/execgraph-remote.rs", "src/http_extensions/axum.rs", "src/http_extensions/reqwest.rs", "src/httpinterface.rs", "src/server.rs", "src/sync.rs"],
 [("wait_with_output collects all pipes until EOF", "src/localrunner.rs"), ("postcard+lz4 encoding of requests", "src/http_extensions"), ("fd3 parsing", "src/localrunner.rs fd3_values")],
 ["argv and descriptor contents seen by simulated commands", "finish records", "console and log.txt output"])

prop("C11", "Concurrency limits and queue affinity are respected",
 "At most num_parallel local commands of queue 0 and at most one command of the console queue run at the same time in the controller, and none if num_parallel is 0; a remote runner works on at most one task at a time. A task is only ever given to a local slot or runner whose queue number is set in the task's affinity mask.",
 ["schedules", "inputs", "configurations"],
 "all affinity masks over the 64 queues, numbers of slots and runners, interleavings",
 "tests use queue 0, 1 or one remote queue at a time on small graphs",
 ["src/execgraph.rs", "src/sync.rs", "src/localrunner.rs", "src/server.rs"],
 [("one loop per local slot plus one console loop", "src/execgraph.rs execute"), ("one ready queue per affinity bit", "src/sync.rs add_to_ready_queue")],
 ["process creation and exit of task commands", "/start responses by runner type"])

prop("C12", "The failure limit stops the session, and only when it is reached",
 "When the number of tasks in this call that failed within five seconds of starting reaches failures_allowed, no further task is started, tasks that have been running for less than five seconds are cancelled and recorded as cancelled (on a remote runner: given up and recorded as disconnected), longer running ones are allowed to finish, and execute returns. With fewer such failures, or with failures_allowed=0, the limit never stops or cancels anything.",
 ["schedules", "inputs", "configurations"],
 "all limits, graphs, failure times around the five-second cut-off, completions racing with the decision, local and remote",
 "tests use limits 0, 1 and 2 with instantly failing commands and few running tasks",
 ["src/sync.rs", "src/fancy_cancellation_token.rs", "src/localrunner.rs", "src/server.rs"],
 [("fizzle counting and soft cancellation", "src/sync.rs background_serve/_finished_bookkeeping_1"), ("cancellation cut-off time", "src/fancy_cancellation_token.rs"), ("failures_allowed=0 means unlimited", "src/pylib.rs new")],
 ["starts after the limit was reached", "statuses of cancelled tasks", "return of execute"],
 [("n_fizzled", "quick failures so far", "src/sync.rs ReadyTrackerServer")])

prop("C13", "Soft shutdown starts nothing new and lets running tasks finish",
 "After a soft shutdown request is acknowledged on the admin socket, no waiting task is started any more, every task already handed out runs to its end and is recorded with its true outcome, and execute then returns. This holds whenever the request arrives, including when nothing is running and when remote runners have a task whose start has not been reported yet.",
 ["schedules", "fault_sequences", "inputs"],
 "all instants of the request relative to queueing, hand-out, start reports and completions; local and remote tasks",
 "the existing test sends one soft shutdown while one long task runs",
 ["src/sync.rs", "src/admin_server.rs", "src/server.rs"],
 [("soft shutdown trigger drops the ready queues", "src/sync.rs background_serve"), ("loop exit when nothing is in flight", "src/sync.rs background_serve")],
 ["starts after the acknowledgement", "records of tasks running at the request", "return of execute"])

prop("C14", "Interrupt or hard stop ends promptly and leaves nothing running",
 "After a SIGINT that arrives while execute is serving tasks, a hard shutdown on the admin socket, or the exit of the provisioner, execute returns within a few seconds of simulated time with every started task recorded as finished; nothing is started afterwards, and every local task process that does not ignore SIGTERM is gone, also processes the tasks spawned in the same process group. The controller itself survives its own clean-up signal and can be used again.",
 ["schedules", "fault_sequences", "crash_points"],
 "all instants of the stop relative to spawning, running, finishing and reporting of tasks; second interrupts; provisioners that exit early or late",
 "two tests send one SIGINT at one moment; the spawn/cancel race and grandchildren are not sampled",
 ["src/sync.rs", "src/execgraph.rs", "src/localrunner.rs", "src/admin_server.rs", "src/server.rs"],
 [("hard cancellation token", "src/fancy_cancellation_token.rs"), ("kill_on_drop of children", "src/localrunner.rs"), ("process group SIGTERM in drain", "src/sync.rs drain")],
 ["return time of execute after the stop", "live processes in the process table", "log entries"])

prop("C15", "Heartbeats: a silent runner's task is given up, a live one's is kept",
 "If a remote runner that holds a task is not heard from for about 35 seconds (it died, hung or was partitioned away), the controller records that task as failed with the lost-contact status within a few seconds more, prints the runner's disconnect message, and does not wait any longer for it. As long as the runner's heartbeats keep arriving within that time the task is not given up however long it runs, and a result arriving after the task was given up is refused and changes nothing.",
 ["schedules", "fault_sequences"],
 "all loss patterns: runner killed or stalled, partitions of any length before, during and after the start report, delayed or duplicated requests, healing near the deadline, timer wheel positions",
 "one test simulates a single missing heartbeat with a real 35 s wait",
 ["src/server.rs", "src/time/timewheel.rs", "src/bin/execgraph-remote.rs", "src/constants.rs"],
 [("ping timer wheel", "src/time/timewheel.rs, src/server.rs reap_pings_forever"), ("ping loop and pong timeout in the runner", "src/bin/execgraph-remote.rs run_command")],
 ["finish records with status -1", "time between last heartbeat and the record", "HTTP status of late requests"],
 [("connections", "open transactions", "src/server.rs State"), ("timeouts", "timer wheel", "src/server.rs State")])

prop("C16", "Unauthorised, stale or malformed requests have no effect",
 "Requests to the task endpoints without the session's bearer token are refused and change nothing: no task is handed out, started, finished or kept alive by them. Requests naming an unknown or finished transaction, coming from a different job than the one that received the task, repeated, or malformed are answered with an error or (an unknown heartbeat) ignored; none of them crashes or wedges the controller or alters the outcome of another task.",
 ["inputs", "schedules", "histories", "fault_sequences"],
 "all request contents and orders on all endpoints, mixed with the traffic of well-behaved runners",
 "tests send only the requests of a well-behaved runner",
 ["src/server.rs", "src/http_extensions/axum.rs", "src/logfile2.rs"],
 [("bearer token comparison in every handler", "src/server.rs"), ("transaction and job id lookup", "src/server.rs begun_handler/end_handler"), ("body decoding with rejection", "src/http_extensions/axum.rs")],
 ["HTTP status of rogue requests", "log entries", "return of execute"])

prop("C17", "A job acknowledged as cancelled never receives a task",
 "When a mark-cancelled request is answered, every job id listed in the reply is not holding a task and will never be given one afterwards; every requested job id not listed was holding a task at that time and keeps running it to its normal end. This holds however the request races with those jobs asking for, waiting for, or being handed their first or next task.",
 ["schedules", "inputs"],
 "all interleavings of cancellation requests with /start, /end and waiting runners",
 "one test issues a cancellation while no task is being handed out",
 ["src/server.rs"],
 [("set of cancelled job ids under a lock", "src/server.rs mark_slurm_job_cancelation/start_handler")],
 ["replies to the cancellation request", "/start and /end responses per job"],
 [("cancelled_slurm_jobids", "jobs that must not receive tasks", "src/server.rs State")])

prop("C18", "Task launches obey the rate limit",
 "With ratelimit_per_second = r > 0, the number of tasks launched in any interval of t seconds is at most about r*t + r (one second's worth of burst, plus one for each slot or runner already past the limiter and waiting for work), for local and remote runners together, also after idle periods, after the limit is changed at run time, and across clock jumps or suspends; r = 0 means no limit. The limit delays work but never loses it or stalls it for good.",
 ["schedules", "inputs", "fault_sequences", "configurations"],
 "all limits, arrival patterns of ready tasks and idle runners, changes of the limit, clock adjustments and suspends",
 "one test measures the total duration of a fixed batch with a tolerance",
 ["src/time/gcra.rs", "src/sync.rs", "src/server.rs", "src/admin_server.rs"],
 [("GCRA limiter", "src/time/gcra.rs"), ("wait before taking a task", "src/sync.rs recv")],
 ["times of process creation of task commands"])

prop("C19", "Status reports are consistent and wake up on new work",
 "In every status reply, for each queue mask the numbers of ready and in-flight tasks are those of some moment during the request, they sum with the unready and finished tasks to the total, never wrap around, and return to zero when the work is finished or stopped. A long-poll with an etag returns promptly once work was queued after that etag was issued and otherwise not before its timeout; etags never go backwards.",
 ["schedules", "inputs"],
 "all interleavings of status polls with hand-out, completion, failure, shutdown; all timemin/timeout/etag combinations",
 "tests poll status once or twice around a sleeping task",
 ["src/sync.rs", "src/server.rs", "src/async_flag.rs", "src/admin_server.rs"],
 [("queuestate counters", "src/sync.rs add_to_ready_queue/recv/_finished_bookkeeping_1"), ("etag counter", "src/async_flag.rs AsyncCounter"), ("long-poll", "src/sync.rs get_queuestate")],
 ["status replies over time", "process creation and exits"],
 [("queuestate", "ready and in-flight per mask", "src/sync.rs")])

prop("C20", "A remote runner cleans up after itself and respects its deadlines",
 "When execgraph-remote ends for any reason other than being killed outright (no more work, controller gone, heartbeat lost, cancelled by the batch system), every process descended from its tasks has been terminated, politely first and by force after five seconds, before it exits. It asks for no further task after SIGUSR1 or after its accept-time limit, and signals the running task once, sixty seconds before its total duration ends, then still reports the task's outcome.",
 ["schedules", "fault_sequences", "inputs"],
 "all instants of controller loss, network faults, SIGUSR1, batch-system messages and deadlines relative to running tasks; children that ignore SIGTERM or spawn grandchildren",
 "tests exercise each feature once at one moment with real sleeps",
 ["src/bin/execgraph-remote.rs"],
 [("subreaper and clean-up loop", "src/bin/execgraph-remote.rs cleanup_child_processes_carefully"), ("deadline select arm", "src/bin/execgraph-remote.rs run_command"), ("still_accepting_tasks", "src/bin/execgraph-remote.rs")],
 ["process table at runner exit", "signals received by task processes", "requests sent after SIGUSR1 or the limit"])

prop("C21", "The current and outdated views of a log partition its history correctly",
 "For any log produced by any sequence of sessions, loading it in mode 'current' yields the last session's header and records plus, for every task reused in that session, the records of the run being reused; mode 'outdated' yields older records only for keys that do not appear in the current view, and mode 'all' yields every record in order. Loading succeeds while a session is writing the log and after a kill, where only an incomplete last line may be dropped.",
 ["histories", "crash_points"],
 "all histories of sessions over one log, including interrupted and killed ones, and reads at any instant",
 "tests check views on two or three fixed two-session logs",
 ["src/logfile2.rs", "src/pylib.rs"],
 [("backward scan with pending back-references", "src/logfile2.rs read_current_and_outdated"), ("tolerant reader", "src/logfile2.rs read")],
 ["results of load_logfile in the three modes compared with a reference over the raw records"])

prop("C22", "Preamble and postamble run exactly once around each run",
 "For each run of a task that has them, the preamble is called exactly once before its command is started and the postamble exactly once after it finished, with the run's true success flag and run count, whether the task runs locally or remotely. Neither is called for tasks that are not run, and the postamble of a task is called before any dependent task starts. A task whose preamble reports an error is not started and fails; if a postamble reports an error, execute fails at once. Neither makes execute hang.",
 ["schedules", "inputs", "fault_sequences"],
 "all interleavings, failure kinds, runner loss, cancellation and shutdown",
 "tests count calls for one or two local tasks (and only through printed output)",
 ["src/execgraph.rs", "src/sync.rs", "src/localrunner.rs", "src/server.rs"],
 [("call_preamble/call_postamble", "src/execgraph.rs Cmd"), ("call sites", "src/localrunner.rs, src/server.rs, src/sync.rs")],
 ["calls of the registered functions in order with process creation and exits"])

prop("C23", "Disk errors on the log are reported, never papered over",
 "If writing the log fails (disk full, I/O error) in a way that loses a record, the failure surfaces to the caller as an exception from execute rather than being ignored, and no task result is claimed by the log that did not happen, nor is a record written whose predecessors for the same task were left out. Short writes and interrupted writes that eventually succeed lose nothing and corrupt nothing, and once the disk works again the log can be opened and used, and holds whole records only.",
 ["fault_sequences", "schedules"],
 "all positions and kinds of failing, short and interrupted writes to the log",
 "no test injects an I/O error",
 ["src/logfile2.rs", "src/sync.rs", "src/execgraph.rs"],
 [("error propagation from write/flush", "src/sync.rs background_serve, src/execgraph.rs execute")],
 ["outcome of execute", "content of the virtual disk"])

prop("C24", "A command inherits only the descriptors meant for it",
 "A started task command has open only its standard streams, the value pipe on descriptor 3 and, if requested, its input on the requested descriptor; it inherits no log, lock, socket, or pipe end belonging to the controller, the runner or another task. Hence a task's end-of-output is recognised as soon as its own process tree closes the pipes, and the lock is freed when the controller dies even if tasks live on.",
 ["schedules", "inputs", "fault_sequences"],
 "all interleavings of concurrent spawns in one process, all requested descriptor numbers, local and remote, including commands that cannot be started",
 "no test inspects the descriptor table of a command, and a leak needs two spawns to overlap",
 ["src/localrunner.rs", "src/bin/execgraph-remote.rs", "src/execgraph.rs", "src/logfile2.rs"],
 [("close-on-exec pipes and descriptor mapping", "src/localrunner.rs run_local_process_loop"), ("dropping of the write ends after the spawn", "src/localrunner.rs, src/bin/execgraph-remote.rs")],
 ["descriptor table at exec of each simulated command"])

prop("C25", "Admin interface and socket files behave across sessions",
 "While execute runs with a provisioner, the admin socket of the controller exists and its rate limit, provisioner-info and status requests take effect and are reflected in every later status reply; it is removed when execute returns. Start-up removes socket files left by processes that no longer exist and never those of processes that are still alive.",
 ["schedules", "fault_sequences", "histories", "crash_points"],
 "all interleavings of admin requests, status polls, start-up and shutdown of several controllers, kills leaving stale sockets",
 "tests send one admin request in one session; stale-socket clean-up is not tested",
 ["src/admin_server.rs", "src/server.rs", "src/httpinterface.rs"],
 [("unix socket per process", "src/admin_server.rs run_admin_service_forever"), ("clean-up of stale sockets", "src/admin_server.rs clean_up_socket_dir")],
 ["virtual socket directory", "admin and status replies"])

prop("C26", "A task that cannot be started costs only itself",
 "If a pipe or a process for a local task cannot be created, or its command cannot be executed (descriptors, processes or memory run out for a moment or for long, no such file, no permission, unusable descriptor request), that task is recorded as queued, started and finished with status -1 and counts as failed, what depends on it is not run, and nothing else is affected: execute does not raise or hang because of it, every other task runs as usual with its true outcome, and no slot is lost, so that tasks started after the shortage run normally.",
 ["fault_sequences", "schedules", "inputs", "configurations"],
 "all positions, kinds and durations of failing pipe, fork and exec calls, descriptor limits, numbers of slots, graphs, several execute calls",
 "no test makes a system call fail; the only unstartable command tested is one missing program",
 ["src/localrunner.rs", "src/sync.rs", "src/execgraph.rs"],
 [("creation of the pipes and of the process", "src/localrunner.rs run_local_process_loop"), ("error event for an unstartable command", "src/localrunner.rs, src/sync.rs FinishedEvent::new_error")],
 ["return and return value of execute", "log entries", "process creation of task commands"])

prop("C27", "Among waiting tasks, the one deepest in the graph goes first",
 "When a local slot or a runner takes a task from a queue while several tasks that may run there are waiting to be run, it gets one of those that have the longest chain of dependencies above them in the graph (counting also dependencies that are already done), whatever the order in which the tasks were added or became ready, for every queue of tasks with several affinities, and for tasks added between two execute calls.",
 ["schedules", "inputs", "configurations"],
 "all graphs, durations, numbers of slots and runners, affinities, sequences of execute calls and schedules; two tasks are only compared when one was waiting clearly before the other was taken",
 "the tests check the depth computation of two graphs, never the order in which anything is run",
 ["src/execgraph.rs", "src/graphtheory.rs", "src/sync.rs"],
 [("depth as priority", "src/execgraph.rs get_subgraph"), ("priority queues", "src/sync.rs add_to_ready_queue")],
 ["process creation of task commands", "hand-out to runners", "log entries (Ready)"])

prop("C28", "The graph holds the accepted tasks; refused calls change nothing",
 "Tasks get consecutive ids in the order in which they are first added; adding a key again returns the id it has and changes neither the task nor its dependencies. A task with an unknown dependency, with itself as a dependency, or without a command is refused with an exception, as are asking for a task there is not, unknown modes and missing files in load_logfile, and opening or writing a log that is in use. A refused call leaves no trace: number, keys and content of the tasks, the log and the lock stay as they are, later additions get the ids they would have got, and execute runs the accepted tasks, and only those, in the order their dependencies ask for.",
 ["schedules", "inputs"],
 "all interleavings of additions, refused calls, queries, execute calls and sessions on one log",
 "tests make single bad calls on an empty graph and do not run the graph afterwards",
 ["src/execgraph.rs", "src/pylib.rs", "src/logfile2.rs"],
 [("add_task with roll-back", "src/execgraph.rs ExecGraph::add_task"), ("queries", "src/pylib.rs PyExecGraph")],
 ["results and exceptions of the API", "process creation of task commands", "log"])

prop("C29", "The provisioner and the server live exactly as long as their execute call",
 "Each execute call that is given a provisioner and runs something starts it exactly once, with the address of a server of that call and a fresh secret; from then on until the call winds up, the server answers, and the provisioner is not told to end while tasks remain to be run. When execute returns, for whatever reason, the provisioner has ended, also one that ignores signals, and the server accepts no more connections. The secret of another call, earlier or at the same time, opens nothing. If the provisioner cannot be started, execute still returns.",
 ["schedules", "inputs", "configurations"],
 "all sequences of execute calls, by one or several controllers, ways of ending a call, provisioners and times of requests",
 "tests start one provisioner that behaves and never look at it, its secret or the server after the return",
 ["src/execgraph.rs", "src/server.rs"],
 [("server, secret and provisioner of a call", "src/execgraph.rs ExecGraph::execute"), ("start and end of the provisioner", "src/execgraph.rs spawn_and_wait_for_provisioner")],
 ["process creation and end of the provisioner", "connections and replies of the server", "return of execute"])

prop("C30", "Waiting work is taken as soon as a slot or runner it may use is free",
 "While an execute call without a launch rate limit is not winding up, no task that is ready, i.e. whose dependencies have all succeeded, waits while a slot of the controller, the console or a connected runner that its affinity allows has nothing to do: whenever such a place stays free it takes a waiting task, at the latest within about two seconds (a few seconds for a runner, which has to ask for it). In particular no failure of a task - an exit status, a signal, a command that cannot be started, a failing pipe or fork, an input that is not read, a cancelled job - costs the call a slot, for a time or for good.",
 ["schedules", "inputs", "faults"],
 "all graphs, numbers of slots, queues, runners, task durations, failures of tasks and failures to start them",
 "tests run a few short tasks and never measure whether slots stay free while work waits",
 ["src/localrunner.rs", "src/sync.rs", "src/server.rs", "src/bin/execgraph-remote.rs"],
 [("loop of a slot", "src/localrunner.rs run_local_process_loop"), ("ready queues", "src/sync.rs ReadyTrackerServer::add_to_ready_queue"), ("hand-out to runners", "src/server.rs start_request_impl")],
 ["times of process creation and exit", "times of requests and replies of runners", "Ready records with their times"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
