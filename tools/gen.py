#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (both committed)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "deterministic simulation with fault injection"
P = []


def p(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), note="", claim=True):
    P.append(({"id": id, "title": title, "statement": statement, "quantifier": {"over": list(over), "text": text},
               "why_tests_cant": why,
               "anchors": {"files": files,
                           "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                           "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                           "observe_at": list(observe), "hook_needed": None}}, note, claim))


D = "dsari/daemon.py"
DBF = "dsari/database.py"

p("C01", "Every finished run is recorded exactly once and faithfully",
  "Every run whose end the daemon learns of has, from then on, exactly one permanent record: with the schedule, start "
  "and stop times, the trigger and the program's data that it really had, and with the exit code a shell would "
  "report for the way it ended. While it is in progress, and only then, it is listed as running with the same particulars. No "
  "record ever changes or disappears afterwards, and none exists for something which was not run.",
  ["schedules", "histories", "fault_sequences"],
  "for all sets of jobs, run durations and ends (exit codes, signals, core dumps), orders of ends, signals to the "
  "daemon, reloads, clock jumps and locks held by other readers of the database",
  "The tests construct a scheduler and call a few of its methods once, against real time; they never run the main "
  "loop, so no history of starts, ends and reaps is ever compared with the records it leaves.",
  [D, DBF], [("running run inserted before fork, moved in one transaction when reaped", "process_scheduled_run, "
              "process_next_child"), ("insert_run/insert_running_run", DBF)],
  [("runs", "permanent records", "dsari.sqlite3"), ("runs_running", "runs in progress", "dsari.sqlite3")],
  ["database rows at every point at which the daemon goes idle", "START_TIME/RUN_ID in the child's environment"],
  "Whole daemon on a simulated kernel; rows compared with the simulated process history at every idle point.")

p("C02", "Records survive crashes, power loss, full disks and restarts intact",
  "At whatever point the daemon is killed, the machine loses power, or the disk fails or fills up, the database "
  "afterwards is readable and intact, every run recorded before is still recorded unchanged, and no run is half "
  "recorded, recorded twice, or both recorded and listed as running. After a restart the list of runs in progress is "
  "empty of the dead daemon's runs, and the daemon carries on by itself.",
  ["crash_points", "fault_sequences"],
  "for all points of a crash or power loss (at any system call, database I/O or bytecode boundary), all subsets and "
  "tears of unsynced writes, all I/O errors, repeated across restarts",
  "No test kills the process or makes a write fail; a test cannot choose the point between two writes of one commit.",
  [DBF, D], [("insert and delete in one transaction", "insert_run"), ("clear_runs_running", "Scheduler start-up")],
  [("dsari.sqlite3", "the database file and its journal", "data_dir")],
  ["a copy of the database as the crash left it", "rows at idle points of the next daemon"],
  "SQLite runs over a simulated disk (volatile cache, torn and lost sectors, errors, full disk, locks).")

p("C03", "A job never runs twice at once unless it may",
  "As long as a job does not allow concurrent runs, no run of it is started while a run of it by the same daemon is "
  "in progress: whether the runs come from its schedule or from triggers, and across reloads and changes of the "
  "configuration.",
  ["schedules", "histories", "configurations"],
  "for all orders of triggers, due times, ends of runs, reloads (also ones which change the job) and signals at any "
  "point",
  "The tests have no child processes and no main loop; overlapping starts depend on the order of events.",
  [D], [("job in running_runs check", "process_scheduled_run"), ("reset_jobs keeps running runs", "reset_jobs")],
  [("running_runs", "runs in progress", D)], ["process table at every start"],
  "Simulated process table consulted at every fork.")

p("C04", "Concurrency groups never exceed their maximum",
  "At any time, the number of runs in progress which were started within a concurrency group is at most the maximum "
  "configured for it when the latest of them was started, and a run of a job with concurrency groups is started within "
  "exactly one of that job's groups, which the program is told. Runs in progress keep counting across reloads.",
  ["schedules", "histories", "configurations"],
  "for all assignments of jobs to groups, all maxima, orders of starts and ends, reloads which change groups and "
  "maxima while runs are in progress",
  "No test starts a run; occupancy depends on the history of starts, ends and reloads.",
  [D, "dsari/config.py"], [("running_groups occupancy", "process_scheduled_run, process_next_child"),
                           ("re-association by name on reload", "reset_jobs")],
  [("running_groups", "occupants of each group", D)], ["CONCURRENCY_GROUP of started programs, process table"],
  "Occupancy computed from the simulated process table at every start.")

p("C05", "A run which may start is started soon",
  "A run which is due and not held up by its job's previous run or by concurrency limits is started within seconds; one "
  "which was held up is started within the documented five minutes (at most) after nothing holds it up any more. No due run is ever "
  "forgotten, whatever else goes on: other runs, signals, reloads, a stalled machine, or the clock being set.",
  ["schedules", "histories", "fault_sequences"],
  "for all sets of jobs and groups, durations, stalls, oversleeping, clock jumps in either direction, reloads",
  "A test cannot wait for five minutes, nor arrange for the wakeup computed in one pass to be too late for another run.",
  [D], [("wakeups/next_wakeup", "process_wakeups, wakeup_due"), ("backoff", "dsari/utils.py")],
  [("wakeups", "when to look again", D)], ["start of each run against a reference of what is pending"],
  "Liveness within bounded simulated time, against a reference model of pending runs.")

p("C06", "Jobs run when their schedule says: no run missed, none invented",
  "With the daemon up, a job with a schedule is run for exactly the successive times its definition (5, 6 or hashed "
  "field cron, named schedules, calendar rules with an end) names in the job's timezone, each after the previous start, plus a fixed "
  "fraction of a second which depends on the job's name alone. No time which "
  "falls after a run's start is skipped, none is run twice, also when a DST change or a restart lies in between.",
  ["schedules", "inputs", "histories"],
  "for all supported definitions, job names, timezones, start instants (DST changes included), restarts, reloads and "
  "clock jumps; within three hours of a DST change only order and absence of repetition are decided",
  "The tests evaluate a few expressions from fixed instants; the sequence over days which the daemon really produces "
  "depends on start times, reloads and the clock.",
  [D, "dsari/utils.py", "dsari/croniter_hash.py"],
  [("get_next_schedule_time", "dsari/utils.py"), ("respawn after a start", "process_scheduled_run")],
  [("schedule_time", "the time a run is for", "runs table, SCHEDULE_TIME")],
  ["SCHEDULE_TIME of every run against an independent evaluation of the definition"],
  "Every scheduled time compared with an independent evaluator over simulated hours to weeks.")

p("C07", "Every trigger gives exactly one run, with its own data",
  "Every complete, valid trigger placed for a job is picked up within a minute, or at once after the signal meant for it, "
  "and leads to exactly one run with its environment and data at the time it asks for, unless another trigger "
  "replaces it before it has run; an invalid one is discarded without a run. This holds however and whenever it "
  "is written, replaced or removed by others, in whatever order the daemon's and the writer's steps interleave.",
  ["schedules", "histories", "inputs", "fault_sequences"],
  "for all interleavings of writers (atomic or in several writes), removals, replacement, the wake-up signal, crashes and reloads, "
  "and all formats and contents",
  "The tests parse no trigger at all while somebody writes it; the race between writer and reader needs control over both.",
  [D, "dsari/config.py"], [("claim, read, remove, create run", "process_trigger_job"), ("parse_trigger_time", D)],
  [("trigger/<job>/trigger.json", "a pending request", "data_dir")],
  ["token of each trigger in the runs' environment and records"],
  "Writers interleave with the daemon at system-call and function-call granularity.")

p("C08", "Nothing from outside ends the daemon or derails other jobs",
  "No trigger, return data, configuration file offered for a reload, behaviour of a program, stray child process, "
  "refused signal or combination of signals ends the daemon, makes it spin or hang, or delays or changes the runs of "
  "other jobs; it ends only when asked to, and reports no run falsely.",
  ["inputs", "histories", "fault_sequences"],
  "for all byte strings as trigger, return data and configuration; all signals (HUP, USR1, QUIT) at any point; "
  "children unknown to the daemon; EPERM and ESRCH on kill; programs which cannot be started",
  "Tests feed one or two malformed inputs to a single function, never to a daemon in the middle of other work.",
  [D, "dsari/config.py", "dsari/utils.py"],
  [("validation of triggers", "process_trigger_job"), ("deferred signals", "process_signals"),
   ("reload keeps the old configuration", "process_signal")],
  [], ["end of the daemon, all obligations of C05 to C07 for the other jobs"],
  "Hostile inputs, with the reference model watching all other jobs.")

p("C09", "Shutdown stops new runs, ends or awaits the others, then exits",
  "Once asked to terminate, the daemon starts nothing more, sends each run in progress a termination signal if so "
  "configured (once, and otherwise none), kills those still there once the configured grace time after it "
  "has passed and not before, records every run as it ends, and exits with success as soon as none is left.",
  ["schedules", "histories"],
  "for all points at which the request arrives (also repeatedly, with other signals, during start-up, a start, a reap "
  "or a reload), all settings, reactions and durations of programs",
  "The request arrives at an arbitrary point of the main loop; the tests never send a signal.",
  [D], [("begin_shutdown/monitor_shutdown", D)], [("shutdown", "asked to terminate", D)],
  ["signals sent to runs, records, exit status"],
  "Signals at any function-call boundary of the daemon; deadlines in simulated time.")

p("C10", "Runs are signalled exactly when they exceed their time limit",
  "A run in progress is sent a termination signal once it has run for longer than its job's limit, and is killed if it "
  "is still there when the grace time after that has passed; both soon, each at most once, never earlier, never "
  "to a run without a limit, and never to any process which is not such a run. A change of the configuration does not affect runs in progress.",
  ["schedules", "histories"],
  "for all limits, grace times, durations, reactions (also ends at the very moment of the signal), process numbers "
  "used again, stalls, reloads; clock jumps move limits as they move the clock",
  "No test has a child to signal; the window between the end of a run and its reaping needs a controlled scheduler.",
  [D], [("process_run_execution_time", D), ("term_sent/kill_sent", D)], [], ["every signal sent, with its target's state"],
  "Every kill() judged against the simulated process table and clock.")

p("C11", "A reload applies all of the new configuration, or none of it",
  "After the signal to reload, the configuration on disk takes effect as a whole: every run started from then on has "
  "its job's new settings, removed jobs start no more, new jobs do; a configuration which cannot be loaded has no effect at "
  "all. Runs in progress go on under the settings they were started with, and are recorded, limited and counted as before.",
  ["histories", "configurations", "schedules"],
  "for all pairs of configurations (also broken in any way), all points at which the signal or signals arrive, all sets of "
  "runs in progress",
  "Tests load single configurations; none reloads one while runs are in progress, let alone in the middle of a pass.",
  [D, "dsari/config.py"], [("load_config into a new object", D), ("reset_jobs", D)],
  [("config", "the configuration in effect", D)],
  ["version marker in every job's command and environment"],
  "Every run carries the version of the configuration it was started under.")

p("C12", "Programs get exactly the environment, files and identity promised",
  "Every program is started with exactly the documented environment for its run, and nothing of the daemon's own, in "
  "its run's directory, with its output (both streams) going to its run's own output file, no input, no inherited "
  "files, default signal handling and a process group of its own; one which cannot be started is recorded as failed "
  "and says why in its output. Nothing after the fork can run the daemon's own code.",
  ["configurations", "inputs", "schedules"],
  "for all configurations (environment at every level, job groups, compatibility options), triggers, daemons started "
  "with odd signal masks or environments, and signals which arrive between fork and exec",
  "Tests never fork; what a child inherits depends on everything the daemon has open and blocked at the time.",
  [D], [("run_child_executor", D)], [], ["what the simulated kernel sees at exec: argv, environment, descriptors, signals, cwd"],
  "The real child code runs up to exec; everything it would pass on is inspected.")

p("C13", "Runs are told truly about the previous, last good and last bad run",
  "What a program is told about the job's previous run, last successful run and last failed run agrees with the records as "
  "of the moment it is started: the latest ended of each kind, with its times and exit code, and nothing "
  "where there is none; also across restarts and for concurrent runs.",
  ["histories"],
  "for all histories of starts, ends, exit codes, concurrent runs, clock jumps, restarts and crashes",
  "The tests look up previous runs in an empty database; the claim is about every history.",
  [DBF, D], [("get_previous_runs", DBF), ("PREVIOUS_* environment", "run_child_executor")], [],
  ["PREVIOUS_* environment against the rows at the time of the start"],
  "Every start compared with the rows in the database at that moment.")

p("C14", "Return data is recorded with its run, or ignored, never harmful",
  "Whatever a program leaves as return data when it ends is stored with its run's record if it is valid, in "
  "either format; if it is malformed, cannot be stored or appears too late, the run is recorded without it, and "
  "nothing else is affected.",
  ["inputs", "histories", "fault_sequences"],
  "for all byte strings, both formats, both files at once, files written or removed at any time around the end of the "
  "run, read errors",
  "Tests read well-formed files from a finished run; the races and hostile contents are left out.",
  [D, "dsari/utils.py"], [("read return data when reaping", "process_next_child"), ("load_structured_file", "dsari/utils.py")],
  [("run_data", "stored return data", "runs table")], ["run_data of each record against what was on disk at the reap"],
  "Stored data compared with what the simulated program left.")

exec(open(os.path.join(ROOT, "tools", "more_props.py")).read()) if os.path.exists(
    os.path.join(ROOT, "tools", "more_props.py")) else None

p("C90", "Hashed fields expand to a fixed value within their range",
  "For every job name and every syntactically valid hashed field, the expansion is the same on every evaluation and lies "
  "within the field's range.",
  ["inputs"], "for all job names and expressions",
  "Tests sample a few names.", ["dsari/croniter_hash.py"], [("expand_hash", "dsari/croniter_hash.py")], claim=False,
  note="A pure function of its arguments: no time, scheduling, I/O or faults for a simulation to control. The "
       "schedules of C06 exercise it against an independent implementation, but sampling inputs of a pure function is "
       "not deterministic simulation, so it is not claimed on its own.")

LEVEL_NOTE = ("Seeded search over whole-system executions: a violation found is real and replayable; absence is evidence "
              "within the executions run, not proof. ")


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for d, _, _ in P:
            assert len(d["title"]) <= 80, d["title"]
            f.write(json.dumps(d, ensure_ascii=False) + "\n")
    m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": [], "not_applicable": [],
         "notes": "No hooks in /repo: the simulator replaces Python-level and libc-level entry points from outside "
                  "(see DESIGN.md)."}
    for d, note, claim in P:
        if claim:
            m["checks"].append({"property": d["id"], "quick_cmd": "python3 check.py %s --tier quick" % d["id"],
                                "thorough_cmd": "python3 check.py %s --tier thorough" % d["id"],
                                "evidence_file": "evidence/%s.json" % d["id"],
                                "technique": TECH, "level": "exploration", "level_note": LEVEL_NOTE + note})
        else:
            m["not_applicable"].append({"property": d["id"], "reason": note})
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
