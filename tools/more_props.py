R, PX, INF, CF, UT = "dsari/render.py", "dsari/prometheus_exporter.py", "dsari/info.py", "dsari/config.py", "dsari/utils.py"

p("C15", "Reports are complete and truthful, wherever dsari-render stopped before",
  "Every report page there is, is at all times a complete page and true: a run's page shows that run's ID, job, times, "
  "duration, exit code, trigger and output (shortened as configured), letter by letter; a job's page and the index list runs as of one "
  "moment, latest first, with their true times and results. Once dsari-render has succeeded, every run which had ended "
  "has its page, and the job pages, the index and the style sheet are there and up to date for the configured jobs, however many "
  "earlier invocations were killed or failed at whatever write. It only fails because of an error it met.",
  ["histories", "crash_points", "fault_sequences"],
  "for all histories of runs and outputs, all points at which earlier invocations were killed or met an error (full disk, "
  "I/O error, database locked), runs which end or output which is compressed meanwhile, configurations with and without "
  "compression, limits and jobs left out, and reports removed in between",
  "Tests render once into an empty directory, if at all; a page which is skipped because it exists, but is partial or stale, "
  "needs an interruption at one particular write.",
  [R, DBF, UT], [("write_html_file", R), ("render_run/render_jobs/render_index", R), ("read_output", UT)],
  [("html", "report pages", "data_dir/html")], ["every file under html after each invocation, parsed"],
  "Real dsari-render in a simulated machine, killed or failing at any write; pages parsed and compared with the records.")

p("C16", "Exported metrics agree with the records at a moment within the cache time",
  "Every answer of dsari-prometheus-exporter to a request for its metrics path (and --dump) is in the exposition format; its job "
  "metrics (counts, successes, failures, duration and latency sums and quantiles, last run) are exactly those of the runs "
  "recorded, for the configured jobs, at a moment which lies no further back than --job-cache-time (by elapsed time, whatever the "
  "clock does), and the metrics of running runs those of a moment during the request. After SIGHUP the next request is answered "
  "under the configuration then on disk; one that cannot be loaded leaves the current one in effect. Neither "
  "reloads, at any point of a request, nor a changing database make it fail or end; other paths get a 404.",
  ["histories", "schedules", "fault_sequences"],
  "for all histories of runs, cache times, quantiles, sequences of requests with the database changing before and during "
  "them, SIGHUP at any point with valid and invalid configurations, clock jumps, locks held by others",
  "The exporter has no tests; staleness, and a signal in the middle of a request, need control over time and signals.",
  [PX, DBF], [("job cache", "Prometheus.get_metrics"), ("signal_handler", PX), ("wsgi_application", PX)],
  [("job_cache", "metrics kept for the cache time", PX)], ["bodies of the answers, parsed"],
  "Real exporter (its main() or its WSGI application) fed with requests, reloads and a changing database.")

p("C17", "dsari-info shows each run exactly once and truly, also while it ends",
  "dsari-info run list shows, in every format, each run which matches its filters and is recorded (as running or as finished) "
  "throughout its execution, exactly once, with particulars that were recorded at one moment during it, and nothing else; run output "
  "prints exactly the output of the run, compressed or not; run tail follows the outputs of exactly the runs "
  "(asked for) which are running, as soon as there are any; job list shows exactly the configured jobs with "
  "their settings and the next time each is scheduled. This also holds on a terminal of any width, through the user's pager, which they "
  "outlive. They only fail because of an error they met, a run which does not exist or an invalid configuration.",
  ["histories", "schedules"],
  "for all histories, filters and formats, with runs starting and ending, outputs growing and being compressed at any point of the execution, "
  "clock jumps, locks held by others, and pagers or pipes which close early",
  "Tests call it on a database which nobody else writes to; a run which moves from running to finished between two queries needs a "
  "controlled schedule.",
  [INF, DBF, UT], [("cmd_list_runs", INF), ("cmd_get_run_output, read_output", INF), ("cmd_tail_run_output", INF), ("dump_jobs", INF)],
  [("runs, runs_running", "what is shown", "dsari.sqlite3")], ["standard output and exit code; what it executes as tail"],
  "Real dsari-info beside a simulated daemon whose transactions fall anywhere into its execution.")

p("C18", "The configuration in effect is the documented merger of its files",
  "The configuration loaded (dsari-info config dump, raw and compiled) is dsari.yaml, then dsari.json, then every *.yaml and then every "
  "*.json file of config_d in order of their names, merged key by key with the later one winning, from one content of each "
  "file which it had during the load; defaults, job groups, environments and concurrency groups compile as documented. A file "
  "which is invalid makes it fail as a whole, and nothing valid is refused.",
  ["configurations", "schedules", "fault_sequences"],
  "for all sets of files and contents in both formats, orders in which the directory is read, edits (whole or torn) and "
  "errors while it is being loaded",
  "Tests load a single file; precedence between files depends on the order in which the directory happens to list them.",
  [CF, UT], [("ConfigLoader.load_dir", CF), ("dict_merge", UT), ("build_base/build_jobs/build_concurrency_groups", CF)],
  [("raw_config", "merged documents", CF)], ["dsari-info config dump, raw and compiled; config check"],
  "Real loader over a directory listed in shuffled order and edited while it is read; compared with an independent merger.")

p("C19", "Any of the four databases serves dsari the same way",
  "With PostgreSQL, MySQL or MongoDB as its database, dsari does what it does with SQLite: the daemon records every run once, as "
  "running and then as finished, with the same job, times (stored in UTC), exit code, trigger and run data, tells programs truly about "
  "previous runs, and respects concurrency, through crashes and restarts; no data of triggers or "
  "programs ends it. dsari-render, dsari-info and dsari-prometheus-exporter show these records completely and truly, as they are at "
  "that time. Jobs are told apart by their exact names.",
  ["histories", "schedules", "crash_points"],
  "for all histories of runs, data of any kind, server and local time zones, crashes between any two statements, tools which run "
  "beside the daemon or for a long time",
  "The tests only run SQLite; what differs are the rules of the other databases: isolation levels, types and their limits, "
  "collations, time zones, missing transactions.",
  [DBF, D, INF, PX, R], [("PostgreSQLDatabase, MySQLDatabase, MongoDBDatabase", DBF), ("_build_insert, _build_run_from_result", DBF),
                         ("insert_run, get_runs, get_previous_runs", DBF)],
  [("runs, runs_running", "records on the server", "database server")],
  ["committed contents of the simulated server; what programs are told; what the tools print"],
  "Real backends over simulated drivers and servers: the drivers and servers are stand-ins written from their documentation, so a "
  "misunderstanding of theirs is not detected.")

p("C20", "dsari works without its optional packages",
  "Whichever of PyYAML, croniter, python-dateutil and the other optional packages (termcolor, IPython, database drivers; Jinja2 but for "
  "dsari-render) are not installed, dsari-daemon takes any configuration written in JSON, keeps running, processes the schedules for which "
  "the package is there (cron: croniter; RRULE: dateutil) as ever, and runs the other jobs when they are triggered: triggers in JSON "
  "(with numeric times, if python-dateutil is missing) are run, with their data and environment, exactly as with all packages, and each run is "
  "recorded once, faithfully, with its return data (YAML left aside if PyYAML is missing). Triggers, programs' data and reloads "
  "which would need a missing package do no harm to anything else. dsari-info, dsari-render and dsari-prometheus-exporter show the same as with all packages, "
  "except for what the missing one is for.",
  ["configurations", "histories", "schedules"],
  "for all subsets of optional packages, configurations, triggers in both formats and with times of all kinds, reloads, return data",
  "Tests run with all packages installed; the code for missing ones is spread over modules and only executed on machines without them.",
  [UT, CF, D, INF], [("ImportError fallbacks", UT), ("build_job", CF), ("process_trigger_job, parse_trigger_time", D)],
  [("croniter_hash, dateutil_tz, dateutil_rrule, yaml, lzma", "modules or the errors met when importing them", UT)],
  ["process starts, records, output of the tools"],
  "Real code imported anew in a process in which the packages cannot be imported; judged by the oracles of C01, C05-C07 and C14-C17.")

p("C21", "The status asked for with SIGQUIT is true",
  "Asked by SIGQUIT at any time, again and again, the daemon soon outputs its status: exactly the runs in progress, each with its job, PID, "
  "the time it was started and how long that is ago, and, for those in a concurrency group, the group with its runs in progress and its maximum; "
  "and the next runs, scheduled or triggered, each with its time and how long it is until then (or since, if it is overdue). "
  "Asking changes nothing: every run is started, recorded and told what it would have been otherwise.",
  ["histories", "schedules"],
  "for all histories of runs, triggers and reloads, moments of the signal (between any two calls), shutdowns in progress, stalls, clock jumps",
  "Tests do not ask; what the status says depends on the moment in a history it is asked at.",
  [D], [("sigquit_status", D)], [("running_runs, scheduled_runs, running_groups", "what is shown", D)],
  ["lines of the status in the daemon's log"],
  "Real daemon whose log is read at the moment of each status; compared with the process table and the reference model of planned runs.")

p("C22", "Running for months: nothing piles up, and nothing due costs nothing",
  "However many runs, triggers, reloads and requests there have been, the daemon and the exporter hold on to no more than what the present "
  "calls for (configuration, runs in progress and planned, one answer): open files, objects of theirs in memory, and files in the daemon's "
  "directory beside runs and records do not accumulate. The daemon sleeps unless there is something to do: what it does in any "
  "stretch of time is bounded by the length of it, the number of jobs and what happened in it.",
  ["histories", "schedules"],
  "for all histories of hundreds of runs, triggers (also ones which cannot be read), reloads (also invalid ones), signals, stalls, clock "
  "jumps and requests; and for days in which hardly anything is due",
  "What piles up shows after hundreds of operations only, a wake-up which never passes after its time has come; tests stop long before.",
  [D, DBF, UT, PX], [("loop, process_wakeups, wakeup_due", D), ("process_next_child", D), ("load_structured_file", UT), ("job_cache", PX)],
  [("scheduled_runs, running_runs, running_groups, wakeups", "what the daemon keeps", D)],
  ["open files, live objects of dsari's classes with their containers, and system calls of the real process as simulated time goes by"],
  "Memory is counted in objects of dsari's own classes and the containers they (and dsari's modules) have; leaks inside libraries are not seen.")
