"""What the evidence says about every property."""

REAL = {"*": ["dsari/daemon.py (whole scheduler: main loop, signal handlers, child set-up until exec)", "dsari/config.py",
              "dsari/database.py with the sqlite3 driver", "dsari/__init__.py", "dsari/croniter_hash.py",
              "croniter, dateutil, PyYAML, the json and sqlite3 modules, SQLite itself (over a simulated VFS)",
              "the file system calls of the daemon, on a scratch directory in memory"]}
STUBS = {"*": ["the programs jobs run (scripted: duration, exit status, reaction to signals, files written)",
               "the kernel's process table: fork, wait4, kill, process groups, exec (a forked child runs the daemon's "
               "real child code up to exec and reports what it would have executed)",
               "signal delivery, wall and monotonic clocks, sleeping, /dev/urandom",
               "SQLite's VFS: a volatile cache over durable contents, with locks, torn and lost writes",
               "operators and other users: writers of triggers, configuration, return data; other database clients"]}
ASSUMPTIONS = ["Signals arrive between two Python-level operations (function calls, system calls), as CPython runs "
               "handlers; the interpreter itself is not interleaved further",
               "A power failure loses or tears only writes which were not synced, per 512 byte sector; the file system "
               "outside the database is journalled (rename is atomic and ordered)",
               "Programs leave their own process group and the daemon's files alone",
               "The search samples executions; it does not enumerate them"]

TOOL_STUBS = ["the daemon: only its effects on the disk (rows which appear, move and disappear in single transactions, output "
              "files which grow), at any point of the tool's execution",
              "signal delivery, wall and monotonic clocks, sleeping",
              "SQLite's VFS (locks, errors) and files being written (short and failing writes, the end of the process in the "
              "middle of one)"]
for _p, _mods, _more in (("C15", ["dsari/render.py with its templates, Jinja2, gzip"], []),
                         ("C16", ["dsari/prometheus_exporter.py (main() and the WSGI application)"],
                          ["the web server (requests come one after the other)"]),
                         ("C17", ["dsari/info.py (main())"], ["tail(1) (its command line is inspected)", "the terminal, the pager and stty(1)"]),
                         ("C18", ["dsari/info.py (main())", "PyYAML"], ["the editors of configuration files"])):
    REAL[_p] = _mods + ["dsari/config.py", "dsari/database.py with the sqlite3 driver, SQLite itself (over a simulated VFS)",
                        "dsari/utils.py, dsari/__init__.py", "the file system calls, on a scratch directory in memory"]
    STUBS[_p] = TOOL_STUBS + _more

REAL["C19"] = [x for x in REAL["*"] if not x.startswith("dsari/database.py")] + [
    "dsari/database.py: PostgreSQLDatabase, MySQLDatabase, MongoDBDatabase", "dsari/render.py, dsari/prometheus_exporter.py, "
    "dsari/info.py"]
STUBS["C19"] = ["psycopg2, MySQLdb and pymongo, and the servers behind them (sim/backends.py): transactions, isolation, column types and "
                "their limits, collation, time zones, BSON, as documented; SQL is executed by SQLite underneath"] + [
    x for x in STUBS["*"] if "VFS" not in x] + TOOL_STUBS[:1]
REAL["C20"] = REAL["*"] + ["dsari/info.py, dsari/render.py, dsari/prometheus_exporter.py"]
STUBS["C20"] = ["which optional packages can be imported"] + STUBS["*"] + TOOL_STUBS[:1]
REAL["C22"] = REAL["*"] + ["dsari/prometheus_exporter.py"]
STUBS["C22"] = STUBS["*"] + TOOL_STUBS[:1] + ["the web server (requests come one after the other)"]
