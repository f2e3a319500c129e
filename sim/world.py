"""Turns the recorded history of one simulated execution into the facts the
oracles reason about.  Judges only what is observable: processes started and
signalled, files, database rows, exit codes and times."""
import copy
import json
import signal

import refsched

SEC = 1000000
TERM, KILL, HUP, INT, USR1, QUIT = (int(signal.SIGTERM), int(signal.SIGKILL), int(signal.SIGHUP),
                                    int(signal.SIGINT), int(signal.SIGUSR1), int(signal.SIGQUIT))
ROW = ("job_name", "run_id", "schedule_time", "start_time", "stop_time", "exit_code",
       "trigger_type", "trigger_data", "run_data")
ROWR = ("job_name", "run_id", "schedule_time", "start_time", "trigger_type", "trigger_data", "run_data")


def shell_code(status):
    """The Bourne shell's exit code for a wait status."""
    s = status & 0x7F
    return 128 + s if s else (status >> 8) & 0xFF


def expand(conf):
    """Jobs of a configuration with defaults and job groups applied."""
    jobs = {}
    for n, j in (conf.get("jobs") or {}).items():
        jobs[n] = dict(j)
    for g, t in (conf.get("job_groups") or {}).items():
        for n in t["job_names"]:
            j = {k: v for k, v in t.items() if k != "job_names"}
            j["job_group"] = g
            jobs[n] = j
    for j in jobs.values():
        j.setdefault("schedule", None)
        j.setdefault("concurrency_groups", [])
        j.setdefault("concurrent_runs", False)
        j.setdefault("max_execution", None)
        j.setdefault("max_execution_grace", 60.0)
        j.setdefault("environment", {})
    return jobs


def lacks(missing, schedule):
    """Does this schedule need a package which is not installed?"""
    if not schedule or not isinstance(schedule, str):
        return False
    if schedule.upper().startswith("RRULE:"):
        return "dateutil" in missing
    return "croniter" in missing or "dateutil" in missing      # (which croniter needs)


class Cfg:
    def __init__(self, v, conf, tz, missing=()):
        self.v, self.conf, self.tz = v, conf, tz
        self.jobs = expand(conf)
        for j in self.jobs.values():
            if lacks(missing, j["schedule"]):
                j["schedule"] = None
        self.groups = {}
        for g, d in (conf.get("concurrency_groups") or {}).items():
            self.groups[g] = d.get("max", 1)
        for j in self.jobs.values():
            for g in j["concurrency_groups"]:
                self.groups.setdefault(g, 1)
        self.kill_runs = bool(conf.get("shutdown_kill_runs", False))
        self.kill_grace = conf.get("shutdown_kill_grace")

    def next_after(self, job, x):
        j = self.jobs[job]
        if j.get("odd"):
            return refsched.UNSURE
        return refsched.after(j["schedule"], job, j.get("schedule_timezone") or self.tz, x)


class Run:
    def __init__(self, e):
        self.uid, self.pid, self.run, self.job, self.inc = e["uid"], e["pid"], e["run"], e["job"], e["inc"]
        self.q, self.t, self.w, self.info = e["q"], e["t"], e["w"], e["info"]
        self.env = e["info"].get("env") or {}
        self.exit = self.reap = None
        self.status = None
        self.kills = []
        self.cfg = None
        self.rets = []
        self.lost_group = False
        self.eperm = False

    @property
    def group(self):
        return self.env.get("CONCURRENCY_GROUP")

    def __repr__(self):
        return "run %s of %s (t=%.3f)" % (str(self.run)[:8], self.job, (self.t - 1000 * SEC) / SEC)


class Inc:
    def __init__(self, n, q):
        self.n, self.q0 = n, q
        self.end = None
        self.first_idle = None
        self.loads = []          # (q, t, w, v)
        self.fatal = []
        self.idles = []


class World:
    def __init__(self, res):
        self.res = res
        self.scn = res.scn
        self.hist = res.hist
        self.tz = self.scn.get("tz", "UTC")
        self.grain = 1.1e-3 if self.scn.get("db") == "mongodb" else 1e-5
        # "maybe": whether the daemon may load it is open; it has if its job "canary" was started
        canary = any(e["k"] == "spawn" and e["job"] == "canary" for e in self.hist)
        self.cfgs = [Cfg(i, c.get("conf", {}), self.tz, self.scn.get("missing", ())) if c.get("ok", True) is True or (c["ok"] == "maybe" and canary) else None
                     for i, c in enumerate(self.scn["configs"])]
        self.runs = {}
        self.by_id = {}
        self.incs = {}
        self.segs = []           # (t, wall - mono) pieces
        self.stalls = []         # (t, dur)
        self.rows_first = {}     # run id -> (q, t, row)
        self.running_first = {}  # run id -> (q, row)
        self.db = []             # db events
        self.trigs = []
        vc = self.scn.get("vfs_cost") or {"sync": 200}
        self.base = 3 * SEC + 4 * int(self.scn.get("oversleep", 0)) + 60 * max(vc.values())
        self.t_end = res.hist[-1]["t"] if res.hist else 0
        cur = None
        off = None
        for e in self.hist:
            k = e["k"]
            n = e["inc"]
            o = e["w"] - e["t"]
            if o != off:
                self.segs.append((e["t"], o))
                off = o
            if n and n not in self.incs:
                cur = self.incs[n] = Inc(n, e["q"])
            cur = self.incs.get(n)
            if k == "jump":
                off = o + e["d"]
                self.segs.append((e["t"], off))
            elif k == "stall":
                self.stalls.append((e["t"], e["dur"]))
            elif k == "ext_lock":
                self.stalls.append((e["t"], e["dur"] + SEC))
            elif k == "fault":
                if e.get("fatal") and cur:
                    cur.fatal.append(e)
            elif k == "spawn":
                r = Run(e)
                self.runs[r.uid] = r
                if r.run is not None:
                    self.by_id.setdefault(r.run, []).append(r)
                r.cfg = self.cfg_at(cur)
            elif k == "proc_exit":
                r = self.runs.get(e["uid"])
                if r:
                    r.exit, r.status = e, e["status"]
            elif k == "reap":
                r = self.runs.get(e["uid"])
                if r:
                    r.reap = e
            elif k == "kill":
                r = self.runs.get(e["uid"])
                if r:
                    r.kills.append(e)
            elif k == "ret":
                for r in self.by_id.get(e["run"], []):
                    r.rets.append(e)
            elif k == "conf_read":
                v = e["v"]
                if self.cfgs[v] is not None and cur is not None:
                    if cur.loads and cur.loads[-1][3] == v and e["q"] == cur.loads[-1][4] + 1:
                        cur.loads[-1] = cur.loads[-1][:4] + (e["q"],)
                    else:
                        cur.loads.append((e["q"], e["t"], e["w"], v, e["q"]))
                    c = self.cfgs[v]
                    for r in self.runs.values():
                        if r.inc == n and r.exit is None and r.group and r.group not in c.groups:
                            r.lost_group = True
            elif k == "idle":
                if cur.first_idle is None:
                    cur.first_idle = e
                cur.idles.append(e["q"])
            elif k == "end":
                cur.end = e
            elif k == "db":
                self.db.append(e)
                for row in e["new"]:
                    self.rows_first.setdefault(row[1], (e["q"], e["t"], row))
                for row in e["running"]:
                    self.running_first.setdefault(row[1], (e["q"], row))
            elif k == "pm":
                for row in e["runs"]:
                    self.rows_first.setdefault(row[1], (e["q"], e["t"], row))
                for row in e["running"]:
                    self.running_first.setdefault(row[1], (e["q"], row))

    @staticmethod
    def fdict(row, names):
        return dict(zip(names, row))

    def cfg_at(self, inc):
        return self.cfgs[inc.loads[-1][3]] if inc and inc.loads else None

    # --- where a run came from
    def trigger_data(self, r):
        x = self.running_first.get(r.run)
        if x:
            try:
                return json.loads(x[1][5])
            except ValueError:
                return None
        x = self.rows_first.get(r.run)
        if x:
            try:
                return json.loads(x[2][7])
            except ValueError:
                return None
        return None

    def token(self, r):
        d = self.trigger_data(r)
        if isinstance(d, dict) and "token" in d:
            return d["token"] if isinstance(d["token"], (str, type(None))) else repr(d["token"])
        return r.env.get("TOK")

    def sched(self, r):
        x = self.running_first.get(r.run)
        if x:
            return x[1][2]
        if "SCHEDULE_TIME" in r.env:
            return float(r.env["SCHEDULE_TIME"])
        x = self.rows_first.get(r.run)
        return x[2][2] if x else None

    def start(self, r):
        x = self.running_first.get(r.run)
        if x:
            return x[1][3]
        if "START_TIME" in r.env:
            return float(r.env["START_TIME"])
        x = self.rows_first.get(r.run)
        return x[2][3] if x else None

    def ttype(self, r):
        x = self.running_first.get(r.run)
        if x:
            return x[1][4]
        if "TRIGGER_TYPE" in r.env:
            return r.env["TRIGGER_TYPE"]
        x = self.rows_first.get(r.run)
        return x[2][6] if x else None

    # --- disturbance: time during which the daemon could not run or answer
    def disturb(self, t1, t2):
        s = 0
        for t, d in self.stalls:
            if t < t2 and t + d > t1:
                s += d
        return s

    def deadline(self, t0, span):
        """The latest that something may happen for which there are `span` from t0 on."""
        d = -1
        while True:
            x = self.disturb(t0 - self.base, t0 + span + self.base + max(d, 0))
            if x == d:
                return t0 + span + self.base + d
            d = x

    def jumped(self, t1, t2):
        return any(t1 <= t <= t2 for t, _ in self.segs[1:])

    def late(self, t0, limit, now):
        """Has more than `limit` (plus slack, plus disturbance) passed since t0?"""
        if now - t0 <= limit + self.base:
            return False
        return now - t0 > limit + self.base + self.disturb(t0 - self.base, now)

    def crossing(self, w, t_from, t_to, hold):
        """First instant t >= t_from such that the wall clock shows at least w
        from t until t + hold (both before t_to); None if there is none."""
        segs = [s for s in self.segs]
        start = None
        for i, (t, o) in enumerate(segs):
            a = max(t, t_from)
            b = segs[i + 1][0] if i + 1 < len(segs) else 1 << 62
            if b <= t_from or b <= a:
                continue
            c = max(a, w - o)
            if c >= b:
                start = None
                continue
            if c > a or start is None:
                start = c
            if min(b, t_to) - start >= hold:
                return start
        return None

    def due_since(self, w, t_from, t):
        """The instant c in t_from..t from which on the wall clock has shown at
        least w until t; None if it shows less at t."""
        c = None
        for i in range(len(self.segs) - 1, -1, -1):
            a, o = self.segs[i]
            if a > t:
                continue
            b = min(self.segs[i + 1][0] if i + 1 < len(self.segs) else t, t)
            if w - o > b or (i + 1 < len(self.segs) and b < t and w - o >= b):
                break
            c = max(a, w - o, t_from)
            if w - o > a or a <= t_from:
                break
        return c

    # --- how incarnations ended
    def fatal_excuse(self, inc):
        return bool(inc.fatal)

    def signals(self, inc, *nums):
        return [e for e in self.hist if e["k"] == "signal" and e["inc"] == inc.n and e["sig"] in nums]

    def shutdown_q(self, inc):
        for e in self.hist[inc.q0:]:
            if e["inc"] != inc.n:
                break
            if e["k"] == "signal" and e["sig"] in (INT, TERM):
                return e
        return None


def unexpected_end(w):
    """Incarnations of the daemon which ended although nothing should have ended
    them.  [(q, text)]"""
    out = []
    for n, inc in sorted(w.incs.items()):
        e = inc.end
        if e is None or e["how"] in ("horizon", "crash", "power"):
            continue
        if inc.fatal:
            continue
        if e["how"] in ("died", "exit") and not inc.loads and any(
                x["k"] == "conf_read" and x["inc"] == n and w.cfgs[x["v"]] is None for x in w.hist[inc.q0:]):
            continue             # refuses to start with a configuration like this
        if e["how"] == "exit":
            if w.shutdown_q(inc) is not None and e.get("code") == 0:
                continue
            out.append((e["q"], "daemon exited with code %s without having been asked to: %s" % (
                e.get("code"), e.get("tail", "")[-300:])))
            continue
        if e["how"] == "sigdeath":
            if inc.first_idle is None:
                continue         # not set up yet
            out.append((e["q"], "daemon killed by signal %s" % e.get("sig")))
            continue
        if e["how"] == "died":
            if inc.first_idle is None and w.shutdown_q(inc) is not None and e.get("exc") == "KeyboardInterrupt":
                continue
            out.append((e["q"], "daemon died of %s: %s in %s" % (e.get("exc"), e.get("msg"), e.get("where"))))
            continue
        out.append((e["q"], "daemon ended: %s %s" % (e["how"], e.get("why", ""))))
    return out
