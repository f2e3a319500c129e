"""The properties, judged over a recorded history.  Each oracle returns a list
of (q, text): what was violated and at which event."""
import datetime
import json
import math
import os
import pwd
import re

import refsched
from refsched import UNSURE
from world import (World, Run, shell_code, unexpected_end, SEC, TERM, KILL, HUP, INT, USR1, QUIT, ROW, ROWR)

EPS = 0.002


def ts(t):
    return "%.3f s" % ((t - 1000 * SEC) / SEC)


# --------------------------------------------------------------------------
# C01 every run is recorded, once, as it was
def norm_env(d):
    """Numbers in a trigger's environment may be recorded as text."""
    if isinstance(d, dict) and isinstance(d.get("environment"), dict):
        d = dict(d)
        d["environment"] = {k: str(v) for k, v in d["environment"].items()}
    return d


def same_json(a, b):
    # (what JSON makes of keys which are no strings)
    a, b = json.loads(json.dumps(a)), json.loads(json.dumps(b))
    return json.dumps(a, sort_keys=True) == json.dumps(b, sort_keys=True)


def c01(w):
    out = []
    trig = {e["token"]: e for e in w.hist if e["k"] == "trig" and e.get("token")}
    for q, why in row_changes(w):
        out.append((q, why))
    # each row belongs to a run that really ran to its end
    for rid, (q, t, row) in w.rows_first.items():
        rs = [r for r in w.by_id.get(rid, []) if r.reap and r.reap["q"] < q]
        if not rs:
            out.append((q, "runs has a row for %s/%s, which has not been seen to run and end" % (row[0], rid)))
            continue
        if len(w.by_id[rid]) > 1:
            out.append((q, "run id %s was used for %d processes" % (rid, len(w.by_id[rid]))))
        r = rs[0]
        f = w.fdict(row, ROW)
        if f["job_name"] != r.job:
            out.append((q, "%r recorded under job %r" % (r, f["job_name"])))
        want = shell_code(r.reap["status"])
        if f["exit_code"] != want:
            out.append((q, "%r ended with wait status %#x, which is exit code %d; recorded as %r" % (
                r, r.reap["status"], want, f["exit_code"])))
        if not (isinstance(f["stop_time"], float) and
                between(w, f["stop_time"], r.reap["t"] - 1, t)):
            out.append((q, "%r: stop_time %r is not when it was seen to end (%r..)" % (
                r, f["stop_time"], r.reap["w"] / SEC)))
        if r.env:
            for col, var in (("schedule_time", "SCHEDULE_TIME"), ("start_time", "START_TIME")):
                if not own(w, r, var) and abs(float(r.env.get(var, "nan")) - f[col]) > w.grain or \
                        (var not in r.env):
                    out.append((q, "%r: recorded %s %r, but the run was told %s=%s" % (
                        r, col, f[col], var, r.env.get(var))))
            if r.env.get("TRIGGER_TYPE") != f["trigger_type"] and not own(w, r, "TRIGGER_TYPE"):
                out.append((q, "%r: recorded trigger_type %r, but the run was told %r" % (
                    r, f["trigger_type"], r.env.get("TRIGGER_TYPE"))))
        if not between(w, f["start_time"], prev_q_t(w, r) - SEC, r.t):
            out.append((q, "%r: recorded start_time %r, but it was started at %r" % (r, f["start_time"], r.w / SEC)))
        if f["schedule_time"] > f["start_time"] + EPS:
            out.append((q, "%r: schedule_time %r is after start_time %r" % (r, f["schedule_time"], f["start_time"])))
        check_trigger_cols(w, r, q, f, trig, out)
        x = w.running_first.get(rid)
        if x:
            g = w.fdict(x[1], ROWR)
            for c in ("job_name", "schedule_time", "start_time", "trigger_type", "trigger_data"):
                if g[c] != f[c]:
                    out.append((q, "%r: %s was %r while it ran, recorded as %r" % (r, c, g[c], f[c])))
    for rid, (q, row) in w.running_first.items():
        f = w.fdict(row, ROWR)
        rs = w.by_id.get(rid)
        if rs:
            check_trigger_cols(w, rs[0], q, f, trig, out)
    out += return_data(w)
    out += prompt_records(w)
    out += at_idle(w)
    return out


def own(w, r, var):
    """Did the configuration or the trigger set this variable itself?"""
    td = w.trigger_data(r) or {}
    te = td.get("environment") if isinstance(td, dict) else None
    c = r.cfg
    return (isinstance(te, dict) and var in te) or (c is not None and (
        var in (c.conf.get("environment") or {}) or var in (c.jobs.get(r.job, {}).get("environment") or {})))


def prev_q_t(w, r):
    """Time of the last event before r started which is not part of starting it."""
    for e in reversed(w.hist[:r.q]):
        if e["k"] in ("idle", "spawn", "reap", "end"):
            return e["t"]
    return w.hist[0]["t"]


def between(w, x, t1, t2):
    """Did the wall clock show x at some instant in [t1, t2]?"""
    segs = w.segs
    for i, (t, o) in enumerate(segs):
        a = max(t, t1)
        b = min(segs[i + 1][0] if i + 1 < len(segs) else 1 << 62, t2)
        if i == 0:
            a = t1
        if a <= b and (a + o) / SEC - EPS <= x <= (b + o) / SEC + EPS:
            return True
    return False


def check_trigger_cols(w, r, q, f, trig, out):
    try:
        td = json.loads(f["trigger_data"])
    except (ValueError, TypeError):
        out.append((q, "%r: trigger_data is not JSON: %r" % (r, f["trigger_data"])))
        return
    if f["trigger_type"] == "schedule":
        if td != {}:
            out.append((q, "%r was scheduled, but has trigger_data %r" % (r, td)))
    elif f["trigger_type"] == "file":
        tk = td.get("token") if isinstance(td, dict) else None
        e = trig.get(tk)
        if e is not None and e.get("data") is not None and not same_json(norm_env(e["data"]), norm_env(td)):
            out.append((q, "%r: trigger held %r, recorded as %r" % (r, e["data"], td)))
    else:
        out.append((q, "%r: unknown trigger_type %r" % (r, f["trigger_type"])))
    if "run_data" in f:
        try:
            rd = json.loads(f["run_data"])
            if not isinstance(rd, dict):
                raise ValueError
        except (ValueError, TypeError):
            out.append((q, "%r: run_data is not a JSON object: %r" % (r, f["run_data"])))


def row_changes(w):
    """Recorded runs never change, vanish or multiply."""
    out = []
    for e in w.hist:
        if e["k"] == "db":
            if e["changed"]:
                out.append((e["q"], "recorded run changed or recorded twice: %r" % (e["changed"][0],)))
            if e["gone"]:
                out.append((e["q"], "recorded run vanished: %s" % e["gone"][0]))
    return out


def prompt_records(w):
    """A run which ended is recorded soon after."""
    out = []
    for r in w.runs.values():
        inc = w.incs[r.inc]
        if r.exit is None or r.job is None or r.exit["inc"] != r.inc:
            continue
        x = w.rows_first.get(r.run)
        t = x[1] if x and x[0] > r.exit["q"] else None
        end = inc.end
        tend = end["t"] if end else w.t_end
        if t is None and end is not None and (end["how"] in ("crash", "power", "sigdeath") or inc.fatal):
            continue
        if t is None and end is not None and end["how"] in ("exit", "died", "livelock", "hang"):
            tend = 1 << 61 if end["how"] != "exit" else tend
            if end["how"] == "exit" and r.inc == end["inc"]:
                out.append((end["q"], "daemon exited before recording %r, which ended at %s" % (
                    r, ts(r.exit["t"]))))
                continue
        if t is None:
            t = tend
        if w.late(r.exit["t"], 5 * SEC, t):
            out.append((r.exit["q"], "%r ended at %s but was not recorded until %s" % (
                r, ts(r.exit["t"]), ts(min(t, w.t_end)))))
    return out


def at_idle(w):
    """Whenever the daemon rests, the running table names exactly the runs which
    have been started and not been seen to end."""
    out = []
    running, known = {}, set()
    live = {}
    err = None
    n = None
    seen_idle = False
    for e in w.hist:
        k = e["k"]
        if e["inc"] != n:
            n, live, seen_idle = e["inc"], {}, False
        if k == "db":
            err = e["err"]
            if not err:
                running = {}
                for row in e["running"]:
                    if row[1] in running:
                        out.append((e["q"], "run %s is twice in runs_running" % row[1]))
                    running[row[1]] = row
                known |= {row[1] for row in e["new"]}
        elif k == "pm":
            known |= {row[1] for row in e["runs"]}
        elif k == "spawn" and e["run"]:
            live[e["run"]] = e
        elif k == "reap" and e["run"]:
            live.pop(e["run"], None)
        elif k == "idle" and not err:
            for rid, s in live.items():
                if rid not in running:
                    out.append((e["q"], "run %s of %s is in progress but not in runs_running" % (rid, s["job"])))
            for rid in running:
                if rid not in live:
                    out.append((e["q"], "runs_running names %s/%s, which is not in progress" % (
                        running[rid][0], rid)))
                elif running[rid][0] != live[rid]["job"]:
                    out.append((e["q"], "run %s of %s is in runs_running as %s" % (
                        rid, live[rid]["job"], running[rid][0])))
                if rid in known:
                    out.append((e["q"], "run %s is both in runs and in runs_running" % rid))
    return out


# --------------------------------------------------------------------------
# C02 atomic and durable
def c02(w):
    out = list(row_changes(w))
    known = {}
    # (two documents of MongoDB cannot be changed at once; the next start tidies up)
    atomic = w.scn.get("db") != "mongodb"
    spawned = {}        # this incarnation: run id -> Run
    for e in w.hist:
        k = e["k"]
        if k == "spawn" and e["run"]:
            spawned[e["run"]] = e
        elif k == "db":
            if e["err"]:
                continue
            for row in e["new"]:
                known[row[1]] = tuple(row)
            rr = [row[1] for row in e["running"]]
            out += exclusive(e, known, rr, spawned, atomic or e["tag"] == "idle")
        elif k == "pm":
            if e["err"]:
                out.append((e["q"], "database cannot be read after the daemon ended: %s" % e["err"]))
                continue
            if e["integ"] != "ok":
                out.append((e["q"], "database is damaged after the daemon ended: %s" % e["integ"][:200]))
            rows = {}
            for row in e["runs"]:
                if row[1] in rows:
                    out.append((e["q"], "run %s is recorded twice" % row[1]))
                rows[row[1]] = tuple(row)
            for rid, row in known.items():
                if rid not in rows:
                    out.append((e["q"], "run %s/%s had been recorded and was lost" % (row[0], rid)))
                elif rows[rid] != row:
                    out.append((e["q"], "recorded run changed: %r to %r" % (row, rows[rid])))
            known = rows
            out += exclusive(e, known, [row[1] for row in e["running"]], spawned, atomic)
            spawned = {}
    out += [v for v in at_idle(w)]
    out += prompt_records(w)
    out += resumed(w)
    return out


def exclusive(e, known, rr, spawned, atomic=True):
    out = []
    if len(set(rr)) != len(rr):
        out.append((e["q"], "a run is twice in runs_running"))
    both = set(rr) & set(known)
    if both and atomic:
        out.append((e["q"], "run %s is both in runs and in runs_running" % sorted(both)[0]))
    for rid, s in spawned.items():
        if rid not in known and rid not in rr:
            out.append((e["q"], "run %s of %s was started but is neither in runs nor in runs_running" % (
                rid, s["job"])))
    return out


def resumed(w):
    """After a crash the next start works: it comes up and clears the table of
    runs in progress."""
    out = [(q, t) for q, t in unexpected_end(w)]
    for n, inc in w.incs.items():
        e = inc.end
        tend = e["t"] if e else w.t_end
        if inc.first_idle is None and e and e["how"] == "horizon":
            t0 = w.hist[inc.q0]["t"]
            if w.late(t0, 10 * SEC, tend):
                out.append((e["q"], "daemon did not come up after it was started at %s" % ts(t0)))
    return out


# --------------------------------------------------------------------------
# C03 one run of a job at a time
def c03(w):
    out = []
    for e, r, live in starts(w):
        c = r.cfg
        if c is None or r.job not in c.jobs or c.jobs[r.job]["concurrent_runs"]:
            continue
        same = [x for x in live if x.job == r.job]
        if same:
            out.append((e["q"], "%r was started while %r was still in progress" % (r, same[0])))
    return out


def starts(w):
    live = {}
    for e in w.hist:
        k = e["k"]
        if k == "spawn":
            r = w.runs[e["uid"]]
            yield e, r, [x for x in live.values() if x.inc == r.inc]
            live[r.uid] = r
        elif k == "proc_exit":
            live.pop(e["uid"], None)


# --------------------------------------------------------------------------
# C04 concurrency groups
def c04(w):
    out = []
    lost = set()
    live = {}
    for e in w.hist:
        k = e["k"]
        if k == "conf_read" and w.cfgs[e["v"]] is not None:
            for x in live.values():
                if x.group and x.group not in w.cfgs[e["v"]].groups:
                    lost.add(x.uid)
        elif k == "spawn":
            r = w.runs[e["uid"]]
            c = r.cfg
            if c is not None and r.job in c.jobs and r.info["how"] == "exec" and not own(w, r, "CONCURRENCY_GROUP"):
                gs = c.jobs[r.job]["concurrency_groups"]
                if gs and r.group not in gs:
                    out.append((e["q"], "%r was started with CONCURRENCY_GROUP=%r; its groups are %r" % (
                        r, r.group, gs)))
                elif not gs and r.group is not None:
                    out.append((e["q"], "%r was started with CONCURRENCY_GROUP=%r, but has no groups" % (r, r.group)))
                elif gs:
                    n = [x for x in live.values() if x.group == r.group and x.inc == r.inc and x.uid not in lost]
                    if len(n) >= c.groups[r.group]:
                        out.append((e["q"], "%r was started in group %s (max %d) although it held %d runs" % (
                            r, r.group, c.groups[r.group], len(n))))
            live[r.uid] = r
        elif k == "proc_exit":
            live.pop(e["uid"], None)
    return out


# --------------------------------------------------------------------------
# C05, C06, C07: what is to run, when, and did it?
class P:
    __slots__ = ("job", "kind", "lo", "hi", "sched", "sched_hi", "token", "respawn", "q", "t", "opt",
                 "due", "blocked", "since", "any", "done_hi")

    def __init__(self, job, kind, q, t):
        self.job, self.kind, self.q, self.t = job, kind, q, t
        self.lo = self.hi = self.sched = self.sched_hi = self.token = None
        self.respawn = self.opt = self.any = False
        self.due = self.since = None
        self.blocked = False
        self.done_hi = True

    def __repr__(self):
        return "%s run of %s" % (self.kind, self.job)


def iso_epoch(text):
    try:
        d = datetime.datetime.fromisoformat(text)
    except ValueError:
        return None
    return d.timestamp() if d.tzinfo else None


def delta(text, signed=False):
    m = re.match((r"(-?)" if signed else "()") + r"(?:(-?\d+) days?, )?(\d+):(\d\d):(\d\d(?:\.\d+)?)$", text)
    if not m:
        return None
    x = int(m.group(2) or 0) * 86400 + int(m.group(3)) * 3600 + int(m.group(4)) * 60 + float(m.group(5))
    return -x if m.group(1) else x


class Replay:
    """Replays a history against the documented scheduling rules."""

    START, BLOCKED, NOTICE, SIGNAL = 3 * SEC, 300 * SEC, 60 * SEC, 3 * SEC

    def __init__(self, w):
        self.w = w
        self.v = []              # (category, q, text)
        self.pend = {}
        self.cfg = None
        self.live = {}           # uid -> Run (until reaped)
        self.trig = {e["token"]: e for e in w.hist if e["k"] == "trig" and e.get("token")}
        self.rest = {e["token"]: e for e in w.hist if e["k"] == "trig_rest" and e.get("token")}
        self.on_disk = {}        # token -> event: as written, nobody took it
        self.waits = set()       # set aside while (perhaps) still empty
        self.limbo = set()       # taken in an earlier incarnation
        self.oblig = {}          # token -> (since, deadline_len)
        self.spawned = {}        # token -> Run
        self.open_hi = []
        self.shut = self.closed = False
        self.inc = None
        self.loosejobs = set()
        self.say = []            # what it says about itself
        self.asked = None        # (q, t, what was there) when it was asked to
        self.run()

    def bad(self, cat, q, text):
        self.v.append((cat, q, text))

    # -- schedule arithmetic
    def bounds(self, p, hi=None):
        """Fill in the earliest and latest occurrence p may stand for."""
        c = self.cfg
        off = refsched.offset(p.job)
        a = c.next_after(p.job, p.lo - off - 1e-6)
        b = c.next_after(p.job, (p.hi if hi is None else hi) + 1e-6)
        if a == UNSURE or b == UNSURE:
            p.any = True
            return
        p.sched = None if a is None else a + off
        p.sched_hi = None if b is None else b + off

    def reset_jobs(self, e):
        self.pend = {}
        self.open_hi = []
        self.loosejobs = set()
        if self.shut:
            return
        for name, j in self.cfg.jobs.items():
            if j["schedule"]:
                p = P(name, "schedule", e["q"], e["t"])
                p.respawn = True
                p.lo = p.hi = e["w"] / SEC
                p.done_hi = False
                self.open_hi.append(p)
                self.pend[name] = [p]
                self.bounds(p)

    def close_hi(self, e):
        for p in self.open_hi:
            p.done_hi = True
            if not p.any:
                p.hi = max(p.hi, e["w"] / SEC)
                p.lo = min(p.lo, e["w"] / SEC)      # (the clock may have been set back in between)
                if self.cfg is not None and p.job in self.cfg.jobs and self.cfg.jobs[p.job]["schedule"]:
                    self.bounds(p)
        self.open_hi = []

    # -- main
    def run(self):
        w = self.w
        for e in w.hist:
            k = e["k"]
            inc = w.incs.get(e["inc"]) if e["inc"] else None
            if inc is not None and inc is not self.inc and e["k"] != "pm":
                self.inc = inc
                self.say, self.asked = [], None
                self.shut = self.closed = False
                self.pend, self.live, self.cfg = {}, {}, None
                self.open_hi = []
            if self.inc is not None and self.inc.end is not None and e["q"] > self.inc.end["q"]:
                # nobody is running
                if k == "trig":
                    self.put(e)
                elif k == "trig_gone":
                    self.on_disk.pop(e["token"], None)
                    self.oblig.pop(e["token"], None)
                continue
            if self.cfg is not None:
                self.deadlines(e)
            if self.say and k in ("spawn", "reap", "idle", "conf_read", "trig_taken", "kill", "db", "end"):
                self.status()
            f = getattr(self, "e_" + k, None)
            if f:
                f(e)
            if self.asked:
                self.answered(e)
            if self.cfg is not None:
                self.refresh(e)

    def e_conf_read(self, e):
        c = self.w.cfgs[e["v"]]
        if c is None:
            return
        first = self.cfg is None
        self.cfg = c
        if first:
            self.live = {}
        self.reset_jobs(e)
        if first:
            for tk in list(self.on_disk):
                if tk in self.limbo:
                    continue
        for tk in list(self.oblig):
            del self.oblig[tk]
        self.oblige(e["t"])

    def oblige(self, t):
        """Start the clock for triggers which the daemon has to notice."""
        if self.cfg is None or self.shut:
            return
        for tk, x in self.on_disk.items():
            if tk in self.oblig or tk in self.limbo or x["job"] not in self.cfg.jobs:
                continue
            if x["fmt"] == "yaml" and any(
                    y["job"] == x["job"] and y["fmt"] == "json" and tk2 not in self.limbo
                    for tk2, y in self.on_disk.items()):
                continue
            if any(tk2 != tk and self.behind(x, self.on_disk[tk2]) for tk2 in self.waits if tk2 in self.on_disk):
                continue
            self.oblig[tk] = (t, 130 * SEC if tk in self.waits else self.NOTICE)

    def behind(self, x, y):
        """Has x to wait for y, which has been set aside while it is empty?"""
        return x["job"] == y["job"] and (y["fmt"] == "json" or x["fmt"] == y["fmt"])

    def put(self, e):
        tk = e.get("token")
        if not tk or self.unread(e):
            return
        self.on_disk[tk] = e

    def e_trig(self, e):
        if not e.get("token"):
            return
        self.put(e)
        if e["fmt"] == "json":
            for tk, x in self.on_disk.items():
                if x["job"] == e["job"] and x["fmt"] == "yaml":
                    self.oblig.pop(tk, None)
        self.oblige(e["t"])

    def e_trig_gone(self, e):
        self.on_disk.pop(e["token"], None)
        self.oblig.pop(e["token"], None)
        self.oblige(e["t"])

    def e_trig_taken(self, e):
        tk = e["token"]
        if tk is None:
            return
        x = self.trig.get(tk)
        if x is None:
            return
        if e["how"] == "renamed":
            # set aside; not yet dealt with
            if tk in self.on_disk:
                if x["valid"] is True and (x["mode"] == "atomic" or
                                           tk in self.rest and self.rest[tk]["q"] < e["q"]):
                    self.oblig[tk] = (e["t"], self.START)
                else:
                    # nothing in it yet, perhaps
                    self.waits.add(tk)
                    self.oblig[tk] = (e["t"], 130 * SEC)
                    for tk2, y in self.on_disk.items():
                        if tk2 != tk and self.behind(y, x):
                            self.oblig.pop(tk2, None)
            self.oblige(e["t"])
            return
        was = tk in self.on_disk
        self.on_disk.pop(tk, None)
        self.oblig.pop(tk, None)
        self.oblige(e["t"])
        if not was or tk in self.spawned:
            return
        self.create(x, e, opt=tk in self.limbo)

    def unread(self, x):
        return x["fmt"] == "yaml" and "yaml" in self.w.scn.get("missing", ())

    def create(self, x, e, opt=False):
        if self.unread(x):
            return
        if x["valid"] is False or self.cfg is None or x["job"] not in self.cfg.jobs:
            return
        if x["valid"] == "maybe":
            opt = True
        if x["mode"] != "atomic" and not int(x.get("cut", 0)) and (
                x["token"] not in self.rest or self.rest[x["token"]]["q"] > e["q"] and
                abs(e["w"] - x["mtime"]) > 59 * SEC):
            return               # the writer never got to write anything (for a minute, by the clock)
        if x["mode"] != "atomic" and int(x.get("cut", 0)) > 0 and not (
                x["token"] in self.rest and self.rest[x["token"]]["q"] < e["q"]):
            opt = True           # taken while half of it had been written
        job = x["job"]
        p = P(job, "file", e["q"], e["t"])
        p.token = x["token"]
        p.sched = p.sched_hi = x["sched"] if x.get("sched") is not None else x["mtime"] / SEC
        p.opt = opt
        p.any = x["valid"] == "maybe"       # (it may name a time, or not)
        if self.shut:
            return
        old = self.pend.setdefault(job, [])
        if self.cfg.jobs[job]["concurrent_runs"]:
            old.append(p)
            return
        if opt:
            for o in old:
                o.opt = True
            p.respawn = "maybe" if old else False
            old.append(p)
            if old:
                self.loosejobs.add(job)
            return
        if old:
            p.respawn = old[0].respawn if not any(o.opt for o in old) else "maybe"
        self.pend[job] = [p]

    def e_signal(self, e):
        if e["sig"] in (INT, TERM):
            self.shut = True
            self.oblig = {}
            for l in self.pend.values():
                for p in l:
                    p.opt = True
        elif e["sig"] == QUIT and self.w.scn.get("listen"):
            if self.asked is None and self.cfg is not None and self.inc.first_idle is not None and (
                    self.inc.first_idle["q"] < e["q"]):
                self.asked = (e["q"], e["t"], list(self.live) + [id(p) for p in self.planned()])
        elif e["sig"] == USR1 and not self.shut:
            for tk, (t, n) in list(self.oblig.items()):
                if tk not in self.limbo and self.trig[tk]["q"] < e["q"] and n == self.NOTICE:
                    if t + n > e["t"] + self.SIGNAL:
                        self.oblig[tk] = (e["t"], self.SIGNAL)

    def e_idle(self, e):
        self.close_hi(e)
        if self.shut and not self.closed:
            self.closed = True
            self.pend = {}

    def e_reap(self, e):
        self.live.pop(e["uid"], None)

    def e_end(self, e):
        for tk, x in self.on_disk.items():
            taken = any(y["k"] == "trig_taken" and y["token"] == tk for y in self.w.hist[:e["q"]])
            if taken:
                self.limbo.add(tk)
        self.oblig = {}

    # -- what it says
    def planned(self):
        """The runs which are certainly planned."""
        if self.shut:
            return []
        return [p for n, l in self.pend.items() if n not in self.loosejobs for p in l
                if not p.opt and not p.any and p.sched is not None and p.sched_hi is not None]

    def e_say(self, e):
        self.say.append(e)
        self.say_end = e["t"]

    def answered(self, e):
        q, t, what = self.asked
        if not self.w.late(t, 0, e["t"]):
            return
        now = list(self.live) + [id(p) for p in self.planned()]
        if any(x in now for x in what):
            self.bad("C21", e["q"], "SIGQUIT at %s: no status by %s" % (ts(t), ts(e["t"])))
        self.asked = None

    def status(self):
        w = self.w
        running, nexts, groups = {}, {}, {}
        e = self.say[0]
        for x in self.say:
            m = re.search(r"\[(.*) ([0-9a-f-]{36})\] (.*)$", x["text"])
            if not m:
                self.bad("C21", x["q"], "status line %r is of no run" % x["text"])
                continue
            job, rid, what = m.groups()
            m = re.match(r"PID (\d+) running since (.+?) \((.+)\)$", what)
            if m:
                running[rid] = (job, int(m.group(1)), iso_epoch(m.group(2)), delta(m.group(3)))
                continue
            m = re.match(r"Next run \((\w+)\): (.+?) \((.+)\)$", what)
            if m:
                nexts[rid] = (job, m.group(1), iso_epoch(m.group(2)), delta(m.group(3), True))
                continue
            m = re.match(r"Concurrency group: (.+) \((\d+) out of (-?\d+)\)$", what)
            if m:
                groups[rid] = (m.group(1), int(m.group(2)), int(m.group(3)))
        self.say = []
        self.asked = None
        if self.cfg is None:
            return
        q, now = e["q"], e["w"] / SEC
        calm = not w.jumped(e["t"] - 5 * SEC, self.say_end + 5 * SEC)
        slack = 1 + (w.base + w.disturb(e["t"] - w.base, self.say_end)) / SEC
        want = {r.run: r for r in self.live.values() if r.run is not None}
        for rid in sorted(set(want) - set(running)):
            self.bad("C21", q, "status at %s does not list %r, which is running" % (ts(e["t"]), want[rid]))
        for rid in sorted(set(running) - set(want)):
            self.bad("C21", q, "status at %s lists a running run %s of %s, which is not" % (
                ts(e["t"]), rid[:8], running[rid][0]))
        held = {}
        for r in want.values():
            if r.group and not own(w, r, "CONCURRENCY_GROUP"):
                held.setdefault(r.group, []).append(r)
        for rid, (job, pid, since, d) in sorted(running.items()):
            r = want.get(rid)
            if r is None:
                continue
            if (job, pid) != (r.job, r.pid):
                self.bad("C21", q, "status at %s has %r as PID %d of %s" % (ts(e["t"]), r, pid, job))
            s = w.start(r)
            if s is not None and (since is None or abs(since - s) > 0.01):
                self.bad("C21", q, "status at %s has %r running since %r instead of %.6f" % (ts(e["t"]), r, since, s))
            elif s is not None and calm and (d is None or abs(d - (now - s)) > slack):
                self.bad("C21", q, "status at %s has %r running for %r s instead of %.6f" % (ts(e["t"]), r, d, now - s))
            if r.info["how"] != "exec" or own(w, r, "CONCURRENCY_GROUP") or any(
                    x.lost_group or x.info["how"] != "exec" for x in want.values()):
                continue
            g = (r.group, len(held[r.group]), self.cfg.groups.get(r.group)) if r.group else None
            if groups.get(rid) != g:
                self.bad("C21", q, "status at %s has %r in group %r instead of %r" % (ts(e["t"]), r, groups.get(rid), g))
        if self.shut:
            return
        left = dict(nexts)
        for p in self.planned():
            hit = next((rid for rid, x in sorted(left.items()) if x[0] == p.job and x[1] == p.kind and x[2] is not None and
                        p.sched - 0.01 <= x[2] <= p.sched_hi + 0.01), None)
            if hit is None:
                self.bad("C21", q, "status at %s does not list the %r for %.6f (but %r)" % (
                    ts(e["t"]), p, p.sched, sorted(x[1:3] for x in nexts.values() if x[0] == p.job)))
            else:
                del left[hit]
        for rid, (job, kind, t, d) in sorted(nexts.items()):
            if calm and t is not None and (d is None or abs(d - (t - now)) > slack):
                self.bad("C21", q, "status at %s: %r s until %r" % (ts(e["t"]), d, t))
            if rid in left and job not in self.loosejobs and not any(
                    p.kind == kind and (p.opt or p.any or p.sched is None or p.sched_hi is None) for p in self.pend.get(job, [])):
                self.bad("C21", q, "status at %s lists a %s run of %s for %r, which is not planned" % (ts(e["t"]), kind, job, t))

    # -- a run starts
    def e_spawn(self, e):
        w = self.w
        r = w.runs[e["uid"]]
        if r.job is None:
            self.bad("C06", e["q"], "a process was started which belongs to no run: %r" % (e["info"].get("argv"),))
            return
        self.live[r.uid] = r
        q = e["q"]
        if self.closed:
            self.bad("C09", q, "%r was started after the daemon had been asked to shut down" % r)
            return
        if self.cfg is None:
            return
        if r.job not in self.cfg.jobs:
            self.bad("C11", q, "%r was started, but the loaded configuration has no such job" % r)
            return
        S, START, kind = w.sched(r), w.start(r), w.ttype(r)
        if S is None or START is None:
            return
        if START < S - EPS:
            self.bad("C06" if kind == "schedule" else "C07", q,
                     "%r was started at %.6f, before its scheduled time %.6f" % (r, START, S))
        l = self.pend.get(r.job, [])
        hit = None
        if kind == "file":
            tk = w.token(r)
            if tk in self.spawned:
                self.bad("C07", q, "trigger %s gave a second run: %r and %r" % (tk, self.spawned[tk], r))
                return
            if (tk is None or tk not in self.trig) and not any(
                    x["k"] == "trig" and x["job"] == r.job and x["valid"] == "maybe" for x in w.hist[:q]):
                self.bad("C07", q, "%r is of no trigger there is" % r)
                return
            if tk is None or tk not in self.trig:
                hit = next((p for p in l if p.kind == "file" and p.opt), None)
                if hit is None:
                    hit = P(r.job, "file", q, e["t"])
                    hit.respawn = "maybe"
                    l = self.pend.setdefault(r.job, [])
                    l.append(hit)
                    if not self.cfg.jobs[r.job]["concurrent_runs"]:
                        for o in l:
                            o.opt = True
                self.after_spawn(r, e, hit)
                return
            self.spawned[tk] = r
            x = self.trig.get(tk)
            if x is not None and x["job"] != r.job:
                self.bad("C07", q, "trigger %s is for %s, but %s was run" % (tk, x["job"], r.job))
            if x is not None and x["valid"] is False:
                self.bad("C07", q, "malformed trigger %s gave %r" % (tk, r))
                return
            for p in l:
                if p.kind == "file" and p.token == tk:
                    hit = p
            if hit is None:
                if x is not None and tk in self.on_disk:
                    # run first, file removed later
                    self.on_disk.pop(tk)
                    self.oblig.pop(tk, None)
                    self.create(x, e)
                    l = self.pend.get(r.job, [])
                    hit = next((p for p in l if p.token == tk), None)
                elif x is not None and any(y["k"] == "trig_gone" and y["token"] == tk for y in w.hist[:q]):
                    # read at the moment it was replaced
                    p = P(r.job, "file", q, e["t"])
                    p.any = True
                    hit = p
                    p.respawn = "maybe"
                    for o in l:
                        o.opt = True
                    self.pend.setdefault(r.job, []).append(p)
                    l = self.pend[r.job]
                elif x is not None and tk not in [y.get("token") for y in w.hist[:q] if y["k"] == "trig"]:
                    self.bad("C07", q, "%r ran trigger %s before it was written" % (r, tk))
                    return
                else:
                    self.bad("C07", q, "%r ran trigger %s, which had been replaced or discarded" % (r, tk))
                    return
            if hit is not None and not hit.any and hit.sched is not None and abs(hit.sched - S) > EPS:
                self.bad("C07", q, "trigger %s is for %.6f, but was run with schedule time %.6f" % (
                    tk, hit.sched, S))
        else:
            off = refsched.offset(r.job)
            for p in l:
                if p.kind != "schedule":
                    continue
                if not p.done_hi and not p.any:
                    p.lo = min(p.lo, e["w"] / SEC)
                    self.bounds(p, hi=max(p.hi, e["w"] / SEC))
                if p.any:
                    # near a DST change, when is open; but not before it was planned
                    if p.lo is not None and S < p.lo - EPS and not w.jumped(p.t, e["t"]):
                        self.bad("C06", q, "%r was started for schedule time %.6f, which is before %.6f, when "
                                           "this run was planned" % (r, S, p.lo))
                    hit = hit or p
                    continue
                if p.sched is None:
                    continue
                if p.sched - EPS <= S and (p.sched_hi is None or S <= p.sched_hi + EPS):
                    o = self.cfg.next_after(r.job, S - off - 0.01) if self.cfg.jobs[r.job]["schedule"] else None
                    if o == UNSURE or (o is not None and abs(o - (S - off)) < 0.01):
                        hit = p
                        break
            if hit is None:
                want = [(p.sched, p.sched_hi) for p in l if p.kind == "schedule"]
                self.bad("C06", q, "%r was started for schedule time %.6f; due were %r" % (r, S, want))
                # go on from what happened
                self.pend[r.job] = [p for p in l if p.kind != "schedule"]
                hit = P(r.job, "schedule", q, e["t"])
                hit.respawn = True
                self.pend[r.job].append(hit)
                l = self.pend[r.job]
        self.after_spawn(r, e, hit)

    def after_spawn(self, r, e, hit):
        q, START = e["q"], self.w.start(r)
        l = self.pend.get(r.job, [])
        if hit in l:
            l.remove(hit)
        loose = r.job in self.loosejobs
        if loose and not self.cfg.jobs[r.job]["concurrent_runs"]:
            # whichever it was, the others may have been replaced by it
            for o in l:
                o.opt = True
        if hit is not None and hit.respawn and self.cfg.jobs[r.job]["schedule"] and not self.shut:
            p = P(r.job, "schedule", q, e["t"])
            p.respawn = True
            p.opt = hit.respawn == "maybe" or loose
            p.lo, p.hi = START, max(START, e["w"] / SEC)
            self.bounds(p)
            self.pend.setdefault(r.job, []).append(p)

    # -- progress
    def is_blocked(self, job):
        j = self.cfg.jobs[job]
        mine = [x for x in self.live.values()]
        if not j["concurrent_runs"] and any(x.job == job for x in mine):
            return True
        gs = j["concurrency_groups"]
        if gs:
            for g in gs:
                n = 0
                for x in mine:
                    if x.info["how"] != "exec":
                        n += 1000
                    elif x.group == g:
                        n += 1
                if n < self.cfg.groups[g]:
                    return False
            return True
        return False

    def refresh(self, e):
        t = e["t"]
        for job, l in self.pend.items():
            if not l or job not in self.cfg.jobs:
                continue
            b = None
            for p in l:
                if p.any or p.sched_hi is None:
                    continue
                if b is None:
                    b = self.is_blocked(job)
                if b and p.sched is not None and e["w"] / SEC >= p.sched:
                    p.blocked = True         # if that is when it is due
                if p.due is None and e["w"] / SEC >= p.sched_hi:
                    p.due = p.since = t
                    p.blocked = p.blocked or b
                if p.due is not None and e["w"] / SEC < p.sched_hi:
                    p.due = None             # the clock has been set back; if it was held up, it
                    # may be retried only after the back-off from then
                if p.due is not None:
                    if b:
                        p.blocked = True
                        p.since = None
                    elif p.since is None:
                        p.since = t

    def deadlines(self, e):
        t = e["t"]
        w = self.w
        if self.shut:
            return
        for job, l in self.pend.items():
            for p in l:
                if p.opt or p.any or p.sched_hi is None:
                    continue
                if p.due is None:
                    # it may have come due since the last event (and not due
                    # again, if the clock has been set back)
                    c = w.due_since(int(p.sched_hi * SEC), p.t, t)
                    if c is None:
                        continue
                    b = self.is_blocked(job)
                    p.due = max(c, p.t)
                    p.blocked = p.blocked or b
                    p.since = None if b else p.due
                if p.since is None:
                    continue
                lim = self.BLOCKED if p.blocked else self.START
                if w.late(p.since, lim, t):
                    why = "could have started since %s%s" % (
                        ts(p.since), " (after having been blocked)" if p.blocked else "")
                    self.bad("C05", e["q"], "%r due at %s %s, not started by %s" % (p, ts(p.due), why, ts(t)))
                    self.bad("C07" if p.kind == "file" else "C06", e["q"],
                             "%r%s due at %s was not run (by %s)" % (
                                 p, " (trigger %s)" % p.token if p.token else "", ts(p.due), ts(t)))
                    p.opt = True
        for tk, (t0, n) in list(self.oblig.items()):
            if n >= self.NOTICE:     # by the age the file shows, or when the daemon next looks anyway
                n += sum(min(-j["d"], 61 * SEC) for j in w.hist[:e["q"]] if j["k"] == "jump" and j["d"] < 0
                         and j["t"] >= t0)
            if w.late(t0, n, t):
                x = self.trig[tk]
                self.bad("C07", e["q"], "trigger %s for %s, there to be noticed since %s, was not taken by %s" % (
                    tk, x["job"], ts(t0), ts(t)))
                del self.oblig[tk]


def replay(w):
    if not hasattr(w, "_replay"):
        w._replay = Replay(w)
    return w._replay


def cats(w, *names):
    return [(q, t) for c, q, t in replay(w).v if c in names]


def c05(w):
    return cats(w, "C05") + unexpected_end(w)


def c06(w):
    return cats(w, "C06") + unexpected_end(w)


def c07(w):
    return cats(w, "C07") + what_triggers_set(w, True) + unexpected_end(w)


def what_triggers_set(w, also_failed=False):
    """Each run of a trigger has the data and the environment its writer gave."""
    out = []
    trig = {}
    for ev in w.hist:
        if ev["k"] == "trig" and ev.get("token") is not None:
            trig.setdefault(ev["token"], ev)
    for r in w.runs.values():
        tk = w.token(r)
        ev = trig.get(tk) if tk is not None else None
        if ev is None or ev["q"] > r.q or ev.get("env") is None or ev.get("valid") is not True:
            continue
        if r.info["how"] == "exec":
            for k, v in ev["env"].items():
                if r.env.get(k) != str(v):
                    out.append((r.q, "%r: trigger sets %s=%s, the run has %r" % (r, k, v, r.env.get(k))))
        elif also_failed and not r.info.get("fired") and r.cfg is not None and r.job in r.cfg.jobs and not any(
                e["k"] == "fault" for e in w.hist) and command(r.cfg.jobs[r.job])[0].split("/")[-1].startswith("prog"):
            out.append((r.q, "%r: trigger %s is valid, but its program was not executed: %s" % (
                r, tk, str(r.info.get("exc", r.info.get("at")))[:200])))
        td = w.trigger_data(r)
        if ev.get("data") is not None and td is not None and not same_json(norm_env(ev["data"]), norm_env(td)):
            out.append((r.q, "%r: trigger %s is %r, the run was recorded with %r" % (
                r, tk, ev["data"], td)))
    return out


# --------------------------------------------------------------------------
# C08 nothing from outside ends or derails the daemon
def c08(w):
    out = unexpected_end(w)
    out += stray_kills(w)
    out += cats(w, "C05", "C06", "C07")
    out += prompt_records(w)
    out += at_idle(w)
    return out


def stray_kills(w):
    out = []
    for e in w.hist:
        if e["k"] == "kill":
            if e.get("stray"):
                out.append((e["q"], "signal %d sent to process %d, which is no run in progress (%s)" % (
                    e["sig"], e["pid"], e["stray"])))
            elif e.get("sig") not in (TERM, KILL, 0):
                out.append((e["q"], "signal %d sent to %s" % (e["sig"], e["run"])))
    return out


# --------------------------------------------------------------------------
# C09, C10: signals to runs
def kill_rules(w):
    """[(cat, q, text)] for every signal sent to a run, and for those missing."""
    out = []
    shut = {}

    def wmax(e):
        """The latest the wall clock has shown in the daemon's pass of e: it
        may have been set back since the daemon looked."""
        m = e["w"]
        for x in reversed(w.hist[:e["q"]]):
            if x["inc"] == e["inc"] and x["k"] == "idle":
                break
            m = max(m, x["w"])
        return m

    for n, inc in w.incs.items():
        shut[n] = w.shutdown_q(inc)
    eperm = {}
    for e in w.hist:
        if e["k"] == "fault" and e.get("seam") == "kill":
            eperm.setdefault(e["inc"], []).append(e)
        if e["k"] == "sig_lost":
            sh = shut.get(e["inc"])
            out.append(("C09" if sh is not None and sh["q"] < e["q"] else "C10", e["q"],
                        "run %s of %s did not get the SIGTERM it was sent before its program was executed" % (
                            e["run"], e["job"])))
    for r in w.runs.values():
        if r.job is None or r.cfg is None or r.job not in r.cfg.jobs:
            continue
        inc = w.incs[r.inc]
        s = shut[r.inc]
        j = r.cfg.jobs[r.job]
        M, G = j["max_execution"], j["max_execution_grace"]
        # max_execution: 0 means no limit in this code base; not generated
        START = w.start(r)
        if START is None:
            continue
        cands = shutdown_cfgs(w, inc, s) if s else []
        kr_some = any(c.kill_runs for c in cands)
        kr_all = bool(cands) and all(c.kill_runs for c in cands)
        graces = [c.kill_grace for c in cands if c.kill_runs]
        term = kill = None
        terms = [e for e in r.kills if e["sig"] == TERM and e["inc"] == r.inc]
        kills = [e for e in r.kills if e["sig"] == KILL and e["inc"] == r.inc]
        for e in r.kills:
            if e["inc"] != r.inc:
                out.append(("C10", e["q"], "%r of an earlier daemon was sent signal %d" % (r, e["sig"])))
        for es, name in ((terms, "SIGTERM"), (kills, "SIGKILL")):
            if len(es) > 1:
                out.append(("C10", es[1]["q"], "%r was sent %s %d times" % (r, name, len(es))))
                if s is not None and s["q"] < es[1]["q"]:
                    out.append(("C09", es[1]["q"], out[-1][2]))
        for e in terms[:1]:
            over = M is not None and wmax(e) / SEC >= START + M - EPS
            sd = s is not None and s["q"] < e["q"] and kr_some
            if not over and not sd:
                if s is not None and s["q"] < e["q"] and M is None:
                    out.append(("C09", e["q"], "%r was sent SIGTERM during a shutdown which leaves runs alone" % r))
                elif M is not None:
                    out.append(("C10", e["q"], "%r (max_execution %s) was sent SIGTERM %.3f s after it started" % (
                        r, M, e["w"] / SEC - START)))
                    if s is not None and s["q"] < e["q"]:
                        out.append(("C09", e["q"], "%r was sent SIGTERM during a shutdown which leaves runs alone" % r))
                else:
                    out.append(("C10", e["q"], "%r (no max_execution) was sent SIGTERM" % r))
            term = e
        for e in kills[:1]:
            kill = e
            if term is None or term["q"] > e["q"]:
                if not eperm.get(r.inc):
                    out.append(("C10", e["q"], "%r was sent SIGKILL without a SIGTERM before" % r))
                    if s is not None and s["q"] < e["q"]:
                        out.append(("C09", e["q"], "%r was sent SIGKILL without a SIGTERM before" % r))
                continue
            gone = (e["w"] - term["w"]) / SEC
            if w.jumped(term["t"], e["t"]):
                gone = max(gone, (e["t"] - term["t"]) / SEC)
            over = M is not None and wmax(e) / SEC >= START + M + G - EPS and gone >= G - EPS
            sd = s is not None and s["q"] < e["q"] and any(
                g and gone >= g - EPS and (wmax(e) - s["w"]) / SEC >= g - EPS for g in graces)
            if not over and not sd:
                late = s is not None and s["q"] < e["q"]
                out.append(("C09" if late else "C10", e["q"],
                            "%r (max_execution %s, grace %s, shutdown grace %s) was sent SIGKILL %.3f s after "
                            "its SIGTERM, %.3f s after it started" % (r, M, G, graces, gone, e["w"] / SEC - START)))
                if late and M is not None:
                    out.append(("C10", e["q"], out[-1][2]))
        # and those which have to come
        t_gone = r.exit["t"] if r.exit else None
        t_end = inc.end["t"] if inc.end else w.t_end
        if inc.end is not None and inc.end["how"] in ("died", "livelock", "hang") and not inc.fatal:
            t_end = 1 << 61
        till = min(t_gone if t_gone is not None else 1 << 61, t_end)
        if eperm.get(r.inc):
            continue
        if r.info["how"] != "exec":
            continue

        def overdue(w_due, t_from, have, what, cat):
            c = w.crossing(int(w_due * SEC), t_from, till + 1, 0)
            while c is not None:
                # held from c on?
                lim = w.deadline(c, 3 * SEC)
                if have is not None and have["t"] <= lim:
                    return
                if till <= lim:
                    return
                if not w.jumped(c, lim):
                    out.append((cat, have["q"] if have else r.q, "%r: %s was due at %s; %s" % (
                        r, what, ts(c), "came at %s" % ts(have["t"]) if have else "never came")))
                    return
                c = w.crossing(int(w_due * SEC), lim, till + 1, 0)

        if M is not None:
            overdue(START + M, r.t, term, "SIGTERM for exceeding max_execution", "C10")
            if term is not None:
                overdue(max(term["w"] / SEC + G, START + M + G), term["t"], kill,
                        "SIGKILL after max_execution_grace", "C10")
        if s is not None and kr_all and s["t"] < till:
            t0 = max(s["t"], r.t)
            lim = w.deadline(t0, 3 * SEC)
            if (term is None or term["t"] > lim) and till > lim:
                out.append(("C09", s["q"], "%r was not sent SIGTERM when the daemon was asked to shut down at %s" % (
                    r, ts(s["t"]))))
            if term is not None and graces and all(g for g in graces):
                overdue(max(term["w"], s["w"]) / SEC + max(graces), max(term["t"], s["t"]), kill,
                        "SIGKILL after shutdown_kill_grace", "C09")
    return out


def shutdown_cfgs(w, inc, s):
    """Configurations which may have been in effect from the shutdown request on."""
    out = []
    last = None
    for q, t, wl, v, q2 in inc.loads:
        if q < s["q"]:
            last = v
        else:
            out.append(w.cfgs[v])
    return ([w.cfgs[last]] if last is not None else []) + out


def c09(w):
    out = [(q, t) for c, q, t in kill_rules(w) if c == "C09"]
    out += cats(w, "C09")
    out += unexpected_end(w)
    out += stray_kills(w)
    for n, inc in w.incs.items():
        s = w.shutdown_q(inc)
        for e in w.hist[inc.q0:]:
            if e["inc"] != n:
                break
            if e["k"] == "tty_hit":
                out.append((e["q"], "SIGINT from the terminal reached run %s" % e["run"]))
        if s is None or inc.first_idle is None:
            continue
        end = inc.end
        mine = [r for r in w.runs.values() if r.inc == n and r.job is not None]
        if end["how"] == "exit":
            left = [r for r in mine if r.exit is None or r.exit["q"] > end["q"]]
            if left:
                out.append((end["q"], "daemon exited while %r was still in progress" % left[0]))
            continue
        # it must exit soon after the last run has gone
        last = max([r.exit["t"] if r.exit else 1 << 61 for r in mine] + [s["t"]])
        if end["how"] == "horizon" and w.late(last, 5 * SEC, end["t"]):
            out.append((end["q"], "asked to shut down at %s, no run in progress since %s, but still there at %s" % (
                ts(s["t"]), ts(last), ts(end["t"]))))
    out += prompt_records(w)
    out += at_idle(w)
    return out


def c10(w):
    return [(q, t) for c, q, t in kill_rules(w) if c == "C10"] + unexpected_end(w) + stray_kills(w)


# --------------------------------------------------------------------------
# C11 reload
def ver_of(argv):
    for a in argv:
        if len(a) > 1 and a[0] == "v" and a[1:].isdigit():
            return int(a[1:])
    return None


def c11(w):
    out = []
    for n, inc in sorted(w.incs.items()):
        if not inc.loads:
            continue
        sd = w.shutdown_q(inc)
        for e in w.signals(inc, HUP):
            if inc.first_idle is None or e["q"] < inc.loads[0][0]:
                continue
            got = [x for x in w.hist[e["q"]:] if x["inc"] == n and x["k"] == "conf_read"]
            end = inc.end
            if got:
                if w.late(e["t"], 3 * SEC, got[0]["t"]):
                    out.append((e["q"], "SIGHUP at %s: configuration not read before %s" % (
                        ts(e["t"]), ts(got[0]["t"]))))
            elif sd is None and end["how"] == "horizon" and w.late(e["t"], 3 * SEC, end["t"]):
                out.append((e["q"], "SIGHUP at %s: configuration never read" % ts(e["t"])))
    # a run uses the configuration in effect when it started
    for r in w.runs.values():
        if r.cfg is None or r.info["how"] != "exec" or r.job not in (r.cfg.jobs if r.cfg else {}):
            continue
        v = ver_of(r.info["argv"])
        want = ver_of(command(r.cfg.jobs[r.job]))
        if v != want:
            out.append((r.q, "%r was started with the command of configuration v%s; in effect is v%s" % (r, v, want)))
        td = w.trigger_data(r)
        te = td.get("environment") if isinstance(td, dict) else None
        for var in (r.cfg.jobs[r.job]["environment"] or {}):
            if isinstance(te, dict) and var in te:
                continue
            if var.startswith("JV") and r.env.get(var) != str(r.cfg.jobs[r.job]["environment"][var]):
                out.append((r.q, "%r was started with %s=%r instead of %r" % (
                    r, var, r.env.get(var), r.cfg.jobs[r.job]["environment"][var])))
    out += cats(w, "C11", "C05", "C06", "C07")
    out += [(q, t) for c, q, t in kill_rules(w) if c == "C10"]
    out += c03(w) + c04(w)
    out += unexpected_end(w)
    out += at_idle(w)
    return out


def command(j):
    c = j["command"]
    if isinstance(c, str):
        import shlex
        c = shlex.split(c)
    return list(c)


# --------------------------------------------------------------------------
# C12 what a run finds when it starts
def num(s):
    try:
        return float(s)
    except (TypeError, ValueError):
        return None


def c12(w):
    out = []
    for e in w.hist:
        if e["k"] == "started" and not e["same"]:
            out.append((e["q"], "run %s of %s was started otherwise after a signal" % (e["run"], e["job"])))
        elif e["k"] == "start_failed" and not e["as_before"]:
            out.append((e["q"], "run %s of %s: a signal before its program was executed had the child %s (%s)" % (
                e["run"], e["job"], e["how"], e.get("at"))))
    pw = pwd.getpwuid(0) if os.getuid() == 0 else pwd.getpwuid(os.getuid())
    for r in w.runs.values():
        i = r.info
        q = r.q
        if r.cfg is None or r.job not in r.cfg.jobs or r.job is None:
            continue
        c, j = r.cfg, r.cfg.jobs[r.job]
        if i.get("escape"):
            out.append((q, "the child of %r went on to run the daemon's code (%s)" % (r, i.get("at"))))
            continue
        expect_fail = command(j)[0].split("/")[-1].startswith(("noexec", "denied", "missing"))
        if i["how"] != "exec":
            td = w.trigger_data(r) or {}
            te = td.get("environment") if isinstance(td, dict) else {}
            odd = any(("=" in k or not k or "\0" in k or "\0" in str(v)) for k, v in (te or {}).items())
            if not expect_fail and not odd and not any(
                    e["k"] == "fault" for e in w.hist) and not i.get("fired"):
                out.append((q, "%r did not execute its command: %s" % (r, i.get("exc", i))))
            continue
        data = w.res.data_dir
        rd = "%s/runs/%s/%s" % (data, r.job, r.run)
        argv = command(j)
        if j.get("command_append_run"):
            argv += [r.job, r.run]
        if i["argv"] != argv:
            out.append((q, "%r: command line %r instead of %r" % (r, i["argv"], argv)))
        if i["stdin"] != "/dev/null":
            out.append((q, "%r: stdin is %r" % (r, i["stdin"])))
        for n in ("stdout", "stderr"):
            if i[n] != rd + "/output.txt":
                out.append((q, "%r: %s is %r" % (r, n, i[n])))
        if i["leaked"]:
            out.append((q, "%r: the program inherits open files %r" % (r, i["leaked"])))
        if i["pgid"] != r.pid:
            out.append((q, "%r: not in a process group of its own" % r))
        if i["blocked"]:
            out.append((q, "%r: started with signals %r blocked" % (r, i["blocked"])))
        ign = set(i["ignored"]) - {int(x) for x in ign_at_start(w)}
        if ign:
            out.append((q, "%r: started with signals %r ignored" % (r, sorted(ign))))
        bad_ign = set(i["ignored"]) & {1, 2, 3, 15, 13}
        if bad_ign - ign:
            out.append((q, "%r: started with signals %r ignored" % (r, sorted(bad_ign))))
        e = {}
        if "user" not in w.scn:
            e["LOGNAME"], e["HOME"] = pw.pw_name, pw.pw_dir
        elif w.scn["user"] is not None:
            e["LOGNAME"], e["HOME"] = w.scn["user"]
        dp = w.scn.get("daemon_path", "/sim/bin:/usr/bin:/bin")
        e["PATH"] = dp if dp is not None else "/usr/bin:/bin"
        e.update(CI="true", DSARI="true", DATA_DIR=data, JOB_NAME=r.job, JOB_DIR="%s/runs/%s" % (data, r.job),
                 RUN_ID=r.run, RUN_DIR=rd, TRIGGER_DIR=data + "/trigger")
        if j.get("job_group"):
            e["JOB_GROUP"] = j["job_group"]
        if j.get("jenkins_environment"):
            e.update(BUILD_NUMBER=r.run, BUILD_ID=r.run, BUILD_URL="file://%s/" % rd, NODE_NAME="master",
                     BUILD_TAG="dsari-%s-%s" % (r.job, r.run), JENKINS_URL="file://%s/" % data,
                     EXECUTOR_NUMBER="0", WORKSPACE=rd)
        free = {"SCHEDULE_TIME", "START_TIME", "TRIGGER_TYPE", "CONCURRENCY_GROUP"}
        ov = {}
        for src in (c.conf.get("environment") or {}, j["environment"] or {}):
            ov.update({str(k): str(v) for k, v in src.items()})
        td = w.trigger_data(r)
        if isinstance(td, dict) and isinstance(td.get("environment"), dict):
            ov.update({k: str(v) for k, v in td["environment"].items()})
        want = dict(e)
        want.update(ov)
        pwdir = want.get("PWD")
        want["PWD"] = pwdir if pwdir and w_isdir(w, pwdir) else rd
        got = {k: v for k, v in r.env.items() if not (k.startswith("PREVIOUS_") and k not in ov)}
        for k in free:
            if k not in ov:
                if k != "CONCURRENCY_GROUP" and k not in got:
                    out.append((q, "%r: %s is not set" % (r, k)))
                got.pop(k, None)
        if bool(j["concurrency_groups"]) != ("CONCURRENCY_GROUP" in r.env) and "CONCURRENCY_GROUP" not in ov:
            out.append((q, "%r: CONCURRENCY_GROUP is %r, groups %r" % (
                r, r.env.get("CONCURRENCY_GROUP"), j["concurrency_groups"])))
        if got != want:
            miss = {k: v for k, v in want.items() if got.get(k) != v}
            more = {k: v for k, v in got.items() if k not in want}
            out.append((q, "%r: environment differs: should have %r, has %r and also %r" % (
                r, miss, {k: got.get(k) for k in miss}, more)))
        cw = i["cwd"]
        if cw != os.path.realpath(want["PWD"]) and cw != want["PWD"]:
            out.append((q, "%r: working directory %r instead of %r" % (r, cw, want["PWD"])))
        S, T = num(r.env.get("SCHEDULE_TIME")), num(r.env.get("START_TIME"))
        if "SCHEDULE_TIME" not in ov and "START_TIME" not in ov:
            if S is None or T is None or S > T + EPS or not between(w, T, prev_q_t(w, r) - SEC, r.t):
                out.append((q, "%r: SCHEDULE_TIME=%s START_TIME=%s, started at %.6f" % (
                    r, r.env.get("SCHEDULE_TIME"), r.env.get("START_TIME"), r.w / SEC)))
        x = w.running_first.get(r.run)
        if x and "TRIGGER_TYPE" not in ov and x[1][4] != r.env.get("TRIGGER_TYPE"):
            out.append((q, "%r: TRIGGER_TYPE=%s but recorded as %s" % (r, r.env.get("TRIGGER_TYPE"), x[1][4])))
    out += what_triggers_set(w)
    for q, t in output_kept(w):
        out.append((q, t))
    return out + unexpected_end(w)


def ign_at_start(w):
    import signal as S
    names = {"HUP": S.SIGHUP, "INT": S.SIGINT, "TERM": S.SIGTERM, "QUIT": S.SIGQUIT, "USR1": S.SIGUSR1,
             "USR2": S.SIGUSR2}
    # only those which a program started by nohup and the like expects to stay ignored
    return [names[x] for x in w.scn.get("ignored_at_start", []) if x in ("USR1", "USR2")]


def w_isdir(w, p):
    return p in ("/", "/tmp", "/usr", "/usr/bin", "/etc")


def output_kept(w):
    return []


# --------------------------------------------------------------------------
# C13 previous runs
def c13(w):
    out = []
    hist = w.hist
    done = {}       # job -> [row in order of recording]
    rows = {rid: x[2] for rid, x in w.rows_first.items()}
    lost = set()
    # rows which are in the database when an incarnation starts are all "previous";
    # within an incarnation a run counts from the instant it was seen to end
    for e in hist:
        if e["k"] == "reap" and e["run"] in rows:
            row = rows[e["run"]]
            if w.rows_first[e["run"]][0] > e["q"]:
                done.setdefault(row[0], []).append(row)
        elif e["k"] == "spawn":
            r = w.runs[e["uid"]]
            if r.info["how"] != "exec" or r.job is None:
                continue
            mine = done.get(r.job, [])
            for pre, sel in (("PREVIOUS_", lambda x: True), ("PREVIOUS_GOOD_", lambda x: x[5] == 0),
                             ("PREVIOUS_BAD_", lambda x: x[5] != 0)):
                c = [x for x in mine if sel(x)]
                got = {k[len(pre):]: v for k, v in r.env.items() if k in [pre + n for n in (
                    "RUN_ID", "SCHEDULE_TIME", "START_TIME", "STOP_TIME", "EXIT_CODE")]}
                if not c:
                    if got:
                        out.append((e["q"], "%r: %s* is set to %r, but there is no such run" % (r, pre, got)))
                    continue
                ok = []
                best = max(x[4] for x in c)
                ok = [x for x in c if x[4] == best]
                if c[-1] not in ok and w.jumped(0, e["t"]):
                    ok.append(c[-1])
                if not any(match_prev(got, x) for x in ok):
                    out.append((e["q"], "%r: %s* is %r, but the previous run is %r" % (r, pre, got, ok[-1])))
    return out + unexpected_end(w)


def match_prev(got, x):
    return (got.get("RUN_ID") == x[1] and got.get("EXIT_CODE") == str(x[5]) and
            all(num(got.get(k)) is not None and abs(num(got[k]) - x[n]) < 1.1e-5
                for k, n in (("SCHEDULE_TIME", 2), ("START_TIME", 3), ("STOP_TIME", 4))))


# --------------------------------------------------------------------------
# C14 return data
NOTHING = object()


def parse_ret(fmt, raw):
    """(value, sure): what the file says.  sure=False: this oracle takes no side."""
    try:
        txt = raw.decode("utf-8")
    except UnicodeDecodeError:
        return NOTHING, True
    if fmt == "json":
        try:
            v = json.loads(txt, parse_constant=lambda c: (_ for _ in ()).throw(KeyError(c)))
        except KeyError:
            return NOTHING, False
        except RecursionError:
            return NOTHING, False
        except ValueError:
            return NOTHING, True
        return v, True
    import yaml
    try:
        v = yaml.safe_load(txt)
    except RecursionError:
        return NOTHING, False
    except Exception:
        return NOTHING, True
    try:
        d = json.dumps(v, allow_nan=False)
        if not same_json(json.loads(d), v):
            return NOTHING, False
    except RecursionError:
        return NOTHING, False
    except Exception:
        return NOTHING, False
    return v, True


def c14(w):
    return return_data(w) + prompt_records(w) + at_idle(w) + unexpected_end(w)


def return_data(w):
    """Each run is recorded with what its program left, and nothing else."""
    out = []
    for rid, (q, t, row) in w.rows_first.items():
        rs = w.by_id.get(rid)
        if not rs:
            continue
        r = rs[0]
        files = {}
        for e in r.rets:
            if r.reap is not None and e["q"] < r.reap["q"]:
                if e["fmt"] != "yaml" or "yaml" not in w.scn.get("missing", ()):
                    files[e["fmt"]] = e["hex"]
        try:
            rd = json.loads(row[8])
        except ValueError:
            continue
        got = rd.get("return_data", NOTHING) if isinstance(rd, dict) else NOTHING
        if not files:
            if got is not NOTHING:
                out.append((q, "%r wrote no return data, but %r is recorded" % (r, got)))
            continue
        fmt = "json" if "json" in files else "yaml"
        v, sure = parse_ret(fmt, bytes.fromhex(files[fmt]))
        if not sure:
            continue
        if v is NOTHING:
            if "yaml" in files and fmt == "json":
                continue         # the documentation does not say whether yaml is used then
            if got is not NOTHING:
                out.append((q, "%r wrote invalid return data, but %r is recorded" % (r, got)))
        elif got is NOTHING:
            if not holds(w.scn.get("db"), v):
                continue
            out.append((q, "%r returned %r, but nothing is recorded" % (r, v)))
        elif not same_json(got, v):
            out.append((q, "%r returned %r, but %r is recorded" % (r, v, got)))
    return out


# --------------------------------------------------------------------------
# C19 the other databases
def holds(db, v):
    """Can the database keep this?"""
    def any_in(v, f):
        if isinstance(v, dict):
            return any(f(k, True) or any_in(x, f) for k, x in v.items())
        if isinstance(v, list):
            return any(any_in(x, f) for x in v)
        return f(v, False)

    def surrogate(x):
        return isinstance(x, str) and any(0xD800 <= ord(c) < 0xE000 for c in x)
    v = json.loads(json.dumps(v))
    if db == "mongodb":
        return not any_in(v, lambda x, key: surrogate(x) or (isinstance(x, int) and not -(1 << 63) <= x < 1 << 63) or
                          (key and "\0" in x))
    if db == "postgresql":
        return not any_in(v, lambda x, key: isinstance(x, float) and not math.isfinite(x))
    if db == "mysql":
        return len(json.dumps(v)) < 65000
    return True


def c19(w):
    return c01(w) + c02(w) + c13(w) + c14(w)


# --------------------------------------------------------------------------
# C21 what it says about itself
def c21(w):
    return cats(w, "C21", "C05", "C06", "C07") + unexpected_end(w)


# --------------------------------------------------------------------------
# C22 for months
def c22(w):
    out = unexpected_end(w)
    for inc in sorted({e["inc"] for e in w.hist}):
        L = [e for e in w.hist if e["k"] == "load" and e["inc"] == inc]
        out += piling_up(L, 250)
        for a, b in zip(L, L[1:]):
            # (a sleep is a call as well; a system call of the daemon's takes microseconds, so a daemon which does not
            # sleep makes a hundred thousand of them in a second)
            t, n = (b["t"] - a["t"]) / SEC, b["calls"] - a["calls"]
            ev = b["ev"] - a["ev"]
            jobs = max([len(c["conf"]["jobs"]) for c in w.scn["configs"] if c.get("conf")] + [1])
            if n > 300 * t + (100 + 20 * jobs) * ev + 5000:
                out.append((b["q"], "the daemon made %d calls from %s to %s, in which %d things happened" % (
                    n, ts(a["t"]), ts(b["t"]), ev)))
    return out


def piling_up(L, more):
    """L: what was held, from time to time"""
    if not L:
        return []
    out = []
    x = max(L, key=lambda e: e["fds"])
    if x["fds"] > 4:
        out.append((x["q"], "%d files more than at first are open at %s" % (x["fds"], ts(x["t"]))))
    # (a run in progress comes with its previous ones)
    L = [dict(e, held=max(0, e["held"] - 8 * e.get("live", 0))) for e in L]
    for k, more, what in (("held", more, "objects more are held"), ("files", 60, "files more are kept")):
        first = max(e.get(k, 0) for e in L[:1 + len(L) // 4])
        if len(L) > 5 and L[-1].get(k, 0) > first + more:
            out.append((L[-1]["q"], "%d %s at %s than earlier" % (L[-1][k] - first, what, ts(L[-1]["t"]))))
    return out


# --------------------------------------------------------------------------
# C20 without optional packages
def c20(w):
    return c01(w) + cats(w, "C05", "C06", "C07") + what_triggers_set(w) + return_data(w) + unexpected_end(w)


ORACLES = {"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07, "C08": c08,
           "C09": c09, "C10": c10, "C11": c11, "C12": c12, "C13": c13, "C14": c14, "C19": c19, "C20": c20, "C21": c21, "C22": c22}


def judge(pid, res):
    w = World(res)
    v = ORACLES[pid](w)
    seen, out = set(), []
    for q, t in sorted(v, key=lambda x: (x[0], x[1])):
        if (q, t) not in seen:
            seen.add((q, t))
            out.append((q, t))
    return out
