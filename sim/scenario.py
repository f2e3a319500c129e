"""Seeded scenario generator: one integer decides the workload, the schedule and
the faults of a simulated execution.  A scenario is plain JSON."""
import datetime
import json
import random
from zoneinfo import ZoneInfo

import fuzztext
import refsched
from world import expand, Cfg

SEC = 1000000
MIN = 60 * SEC

NAMES = ["a", "b", "c", "job-1", "job_2", "nightly build", "x.y+z", "me@host", "s:t", "J", "backup", "db.dump"]
FAST = ["* * * * *", "* * * * * */15", "* * * * * 0,30", "*/2 * * * *", "H/2 * * * *", "RRULE:FREQ=MINUTELY",
        "RRULE:FREQ=SECONDLY;INTERVAL=20", "* * * * * */7", "* * * * * 59", "*/3 * * * * H", "H/5 * * * *",
        "RRULE:FREQ=MINUTELY;INTERVAL=2", "* * * * * H(10-50)"]
ZONES = ["UTC", "UTC", "Europe/Berlin", "America/New_York", "America/Los_Angeles", "Asia/Kolkata",
         "Australia/Lord_Howe", "America/St_Johns", "Pacific/Auckland", "Asia/Tokyo"]
# local noon-ish instants around DST changes
DST = [1711846800, 1729990800, 1743296400, 1761440400, 1710054000, 1730613600, 1741503600, 1762063200,
       1712415600, 1727532000, 1743865200]


def weighted(r, pairs):
    x = r.random() * sum(p for _, p in pairs)
    for v, p in pairs:
        x -= p
        if x < 0:
            return v
    return pairs[-1][0]


DATABASES = {"postgresql": {"type": "postgresql", "dsn": "host=dbserver dbname=dsari"},
             "mysql": {"type": "mysql", "connection": {"host": "dbserver", "user": "u", "passwd": "p", "db": "dsari"}},
             "mongodb": {"type": "mongodb", "uri": "mongodb://localhost/dsari", "database": "dsari"}}


class Gen:
    def __init__(self, pid, seed, i, tier="quick"):
        self.r = random.Random("%s/%s/%s" % (pid, seed, i))
        self.pid, self.i, self.tier = pid, i, tier
        self.ops = []
        self.ntok = 0
        self.configs = []
        self.beh = {}
        self.scn = {}
        self.slow = False
        self.new_names = False
        self.db = None

    def chance(self, p):
        return self.r.random() < p

    # ------------------------------------------------------------ machine
    def machine(self, horizon, tz=None):
        r = self.r
        self.horizon = horizon
        w = r.randint(1672531200, 1798761600)
        if self.chance(0.25):
            w = r.choice(DST) + r.randint(-7200, 7200)
        elif self.chance(0.2):
            w = w // 86400 * 86400 - r.randint(0, 300)
        w += r.choice([0.0, r.random(), r.random()])
        self.tz = tz or r.choice(ZONES)
        self.scn.update(noise=r.randint(0, 1 << 30), wall0=w, horizon=int(horizon), tz=self.tz)
        self.w0 = w
        if self.chance(0.25):
            self.scn["pid_reuse"] = True
        if self.chance(0.2):
            self.scn["oversleep"] = r.choice([1000, 20000, 200000, 700000])
        if self.chance(0.15):
            self.scn["vfs_cost"] = {"sync": r.choice([10, 3000, 40000])}
        if self.chance(0.1):
            self.scn["restart_delay"] = r.choice([0, 100000, 30 * SEC])

    # ---------------------------------------------------------------- jobs
    def dur(self):
        r = self.r
        k = weighted(r, [("tiny", 2), ("short", 4), ("mid", 4), ("minute", 2), ("long", 2), ("huge", 0.7)])
        return int({"tiny": r.uniform(0.001, 0.2), "short": r.uniform(0.2, 4), "mid": r.uniform(4, 30),
                    "minute": r.uniform(50, 70), "long": r.uniform(70, 200), "huge": r.uniform(250, 900)}[k] * SEC)

    def one_beh(self, **k):
        r = self.r
        b = {"dur": self.dur()}
        if self.chance(0.15):
            b["sig"] = r.choice([1, 2, 6, 9, 11, 15, 14, 24])
            if self.chance(0.4):
                b["core"] = 1
        else:
            b["exit"] = r.choice([0, 0, 0, 0, 1, 2, 3, 42, 127, 126, 128, 137, 200, 254, 255])
        t = weighted(r, [("die", 6), ("ignore", 2), ("exit:0", 1), ("exit:3", 1)])
        b["term"] = t
        b["term_delay"] = int(r.choice([500, 2000, 50000, SEC, 4 * SEC, 20 * SEC]))
        b["kill_delay"] = int(r.choice([500, 1000, 40000, 2 * SEC] * 3 + [70 * SEC]))
        b.update(k)
        return b

    def behaviours(self, job, n=None, **k):
        self.beh[job] = [self.one_beh(**k) for _ in range(n or self.r.randint(1, 4))]

    def job(self, name, v=0, **force):
        r = self.r
        j = {}
        prog = "prog" if not self.chance(0.05) else "missing"
        j["command"] = [prog, name, "v%d" % v]
        if self.chance(0.2):
            j["command"] = '%s "two words" v%d \'q\'' % (prog, v)
        if self.chance(0.75):
            j["schedule"] = r.choice(FAST)
        elif self.chance(0.5):
            j["schedule"] = None
        if self.chance(0.3):
            j["schedule_timezone"] = r.choice(ZONES)
        if self.chance(0.25):
            j["concurrent_runs"] = True
        if self.chance(0.3):
            j["max_execution"] = r.choice([0.5, 1, 3, 10, 30, 61.5, 100])
            if self.chance(0.7):
                j["max_execution_grace"] = r.choice([0, 0.2, 1, 5, 20.5, 60.0])
        if self.chance(0.3):
            j["environment"] = {"JV%s" % k: r.choice(["x", 5, 1.5, "ä b", "v%d" % v]) for k in "AB"[:r.randint(1, 2)]}
        j.update(force)
        return j

    def jobs(self, n, **force):
        names = self.r.sample(NAMES, n)
        if self.new_names:
            names = list(dict.fromkeys("".join(self.r.choice("abcdXYZ -_.:@+019") for _ in range(self.r.randint(1, 9)))
                                       for _ in range(n)))
            names = [x for x in names if x not in (".", "..")] or ["a"]
        if self.db and n > 1 and self.chance(0.5):
            names[:2] = ["J", "j"]
            names = list(dict.fromkeys(names))
        self.names = names
        out = {}
        for nm in names:
            out[nm] = self.job(nm, 0, **force)
            self.behaviours(nm)
        return out

    def groups(self, jobs, p=0.5, maxes=(1, 1, 2, 3)):
        r = self.r
        gs = ["g%d" % k for k in range(r.randint(1, 3))]
        conf = {}
        for g in gs:
            if self.chance(0.6):
                conf[g] = {"max": r.choice(maxes)} if self.chance(0.9) else {}
        for j in jobs.values():
            if self.chance(p):
                j["concurrency_groups"] = r.sample(gs, r.randint(1, len(gs)))
        return conf

    def conf(self, jobs, groups=None, **k):
        c = {"data_dir": "@DATA@", "jobs": jobs}
        if groups:
            c["concurrency_groups"] = groups
        if self.db:
            c["database"] = dict(DATABASES[self.db])
        c.update(k)
        return c

    def add_conf(self, conf, ok=True, files=None):
        e = {"conf": conf, "ok": ok}
        if files is not None:
            e["files"] = files
        self.configs.append(e)
        return len(self.configs) - 1

    def mutate_conf(self, base, v):
        """A changed version of a configuration."""
        r = self.r
        c = json.loads(json.dumps(base))
        for n in list(c["jobs"]):
            j = c["jobs"][n]
            cmd = j["command"]
            if isinstance(cmd, list):
                cmd = [("v%d" % v) if (x[:1] == "v" and x[1:].isdigit()) else x for x in cmd]
            else:
                cmd = " ".join(("v%d" % v) if (x[:1] == "v" and x[1:].isdigit()) else x for x in cmd.split(" "))
            j["command"] = cmd
            for k in list((j.get("environment") or {})):
                if self.chance(0.5) and k != "PATH":
                    j["environment"][k] = "e%d" % v
            x = r.random()
            if x < 0.25:
                j["schedule"] = r.choice((SLOW if self.slow else FAST) + [None])
            elif x < 0.35:
                del c["jobs"][n]
                continue
            elif x < 0.45:
                j["concurrent_runs"] = not j.get("concurrent_runs", False)
            elif x < 0.6:
                j["max_execution"] = r.choice([0.5, 2, 15, 40, 90])
                j["max_execution_grace"] = r.choice([0.2, 2, 10, 60])
            elif x < 0.65:
                j.pop("max_execution", None)
            elif x < 0.75 and j.get("concurrency_groups"):
                j["concurrency_groups"] = j["concurrency_groups"][:-1] or ["g9"]
        for g in list(c.get("concurrency_groups", {})):
            x = r.random()
            if x < 0.2:
                del c["concurrency_groups"][g]
            elif x < 0.5:
                c["concurrency_groups"][g] = {"max": r.choice([1, 2, 3])}
        left = [n for n in NAMES if n not in c["jobs"]]
        if self.chance(0.3) or not c["jobs"]:
            n = r.choice([n for n in self.names if n not in c["jobs"]] or left)
            c["jobs"][n] = self.job(n, v)
            if self.slow:
                c["jobs"][n]["schedule"] = r.choice(SLOW)
            if n not in self.beh:
                self.behaviours(n)
            if n not in self.names:
                self.names.append(n)
        if self.chance(0.15):
            c["shutdown_kill_runs"] = not c.get("shutdown_kill_runs", False)
        return c

    BAD_CONF = ['{', '', '[]', '"x"', '{"jobs": []}', '{"jobs": {"a": {}}}', '{"jobs": {"a/b": {"command": ["x"]}}}',
                '{"jobs": {"a": {"command": ["x"], "schedule": "61 * * * *"}}}',
                '{"jobs": {"a": {"command": ["x"], "schedule": "nonsense"}}}',
                '{"jobs": {"a": {"command": 5}}}', '{"data_dir": 5}', '{"environment": {"a": []}}',
                '{"jobs": {"a": {"command": ["x"], "max_execution": "long"}}}',
                '{"jobs": {"a": {"command": "unbalanced \\""}}}', '{"jobs": null}', 'null',
                '{"jobs": {"a": {"command": ["x"], "concurrency_groups": ["../x"]}}}', '\udcff\udcfe{}',
                '{"jobs": {"a": {"command": ["x"], "environment": {"k": {}}}}}',
                '{"jobs": {"a": {"command": ["x"], "schedule": "RRULE:FREQ=SOMETIMES"}}}',
                '{"job_groups": {"g": {"command": ["x"]}}}',
                '{"concurrency_groups": {"g": {"max": "many"}}}']

    # ---------------------------------------------------------------- time
    def t_any(self, lo=0.0, hi=1.0):
        return int(self.r.uniform(lo, hi) * self.horizon)

    def occurrences(self, conf, limit=400):
        """Instants (µs since the start) at which jobs come due."""
        out = []
        c = Cfg(0, conf, self.tz)
        for n, j in c.jobs.items():
            if not j["schedule"]:
                continue
            x = self.w0
            for _ in range(60):
                o = c.next_after(n, x)
                if o is None or o == refsched.UNSURE:
                    break
                t = (o + refsched.offset(n) - self.w0) * SEC
                if t > self.horizon:
                    break
                out.append(int(t))
                x = o + 0.5
        out.sort()
        return out[:limit]

    def t_near(self, conf, spread=0.3):
        """An instant close to where something happens."""
        if not hasattr(self, "_occ"):
            self._occ = self.occurrences(conf)
        if not self._occ or self.chance(0.3):
            return self.t_any(0.02, 0.95)
        t = self.r.choice(self._occ)
        if self.chance(0.5):
            # around the end of a run started then
            d = [b["dur"] for l in self.beh.values() for b in l]
            t += self.r.choice(d or [0])
        t += int(self.r.gauss(0, spread) * SEC)
        return max(1000, min(t, self.horizon - 1000))

    SEAMS = [("fork", None), ("wait4", None), ("mkdir", "/runs/"), ("open", None), ("stat", "trigger"),
             ("sleep", None), ("kill", None), ("rename", None), ("remove", None), ("stat", "/runs/")]

    def at(self, conf, spread=0.3, seams=True):
        """When an operation strikes: a time, a time and then the n-th system
        call of a kind, or a time and then the n-th instant inside dsari's code."""
        t = self.t_near(conf, spread)
        x = self.r.random()
        if not seams or x < 0.4:
            return {"t": t}
        if x < 0.7:
            t = max(1000, t - int(self.r.uniform(0, 1.5) * SEC))
            return {"t": t, "prof": self.r.randint(1, self.r.choice([5, 40, 150, 600]))}
        s, m = self.r.choice(self.SEAMS)
        a = {"t": max(1000, t - SEC), "seam": s, "nth": self.r.randint(1, 3)}
        if m:
            a["match"] = m
        if s in ("fork", "wait4", "mkdir", "rename", "remove", "open") and self.chance(0.5):
            a["after"] = True
        return a

    def slow_child(self, t=None, sig=None, long=0.3):
        """A child which takes long to get to its program; sig: along with a signal meanwhile."""
        r = self.r
        t = self.t_any(0, 0.9) if t is None else t
        nth = r.choice([1, 1, 1, 2, 3])
        dur = int(r.uniform(0.2, 12) * SEC) if self.chance(long) else r.randint(20, 200000)
        self.op("slowchild", {"t": t, "seam": "fork", "nth": nth}, n=r.choice([0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11]),
                dur=dur)
        if sig == "TTY":
            self.op("tty_int", {"t": t, "seam": "fork", "nth": nth, "after": True})
        elif sig:
            self.op("sig", {"t": t, "seam": "fork", "nth": nth, "after": True}, sig=sig)

    def op(self, op, at, **k):
        d = {"op": op, "at": at}
        d.update(k)
        self.ops.append(d)
        return d

    # ------------------------------------------------------------ triggers
    def token(self):
        self.ntok += 1
        return "t%d" % self.ntok

    def trigger(self, at, job, valid=True, fmt=None, **k):
        r = self.r
        tk = self.token()
        data = {"token": tk}
        env = {"TOK": tk}
        if self.chance(0.3):
            env["TE%d" % r.randint(1, 3)] = r.choice(["1", "x y", "ö", ""])
        if self.chance(0.15):
            env["JVA"] = "from trigger"
        data["environment"] = dict(env)
        if self.chance(0.1):
            data["environment"]["TNUM"] = r.choice([5, 2.5, -1])
            env["TNUM"] = str(data["environment"]["TNUM"])
        if self.chance(0.12):
            # nothing but the wish to run
            env = {}
            data = r.choice([{"token": tk}, {"token": tk, "environment": {}}])
        if self.chance(0.3):
            data["type"] = r.choice(["git", "x"])
            data["description"] = "some – text"
        if self.chance(0.1):
            data["extra"] = {"a": [1, None, True, {"b": 1.25}]}
        elif self.chance(0.2):
            data["extra"] = fuzztext.value(r, 3)
        if self.db and self.chance(0.25):
            # (databases have their limits)
            data["text"] = r.choice(["y", "ä", "\\"]) * r.choice([100, 260, 1100, 5000, 10000, 66000])
        sched = None
        t_w = self.w0 + at.get("t", 0) / SEC
        if self.chance(k.pop("p_sched", 0.3)):
            sched = t_w + r.choice([-100000, -3600, -5, 2, 20, 45, 90, 200, 500, 1e6])
            if self.chance(0.15):
                sched = r.choice([0, 0, 1, -1, 86400])
            how = r.choice(["int", "float", "iso", "isotz", "isoz", "zone"])
            if how == "int":
                sched = float(int(sched))
                data["schedule_time"] = int(sched)
            elif how == "float":
                data["schedule_time"] = sched
                if self.chance(0.3):
                    data["schedule_timezone"] = r.choice(ZONES)
            else:
                sched = float(int(sched))
                zn = self.tz if how != "zone" else r.choice(ZONES)
                if refsched.shaky(zn, int(sched // 3600)) or refsched.shaky(self.tz, int(sched // 3600)):
                    how = "isotz"
                if how == "isoz":
                    data["schedule_time"] = datetime.datetime.fromtimestamp(sched, refsched.UTC).strftime(
                        "%Y-%m-%dT%H:%M:%SZ")
                else:
                    d = datetime.datetime.fromtimestamp(sched, ZoneInfo(zn))
                    if how == "isotz":
                        data["schedule_time"] = d.isoformat()
                    else:
                        data["schedule_time"] = d.replace(tzinfo=None).isoformat()
                        if how == "zone":
                            data["schedule_timezone"] = zn
        if fmt is None:
            fmt = r.choice(["json", "json", "yaml"])
        text = json.dumps(data)
        if fmt == "yaml" and self.chance(0.5):
            import yaml
            if self.chance(0.3):
                data[fuzztext.odd_key(r)] = fuzztext.value(r, 2, fuzztext.odd_key)
            text = yaml.safe_dump(data, allow_unicode=True, sort_keys=False)
            if repr(yaml.safe_load(text)) != repr(data):
                data = json.loads(json.dumps(data))
                text = json.dumps(data)
            data = json.loads(json.dumps(data))
        elif fmt == "yaml":
            import yaml
            data["extra"] = yaml.safe_load(text).get("extra") if "extra" in data else None
            if data["extra"] is None:
                del data["extra"]
                text = json.dumps(data)
        d = dict(job=job, text=text, token=tk, valid=valid, fmt=fmt, env=env, data=data)
        if sched is not None:
            d["sched"] = sched
        d.update(k)
        if self.chance(0.15) and "mode" not in d:
            d["mode"] = "write"
            d["cut"] = 0
            d["delay"] = int(r.choice([200, 3000, 40000, 300000, 2 * SEC]))
        return self.op("trigger", at, **d)

    def invalid_trigger(self, at, job, **k):
        """Not what the documentation says a trigger is, and nothing else."""
        r = self.r
        tk = self.token()
        d = {"token": tk, "environment": {"TOK": tk}}
        x = r.random()
        text = None
        if x < 0.25:
            d["environment"] = r.choice([[], ["A=B"], 5, "A=B", [["A", "B"]], [tk]])
        elif x < 0.5:
            d["environment"][r.choice(["A", "TE1"])] = r.choice([None, {}, {"B": "1"}, [], ["x"]])
        elif x < 0.75:
            d["schedule_time"] = r.choice(["garbage", {}, [], ["2024-01-01"], "2024-13-45", "25:99", {"t": 5}])
        elif x < 0.85:
            d["schedule_time"] = "2024-06-01T00:00:00"
            d["schedule_timezone"] = r.choice(["No/Such", "Mars", "Europe/Nowhere"])
        elif x < 0.93:
            text = json.dumps(d)[:-r.randint(1, 12)]
        else:
            text = json.dumps(r.choice([[d], [], 5, tk, [tk], None, 2.5, True]))
        return self.op("trigger", at, job=job, text=text or json.dumps(d), valid=False, fmt=r.choice(["json", "json", "yaml"]),
                       token=tk, **k)

    HOSTILE = ['', '[]', '5', 'null', '"x"', 'nonsense{', '{"environment": []}', '{"environment": {"A": null}}',
               '{"environment": {"A": {"B": 1}}}', '{"schedule_time": "garbage"}', '{"schedule_time": {}}',
               '{"schedule_time": []}', '{"schedule_time": null}', '{"schedule_time": 1e400}',
               '{"schedule_time": 1e20}', '{"schedule_time": -1e20}', '{"schedule_time": NaN}',
               '{"schedule_time": "9999-12-31T23:59:59.9-12:00"}', '{"schedule_time": ""}',
               '{"schedule_time": "2024-01-01T00:00:00", "schedule_timezone": "No/Such"}',
               '{"schedule_time": "2024-01-01T00:00:00", "schedule_timezone": 5}',
               '{"schedule_time": 5, "schedule_timezone": {}}', '\udcff\udcfe', '{"a": "\udcff"}',
               '{"environment": {"A": true}}', '{"schedule_time": "0001-01-01T00:00:00"}',
               '{"schedule_time": true}', '{"schedule_time": 1' + '0' * 400 + '}']
    HOSTILE_YAML = ['!!python/object/apply:os.system ["true"]', '&a [*a]', 'a: &a {b: *a}', '%', '\t', '- x', '? {}',
                    'environment: {1: x}', 'schedule_time: 2024-01-01T00:00:00', 'x: 2024-01-01', '{[]: 1}',
                    'a: !!binary aGk=', 'a: !!set {x, y}', '- - -\n - x: [', '*undefined', '"\\ud800"', '1: 2',
                    'schedule_time: .inf', 'schedule_time: .nan', 'environment: {A: .inf, B: 0x1F}', '? a\n: b', '=: 1']

    def hostile_trigger(self, at, job, **k):
        r = self.r
        x = r.random()
        fmt = r.choice(["json", "yaml"])
        if x < 0.05:
            text = "[" * 100000 if fmt == "json" else "[" * 3000
        elif fmt == "yaml" and x < 0.2:
            text = r.choice(self.HOSTILE_YAML)
        elif x < 0.45:
            # a value of another type wherever one is expected
            k["token"] = self.token()
            d = {"token": k["token"]}
            for f in r.sample(["environment", "schedule_time", "schedule_timezone", "type", "description"],
                              r.choice([1, 1, 1, 2, 3])):
                v = self.odd_value()
                if f == "environment" and self.chance(0.3):
                    v = {"A": self.odd_value(), "B": "x"}
                d[f] = v
            text = json.dumps(d)
            if fmt == "yaml" and self.chance(0.4):
                text = json.dumps(d, indent=1)
        elif x < 0.5:
            # syntactically fine, but no environment
            k["token"] = self.token()
            text = json.dumps({"token": k["token"], "environment": {r.choice(["A=B", "", "A\0"]): "x"}})
        elif x < 0.62:
            k["token"] = self.token()
            t = json.dumps({"token": k["token"], "environment": {"TOK": "x"}, "e": fuzztext.value(r, 2)})
            if fmt == "yaml" and self.chance(0.7):
                t = "token: %s\nextra: %s" % (k["token"], fuzztext.yaml_text(r))
            text = fuzztext.mutate(r, t.encode("utf-8", "surrogatepass")).decode("utf-8", "surrogateescape")
        else:
            text = r.choice(self.HOSTILE)
        d = dict(job=job, text=text, valid="maybe", fmt=fmt)
        d.update(k)
        d.setdefault("token", self.token())
        return self.op("trigger", at, **d)

    def odd_value(self):
        r = self.r
        return r.choice([[], ["A"], ["A=B", "C=D"], [["A", "B"]], [1], [None], [{}], [[]], {}, {"A": "B"}, {"": {}}, "", "x", "A=B",
                         "0", "null", 0, 1, -1, 5, 2.5, -0.0, 1e300, 1 << 70, True, False, None, [True], {"x": [1, {"y": None}]},
                         "2024-13-45", "UTC", "Europe/Berlin", "/etc/passwd", "../x", "\u0000", "a\u0000b", "\ud800"])

    # -------------------------------------------------------------- faults
    def add_triggers(self, conf, n, **k):
        for _ in range(n):
            at = self.at(conf)
            job = self.r.choice(self.names)
            self.trigger(at, job, **dict(k))
            if self.chance(0.35):
                a2 = {"t": at["t"] + int(self.r.choice([100, 40000, 500000, SEC, 3 * SEC]))}
                self.op("sig", a2, sig="USR1")
            if self.chance(0.2):
                # a second one right behind, or in the middle of noticing it
                a2 = {"t": at["t"]}
                x = self.r.random()
                if x < 0.4:
                    a2["t"] += int(self.r.choice([10, 100, 20000, 300000]))
                else:
                    a2.update(seam=self.r.choice(["open", "rename", "remove", "stat"]), match="trigger/",
                              nth=self.r.randint(1, 4))
                    if self.chance(0.5):
                        a2["after"] = True
                self.trigger(a2, job, p_sched=0.1)
            if self.chance(0.07):
                a2 = {"t": at["t"]}
                if self.chance(0.5):
                    a2["t"] += int(self.r.uniform(0, 3) * SEC)
                else:
                    a2.update(seam=self.r.choice(["open", "rename", "stat"]), match="trigger/", nth=self.r.randint(1, 3))
                self.op("rmtrigger", a2, job=job, fmt=self.ops[-1].get("fmt", "json"))

    def add_signals(self, conf, n, sigs=("USR1", "QUIT", "HUP")):
        for _ in range(n):
            self.op("sig", self.at(conf), sig=self.r.choice(sigs))

    def add_reloads(self, conf, n, bad=0.25, same=0.15):
        cur = conf
        times = sorted(self.t_near(conf) for _ in range(n))
        for t in times:
            v = len(self.configs)
            x = self.r.random()
            if x < bad:
                i = self.add_conf({}, ok=False, files={"dsari.json": self.r.choice(self.BAD_CONF)})
            elif x < bad + same:
                i = None
            else:
                cur = self.mutate_conf(cur, v)
                i = self.add_conf(cur)
            a = {"t": t}
            if i is not None:
                self.op("config", {"t": t}, v=i)
                a = {"t": t + int(self.r.choice([10, 5000, SEC, 20 * SEC]))}
            if self.chance(0.3):
                a["prof"] = self.r.randint(1, self.r.choice([5, 40, 300]))
            elif self.chance(0.3):
                s, m = self.r.choice(self.SEAMS)
                a.update(seam=s, nth=self.r.randint(1, 2))
                if m:
                    a["match"] = m
            self.op("sig", a, sig="HUP")
            if self.chance(0.15):
                b = dict(a)
                b["t"] = a["t"] + int(self.r.choice([1, 300, 20000, 400000]))
                self.op("sig", b, sig=self.r.choice(["HUP", "USR1", "QUIT"]))

    def add_crashes(self, conf, n, power=0.4):
        for _ in range(n):
            op = "power" if self.chance(power) else "crash"
            x = self.r.random()
            if x < 0.5:
                at = {"vfs": self.r.randint(1, self.r.choice([6, 20, 60])), "t": self.t_near(conf)}
            elif x < 0.8:
                at = self.at(conf)
            else:
                at = {"t": self.t_any(0.01, 0.95)}
            self.op(op, at, salt=self.r.randint(0, 999),
                    restart=int(self.r.choice([1000, SEC, 5 * SEC, 60 * SEC])))

    def add_stalls(self, conf, n):
        for _ in range(n):
            self.op("stall", self.at(conf), dur=int(self.r.choice([0.2, 1, 5, 20, 70]) * SEC))

    def add_jumps(self, conf, n):
        for _ in range(n):
            d = self.r.choice([-1, 1]) * int(self.r.choice([0.3, 2, 30, 61, 600, 3600, 86400]) * SEC)
            self.op("jump", self.at(conf, seams=self.chance(0.4)), d=d)

    def add_foreign(self, conf, n):
        for _ in range(n):
            self.op("foreign", self.at(conf), status=self.r.choice([0, 9, 256]))

    def add_locks(self, conf, n, long=False):
        for _ in range(n):
            a = {"t": self.t_near(conf)} if self.chance(0.5) else \
                {"vfs": self.r.randint(1, 20), "t": self.t_near(conf)}
            self.op("lock", a, dur=int(self.r.choice([0.01, 0.3, 1.5, 3.5]) * SEC),
                    level=self.r.choice(["shared", "shared", "reserved"]))

    def add_diskfaults(self, conf, n):
        for _ in range(n):
            self.op("vfserr", {"vfs": self.r.randint(1, self.r.choice([10, 40])), "t": self.t_near(conf)},
                    rc=self.r.choice(["IOERR_READ", "IOERR_WRITE", "IOERR_FSYNC", "FULL", "FULL", "IOERR_DELETE",
                                      "BUSY"]),
                    more=self.r.choice([0, 0, 3]))

    def add_resource(self, conf, n):
        for _ in range(n):
            s, e = self.r.choice([("fork", "EAGAIN"), ("fork", "ENOMEM"), ("mkdir", "ENOSPC"), ("mkdir", "EIO")])
            self.op("err", {"t": self.t_near(conf), "seam": s, "nth": self.r.randint(1, 3)}, errno=e, fatal=True)

    def done(self):
        self.scn.update(configs=self.configs, beh=self.beh, ops=self.ops)
        return self.scn


# ---------------------------------------------------------------- profiles
def base_world(g, lo=4, hi=14, njobs=(1, 4), p_group=0.35, tz=None, **jk):
    r = g.r
    g.machine(r.uniform(lo, hi) * MIN, tz)
    jobs = g.jobs(r.randint(*njobs), **jk)
    groups = g.groups(jobs) if g.chance(p_group) else {}
    extra = {}
    if g.chance(0.2):
        extra["environment"] = {"GV": "g", "JVA": "global"}
    conf = g.conf(jobs, groups, **extra)
    g.add_conf(conf)
    return conf


def p_c01(g):
    conf = base_world(g)
    r = g.r
    g.add_triggers(conf, r.randint(0, 3))
    if g.chance(0.3):
        g.add_signals(conf, r.randint(1, 3), ("USR1", "QUIT"))
    if g.chance(0.3):
        g.add_reloads(conf, r.randint(1, 2))
    if g.chance(0.3):
        g.add_stalls(conf, r.randint(1, 2))
    if g.chance(0.25):
        g.add_jumps(conf, r.randint(1, 2))
    if g.chance(0.25):
        g.add_locks(conf, r.randint(1, 3))
    if g.chance(0.25):
        g.add_foreign(conf, r.randint(1, 3))
    if g.chance(0.3):
        g.add_crashes(conf, r.randint(1, 2))
    if g.chance(0.4):
        rets(g)
    if g.chance(0.2):
        g.op("sig", g.at(conf), sig=r.choice(["TERM", "INT"]))
        g.scn["restart_on_exit"] = g.chance(0.5)
    if g.chance(0.15):
        g.slow_child(sig=r.choice([None, "HUP", "USR1"]))


def p_c02(g):
    conf = base_world(g, lo=3, hi=9)
    r = g.r
    g.add_triggers(conf, r.randint(0, 2))
    g.add_crashes(conf, r.randint(1, 4), power=0.5)
    if g.chance(0.35):
        g.add_diskfaults(conf, r.randint(1, 2))
    if g.chance(0.3):
        g.add_locks(conf, r.randint(1, 2))
    if g.chance(0.15):
        g.add_resource(conf, 1)
    if g.chance(0.3):
        for _ in range(r.randint(1, 3)):
            g.op("dbprobe", {"vfs": r.randint(1, 40), "t": g.t_near(conf)})
    if g.chance(0.3):
        for _ in range(r.randint(1, 4)):
            g.op("dbprobe", g.at(conf))
    if g.chance(0.2):
        rets(g)


def p_c03(g):
    r = g.r
    conf = base_world(g, p_group=0.3)
    for j in conf["jobs"].values():
        if g.chance(0.6):
            j.pop("concurrent_runs", None)
        if g.chance(0.5):
            j["schedule"] = r.choice(["* * * * * */7", "* * * * * */15", "* * * * *", "RRULE:FREQ=SECONDLY;INTERVAL=20"])
    g.add_triggers(conf, r.randint(1, 5), p_sched=0.2)
    if g.chance(0.6):
        g.add_reloads(conf, r.randint(1, 4), bad=0.15)
    if g.chance(0.3):
        g.add_signals(conf, r.randint(1, 3), ("USR1", "QUIT"))
    if g.chance(0.2):
        g.add_foreign(conf, r.randint(1, 3))
    if g.chance(0.2):
        g.add_stalls(conf, 1)
    if g.chance(0.2):
        g.add_jumps(conf, r.randint(1, 2))
    if g.chance(0.1):
        g.add_crashes(conf, 1)
    if g.chance(0.15):
        err_kill(g, conf)


def err_kill(g, conf, n=1):
    for _ in range(n):
        g.op("err", {"t": g.t_near(conf), "seam": "kill", "nth": 1}, errno="EPERM", count=g.r.choice([1, 1, 5]))


def p_c04(g):
    r = g.r
    g.machine(r.uniform(4, 14) * MIN)
    jobs = g.jobs(r.randint(2, 6))
    groups = g.groups(jobs, p=0.9)
    for j in jobs.values():
        if g.chance(0.5):
            j["schedule"] = r.choice(["* * * * * */7", "* * * * * */15", "* * * * *", "RRULE:FREQ=MINUTELY"])
    conf = g.conf(jobs, groups)
    g.add_conf(conf)
    g.add_triggers(conf, r.randint(0, 4), p_sched=0.2)
    if g.chance(0.6):
        g.add_reloads(conf, r.randint(1, 4), bad=0.15)
    if g.chance(0.3):
        g.add_signals(conf, r.randint(1, 3), ("USR1", "QUIT"))
    if g.chance(0.2):
        g.add_foreign(conf, r.randint(1, 2))
    if g.chance(0.2):
        g.add_stalls(conf, 1)
    if g.chance(0.1):
        g.add_crashes(conf, 1)


def held_for_hours(g):
    """Runs which wait for hours for another one."""
    r = g.r
    hold = r.uniform(1, 9) * 60 * MIN
    g.machine(hold + r.uniform(15, 60) * MIN)
    g.slow = True
    jobs = g.jobs(r.randint(1, 3), max_execution=0, concurrent_runs=False)
    names = list(jobs)
    groups = {}
    for n, j in jobs.items():
        j["schedule"] = r.choice(["H * * * *", "@hourly", "*/20 * * * *", None])
        g.behaviours(n)
    if len(names) > 1:
        groups = {"g": {"max": 1}}
        for n in names:
            jobs[n]["concurrency_groups"] = ["g"]
    b = g.one_beh(term="ignore")
    b["dur"] = int(hold)
    g.beh[names[0]] = [b] + g.beh[names[0]]
    conf = g.conf(jobs, groups)
    g.add_conf(conf)
    g.trigger({"t": g.t_any(0, 0.02)}, names[0], p_sched=0)
    for _ in range(r.randint(1, 3)):
        g.trigger({"t": g.t_any(0.03, 0.9)}, r.choice(names), p_sched=0.1)
    if g.chance(0.2):
        g.add_jumps(conf, 1)
    if g.chance(0.2):
        g.add_stalls(conf, 1)
    if g.chance(0.2):
        g.add_signals(conf, r.randint(1, 4))


def p_c05(g):
    r = g.r
    if g.chance(0.06):
        return held_for_hours(g)
    g.machine(r.uniform(8, 25) * MIN)
    jobs = g.jobs(r.randint(1, 5))
    groups = g.groups(jobs, p=0.7) if g.chance(0.7) else {}
    conf = g.conf(jobs, groups)
    g.add_conf(conf)
    g.add_triggers(conf, r.randint(0, 3))
    if g.chance(0.35):
        g.add_jumps(conf, r.randint(1, 3))
    if g.chance(0.3):
        g.add_stalls(conf, r.randint(1, 2))
    if g.chance(0.3):
        g.add_signals(conf, r.randint(1, 4))
    if g.chance(0.25):
        g.add_reloads(conf, r.randint(1, 2))
    if g.chance(0.15):
        g.add_crashes(conf, 1)
    if g.chance(0.2):
        g.add_locks(conf, r.randint(1, 3))


SLOW = ["H * * * *", "H/15 * * * *", "H(30-59)/10 * * * *", "H H * * *", "H H(0-7) * * *", "@midnight", "@hourly",
        "@daily", "30 14 * * 1-5", "0 12 * * 0", "0 12 * * 7", "30 9 1,15 * *", "15 10 13 * 5", "*/20 * * * * 13",
        "RRULE:FREQ=HOURLY", "RRULE:FREQ=DAILY", "RRULE:FREQ=HOURLY;INTERVAL=6", "RRULE:FREQ=DAILY;BYMINUTE=5,35", "RRULE:FREQ=DAILY;BYHOUR=12;BYMINUTE=0", "RRULE:FREQ=DAILY;BYDAY=MO,TH;BYHOUR=14;BYMINUTE=30",
        "0 */6 * * *", "59 23 * * *", "0 0 * * *", "@weekly", "0 10 * * 5-7", "15 9-17/2 * * 1-5 30"]


def rand_cron(r):
    """A definition of 5 or 6 fields, hashed or not."""
    def num(lo, hi):
        return r.randint(lo, hi)

    def fld(pos, lo, hi, names=()):
        k = r.random()
        if k < 0.28:
            return "*"
        if k < 0.42:
            return "H"
        if k < 0.52:
            return str(r.choice(names)) if names and r.random() < 0.3 else str(num(lo, hi))
        if k < 0.62:
            return ",".join(str(x) for x in sorted(r.sample(range(lo, hi + 1), r.randint(2, 3))))
        if k < 0.70:
            a = num(lo, hi - 1)
            return "%d-%d" % (a, num(a + 1, hi))
        if k < 0.78:
            return "*/%d" % num(2, max(2, (hi - lo) // 2))
        if k < 0.84:
            return "H/%d" % num(1, max(2, (hi - lo) // 2))
        if k < 0.90:
            a = num(lo, hi - 1)
            return "H(%d-%d)" % (a, num(a, hi))
        if k < 0.95:
            a = num(lo, hi - 2)
            b = num(a + 2, hi)
            return "H(%d-%d)/%d" % (a, b, num(1, b - a))
        a = num(lo, hi - 2)
        return "%d-%d/%d" % (a, num(a + 1, hi), num(2, 5))
    f = [fld(0, 0, 59), fld(1, 0, 23), "*", "*", "*"]
    k = r.random()
    if k < 0.25:
        f[2] = fld(2, 1, 28)
    elif k < 0.5:
        f[4] = fld(4, 0, 6)
    if r.random() < 0.15:
        f[3] = fld(3, 1, 12)
    if r.random() < 0.3:
        f.append(str(num(0, 59)) if r.random() < 0.8 else fld(5, 0, 59))
    return " ".join(f)


def rand_rrule(r):
    freq = r.choice(["MINUTELY", "HOURLY", "HOURLY", "DAILY", "DAILY", "WEEKLY", "WEEKLY", "MONTHLY", "MONTHLY", "YEARLY"])
    p = []
    if r.random() < 0.5:
        p.append("INTERVAL=%d" % r.choice({"MINUTELY": [5, 7, 13, 90], "HOURLY": [2, 5, 7, 36], "DAILY": [2, 3, 10]}
                                          .get(freq, [2, 3])))

    def some(lo, hi, n=2):
        return ",".join(str(x) for x in sorted(r.sample(range(lo, hi + 1), r.randint(1, n))))
    wd = ("MO", "TU", "WE", "TH", "FR", "SA", "SU")
    coarse = freq not in ("MINUTELY", "HOURLY")
    setpos = False
    if freq == "MONTHLY":
        k = r.random()
        if k < 0.25:
            p.append("BYMONTHDAY=" + r.choice([some(1, 28), "-1", "1,15", "-2,10"]))
        elif k < 0.5:
            p.append("BYDAY=" + ",".join("%d%s" % (r.choice([1, 2, -1]), w) for w in r.sample(wd, r.randint(1, 2))))
        elif k < 0.75:
            p.append("BYDAY=" + ",".join(r.sample(wd, r.randint(1, 5))))
            if r.random() < 0.7:
                p.append("BYSETPOS=%d" % r.choice([1, 2, -1]))
                setpos = True
    elif freq == "YEARLY":
        if r.random() < 0.5:
            p.append("BYMONTH=" + some(1, 12))
        if r.random() < 0.5:
            p.append("BYMONTHDAY=" + some(1, 28))
    else:
        if r.random() < 0.35:
            p.append("BYDAY=" + ",".join(r.sample(wd, r.randint(1, 3))))
        elif r.random() < 0.1:
            p.append("BYMONTHDAY=" + some(1, 28, 5))
        if r.random() < 0.1:
            p.append("BYMONTH=" + some(1, 12, 6))
    if coarse and not setpos and r.random() < 0.4:
        p.append("BYHOUR=" + some(0, 23))
    if (coarse or freq == "HOURLY") and not setpos and r.random() < 0.3:
        p.append("BYMINUTE=" + some(0, 59))
    if not setpos and r.random() < 0.15:
        p.append("BYSECOND=" + some(0, 59))
    r.shuffle(p)
    return "RRULE:" + ";".join(["FREQ=" + freq] + p)


def p_c06(g):
    r = g.r
    slow = g.slow = g.chance(0.5)
    g.new_names = g.chance(0.7 if slow else 0.3)
    if slow:
        g.machine(r.uniform(2, 30) * 60 * MIN)
        if g.chance(0.5):
            # over a DST change
            g.tz = g.scn["tz"] = r.choice([z for z in ZONES if z not in ("UTC", "Asia/Kolkata", "Asia/Tokyo")])
            g.w0 = g.scn["wall0"] = r.choice(DST) - r.randint(3, 20) * 3600 + r.random() * 3600
            g.scn["horizon"] = g.horizon = int(r.uniform(16, 40) * 60 * MIN)
        jobs = g.jobs(r.randint(1, 3), max_execution=None)
        for n, j in jobs.items():
            j.pop("max_execution", None)
            j["schedule"] = r.choice(SLOW)
            if g.chance(0.5):
                j["schedule"] = rand_cron(r) if g.chance(0.5) else rand_rrule(r)
                x, k, cc = g.w0, 0, Cfg(0, {"jobs": jobs}, g.tz)
                while k < 20 and x not in (None, refsched.UNSURE):
                    x = cc.next_after(n, x)
                    k += 1
                if k == 20 and x not in (None, refsched.UNSURE) and x - g.w0 < 900:
                    j["schedule"] = r.choice(SLOW)
            g.beh[n] = [g.one_beh(dur=int(r.uniform(0.05, 1.2) * SEC))]
        c = Cfg(0, g.conf(jobs), g.tz)
        if g.chance(0.6) and not any(abs(g.w0 - d) < 4 * 86400 for d in DST):
            # a little before the time of one of those which come seldom
            soon = [x for x in (c.next_after(n, g.w0) for n in jobs) if x not in (None, refsched.UNSURE)]
            if soon and max(soon) > g.w0 + g.horizon / SEC and max(soon) < g.w0 + 3e7:
                g.w0 = g.scn["wall0"] = max(soon) - r.uniform(0.05, 0.95) * g.horizon / SEC
                g.scn["near"] = 1
        for n in jobs:
            # no more than some 250 runs of each job
            x, k = g.w0 + 1800, 0
            while k < 20 and x not in (None, refsched.UNSURE):
                x = c.next_after(n, x)
                k += 1
            if k == 20 and x not in (None, refsched.UNSURE):
                g.scn["horizon"] = g.horizon = min(g.horizon, max(3600, int((x - g.w0) * 12)) * SEC)
    else:
        g.machine(r.uniform(5, 20) * MIN)
        jobs = g.jobs(r.randint(1, 4))
        for n, j in jobs.items():
            if g.chance(0.8):
                j["schedule"] = r.choice(FAST)
            if g.chance(0.25):
                u = int(g.w0 + r.uniform(30, g.horizon / SEC))
                zn = j.get("schedule_timezone") or g.tz
                if g.chance(0.5):
                    us = datetime.datetime.fromtimestamp(u, refsched.UTC).strftime("%Y%m%dT%H%M%SZ")
                else:
                    us = datetime.datetime.fromtimestamp(u, ZoneInfo(zn)).strftime("%Y%m%dT%H%M%S")
                j["schedule"] = "RRULE:FREQ=MINUTELY;INTERVAL=%d;UNTIL=%s" % (r.choice([1, 2]), us)
            if g.chance(0.5):
                g.beh[n] = [g.one_beh(dur=int(r.uniform(0.01, 10) * SEC))]
    conf = g.conf(jobs)
    g.add_conf(conf)
    if g.chance(0.35):
        g.add_reloads(conf, r.randint(1, 3), bad=0.2, same=0.6)
    if g.chance(0.3):
        g.add_triggers(conf, r.randint(1, 3))
    if g.chance(0.25):
        g.add_signals(conf, r.randint(1, 4), ("USR1", "QUIT", "HUP"))
    if g.chance(0.2) and not slow:
        g.add_stalls(conf, r.randint(1, 2))
    if g.chance(0.2) and not slow:
        g.add_jumps(conf, r.randint(1, 2))
    if g.chance(0.2):
        g.add_crashes(conf, r.randint(1, 2))


def p_c07(g):
    r = g.r
    conf = base_world(g, lo=4, hi=12, p_group=0.2)
    for j in conf["jobs"].values():
        if g.chance(0.5):
            j["schedule"] = r.choice([None, "*/5 * * * *", "H * * * *"])
    g.add_triggers(conf, r.randint(2, 8))
    if g.chance(0.2):
        # one run starts another
        c = []
        for n in g.names:
            o = g.trigger({"t": 0}, r.choice(g.names), p_sched=0.1)
            g.ops.pop()
            o = {k: v for k, v in o.items() if k not in ("op", "at")}
            c.append(o)
        g.scn["cascades"] = c
        for i, n in enumerate(g.names):
            b = g.beh[n][0]
            b = dict(b)
            b["steps"] = [[r.random(), "trig", i]]
            g.beh[n] = [b] + g.beh[n][:0] + [g.one_beh() for _ in range(30)]
    if g.chance(0.3):
        g.add_reloads(conf, r.randint(1, 3), bad=0.2, same=0.3)
    if g.chance(0.2):
        g.add_crashes(conf, r.randint(1, 2))
    if g.chance(0.2):
        for _ in range(r.randint(1, 3)):
            g.hostile_trigger(g.at(conf), r.choice(g.names))
    if g.chance(0.35):
        for _ in range(r.randint(1, 4)):
            g.invalid_trigger(g.at(conf), r.choice(g.names))
    if g.chance(0.15):
        g.add_stalls(conf, 1)
    if g.chance(0.15):
        g.op("trigger", {"t": g.t_any(0, 0.3)}, job=r.choice(g.names), text="", mode="dir", token=None,
             fmt=r.choice(["json", "yaml"]), valid=False)
    if g.chance(0.2):
        g.add_jumps(conf, 1)
    if g.chance(0.1):
        g.op("sig", {"t": g.t_any(0.5, 1)}, sig="TERM")


HOSTILE_RET = [("json", b""), ("json", b"{"), ("json", b"\xff\xfe"), ("json", b"NaN"), ("json", b"[" * 50000),
               ("json", b'"\\ud800"'), ("json", b"1e999"), ("yaml", b""), ("yaml", b"!!python/object/apply:os.getpid []"),
               ("yaml", b"&a [*a]"), ("yaml", b"2024-01-01"), ("yaml", b"{[]: 1}"), ("yaml", b"\x00"), ("yaml", b"!!binary aGk="),
               ("yaml", b"? {}\n: x"), ("yaml", b"!!set {a, b}"), ("yaml", b"- x: ["), ("yaml", b"\xff"),
               ("json", b'{"a": 1' + b"0" * 5000 + b"}"), ("yaml", b"a: .nan"), ("yaml", b"1: x"), ("yaml", b"%TAG"),
               ("yaml", b"0" * 5), ("json", b'{"a":1} trailing')]
GOOD_RET = [("json", b'{"a": 1}'), ("json", b"[]"), ("json", b"null"), ("json", b'"text \xc3\xa9"'), ("json", b"0"),
            ("json", b"false"), ("json", b'{"n": {"x": [1.5, null, "y"]}}'), ("yaml", b"a: 1\nb: [x, y]\n"),
            ("yaml", b"just text"), ("yaml", b"{}"), ("yaml", b"- 1\n- two\n"), ("yaml", b"k: {n: null}\n"),
            ("json", b'{"big": "' + b"x" * 4000 + b'"}'), ("json", b" 12345678901234567890 "), ("yaml", b"a: 'q'\n")]


def rets(g, p=0.6, hostile=0.2):
    r = g.r
    for l in g.beh.values():
        for b in l:
            if g.chance(p):
                st = b.setdefault("steps", [])
                for _ in range(r.choice([1, 1, 2])):
                    h = g.chance(hostile)
                    if g.db and g.chance(0.2):
                        f, raw = "json", json.dumps({"t": "y" * r.choice([100, 260, 1100, 5000, 30000])}).encode()
                    elif g.chance(0.5):
                        f, raw = r.choice(HOSTILE_RET if h else GOOD_RET)
                    else:
                        f, raw = fuzztext.ret(r, h)
                    if g.chance(0.1):
                        raw2 = raw[:len(raw) // 2]
                        st.append([0.5, "ret", f, raw2.hex()])
                    st.append([r.choice([0.01, 0.9, 0.999]), "ret", f, raw.hex()])
                st.sort(key=lambda x: x[0])


def p_c08(g):
    r = g.r
    conf = base_world(g, lo=3, hi=9)
    for _ in range(r.randint(1, 6)):
        g.hostile_trigger(g.at(conf), r.choice(g.names))
    g.add_triggers(conf, r.randint(0, 3))
    g.add_signals(conf, r.randint(0, 8), ("USR1", "QUIT", "HUP"))
    if g.chance(0.4):
        # a burst
        t = g.t_near(conf)
        for _ in range(r.randint(3, 12)):
            t += int(r.expovariate(1 / 3000.0))
            a = {"t": t}
            if g.chance(0.4):
                a["prof"] = r.randint(1, 60)
            g.op("sig", a, sig=r.choice(["USR1", "QUIT", "HUP"]))
    if g.chance(0.5):
        g.add_reloads(conf, r.randint(1, 3), bad=0.6)
    if g.chance(0.5):
        rets(g, hostile=0.8)
    if g.chance(0.4):
        g.add_foreign(conf, r.randint(1, 4))
    if g.chance(0.3):
        err_kill(g, conf, r.randint(1, 2))
    if g.chance(0.2):
        g.add_jumps(conf, 1)
    if g.chance(0.3):
        g.add_locks(conf, r.randint(1, 3))
    if g.chance(0.1):
        a = g.t_any(0, 0.9)
        g.scn["log_full"] = [[a, a + int(r.choice([SEC, 60 * SEC, 3600 * SEC]))]]
    if g.chance(0.2):
        g.op("trigger", {"t": g.t_any(0, 0.9)}, job=r.choice(g.names), text="", mode="dir", token=None,
             fmt=r.choice(["json", "yaml"]), valid=False)
    if len(g.configs) == 1 and not any(o["op"] == "jump" for o in g.ops) and g.chance(0.35):
        odd_conf(g, conf)


ODD_COMMANDS = [["prog", 5], [5], [], "", ["prog", None], ["prog", {"a": 1}], ["prog\u0000"], ["prog", "\ud800"], [["prog"]],
                ["prog", True], [""], ["prog", 1.5, "x"], ["", "prog"], ["/"], ["prog", "x" * 200000]]
ODD_LIMITS = [1e10, 2.4e11, 1e12, 86399999999999, 8e13, 1e300, 1e-7, 1e-300, 5e-6, 315537897600, float("nan"), float("inf")]
ODD_ENVIRONMENTS = [{"A=B": "x"}, {"": "x"}, {"A\u0000": "1"}, {"A": "\ud800"}, {"X": True}, {"A": "a\u0000b"}, {"A": 1e300},
                    {"A": float("nan")}, {"A": None}, {"PWD": "\ud800"}, {"PWD": "a\u0000b"}, {"PATH": ""}, {"PATH": "a\u0000"}]
ODD_ZONES = ["Nowhere/Nothing", "", "/etc/passwd", "../../etc/passwd", "\u0000", "A" * 5000, "UTC+3", "EST5EDT,M3.2.0,M11.1.0",
             "\ud800", ":", "Europe"]
ODD_GROUPS = [["gg\n"], "abc", {"gg": 1}, [], ["gg", "gg"], [5], [None], 5, [[]], ["gg", 5]]
ODD_SCHEDULES = ["", " ", "@yearly", "* * * * * * *", "H H H H H", "*/0 * * * *", "H/0 * * * *", "5-1 * * * *", "RRULE:", "rrule:freq=minutely",
                 "RRULE:FREQ=SECONDLY;INTERVAL=1000000", "@reboot", "0 0 L * *", "0 0 * * 5#2", "RRULE:FREQ=DAILY;COUNT=1",
                 "RRULE:FREQ=YEARLY;BYMONTH=2;BYMONTHDAY=29", "0 0 29 2 *", "0 0 30 2 *", "0 0 31 4,6 *", "RRULE:FREQ=MINUTELY;UNTIL=20200101T000000",
                 "RRULE:FREQ=MINUTELY;UNTIL=20990101T000000Z", "\u0663 * * * *", "H(5-1) * * * *", "H(0-70) * * * *", "* *  * * *", "*\t* * * *",
                 "RRULE:FREQ=HOURLY;BYMINUTE=61", "RRULE:FREQ=MONTHLY;BYMONTHDAY=31", "@every_minute", "H * * * * H H",
                 "RRULE:FREQ=HOURLY;INTERVAL=0", "RRULE:INTERVAL=-1;FREQ=DAILY", "H/90 * * * *", "H(0-0) * * * * H", "RRULE:FREQ=YEARLY;INTERVAL=100000"]


def odd_conf(g, conf):
    """A reload of a configuration with a job of odd settings: it may be refused or applied (which the job "canary"
    shows), but nothing it says may harm the daemon and the other jobs."""
    r = g.r
    c = json.loads(json.dumps(conf))
    odd = {"command": ["prog", "odd", "v1"], "schedule": r.choice(FAST)}
    k = weighted(r, [("command", 3), ("limit", 3), ("grace", 2), ("environment", 2), ("zone", 1.5), ("groups", 1.5), ("max", 1.5),
                     ("schedule", 2.5), ("shutdown", 1)])
    if k == "command":
        odd["command"] = r.choice(ODD_COMMANDS)
    elif k == "limit":
        odd["max_execution"] = r.choice(ODD_LIMITS)
        if g.chance(0.3):
            odd["max_execution_grace"] = r.choice(ODD_LIMITS)
    elif k == "grace":
        odd["max_execution"] = r.choice([0.5, 2, 5])
        odd["max_execution_grace"] = r.choice(ODD_LIMITS)
    elif k == "environment":
        odd["environment"] = r.choice(ODD_ENVIRONMENTS)
    elif k == "zone":
        odd["schedule_timezone"] = r.choice(ODD_ZONES)
        odd["odd"] = 1
    elif k == "groups":
        odd["concurrency_groups"] = r.choice(ODD_GROUPS)
    elif k == "max":
        odd["concurrency_groups"] = ["gg"]
        c.setdefault("concurrency_groups", {})["gg"] = {"max": r.choice([0, -1, 1 << 70, 1])}
    elif k == "schedule":
        odd["schedule"] = r.choice(ODD_SCHEDULES)
        odd["odd"] = 1
        if g.chance(0.4):
            odd["schedule_timezone"] = r.choice(ZONES)
    elif k == "shutdown":
        c["shutdown_kill_runs"] = True
        c["shutdown_kill_grace"] = r.choice(ODD_LIMITS)
    c["jobs"]["odd"] = odd
    c["jobs"]["canary"] = {"command": ["prog", "canary", "v1"], "schedule": "* * * * * */5"}
    g.behaviours("odd")
    g.beh["canary"] = [{"dur": 2000, "exit": 0, "term": "die", "term_delay": 500, "kill_delay": 500}]
    i = g.add_conf(c, ok="maybe")
    t = g.t_any(0.2, 0.5)
    g.op("config", {"t": t}, v=i)
    g.op("sig", {"t": t + int(r.choice([10, 5000, SEC, 5 * SEC]))}, sig="HUP")
    if g.chance(0.5):
        g.trigger({"t": t + int(r.uniform(8, 30) * SEC)}, "odd", valid="maybe", p_sched=0.1)
    if k == "shutdown" or g.chance(0.2):
        g.op("sig", {"t": g.t_any(0.9, 0.97)}, sig=r.choice(["TERM", "INT"]))


def p_c09(g):
    r = g.r
    conf = base_world(g, lo=4, hi=16, njobs=(1, 5))
    if g.chance(0.6):
        conf["shutdown_kill_runs"] = True
        if g.chance(0.65):
            conf["shutdown_kill_grace"] = r.choice([0.5, 2, 5.0, 20, 61])
    elif g.chance(0.3):
        conf["shutdown_kill_grace"] = 3
    t = g.at(conf)
    if g.chance(0.5):
        t["t"] = min(t["t"], int(0.6 * g.horizon))
    if g.chance(0.2):
        g.slow_child(sig=r.choice(["TERM", "TERM", "INT", "TTY"]))
    elif g.chance(0.25):
        g.op("tty_int", t)
    else:
        g.op("sig", t, sig=r.choice(["TERM", "INT"]))
    if g.chance(0.2):
        g.slow_child(min(t["t"], g.horizon - SEC))
    for _ in range(r.choice([0, 0, 1, 3])):
        a = {"t": t["t"] + int(r.expovariate(1 / (8.0 * SEC)))}
        if g.chance(0.3):
            a["prof"] = r.randint(1, 100)
        g.op("sig", a, sig=r.choice(["TERM", "INT", "HUP", "USR1", "QUIT"]))
    if g.chance(0.3):
        # Reloads while runs are still awaited
        for n in r.sample(g.names, r.randint(1, len(g.names))):
            g.beh[n] = [g.one_beh(dur=int(r.uniform(10, 300) * SEC), term=r.choice(["die", "ignore", "ignore"]))
                        for _ in range(r.randint(1, 3))]
        for _ in range(r.randint(1, 3)):
            g.op("sig", {"t": t["t"] + int(r.expovariate(1 / (6.0 * SEC)))}, sig="HUP")
    if g.chance(0.15):
        # A limit is reached before or while runs are awaited: its grace is what counts, unless they are to be killed anyway
        for n in r.sample(g.names, r.randint(1, len(g.names))):
            j = conf["jobs"].get(n)
            if j is not None:
                j["max_execution"], j["max_execution_grace"] = r.choice([1, 5, 20, 40]), r.choice([30, 90, 200])
                g.beh[n] = [g.one_beh(dur=int(r.uniform(60, 400) * SEC), term="ignore") for _ in range(3)]
        conf["shutdown_kill_grace"] = r.choice([1, 3, 10])
    g.add_triggers(conf, r.randint(0, 3))
    if g.chance(0.3):
        g.trigger({"t": t["t"] + int(r.uniform(0, 4) * SEC)}, r.choice(g.names), p_sched=0)
    if g.chance(0.3):
        g.add_reloads(conf, r.randint(1, 2))
    if g.chance(0.15):
        err_kill(g, conf)
    if g.chance(0.15):
        g.add_stalls(conf, 1)
    if g.chance(0.15):
        g.add_jumps(conf, 1)
    if g.chance(0.2):
        g.add_foreign(conf, 1)
    if g.chance(0.3):
        g.scn["restart_on_exit"] = True


def p_c10(g):
    r = g.r
    conf = base_world(g, lo=4, hi=12, njobs=(1, 4))
    for n, j in conf["jobs"].items():
        if g.chance(0.85):
            j["max_execution"] = r.choice([0.5, 1, 3, 10, 30, 61.5])
            j["max_execution_grace"] = r.choice([0, 0.2, 1, 5, 20.5, 60.0])
            if g.chance(0.3):
                j.pop("max_execution_grace")
            g.beh[n] = [g.one_beh(dur=int(max(0.01, j["max_execution"] + r.choice(
                [-0.02, 0.02, -0.3, 1, 8, 100, 300])) * SEC)) for _ in range(r.randint(1, 4))]
    if g.chance(0.4):
        g.add_reloads(conf, r.randint(1, 3))
    if g.chance(0.3):
        g.add_stalls(conf, r.randint(1, 2))
    if g.chance(0.3):
        g.add_jumps(conf, r.randint(1, 2))
    if g.chance(0.3):
        g.add_signals(conf, r.randint(1, 4), ("USR1", "QUIT", "HUP"))
    if g.chance(0.3):
        g.add_triggers(conf, r.randint(1, 3))
    if g.chance(0.15):
        err_kill(g, conf)
    if g.chance(0.25):
        g.op("sig", g.at(conf), sig="TERM")
        if g.chance(0.4):
            # (only for runs which are to be killed)
            conf["shutdown_kill_grace"] = r.choice([0.5, 3, 20])
            conf["shutdown_kill_runs"] = g.chance(0.3)
    if g.chance(0.15):
        g.add_foreign(conf, 2)
    if g.chance(0.1):
        g.add_crashes(conf, 1)
    if g.chance(0.35):
        for _ in range(r.randint(1, 3)):
            g.slow_child(long=0.7)


def p_c11(g):
    r = g.r
    conf = base_world(g, lo=4, hi=12, njobs=(1, 5))
    g.add_reloads(conf, r.randint(1, 6), bad=0.25)
    if g.chance(0.4):
        g.add_triggers(conf, r.randint(1, 3))
    if g.chance(0.2):
        g.add_signals(conf, r.randint(1, 3), ("USR1", "QUIT"))
    if g.chance(0.15):
        g.add_stalls(conf, 1)
    if g.chance(0.15):
        g.op("sig", g.at(conf), sig="TERM")


def p_c12(g):
    r = g.r
    conf = base_world(g, lo=3, hi=8, njobs=(1, 4), p_group=0.4)
    for n, j in conf["jobs"].items():
        if g.chance(0.4):
            j["jenkins_environment"] = True
        if g.chance(0.4):
            j["command_append_run"] = True
        if g.chance(0.3):
            j["job_group"] = "some group"
        if g.chance(0.3):
            e = j.setdefault("environment", {})
            for k in r.sample(["PATH", "HOME", "CI", "WORKSPACE", "JOB_NAME", "PWD", "LOGNAME", "DATA_DIR", "EMPTY",
                               "GV", "PS1", "LD_X"], r.randint(1, 3)):
                e[k] = {"PATH": "/sim/bin:/x", "PWD": r.choice(["/tmp", "/usr", "/nonexistent/x", "/"])}.get(
                    k, r.choice(["", "v", "a=b", "ü", 7, "line\nbreak"]))
        if g.chance(0.15):
            c = j["command"]
            if isinstance(c, list):
                c[0] = r.choice(["denied", "noexec", "missing", "/sim/bin/prog", "/sim/bin/prog7", "prog-x"])
                c[1:1] = r.choice([[], ["", " sp ace "], ["ünï", "-x"], ["$HOME", "`x`", "*"]])
    if g.chance(0.3):
        g.scn["user"] = r.choice([None, ["build", "/home/build"], ["ci-user.1", "/"], ["ü", "/srv/ü b"]])
    if g.chance(0.4):
        conf["environment"] = {k: r.choice(["1", "x", 3]) for k in r.sample(["GV", "CI", "HOME", "JVA", "JVB", "LANG", "EMPTY"], 3)}
    if g.chance(0.3):
        names = list(conf["jobs"])
        n = names[0]
        t = conf["jobs"].pop(n)
        t["job_names"] = [n, "grp-2"]
        if not g.beh.get("grp-2"):
            g.behaviours("grp-2")
            g.names.append("grp-2")
        t.pop("job_group", None)
        conf["job_groups"] = {"the-group": t}
    if g.chance(0.3):
        for _ in range(r.randint(1, 3)):
            g.slow_child(sig=r.choice([None, "HUP", "USR1", "TTY", "QUIT"]))
    g.scn["daemon_env"] = {"SIMX_SECRET": "s", "SIMX_B": "2"} if g.chance(0.7) else {}
    if g.chance(0.3):
        g.scn["fds"] = r.sample([3, 4, 5, 6, 7, 9, 63, 255, 256, 1023], r.randint(1, 4))
    if g.chance(0.1):
        g.scn["daemon_path"] = None
    if g.chance(0.2):
        g.scn["ignored_at_start"] = r.sample(["HUP", "INT", "TERM", "QUIT", "USR1"], r.randint(1, 3))
    if g.chance(0.2):
        g.scn["argv"] = r.choice([["--debug"], ["--fork"], []])
        if g.scn["argv"] == ["--fork"]:
            g.scn["fork_mode"] = True
    g.configs[0]["conf"] = conf
    g.add_triggers(conf, r.randint(1, 4))
    if g.chance(0.3):
        g.add_reloads(conf, r.randint(1, 2), bad=0.1)
    if "daemon_path" in g.scn:
        for c in g.configs:
            c = c["conf"]
            if not c:
                continue
            for j in list(c["jobs"].values()) + list(c.get("job_groups", {}).values()):
                if isinstance(j["command"], list) and j["command"][0].startswith("prog"):
                    j["command"][0] = "/sim/bin/prog"
                elif isinstance(j["command"], str) and j["command"].startswith("prog"):
                    j["command"] = "/sim/bin/" + j["command"]
    if g.chance(0.2):
        g.add_signals(conf, r.randint(1, 3), ("USR1", "QUIT"))
    if g.chance(0.2):
        outs(g)


def outs(g):
    r = g.r
    for l in g.beh.values():
        for b in l:
            b.setdefault("steps", []).append([r.random(), "out", r.randbytes(r.randint(1, 60)).hex()])
            b["steps"].sort(key=lambda x: x[0])


def p_c13(g):
    r = g.r
    conf = base_world(g, lo=4, hi=12, njobs=(1, 3))
    for n, j in conf["jobs"].items():
        j["schedule"] = r.choice(["* * * * *", "* * * * * */15", "* * * * * 0,30", "* * * * * */7", None])
        g.beh[n] = [g.one_beh(dur=int(r.uniform(0.01, 40) * SEC)) for _ in range(r.randint(3, 8))]
    g.add_triggers(conf, r.randint(0, 4), p_sched=0.1)
    if g.chance(0.4):
        g.add_crashes(conf, r.randint(1, 2))
    if g.chance(0.3):
        g.add_reloads(conf, r.randint(1, 3))
    if g.chance(0.15):
        g.add_jumps(conf, 1)
    if g.chance(0.2):
        g.op("sig", {"t": g.t_near(conf)}, sig="TERM")
        g.scn["restart_on_exit"] = True


def p_c14(g):
    r = g.r
    conf = base_world(g, lo=3, hi=8, njobs=(1, 4))
    rets(g, p=0.85, hostile=0.35)
    g.add_triggers(conf, r.randint(0, 2))
    if g.chance(0.2):
        g.add_reloads(conf, r.randint(1, 2))
    if g.chance(0.2):
        g.add_crashes(conf, 1)
    if g.chance(0.2):
        g.add_stalls(conf, 1)
    if g.chance(0.15):
        g.add_signals(conf, 2, ("USR1", "QUIT"))


def p_c19(g):
    """The daemon on another database."""
    r = g.r
    g.db = g.scn["db"] = r.choice(sorted(DATABASES))
    if g.chance(0.5):
        g.scn["db_tz"] = r.choice(ZONES)
    r.choice([p_c01, p_c01, p_c02, p_c02, p_c13, p_c14])(g)
    ops = []
    for o in g.ops:
        at = o["at"]
        if o["op"] in ("lock", "vfserr"):
            if g.chance(0.3):
                o = {"op": "dbgone", "at": at}
            else:
                continue
        if "vfs" in at:
            n = at.pop("vfs")
            at.update(seam="sql", nth=max(1, n // 3))
            if g.chance(0.5):
                at["match"] = r.choice(["commit", "insert", "delete"])
                at["nth"] = r.randint(1, 3)
            if g.chance(0.5):
                at["after"] = True
        ops.append(o)
    g.ops[:] = ops


def lacking(r, scn, also=()):
    """A machine on which some optional packages are not installed."""
    m = set(r.choice([["croniter"], ["croniter", "dateutil"], ["croniter", "dateutil"], ["yaml"], ["yaml", "croniter"],
                      ["yaml", "croniter", "dateutil"]]))
    for x in ("termcolor", "IPython", "psycopg2", "MySQLdb", "pymongo") + tuple(also):
        if r.random() < 0.4:
            m.add(x)
    scn["missing"] = sorted(m)
    return m


def unknown_schedules(configs):
    """Without the packages, nobody can tell whether a schedule is a valid one."""
    for c in configs:
        for n, text in c.get("files", {}).items():
            if not c.get("ok", True) and '"schedule"' in text:
                c["files"][n] = "{"


def p_c20(g):
    """The daemon without some of the optional packages."""
    r = g.r
    m = lacking(r, g.scn, ("jinja2", "lzma"))
    r.choice([p_c01, p_c05, p_c06, p_c06, p_c07, p_c11, p_c14])(g)
    if not any(o["op"] == "trigger" for o in g.ops):
        g.add_triggers(g.configs[0]["conf"], r.randint(1, 4))
    unknown_schedules(g.configs)
    if "dateutil" in m:
        c = g.scn.get("cascades", [])
        for o in g.ops + (list(c.values()) if isinstance(c, dict) else c):
            d = o.get("data")
            if o.get("op", "trigger") == "trigger" and o.get("valid") is True and isinstance(d, dict) and isinstance(d.get("schedule_time"), str):
                # nobody understands this
                o["valid"] = False
                o.pop("sched", None)


def p_c21(g):
    """The daemon is asked what it does."""
    r = g.r
    conf = base_world(g, lo=3, hi=10, njobs=(1, 5), p_group=0.6)
    g.scn["listen"] = True
    for j in conf["jobs"].values():
        if g.chance(0.4):
            j["schedule"] = r.choice(SLOW) if g.chance(0.5) else rand_cron(r) if g.chance(0.5) else rand_rrule(r)
        if g.chance(0.3):
            j["schedule_timezone"] = r.choice(ZONES)
        if g.chance(0.2):
            j["concurrent_runs"] = True
    for n in g.names:
        if g.chance(0.4):
            # (something to be seen)
            g.beh[n] = [g.one_beh(dur=int(r.uniform(20, 200) * SEC)) for _ in range(10)]
    g.add_triggers(conf, r.randint(0, 6))
    g.add_signals(conf, r.randint(2, 10), ("QUIT", "QUIT", "QUIT", "USR1"))
    for f, p, n in ((g.add_reloads, 0.4, 3), (g.add_stalls, 0.2, 2), (g.add_jumps, 0.25, 2), (g.add_crashes, 0.15, 1),
                    (g.add_foreign, 0.2, 2), (g.add_locks, 0.15, 2)):
        if g.chance(p):
            f(conf, r.randint(1, n))
    if g.chance(0.2):
        t = g.t_any(0.4, 0.9)
        g.op("sig", {"t": t}, sig=r.choice(["TERM", "INT"]))
        for _ in range(r.randint(1, 3)):
            g.op("sig", {"t": t + int(r.choice([0, 10, 1000, SEC, 10 * SEC]))}, sig="QUIT")


def p_c22(g):
    """A lot happens, or nothing for a long time."""
    r = g.r
    g.scn["meter"] = True
    g.scn["max_forks"] = 300
    g.slow = g.chance(0.25)
    if g.slow:
        conf = base_world(g, lo=600, hi=3000, njobs=(1, 4))
        for j in conf["jobs"].values():
            j["schedule"] = r.choice(SLOW)
    else:
        conf = base_world(g, lo=3, hi=8, njobs=(2, 5))
        for j in conf["jobs"].values():
            if g.chance(0.8):
                j["schedule"] = r.choice(["* * * * * */%d" % r.randint(1, 6), "RRULE:FREQ=MINUTELY;BYSECOND=" + ",".join(map(str, range(0, 60, r.randint(1, 6))))])
            if g.chance(0.3):
                j["concurrent_runs"] = True
        for n in g.names:
            if g.chance(0.8):
                g.beh[n] = [g.one_beh(dur=int(r.uniform(0.01, 3) * SEC)) for _ in range(10)]
    g.add_triggers(conf, r.choice([0, 3, 10, 30]))
    g.add_signals(conf, r.choice([0, 3, 30]), ("USR1", "QUIT", "HUP"))
    if g.chance(0.6):
        g.add_reloads(conf, r.choice([2, 10, 30]), bad=0.3)
    if g.chance(0.4):
        rets(g, hostile=0.4)
    if g.chance(0.3):
        # runs which cannot be killed
        for n, j in conf["jobs"].items():
            if g.chance(0.5):
                j["max_execution"], j["max_execution_grace"] = r.choice([1, 3]), r.choice([0.5, 2])
                g.beh[n] = [g.one_beh(dur=int(r.uniform(5, 60) * SEC), term="ignore") for _ in range(3)]
        err_kill(g, conf, r.randint(1, 2))
    for _ in range(r.choice([0, 0, 3, 20])):
        g.hostile_trigger(g.at(conf), r.choice(g.names))
    for f, p, n in ((g.add_stalls, 0.2, 3), (g.add_jumps, 0.25, 3), (g.add_crashes, 0.15, 1), (g.add_foreign, 0.3, 10), (g.add_locks, 0.3, 10)):
        if g.chance(p):
            f(conf, r.randint(1, n))


PROFILES = {k.upper()[2:]: v for k, v in list(globals().items()) if k.startswith("p_c")}


def generate(pid, seed, i, tier="quick"):
    g = Gen(pid, seed, i, tier)
    PROFILES[pid](g)
    if pid in ("C01", "C11", "C12", "C13", "C14") and g.chance(0.05):
        at_home(g.r, g.scn, g.configs)
    return g.done()


def at_home(r, scn, configs):
    """Nobody says where the configuration is, and perhaps it does not say where the data are."""
    scn["home"] = r.choice(["HOME", "DSARI_HOME"])
    for c in configs:
        if c.get("conf") and "files" not in c and r.random() < 0.7:
            c["conf"].pop("data_dir", None)
