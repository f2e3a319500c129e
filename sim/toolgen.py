"""Seeded scenarios for dsari's tools."""
import json
import random

import fuzztext
import scenario
from scenario import DATABASES, FAST, NAMES, SEC, ZONES, DST, weighted, rand_cron, rand_rrule

TEXT = ["ok\n", "", "<b>bold</b> & \"q\" 'a'\n", "line 1\nline 2\r\n", "ü ä 日本\n", "\t{{ x }} {% if %}\n", "</pre></html>\n",
        "0123456789" * 30 + "\n", "\x1b[31mred\x1b[0m\n", "&amp; &lt;\n", "a\0b\n", "\n\n\nlast", "x" * 5000]
SLOW = ["0 * * * *", "H H * * *", "30 2 * * *", "@daily", "RRULE:FREQ=DAILY", "0 0 29 2 *", "H H(0-7) * * 1-5",
        "RRULE:FREQ=DAILY;UNTIL=20200101T000000Z"]

BAD_SCHEDULES = ["RRULE:FREQ=DAILY;INTERVAL=0", "x", "61 * * * *", "* * * *", "RRULE:FREQ=NEVER", "", "* * * * * * * *", "@sometimes"]
ODD = [None, "text", 5, -1, 2.5, [], ["x"], {}, {"A": "x"}, True, False, {"A": ["x"]}, {"A": {"b": "c"}}]
BAD_NAMES = ["a/b", "..", ".", "", "ü", "a\tb", "x" * 65, "a,b", "a\n", "\n", "a\nb", "a\r", "\u0661", "a\0"]
GOOD_NAMES = ["x" * 64, "a b", "-", "a:b@c+d.e_f", "...", " "]


class Gen:
    def __init__(self, pid, seed, i, tier):
        self.r = random.Random("%s/%s/%s" % (pid, seed, i))
        self.pid, self.tier = pid, tier
        r = self.r
        w = r.randint(1672531200, 1798761600)
        if r.random() < 0.25:
            w = r.choice(DST) + r.randint(-7200, 7200)
        w += r.choice([0.0, r.random(), r.random()])
        self.scn = {"kind": "tools", "noise": r.randint(0, 1 << 30), "wall0": w, "tz": r.choice(ZONES)}
        if r.random() < 0.3:
            self.scn["short_writes"] = r.choice([0.1, 0.5])
        self.script = []
        self.running, self.done = [], []
        self.n = 0
        self.db = None
        self.configs = []
        self.jobs = r.sample(NAMES, r.choice([1, 2, 2, 3, 5]))

    def chance(self, p):
        return self.r.random() < p

    def rid(self):
        x = random.Random("id/%s/%s" % (self.scn["noise"], self.n)).getrandbits(128)
        self.n += 1
        h = "%032x" % x
        return "%s-%s-4%s-a%s-%s" % (h[:8], h[8:12], h[13:16], h[17:20], h[20:])

    def text(self):
        r = self.r
        x = r.random()
        if x < 0.1:
            return bytes(r.randrange(256) for _ in range(r.randint(1, 40)))
        t = "".join(r.choice(TEXT) for _ in range(r.choice([0, 1, 1, 2, 3])))
        return t.encode("utf-8")

    def conf(self, **k):
        r = self.r
        c = {"data_dir": "@DATA@", "jobs": {}}
        if self.db:
            c["database"] = dict(DATABASES[self.db])
        for j in self.jobs:
            d = {"command": ["prog", j]}
            if self.chance(0.2):
                d["command"] = 'prog "two words" \'q\''
            x = r.random()
            if x < 0.35:
                d["schedule"] = r.choice(FAST)
            elif x < 0.6:
                d["schedule"] = r.choice(SLOW)
            elif x < 0.8:
                d["schedule"] = rand_cron(r) if self.chance(0.5) else rand_rrule(r)
            if self.chance(0.3):
                d["schedule_timezone"] = r.choice(ZONES)
            if self.chance(0.2):
                d["environment"] = {"A": r.choice(["x", 5, 1.5])}
            if self.chance(0.2):
                d["max_execution"] = r.choice([1, 10.5])
            if self.chance(0.2):
                d["max_execution_grace"] = r.choice([0, 10.5])
            if self.chance(0.2):
                d["concurrency_groups"] = r.sample(["g1", "g2"], r.randint(1, 2))
            if self.chance(0.15):
                d["render_reports"] = r.choice([True, False, False])
            for b in ("concurrent_runs", "command_append_run", "jenkins_environment"):
                if self.chance(0.1):
                    d[b] = True
            c["jobs"][j] = d
        if self.pid == "C15":
            if self.chance(0.25):
                c["report_html_gz"] = True
            if "templates" in self.scn and self.chance(0.8):
                c["template_dir"] = "@CONF@/templates"
            if self.chance(0.3):
                c["report_run_output_start"] = r.choice([0, 1, 5, 100, 1000])
            if self.chance(0.3):
                c["report_run_output_end"] = r.choice([0, 1, 5, 100, 1000])
        c.update(k)
        return c

    # ------------------------------------------------------------- world steps
    def start(self, job=None):
        r = self.r
        job = job or r.choice(self.jobs)
        if self.chance(0.04):
            job = "gone job"
        st = {"do": "start", "job": job, "id": self.rid(), "lag": r.choice([0.0, 0.25, 3.5, 100.123456, 86400.0]) +
              (r.random() if self.chance(0.4) else 0)}
        if self.chance(0.3):
            st["type"] = "file"
            st["tdata"] = r.choice([{}, {"type": "deploy"}, {"type": "x<y", "description": "a & b <i>"},
                                    {"description": "why"}, {"token": 5}])
        elif self.chance(0.2):
            st["tdata"] = {"k": fuzztext.scalar(r)}
        if self.chance(0.9):
            st["out"] = self.text().hex()
        self.running.append((st["id"], st.get("out")))
        return st

    def end(self):
        if not self.running:
            return None
        rid, out = self.running.pop(self.r.randrange(len(self.running)))
        st = {"do": "end", "id": rid, "exit": self.r.choice([0, 0, 0, 0, 1, 2, 127, 137, 255])}
        if self.chance(0.2):
            st["rdata"] = {"a": fuzztext.scalar(self.r)}
        self.done.append((rid, out))
        return st

    def out(self):
        if not self.running:
            return None
        k = self.r.randrange(len(self.running))
        rid, o = self.running[k]
        t = self.text().hex() or "78"
        self.running[k] = (rid, (o or "") + t)
        return {"do": "out", "id": rid, "out": t}

    def pack(self):
        c = [x for x in self.done if x[1] is not None]
        if not c:
            return None
        return {"do": "pack", "id": self.r.choice(c)[0], "how": self.r.choice(["gz", "xz"]), "parts": self.r.choice([1, 1, 1, 2, 3])}

    def wstep(self, w=None):
        for _ in range(10):
            k = weighted(self.r, w or [("start", 4), ("end", 4), ("out", 1.5), ("pack", 0.7), ("clear", 0.15)])
            if k == "clear":
                self.running = []
                return {"do": "clear"}
            st = getattr(self, k)()
            if st:
                return st
        return self.start()

    def advance(self):
        r = self.r
        return {"do": "advance", "us": r.choice([0, 1, 1000, 250000, SEC, 7 * SEC, 61 * SEC, 3600 * SEC, 90000 * SEC]) +
                r.choice([0, r.randint(0, SEC)])}

    def history(self, n):
        for _ in range(n):
            self.script.append(self.wstep())
            if self.chance(0.7):
                self.script.append(self.advance())
            if self.chance(0.03):
                self.script.append({"do": "jump", "d": self.r.choice([-3600, 3600, -5, 86400]) * SEC})

    def where(self, big):
        """A point within the run of a tool."""
        r = self.r
        x = r.random()
        if x < 0.35:
            return {"seam": "*", "nth": int(2 ** (r.random() * big)), "after": self.chance(0.5)}
        if x < 0.6:
            return {"vfs": r.choice([1, 2, 3, 4, 5, 8, 13, 30]), "kind": r.choice(["lock", "lock", "read", "open"])}
        if x < 0.75:
            return {"prof": int(2 ** (r.random() * (big + 2)))}
        return {"seam": r.choice(["open", "stat", "write", "mkdir", "rename", "sleep"]), "nth": r.choice([1, 1, 2, 3, 5, 9, 20, 50]),
                "after": self.chance(0.5)}

    def tool(self, tool, args, **k):
        st = {"do": "tool", "tool": tool, "args": args}
        st.update(k)
        self.script.append(st)
        return st


def p_c15(g):
    r = g.r
    if g.chance(0.12):
        g.scn["templates"] = r.choice([{"other.html": "x"}, {"darkly.min.css": "body { color: red }\n"}])
        if "darkly.min.css" not in g.scn["templates"]:
            g.scn["templates"]["README"] = "nothing"
    g.configs.append({"conf": g.conf()})
    g.history(r.choice([0, 3, 8, 15, 40, 70]))
    for n in range(r.choice([2, 3, 4, 6])):
        if n and g.chance(0.15):
            c = g.conf(jobs=json.loads(json.dumps(g.configs[0]["conf"]["jobs"])))
            if g.chance(0.3):
                j = r.choice(g.jobs)
                if g.chance(0.5):
                    c["jobs"].pop(j)
                else:
                    c["jobs"][j]["render_reports"] = not c["jobs"][j].get("render_reports", True)
            g.configs.append({"conf": c})
            g.script.append({"do": "config", "v": len(g.configs) - 1})
        if n and g.chance(0.12) and g.done:
            x = r.random()
            if x < 0.3:
                g.script.append({"do": "drop", "path": []})
            elif x < 0.6:
                g.script.append({"do": "drop", "path": ["darkly.min.css"]})
            else:
                j = r.choice(g.jobs)
                g.script.append({"do": "drop", "path": [j]})
        args = []
        if g.chance(0.15):
            args.append(r.choice(["-r", "--regenerate"]))
        if g.chance(0.1):
            args.append("--debug")
        during = []
        for _ in range(r.choice([0, 0, 1, 2])):
            during.append({"op": "step", "step": g.wstep(), "at": g.where(8)})
        x = r.random()
        if x < 0.45:
            a = g.where(10)
            if "vfs" in a and g.chance(0.8):
                a = {"seam": r.choice(["write", "rename", "mkdir", "open", "write"]), "nth": int(2 ** (r.random() * 6)),
                     "after": g.chance(0.4)}
            during.append({"op": "kill", "at": a, "cut": r.random()})
        elif x < 0.65:
            a = {"seam": r.choice(["write", "write", "open", "mkdir", "rename", "*"]), "nth": int(2 ** (r.random() * 6))}
            if a["seam"] == "open" and g.chance(0.7):
                a["match"] = "/html/"
            during.append({"op": "err", "errno": r.choice(["ENOSPC", "EIO", "EDQUOT", "EMFILE"]), "at": a, "cut": r.random(),
                           "more": r.choice([0, 0, 3, 1000])})
        elif x < 0.72:
            during.append({"op": "lock", "level": r.choice(["reserved", "shared"]), "dur": r.choice([1000, SEC, 8 * SEC]),
                           "at": {"t": r.choice([0, 100])}})
        elif x < 0.75:
            during.append({"op": "vfserr", "rc": "IOERR_READ", "at": {"vfs": r.randint(1, 30), "kind": "read"}})
        st = g.tool("render", args, during=during)
        g.history(r.choice([0, 1, 2, 5]))
    g.tool("render", [] if g.chance(0.85) else ["-r"])


def p_c16(g, many=False):
    r = g.r
    g.configs.append({"conf": g.conf(), "ok": True})
    g.history(r.choice([0, 3, 8, 15, 40]))
    args = []
    cache = 120.0
    if g.chance(0.6):
        cache = r.choice([0, 1, 10, 30, 120, 3600])
        args += ["--job-cache-time", str(cache)]
    if g.chance(0.3):
        args += ["--quantiles", r.choice(["0.5", "0,1", "0.25,0.5,0.75", "0.999"])]
    if g.chance(0.15):
        args.append("--no-running")
    path = "/metrics"
    if g.chance(0.1):
        path = "/m"
        args += ["--metrics-path", path]
    if g.chance(0.15):
        args += r.choice([["--listen-address", "127.0.0.1"], ["--listen-port", "8080"],
                          ["--listen-port", "1", "--listen-address", "::"]])
    if not many and g.chance(0.2):
        during = [{"op": "step", "step": g.wstep(), "at": g.where(7)} for _ in range(r.choice([0, 1, 3]))]
        if g.chance(0.2):
            during.append({"op": "lock", "level": r.choice(["reserved", "shared"]), "dur": r.choice([SEC, 8 * SEC]),
                           "at": {"t": 0}})
        g.tool("prometheus-exporter", args + ["--dump"], during=during)
        return
    reqs = []
    for n in range(r.choice([100, 200]) if many else r.choice([3, 6, 10, 20])):
        for _ in range(r.choice([0, 0, 1, 2, 4])):
            reqs.append({"step": g.wstep()})
            if g.chance(0.3):
                reqs.append({"step": {"do": "advance", "us": r.randint(0, 20 * SEC)}})
        x = r.random()
        hup = None
        if x < 0.25:
            if g.chance(0.8):
                if g.chance(0.25):
                    g.configs.append({"conf": {}, "ok": False,
                                      "files": {"dsari.json": r.choice(['{"jobs": {"a": {}}}', "{", '{"jobs": {"a/b": {"command": ["x"]}}}'])}})
                else:
                    c = g.conf(jobs=json.loads(json.dumps(g.configs[0]["conf"]["jobs"])))
                    if g.chance(0.5) and len(g.jobs) > 1:
                        c["jobs"].pop(r.choice(g.jobs))
                    else:
                        c["jobs"]["new job"] = {"command": ["prog"]}
                    g.configs.append({"conf": c, "ok": True})
                reqs.append({"step": {"do": "config", "v": len(g.configs) - 1}})
            hup = g.chance(0.5)
            if not hup:
                reqs.append({"sig": "HUP"})
        if g.chance(0.08):
            reqs.append({"step": {"do": "jump", "d": r.choice([-86400, -3600, -60, 60, 3600]) * SEC}})
        during = [{"op": "step", "step": g.wstep(), "at": g.where(7)} for _ in range(r.choice([0, 0, 0, 1, 3]))]
        if hup:
            a = g.where(7)
            if "seam" in a or "vfs" in a:
                a = {"prof": int(2 ** (r.random() * 10))}
            during.append({"op": "sig", "sig": "HUP", "at": a})
            if g.chance(0.3):
                # the configuration changes while it is being loaded, followed by another signal
                c = g.conf(jobs=json.loads(json.dumps(g.configs[0]["conf"]["jobs"])))
                c["jobs"]["newer job"] = {"command": ["prog"]}
                g.configs.append({"conf": c, "ok": True})
                a = {"seam": r.choice(["open", "open", "stat"]), "match": "dsari.json", "nth": r.choice([1, 1, 2]), "after": True}
                during.append({"op": "step", "step": {"do": "config", "v": len(g.configs) - 1}, "at": a})
                during.append({"op": "sig", "sig": "HUP", "at": dict(a)})
        if g.chance(0.08):
            during.append({"op": "lock", "level": r.choice(["reserved", "shared"]), "dur": r.choice([1000, SEC, 8 * SEC]),
                           "at": {"t": 0}})
        if g.chance(0.05):
            during.append({"op": "vfserr", "rc": "IOERR_READ", "at": {"vfs": r.randint(1, 30), "kind": "read"}})
        reqs.append({"path": path if g.chance(0.93) else r.choice(["/", "/metrics/", "/x", ""]), "during": during,
                     "wait": r.choice([1000, SEC, 5 * SEC, 15 * SEC, 60 * SEC, 119 * SEC, 121 * SEC])})
    g.tool("prometheus-exporter", args, reqs=reqs, wsgi=g.chance(0.3))


def p_c22(g):
    """An exporter which is asked a lot."""
    g.scn["meter"] = True
    p_c16(g, many=True)


def p_c17(g):
    r = g.r
    g.configs.append({"conf": g.conf(), "ok": True})
    g.history(r.choice([0, 3, 8, 15, 40]))
    for n in range(r.choice([3, 5, 8])):
        if g.chance(0.06):
            g.configs.append({"conf": {}, "ok": False, "files": {"dsari.json": r.choice(
                ['{"jobs": {"a": {}}}', "{", '{"jobs": {"a/b": {"command": ["x"]}}}', '{"jobs": {"a": {"command": ["x"], "schedule": "x"}}}'])}})
            g.script.append({"do": "config", "v": len(g.configs) - 1})
        elif g.chance(0.1):
            g.configs.append({"conf": g.conf(), "ok": True})
            g.script.append({"do": "config", "v": len(g.configs) - 1})
        fmt = r.choice(["json", "json", "yaml", "tabular", "pretty", None])
        f = ["--format", fmt] if fmt else []
        kind = weighted(r, [("list", 5), ("output", 2.5), ("tail", 2), ("jobs", 2.5), ("check", 0.5)])
        during = []
        env = {}
        if kind == "tail":
            during = [{"op": "step", "step": g.wstep([("start", 3), ("end", 3), ("out", 1)]),
                       "at": {"t": r.randint(0, 6 * SEC)}} for _ in range(r.choice([1, 2, 4]))]
            during += [{"op": "step", "step": g.wstep(), "at": g.where(5)} for _ in range(r.choice([0, 0, 1]))]
            during.append({"op": "kill", "at": {"t": r.choice([4, 10]) * SEC}})
            args = ["run", "tail"]
            ids = [x for x, _ in g.running + g.done]
            if g.chance(0.3) and ids:
                args += r.sample(ids, min(len(ids), r.choice([1, 2])))
        else:
            w = [("start", 3), ("end", 5), ("out", 1), ("pack", 2 if kind == "output" else 0.2), ("clear", 0.1)]
            ids = [x for x, _ in g.running + g.done]
            target = r.choice(ids) if ids else None
            for _ in range(r.choice([0, 1, 1, 2, 4])):
                st = g.wstep(w)
                if kind == "output" and target and g.chance(0.6):
                    # ... to the very run which is asked for
                    if target in [x for x, _ in g.running]:
                        g.running = [x for x in g.running if x[0] != target] + [x for x in g.running if x[0] == target]
                        rid, o = g.running.pop()
                        g.done.append((rid, o))
                        during.append({"op": "step", "step": {"do": "end", "id": rid, "exit": 0}, "at": g.where(6)})
                    else:
                        during.append({"op": "step", "step": {"do": "pack", "id": target, "how": r.choice(["gz", "xz"]), "parts": r.choice([1, 1, 2])},
                                       "at": g.where(6)})
                during.append({"op": "step", "step": st, "at": g.where(6)})
            if g.chance(0.07):
                during.append({"op": "lock", "level": r.choice(["reserved", "shared"]), "dur": r.choice([1000, SEC, 8 * SEC]),
                               "at": {"t": 0}})
            elif g.chance(0.05):
                during.append({"op": "vfserr", "rc": "IOERR_READ", "at": {"vfs": r.randint(1, 30), "kind": "read"}})
            if kind == "list":
                args = ["run", "list"] + f
                if g.chance(0.25):
                    for j in r.sample(g.jobs + ["gone job", "nope"], r.choice([1, 1, 2])):
                        args += ["--job", j]
                if g.chance(0.2) and ids:
                    for x in r.sample(ids, min(len(ids), r.choice([1, 2, 3]))):
                        args += ["--run", x]
                if fmt in ("pretty", None) and g.chance(0.5):
                    env = {"COLUMNS": r.choice(["40", "80", "400", "1000"])}
            elif kind == "output":
                args = ["run", "output", target if target and g.chance(0.93) else "00000000-0000-4000-8000-000000000000"]
            elif kind == "jobs":
                args = ["job", "list"] + f
                if g.chance(0.2):
                    for j in r.sample(g.jobs + ["nope"], r.choice([1, 1, 2])):
                        args += ["--job", j]
                if g.chance(0.3):
                    during.append({"op": "stall", "dur": r.choice([1000, SEC, 61 * SEC]), "at": g.where(6)})
                env = {"COLUMNS": "1000"}
            else:
                args = ["config", "check"]
        more = {}
        if kind != "tail" and g.chance(0.3):
            t = more["tty"] = {"size": r.choice([None, 10, 60, 80, 132, 400, 500]), "pager": r.choice(["reads"] * 5 + ["missing"])}
            if g.chance(0.3):
                env = dict(env, PAGER=r.choice(["less -R", "more", "my pager"]))
                t["env_pager"] = env["PAGER"]
            if g.chance(0.25):
                t["quit_after"] = r.choice([0, 1, 100, 4096, 8192, 20000])
            if g.chance(0.25):
                t["ints"] = r.randint(1, 3)
            if g.chance(0.5):
                env.pop("COLUMNS", None)
        elif kind not in ("tail", "check") and g.chance(0.1):
            more["out_limit"] = r.choice([0, 1, 100, 3000])
        g.tool("info", args, during=during, env=env, **more)
        g.history(r.choice([0, 1, 3]))


def p_c18(g):
    r = g.r
    import yaml

    def frag():
        """Part of a configuration."""
        c = {}
        if g.chance(0.8):
            c["jobs"] = {}
            for j in r.sample(g.jobs, r.randint(1, len(g.jobs))):
                full = g.conf()["jobs"][j]
                d = {"command": full["command"]} if g.chance(0.9) else {}
                for k in full:
                    if g.chance(0.6):
                        d[k] = full[k]
                if g.chance(0.3):
                    d["environment"] = {k: r.choice(["x", 5, "late"]) for k in r.sample(["A", "B", "C"], r.randint(1, 3))}
                c["jobs"][j] = d
        if g.chance(0.3):
            c["concurrency_groups"] = {x: ({"max": r.randint(1, 5)} if g.chance(0.85) else {}) for x in r.sample(["g1", "g2", "g3"], r.randint(1, 3))}
        if g.chance(0.3):
            c["environment"] = {k: r.choice(["x", 7, 2.5, "top"]) for k in r.sample(["A", "B", "C", "PATH"], r.randint(1, 3))}
        if g.chance(0.25):
            c["job_groups"] = {r.choice(["grp", "grp2"]): {"command": ["prog", "grp"], "job_names": r.sample(["m1", "m2", "m3"], r.randint(1, 3)),
                                                          "max_execution": r.choice([5, 1.5])}}
        for k, vs in (("shutdown_kill_runs", [True, False]), ("shutdown_kill_grace", [1, 20.5]), ("report_html_gz", [True, False]),
                      ("report_run_output_start", [0, 10]), ("report_run_output_end", [0, 100]), ("template_dir", ["/nonexistent/t"])):
            if g.chance(0.2):
                c[k] = r.choice(vs)
        return c

    def twist(c):
        """Something else in one place, which may be valid or not, or be replaced by a later file."""
        x = r.random()
        js = c.get("jobs") or {}
        j = r.choice(sorted(js)) if js else None
        if x < 0.3 and j:
            k = r.choice(["command", "schedule", "schedule_timezone", "environment", "max_execution", "max_execution_grace",
                          "concurrent_runs", "concurrency_groups", "job_group", "render_reports", "unknown"])
            js[j][k] = r.choice(ODD)
        elif x < 0.4 and j:
            js[j]["schedule"] = r.choice(BAD_SCHEDULES)
        elif x < 0.5 and j:
            js[r.choice(BAD_NAMES + GOOD_NAMES)] = js.pop(j)
        elif x < 0.56 and j:
            js[j] = r.choice(ODD)
        elif x < 0.62:
            c.setdefault("concurrency_groups", {})[r.choice(["g1", "g2"] + BAD_NAMES + GOOD_NAMES)] = r.choice([{}, {"max": 2}, {"max": r.choice(ODD)}])
        elif x < 0.7:
            c.setdefault("environment", {})[r.choice(["A", "B"])] = r.choice(ODD)
        elif x < 0.75 and j:
            js[j]["concurrency_groups"] = [r.choice(BAD_NAMES + GOOD_NAMES)]
        elif x < 0.8:
            c.setdefault("job_groups", {})[r.choice(["grp"] + BAD_NAMES)] = r.choice(
                [{"command": "x"}, {"job_names": ["m1"]}, {"command": "x", "job_names": [r.choice(BAD_NAMES)]}, {"command": ["y"], "job_names": []}])
        else:
            c[r.choice(["environment", "jobs", "job_groups", "concurrency_groups", "shutdown_kill_runs", "shutdown_kill_grace", "report_html_gz",
                        "report_run_output_start", "template_dir", "unknown"])] = r.choice(ODD)
        return c

    def text(name, c):
        if g.chance(twisted):
            c = twist(json.loads(json.dumps(c)))
        if name.endswith(".json"):
            return json.dumps(c, indent=r.choice([None, 2]))
        return yaml.safe_dump(c, default_flow_style=r.choice([None, True, False]), sort_keys=g.chance(0.5)) if c else "{}\n"

    twisted = r.choice([0, 0, 0.1, 0.3])
    names = ["config.d/%s%s" % (n, x) for n in ("00-base", "10-jobs", "9-x", "a", "B", "c", "zz", "a.b", "Z") for x in (".json", ".yaml")]
    files = {}
    main = r.choice([["dsari.json"], ["dsari.yaml"], ["dsari.yaml", "dsari.json"], []])
    where = "config.d"
    for n in main:
        c = frag()
        c["data_dir"] = "@DATA@"
        files[n] = text(n, c)
    if g.chance(0.1) and main:
        where = "other.d"
        c = json.loads(json.dumps(frag()))
        c.update(data_dir="@DATA@", config_d="@CONF@/other.d")
        files[main[-1]] = text(main[-1], c)
    base = {"data_dir": "@DATA@"}
    for n in r.sample(names, r.choice([0, 1, 3, 5, 9])):
        if where != "config.d" and g.chance(0.7):
            n = n.replace("config.d", where)
        files[n] = text(n, frag())
    if g.chance(0.3):
        files["config.d/ignored%s" % r.choice([".txt", ".json~", ".yml", ".JSON", ""])] = "{"
    if not main:
        files["config.d/00-data.json"] = text("x.json", base)
    g.configs.append({"conf": {}, "files": files, "ok": True})
    g.scn["no_db"] = True
    for n in range(r.choice([2, 3, 5])):
        fmt = ["--format", r.choice(["json", "yaml"])] if g.chance(0.6) else []
        args = r.choice([["config", "dump"] + fmt, ["config", "dump", "--raw"] + fmt, ["config", "dump", "--raw"] + fmt,
                         ["config", "check"]])
        during = []

        def edit():
            n = r.choice(sorted(files) + names[:6])
            st = {"do": "cfile", "name": n}
            x = r.random()
            if x < 0.15 and n not in main:
                st["text"] = None
            elif x < 0.25:
                st["text"] = text(n, frag())[:-r.randint(1, 8)] + r.choice(["", "}", "]", ":"])
                st["odd"] = True
            else:
                c = frag()
                if n in main:
                    c["data_dir"] = "@DATA@"
                st["text"] = text(n, c)
                if g.chance(0.3):
                    st["torn"] = r.random()
                    st["delay"] = r.choice([200, 2000, 50000])
            return st
        if g.chance(0.4):
            for _ in range(r.choice([1, 1, 2])):
                during.append({"op": "step", "step": edit(), "at": {"seam": r.choice(["open", "listdir", "stat", "*"]),
                                                                    "nth": r.choice([1, 2, 3, 5, 8]), "after": g.chance(0.5)}})
        if g.chance(0.1):
            during.append({"op": "err", "errno": r.choice(["EIO", "EMFILE", "ENOMEM"]),
                           "at": {"seam": "open", "nth": r.randint(1, 6)}})
        g.tool("info", args, during=during)
        if g.chance(0.6):
            g.script.append(edit())
            g.script.append({"do": "advance", "us": 100000})


def p_c19(g):
    """The tools on another database."""
    r = g.r
    g.db = g.scn["db"] = r.choice(sorted(DATABASES))
    if g.chance(0.5):
        g.scn["db_tz"] = r.choice(ZONES)
    if g.chance(0.3) and "J" not in g.jobs:
        g.jobs += ["J", "j"]
    g.pid, p = r.choice([("C15", p_c15), ("C16", p_c16), ("C16", p_c16), ("C17", p_c17), ("C17", p_c17)])
    g.scn["judge"] = g.pid
    p(g)
    for st in g.script:
        for d in [st] + [q for q in st.get("reqs") or [] if "during" in q]:
            if "during" not in d:
                continue
            ops = []
            for o in d["during"]:
                if o["op"] in ("lock", "vfserr"):
                    continue
                if "vfs" in o["at"]:
                    o["at"] = {"seam": "sql", "nth": max(1, o["at"]["vfs"] // 2), "after": g.chance(0.5)}
                ops.append(o)
            d["during"] = ops


def p_c20(g):
    """The tools without some of the optional packages."""
    r = g.r
    g.pid, p = r.choice([("C15", p_c15), ("C16", p_c16), ("C17", p_c17), ("C17", p_c17)])
    g.scn["judge"] = g.pid
    m = scenario.lacking(r, g.scn, ("jinja2", "lzma") if g.pid == "C16" else ("jinja2",) if g.pid == "C17" else ())
    p(g)
    scenario.unknown_schedules(g.configs)
    for st in g.script:
        if "yaml" in m and "args" in st:
            st["args"] = ["json" if x == "yaml" else x for x in st["args"]]


def generate(pid, seed, i, tier):
    g = Gen(pid, seed, i, tier)
    {"C15": p_c15, "C16": p_c16, "C17": p_c17, "C18": p_c18, "C19": p_c19, "C20": p_c20, "C22": p_c22}[pid](g)
    if g.chance(0.25 if pid == "C18" else 0.05):
        scenario.at_home(g.r, g.scn, g.configs)
        for d in [c.get("files", {}) for c in g.configs]:
            for n in d:
                if g.chance(0.5):
                    d[n] = d[n].replace('"data_dir": "@DATA@"', '"x": 1').replace("data_dir: '@DATA@'", "x: 1")
    g.scn.update(script=g.script, configs=g.configs)
    return g.scn
