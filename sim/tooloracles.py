"""Judges executions of dsari's tools: what they print, serve and write against
what the (simulated) daemon had recorded at the time."""
import copy
import datetime
import html.parser
import json
import re

import refsched
from oracles import piling_up
from world import expand, lacks

SEC = 1000000
UTC = datetime.timezone.utc


def at(x):
    return datetime.datetime.fromtimestamp(x, UTC)


def epoch(text):
    """Epoch of a printed time with offset."""
    try:
        d = datetime.datetime.fromisoformat(text.strip())
    except ValueError:
        return None
    if d.tzinfo is None:
        return None
    return d.timestamp()


def close(a, b, eps=2e-6):
    return a is not None and b is not None and abs(a - b) <= eps + 1e-15 * abs(b)


class Moments:
    """States of the records, one after each thing which happened to them."""

    def __init__(self, res):
        self.res = res
        self.hist = res.hist
        self.scn = res.scn_full
        self.tools = []            # (start event, end event, [index of states])
        self.states = []           # (q, done, running, outs)
        done, running, outs = {}, {}, {}
        self.files = {}
        self.file_states = []
        self._snap(0, done, running, outs)
        cur = None
        for e in self.hist:
            k = e["k"]
            if k == "step":
                do = e["do"]
                if do == "start":
                    running = dict(running)
                    running[e["row"]["id"]] = e["row"]
                    outs = dict(outs)
                    outs[e["row"]["id"]] = None if e["out"] is None else bytes.fromhex(e["out"])
                elif do == "end":
                    running = dict(running)
                    running.pop(e["row"]["id"], None)
                    done = dict(done)
                    done[e["row"]["id"]] = e["row"]
                elif do == "clear":
                    running = {}
                elif do == "out":
                    outs = dict(outs)
                    outs[e["id"]] = bytes.fromhex(e["out"])
                elif do == "cfile":
                    continue
                self._snap(e["q"], done, running, outs)
            elif k == "tool_start":
                cur = (e, len(self.states) - 1)
            elif k == "tool_end":
                self.tools.append((cur[0], e, range(cur[1], len(self.states))))

    def _snap(self, q, done, running, outs):
        self.states.append((q, done, running, outs))

    def between(self, q0, q1):
        """States which held at some time between two events."""
        out = []
        for i, s in enumerate(self.states):
            nxt = self.states[i + 1][0] if i + 1 < len(self.states) else 1 << 60
            if s[0] <= q1 and nxt >= q0:
                out.append(s)
        return out

    def faulted(self, q0, q1):
        return any(e["k"] in ("fault", "ext_lock") for e in self.hist[q0:q1 + 1])


def conf(m, v):
    c = copy.deepcopy(m.scn["configs"][v]["conf"])
    return c


def jobs_of(c):
    return expand(c)


def fail(tool_e):
    return (tool_e.get("tb") or tool_e.get("err") or "")[-700:]


# -------------------------------------------------------------------- reports
class Page(html.parser.HTMLParser):
    def __init__(self, text):
        super().__init__(convert_charrefs=True)
        self.tables, self.pre, self.title, self.h1 = [], None, "", ""
        self.head = None
        self.stack = []
        self.ended = False
        self.seen = set()
        self.feed(text)
        self.close()

    def handle_starttag(self, tag, attrs):
        a = dict(attrs)
        self.seen.add(tag)
        if tag == "h2":
            self.head = ""
        if tag == "table":
            self.tables.append((self.head, []))
        elif tag == "tr":
            self.tables[-1][1].append({"class": a.get("class", ""), "cells": [], "hrefs": [], "th": 0})
        elif tag in ("td", "th"):
            self.tables[-1][1][-1]["cells"].append("")
            if tag == "th":
                self.tables[-1][1][-1]["th"] += 1
        elif tag == "a" and self.tables and "td" in self.stack:
            self.tables[-1][1][-1]["hrefs"].append(a.get("href"))
        elif tag == "pre":
            self.pre = ""
        if tag not in ("meta", "link", "br"):
            self.stack.append(tag)

    def handle_endtag(self, tag):
        if tag == "html":
            self.ended = True
        while self.stack:
            if self.stack.pop() == tag:
                break

    def handle_data(self, d):
        s = self.stack
        if "pre" in s:
            self.pre += d
        elif "td" in s or "th" in s:
            self.tables[-1][1][-1]["cells"][-1] += d
        elif "title" in s:
            self.title += d
        elif "h1" in s:
            self.h1 += d
        elif "h2" in s:
            self.head += d

    def rows(self, head):
        for h, rows in self.tables:
            if (h or "").strip() == head:
                return [r for r in rows if not r["th"]]
        return None


def dur(row):
    return str(at(row["stop"]) - at(row["start"]))


def local(tz, x):
    return datetime.datetime.fromtimestamp(x, refsched.zone(tz)) if tz else None


def no_ms(tz, x):
    d = datetime.datetime.fromtimestamp(x, refsched.zone(tz))
    return d.replace(microsecond=0, tzinfo=None).isoformat(" ")


def no_ms_ok(tz, text, x):
    if text == "" or x is None:
        return text == "" and x is None
    return text[:19] == no_ms(tz, x)


def dur_ok(text, row):
    return text == dur(row).split(".")[0] or text == dur(row)


def out_ok(pre, raw, limits):
    if raw is None:
        return True
    t = raw.decode("utf-8", "replace")
    for ls, le in limits:
        n = len(t)
        pos = [x for x in (ls, le) if x > 0]
        full = not pos or n <= ls + le
        cutok = bool(pos) and n > min(pos)
        if full and pre == t:
            return True
        if cutok:
            a, b = t[:ls] if ls > 0 else "", t[max(0, n - le):] if le > 0 else ""
            if pre.startswith(a) and pre.endswith(b) and pre[len(a):len(pre) - len(b)].strip() == "[...]":
                return True
    return False


def check_run_page(m, p, row, raw, limits, tz):
    f = {}
    if not p.tables:
        return "no table"
    for r in p.tables[0][1]:
        if len(r["cells"]) == 2:
            f[r["cells"][0].strip()] = (r["cells"][1], r["class"])
    get = lambda k: f.get(k, ("", ""))[0].strip()
    if get("Run ID") != row["id"]:
        return "run ID %r" % get("Run ID")
    if p.h1.strip() != row["job"] or row["job"] not in p.title:
        return "job name %r" % p.h1
    for k, n in (("Start time", "start"), ("Stop time", "stop")):
        if not close(epoch(get(k)), row[n], 1.5e-6):
            return "%s %r instead of %r" % (k, get(k), row[n])
    if get("Duration") != dur(row):
        return "duration %r instead of %r" % (get("Duration"), dur(row))
    if get("Exit code") != str(row["exit"]):
        return "exit code %r instead of %r" % (get("Exit code"), row["exit"])
    if ("danger" in f["Exit code"][1]) != (row["exit"] != 0):
        return "exit code %r marked as %r" % (row["exit"], f["Exit code"][1])
    td = row["tdata"] if isinstance(row["tdata"], dict) else {}
    trig = get("Trigger")
    mt = re.match(r"(?s)(.*) \((.*)\)$", trig)
    if not mt or not close(epoch(mt.group(2)), row["sched"], 1.5e-6):
        return "trigger %r (scheduled for %r)" % (trig, row["sched"])
    if row["type"] == "schedule":
        want = "Schedule"
    elif row["type"] == "file":
        want = str(td.get("type") or "File")
    else:
        want = row["type"]
    if mt.group(1).strip() != want.strip():
        return "trigger type %r instead of %r" % (mt.group(1), want)
    if get("Description") != (str(td.get("description")).strip() if td.get("description") else ""):
        return "description %r" % get("Description")
    if p.pre is None:
        return "no output"
    if not out_ok(p.pre, raw, limits):
        return "output %r instead of %r (limits %r)" % (p.pre[:200], (raw or b"")[:200], limits)
    return None


def row_ok(cells, cls, row, index, tz):
    i = 0
    if index:
        if not no_ms_ok(tz, cells[0].strip(), row["stop"]) or cells[1].strip() != row["job"] or not dur_ok(
                cells[2].strip(), row):
            return False
        i = 3
    else:
        if not close(epoch(cells[0]), row["stop"], 1.5e-6) or cells[1].strip() != dur(row):
            return False
        i = 2
    return cells[i].strip() == str(row["exit"]) and ("danger" in cls) == (row["exit"] != 0)


def check_list(rows, pool, index, tz, top=None):
    """rows: those of the table; pool: runs which belong in it (the latest `top` of them)."""
    ids = []
    for r in rows:
        h = (r["hrefs"] or [""])[0] or ""
        rid = h.rstrip("/").split("/")[-1]
        if rid not in pool:
            return "lists %s, which does not belong there" % rid
        row = pool[rid]
        if index and h.rstrip("/") != "%s/%s" % (row["job"], rid):
            return "links to %r" % h
        if not row_ok(r["cells"], r["class"], row, index, tz):
            return "shows %r for %r" % (r["cells"], row)
        ids.append(rid)
    if len(set(ids)) != len(ids):
        return "lists a run twice"
    stops = sorted((x["stop"] for x in pool.values()), reverse=True)
    if top:
        stops = stops[:top]
    if [pool[x]["stop"] for x in ids] != stops:
        if len(ids) != len(stops):
            return "lists %d of %d runs" % (len(ids), len(stops))
        return "lists the wrong runs or in a wrong order"
    return None


def check_index(p, done, jobs, tz):
    pool = {k: r for k, r in done.items() if r["job"] in jobs}
    rows = p.rows("Latest Runs")
    if rows is None:
        return "no latest runs"
    e = check_list(rows, pool, True, tz, 25)
    if e:
        return "latest runs: " + e
    rows = p.rows("Failed Runs")
    if rows is None:
        return "no failed runs"
    e = check_list(rows, {k: r for k, r in pool.items() if r["exit"] != 0}, True, tz, 10)
    if e:
        return "failed runs: " + e
    rows = p.rows("Jobs")
    if rows is None:
        return "no jobs"
    names = [r["cells"][0].strip() for r in rows]
    if sorted(names) != sorted(jobs):
        return "lists jobs %r instead of %r" % (names, sorted(jobs))
    for r in rows:
        name = r["cells"][0].strip()
        mine = [x for x in pool.values() if x["job"] == name]      # (in the order in which they ended)
        good = [x for x in mine if x["exit"] == 0]

        def lasts(xs):
            return [xs[-1]] + [x for x in xs if x["stop"] == max(y["stop"] for y in xs)] if xs else [None]
        if not any(no_ms_ok(tz, r["cells"][1].strip(), l and l["start"]) and
                   (dur_ok(r["cells"][2].strip(), l) if l else r["cells"][2].strip() == "") for l in lasts(mine)):
            return "last run of %s: %r" % (name, r["cells"])
        if not any(no_ms_ok(tz, r["cells"][3].strip(), l and l["start"]) for l in lasts(good)):
            return "last successful run of %s: %r" % (name, r["cells"])
        if (r["hrefs"] or [""])[0] not in (name + "/", name):
            return "job %s links to %r" % (name, r["hrefs"])
    return None


def c15(m):
    v = []
    tz = m.scn.get("tz", "UTC")
    seen_v = []
    for k, (s, e, states) in enumerate(m.tools):
        if e["tool"] != "render":
            continue
        q = e["q"]
        reads = [x["v"] for x in m.hist[s["q"]:q] if x["k"] == "conf_read"]
        cur = reads[-1] if reads else None
        seen_v += reads
        hung = e["how"] in ("hang", "livelock")
        complete = e["how"] == "exit" and e["code"] == 0
        if hung or (not complete and e["how"] != "crash" and not m.faulted(s["q"], q)):
            v.append((q, "dsari-render failed (%s, exit code %s): %s" % (e["how"], e.get("code"), fail(e))))
            continue
        tree = next((x["files"] for x in m.hist[q:] if x["k"] == "html"), {})
        confs = [conf(m, x) for x in sorted(set(seen_v))]
        css = {m.res.css_custom if "template_dir" in c else m.res.css for c in confs}
        limits = sorted({(c.get("report_run_output_start", 0), c.get("report_run_output_end", 0)) for c in confs})
        now = [m.states[i] for i in states]
        last = now[-1]
        ever = [x for x in m.states if x[0] <= q]
        sets = [frozenset(j for j, d in jobs_of(c).items() if d.get("render_reports", True)) for c in confs]
        # every page there is must be right
        pages = {}
        for rel, text in sorted(tree.items()):
            parts = rel.split("/")
            if rel.endswith(".css"):
                if isinstance(text, list) or text not in css:
                    v.append((q, "the style sheet is incomplete: %r instead of %r" % (text, sorted(css))))
                continue
            if isinstance(text, list):
                v.append((q, "page %s is damaged: %s" % (rel, text[0])))
                continue
            p = Page(text)
            pages[rel] = p
            if not p.ended or "body" not in p.seen:
                v.append((q, "page %s is incomplete" % rel))
                continue
            if len(parts) == 3:
                row = last[1].get(parts[1])
                if row is None or row["job"] != parts[0]:
                    v.append((q, "page %s shows a run which is not recorded" % rel))
                    continue
                err = check_run_page(m, p, row, last[3].get(parts[1]), limits, tz)
                if err:
                    v.append((q, "page of run %s of %s: %s" % (parts[1][:8], parts[0], err)))
            elif len(parts) == 2:
                rows = [r for r in (p.tables[0][1] if p.tables else []) if not r["th"]]
                errs = []
                for st in (now if complete else []) + ever[::-1]:
                    pool = {i: r for i, r in st[1].items() if r["job"] == parts[0]}
                    err = check_list(rows, pool, False, tz)
                    errs.append(err)
                    if not err:
                        break
                if all(errs):
                    v.append((q, "page of job %s: %s" % (parts[0], errs[0])))
                if p.h1.strip() != parts[0]:
                    v.append((q, "page of job %s is headed %r" % (parts[0], p.h1)))
            elif len(parts) == 1:
                errs = [check_index(p, st[1], js, tz) for st in ever[::-1] for js in dict.fromkeys(sets[::-1])]
                if all(errs):
                    v.append((q, "index: " + errs[0]))
        if v:
            return v
        if not complete or cur is None:
            continue
        # a complete run leaves everything there and up to date
        c = conf(m, cur)
        suf = "index.html.gz" if c.get("report_html_gz") else "index.html"
        regen = "-r" in e["args"] or "--regenerate" in e["args"]
        mine = frozenset(j for j, d in jobs_of(c).items() if d.get("render_reports", True))
        first = now[0]
        for rid, row in first[1].items():
            if row["job"] in mine and "%s/%s/%s" % (row["job"], rid, suf) not in pages:
                v.append((q, "run %s of %s has no page after dsari-render has succeeded" % (rid[:8], row["job"])))
        if regen:
            lim = [(c.get("report_run_output_start", 0), c.get("report_run_output_end", 0))]
            for rid, row in first[1].items():
                p = pages.get("%s/%s/%s" % (row["job"], rid, suf))
                if row["job"] in mine and p is not None and not out_ok(p.pre, last[3].get(rid), lim):
                    v.append((q, "run %s of %s: output %r is not up to date after --regenerate" % (
                        rid[:8], row["job"], p.pre[:100])))
        for j in sorted(mine):
            p = pages.get("%s/%s" % (j, suf))
            if not any(r["job"] == j for r in first[1].values()):
                continue
            if p is None:
                v.append((q, "job %s has no page after dsari-render has succeeded" % j))
                continue
            rows = [r for r in p.tables[0][1] if not r["th"]]
            errs = [check_list(rows, {i: r for i, r in st[1].items() if r["job"] == j}, False, tz) for st in now]
            if all(errs):
                v.append((q, "page of job %s after dsari-render has succeeded: %s" % (j, errs[0])))
        p = pages.get(suf)
        if any(r["job"] in mine for r in first[1].values()) or regen:
            if p is None:
                v.append((q, "there is no index after dsari-render has succeeded"))
            else:
                errs = [check_index(p, st[1], mine, tz) for st in now]
                if all(errs) and not regen and len(set(sets)) > 1:
                    # (made before the configuration changed; as good while no run of today's jobs has ended since)
                    of = lambda st: {i for i, r in st[1].items() if r["job"] in mine}
                    errs += [check_index(p, st[1], x, tz) for st in ever[::-1] for x in dict.fromkeys(sets[::-1])
                             if any(of(st) == of(y) for y in now)]
                if all(errs):
                    v.append((q, "index after dsari-render has succeeded: " + errs[0]))
            if "darkly.min.css" not in tree:
                v.append((q, "there is no style sheet after dsari-render has succeeded"))
        if v:
            return v
    return v


# -------------------------------------------------------------------- metrics
LINE = re.compile(r'([a-zA-Z_:][a-zA-Z0-9_:]*)(\{(.*)\})? (\S+)$')
LABEL = re.compile(r'([a-zA-Z_][a-zA-Z0-9_]*)="((?:[^"\\]|\\.)*)"(,|$)')


def parse_metrics(text):
    """{(name, labels): value}, error"""
    out, types, cur = {}, {}, None
    done = set()
    if text and not text.endswith("\n"):
        return None, "does not end with a line feed"
    for line in text.split("\n")[:-1]:
        if not line:
            continue
        if line.startswith("# TYPE "):
            name, typ = line[7:].split(" ", 1)
            if name in types:
                return None, "two types for %s" % name
            types[name] = typ
            continue
        if line.startswith("#"):
            continue
        mt = LINE.match(line)
        if not mt:
            return None, "not a metric: %r" % line
        name, labels, val = mt.group(1), mt.group(3), mt.group(4)
        d = {}
        if labels:
            pos = 0
            while pos < len(labels):
                ml = LABEL.match(labels, pos)
                if not ml:
                    return None, "bad labels: %r" % line
                d[ml.group(1)] = ml.group(2).replace('\\"', '"').replace("\\n", "\n").replace("\\\\", "\\")
                pos = ml.end()
        if cur != name:
            if name in done:
                return None, "samples of %s are not together" % name
            done.add(name)
            cur = name
        key = (name, tuple(sorted(d.items())))
        if key in out:
            return None, "twice: %r" % line
        try:
            out[key] = float(val)
        except ValueError:
            return None, "no number: %r" % line
    return (out, types), None


def quantile(xs, q):
    xs = sorted(xs)
    k = (len(xs) - 1) * q
    f = int(k)
    if f == k:
        return xs[f]
    return xs[f] * (f + 1 - k) + xs[f + 1] * (k - f)


def job_metrics(job, done, quants):
    """Expected metrics of one job.  (last run: one of several)"""
    runs = [r for r in done.values() if r["job"] == job]
    n = len(runs)
    j = ("job_name", job)
    out = {("dsari_run_count", (j,)): n,
           ("dsari_run_success_count", (j,)): sum(1 for r in runs if r["exit"] == 0),
           ("dsari_run_failure_count", (j,)): sum(1 for r in runs if r["exit"] != 0)}
    lasts = []
    if n:
        du = [r["stop"] - r["start"] for r in runs]
        la = [r["start"] - r["sched"] for r in runs]
        for q in quants:
            out[("dsari_run_duration_seconds", (j, ("quantile", str(q))))] = quantile(du, q)
            out[("dsari_run_latency_seconds", (j, ("quantile", str(q))))] = quantile(la, q)
        out[("dsari_run_duration_seconds_sum", (j,))] = sum(du)
        out[("dsari_run_latency_seconds_sum", (j,))] = sum(la)
        out[("dsari_run_duration_seconds_count", (j,))] = n
        out[("dsari_run_latency_seconds_count", (j,))] = n
        top = max(r["stop"] for r in runs)
        lasts = [r for r in runs if r["stop"] == top]
    return out, lasts


def same(a, b):
    return a is not None and abs(a - b) <= 5e-6 * max(1, 1) + 1e-9 * abs(b) + 2e-6


LAST = (("dsari_last_run_exit_code", "exit"), ("dsari_last_run_schedule_time", "sched"),
        ("dsari_last_run_start_time", "start"), ("dsari_last_run_stop_time", "stop"))


def check_jobs(got, jobs, done, quants):
    """Does what was served for the jobs agree with these records?"""
    want_keys = set()
    for job in jobs:
        want, lasts = job_metrics(job, done, quants)
        for k, x in want.items():
            if k not in got:
                return "no %s%r" % k
            # (sums of floats in any order)
            if not (abs(got[k] - x) <= 1e-5 + 1e-9 * abs(x)):
                return "%s%r is %r instead of %r" % (k + (got[k], x))
            want_keys.add(k)
        if lasts:
            j = (("job_name", job),)
            if not any(all(close(got.get((n, j)), float(l[f]), 2e-6) for n, f in LAST) for l in lasts):
                return "last run of %s: %r instead of %r" % (job, [got.get((n, j)) for n, _ in LAST],
                                                             [lasts[0][f] for _, f in LAST])
            want_keys |= {(n, j) for n, _ in LAST}
    for k in got:
        if k[0].startswith(("dsari_run_", "dsari_last_run_")) and k not in want_keys:
            return "%s%r should not be there" % k
    return None


def check_running(got, jobs, running):
    want = {}
    for r in running.values():
        if r["job"] in jobs:
            k = (("job_name", r["job"]), ("run_id", r["id"]))
            want[("dsari_running_run_schedule_time", k)] = r["sched"]
            want[("dsari_running_run_start_time", k)] = r["start"]
    mine = {k: x for k, x in got.items() if k[0].startswith("dsari_running_run_")}
    if set(mine) != set(want):
        return "running: %r instead of %r" % (sorted(set(mine) - set(want)), sorted(set(want) - set(mine)))
    for k, x in want.items():
        if not close(mine[k], x, 2e-6):
            return "%s%r is %r instead of %r" % (k + (mine[k], x))
    return None


class Arg:
    def __init__(self, args):
        self.cache, self.quants, self.running, self.path = 120.0, [0.01, 0.1, 0.5, 0.9, 0.99], True, "/metrics"
        self.listen = ["0.0.0.0", 50575]
        it = iter(args)
        for a in it:
            if a == "--job-cache-time":
                self.cache = float(next(it))
            elif a == "--quantiles":
                self.quants = [float(x) for x in next(it).split(",")]
            elif a == "--no-running":
                self.running = False
            elif a == "--metrics-path":
                self.path = next(it)
            elif a == "--listen-address":
                self.listen[0] = next(it)
            elif a == "--listen-port":
                self.listen[1] = int(next(it))


def fresh(cands, m):
    return dict((id(x), x) for x in cands).values()


def c16(m):
    v = []
    for s, e, states in m.tools:
        if e["tool"] != "prometheus-exporter":
            continue
        a = Arg(e["args"])
        evs = m.hist[s["q"]:e["q"] + 1]
        st = m.scn["script"][e["i"]]
        good_end = e["how"] == "crash" or (e["how"] == "exit" and e["code"] == 0)
        refused = any(x["k"] == "conf_read" and not m.scn["configs"][x["v"]].get("ok", True) for x in evs[:40]) and \
            not any(x["k"] == "req" for x in evs)
        if not good_end and not m.faulted(s["q"], e["q"]) and not refused:
            v.append((e["q"], "the exporter ended (%s, exit code %s): %s" % (e["how"], e.get("code"), fail(e))))
            return v
        if st.get("reqs") is None and not st.get("wsgi"):
            if e["how"] == "exit" and e["code"] == 0:
                cs = {x["v"] for x in evs if x["k"] == "conf_read" and m.scn["configs"][x["v"]].get("ok", True)}
                v += judge_metrics(m, a, e["q"], e["out"], m.between(s["q"], e["q"]), m.between(s["q"], e["q"]), cs,
                                   s["w"], e["w"])
            continue
        for x in evs:
            if x["k"] == "listen" and [x["host"], x["port"]] != a.listen:
                v.append((x["q"], "listens on %r port %r instead of %s port %d" % (x["host"], x["port"], *a.listen)))
        # requests one after the other
        loaded = None          # versions of the configuration which may be in effect
        hup_q = None
        cur = None
        for x in evs:
            if x["k"] == "conf_read" and m.scn["configs"][x["v"]].get("ok", True):
                if cur is None:
                    loaded = {x["v"]}
                else:
                    loaded = (loaded or set()) | {x["v"]}
            elif x["k"] == "req":
                cur = x
                hq = [y["q"] for y in m.hist[s["q"]:x["q"]] if y["k"] == "signal" and y["sig"] == 1]
                if hq and not m.faulted(s["q"], x["q"]) and not any(
                        y["k"] == "conf_read" for y in m.hist[hq[-1]:x["q"]]):
                    v.append((x["q"], "the configuration is not read after SIGHUP"))
                # reloads before are over and done with
                if loaded and len(loaded) > 1 and not m.faulted(s["q"], x["q"]):
                    hq = [y["q"] for y in m.hist[s["q"]:x["q"]] if y["k"] == "signal" and y["sig"] == 1]
                    rq = [y for y in m.hist[s["q"]:x["q"]] if y["k"] == "conf_read"]
                    good = [y["v"] for y in rq if m.scn["configs"][y["v"]].get("ok", True)]
                    if rq and (not hq or rq[-1]["q"] > hq[-1]):
                        loaded = {good[-1]}
            elif x["k"] == "resp":
                path, n = cur["path"], x["n"]
                ok = x["status"].startswith("200")
                excused = m.faulted(cur["q"], x["q"]) or locked_at(m, cur["q"])
                if path != a.path:
                    if not x["status"].startswith("404"):
                        v.append((x["q"], "answers %s for %s" % (x["status"], path)))
                elif not ok:
                    if not excused:
                        v.append((x["q"], "request %d failed with %s: %s" % (n, x["status"], (x.get("exc") or "")[-600:])))
                else:
                    if x["headers"].get("Content-Length") not in (None, str(len(x["body"].encode()))):
                        v.append((x["q"], "wrong Content-Length"))
                    # what may be served: anything as of then or of up to the cache time before
                    t_old = cur["t"] - int(a.cache * SEC) - 1000
                    q_old = cur["q"]
                    for y in reversed(m.hist[s["q"]:cur["q"]]):
                        if y["t"] < t_old:
                            break
                        q_old = y["q"]
                    # not older than the last reload
                    hq = [y["q"] for y in m.hist[s["q"]:cur["q"]] if y["k"] == "signal" and y["sig"] == 1]
                    if hq and reload_ok(m, hq[-1], cur["q"]):
                        q_old = max(q_old, hq[-1])
                    v += judge_metrics(m, a, x["q"], x["body"], m.between(q_old, x["q"]), m.between(cur["q"], x["q"]),
                                       set(loaded or ()), cur["w"], x["w"])
                cur = x
            if len(v) > 3:
                return v
    return v


def locked_at(m, q):
    """Does another process hold a lock on the database, as of event q?"""
    n = 0
    for e in m.hist[:q]:
        if e["k"] == "ext_lock":
            n += 1
        elif e["k"] == "ext_unlock":
            n -= 1
    return n > 0


def reload_ok(m, q0, q1):
    """Was a valid configuration read after event q0?"""
    vs = [e["v"] for e in m.hist[q0:q1] if e["k"] == "conf_read"]
    return bool(vs) and m.scn["configs"][vs[-1]].get("ok", True)


def judge_metrics(m, a, q, text, states, now_states, vs, w0, w1):
    got, err = parse_metrics(text)
    if err:
        return [(q, "not in the exposition format: " + err)]
    got, types = got
    t = got.get(("dsari_time", ()))
    if t is None or not (min(w0, w1) / SEC - 0.01 <= t <= max(w0, w1) / SEC + 0.01):
        return [(q, "dsari_time is %r instead of %r" % (t, w0 / SEC))]
    errs = []
    for c in sorted(vs, reverse=True):
        jobs = sorted(jobs_of(conf(m, c)))
        for st in reversed(states):
            err = check_jobs(got, jobs, st[1], a.quants)
            errs.append(err)
            if not err:
                break
        else:
            continue
        errs = None
        break
    if errs is not None:
        # (one query per job, each of its own moment)
        for c in sorted(vs, reverse=True):
            jobs = sorted(jobs_of(conf(m, c)))
            bad = None
            for job in jobs:
                sub = {k: x for k, x in got.items() if dict(k[1]).get("job_name") == job}
                es = [check_jobs(sub, [job], st[1], a.quants) for st in reversed(states)]
                if all(es):
                    bad = es[0]
                    break
            names = {dict(k[1]).get("job_name") for k in got if k[0].startswith("dsari_run_")}
            if bad is None and not names - set(jobs):
                errs = None
                break
    if errs is not None:
        return [(q, "metrics of no moment within the cache time: %s" % (errs[0] if errs else "no configuration"))]
    if a.running:
        errs = []
        ok = False
        for c in sorted(vs, reverse=True):
            jobs = sorted(jobs_of(conf(m, c)))
            es = [check_running(got, jobs, st[2]) for st in now_states]
            if not all(es):
                ok = True
                break
            # each job of its own moment
            mine = {k: x for k, x in got.items() if k[0].startswith("dsari_running_run_")}
            if all(not all(check_running({k: x for k, x in mine.items() if dict(k[1])["job_name"] == j}, [j], st[2])
                           for st in now_states) for j in jobs) and not {dict(k[1])["job_name"] for k in mine} - set(jobs):
                ok = True
                break
            errs += es
        if not ok:
            return [(q, errs[0] if errs else "running runs without a configuration")]
    elif any(k[0].startswith("dsari_running") for k in got):
        return [(q, "running runs in spite of --no-running")]
    return []


# ---------------------------------------------------------------- information
def fields_ok(d, row, finished):
    if d.get("job_name") != row["job"] or d.get("trigger_type") != row["type"]:
        return "job or trigger type: %r" % d
    if d.get("trigger_data") != norm(row["tdata"]):
        return "trigger data %r instead of %r" % (d.get("trigger_data"), row["tdata"])
    for k, f in (("schedule_time", "sched"), ("start_time", "start")):
        if not close(epoch(str(d.get(k))), row[f], 1.5e-6):
            return "%s %r instead of %r" % (k, d.get(k), row[f])
    if finished:
        if not close(epoch(str(d.get("stop_time"))), row["stop"], 1.5e-6) or d.get("exit_code") != row["exit"] or \
                d.get("run_data") != norm(row["rdata"]):
            return "end: %r instead of %r" % (d, row)
    elif d.get("stop_time") is not None or d.get("exit_code") is not None:
        return "a running run with an end: %r" % d
    return None


def norm(x):
    return json.loads(json.dumps(x))


def opts(args, name):
    return [args[i + 1] for i, a in enumerate(args) if a == name]


def match_run(d, rid, states):
    """Does this description of a run fit the records of one of these moments?"""
    errs = []
    for st in states:
        if rid in st[1]:
            errs.append(fields_ok(d, st[1][rid], True))
        elif rid in st[2]:
            errs.append(fields_ok(d, st[2][rid], False))
        else:
            errs.append("run %s is not recorded" % rid)
        if errs[-1] is None:
            return None
    return [x for x in errs if x][0]


def c17_runs(m, s, e, states):
    args = e["args"]
    fmt = (opts(args, "--format") or ["pretty"])[0]
    jobs, ids = opts(args, "--job"), opts(args, "--run")

    def wanted(row):
        return (not ids or row["id"] in ids) and (not jobs or row["job"] in jobs)
    every = None
    union = {}
    for st in states:
        here = {i: r for src in (st[1], st[2]) for i, r in src.items() if wanted(r)}
        union.update(here)
        every = set(here) if every is None else every & set(here)
    out = e["out"]
    listed = []
    if fmt in ("json", "yaml"):
        try:
            if fmt == "json":
                keys = []
                doc = json.loads(out, object_pairs_hook=lambda p: (keys.append([k for k, _ in p]), dict(p))[1])
                top = keys[-1] if keys else []
                if len(set(top)) != len(top):
                    return "lists a run twice"
            else:
                import yaml
                doc = yaml.safe_load(out)
        except Exception as x:
            return "output is not %s: %s" % (fmt, x)
        for rid, d in doc.items():
            err = match_run(d, rid, states)
            if err:
                return err
            if rid not in union:
                return "lists run %s, which does not match the filter" % rid
            listed.append(rid)
    elif fmt == "tabular":
        prev = None
        for line in out.splitlines():
            f = line.split("\t")
            if len(f) != 7:
                return "bad line %r" % line
            rid = f[0]
            if rid not in union:
                return "lists run %s, which it should not" % rid
            errs = []
            for st in states:
                if rid in st[1]:
                    r = st[1][rid]
                    ok = f[2] == str(r["exit"]) and close(epoch(f[6]), r["stop"], 1.5e-6)
                elif rid in st[2]:
                    r = st[2][rid]
                    ok = f[2] == "" and f[6] == ""
                else:
                    continue
                ok = ok and f[1] == r["job"] and f[3] == r["type"] and close(epoch(f[4]), r["sched"], 1.5e-6) and close(
                    epoch(f[5]), r["start"], 1.5e-6)
                errs.append(not ok)
            if not errs or all(errs):
                return "line %r instead of %r" % (line, union[rid])
            if prev is not None and union[rid]["start"] < prev - 1e-6:
                return "not in the order of start times"
            prev = union[rid]["start"]
            listed.append(rid)
    else:
        lines = out.splitlines()
        cols = columns(m, e)
        prev = None
        for line in lines[2:]:
            rid = line[:36]
            if rid not in union:
                return "lists %r, which it should not" % rid
            f = re.split(r"\s{3,}", line.rstrip())
            if cols >= 400:
                errs = []
                for st in states:
                    if rid in st[1]:
                        r = st[1][rid]
                        ok = f[1] == str(r["exit"]) and f[3] == dur(r)
                    elif rid in st[2]:
                        r = st[2][rid]
                        ok = f[1] == "..."
                    else:
                        continue
                    ok = ok and f[2] == r["job"] and close(epoch(f[4]), r["start"], 1.5e-6) and f[5] == r["type"] and \
                        f[6] == str(at(r["start"]) - at(r["sched"]))
                    errs.append(not ok)
                if not errs or all(errs):
                    return "line %r instead of %r" % (line, union[rid])
            if prev is not None and union[rid]["start"] > prev + 1e-6:
                return "not in the order of start times"
            prev = union[rid]["start"]
            listed.append(rid)
    if len(set(listed)) != len(listed):
        return "lists a run twice"
    miss = (every or set()) - set(listed)
    if miss:
        r = union[sorted(miss)[0]]
        return "run %s of %s is missing" % (r["id"][:8], r["job"])
    return None


def c17_jobs(m, s, e, c):
    args = e["args"]
    fmt = (opts(args, "--format") or ["pretty"])[0]
    want = {j: d for j, d in jobs_of(c).items() if not opts(args, "--job") or j in opts(args, "--job")}
    tz = m.scn.get("tz", "UTC")
    # (whether a schedule which cannot be processed is shown is documented nowhere)
    lacking = {j: lacks(m.scn.get("missing", ()), d["schedule"]) for j, d in want.items()}

    def next_ok(j, text):
        d = want[j]
        if lacking[j]:
            return text in (None, "")
        if not d["schedule"]:
            return text in (None, "")
        got = None if text in (None, "") else epoch(str(text))
        if got is None and text not in (None, ""):
            return False
        xs = [refsched.after(d["schedule"], j, d.get("schedule_timezone") or tz, w / SEC)
              for w in [x["w"] for x in m.hist[s["q"]:e["q"] + 1] if "w" in x]]
        if refsched.UNSURE in xs:
            return True
        xs = [x if x is None else x + refsched.offset(j) for x in xs]
        if any(got is x is None or None not in (got, x) and abs(got - x) < 0.001 for x in xs):
            return True
        if None in xs or got is None:
            # (no further occurrence later on)
            return None in xs and any(xs) and (got is None or got >= min(x for x in xs if x) - 0.001)
        return min(xs) - 0.001 <= got <= max(xs) + 0.001

    def cmd(j):
        import shlex
        x = want[j]["command"]
        return shlex.split(x) if isinstance(x, str) else x
    import shlex
    out = e["out"]
    if fmt in ("json", "yaml"):
        import yaml
        try:
            doc = json.loads(out) if fmt == "json" else yaml.safe_load(out)
        except Exception as x:
            return "output is not %s: %s" % (fmt, x)
        if set(doc) != set(want):
            return "lists jobs %r instead of %r" % (sorted(doc), sorted(want))
        for j, d in doc.items():
            err = job_fields(dict(want[j], schedule=None) if lacking[j] and not d.get("schedule") else want[j], d, cmd(j))
            if err:
                return "job %s: %s" % (j, err)
            if not next_ok(j, d.get("next_scheduled_run")):
                return "next run of %s (%s): %r" % (j, want[j]["schedule"], d.get("next_scheduled_run"))
        return None
    lines = out.splitlines()
    names = []
    if fmt == "tabular":
        for line in lines:
            f = line.split("\t")
            if len(f) != 4 or f[0] not in want:
                return "bad line %r" % line
            if f[1] != (want[f[0]]["schedule"] or "") and not (lacking[f[0]] and not f[1]) or f[2] != " ".join(shlex.quote(x) for x in cmd(f[0])) or \
                    not next_ok(f[0], f[3]):
                return "line %r for %r" % (line, want[f[0]])
            names.append(f[0])
    else:
        for line in lines[2:]:
            j = max((x for x in want if line.startswith(x + "   ") or line.rstrip() == x), key=len, default=None)
            if j is None:
                return "bad line %r" % line
            names.append(j)
    if sorted(names) != sorted(want):
        return "lists jobs %r instead of %r" % (names, sorted(want))
    return None


def job_fields(want, d, cmd):
    exp = {"command": cmd, "schedule": want["schedule"],
           "command_append_run": want.get("command_append_run", False),
           "environment": {k: v if isinstance(v, str) else str(v) for k, v in want["environment"].items()},
           "max_execution": want["max_execution"], "max_execution_grace": want["max_execution_grace"],
           "concurrency_groups": sorted(want["concurrency_groups"]), "render_reports": want.get("render_reports", True),
           "jenkins_environment": want.get("jenkins_environment", False), "job_group": want.get("job_group"),
           "concurrent_runs": want["concurrent_runs"]}
    for k, x in exp.items():
        if k not in d:
            return "no %s" % k
        if d[k] != x:
            return "%s is %r instead of %r" % (k, d[k], x)
    return None


def terminal(m, s, e, st):
    """-> (the end with what the user saw as its output, what is wrong, whether it is not all)"""
    cut = st.get("out_limit") is not None and len(e["out"]) >= st["out_limit"]
    if not st.get("tty"):
        return e, None, cut
    odd = [x for x in m.hist[s["q"]:e["q"]] if x["k"] == "odd_pager"]
    if odd:
        return e, "starts %r as the pager instead of %r" % (odd[0]["args"], odd[0]["want"]), cut
    p = e.get("pager")
    out = e["out"]
    if p:
        if out:
            return e, "prints %r past the pager" % out[:100], cut
        if not p["ended"]:
            return e, "ends while its pager is still there", cut
        out, cut = p["out"], p["quit"]
    if e["args"][:2] != ["run", "output"]:
        out = re.sub(r"\x1b\[[0-9;]*m", "", out)
    return dict(e, out=out), None, cut


def columns(m, e):
    st = m.scn["script"][e["i"]]
    if "COLUMNS" in st.get("env", {}):
        return int(st["env"]["COLUMNS"])
    return (st.get("tty") or {}).get("size") or 1000


def c17(m):
    v = []
    for s, e, idx in m.tools:
        if e["tool"] != "info":
            continue
        states = m.between(s["q"], e["q"])
        st = m.scn["script"][e["i"]]
        args = e["args"]
        q = e["q"]
        if e["how"] in ("hang", "livelock"):
            v.append((q, "dsari-info %s does not end" % " ".join(args[:2])))
            continue
        excused = m.faulted(s["q"], q) or locked_at(m, s["q"])
        if e["how"] == "crash":
            if args[:2] == ["run", "tail"]:
                err = tail_missed(m, s, e, args)
                if err and not excused:
                    v.append((q, err))
            continue
        if e["how"] == "exec":
            err = tail_ok(m, s, e, args) if args[:2] == ["run", "tail"] else "started %r" % e["argv"]
            if err:
                v.append((q, "dsari-info run tail: " + err))
            continue
        vs = [x["v"] for x in m.hist[s["q"]:q] if x["k"] == "conf_read"]
        cv = vs[-1] if vs else 0
        okconf = m.scn["configs"][cv].get("ok", True)
        e, err, cut = terminal(m, s, e, st)
        if err:
            v.append((q, "dsari-info %s: %s" % (" ".join(args[:2]), err)))
            continue
        if cut and e["code"] == 0:
            continue
        if args[:2] == ["run", "output"]:
            rid = args[2]
            alts = [None if rid not in t[1] and rid not in t[2] else (t[3].get(rid) or b"").decode("utf-8", "replace")
                    for t in states]
            if e["code"] != 0:
                if None not in alts and not excused and okconf:
                    v.append((q, "dsari-info run output failed: %s" % fail(e)))
            elif e["out"] not in alts:
                v.append((q, "dsari-info run output printed %r instead of %r" % (e["out"][:200], alts[0] and alts[0][:200])))
            continue
        if e["code"] != 0:
            if not excused and okconf:
                v.append((q, "dsari-info %s failed (%s, %s): %s" % (" ".join(args[:2]), e["how"], e["code"], fail(e))))
            continue
        if not okconf:
            v.append((q, "dsari-info %s takes an invalid configuration: %s" % (
                " ".join(args[:2]), e["out"][:100])))
            continue
        err = None
        if args[:2] == ["run", "list"]:
            err = c17_runs(m, s, e, states)
        elif args[:2] == ["job", "list"]:
            err = c17_jobs(m, s, e, conf(m, cv))
        elif args[:2] == ["run", "tail"]:
            err = None if excused else "ended without following anything"
        elif args[:2] == ["config", "check"]:
            err = None if "OK" in e["out"] else "printed %r" % e["out"]
        if err:
            v.append((q, "dsari-info %s: %s" % (" ".join(args[:2]), err)))
    return v


def tail_files(m, state, ids):
    out = set()
    for rid, r in state[2].items():
        if (not ids or rid in ids) and state[3].get(rid) is not None:
            out.add("%s/%s/output.txt" % (r["job"], rid))
    return out


def tail_ok(m, s, e, args):
    ids = args[2:]
    if e["argv"][:2] != ["tail", "-f"]:
        return "started %r" % e["argv"]
    got = [x.split("/runs/", 1)[-1] for x in e["argv"][2:]]
    if len(set(got)) != len(got) or not got:
        return "follows %r" % got
    t = e["t"] - int(1.2 * SEC)
    q0 = next((x["q"] for x in m.hist[s["q"]:] if x["t"] >= t), s["q"])
    sts = m.between(q0, e["q"])
    may = set().union(*[tail_files(m, x, ids) for x in sts])
    must = set.intersection(*[tail_files(m, x, ids) for x in sts])
    if set(got) - may:
        return "follows %r, which are not running" % sorted(set(got) - may)
    if must - set(got):
        return "does not follow %r" % sorted(must - set(got))
    return None


def tail_missed(m, s, e, args):
    ids = args[2:]
    t = e["t"] - 3 * SEC
    if t < s["t"]:
        return None
    q0 = next((x["q"] for x in m.hist[s["q"]:] if x["t"] >= t), e["q"])
    must = set.intersection(*[tail_files(m, x, ids) for x in m.between(q0, e["q"])])
    if must:
        return "dsari-info run tail does not notice %r" % sorted(must)
    return None


# -------------------------------------------------------------- configuration
def merge(a, b):
    """Dictionaries within dictionaries are merged; anything else replaces."""
    if not isinstance(b, dict) or not isinstance(a, dict):
        return copy.deepcopy(b)
    out = copy.deepcopy(a)
    for k, x in b.items():
        out[k] = merge(out[k], x) if k in out and isinstance(out[k], dict) else copy.deepcopy(x)
    return out


class Bad(Exception):
    pass


class Neutral(Exception):
    pass


def load_text(name, text):
    import yaml
    try:
        d = json.loads(text) if name.endswith(".json") else yaml.safe_load(text)
    except Exception:
        raise Bad(name)
    if not isinstance(d, dict):
        raise Neutral(name)
    return d


def combined(files, confdir):
    doc = {}
    for n in ("dsari.yaml", "dsari.json"):
        if n in files:
            doc = merge(doc, load_text(n, files[n]))
    d = "config.d"
    if doc.get("config_d"):
        d = doc["config_d"]
        d = d[len(confdir) + 1:] if d.startswith(confdir + "/") else "\0"
    elif "config_d" in doc:
        d = "\0"
    for suf in (".yaml", ".json"):
        for n in sorted(f for f in files if f.startswith(d + "/") and "/" not in f[len(d) + 1:] and f.endswith(suf)):
            doc = merge(doc, load_text(n, files[n]))
    return doc


def c18(m):
    v = []
    files = {}
    base = kernel_files(m)
    files.update(base)
    versions = [(0, dict(files))]
    odd = set()         # (cut short: may be valid, by accident)
    for e in m.hist:
        if e["k"] == "step" and e["do"] == "cfile":
            if e["text"] is None:
                files.pop(e["name"], None)
            else:
                files[e["name"]] = e["text"].replace("@DATA@", m.res.data_dir).replace("@CONF@", m.res.conf_dir)
                if e.get("odd"):
                    odd.add(files[e["name"]])
            versions.append((e["q"], dict(files)))
    for s, e, _ in m.tools:
        if e["how"] == "crash":
            continue
        args, q = e["args"], e["q"]
        cands = [f for i, (a, f) in enumerate(versions)
                 if a <= q and (versions[i + 1][0] if i + 1 < len(versions) else 1 << 60) >= s["q"]]
        excused = m.faulted(s["q"], q)
        if e["how"] in ("hang", "livelock"):
            v.append((q, "does not end"))
            continue
        # one version of every file each (a file may change while another is read)
        names = sorted(set().union(*cands))
        combos = [{}]
        for n in names:
            alts = []
            for f in cands:
                if f.get(n) not in alts:
                    alts.append(f.get(n))
            combos = [dict(c, **({n: a} if a is not None else {})) for c in combos for a in alts][:4096]
        racy = len(combos) > 1
        good = []
        bad = nodata = False
        for c in combos:
            try:
                doc = combined(c, m.res.conf_dir)
                if "data_dir" not in doc and not m.scn.get("home"):
                    # (would use the default database, which does not exist here)
                    nodata = True
                elif odd & set(c.values()) and not sane(doc):
                    nodata = True
                elif valid(doc) is None:
                    nodata = True
                elif valid(doc):
                    good.append(doc)
                    bad = bad or any(x in odd for x in c.values())
                else:
                    bad = True
            except Neutral:
                nodata = True
            except Bad:
                bad = True
        if e["code"] != 0:
            if not bad and not nodata and not excused and not racy:
                v.append((q, "refuses a valid configuration: %s" % fail(e)))
            continue
        if nodata:
            continue
        if not good:
            v.append((q, "accepts an invalid configuration: %s" % e["out"][:150]))
            continue
        if args[:2] != ["config", "dump"]:
            continue
        fmt = (opts(args, "--format") or ["json"])[0]
        import yaml
        try:
            doc = json.loads(e["out"]) if fmt == "json" else yaml.safe_load(e["out"])
        except Exception as x:
            v.append((q, "output is not %s: %s" % (fmt, x)))
            continue
        errs = [(raw_diff(g, doc) if "--raw" in args else compiled_diff(g, doc, m)) for g in good]
        if all(errs):
            v.append((q, errs[0]))
    return v


def kernel_files(m):
    from kernel import config_files
    out = {}
    for n, t in config_files(m.scn["configs"][0]).items():
        if n != "data_dir":
            out[n] = t.replace("@DATA@", m.res.data_dir).replace("@CONF@", m.res.conf_dir)
    return out


NAME = re.compile(r"[- A-Za-z0-9_+.:@]{1,64}")
BOOLS = ("command_append_run", "render_reports", "jenkins_environment", "concurrent_runs")
NUMBERS = ("max_execution", "max_execution_grace")


def name_ok(n):
    if not isinstance(n, str):
        return None
    return bool(NAME.fullmatch(n)) and n not in (".", "..")


def env_ok(e):
    """True, False or None (nothing is documented about it)."""
    if e is None or isinstance(e, bool):
        return None
    if not isinstance(e, dict):
        return False
    out = True
    for k, x in e.items():
        if isinstance(x, (dict, list)):
            return False
        if isinstance(x, bool) or x is None or not isinstance(k, str):
            out = None
    return out


def typed(d, spec):
    out = True
    for k, ts in spec.items():
        if k not in d:
            continue
        x = d[k]
        if x is None or isinstance(x, bool) and bool not in ts:
            out = None
        elif not isinstance(x, ts):
            return False
    return out


def all3(xs):
    xs = list(xs)
    return False if any(x is False for x in xs) else None if any(x is None for x in xs) else True


def job_ok(n, j, group=False):
    if not isinstance(j, dict):
        return None
    r = [name_ok(n)]
    if "command" not in j:
        return False
    c = j["command"]
    if isinstance(c, str):
        import shlex
        try:
            shlex.split(c)
        except ValueError:
            r.append(False)
    elif isinstance(c, list):
        r.append(True if c and all(isinstance(x, str) for x in c) else None)
    else:
        r.append(None if c is None else False)
    spec = {k: (bool,) for k in BOOLS}
    spec.update({k: (int, float) for k in NUMBERS})
    spec.update(job_group=(str,), schedule_timezone=(str,))
    r.append(typed(j, spec))
    for k in NUMBERS:
        if isinstance(j.get(k), (int, float)) and not 0 <= j[k] < 1e9:
            r.append(None)
    s = j.get("schedule")
    if s is not None:
        r.append(None if isinstance(s, bool) else isinstance(s, str) and schedule_ok(s))
    if j.get("schedule_timezone") and isinstance(j["schedule_timezone"], str):
        try:
            refsched.zone(j["schedule_timezone"])
        except Exception:
            r.append(None)
    if "environment" in j:
        r.append(env_ok(j["environment"]))
    if "concurrency_groups" in j:
        g = j["concurrency_groups"]
        r.append(all3(name_ok(x) for x in g) if isinstance(g, list) else None)
    return all3(r)


def schedule_ok(s):
    import toolgen
    if s in toolgen.BAD_SCHEDULES:
        return False
    return True if s in toolgen.SLOW or s in toolgen.FAST else None


def valid(doc):
    """Only for what the generator of configurations makes; None: nothing is documented about it."""
    r = [typed(doc, {"data_dir": (str,), "template_dir": (str,), "report_html_gz": (bool,), "shutdown_kill_runs": (bool,),
                     "report_run_output_start": (int,), "report_run_output_end": (int,), "shutdown_kill_grace": (int, float)})]
    if "environment" in doc:
        r.append(env_ok(doc["environment"]))
    gs = doc.get("concurrency_groups", {})
    if not isinstance(gs, dict):
        r.append(None)
    else:
        for n, d in gs.items():
            r += [name_ok(n), typed(d, {"max": (int,)}) if isinstance(d, dict) else None]
    js, groups = doc.get("jobs", {}), doc.get("job_groups", {})
    if not isinstance(js, dict) or not isinstance(groups, dict):
        return None
    over = set()
    for n, g in groups.items():
        if not isinstance(g, dict):
            r.append(None)
            continue
        r.append(name_ok(n))
        ms = g.get("job_names")
        if "job_names" not in g:
            r.append(False)
        elif not isinstance(ms, list) or not all(isinstance(x, str) for x in ms):
            r.append(None)
        else:
            for x in ms:
                if x in over:
                    r.append(None)      # in two groups
                over.add(x)
                r.append(job_ok(x, dict(g, job_group=n)))
    for n, j in js.items():
        if n in over:
            # both by itself and by a group
            r.append(True if job_ok(n, j) is True else None)
        else:
            r.append(job_ok(n, j))
    return all3(r)


def sane(doc):
    """Cut short, a document may have become another one: of the usual shape still?"""
    try:
        jobs_of(doc)
        return valid(doc) is not None
    except Exception:
        return False


def raw_diff(want, got):
    if norm(want) == norm(got):
        return None
    for k in sorted(set(want) | set(got), key=str):
        if norm(want.get(k)) != norm(got.get(k)):
            return "raw configuration: %s is %r instead of %r" % (k, got.get(k), want.get(k))
    return "raw configuration differs"


def compiled_diff(want, got, m):
    import shlex
    js = jobs_of(want)
    if set(got.get("jobs", {})) != set(js):
        return "jobs %r instead of %r" % (sorted(got.get("jobs", {})), sorted(js))
    for j, d in js.items():
        c = d["command"]
        err = job_fields(d, got["jobs"][j], shlex.split(c) if isinstance(c, str) else c)
        if err:
            return "job %s: %s" % (j, err)
    groups = {g: d.get("max", 1) for g, d in (want.get("concurrency_groups") or {}).items()}
    for d in js.values():
        for g in d["concurrency_groups"]:
            groups.setdefault(g, 1)
    if {g: d.get("max") for g, d in got.get("concurrency_groups", {}).items()} != groups:
        return "concurrency groups %r instead of %r" % (got.get("concurrency_groups"), groups)
    for k, default in (("data_dir", None), ("template_dir", None), ("report_html_gz", False),
                       ("report_run_output_start", 0), ("report_run_output_end", 0), ("shutdown_kill_runs", False),
                       ("shutdown_kill_grace", None)):
        if k == "data_dir":
            default = m.res.data_dir
        if got.get(k) != want.get(k, default):
            return "%s is %r instead of %r" % (k, got.get(k), want.get(k, default))
    env = {k: x if isinstance(x, str) else str(x) for k, x in (want.get("environment") or {}).items()}
    if got.get("environment") != env:
        return "environment %r instead of %r" % (got.get("environment"), env)
    return None


def c22(m):
    """Of an exporter which is asked again and again."""
    out = c16(m)
    for s, e, states in m.tools:
        out += piling_up([x for x in m.hist[s["q"]:e["q"] + 1] if x["k"] == "load"], 80)
    return out


ORACLES = {"C15": c15, "C16": c16, "C17": c17, "C18": c18, "C22": c22}


def judge(pid, res):
    m = Moments(res)
    v = ORACLES[res.scn.get("judge", pid)](m)
    out = []
    for x in sorted(v, key=lambda y: (y[0], y[1])):
        if x not in out:
            out.append(x)
    return out
