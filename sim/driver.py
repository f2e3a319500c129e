"""Runs the seeded search for one property over all cores, minimises what it
finds, writes replay and evidence files."""
import argparse
import collections
import json
import os
import pickle
import re
import subprocess
import sys
import time as _time
import traceback

import boot

RAW = _time.CLOCK_MONOTONIC_RAW
TECHNIQUE = "deterministic simulation with fault injection"


def now():
    return _time.clock_gettime(RAW)


# executions per tier; one costs 0.2 to 1.5 s of CPU time
QUICK = {"C01": 640, "C02": 720, "C03": 420, "C04": 360, "C05": 360, "C06": 280, "C07": 800, "C08": 560, "C09": 640,
         "C10": 640, "C11": 560, "C12": 640, "C13": 420, "C14": 800,
         "C15": 640, "C16": 1600, "C17": 1200, "C18": 1600, "C19": 1000, "C20": 800, "C21": 400, "C22": 160}
TOOLS = ("C15", "C16", "C17", "C18")
MIXED = ("C19", "C20", "C22")        # every other execution is one of the tools
FACTOR = 12
LIMIT = {"quick": 420, "thorough": 780}       # s; the search ends early then


def klass(text):
    return re.sub(r"'[^']*'|\"[^\"]*\"|[0-9a-f]{6,}|[-+]?\d[\d.:e+-]*|\bof \S+( build)?|\bfor \S+( build)?", "#", text)[:60]


class Bench:
    """How to make, run and judge one execution of a property."""

    def __init__(self, pid):
        self.pid = pid
        self.k = boot.load()
        import oracles
        import scenario
        import toolgen
        import tooloracles
        self.generators = (scenario, toolgen)
        self.oracles = (oracles, tooloracles)

    def generate(self, seed, i, tier):
        tools = self.pid in TOOLS or (self.pid in MIXED and i % 2)
        return self.generators[bool(tools)].generate(self.pid, seed, i, tier)

    def run(self, scn):
        return self.k.run_scenario(scn)

    def judge(self, res):
        return self.oracles[res.scn.get("kind") == "tools"].judge(self.pid, res)

    def both(self, scn):
        res = self.run(scn)
        return res, self.judge(res)


def nontrivial(res):
    return any(e["k"] in ("spawn", "tool_end") for e in res.hist)


def summary(scn, res, v):
    return {"digest": res.digest(), "shape": res.shape(), "nontrivial": nontrivial(res), "sim_us": res.sim_us,
            "faults": dict(res.stats["faults"]), "points": res.stats.get("points", 0),
            "forks": res.stats.get("forks", 0), "events": len(res.hist),
            "signals": sum(1 for e in res.hist if e["k"] == "signal"),
            "incs": max([e.get("inc", 1) for e in res.hist] or [1]), "v": v}


def search(b, seed, tier, n, limit, workers=None):
    """[(i, summary)] in order of i; stops soon after the first violation."""
    workers = workers or min(8, os.cpu_count() or 1)
    t_end = now() + limit
    flag_r, flag_w = os.pipe()
    os.set_blocking(flag_r, False)
    pipes = []
    for wk in range(workers):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            out = os.fdopen(w, "wb")
            for i in range(wk, n, workers):
                if now() > t_end or os.path.exists(stop_file()):
                    break
                try:
                    scn = b.generate(seed, i, tier)
                    res, v = b.both(scn)
                    s = summary(scn, res, v)
                    if v:
                        # only what repeats is a finding (the machine may have been suspended, for example)
                        v2 = b.both(scn)[1]
                        if not v2:
                            s = {"error": "violation which did not repeat: %s" % v[0][1]}
                except Exception:
                    s = {"error": traceback.format_exc()}
                pickle.dump((i, s), out)
                out.flush()
                if s.get("v"):
                    open(stop_file(), "w").close()
            out.close()
            os._exit(0)
        os.close(w)
        pipes.append((pid, r))
    import selectors
    sel = selectors.DefaultSelector()
    bufs = {}
    for pid, r in pipes:
        bufs[r] = bytearray()
        sel.register(r, selectors.EVENT_READ)
    left = len(pipes)
    while left:
        for key, _ in sel.select():
            d = os.read(key.fd, 1 << 20)
            if d:
                bufs[key.fd] += d
            else:
                sel.unregister(key.fd)
                os.close(key.fd)
                left -= 1
    sel.close()
    for pid, _ in pipes:
        os.waitpid(pid, 0)
    os.close(flag_r)
    os.close(flag_w)
    res = []
    import io
    for buf in bufs.values():
        f = io.BytesIO(bytes(buf))
        while True:
            try:
                res.append(pickle.load(f))
            except (EOFError, pickle.UnpicklingError):
                break
    res.sort(key=lambda x: x[0])
    return res


_STOP = [None]


def stop_file():
    if _STOP[0] is None:
        _STOP[0] = "/tmp/dsim-stop.%d.%d" % (os.getpid(), int(now() * 1e6))
    return _STOP[0]


# ------------------------------------------------------------- minimisation
def minimise(b, scn, v, limit=100):
    t_end = now() + limit
    want = {klass(t) for _, t in v}
    best, best_v = scn, v
    tried = [0]

    def fails(s):
        if now() > t_end:
            return None
        tried[0] += 1
        try:
            res, vv = b.both(s)
        except Exception:
            return None
        vv = [x for x in vv if klass(x[1]) in want]
        return vv or None

    def attempt(s):
        nonlocal best, best_v
        vv = fails(s)
        if vv:
            best, best_v = s, vv
            return True
        return False

    def clone():
        return json.loads(json.dumps(best))

    def lists(s):
        """The lists of steps in a scenario for the tools, outermost first."""
        yield s["script"]
        for st in s["script"]:
            if st.get("reqs"):
                yield st["reqs"]
        for st in s["script"]:
            for x in [st] + st.get("reqs", []) if st.get("reqs") else [st]:
                if x.get("during"):
                    yield x["during"]

    for rnd in range(2 if "script" in scn else 0):
        size = len(json.dumps(best))
        k = 0
        while k < len(list(lists(best))) and now() < t_end:
            n = max(1, len(list(lists(best))[k]) // 2)
            while n >= 1 and now() < t_end:
                i = 0
                while k < len(list(lists(best))) and i < len(list(lists(best))[k]) and now() < t_end:
                    s = clone()
                    ls = list(lists(s))[k]
                    a, z = max(0, len(ls) - i - n), len(ls) - i      # (from the end)
                    del ls[a:z]
                    if not attempt(s):
                        i += n
                n //= 2
            k += 1
        for key in ("short_writes",):
            if key in best:
                s = clone()
                del s[key]
                attempt(s)
        if len(json.dumps(best)) >= size:
            break

    for rnd in range(2):
        size = len(json.dumps(best))
        # nothing after the violation
        try:
            res = b.run(best)
            q = min(x[0] for x in best_v)
            if 0 <= q < len(res.hist):
                s = clone()
                s["horizon"] = res.hist[q]["t"] - res.t0 + 1000
                if s["horizon"] < best.get("horizon", 0):
                    attempt(s)
        except Exception:
            pass
        # fewer operations
        n = max(1, len(best.get("ops", [])) // 2)
        while n >= 1 and now() < t_end:
            i = 0
            while i < len(best.get("ops", [])):
                s = clone()
                del s["ops"][i:i + n]
                if not attempt(s):
                    i += n
                if now() > t_end:
                    break
            n //= 2
        # fewer jobs
        names = sorted({j for c in best.get("configs", []) if isinstance(c.get("conf"), dict)
                        for j in (c["conf"].get("jobs") or {})})
        for name in names:
            s = clone()
            for c in s["configs"]:
                if isinstance(c.get("conf"), dict) and isinstance(c["conf"].get("jobs"), dict):
                    c["conf"]["jobs"].pop(name, None)
            s["ops"] = [o for o in s.get("ops", []) if o.get("job") != name]
            attempt(s)
        # plainer jobs
        for ci in range(len(best.get("configs", []))):
            conf = best["configs"][ci].get("conf")
            if not isinstance(conf, dict):
                continue
            for name in sorted(conf.get("jobs") or {}):
                for key in sorted(conf["jobs"][name]):
                    if key == "command":
                        continue
                    s = clone()
                    try:
                        del s["configs"][ci]["conf"]["jobs"][name][key]
                    except KeyError:
                        continue
                    attempt(s)
            for key in sorted(best["configs"][ci]["conf"]):
                if key in ("jobs", "data_dir"):
                    continue
                s = clone()
                del s["configs"][ci]["conf"][key]
                attempt(s)
        # simpler programs
        for name in sorted(best.get("beh", {})):
            for new in ([], best["beh"][name][:1]):
                if best["beh"].get(name) == new:
                    continue
                s = clone()
                s["beh"][name] = new
                if not new:
                    s["beh"].pop(name)
                if attempt(s):
                    break
        # a plainer world
        for key in ("oversleep", "vfs_cost", "pid_reuse", "daemon_env", "fork_mode", "argv", "ignored_at_start", "fds",
                    "restart_on_exit", "cascades"):
            if key in best:
                s = clone()
                del s[key]
                if key == "fork_mode":
                    s.pop("argv", None)
                attempt(s)
        for key in sorted(best.get("tool", {}) if isinstance(best.get("tool"), dict) else {}):
            s = clone()
            del s["tool"][key]
            attempt(s)
        if len(json.dumps(best)) >= size or now() > t_end:
            break
    return best, tried[0]


# ---------------------------------------------------------------- reporting
def trace_of(res, q):
    """The schedule and the faults up to the violation, readable."""
    out = []
    for e in res.hist[max(0, q - 60):q + 2]:
        if e["k"] in ("idle", "db"):
            continue
        d = {k: v for k, v in e.items() if k not in ("k", "q", "t", "w", "info", "new", "running", "runs", "inc", "uid",
                                                    "data", "env", "tail", "tb")}
        out.append("%12.6f #%d.%s %s %s" % ((e["t"] - res.t0) / 1e6, e.get("inc", 0), e["q"], e["k"],
                                            json.dumps(d, default=repr, sort_keys=True)[:300]))
    return [x.replace(res.work, "@") for x in out]


def write_replay(root, b, scn, seed, i, tier, minimised):
    res, v = b.both(scn)
    d = os.path.join(root, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s-%d.json" % (b.pid, seed, i))
    doc = {"property": b.pid, "seed": str(seed), "index": i, "tier": tier, "minimised": minimised,
           "violations": [t.replace(res.work, "@") for _, t in v[:5]], "class": sorted({klass(t) for _, t in v}),
           "digest": res.digest(), "schedule_and_faults": scn.get("ops") or scn.get("script", []),
           "trace": trace_of(res, min([q for q, _ in v] or [len(res.hist)])), "scenario": scn}
    with open(path, "w") as f:
        json.dump(doc, f, indent=1, default=repr)
    return path, v, res.digest()


def replay(b, path):
    with open(path) as f:
        doc = json.load(f)
    res, v = b.both(doc["scenario"])
    d = res.digest()
    print("digest %s %s" % (d, "as recorded" if d == doc.get("digest") else "differs from the recorded %s" % doc.get(
        "digest")))
    for line in trace_of(res, min([q for q, _ in v] or [len(res.hist)])):
        print("  " + line)
    for q, t in v[:10]:
        print("  -> %s" % t.replace(res.work, "@"))
    if v:
        print("VIOLATION property=%s replay=%s" % (b.pid, path))
        return 1
    print("no violation")
    return 0


def known_findings(root):
    try:
        with open(os.path.join(root, "known-findings.json")) as f:
            return json.load(f).get("findings", [])
    except FileNotFoundError:
        return []


def run_known(root, b):
    """Does each listed finding still fail, in the way listed?"""
    out, other = [], []
    for f in known_findings(root):
        if f["property"] != b.pid:
            continue
        with open(os.path.join(root, f["scenario"])) as fh:
            scn = json.load(fh)
        res, v = b.both(scn)
        hit = [t for _, t in v if re.search(f["match"], t)]
        rest = [(q, t) for q, t in v if not re.search(f["match"], t)]
        if hit:
            print("KNOWN-FINDING: property=%s %s" % (b.pid, f["what"]))
            out.append(f["id"])
        if rest:
            other.append((scn, rest))
    return out, other


def digests_other_hashseed(root, pid, seed, tier, idx):
    env = dict(os.environ)
    for k in ("DSIM_BOOT", "LD_PRELOAD", "PYTHONHASHSEED"):
        env.pop(k, None)
    env.update(DSIM_HASHSEED="4711", VERIF_SEED=str(seed), VERIF_TIER=tier)
    p = subprocess.run([sys.executable, os.path.join(root, "check.py"), pid, "--digests", ",".join(map(str, idx))],
                       env=env, capture_output=True, text=True, timeout=300)
    try:
        return json.loads(p.stdout.strip().splitlines()[-1])
    except (ValueError, IndexError):
        return {"error": (p.stdout + p.stderr)[-500:]}


def main(root):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--replay")
    ap.add_argument("--digests")
    ap.add_argument("--one", type=int)
    ap.add_argument("--keep")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--seed", default=os.environ.get("VERIF_SEED") or "1")
    ap.add_argument("-n", type=int)
    ap.add_argument("--jobs", type=int)
    ap.add_argument("--no-minimise", action="store_true")
    a = ap.parse_args()
    try:
        seed = int(a.seed)
    except ValueError:
        import zlib
        seed = zlib.crc32(a.seed.encode())
    pid, tier = a.property, a.tier
    t0 = now()
    b = Bench(pid)
    if a.replay:
        return replay(b, a.replay)
    if a.digests:
        out = {}
        for i in a.digests.split(","):
            out[i] = b.run(b.generate(seed, int(i), tier)).digest()
        print(json.dumps(out))
        return 0
    if a.one is not None:
        scn = b.generate(seed, a.one, tier)
        res, v = b.both(scn)
        print(res.digest(), v[:5])
        if a.keep:
            with open(a.keep, "w") as f:
                json.dump(scn, f, indent=1)
        return 1 if v else 0

    found_known, other = run_known(root, b)
    n = a.n or QUICK.get(pid, 400) * (FACTOR if tier == "thorough" else 1)
    res = search(b, seed, tier, n, LIMIT[tier], a.jobs)
    search_s = now() - t0
    try:
        os.unlink(stop_file())
    except OSError:
        pass
    errors = [(i, s["error"]) for i, s in res if "error" in s]
    good = [(i, s) for i, s in res if "error" not in s]
    bad = [(i, s) for i, s in good if s["v"]]
    rc = 0
    for scn, v in other[:1]:
        path, v, _ = write_replay(root, b, scn, "known", 0, tier, False)
        for _, t in v[:3]:
            print("  -> %s" % t)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        rc = 1
    rep = None
    if bad and not rc:
        i, s = bad[0]
        print("seed %s, execution %d: %s" % (seed, i, s["v"][0][1]))
        scn = b.generate(seed, i, tier)
        tried = 0
        mini = scn
        if not a.no_minimise:
            mini, tried = minimise(b, scn, s["v"])
        path, v, dig = write_replay(root, b, mini, seed, i, tier, tried)
        if not v:
            path, v, dig = write_replay(root, b, scn, seed, i, tier, 0)
        for _, t in v[:3]:
            print("  -> %s" % t)
        again = b.run(mini).digest()
        rep = {"replay": path, "digest": dig, "reproduced": again == dig, "variants_tried": tried}
        print("VIOLATION property=%s replay=%s" % (pid, path))
        rc = 1
    det = {}
    if not rc and good:
        idx = [i for i, _ in good[:4]]
        first = {str(i): s["digest"] for i, s in good[:4]}
        again = {str(i): b.run(b.generate(seed, i, tier)).digest() for i in idx[:2]}
        other_h = digests_other_hashseed(root, pid, seed, tier, idx)
        det = {"executions_compared": len(idx), "rerun_identical": all(first[k] == again[k] for k in again),
               "identical_under_another_hash_seed": other_h == first}
        if not det["rerun_identical"] or not det["identical_under_another_hash_seed"]:
            print("note: executions are not exactly repeatable: %r %r %r" % (first, again, other_h), file=sys.stderr)
    evidence(root, b, pid, tier, seed, n, good, errors, bad, now() - t0, search_s, det, rep, found_known)
    if errors:
        print("%d executions could not be run; the first (%d):\n%s" % (len(errors), errors[0][0], errors[0][1]),
              file=sys.stderr)
        if not rc and len(errors) > max(2, len(res) // 50):
            return 2
    if not rc:
        print("%s: %d executions, no violation, %.0f s" % (pid, len(good), now() - t0))
    return rc


def evidence(root, b, pid, tier, seed, n, good, errors, bad, wall, search_s, det, rep, known):
    import properties
    faults, shapes = collections.Counter(), set()
    for _, s in good:
        faults.update(s["faults"])
        if s["nontrivial"]:
            shapes.add(s["shape"])
    sim_h = sum(s["sim_us"] for _, s in good) / 3.6e9
    samples = []
    for i, s in good[:2]:
        scn = b.generate(seed, i, tier)
        txt = json.dumps({k: scn[k] for k in scn if k != "beh"}, default=repr)
        samples.append({"index": i, "digest": s["digest"], "events": s["events"], "runs": s["forks"],
                        "scenario": txt[:1500]})
    cov = {"evaluations": len(good), "distinct_nontrivial": len(shapes),
           "rule": "one evaluation is one simulated execution generated from (seed, index); non-trivial: at least one "
                   "run or tool was started in it; distinct: by the sequence of events (starts, ends, signals, "
                   "triggers, faults, crashes, configuration changes) with their jobs and outcomes",
           "samples": samples,
           "planned_executions": n, "not_runnable": len(errors),
           "executions_per_hour": int(len(good) / max(search_s, 0.001) * 3600),
           "seeds": "VERIF_SEED=%s, indices 0..%d" % (seed, max([i for i, _ in good] or [0])),
           "simulated_hours": round(sim_h, 2),
           "simulated_time_factor": round(sim_h * 3600 / max(search_s, 0.001), 1),
           "faults_injected": {k: faults[k] for k in sorted(faults)},
           "executions_with_a_fault": sum(1 for _, s in good if s["faults"]),
           "runs_started": sum(s["forks"] for _, s in good),
           "signals_delivered": sum(s["signals"] for _, s in good),
           "incarnations": sum(s["incs"] for _, s in good),
           "system_call_points": sum(s["points"] for _, s in good),
           "history_events": sum(s["events"] for _, s in good),
           "distinct_digests": len({s["digest"] for _, s in good}),
           "determinism": det, "real_code": properties.REAL.get(pid, properties.REAL["*"]),
           "stubs": properties.STUBS.get(pid, properties.STUBS["*"]), "known_findings_seen": known}
    if rep:
        cov["violation"] = rep
    doc = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
           "assumptions": properties.ASSUMPTIONS, "wall_s": round(wall, 2), "violations": len(bad)}
    d = os.path.join(root, "evidence")
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, ".%s.%d" % (pid, os.getpid()))
    with open(tmp, "w") as f:
        json.dump(doc, f, indent=1, default=repr)
    os.replace(tmp, os.path.join(d, "%s.json" % pid))
