"""The simulated machine: clock, event queue, process table, signals, file-system
seam, fault plan, history.  One integer seed and one scenario (plain JSON data)
decide everything; the state that outlives a process (event queue, processes,
disk, PRNGs, history) is pickled from one incarnation of the daemon to the next.

The daemon (and every tool) runs its real code in a process of its own, forked
from a warm worker that has the modules imported, so a simulated kill -9 is a
real _exit at that instant: no handler, no finally, nothing flushed."""
import ctypes
import errno
import heapq
import hashlib
import io
import json
import os
import pickle
import random
import resource
import shutil
import signal
import sqlite3
import stat
import sys
import traceback

import seams
from seams import O
import vfs as vfsmod

REPO_PKG = os.path.join(os.environ.get("DSARI_REPO", "/repo"), "dsari") + os.sep
SIMDIR = os.path.dirname(os.path.abspath(__file__)) + os.sep
VFSFILE = SIMDIR + "vfs.py"
SEC = 1000000

_lib = ctypes.CDLL(None)
try:
    C_ON = ctypes.c_int.in_dll(_lib, "sim_on")
    C_MONO = ctypes.c_longlong.in_dll(_lib, "sim_mono_us")
    C_OFF = ctypes.c_longlong.in_dll(_lib, "sim_off_us")
    C_STEP = ctypes.c_longlong.in_dll(_lib, "sim_step")
except ValueError:
    C_ON = None

VFS = None


def the_vfs():
    global VFS
    if VFS is None:
        VFS = vfsmod.SimVfs()
    return VFS


SIGNUM = {"HUP": signal.SIGHUP, "INT": signal.SIGINT, "TERM": signal.SIGTERM,
          "QUIT": signal.SIGQUIT, "USR1": signal.SIGUSR1, "KILL": signal.SIGKILL,
          "USR2": signal.SIGUSR2, "CHLD": signal.SIGCHLD}
DEFAULT_DEATH = {signal.SIGHUP, signal.SIGINT, signal.SIGTERM, signal.SIGQUIT, signal.SIGUSR1,
                 signal.SIGUSR2, signal.SIGALRM, signal.SIGPIPE}


def config_files(entry):
    """A config version is given as files, or as the one document it amounts to."""
    if "files" in entry:
        return entry["files"]
    return {"dsari.json": json.dumps(entry["conf"])}


def find_home(sim):
    """The directories which are used when none are given, and the arguments
    which say where the configuration is."""
    if not sim.home:
        return ["-c", sim.conf_dir]
    import importlib
    import dsari.config
    os.environ[sim.home] = sim.work
    importlib.reload(dsari.config)
    return []


def hide(scn):
    """Packages which are not installed on this machine."""
    missing = scn.get("missing")
    if not missing:
        return
    for n in list(sys.modules):
        if n.split(".")[0] in list(missing) + ["dsari"] + ["croniter"] * ("dateutil" in missing):
            del sys.modules[n]
    for n in missing:
        sys.modules[n] = None


def write_frame(fd, d):
    data = pickle.dumps(d)
    data = len(data).to_bytes(4, "big") + data
    while data:
        n = O.write(fd, data)
        data = data[n:]


def read_frame(fd):
    def get(n):
        b = b""
        while len(b) < n:
            x = O.read(fd, n - len(b))
            if not x:
                return None
            b += x
        return b
    h = get(4)
    if h is None:
        return None
    d = get(int.from_bytes(h, "big"))
    return None if d is None else pickle.loads(d)


class Proc:
    """A child process: a program the scenario wrote, not real code."""

    def __init__(self, uid, pid, inc):
        self.uid, self.pid, self.inc = uid, pid, inc
        self.state = "live"         # live -> zombie -> gone
        self.status = None
        self.job = self.run_id = None
        self.beh = {}
        self.gen = 0                # outdates scheduled events
        self.run_dir = None
        self.out_path = None
        self.pgid = None
        self.ignored = ()
        self.term_seen = False
        self.ctl = None             # (w, r) of its process, if that is held before exec
        self.info = None


class Ear(io.StringIO):
    """What the daemon says, as it says it."""

    def __init__(self, sim):
        super().__init__()
        self.sim, self.line = sim, ""

    def write(self, s):
        for a, b in self.sim.scn.get("log_full", ()):
            if a <= self.sim.mono - 1000 * SEC < b and not self.sim.passive:
                self.sim.count("log cannot be written")
                raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC))
        r = super().write(s)
        *lines, self.line = (self.line + s).split("\n")
        if not self.sim.in_child and not self.sim.passive:
            for x in lines if self.sim.scn.get("listen") else ():
                if "running since" in x or "Next run (" in x or "Concurrency group:" in x:
                    self.sim.h("say", text=x)
        return r


class Sim:
    busy_limit = 400000

    def __init__(self, scn, workdir):
        self.scn = scn
        self.work = workdir
        self.home = scn.get("home")
        base = os.path.join(workdir, ".dsari") if self.home == "HOME" else workdir
        self.data_dir = os.path.join(base, "var")
        self.conf_dir = os.path.join(base, "etc")
        self.db_path = os.path.join(self.data_dir, "dsari.sqlite3")
        seed = scn.get("noise", 0)
        self.rng = random.Random("noise/%s" % seed)       # latencies, order of zombies
        self.rng_id = random.Random("ids/%s" % seed)      # urandom
        self.mono = 1000 * SEC
        self.off = int(scn["wall0"] * SEC) - self.mono
        self.end = self.mono + int(scn["horizon"])
        self.heap = []
        self.hseq = 0
        self.hist = []
        self.procs = {}            # uid -> Proc
        self.next_uid = 1
        self.next_pid = 5000
        self.inc = 0
        self.spawn_count = {}
        self.cascaded = set()
        self.unrested = set()
        self.files_version = None  # config version on disk
        self.trig_tokens = {}      # path -> token of the trigger there
        self.stats = {"faults": {}, "points": 0, "forks": 0, "sleeps": 0, "tools": 0}
        self.seam_ops = []
        self.vfs_ops = []
        self.prof_ops = []
        self.last_snap = None
        self.snap_mut = -1
        self.idle_mark = -1
        self.orphans_ok = True
        self.restart_at = None
        self.ops_fired = set()
        self.file_faults = {}
        self.server = None         # of another database
        if scn.get("db"):
            import backends
            self.server = backends.Server(scn["db"])
        self.sql_child = False
        # transient (per incarnation)
        self.passive = False
        self.in_child = False
        self.vfs_state = None
        self.dead = None
        t0 = self.mono
        for i, op in enumerate(scn.get("ops", [])):
            at = op.get("at", {})
            if "seam" in at:
                if "t" in at:
                    self.push(t0 + int(at["t"]), ("arm_seam", i))
                else:
                    self.seam_ops.append([i, int(at.get("nth", 1))])
            elif "vfs" in at:
                self.push(t0 + int(at.get("t", 0)), ("arm_vfs", i))
            else:
                self.push(t0 + int(at.get("t", 0)), ("op", i))

    # ---------------------------------------------------------------- history
    def h(self, kind, **kw):
        self.sync_in()
        kw["k"] = kind
        kw["q"] = len(self.hist)
        kw["t"] = self.mono
        kw["w"] = self.mono + self.off
        kw["inc"] = self.inc
        self.hist.append(kw)
        return kw

    def count(self, name, n=1):
        f = self.stats["faults"]
        f[name] = f.get(name, 0) + n

    def push(self, t, what):
        self.hseq += 1
        heapq.heappush(self.heap, (t, self.hseq, what))

    # ------------------------------------------------------------------ clock
    def sync_in(self):
        if C_ON is not None and C_ON.value:
            self.mono = C_MONO.value

    def sync_out(self):
        C_MONO.value = self.mono
        C_OFF.value = self.off

    def wall(self):
        return (self.mono + self.off) / SEC

    def tick(self):
        C_MONO.value += 1

    def advance(self, us):
        self.mono += us
        C_MONO.value = self.mono

    # ------------------------------------------------------------ main points
    def point(self, kind, path=None, after=False):
        """Called at every seam the process crosses."""
        self.stats["points"] += 1
        self.mono = C_MONO.value
        if self.in_child:
            self.match_seam(kind, path, after)
            return
        if kind != "sleep":
            self.busy += 1
            if self.busy > self.busy_limit:
                self.finish("livelock", why="no sleep in %d system calls" % self.busy_limit)
            self.mono += 5
            C_MONO.value = self.mono
        if self.mono >= self.end:
            self.finish("horizon")
        if self.heap and self.heap[0][0] <= self.mono:
            self.run_due()
        if self.seam_ops:
            self.match_seam(kind, path, after)

    def match_seam(self, kind, path, after):
        for ent in list(self.seam_ops):
            op = self.scn["ops"][ent[0]]
            at = op["at"]
            if at["seam"] != kind or bool(at.get("after")) != after:
                continue
            if "match" in at and (path is None or at["match"] not in path):
                continue
            if self.in_child and op["op"] != "err":
                continue
            ent[1] -= 1
            if ent[1] > 0:
                continue
            if op.get("count", 1) > 1 and op.get("_left", op["count"]) > 1:
                op["_left"] = op.get("_left", op["count"]) - 1
                ent[1] = 1
            else:
                try:
                    self.seam_ops.remove(ent)
                except ValueError:
                    continue
            if self.in_child:
                self.child_fired.append(ent[0])
            self.fire(ent[0], path)

    def run_due(self):
        while self.heap and self.heap[0][0] <= self.mono:
            t, _, what = heapq.heappop(self.heap)
            self.dispatch(what)

    def dispatch(self, what):
        k = what[0]
        if k == "op":
            op = self.scn["ops"][what[1]]
            n = op["at"].get("prof", 0)
            if n and not self.passive:
                self.prof_ops.append([n, what[1]])
                self.prof_on()
            else:
                self.fire(what[1])
        elif k == "arm_seam":
            self.seam_ops.append([what[1], int(self.scn["ops"][what[1]]["at"].get("nth", 1))])
        elif k == "arm_vfs":
            self.vfs_ops.append([what[1], int(self.scn["ops"][what[1]]["at"]["vfs"])])
        elif k == "proc":
            p = self.procs.get(what[1])
            if p is not None and p.state == "live" and (what[2] == p.gen or what[3][0] == "kill"):
                self.proc_step(p, what[3])
        elif k == "childgo":
            p = self.procs.get(what[1])
            if p is not None:
                self.child_go(p)
        elif k == "ext_unlock":
            self.vfs.ext.get(what[1], {}).pop(what[2], None)
            self.h("ext_unlock")
        elif k == "write_rest":
            try:
                O.write(what[1], what[2]) if isinstance(what[1], int) else self.append_file(what[1], what[2])
            except OSError:
                pass
        elif k == "rest":
            self.sub_write_rest(what[1])

    # -------------------------------------------------------- profile "races"
    def prof_on(self):
        if not self.in_child and not self.passive:
            sys.setprofile(self._prof)

    def _prof(self, frame, event, arg):
        # CPython runs signal handlers at function entry and after calls; count
        # exactly those instants inside the code under test.
        if event == "call" or event == "c_return":
            if not frame.f_code.co_filename.startswith(REPO_PKG):
                return
        elif event == "return":
            b = frame.f_back
            if b is None or not b.f_code.co_filename.startswith(REPO_PKG):
                return
            if frame.f_code.co_filename.startswith((REPO_PKG, VFSFILE)):
                return              # (a disk callback returns into C, not into the code)
        else:
            return
        if self.in_child or self.passive:
            return
        fired = []
        for ent in self.prof_ops:
            ent[0] -= 1
            if ent[0] <= 0:
                fired.append(ent)
        if fired:
            for ent in fired:
                self.prof_ops.remove(ent)
            if not self.prof_ops:
                sys.setprofile(None)
            for ent in fired:
                self.fire(ent[1], frame=frame)

    # ------------------------------------------------------------------- ops
    def fire(self, i, path=None, frame=None):
        op = self.scn["ops"][i]
        k = op["op"]
        self.ops_fired.add(i)
        if not self.in_child:
            self.mono = C_MONO.value if C_ON.value else self.mono
        getattr(self, "op_" + k)(op, path)

    def op_sig(self, op, path):
        self.count("signal_" + op["sig"])
        self.deliver(SIGNUM[op["sig"]])

    def op_tty_int(self, op, path):
        """Ctrl-C: the whole foreground process group gets SIGINT."""
        self.count("tty_sigint")
        for p in list(self.procs.values()):
            if p.state == "live" and p.inc == self.inc and p.pgid == self.pgid:
                held = p.ctl
                if not held:
                    self.h("tty_hit", uid=p.uid, run=p.run_id)
                self.signal_proc(p, signal.SIGINT)
        self.deliver(signal.SIGINT)

    def op_err(self, op, path):
        e = getattr(errno, op["errno"])
        self.count("err_%s_%s" % (op["at"]["seam"], op["errno"]))
        if not self.in_child:
            self.h("fault", what="err", errno=op["errno"], seam=op["at"]["seam"],
                   path=self.rel(path), fatal=bool(op.get("fatal")))
        raise OSError(e, os.strerror(e), path)

    def op_dbgone(self, op, path):
        """The server restarts: all connections are lost, and what they had not committed."""
        if not self.server:
            return
        self.count("server_restarted")
        self.server.broken = getattr(self, "sql_conns", 0)
        self.h("fault", what="dbgone", fatal=True)

    def op_stall(self, op, path):
        self.count("stall")
        d = int(op["dur"])
        self.h("stall", dur=d)
        self.advance(d)
        if not self.in_sleep:
            self.run_due()

    def op_jump(self, op, path):
        self.count("clock_jump_" + ("fwd" if op["d"] > 0 else "back"))
        self.h("jump", d=int(op["d"]))
        self.off += int(op["d"])
        C_OFF.value = self.off

    def op_crash(self, op, path):
        self.count("crash")
        self.restart_at = self.mono + int(op.get("restart", 2 * SEC))
        self.finish("crash")

    def op_power(self, op, path):
        self.count("power_loss")
        self.restart_at = self.mono + int(op.get("restart", 30 * SEC))
        for p in self.procs.values():
            p.state = "gone"
        r = random.Random("power/%s/%s" % (self.scn.get("noise"), op.get("salt", 0)))
        info = self.vfs.power_cut(r)
        if info:
            self.count("lost_or_torn_write_files", len(info))
        self.finish("power", lost=info)

    def op_lock(self, op, path):
        """Another process reads the database and holds a shared lock on it."""
        self.count("db_lock_contention")
        d = self.vfs.ext.setdefault(self.db_path, {})
        if any(f.path == self.db_path and f.lock >= vfsmod.PENDING for f in self.vfs.files.values()):
            return
        owner = "x%d" % self.hseq
        d[owner] = {"shared": vfsmod.SHARED, "reserved": vfsmod.RESERVED}[op.get("level", "shared")]
        self.h("ext_lock", dur=int(op["dur"]))
        self.push(self.mono + int(op["dur"]), ("ext_unlock", self.db_path, owner))

    def op_vfserr(self, op, path):
        pass

    def op_foreign(self, op, path):
        """A child the daemon never forked (inherited over exec) exits."""
        self.count("foreign_child")
        p = Proc(self.next_uid, self.alloc_pid(), self.inc)
        self.next_uid += 1
        p.state, p.status = "zombie", int(op.get("status", 0))
        p.job = None
        self.procs[p.uid] = p
        self.h("foreign", pid=p.pid)

    def op_slowchild(self, op, path):
        self.slow_child = op

    def op_tool(self, op, path):
        self.run_tool(op)

    def op_trigger(self, op, path):
        self.write_trigger(op)

    def op_mark(self, op, path):
        self.h("mark", name=op.get("name"))

    def op_rmtrigger(self, op, path):
        p = os.path.join(self.data_dir, "trigger", op["job"], "trigger." + op.get("fmt", "json"))
        try:
            O.unlink(p)
            self.count("trigger_removed_by_user")
            self.h("trig_gone", job=op["job"], token=self.trig_tokens.pop(p, None), how="user")
        except OSError:
            pass

    def op_config(self, op, path):
        self.write_config(op["v"], op)

    def op_mkpath(self, op, path):
        p = os.path.join(self.data_dir, op["path"])
        O.makedirs(p, exist_ok=True)

    def op_dbprobe(self, op, path):
        self.snapshot(force=True, tag="probe")

    def op_putfile(self, op, path):
        p = os.path.join(self.work, op["path"])
        O.makedirs(os.path.dirname(p), exist_ok=True)
        self.put(p, op["text"].encode("utf-8", "surrogateescape"))

    # ------------------------------------------------------------- file world
    def rel(self, p):
        if p is None:
            return None
        p = os.fsdecode(p) if not isinstance(p, int) else "fd"
        return p[len(self.work) + 1:] if p.startswith(self.work) else p

    def put(self, path, data, atomic=True, mtime=None):
        if atomic:
            tmp = path + ".new~"
            fd = O.open(tmp, os.O_WRONLY | os.O_CREAT | os.O_TRUNC | os.O_CLOEXEC, 0o644)
            O.write(fd, data)
            O.close(fd)
            O.utime(tmp, ns=(int(mtime or self.mono + self.off) * 1000,) * 2)
            O.rename(tmp, path)
        else:
            fd = O.open(path, os.O_WRONLY | os.O_CREAT | os.O_TRUNC | os.O_CLOEXEC, 0o644)
            O.write(fd, data)
            O.close(fd)
            O.utime(path, ns=(int(mtime or self.mono + self.off) * 1000,) * 2)

    def append_file(self, path, data):
        fd = O.open(path, os.O_WRONLY | os.O_APPEND | os.O_CLOEXEC)
        O.write(fd, data)
        O.close(fd)

    def write_trigger(self, op):
        job, fmt = op["job"], op.get("fmt", "json")
        d = os.path.join(self.data_dir, "trigger", job)
        try:
            O.makedirs(d, exist_ok=True)
        except OSError:
            return
        p = os.path.join(d, "trigger." + fmt)
        data = op["text"].encode("utf-8", "surrogateescape")
        mode = op.get("mode", "atomic")
        mt = self.mono + self.off
        old = self.trig_tokens.get(p)
        try:
            exists = O.stat(p)
        except OSError:
            exists = None
        if exists and (mode == "dir" or stat.S_ISDIR(exists.st_mode)):
            return
        if exists and old is not None:
            self.h("trig_gone", job=job, token=old, how="overwritten")
        if mode == "dir":
            O.mkdir(p)
            self.h("trig_dir", job=job)
            return
        if exists and mode == "write" and old in self.unrested:
            mode = "atomic"      # two writers in the same file are not a trigger
        if mode == "atomic":
            self.put(p, data, mtime=mt)
        else:
            cut = int(op.get("cut", 0))
            self.put(p, data[:cut], atomic=False, mtime=mt)
            self.count("torn_trigger_write")
            self.unrested.add(op.get("token"))
            fd = O.open(p, os.O_WRONLY | os.O_APPEND | os.O_CLOEXEC)
            self.push(self.mono + int(op.get("delay", 1000)),
                      ("rest", (fd, data[cut:], mt, self.inc, op.get("token"))))
        self.trig_tokens[p] = op.get("token")
        self.h("trig", job=job, token=op.get("token"), mtime=mt, mode=mode, fmt=fmt, cut=op.get("cut", 0),
               valid=op.get("valid", True), sched=op.get("sched"), env=op.get("env"), data=op.get("data"))

    def sub_write_rest(self, a):
        fd, data, mt, inc, token = a
        if inc != self.inc:
            return
        self.h("trig_rest", token=token)
        self.unrested.discard(token)
        try:
            O.write(fd, data)
            O.utime(fd, ns=(mt * 1000,) * 2)
            O.close(fd)
        except OSError:
            pass

    def write_config(self, v, op=None):
        """Puts config version v on disk (atomic per file unless told otherwise)."""
        O.makedirs(os.path.join(self.conf_dir, "config.d"), exist_ok=True)
        files = config_files(self.scn["configs"][v])
        keep = set()
        for name, text in sorted(files.items()):
            if name == "data_dir":
                continue
            p = os.path.join(self.conf_dir, name)
            O.makedirs(os.path.dirname(p), exist_ok=True)
            keep.add(p)
            data = text.replace("@DATA@", self.data_dir).replace("@CONF@", self.conf_dir)
            self.put(p, data.encode("utf-8", "surrogateescape"))
        for base in (self.conf_dir, os.path.join(self.conf_dir, "config.d")):
            for n in O.listdir(base):
                q = os.path.join(base, n)
                if q not in keep and os.path.splitext(n)[1] in (".json", ".yaml") and n.startswith(("dsari.", "c_")):
                    try:
                        O.unlink(q)
                    except OSError:
                        pass
        self.files_version = v
        self.h("config", v=v, ok=self.scn["configs"][v].get("ok", True))

    # -------------------------------------------------------------- processes
    def alloc_pid(self):
        if self.scn.get("pid_reuse"):
            used = {p.pid for p in self.procs.values() if p.state != "gone"}
            used.add(getattr(self, "pid", 0))
            pid = 5000
            while pid in used:
                pid += 1
            return pid
        self.next_pid += 1
        return self.next_pid

    def deliver(self, signum):
        """A signal reaches the daemon now."""
        if signum in self.sigmask:
            self.sigpend.add(signum)
            return
        hnd = self.sigtab.get(signum, signal.SIG_DFL)
        self.h("signal", sig=int(signum))
        if hnd == signal.SIG_IGN or (hnd == signal.SIG_DFL and signum not in DEFAULT_DEATH):
            return
        if callable(hnd):
            self.h_depth += 1
            try:
                hnd(signum, sys._getframe())
            finally:
                self.h_depth -= 1
            self.mono = C_MONO.value
            return
        self.finish("sigdeath", sig=int(signum))

    def signal_proc(self, p, signum):
        if p.state != "live":
            return
        signum = int(signum)
        if signum == 0:
            return
        if p.ctl:
            self.held_signal(p, signum)
            return
        if signum == signal.SIGKILL:
            p.gen += 1
            self.push(self.mono + int(p.beh.get("kill_delay", 1000)), ("proc", p.uid, p.gen, ("exit", 9)))
            return
        if signum in (signal.SIGSTOP, signal.SIGCONT, signal.SIGCHLD):
            return
        if signum in p.ignored:
            return
        if signum == signal.SIGTERM:
            t = p.beh.get("term", "die")
            if p.term_seen and t != "die":
                return
            p.term_seen = True
            if t == "ignore":
                return
            p.gen += 1
            delay = int(p.beh.get("term_delay", 2000))
            status = (int(t[5:]) << 8) if t.startswith("exit:") else 15
            self.push(self.mono + delay, ("proc", p.uid, p.gen, ("exit", status)))
            return
        p.gen += 1
        self.push(self.mono + 500, ("proc", p.uid, p.gen, ("exit", signum)))

    def proc_step(self, p, step):
        k = step[0]
        if k == "exit":
            p.state, p.status = "zombie", step[1]
            p.t_exit = self.mono
            self.h("proc_exit", uid=p.uid, pid=p.pid, run=p.run_id, job=p.job, status=step[1])
            if p.inc != self.inc or self.dead:
                p.state = "gone"
            elif callable(self.sigtab.get(signal.SIGCHLD)):
                self.deliver(signal.SIGCHLD)
        elif k == "out":
            try:
                self.append_file(p.out_path, bytes.fromhex(step[1]))
            except OSError:
                pass
        elif k == "ret":
            try:
                self.put(os.path.join(p.run_dir, "return_data." + step[1]), bytes.fromhex(step[2]),
                         atomic=False)
                self.h("ret", run=p.run_id, fmt=step[1], hex=step[2])
            except OSError:
                pass
        elif k == "trig":
            if step[1] not in self.cascaded:
                self.cascaded.add(step[1])
                self.write_trigger(dict(self.scn["cascades"][step[1]]))

    def start_program(self, p, info):
        job = p.job
        n = self.spawn_count.get(job, 0)
        self.spawn_count[job] = n + 1
        behs = self.scn.get("beh", {}).get(job) or [{}]
        p.beh = behs[n % len(behs)]
        p.nth = n
        dur = int(p.beh.get("dur", SEC))
        for st in p.beh.get("steps", []):
            self.push(self.mono + int(dur * st[0]), ("proc", p.uid, p.gen, tuple(st[1:])))
        if "sig" in p.beh:
            status = int(p.beh["sig"]) | (0x80 if p.beh.get("core") else 0)
        else:
            status = int(p.beh.get("exit", 0)) << 8
        self.push(self.mono + dur, ("proc", p.uid, p.gen, ("exit", status)))

    # ---------------------------------------------------------- DB snapshots
    def mutations(self):
        return self.server.version if self.server else self.vfs.mutations

    def snapshot(self, force=False, tag="idle"):
        if not force and self.mutations() == self.snap_mut:
            return self.last_snap
        self.snap_mut = self.mutations()
        snap = self.read_db(self.db_path)
        if snap == self.last_snap and not force:
            return snap
        old = {} if self.last_snap is None else self.last_rows
        rows = {}
        new, changed = [], []
        for r in snap[0]:
            if r[1] in rows:
                changed.append(r)           # a second row of the same run
                continue
            rows[r[1]] = r
            o = old.get(r[1])
            if o is None:
                new.append(r)
            elif o != r:
                changed.append(r)
        gone = [] if snap[2] else sorted(set(old) - set(rows))
        if snap[2]:
            rows = old
        self.last_snap = snap
        self.last_rows = rows
        self.h("db", tag=tag, new=new, changed=changed, gone=gone, running=snap[1], err=snap[2])
        return snap

    def read_db(self, path):
        if self.server:
            return self.server.read() + (None,)
        on = C_ON.value
        C_ON.value = 0
        v = self.vfs
        q, v.quiet = v.quiet, True
        st = v.rng_state
        try:
            try:
                O.stat(path)
            except OSError:
                return ([], [], None)
            con = sqlite3.connect(path, timeout=0)
            try:
                names = {r[0] for r in con.execute("select name from sqlite_master where type='table'")}
                runs = con.execute(
                    "select job_name,run_id,schedule_time,start_time,stop_time,exit_code,trigger_type,"
                    "trigger_data,run_data from runs order by rowid").fetchall() if "runs" in names else []
                running = con.execute(
                    "select job_name,run_id,schedule_time,start_time,trigger_type,trigger_data,run_data "
                    "from runs_running order by rowid").fetchall() if "runs_running" in names else []
                return (runs, running, None)
            except sqlite3.Error as e:
                return ([], [], str(e))
            finally:
                con.close()
        finally:
            v.quiet = q
            v.rng_state = st
            C_ON.value = on

    # ------------------------------------------------------------- VFS hooks
    def vfs_point(self, kind, path):
        if self.in_child or self.passive:
            return 0
        self.mono = C_MONO.value
        self.mono += self.vfs_cost.get(kind, 0)
        C_MONO.value = self.mono
        if self.vfs_ops:
            for ent in list(self.vfs_ops):
                op = self.scn["ops"][ent[0]]
                want = op["at"].get("kind")
                if want and want != kind:
                    continue
                if not want and kind in ("read", "lock", "open"):
                    continue
                if "match" in op["at"] and op["at"]["match"] not in path:
                    continue
                ent[1] -= 1
                if ent[1] > 0:
                    continue
                self.vfs_ops.remove(ent)
                self.ops_fired.add(ent[0])
                if op["op"] == "vfserr":
                    self.count("disk_" + op["rc"])
                    self.h("fault", what="vfs", rc=op["rc"], at=kind, fatal=True)
                    n = int(op.get("more", 0))
                    if n:
                        self.vfs_ops.append([ent[0], 1])
                        op["more"] = n - 1
                    return vfsmod.RC[op["rc"]]
                if op["op"] in ("sig", "tty_int"):
                    # CPython runs handlers once the C call has returned
                    self.prof_ops.append([1, ent[0]])
                    self.prof_on()
                else:
                    self.fire(ent[0])
        return 0

    def vfs_sleep(self, us):
        if self.in_child or self.passive:
            return
        self.mono = C_MONO.value
        target = self.mono + us
        self.in_sleep += 1
        try:
            while self.heap and self.heap[0][0] <= target:
                t, _, what = self.heap[0]
                if what[0] == "op" and self.scn["ops"][what[1]]["op"] not in ("jump", "stall", "lock", "mark"):
                    # signals etc. wait for the C call to return, as in CPython
                    heapq.heappop(self.heap)
                    self.push(target + 1, what)
                    continue
                heapq.heappop(self.heap)
                if t > self.mono:
                    self.mono = t
                    C_MONO.value = t
                self.dispatch(what)
                self.mono = C_MONO.value
        finally:
            self.in_sleep -= 1
        if target > self.mono:
            self.mono = target
        C_MONO.value = self.mono
        self.count("busy_waits")

    def harness_error(self, msg):
        self.finish("harness", why=msg)

    # ------------------------------------------------------------ incarnation
    def begin(self, argv):
        """In the forked process: become the daemon's machine."""
        self.argv = argv
        self.inc += 1
        self.busy = self.burst = 0
        self.h_depth = 0
        self.in_sleep = 0
        self.in_child = False
        self.passive = False
        self.dead = None
        self.child_fired = []
        self.sigtab = {signal.SIGPIPE: signal.SIG_IGN, signal.SIGXFSZ: signal.SIG_IGN,
                       signal.SIGINT: signal.default_int_handler}
        for s in self.scn.get("ignored_at_start", []):
            self.sigtab[SIGNUM[s]] = signal.SIG_IGN
        self.sigmask = set()
        self.sigpend = set()
        self.pid = self.alloc_pid()
        self.pgid = self.pid
        self.vfs_cost = self.scn.get("vfs_cost", {"sync": 200})
        self.vfs = the_vfs()
        if self.vfs_state is not None:
            self.vfs.load(self.vfs_state)
        self.vfs.reseed("%s/%s" % (self.scn.get("noise"), self.inc))
        self.vfs.ext.pop(self.db_path, None)
        self.vfs.tmpdir = self.work
        self.vfs.ctl = self
        self.oversleep = int(self.scn.get("oversleep", 0))
        self.err_buf = Ear(self) if self.scn.get("listen") or self.scn.get("log_full") else io.StringIO()
        random.seed("daemon/%s/%d" % (self.scn.get("noise"), self.inc))
        C_STEP.value = 1
        self.sync_out()
        C_ON.value = 1
        seams.CUR = self

    def finish(self, how, **info):
        """Ends this incarnation: state out, process gone."""
        sys.setprofile(None)
        if self.in_child:
            self.child_report({"how": "escape", "at": how})
        self.sync_in()
        seams.CUR = None
        self.passive = True
        self.dead = how
        for fd_op in ():
            pass
        tail = self.err_buf.getvalue()[-4000:] if how not in ("horizon",) else ""
        self.h("end", how=how, tail=tail, **info)
        C_ON.value = 0
        self.drop_held()
        for p in self.procs.values():
            if p.inc == self.inc and p.state == "zombie":
                p.state = "gone"
        self.prof_ops = []
        self.vfs_state = self.vfs.export()
        self.vfs.ctl = None
        save = {k: v for k, v in self.__dict__.items()
                if k not in ("vfs", "err_buf", "sigtab", "O")}
        with O.builtin_open(os.path.join(self.work, "state.pkl"), "wb") as f:
            pickle.dump(save, f, protocol=5)
        O._exit(0)

    def restore(self, save):
        self.__dict__.update(save)
        self.passive = False

    # ------------------------------------------------------------- tools
    def run_tool(self, op):
        """Runs a command-line tool of dsari as another process, to completion,
        at this instant of the daemon's life."""
        self.stats["tools"] += 1
        self.snapshot(force=True, tag="tool")
        out = os.path.join(self.work, "tool.out")
        mono = self.mono
        pid = O.fork()
        if pid == 0:
            try:
                sys.setprofile(None)
                self.passive = True
                self.vfs.ctl = None
                rc = run_tool_main(op["tool"], op["args"], self.conf_dir, out)
            except BaseException:
                rc = 99
            O._exit(rc)
        _, st = O.waitpid(pid, 0)
        with O.builtin_open(out, "rb") as f:
            data = f.read()
        try:
            with O.builtin_open(out + ".err", "rb") as f:
                err = f.read().decode("utf-8", "replace")[-1500:]
        except OSError:
            err = ""
        self.mono = mono
        C_MONO.value = mono
        self.h("tool", tool=op["tool"], args=op["args"], rc=st >> 8, out=data.decode("utf-8", "replace"),
               err=err, tag=op.get("tag"))

    # =========================================================== system calls
    def scratch(self, path):
        if isinstance(path, int):
            return None
        try:
            p = os.fsdecode(path)
        except TypeError:
            return None
        if not p.startswith("/"):
            p = os.path.join(os.getcwd(), p)
        if p.startswith(self.work):
            return p
        return None

    def contain(self, path):
        """Whatever the code under test does, it changes nothing outside of the scratch directory."""
        try:
            p = os.path.abspath(os.fsdecode(path))
        except TypeError:
            return
        if not p.startswith((self.work + "/", "/dev/null", "/dev/tty", "/dev/fd/", "/proc/self/fd/")):
            raise PermissionError(13, os.strerror(13), p)

    def sys_fork(self):
        if self.in_child:
            self.child_report({"how": "escape", "at": "fork"})
        if self.scn.get("fork_mode") and not self.forked_self:
            self.forked_self = True
            return 0
        self.slow_child = None
        self.point("fork")
        self.stats["forks"] += 1
        self.burst += 1
        if self.burst > 300:
            self.finish("livelock", why="starts runs without end")
        if self.stats["forks"] > self.scn.get("max_forks", 2500):
            self.finish("horizon")      # a long enough history
        pid = self.alloc_pid()
        r, w = O.pipe()
        import fcntl
        w2 = fcntl.fcntl(w, fcntl.F_DUPFD_CLOEXEC, 1200)
        O.close(w)
        cr, cw = O.pipe() if self.slow_child else (None, None)
        rp = O.fork()
        if rp == 0:
            sys.setprofile(None)
            O.close(r)
            self.in_child = True
            self.child_fd = w2
            self.child_ctl = None
            self.child_hold = None
            self.child_pend = set()
            self.child_in_handler = False
            if cr is not None:
                O.close(cw)
                self.child_ctl = fcntl.fcntl(cr, fcntl.F_DUPFD_CLOEXEC, 1201)
                O.close(cr)
                self.child_hold = int(self.slow_child["n"])
            for q in self.procs.values():
                if q.ctl:
                    O.close(q.ctl[0])
                    O.close(q.ctl[1])
                    q.ctl = None
            self.child_pid = pid
            self.child_pgid = self.pgid
            self.child_opens = []
            self.child_fired = []
            self.cpoint()
            return 0
        O.close(w2)
        if cr is not None:
            O.close(cr)
        info = self.child_frame(r)
        held = None
        if info is not None and info.get("preview"):
            held = self.child_frame(r)      # ... and this is where it is held
        if info is None or (held is not None and held["how"] != "held"):
            self.finish("harness", why="child reported nothing")
        if held is None:
            O.close(r)
            if cw is not None:
                O.close(cw)
            O.waitpid(rp, 0)
        if info["how"] == "harness":
            self.finish("harness", why=info["why"])
        if info.get("sql_child") and self.server:
            # the connection is the child's, too: what it says on it is not what the server expects
            self.server.broken = self.sql_conns
            self.h("sql_child")
        for i in info.get("fired", []):
            self.ops_fired.add(i)
            self.count("err_child")
            for ent in list(self.seam_ops):
                if ent[0] == i:
                    self.seam_ops.remove(ent)
        self.mono = max(C_MONO.value, info.get("mono", 0)) + self.rng.randint(50, 900)
        C_MONO.value = self.mono
        p = Proc(self.next_uid, pid, self.inc)
        self.next_uid += 1
        self.procs[p.uid] = p
        self.identify(p, info)
        p.pgid = info.get("pgid")
        p.ignored = info.get("ignored", ())
        self.h("spawn", uid=p.uid, pid=pid, run=p.run_id, job=p.job, info=info)
        if held is not None:
            self.count("slow_child")
            p.info = {k: v for k, v in info.items() if k != "preview"}
            p.pgid = held["pgid"]
            p.ctl = (cw, r, rp)
            self.h("held", uid=p.uid, run=p.run_id, job=p.job, n=held["n"])
            self.push(self.mono + int(self.slow_child["dur"]), ("childgo", p.uid))
        elif info["how"] == "exec":
            self.start_program(p, info)
        else:
            n = self.spawn_count.get(p.job, 0)
            self.spawn_count[p.job] = n + 1
            p.beh = {}
            self.push(self.mono + 100, ("proc", p.uid, p.gen, ("exit", (info.get("code", 1) & 0xff) << 8)))
        self.point("fork", after=True)
        return pid

    # -- a child which is slow to get to its program: it is held at one of the
    # steps in between, where signals reach it as it is then
    def cpoint(self):
        if not self.in_child or self.child_hold is None:
            return
        self.child_hold -= 1
        if self.child_hold >= 0:
            return
        self.child_hold = None
        pv = O.fork()
        if pv == 0:
            self.child_preview = True
            return
        O.waitpid(pv, 0)
        self.child_send({"how": "held", "pgid": self.child_pgid, "n": int(self.slow_child["n"])})
        while True:
            m = read_frame(self.child_ctl)
            if m is None:
                O._exit(0)
            if m[0] == "go":
                C_MONO.value = m[1]
                O.close(self.child_ctl)
                self.child_ctl = None
                return
            self.child_signal(m[1])
            self.child_send({"how": "alive"})

    def child_signal(self, signum):
        """A signal reaches this child (which has not got to its program yet)."""
        if signum in self.sigmask:
            self.child_pend.add(signum)
            return
        hnd = self.sigtab.get(signum, signal.SIG_DFL)
        if hnd == signal.SIG_IGN or (hnd == signal.SIG_DFL and signum not in DEFAULT_DEATH):
            return
        if callable(hnd):
            hnd(signum, sys._getframe())
            return
        self.child_report({"how": "killed", "sig": int(signum)})

    def child_send(self, d):
        write_frame(self.child_fd, d)

    def child_frame(self, r):
        return read_frame(r)

    def child_say(self, p, msg):
        """Tells a held child something; returns what it answers (None: it is gone)."""
        try:
            write_frame(p.ctl[0], msg)
        except OSError:
            return None
        return read_frame(p.ctl[1])

    def child_done(self, p, d):
        O.close(p.ctl[0])
        O.close(p.ctl[1])
        O.waitpid(p.ctl[2], 0)
        p.ctl = None
        if d is None:
            self.finish("harness", why="held child reported nothing")
        if d["how"] == "killed":
            self.h("killed_early", uid=p.uid, run=p.run_id, job=p.job, sig=d["sig"])
            if d["sig"] == signal.SIGINT:
                self.h("tty_hit", uid=p.uid, run=p.run_id)
            p.gen += 1
            self.push(self.mono + 50, ("proc", p.uid, p.gen, ("exit", d["sig"])))
            return
        p.pgid = d.get("pgid")
        if d["how"] == "exec":
            same = all(d.get(k) == p.info.get(k) for k in (
                "path", "argv", "env", "cwd", "stdin", "same_out", "leaked", "ignored", "blocked", "pgid"))
            self.h("started", uid=p.uid, run=p.run_id, job=p.job, same=same)
            if p.term_seen:
                self.h("sig_lost", uid=p.uid, run=p.run_id, job=p.job)
                p.term_seen = False
            if p.info["how"] == "exec":
                p.ignored = d.get("ignored", ())
                self.start_program(p, d)
                return
        self.h("start_failed", uid=p.uid, run=p.run_id, job=p.job, how=d["how"], at=d.get("at"),
               as_before=d["how"] == p.info["how"])
        p.beh = {}
        self.push(self.mono + 100, ("proc", p.uid, p.gen, ("exit", (d.get("code", 1) & 0xff) << 8)))

    def child_go(self, p):
        if p.state != "live" or p.info is None:
            return
        if p.ctl is None:
            # (the daemon is gone)
            if p.info["how"] == "exec":
                self.start_program(p, p.info)
            else:
                self.push(self.mono + 100, ("proc", p.uid, p.gen, ("exit", 256)))
            return
        self.child_done(p, self.child_say(p, ("go", self.mono)))

    def held_signal(self, p, signum):
        if signum == signal.SIGKILL:
            O.kill(p.ctl[2], signal.SIGKILL)
            self.child_done(p, {"how": "killed", "sig": 9})
            return
        if signum == signal.SIGTERM:
            p.term_seen = True
        d = self.child_say(p, ("sig", int(signum)))
        if d is None or d["how"] != "alive":
            self.child_done(p, d)

    def drop_held(self):
        for p in self.procs.values():
            if p.ctl:
                O.close(p.ctl[0])
                O.close(p.ctl[1])
                p.ctl = None

    def identify(self, p, info):
        """Which run is this?  From where its output goes, not from what the
        daemon says about it."""
        cand = []
        if info.get("stdout"):
            cand.append(info["stdout"])
        cand += info.get("opens", [])
        cand += [self.last_rundir + "/x"] if getattr(self, "last_rundir", None) else []
        base = os.path.join(self.data_dir, "runs") + "/"
        for c in cand:
            if c.startswith(base):
                parts = c[len(base):].split("/")
                if len(parts) >= 2:
                    p.job, p.run_id = parts[0], parts[1]
                    p.run_dir = base + parts[0] + "/" + parts[1]
                    p.out_path = p.run_dir + "/output.txt"
                    return
        p.job, p.run_id, p.run_dir, p.out_path = None, None, None, None

    def child_report(self, d):
        d["fired"] = self.child_fired
        if self.sql_child:
            d["sql_child"] = True
        d["pgid"] = self.child_pgid
        d["opens"] = self.child_opens
        d["mono"] = C_MONO.value
        d["escape"] = d["how"] == "escape"
        C_ON.value = 0
        if getattr(self, "child_preview", False):
            d["preview"] = True
        self.child_send(d)
        O._exit(0)

    def do_exec(self, path, argv, env):
        path = os.fsdecode(path)
        self.cpoint()
        self.point("exec", path)
        if not self.in_child:
            self.finish("selfexec", path=path)
        try:
            a = [os.fsdecode(x) for x in argv]
            e = {os.fsdecode(k): os.fsdecode(v) for k, v in env.items()}
            for s in a + list(e) + list(e.values()):
                os.fsencode(s)
                if "\0" in s:
                    raise ValueError("embedded null byte")
            for k in e:
                if "=" in k or not k:
                    raise ValueError("illegal environment variable name")
            if not a or not a[0]:
                raise ValueError("execve() arg 2 first element cannot be empty")
        except TypeError as x:
            raise TypeError(str(x))
        if not path.startswith("/sim/"):
            raise OSError(errno.ENOENT, os.strerror(errno.ENOENT), path)
        b = os.path.basename(path)
        if b.startswith("noexec"):
            raise OSError(errno.ENOEXEC, os.strerror(errno.ENOEXEC), path)
        if b.startswith("denied"):
            raise OSError(errno.EACCES, os.strerror(errno.EACCES), path)
        if not b.startswith("prog") or os.path.dirname(path) != "/sim/bin":
            raise OSError(errno.ENOENT, os.strerror(errno.ENOENT), path)

        def fdname(n):
            try:
                return os.readlink("/proc/self/fd/%d" % n)
            except OSError:
                return None

        def fdflags(n):
            import fcntl
            try:
                return fcntl.fcntl(n, fcntl.F_GETFL)
            except OSError:
                return None
        leaked = []
        for n in sorted(int(x) for x in O.listdir("/proc/self/fd")):
            if n <= 2 or n in (self.child_fd, self.child_ctl):
                continue
            try:
                if os.get_inheritable(n):
                    leaked.append((n, fdname(n)))
            except OSError:
                pass
        self.child_report({
            "how": "exec", "path": path, "argv": a, "env": e, "cwd": os.getcwd(),
            "stdin": fdname(0), "stdout": fdname(1), "stderr": fdname(2),
            "same_out": os.fstat(1).st_ino == os.fstat(2).st_ino,
            "fl": [fdflags(0), fdflags(1), fdflags(2)],
            "leaked": leaked,
            "pid": self.child_pid,
            "ignored": tuple(sorted(int(s) for s, hd in self.sigtab.items()
                                    if hd == signal.SIG_IGN and s != signal.SIGXFSZ)),
            "blocked": tuple(sorted(int(s) for s in self.sigmask)),
        })

    def sys_execve(self, path, argv, env):
        return self.do_exec(path, argv, env)

    def sys_execv(self, path, argv):
        return self.do_exec(path, argv, dict(os.environ))

    def sys_posix_spawn(self, *a, **k):
        self.harness_error("posix_spawn is not simulated")

    sys_posix_spawnp = sys_system = sys_posix_spawn

    def sys__exit(self, code=0):
        if self.in_child:
            self.child_report({"how": "exit", "code": int(code)})
        self.finish("exit", code=int(code))

    def _reap(self, want):
        self.point("wait4")
        mine = [p for p in self.procs.values() if p.inc == self.inc and p.state != "gone"
                and (want == -1 or p.pid == want)]
        if not mine:
            raise ChildProcessError(errno.ECHILD, os.strerror(errno.ECHILD))
        z = [p for p in mine if p.state == "zombie"]
        if not z:
            return None
        p = z[self.rng.randrange(len(z))] if len(z) > 1 else z[0]
        p.state = "gone"
        self.h("reap", uid=p.uid, pid=p.pid, run=p.run_id, job=p.job, status=p.status)
        self.point("wait4", after=True)
        return p

    def _wait(self, pid, options):
        if self.in_child:
            self.child_report({"how": "escape", "at": "wait"})
        while True:
            p = self._reap(pid)
            if p is not None:
                return p
            if options & os.WNOHANG:
                return None
            if not self.heap:
                self.finish("livelock", why="waits for ever for a child")
            t = self.heap[0][0]
            self.snapshot()
            if t >= self.end:
                self.mono = self.end
                C_MONO.value = self.mono
                self.finish("horizon")
            if t > self.mono:
                self.mono = t
                C_MONO.value = t
            self.run_due()

    def sys_wait4(self, pid, options):
        p = self._wait(pid, options)
        ru = resource.getrusage(resource.RUSAGE_CHILDREN)
        return (p.pid, p.status, ru) if p else (0, 0, ru)

    def sys_wait3(self, options):
        return self.sys_wait4(-1, options)

    def sys_waitpid(self, pid, options):
        p = self._wait(pid, options)
        return (p.pid, p.status) if p else (0, 0)

    def sys_wait(self):
        return self.sys_waitpid(-1, 0)

    def sys_kill(self, pid, sig):
        if self.in_child:
            self.child_report({"how": "escape", "at": "kill"})
        self.point("kill", str(pid))
        if pid == self.pid:
            self.deliver(sig)
            return
        if pid <= 0 and not (pid < 0):
            for p in list(self.procs.values()):
                if p.state == "live" and p.pgid == self.pgid:
                    self.signal_proc(p, sig)
            self.h("kill", pid=pid, sig=int(sig), uid=None, run=None, stray="group")
            return
        for p in self.procs.values():
            if p.pid == pid and p.state != "gone":
                own = p.inc == self.inc and p.job is not None
                self.h("kill", pid=pid, sig=int(sig), uid=p.uid, run=p.run_id, job=p.job,
                       stray=None if own else "foreign", pstate=p.state)
                self.signal_proc(p, sig)
                return
        self.h("kill", pid=pid, sig=int(sig), uid=None, run=None, stray="nosuch")
        raise ProcessLookupError(errno.ESRCH, os.strerror(errno.ESRCH))

    def sys_killpg(self, pgid, sig):
        if self.in_child:
            self.child_report({"how": "escape", "at": "kill"})
        self.point("kill", str(pgid))
        hit = [p for p in self.procs.values() if p.pgid == pgid and p.state != "gone"]
        if not hit:
            self.h("kill", pid=pgid, sig=int(sig), uid=None, run=None, stray="nosuch")
            raise ProcessLookupError(errno.ESRCH, os.strerror(errno.ESRCH))
        for p in hit:
            own = p.inc == self.inc and p.job is not None
            self.h("kill", pid=p.pid, sig=int(sig), uid=p.uid, run=p.run_id, job=p.job,
                   stray=None if own else "foreign", pstate=p.state)
            self.signal_proc(p, sig)

    def sys_getpid(self):
        return self.child_pid if self.in_child else self.pid

    def sys_getppid(self):
        return self.pid if self.in_child else 1

    def sys_setpgid(self, pid, pgid):
        if self.in_child and pid in (0, self.child_pid):
            self.cpoint()
            self.child_pgid = pgid or self.child_pid
            self.cpoint()
            return
        for p in self.procs.values():
            if p.pid == pid and p.state == "live":
                p.pgid = pgid or pid
                return
        if pid in (0, getattr(self, "pid", None)):
            self.pgid = pgid or self.pid

    def sys_setpgrp(self):
        self.sys_setpgid(0, 0)

    def sys_setsid(self):
        self.sys_setpgid(0, 0)

    def sys_getpgid(self, pid):
        if self.in_child and pid in (0, self.child_pid):
            return self.child_pgid
        for p in self.procs.values():
            if p.pid == pid and p.state != "gone":
                return p.pgid
        return self.pgid

    def sys_getpgrp(self):
        return self.sys_getpgid(0)

    def sys_urandom(self, n):
        return self.rng_id.randbytes(n)

    def sys_closerange(self, lo, hi):
        if not self.in_child:
            return O.closerange(lo, hi)
        self.cpoint()
        keep = sorted(x for x in (self.child_fd, self.child_ctl) if x is not None and lo <= x < hi)
        for x in keep:
            O.closerange(lo, x)
            lo = x + 1
        O.closerange(lo, min(hi, 20000) if keep else hi)

    def sys_close(self, fd):
        if self.in_child and fd in (self.child_fd, self.child_ctl):
            return
        return O.close(fd)

    # -- files
    def sys_stat(self, path, *a, **k):
        p = self.scratch(path)
        if p is not None:
            self.point("stat", p)
        return O.stat(path, *a, **k)

    def sys_lstat(self, path, *a, **k):
        p = self.scratch(path)
        if p is not None:
            self.point("stat", p)
        return O.lstat(path, *a, **k)

    def sys_access(self, path, *a, **k):
        p = self.scratch(path)
        if p is not None:
            self.point("access", p)
        return O.access(path, *a, **k)

    def sys_listdir(self, path="."):
        p = self.scratch(path)
        if p is not None:
            self.point("listdir", p)
        names = sorted(O.listdir(path))
        if p is not None and isinstance(names, list):
            self.rng.shuffle(names)
            self.count("dir_order_shuffled")
        return names

    def sys_scandir(self, path="."):
        return O.scandir(path)

    def _gone(self, p, how, to=None):
        tok = self.trig_tokens.pop(p, None)
        if to is not None:
            if tok is not None:
                self.trig_tokens[to] = tok
            else:
                self.trig_tokens.pop(to, None)
        if "/trigger/" in p:
            rel = self.rel(p)
            self.h("trig_taken", token=tok, job=rel.split("/")[2], path=rel, how=how)

    def sys_unlink(self, path, *a, **k):
        p = self.scratch(path)
        if p is None:
            self.contain(path)
            return O.unlink(path, *a, **k)
        self.point("remove", p)
        r = O.unlink(path, *a, **k)
        self._gone(p, "removed")
        self.point("remove", p, after=True)
        return r

    sys_remove = sys_unlink

    def sys_rename(self, a, b, **k):
        p = self.scratch(a)
        self.contain(a)
        self.contain(b)
        if p is None:
            return O.rename(a, b, **k)
        self.point("rename", p)
        r = O.rename(a, b, **k)
        self._gone(p, "renamed", os.fsdecode(b))
        self.point("rename", p, after=True)
        return r

    sys_replace = sys_rename

    def sys_mkdir(self, path, *a, **k):
        p = self.scratch(path)
        if p is not None:
            self.point("mkdir", p)
            if os.path.dirname(os.path.dirname(p)) == os.path.join(self.data_dir, "runs"):
                self.last_rundir = p
        self.contain(path)
        r = O.mkdir(path, *a, **k)
        if p is not None:
            self.point("mkdir", p, after=True)
        return r

    def sys_open(self, path, *a, **k):
        p = self.scratch(path)
        if p is not None:
            self.point("open", p)
        elif (a[0] if a else k.get("flags", 0)) & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC):
            self.contain(path)
        return O.open(path, *a, **k)

    def sys_chdir(self, path):
        if not self.in_child:
            return O.chdir(path)
        p = self.scratch(path)
        if p is not None:
            self.point("chdir", p)
        return O.chdir(path)

    def sys_builtin_open(self, file, *a, **k):
        p = self.scratch(file)
        if p is None:
            if any(c in str(a[0] if a else k.get("mode", "r")) for c in "wax+"):
                self.contain(file)
            return O.builtin_open(file, *a, **k)
        if self.in_child:
            self.cpoint()
            self.child_opens.append(p)
        f = None
        self.point("open", p)
        if p.startswith(self.conf_dir):
            self.h("conf_read", path=self.rel(p), v=self.files_version)
        flt = self.file_faults.get(p)
        f = O.builtin_open(file, *a, **k)
        self.point("open", p, after=True)
        return f

    # -- time and signals
    def sys_sleep(self, secs):
        if self.in_child:
            self.child_report({"how": "escape", "at": "sleep"})
        self.point("sleep")
        if self.h_depth == 0:
            self.stats["sleeps"] += 1
            self.busy = self.burst = 0
            if self.mutations() != self.snap_mut or len(self.hist) != self.idle_mark:
                self.snapshot()
                self.h("idle")
                self.idle_mark = len(self.hist)
            if self.scn.get("meter"):
                self.meter()
        if secs < 0:
            raise ValueError("sleep length must be non-negative")
        self.mono = C_MONO.value
        target = self.mono + int(secs * SEC) + 60
        if self.oversleep:
            extra = self.rng.randint(0, self.oversleep)
            if self.rng.random() < 0.7:
                nxt = self.heap[0][0] if self.heap else self.end
                if target < nxt < target + extra:
                    extra = nxt - target + self.rng.randint(0, 20000)
            target += extra
        n = 0
        self.in_sleep += 1
        try:
            while self.heap and self.heap[0][0] <= target:
                t, _, what = heapq.heappop(self.heap)
                if t >= self.end:
                    break
                if t > self.mono:
                    self.mono = t
                    C_MONO.value = t
                self.dispatch(what)
                self.mono = C_MONO.value
        finally:
            self.in_sleep -= 1
        if target > self.mono:
            self.mono = target
        if self.mono >= self.end:
            self.mono = self.end
            C_MONO.value = self.mono
            self.finish("horizon")
        C_MONO.value = self.mono

    def meter(self):
        """What the daemon holds on to, and how much it does."""
        last = self.metered
        if last is None or (last["inc"] != self.inc):
            self.held_base, self.fd_base = holdings(), len(O.listdir("/proc/self/fd"))
        elif self.mono - last["t"] < max(10 * SEC, int(self.scn["horizon"]) // 16):
            return
        self.metered = self.h("load", held=holdings() - self.held_base, fds=len(O.listdir("/proc/self/fd")) - self.fd_base,
                              live=sum(p.inc == self.inc and p.state != "gone" for p in self.procs.values()),
                              calls=self.stats["points"], ev=len(self.hist),
                              files=len(self.strays()))
        self.idle_mark += 1

    metered = None

    def strays(self):
        """What is in the daemon's directory beside runs and database."""
        out, todo = [], [self.data_dir]
        while todo:
            d = todo.pop()
            for n in O.listdir(d):
                p = os.path.join(d, n)
                if stat.S_ISDIR(O.lstat(p).st_mode):
                    if p != os.path.join(self.data_dir, "runs"):
                        todo.append(p)
                out.append(p)
        return out

    def sys_signal(self, signum, handler):
        old = self.sigtab.get(signum, signal.SIG_DFL)
        self.sigtab[signum] = handler
        if handler == signal.SIG_IGN:
            (self.child_pend if self.in_child else self.sigpend).discard(signum)
        self.cpoint()
        return old

    def sys_getsignal(self, signum):
        return self.sigtab.get(signum, signal.SIG_DFL)

    def sys_pthread_sigmask(self, how, mask):
        old = set(self.sigmask)
        mask = set(mask)
        if how == signal.SIG_BLOCK:
            self.sigmask |= mask
        elif how == signal.SIG_UNBLOCK:
            self.sigmask -= mask
        else:
            self.sigmask = mask
        if self.in_child:
            for s in sorted(self.child_pend - self.sigmask):
                self.child_pend.discard(s)
                self.child_signal(s)
            self.cpoint()
        else:
            for s in sorted(self.sigpend - self.sigmask):
                self.sigpend.discard(s)
                self.deliver(s)
        return old

    def sys_alarm(self, secs):
        self.harness_error("alarm is not simulated")

    sys_setitimer = sys_alarm

    forked_self = False
    last_rundir = None


def holdings():
    """How many objects dsari's code keeps, counting what is in containers of theirs."""
    import gc
    gc.collect()
    n = 0
    for name, m in list(sys.modules.items()):
        if m is not None and (name == "dsari" or name.startswith("dsari.")):
            n += sum(len(v) for v in vars(m).values() if type(v) in (list, dict, set))
    for o in gc.get_objects():
        if str(type(o).__module__).split(".")[0] == "dsari":
            n += 1
            try:
                n += sum(len(v) for v in vars(o).values() if type(v) in (list, dict, set))
            except TypeError:
                pass
    return n


def run_tool_main(tool, args, conf_dir, out):
    """In a process of its own: one dsari command-line tool."""
    import importlib
    f = O.builtin_open(out, "w", encoding="utf-8", errors="surrogateescape")
    e = O.builtin_open(out + ".err", "w", encoding="utf-8", errors="surrogateescape")
    sys.stdout, sys.stderr = f, e
    sys.argv = ["dsari-" + tool, "-c", conf_dir] + list(args)
    # (importing the exporter opens the default database)
    os.environ["WSGI_ARGS"] = json.dumps(["-c", conf_dir])
    mod = importlib.import_module({"info": "dsari.info", "render": "dsari.render",
                                   "prometheus-exporter": "dsari.prometheus_exporter"}[tool])
    rc = 0
    try:
        r = mod.main()
        rc = r if isinstance(r, int) else 0
    except SystemExit as x:
        rc = x.code if isinstance(x.code, int) else (0 if x.code is None else 1)
    except BaseException:
        traceback.print_exc(file=e)
        rc = 98
    f.flush()
    e.flush()
    return rc & 0xff


def whoami(scn):
    """What the system password database says about the daemon's user."""
    if "user" not in scn:
        return
    import pwd
    u = scn["user"]

    def entry(key):
        if u is None or key not in (os.getuid(), u[0]):
            raise KeyError("getpwuid(): uid not found: %s" % key)
        return pwd.struct_passwd((u[0], "x", os.getuid(), os.getgid(), "", u[1], "/bin/sh"))
    pwd.getpwuid = pwd.getpwnam = entry


def daemon_process(sim, argv):
    """Body of the forked process that is the daemon."""
    whoami(sim.scn)
    hide(sim.scn)
    import dsari.daemon
    import logging
    logging.getLogger().handlers[:] = []
    where = find_home(sim)
    sim.begin(argv)
    # neither depends upon how busy the machine is, short of a real deadlock
    hang = sim.scn.get("hang_s", HANG_S)
    O.signal(signal.SIGPROF, lambda s, f: sim.finish("hang", why="%d s of CPU time" % hang))
    O.setitimer(signal.ITIMER_PROF, hang)
    O.signal(signal.SIGALRM, lambda s, f: sim.finish("hang", why="%d s of real time" % (hang * 5)))
    O.setitimer(signal.ITIMER_REAL, hang * 5)
    inherit(sim)
    sys.argv = ["dsari-daemon"] + where + list(argv)
    sys.stdout = sys.stderr = sim.err_buf
    how, info = "exit", {}
    try:
        rc = dsari.daemon.main()
        info["code"] = rc if isinstance(rc, int) else (0 if rc is None else 1)
    except SystemExit as x:
        c = x.code
        info["code"] = c if isinstance(c, int) else (0 if c is None else 1)
    except BaseException as x:
        if sim.in_child:
            sim.child_report({"how": "exit", "code": 1, "exc": "".join(
                traceback.format_exception_only(type(x), x))[-400:]})
        how = "died"
        tb = traceback.extract_tb(x.__traceback__)
        where = [f for f in tb if f.filename.startswith(REPO_PKG)]
        info = {"exc": type(x).__name__, "msg": str(x)[:300],
                "where": [f.name for f in where][-4:],
                "tb": "".join(traceback.format_exception(type(x), x, x.__traceback__))[-3000:]}
    if sim.in_child:
        sim.child_report({"how": "exit", "code": info.get("code", 1), "returned": True})
    sim.finish(how, **info)


HANG_S = 60


def inherit(sim):
    """What the daemon got from whoever started it: an input of its own, and
    perhaps files it knows nothing about."""
    O.closerange(3, 1200)
    fd = O.open(os.path.join(sim.work, "terminal"), os.O_RDWR | os.O_CREAT, 0o600)
    O.dup2(fd, 0)
    O.close(fd)
    for n in sim.scn.get("fds", []):
        O.dup2(0, n)


def spawn(fn, *args):
    """Run fn(*args) in a forked process; True if it ended normally."""
    pid = O.fork()
    if pid == 0:
        try:
            fn(*args)
        except BaseException:
            traceback.print_exc()
            O._exit(97)
        O._exit(96)
    while True:
        _, st = O.waitpid(pid, 0)
        return st == 0, st


class HarnessError(Exception):
    pass


def new_workdir():
    base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else "/tmp"
    for i in range(100000):
        d = os.path.join(base, "dsim.%07d.%04d" % (O.getpid(), i))
        try:
            O.mkdir(d, 0o700)
            return d
        except FileExistsError:
            continue


def norm_work(obj, work):
    return json.loads(json.dumps(obj, default=repr).replace(work, "@"))


def run_scenario(scn, keep=False):
    """One simulated execution: daemon incarnations until the horizon."""
    if scn.get("kind") == "tools":
        import toolsim
        return toolsim.run_tools(scn, keep)
    import time as _t
    scn = json.loads(json.dumps(scn))
    work = new_workdir()
    ok = False
    try:
        os.environ["TZ"] = scn.get("tz", "UTC")
        _t.tzset()
        for k in list(os.environ):
            if k.startswith("SIMX_"):
                del os.environ[k]
        os.environ.update(scn.get("daemon_env", {}))
        if scn.get("daemon_path", "/sim/bin:/usr/bin:/bin") is None:
            os.environ.pop("PATH", None)
        else:
            os.environ["PATH"] = scn.get("daemon_path", "/sim/bin:/usr/bin:/bin")
        sim = Sim(scn, work)
        O.makedirs(sim.data_dir, exist_ok=True)
        O.makedirs(sim.conf_dir, exist_ok=True)
        sim.write_config(scn.get("start_config", 0))
        left = scn.get("max_inc", 8)
        while left > 0 and sim.mono < sim.end:
            left -= 1
            good, st = spawn(daemon_process, sim, scn.get("argv", []))
            sp = os.path.join(work, "state.pkl")
            if not good or not os.path.exists(sp):
                raise HarnessError("incarnation ended with status %#x" % st)
            with O.builtin_open(sp, "rb") as f:
                sim.restore(pickle.load(f))
            O.unlink(sp)
            how = sim.dead
            if how == "harness":
                raise HarnessError(sim.hist[-1].get("why"))
            if how in ("horizon", "livelock", "hang"):
                break
            # what a fresh look at the disk finds while nobody runs
            post_mortem(sim)
            if how == "died" and not any(e["k"] == "fault" and e.get("fatal") and e["inc"] == sim.inc
                                         for e in sim.hist):
                break
            nxt = sim.restart_at if sim.restart_at is not None else sim.mono + int(scn.get("restart_delay", 2 * SEC))
            sim.restart_at = None
            if how in ("exit", "sigdeath") and not scn.get("restart_on_exit"):
                break
            # the world goes on while the daemon is down
            sim.inc += 0
            run_world(sim, min(nxt, sim.end))
        ok = True
        return Result(sim, work)
    finally:
        if not keep:
            shutil.rmtree(work, ignore_errors=True)


def run_world(sim, until):
    sim.dead = "down"
    sim.passive = True
    sim.vfs = the_vfs()
    while sim.heap and sim.heap[0][0] <= until:
        t, _, what = heapq.heappop(sim.heap)
        sim.mono = max(sim.mono, t)
        if what[0] == "op":
            op = sim.scn["ops"][what[1]]
            if op["op"] in ("trigger", "rmtrigger", "config", "mkpath", "putfile", "mark"):
                getattr(sim, "op_" + op["op"])(op, None)
            elif op["op"] == "jump":
                sim.h("jump", d=int(op["d"]))
                sim.off += int(op["d"])
            continue
        if what[0] in ("rest", "ext_unlock"):
            continue
        sim.dispatch(what)
    sim.mono = max(sim.mono, until)
    sim.passive = False


def post_mortem(sim):
    """Reads a copy of the database as the crash left it (hot journal and all)."""
    if sim.server:
        runs, running = sim.server.read()
        sim.h("pm", runs=runs, running=running, err=None, integ="ok")
        return
    d = os.path.join(sim.work, "pm")
    shutil.rmtree(d, ignore_errors=True)
    O.makedirs(d)
    for suf in ("", "-journal", "-wal"):
        s = sim.db_path + suf
        if os.path.exists(s):
            shutil.copyfile(s, os.path.join(d, "db" + suf))

    def body():
        v = the_vfs()
        v.ctl = None
        v.quiet = True
        p = os.path.join(d, "db")
        out = ([], [], None, "ok")
        if os.path.exists(p):
            runs, running, err = sim_read(p)
            integ = "?"
            try:
                con = sqlite3.connect(p, timeout=0)
                integ = con.execute("pragma integrity_check").fetchone()[0]
                con.close()
            except sqlite3.Error as e:
                integ = str(e)
            out = (runs, running, err, integ)
        with O.builtin_open(os.path.join(d, "out.pkl"), "wb") as f:
            pickle.dump(out, f)
        O._exit(0)

    def sim_read(p):
        s = Sim.__new__(Sim)
        s.vfs = the_vfs()
        s.server = None
        return Sim.read_db(s, p)
    spawn(body)
    with O.builtin_open(os.path.join(d, "out.pkl"), "rb") as f:
        runs, running, err, integ = pickle.load(f)
    sim.h("pm", runs=runs, running=running, err=err, integ=integ)
    shutil.rmtree(d, ignore_errors=True)


class Result:
    def __init__(self, sim, work):
        self.scn = sim.scn
        self.hist = sim.hist
        self.stats = sim.stats
        self.sim_us = sim.mono - 1000 * SEC
        self.t0 = 1000 * SEC
        self.end = sim.end
        self.work = work
        self.data_dir = sim.data_dir
        self.conf_dir = sim.conf_dir
        self.extra = getattr(sim, "extra", None)

    def digest(self):
        s = json.dumps(self.hist, sort_keys=True, default=repr).replace(self.work, "@")
        return hashlib.sha256(s.encode()).hexdigest()[:16]

    def shape(self):
        """Abstract interleaving: the order of event kinds and actors."""
        ids = {}
        out = []
        for e in self.hist:
            if e["k"] in ("idle", "db", "conf_read"):
                continue
            out.append((e["k"], e.get("job"), e.get("sig"), e.get("status"), e.get("how")))
        return hashlib.sha256(repr(out).encode()).hexdigest()[:16]
