"""dsari's tools (dsari-render, dsari-info, dsari-prometheus-exporter) as processes
of the simulated machine, beside a daemon of which only the effects on the disk
are simulated: rows which appear, move and disappear in single transactions,
output files, configuration files.  These happen, and faults strike, at any seam
the tool's real code crosses."""
import builtins
import gzip
import io
import json
import lzma
import os
import random
import shutil
import signal
import sqlite3
import stat
import sys
import traceback

import kernel
import seams
import vfs as vfsmod
from kernel import C_MONO, C_ON, SEC, Sim, spawn, HarnessError, the_vfs, config_files
from seams import O

MODULES = {"info": "dsari.info", "render": "dsari.render", "prometheus-exporter": "dsari.prometheus_exporter"}
HANG_S = 60
ERRNOS = {"ENOSPC": 28, "EIO": 5, "EDQUOT": 122, "EMFILE": 24, "ENFILE": 23, "ENOMEM": 12}


class SimRaw(io.RawIOBase):
    """A file being written: every write may be short, fail or be the last."""

    def __init__(self, sim, path, mode):
        self.sim, self.path = sim, path
        self.f = O.builtin_open(path, mode.replace("b", "").replace("t", "") + "b", buffering=0)
        self.name = path
        self.mode = self.f.mode

    def writable(self):
        return True

    def readable(self):
        return self.f.readable()

    def seekable(self):
        return True

    def seek(self, *a):
        return self.f.seek(*a)

    def tell(self):
        return self.f.tell()

    def truncate(self, *a):
        return self.f.truncate(*a)

    def readinto(self, b):
        return self.f.readinto(b)

    def fileno(self):
        return self.f.fileno()

    def write(self, b):
        b = bytes(b)
        s = self.sim
        cut = s.next_cut(self.path)
        if cut is not None:
            # the fault comes in the middle of this write
            n = int(len(b) * cut)
            if n:
                self.f.write(b[:n])
        s.point("write", self.path)
        if s.short and len(b) > 1 and s.rng.random() < s.short:
            b = b[:s.rng.randint(1, len(b) - 1)]
            s.count("short_write")
        n = self.f.write(b)
        s.point("write", self.path, after=True)
        return n

    def close(self):
        if not self.closed:
            try:
                super().close()
            finally:
                self.f.close()


class Out(io.StringIO):
    """Standard output: a terminal, or a pipe which may be closed by its reader after so much."""

    def __init__(self, sim, tty, limit):
        super().__init__()
        self.sim, self.tty, self.limit = sim, tty, limit

    def isatty(self):
        return self.tty

    def write(self, text):
        if self.limit is not None and len(self.getvalue()) + len(text) > self.limit:
            super().write(text[:max(0, self.limit - len(self.getvalue()))])
            self.sim.count("stdout_closed")
            raise BrokenPipeError(32, "Broken pipe")
        return super().write(text)


class PagerPipe(io.RawIOBase):
    def __init__(self, pager):
        self.pager = pager

    def writable(self):
        return True

    def write(self, b):
        b = bytes(b)
        p = self.pager
        p.sim.point("pager_write")
        if p.quit_after is not None:
            room = p.quit_after - len(p.got)
            if len(b) > room:
                p.got += b[:max(room, 0)]
                p.quit = True
                p.sim.count("pager_quits")
                raise BrokenPipeError(32, "Broken pipe")
        p.got += b
        return len(b)

    def close(self):
        if not self.closed:
            self.pager.eof = True
        super().close()


class Popen:
    """What dsari-info may start: a pager, and stty to learn the size of the terminal."""
    sim = tty = None

    def __init__(self, args, stdin=None, stdout=None, stderr=None, env=None, **kw):
        s, t = self.sim, self.tty
        self.args = args
        self.returncode = None
        self.stdin = self.stdout = self.stderr = None
        self.kind = "stty" if list(args)[:1] == ["stty"] else "pager"
        s.point("popen", self.kind)
        if self.kind == "stty":
            if t.get("size") is None:
                raise FileNotFoundError(2, "No such file or directory", "stty")
            self.returncode = 0
            return
        want = (t.get("env_pager") or "pager").split(" ")
        if list(args) != want:
            s.h("odd_pager", args=list(args), want=want)
        if t["pager"] == "missing":
            raise FileNotFoundError(2, "No such file or directory", args[0])
        s.count("pagers")
        self.got = b""
        self.eof = self.quit = False
        self.quit_after = t.get("quit_after")
        self.ints = t.get("ints", 0)
        s.pager = self
        self.stdin = io.BufferedWriter(PagerPipe(self))

    def communicate(self, input=None, timeout=None):
        return (b"24 %d\n" % self.tty["size"]) if self.kind == "stty" else b"", b""

    def poll(self):
        return self.returncode

    def wait(self, timeout=None):
        s = self.sim
        if self.kind == "pager" and self.returncode is None:
            s.point("pager_wait")
            if not (self.eof or self.quit):
                s.finish("hang", why="waits for a pager which waits for its input")
            if self.ints:
                # (the user types ^C, which pagers ignore)
                self.ints -= 1
                s.count("pager_int")
                raise KeyboardInterrupt
            self.returncode = 0
            s.h("pager_end")
        return self.returncode

    def kill(self):
        pass

    terminate = kill

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


class ToolSim(Sim):
    # (the most any of them has ever needed is 600)
    busy_limit = 30000

    def __init__(self, scn, workdir):
        scn.setdefault("horizon", 10 ** 9 * SEC)
        super().__init__(dict(scn, ops=[]), workdir)
        self.full = scn
        self.model = {"done": {}, "running": {}}
        self.short = scn.get("short_writes", 0)
        self.req_no = 0
        self.no_err_files = scn.get("hidden", [])

    # ---------------------------------------------------------------- the world
    def db_free(self):
        if self.server:
            return True
        v = the_vfs()
        if any(f.path == self.db_path and f.lock >= vfsmod.SHARED for f in v.files.values()):
            return False
        return not v.ext.get(self.db_path)

    def op_step(self, op, path):
        self.world(op["step"], op)

    def world(self, st, op=None):
        """One thing which the daemon or the user does; a transaction is one instant, but has to wait for locks."""
        do = st["do"]
        if do in ("start", "end", "clear") and not self.db_free():
            # (as SQLite's busy handler would)
            self.hseq += 1
            self.push_world(st)
            return
        was, self.passive = self.passive, True
        try:
            getattr(self, "w_" + do)(st)
        finally:
            self.passive = was

    def push_world(self, st):
        self.late = getattr(self, "late", 0) + 1
        if self.late > 20000:
            self.finish("harness", why="the database stays locked")
        self.push(self.mono + 300, ("world", st))

    def dispatch(self, what):
        if what[0] == "world":
            self.world(what[1])
        else:
            super().dispatch(what)

    def dbwrite(self, *changes):
        """One transaction: ("insert", table, row) or ("delete", table, run id or None)"""
        if self.server:
            self.server.write(changes)
            return
        stmts = []
        for what, table, arg in changes:
            if what == "insert":
                stmts.append(("insert into %s (%s) values (%s)" % (table, ", ".join(arg), ",".join("?" * len(arg))),
                              tuple(arg.values())))
            elif arg is None:
                stmts.append(("delete from %s" % table, ()))
            else:
                stmts.append(("delete from %s where run_id = ?" % table, (arg,)))
        self.sql(*stmts)

    def sql(self, *stmts):
        on = C_ON.value
        C_ON.value = 0
        v = the_vfs()
        q, v.quiet = v.quiet, True
        rng = v.rng_state
        try:
            con = sqlite3.connect(self.db_path, timeout=0)
            try:
                for s, a in stmts:
                    con.execute(s, a)
                con.commit()
            finally:
                con.close()
        finally:
            v.quiet = q
            v.rng_state = rng
            C_ON.value = on

    def now_w(self):
        return self.kept((self.mono + self.off) / SEC)

    def kept(self, t):
        """A time as the database keeps it."""
        if self.server:
            us = round(t * SEC)
            return us // 1000 / 1000 if self.server.kind == "mongodb" else us / SEC
        return t

    def out_path(self, job, rid):
        return os.path.join(self.data_dir, "runs", job, rid, "output.txt")

    def w_start(self, st):
        t = self.now_w()
        row = {"job": st["job"], "id": st["id"], "sched": self.kept(t - st.get("lag", 0.0)), "start": t,
               "type": st.get("type", "schedule"), "tdata": st.get("tdata", {}), "rdata": {}, "stop": None, "exit": None}
        self.dbwrite(("insert", "runs_running",
                      {"job_name": row["job"], "run_id": row["id"], "schedule_time": row["sched"], "start_time": t,
                       "trigger_type": row["type"], "trigger_data": json.dumps(row["tdata"]), "run_data": "{}"}))
        self.model["running"][row["id"]] = row
        d = os.path.dirname(self.out_path(row["job"], row["id"]))
        O.makedirs(d, exist_ok=True)
        if st.get("out") is not None:
            self.raw_write(self.out_path(row["job"], row["id"]), bytes.fromhex(st["out"]))
        self.h("step", do="start", row=dict(row), out=st.get("out"))

    def w_out(self, st):
        row = self.model["running"].get(st["id"])
        if row is None:
            return
        p = self.out_path(row["job"], row["id"])
        old = b""
        if os.path.exists(p):
            with O.builtin_open(p, "rb") as f:
                old = f.read()
        self.raw_write(p, old + bytes.fromhex(st["out"]), append=bytes.fromhex(st["out"]))
        self.h("step", do="out", id=st["id"], out=(old + bytes.fromhex(st["out"])).hex())

    def raw_write(self, p, data, append=None):
        fd = O.open(p, os.O_WRONLY | os.O_CREAT | (os.O_APPEND if append is not None else os.O_TRUNC) | os.O_CLOEXEC, 0o644)
        O.write(fd, data if append is None else append)
        O.close(fd)

    def w_end(self, st):
        row = self.model["running"].pop(st["id"], None)
        if row is None:
            return
        row = dict(row, stop=self.now_w(), exit=st.get("exit", 0), rdata=st.get("rdata", {}))
        self.dbwrite(("insert", "runs",
                      {"job_name": row["job"], "run_id": row["id"], "schedule_time": row["sched"],
                       "start_time": row["start"], "stop_time": row["stop"], "exit_code": row["exit"],
                       "trigger_type": row["type"], "trigger_data": json.dumps(row["tdata"]),
                       "run_data": json.dumps(row["rdata"])}),
                     ("delete", "runs_running", row["id"]))
        self.model["done"][row["id"]] = row
        self.h("step", do="end", row=dict(row))

    def w_clear(self, st):
        """The daemon was killed and starts again."""
        self.dbwrite(("delete", "runs_running", None))
        self.model["running"].clear()
        self.h("step", do="clear")

    def w_pack(self, st):
        """Somebody compresses the output of a finished run."""
        row = self.model["done"].get(st["id"])
        if row is None:
            return
        p = self.out_path(row["job"], row["id"])
        if not os.path.exists(p):
            return
        with O.builtin_open(p, "rb") as f:
            data = f.read()
        # a compressed file may consist of several, one after the other (pxz, pigz -i, cat)
        n = -(-len(data) // st.get("parts", 1)) or 1
        z = b"".join(gzip.compress(x, mtime=0) if st["how"] == "gz" else lzma.compress(x)
                     for x in ([data[k:k + n] for k in range(0, len(data), n)] or [b""]))
        self.raw_write(p + "." + st["how"], z)
        O.unlink(p)
        self.count("output_compressed")
        self.h("step", do="pack", id=st["id"], how=st["how"])

    def w_advance(self, st):
        self.mono += int(st["us"])
        if C_ON.value:
            C_MONO.value = self.mono

    def w_jump(self, st):
        self.op_jump(st, None)

    def w_config(self, st):
        self.write_config(st["v"], st)

    def w_drop(self, st):
        """Somebody removes reports."""
        p = os.path.join(self.data_dir, "html", *st["path"])
        if os.path.isdir(p):
            shutil.rmtree(p, ignore_errors=True)
        elif os.path.exists(p):
            O.unlink(p)
        else:
            return
        self.count("reports_removed")
        self.h("step", do="drop", path=st["path"])

    def w_cfile(self, st):
        """Somebody edits one file of the configuration: at once, or in place."""
        p = os.path.join(self.conf_dir, st["name"])
        if st.get("text") is None:
            try:
                O.unlink(p)
            except OSError:
                return
        else:
            O.makedirs(os.path.dirname(p), exist_ok=True)
            data = st["text"].replace("@DATA@", self.data_dir).replace("@CONF@", self.conf_dir).encode("utf-8", "surrogateescape")
            if st.get("torn") is not None:
                n = int(len(data) * st["torn"])
                self.raw_write(p, data[:n])
                self.push(self.mono + int(st.get("delay", 2000)), ("world", dict(st, torn=None, text=st["text"])))
                self.count("torn_config_write")
                self.h("step", do="cfile", name=st["name"], text=data[:n].decode("utf-8", "surrogateescape"), odd=True)
                return
            self.put(p, data)
        self.h("step", do="cfile", name=st["name"], text=st.get("text"), odd=st.get("odd"))

    # ------------------------------------------------------------------- faults
    def op_kill(self, op, path):
        self.count("tool_killed")
        self.finish("crash")

    def op_err(self, op, path):
        self.count("err_%s_%s" % (op["at"]["seam"], op["errno"]))
        self.h("fault", what="err", errno=op["errno"], path=self.rel(path))
        e = ERRNOS[op["errno"]]
        raise OSError(e, os.strerror(e), path)

    def applies(self, op, kind, path, after):
        at = op["at"]
        if at["seam"] not in ("*", kind) or bool(at.get("after")) != after:
            return False
        if at["seam"] == "*" and op["op"] == "err" and kind not in ("open", "write", "mkdir", "rename"):
            return False
        return not ("match" in at and (path is None or at["match"] not in path))

    def next_cut(self, path):
        """Is this write the one which an operation strikes in its middle?"""
        for i, left in self.seam_ops:
            op = self.scn["ops"][i]
            if "cut" in op and left <= 1 and self.applies(op, "write", path, False):
                return op["cut"]
        return None

    def match_seam(self, kind, path, after):
        for ent in list(self.seam_ops):
            op = self.scn["ops"][ent[0]]
            if not self.applies(op, kind, path, after):
                continue
            ent[1] -= 1
            if ent[1] > 0:
                continue
            if op.get("more", 0) > 0:
                op["more"] -= 1
                ent[1] = 1
            else:
                self.seam_ops.remove(ent)
            self.fire(ent[0], path)

    def op_req(self, op, path):
        pass

    # ------------------------------------------------------------------ process
    def arm(self, ops):
        self.scn["ops"] = ops
        self.seam_ops, self.vfs_ops, self.prof_ops = [], [], []
        self.heap = [x for x in self.heap if x[2][0] in ("world", "ext_unlock")]
        kernel.heapq.heapify(self.heap)
        t0 = self.mono
        for i, op in enumerate(ops):
            at = op.get("at", {})
            if "seam" in at:
                self.seam_ops.append([i, int(at.get("nth", 1))])
            elif "vfs" in at:
                self.vfs_ops.append([i, int(at["vfs"])])
            else:
                self.push(t0 + int(at.get("t", 0)), ("op", i))

    def sys_builtin_open(self, file, mode="r", *a, **k):
        p = self.scratch(file)
        if p is None:
            if any(c in mode for c in "wax+"):
                self.contain(file)
            return O.builtin_open(file, mode, *a, **k)
        self.point("open", p)
        if p.startswith(self.conf_dir):
            self.h("conf_read", path=self.rel(p), v=self.files_version)
        if not any(c in mode for c in "wax+") or k.get("opener"):
            f = O.builtin_open(file, mode, *a, **k)
            self.point("open", p, after=True)
            return f
        raw = SimRaw(self, p, mode)
        self.point("open", p, after=True)
        buf = a[0] if a else k.get("buffering", -1)
        if "b" in mode and buf == 0:
            return raw
        size = buf if isinstance(buf, int) and buf > 1 else io.DEFAULT_BUFFER_SIZE
        b = io.BufferedRandom(raw, size) if "+" in mode else io.BufferedWriter(raw, size)
        if "b" in mode:
            return b
        names = ("buffering", "encoding", "errors", "newline")
        kw = dict(zip(names, a))
        kw.update(k)
        return io.TextIOWrapper(b, encoding=kw.get("encoding") or "utf-8", errors=kw.get("errors"),
                                newline=kw.get("newline"))

    def sys_execv(self, path, argv):
        return self.sys_execve(path, argv, None)

    def sys_execve(self, path, argv, env):
        self.point("exec", os.fsdecode(path))
        if os.path.basename(os.fsdecode(path)) != "tail":
            raise FileNotFoundError(2, os.strerror(2), path)
        self.finish("exec", argv=[os.fsdecode(x) for x in argv])

    def sys_fork(self):
        raise OSError(38, "the tools start nothing")

    def snapshot(self, force=False, tag="idle"):
        return None

    def vfs_sleep(self, us):
        """SQLite waits for a lock: the world goes on, also with what it does to the database."""
        self.mono = C_MONO.value
        target = self.mono + us
        while self.heap and self.heap[0][0] <= target:
            t, _, what = self.heap[0]
            if what[0] == "op" and self.scn["ops"][what[1]]["op"] in ("sig",):
                kernel.heapq.heappop(self.heap)
                self.push(target + 1, what)
                continue
            kernel.heapq.heappop(self.heap)
            if t > self.mono:
                self.mono = t
                C_MONO.value = t
            self.dispatch(what)
            self.mono = C_MONO.value
        if target > self.mono:
            self.mono = target
        C_MONO.value = self.mono
        self.count("busy_waits")

    # ----------------------------------------------------------- the web server
    def serve(self, app, reqs):
        """Stands for wsgiref's server: one request after the other."""
        t0 = self.mono
        for rq in reqs:
            if "step" in rq:
                self.world(rq["step"])
                continue
            if "sig" in rq:
                self.h("hup_sent")
                self.count("signal_HUP")
                try:
                    self.deliver(signal.SIGHUP)
                except Exception:
                    # (select() was interrupted, the exception leaves serve_forever)
                    raise
                continue
            self.world({"do": "advance", "us": rq.get("wait", 1000)})
            self.run_due()
            self.mono = C_MONO.value
            n = self.req_no = self.req_no + 1
            self.arm([dict(o) for o in rq.get("during", [])])
            self.h("req", n=n, path=rq["path"])
            self.run_due()
            environ = {"REQUEST_METHOD": "GET", "PATH_INFO": rq["path"], "QUERY_STRING": rq.get("query", ""),
                       "SERVER_NAME": "localhost", "SERVER_PORT": "50575", "wsgi.url_scheme": "http"}
            got = {}

            def start_response(status, headers, exc_info=None):
                got["status"], got["headers"] = status, headers
            try:
                body = b"".join(app(environ, start_response))
                status = got["status"]
                exc = None
            except Exception as e:
                body, status = b"", "500"
                exc = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-1500:]
            sys.setprofile(None)
            self.arm([])
            self.h("resp", n=n, status=status, body=body.decode("utf-8", "replace"), exc=exc,
                   headers=dict(got.get("headers", [])))
            if self.scn.get("meter") and (n < 3 or n % 10 == 0):
                if n == 1:
                    self.held_base, self.fd_base = kernel.holdings(), len(O.listdir("/proc/self/fd"))
                self.h("load", n=n, held=kernel.holdings() - self.held_base, fds=len(O.listdir("/proc/self/fd")) - self.fd_base)


def tool_process(sim, st):
    import importlib
    import logging
    lg = logging.getLogger()
    lg.handlers[:] = []
    if sim.scn.get("missing"):
        kernel.hide(sim.scn)
        importlib.import_module(MODULES[st["tool"]] if st["tool"] != "prometheus-exporter" else "dsari.database")
        import dsari.config
    where = kernel.find_home(sim)
    sim.begin([])
    sim.sigtab = {signal.SIGPIPE: signal.SIG_IGN, signal.SIGINT: signal.default_int_handler}
    O.signal(signal.SIGPROF, lambda s, f: sim.finish("hang", why="%d s of CPU time" % HANG_S))
    O.setitimer(signal.ITIMER_PROF, HANG_S)
    O.signal(signal.SIGALRM, lambda s, f: sim.finish("hang", why="%d s of real time" % (HANG_S * 5)))
    O.setitimer(signal.ITIMER_REAL, HANG_S * 5)
    tty = st.get("tty")
    out, err = Out(sim, bool(tty), st.get("out_limit")), io.StringIO()
    sys.stdout, sys.stderr = out, err
    if tty:
        import subprocess
        Popen.sim, Popen.tty = sim, tty
        subprocess.Popen = Popen

        def size(fd=1):
            if tty.get("size") is None:
                raise OSError(25, "Inappropriate ioctl for device")
            return os.terminal_size((tty["size"], 24))
        os.get_terminal_size = size
    tool = st["tool"]
    args = where + list(st.get("args", []))
    sys.argv = ["dsari-" + tool] + args
    env = {k: v for k, v in st.get("env", {}).items()}
    os.environ.update(env)
    sim.arm([dict(o) for o in st.get("during", [])])
    how, info = "exit", {}
    sim.tool_out = (out, err)
    try:
        try:
            if tool == "prometheus-exporter":
                rc = exporter(sim, st, args)
            else:
                rc = importlib.import_module(MODULES[tool]).main()
            info["code"] = rc if isinstance(rc, int) else (0 if rc is None else 1)
        except SystemExit as x:
            info["code"] = x.code if isinstance(x.code, int) else (0 if x.code is None else 1)
        except BaseException as x:
            how = "died"
            info = {"code": 1, "exc": type(x).__name__, "msg": str(x)[:300],
                    "tb": "".join(traceback.format_exception(type(x), x, x.__traceback__))[-2500:]}
    finally:
        pass
    sim.finish(how, **info)


def exporter(sim, st, args):
    """main(), with a web server which gets its requests from the scenario; or the WSGI application."""
    import importlib
    if st.get("wsgi"):
        os.environ["WSGI_ARGS"] = json.dumps(args)
        sys.modules.pop("dsari.prometheus_exporter", None)
        mod = importlib.import_module("dsari.prometheus_exporter")
        sim.serve(mod.wsgi_application, st.get("reqs", []))
        return 0
    # (importing the module opens the default database)
    os.environ["WSGI_ARGS"] = json.dumps(["-c", sim.conf_dir])
    mod = importlib.import_module("dsari.prometheus_exporter")
    import wsgiref.simple_server as ss

    class Server:
        def __init__(self, app):
            self.app = app

        def serve_forever(self, *a):
            if st.get("reqs") is None:
                sim.finish("hang", why="serves, and is not asked to")
            sim.serve(self.app, st["reqs"])
            raise KeyboardInterrupt

    def make(host, port, app, *a, **k):
        sim.h("listen", host=host, port=port)
        return Server(app)
    ss.make_server = make
    return mod.main()


_finish = Sim.finish


def _tool_finish(self, how, **info):
    sys.setprofile(None)
    o = getattr(self, "tool_out", None)
    if o is not None:
        info["out"], info["err"] = o[0].getvalue(), o[1].getvalue()[-3000:]
        p = getattr(self, "pager", None)
        if p is not None:
            info["pager"] = {"out": p.got.decode("utf-8", "replace"), "quit": p.quit, "ended": p.returncode is not None}
            self.pager = None
        self.tool_out = None
    self.passive = True
    _finish(self, how, **info)


ToolSim.finish = _tool_finish


def prepare(sim):
    """The database as the daemon's real code creates it."""
    def body():
        import dsari.config
        import dsari.database
        the_vfs().quiet = True
        the_vfs().ctl = None
        kernel.find_home(sim)
        if sim.server:
            sim.passive = True
            sim.in_child = False
            seams.CUR = sim
        db = dsari.database.get_database(dsari.config.get_config(sim.conf_dir))
        if sim.server:
            seams.CUR = None
            with O.builtin_open(out, "wb") as f:
                kernel.pickle.dump(sim.server, f)
        else:
            db.db_conn.commit()
            db.db_conn.close()
        O._exit(0)
    out = os.path.join(sim.work, "server.pkl")
    ok, st = spawn(body)
    if not ok:
        raise HarnessError("cannot create the database")
    if sim.server:
        with O.builtin_open(out, "rb") as f:
            sim.server = kernel.pickle.load(f)
        O.unlink(out)


def css_mark(text):
    text = text.rstrip("\n")
    return "css %d %s" % (len(text), text[-20:])


def html_tree(base):
    out = {}
    for d, _, files in os.walk(base):
        for f in files:
            p = os.path.join(d, f)
            rel = os.path.relpath(p, base)
            b = os.path.basename(rel)
            if b not in ("index.html", "index.html.gz", "darkly.min.css"):
                continue
            with O.builtin_open(p, "rb") as fh:
                data = fh.read()
            try:
                if b.endswith(".gz"):
                    data = gzip.decompress(data)
                text = data.decode("utf-8")
            except Exception as e:
                out[rel] = [str(e) or type(e).__name__]
                continue
            out[rel] = text if not b.endswith(".css") else css_mark(text)
    return out


def run_tools(scn, keep=False):
    import time as _t
    scn = json.loads(json.dumps(scn))
    work = kernel.new_workdir()
    home = os.environ.get("HOME", "/")
    try:
        os.environ["TZ"] = scn.get("tz", "UTC")
        _t.tzset()
        for k in ("WSGI_ARGS", "COLUMNS", "PAGER", "LESS"):
            os.environ.pop(k, None)
        os.environ["PATH"] = "/sim/bin:/usr/bin:/bin"
        os.environ["HOME"] = work
        sim = ToolSim(scn, work)
        O.makedirs(sim.data_dir, exist_ok=True)
        O.makedirs(sim.conf_dir, exist_ok=True)
        sim.write_config(0)
        for name, text in sorted(scn.get("templates", {}).items()):
            O.makedirs(os.path.join(sim.conf_dir, "templates"), exist_ok=True)
            sim.put(os.path.join(sim.conf_dir, "templates", name), text.encode())
        v = the_vfs()
        v.tmpdir = work
        v.ctl, v.quiet = None, True
        v.reseed(scn.get("noise"))
        try:
            if not scn.get("no_db"):
                prepare(sim)
        finally:
            v.quiet = False
        sim.vfs = v
        for i, st in enumerate(scn["script"]):
            sim.passive = True
            # what waited for a lock which the tool held
            while sim.heap:
                t, _, what = kernel.heapq.heappop(sim.heap)
                sim.mono = max(sim.mono, t)
                if what[0] == "world":
                    the_vfs().ext.pop(sim.db_path, None)
                    sim.world(what[1])
            if st["do"] != "tool":
                sim.world(st)
                sim.mono += 1000
                continue
            sim.stats["tools"] += 1
            sim.h("tool_start", i=i, tool=st["tool"], args=st.get("args", []))
            sim.passive = False
            good, code = spawn(tool_process, sim, st)
            sp = os.path.join(work, "state.pkl")
            if not good or not os.path.exists(sp):
                raise HarnessError("tool ended with status %#x" % code)
            with O.builtin_open(sp, "rb") as f:
                sim.restore(kernel.pickle.load(f))
            O.unlink(sp)
            sim.vfs = the_vfs()
            sim.passive = True
            e = sim.hist[-1]
            if sim.dead == "harness":
                raise HarnessError(e.get("why"))
            sim.h("tool_end", i=i, tool=st["tool"], args=st.get("args", []), how=sim.dead, code=e.get("code"),
                  out=e.get("out", ""), err=e.get("err", ""), tb=e.get("tb"), argv=e.get("argv"),
                  **({"pager": e["pager"]} if "pager" in e else {}))
            if st["tool"] == "render":
                sim.h("html", i=i, files=html_tree(os.path.join(sim.data_dir, "html")))
            sim.dead = None
            sim.mono += 5000
        res = kernel.Result(sim, work)
        res.scn_full = sim.full
        css = os.path.join(kernel.REPO_PKG, "templates", "darkly.min.css")
        with O.builtin_open(css, "rb") as f:
            res.css = css_mark(f.read().decode("utf-8"))
        res.css_custom = css_mark(scn["templates"]["darkly.min.css"]) if "darkly.min.css" in scn.get("templates", {}) else res.css
        return res
    finally:
        os.environ["HOME"] = home
        if not keep:
            shutil.rmtree(work, ignore_errors=True)
