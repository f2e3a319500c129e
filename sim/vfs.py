"""A simulated disk for SQLite: an sqlite3_vfs written with ctypes.

The real libsqlite3 and the real sqlite3 module run on it.  Every file
operation of SQLite comes through here, so the simulator decides, per
operation, whether it succeeds, is slow, fails (I/O error, disk full), or is the
instant at which the process or the machine dies.

 * Writes go through to the real file in the scratch directory at once (that is
   the page cache: it survives the death of the process).
 * What would survive a power cut is tracked beside it: `durable` holds the
   content as of the file's last sync, `pending` the writes since then.  A power
   cut keeps the durable content plus a seeded subset of the pending writes,
   each possibly torn at a sector boundary.
 * Locks are kept in a table of our own, so simulated other processes can hold
   them too (`ext` holders), and SQLite's busy handler sleeps simulated time.
"""
import ctypes as C
import os
import random

from seams import O

OK, BUSY, IOERR, FULL, CANTOPEN, NOTFOUND = 0, 5, 10, 13, 14, 12
IOERR_SHORT_READ = IOERR | (2 << 8)
IOERR_READ = IOERR | (1 << 8)
IOERR_WRITE = IOERR | (3 << 8)
IOERR_FSYNC = IOERR | (4 << 8)
IOERR_TRUNCATE = IOERR | (6 << 8)
IOERR_DELETE = IOERR | (10 << 8)
IOERR_DELETE_NOENT = IOERR | (23 << 8)
RC = {"IOERR_READ": IOERR_READ, "IOERR_WRITE": IOERR_WRITE, "IOERR_FSYNC": IOERR_FSYNC,
      "FULL": FULL, "IOERR_TRUNCATE": IOERR_TRUNCATE, "IOERR_DELETE": IOERR_DELETE,
      "CANTOPEN": CANTOPEN, "BUSY": BUSY}
NONE, SHARED, RESERVED, PENDING, EXCLUSIVE = 0, 1, 2, 3, 4
OPEN_CREATE, OPEN_DELETEONCLOSE, OPEN_READONLY = 0x4, 0x8, 0x1

_o_open, _o_pwrite, _o_pread = O.open, os.pwrite, os.pread
_o_ftruncate, _o_close, _o_unlink, _o_stat = os.ftruncate, O.close, O.unlink, O.stat
_o_fstat, _o_fsync = os.fstat, os.fsync

P, I, L = C.c_void_p, C.c_int, C.c_longlong
F = C.CFUNCTYPE


class IoMethods(C.Structure):
    _fields_ = [
        ("iVersion", I),
        ("xClose", F(I, P)),
        ("xRead", F(I, P, P, I, L)),
        ("xWrite", F(I, P, P, I, L)),
        ("xTruncate", F(I, P, L)),
        ("xSync", F(I, P, I)),
        ("xFileSize", F(I, P, C.POINTER(L))),
        ("xLock", F(I, P, I)),
        ("xUnlock", F(I, P, I)),
        ("xCheckReservedLock", F(I, P, C.POINTER(I))),
        ("xFileControl", F(I, P, I, P)),
        ("xSectorSize", F(I, P)),
        ("xDeviceCharacteristics", F(I, P)),
    ]


class SimFile(C.Structure):
    _fields_ = [("pMethods", P), ("fid", L)]


class Vfs(C.Structure):
    _fields_ = [
        ("iVersion", I), ("szOsFile", I), ("mxPathname", I), ("pNext", P),
        ("zName", C.c_char_p), ("pAppData", P),
        ("xOpen", F(I, P, C.c_char_p, P, I, C.POINTER(I))),
        ("xDelete", F(I, P, C.c_char_p, I)),
        ("xAccess", F(I, P, C.c_char_p, I, C.POINTER(I))),
        ("xFullPathname", F(I, P, C.c_char_p, I, P)),
        ("xDlOpen", P), ("xDlError", P), ("xDlSym", P), ("xDlClose", P),
        ("xRandomness", F(I, P, I, P)),
        ("xSleep", F(I, P, I)),
        ("xCurrentTime", F(I, P, C.POINTER(C.c_double))),
        ("xGetLastError", F(I, P, I, P)),
        ("xCurrentTimeInt64", F(I, P, C.POINTER(L))),
    ]


class Handle:
    __slots__ = ("path", "fd", "lock", "doc", "quiet")

    def __init__(self, path, fd, doc, quiet):
        self.path, self.fd, self.lock, self.doc, self.quiet = path, fd, NONE, doc, quiet


class SimVfs:
    """One per process; `ctl` is the simulator (or None: plain pass-through)."""

    def __init__(self):
        self.lib = C.CDLL("libsqlite3.so.0")
        self.ctl = None
        self.files = {}
        self.next_id = 1
        self.ext = {}          # path -> {owner: level}: locks other processes hold
        self.durable = {}      # path -> bytes as of the last sync (absent: never synced)
        self.pending = {}      # path -> [(offset, bytes) | ("trunc", size)]
        self.mutations = 0     # operations that changed a file (main loop watches this)
        self.rng_state = 1
        self.quiet = False     # the harness's own reads: no faults, no counting
        self._build()

    def reseed(self, key):
        """SQLite's own random numbers (and the clock readings which seed them): as in a new process."""
        self.rng_state = random.Random("vfs/%s" % key).getrandbits(63) | 1
        self.lib.sqlite3_randomness(0, None)

    # -- state carried from one incarnation of a process to the next
    def export(self):
        return (self.durable, self.pending, self.mutations, self.rng_state, self.ext)

    def load(self, st):
        self.durable, self.pending, self.mutations, self.rng_state, self.ext = st

    # -- power loss: what is on the platters
    def power_cut(self, rng):
        info = []
        for path in sorted(set(self.durable) | set(self.pending)):
            pend = self.pending.get(path, [])
            if not pend:
                continue
            buf = bytearray(self.durable.get(path, b""))
            kept = 0
            for item in pend:
                if item[0] == "trunc":
                    if rng.random() < 0.5:
                        n = item[1]
                        if n < len(buf):
                            del buf[n:]
                        else:
                            buf.extend(b"\0" * (n - len(buf)))
                    continue
                off, data = item
                fate = rng.random()
                if fate < 0.45:
                    continue
                if fate < 0.6:          # torn at a sector boundary
                    cut = 512 * rng.randint(0, max(0, (len(data) - 1) // 512))
                    data = data[:cut]
                kept += 1
                if len(buf) < off:
                    buf.extend(b"\0" * (off - len(buf)))
                buf[off:off + len(data)] = data
            try:
                _o_stat(path)
            except OSError:
                continue
            fd = _o_open(path, os.O_RDWR | os.O_CREAT | os.O_TRUNC, 0o644)
            _o_pwrite(fd, bytes(buf), 0)
            _o_close(fd)
            self.durable[path] = bytes(buf)
            info.append((os.path.basename(path), len(pend), kept))
        self.pending = {}
        return info

    def _step(self, kind, path):
        """Give the simulator its say; returns an sqlite error code or 0."""
        if self.ctl is None or self.quiet:
            return 0
        return self.ctl.vfs_point(kind, path)

    def _build(self):
        vfs = self

        def guard(default):
            def deco(fn):
                def inner(*a):
                    try:
                        return fn(*a)
                    except BaseException as e:  # must not happen: harness error
                        import traceback
                        if vfs.ctl is not None:
                            vfs.ctl.harness_error("vfs callback: " + traceback.format_exc()[-1500:])
                        return default
                return inner
            return deco

        def h(pf):
            return vfs.files[C.cast(pf, C.POINTER(SimFile)).contents.fid]

        def note(path, item):
            vfs.mutations += 1
            vfs.pending.setdefault(path, []).append(item)

        @guard(IOERR)
        def xClose(pf):
            f = C.cast(pf, C.POINTER(SimFile)).contents
            hd = vfs.files.pop(f.fid, None)
            if hd is not None:
                try:
                    _o_close(hd.fd)
                except OSError:
                    pass
                if hd.doc:
                    try:
                        _o_unlink(hd.path)
                    except OSError:
                        pass
            return OK

        @guard(IOERR_READ)
        def xRead(pf, buf, n, off):
            hd = h(pf)
            if not hd.quiet:
                rc = vfs._step("read", hd.path)
                if rc:
                    return rc
            data = _o_pread(hd.fd, n, off)
            C.memmove(buf, data, len(data))
            if len(data) < n:
                C.memset(buf + len(data), 0, n - len(data))
                return IOERR_SHORT_READ
            return OK

        @guard(IOERR_WRITE)
        def xWrite(pf, buf, n, off):
            hd = h(pf)
            rc = vfs._step("write", hd.path)
            if rc:
                return rc
            data = C.string_at(buf, n)
            _o_pwrite(hd.fd, data, off)
            note(hd.path, (off, data))
            return OK

        @guard(IOERR_TRUNCATE)
        def xTruncate(pf, size):
            hd = h(pf)
            rc = vfs._step("truncate", hd.path)
            if rc:
                return rc
            _o_ftruncate(hd.fd, size)
            note(hd.path, ("trunc", size))
            return OK

        @guard(IOERR_FSYNC)
        def xSync(pf, flags):
            hd = h(pf)
            rc = vfs._step("sync", hd.path)
            if rc:
                return rc
            size = _o_fstat(hd.fd).st_size
            vfs.durable[hd.path] = _o_pread(hd.fd, size, 0) if size else b""
            vfs.pending.pop(hd.path, None)
            return OK

        @guard(IOERR)
        def xFileSize(pf, out):
            out[0] = _o_fstat(h(pf).fd).st_size
            return OK

        def others(me):
            lv = [o.lock for o in vfs.files.values() if o is not me and o.path == me.path]
            lv += list(vfs.ext.get(me.path, {}).values())
            return max(lv) if lv else NONE

        @guard(IOERR)
        def xLock(pf, level):
            hd = h(pf)
            if hd.lock >= level:
                return OK
            if not hd.quiet:
                rc = vfs._step("lock", hd.path)
                if rc:
                    return rc
            o = others(hd)
            if level == SHARED:
                if o >= PENDING:
                    return BUSY
                hd.lock = SHARED
            elif level == RESERVED:
                if o >= RESERVED:
                    return BUSY
                hd.lock = RESERVED
            else:
                if o >= RESERVED:
                    return BUSY
                if o >= SHARED:
                    hd.lock = PENDING
                    return BUSY
                hd.lock = EXCLUSIVE
            return OK

        @guard(IOERR)
        def xUnlock(pf, level):
            hd = h(pf)
            if hd.lock > level:
                hd.lock = level
            return OK

        @guard(IOERR)
        def xCheckReservedLock(pf, out):
            hd = h(pf)
            out[0] = 1 if (hd.lock >= RESERVED or others(hd) >= RESERVED) else 0
            return OK

        @guard(NOTFOUND)
        def xFileControl(pf, op, arg):
            return NOTFOUND

        def xSectorSize(pf):
            return 512

        def xDevChar(pf):
            return 0

        m = self.methods = IoMethods()
        m.iVersion = 1
        for name, fn in (("xClose", xClose), ("xRead", xRead), ("xWrite", xWrite),
                         ("xTruncate", xTruncate), ("xSync", xSync),
                         ("xFileSize", xFileSize), ("xLock", xLock),
                         ("xUnlock", xUnlock), ("xCheckReservedLock", xCheckReservedLock),
                         ("xFileControl", xFileControl), ("xSectorSize", xSectorSize),
                         ("xDeviceCharacteristics", xDevChar)):
            typ = dict(IoMethods._fields_)[name]
            setattr(m, name, typ(fn))

        @guard(CANTOPEN)
        def xOpen(pv, name, pf, flags, outflags):
            f = C.cast(pf, C.POINTER(SimFile)).contents
            f.pMethods = None
            quiet = vfs.quiet
            if name is None:
                path = os.path.join(vfs.tmpdir, "sqltmp%d" % vfs.next_id)
                flags |= OPEN_CREATE | OPEN_DELETEONCLOSE
            else:
                path = os.fsdecode(name)
            rc = vfs._step("open", path)
            if rc:
                return rc
            oflag = os.O_RDONLY if flags & OPEN_READONLY else os.O_RDWR
            if flags & OPEN_CREATE:
                oflag |= os.O_CREAT
            try:
                fd = _o_open(path, oflag | os.O_CLOEXEC, 0o644)
            except OSError:
                return CANTOPEN
            f.fid = vfs.next_id
            vfs.files[f.fid] = Handle(path, fd, bool(flags & OPEN_DELETEONCLOSE), quiet)
            vfs.next_id += 1
            f.pMethods = C.addressof(vfs.methods)
            if outflags:
                outflags[0] = flags
            return OK

        @guard(IOERR_DELETE)
        def xDelete(pv, name, syncdir):
            path = os.fsdecode(name)
            rc = vfs._step("delete", path)
            if rc:
                return rc
            try:
                _o_unlink(path)
            except FileNotFoundError:
                return IOERR_DELETE_NOENT
            except OSError:
                return IOERR_DELETE
            vfs.mutations += 1
            vfs.durable.pop(path, None)
            vfs.pending.pop(path, None)
            return OK

        @guard(IOERR)
        def xAccess(pv, name, flags, out):
            try:
                st = _o_stat(os.fsdecode(name))
                out[0] = 1 if (flags != 0 or st.st_size > 0) else 0
            except OSError:
                out[0] = 0
            return OK

        @guard(CANTOPEN)
        def xFullPathname(pv, name, n, out):
            full = os.fsencode(os.path.abspath(os.fsdecode(name))) + b"\0"
            if len(full) > n:
                return CANTOPEN
            C.memmove(out, full, len(full))
            return OK

        @guard(0)
        def xRandomness(pv, n, out):
            b = bytearray()
            s = vfs.rng_state
            for _ in range(n):
                s = (s * 6364136223846793005 + 1442695040888963407) & (2 ** 64 - 1)
                b.append(s >> 56)
            vfs.rng_state = s
            C.memmove(out, bytes(b), n)
            return n

        @guard(0)
        def xSleep(pv, us):
            if vfs.ctl is not None and not vfs.quiet:
                vfs.ctl.vfs_sleep(us)
            return us

        @guard(0)
        def xCurrentTime(pv, out):
            import time
            out[0] = time.time() / 86400.0 + 2440587.5
            return OK

        @guard(0)
        def xCurrentTimeInt64(pv, out):
            import time
            out[0] = int(time.time() * 1000) + 210866760000000
            return OK

        @guard(0)
        def xGetLastError(pv, n, out):
            return 0

        v = self.vfs = Vfs()
        v.iVersion = 2
        v.szOsFile = C.sizeof(SimFile)
        v.mxPathname = 1024
        v.zName = b"simvfs"
        types = dict(Vfs._fields_)
        for name, fn in (("xOpen", xOpen), ("xDelete", xDelete), ("xAccess", xAccess),
                         ("xFullPathname", xFullPathname), ("xRandomness", xRandomness),
                         ("xSleep", xSleep), ("xCurrentTime", xCurrentTime),
                         ("xGetLastError", xGetLastError),
                         ("xCurrentTimeInt64", xCurrentTimeInt64)):
            setattr(v, name, types[name](fn))
        self.tmpdir = "/dev/shm"
        self.lib.sqlite3_vfs_register.argtypes = [P, I]
        rc = self.lib.sqlite3_vfs_register(C.addressof(v), 1)
        assert rc == 0, rc
