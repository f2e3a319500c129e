"""Stand-ins for psycopg2, MySQLdb and pymongo and the servers behind them, as
their documentation describes them; none of them is installed here.  The state
of the server belongs to the simulated world: it outlives the processes of dsari
(each connection of which is lost with it, and what it had not committed).

SQL is executed by SQLite in memory, on a private copy of the committed rows
which a connection gets when its transaction starts (MySQL: REPEATABLE READ) or
at every statement (PostgreSQL: READ COMMITTED); COMMIT applies the changes."""
import datetime
import json
import math
import re
import sqlite3
import sys
import types
import uuid

import seams
from seams import O

UTC = datetime.timezone.utc
DT = "\x02D"        # how a date is kept
TABLES = ("runs", "runs_running")
RUNS = ("job_name", "run_id", "schedule_time", "start_time", "stop_time", "exit_code", "trigger_type", "trigger_data",
        "run_data")
RUNNING = ("job_name", "run_id", "schedule_time", "start_time", "trigger_type", "trigger_data", "run_data")


# ------------------------------------------------------------------- the server
class Server:
    """Committed state; plain data."""

    def __init__(self, kind):
        self.kind = kind
        self.schema = []        # CREATE statements, in SQLite's terms
        self.rows = {}          # table -> {rowid: values}
        self.docs = {}          # database -> collection -> {number: document}
        self.serial = 0
        self.version = 0
        self.broken = 0         # connections up to this number are lost

    # -- for the simulated rest of the world (times are UTC, as documented)
    def table(self, name):
        if self.kind == "mongodb":
            return list(self.docs.get("dsari", {}).get(name, {}).values())
        con = load(self)
        try:
            if name not in self.rows:
                return []
            cur = con.execute("select * from %s order by rowid" % name)
            cols = [d[0] for d in cur.description]
            return [dict(zip(cols, map(out_value, r))) for r in cur.fetchall()]
        finally:
            con.close()

    def read(self):
        """(rows of runs, rows of runs_running), as read_db() gives them."""
        def col(d, c):
            v = d.get(c)
            if c.endswith("_time"):
                return epoch(v)
            if c in ("trigger_data", "run_data") and not isinstance(v, str):
                return json.dumps(plain(v))
            return v
        return ([tuple(col(d, c) for c in RUNS) for d in self.table("runs")],
                [tuple(col(d, c) for c in RUNNING) for d in self.table("runs_running")])

    def write(self, changes):
        """changes: ("insert", table, {column: value}) or ("delete", table, run_id or None), in one transaction."""
        if self.kind == "mongodb":
            for what, table, arg in changes:
                c = self.docs.setdefault("dsari", {}).setdefault(table, {})
                if what == "insert":
                    self.serial += 1
                    d = {k: (stored_ms(v) if k.endswith("_time") else
                             json.loads(v) if k in ("trigger_data", "run_data") else v) for k, v in arg.items()}
                    c[self.serial] = dict({"_id": "oid%d" % self.serial}, **d)
                else:
                    for n in [n for n, d in c.items() if arg is None or d["run_id"] == arg]:
                        del c[n]
            self.version += 1
            return
        con = load(self)
        for what, table, arg in changes:
            if what == "insert":
                con.execute("insert into %s (%s) values (%s)" % (table, ",".join(arg), ",".join("?" * len(arg))),
                            [DT + naive(v) if k.endswith("_time") else v for k, v in arg.items()])
            elif arg is None:
                con.execute("delete from %s" % table)
            else:
                con.execute("delete from %s where run_id = ?" % table, (arg,))
        commit_to(self, con, self.rows, self.schema)
        con.close()


def naive(t):
    return datetime.datetime.fromtimestamp(t, UTC).replace(tzinfo=None).isoformat(" ", "microseconds")


def stored_ms(t):
    return math.floor(t * 1000 + 1e-6) / 1000


def epoch(v):
    if isinstance(v, datetime.datetime):
        return v.replace(tzinfo=UTC).timestamp()
    return v


def plain(v):
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    if isinstance(v, list):
        return [plain(x) for x in v]
    return v


def sim():
    c = seams.CUR
    return c if c is not None and getattr(c, "server", None) is not None else None


def the_point(verb, after=False):
    c = sim()
    if c is not None and not c.passive:
        c.point("sql", verb, after)
        if not after and not c.in_child:
            # (a round trip)
            c.advance(150)


# ----------------------------------------------------------------- SQL executed
def converter(kind):
    def js(b):
        return json.loads(b.decode())

    def un(b):
        return b.decode()
    return js, un


sqlite3.register_converter("dsim_jtext", lambda b: json.loads(b.decode()))


def out_value(v):
    if isinstance(v, str) and v.startswith(DT):
        return datetime.datetime.fromisoformat(v[len(DT):])
    return v


def f_todt(v):
    """What a server makes of a value for a timestamp column."""
    if v is None or (isinstance(v, str) and v.startswith(DT)):
        return v
    if isinstance(v, str):
        d = datetime.datetime.fromisoformat(v.strip().replace("Z", "+00:00"))
        return DT + d.replace(tzinfo=None).isoformat(" ", "microseconds")
    raise ValueError("not a timestamp: %r" % (v,))


def f_json(v):
    if v is None:
        return 1
    if not isinstance(v, str):
        return 0

    def const(_):
        raise ValueError
    try:
        json.loads(v, parse_constant=const)
        return 1
    except ValueError:
        return 0


def f_uuid(v):
    try:
        return 1 if v is None or (isinstance(v, str) and uuid.UUID(v)) else 0
    except ValueError:
        return 0


def connect_memory(db="dsari"):
    con = sqlite3.connect(":memory:", isolation_level=None, detect_types=sqlite3.PARSE_DECLTYPES)
    con.create_function("current_database", 0, lambda: db, deterministic=True)
    con.create_function("database", 0, lambda: db, deterministic=True)
    con.create_function("dsim_json", 1, f_json, deterministic=True)
    con.create_function("dsim_uuid", 1, f_uuid, deterministic=True)
    con.create_function("dsim_todt", 1, f_todt, deterministic=True)
    con.create_function("now", 0, lambda: DT + datetime.datetime.now(UTC).replace(tzinfo=None).isoformat(
        " ", "microseconds"))
    con.execute("attach ':memory:' as information_schema")
    con.execute("create table information_schema.tables (table_catalog, table_schema, table_name)")
    con.execute("create table information_schema.columns (table_catalog, table_schema, table_name, column_name, data_type)")
    return con


def catalogue(con, kind):
    con.execute("delete from information_schema.tables")
    con.execute("delete from information_schema.columns")
    for (n,) in con.execute("select name from main.sqlite_master where type='table'").fetchall():
        sch = "public" if kind == "postgresql" else "dsari"
        con.execute("insert into information_schema.tables values ('dsari', ?, ?)", (sch, n))
        for c in con.execute("pragma main.table_info(%s)" % n).fetchall():
            con.execute("insert into information_schema.columns values ('dsari', ?, ?, ?, ?)", (sch, n, c[1], c[2]))


def load(srv):
    con = connect_memory()
    for s in srv.schema:
        con.execute(s)
    for t, rows in srv.rows.items():
        for rid, vals in rows.items():
            con.execute("insert into main.%s (rowid, %s) values (?%s)" % (
                t, ",".join(columns(con, t)), ",?" * len(vals)), (rid,) + tuple(vals))
    catalogue(con, srv.kind)
    return con


def columns(con, t):
    return [c[1] for c in con.execute("pragma main.table_info(%s)" % t).fetchall()]


def contents(con):
    """(schema, raw rows) of a private copy."""
    schema = [r[0] for r in con.execute(
        "select sql from main.sqlite_master where sql is not null order by rowid").fetchall()]
    rows = {}
    for (n,) in con.execute("select name from main.sqlite_master where type='table'").fetchall():
        # (expressions have no declared type: raw values)
        cs = ",".join("%s||''" % c if ty.lower().startswith("dsim_") else "+%s" % c
                      for _, c, ty, *_r in con.execute("pragma main.table_info(%s)" % n).fetchall())
        rows[n] = {r[0]: tuple(r[1:]) for r in con.execute("select rowid, %s from main.%s" % (cs, n)).fetchall()}
    return schema, rows


def commit_to(srv, con, base_rows, base_schema):
    schema, rows = contents(con)
    if schema != base_schema:
        srv.schema = schema
    new = {t: dict(r) for t, r in srv.rows.items()}
    for t in list(new):
        if t not in rows and t in base_rows:
            del new[t]
    for t, r in rows.items():
        cur = new.setdefault(t, {})
        old = base_rows.get(t, {})
        for rid, vals in old.items():
            if rid not in r:
                cur.pop(rid, None)
            elif r[rid] != vals:
                cur[rid] = r[rid]
        for rid, vals in r.items():
            if rid not in old:
                while rid in cur:
                    rid = max(cur) + 1
                cur[rid] = vals
    if new != srv.rows or schema != base_schema:
        srv.version += 1
    srv.rows = new


TYPES = (
    (re.compile(r"\btimestamp\b(\s*\(\d\))?(\s+(with|without)\s+time\s+zone)?|\btimestamptz\b", re.I), "postgresql", "dsim_dtext", "dt"),
    (re.compile(r"\bdatetime\s*\(\d\)|\bdatetime\b|\btimestamp\b(\s*\(\d\))?", re.I), "mysql", "dsim_dtext", "dt"),
    (re.compile(r"\bjsonb?\b", re.I), "postgresql", "dsim_jtext", "json"),
    (re.compile(r"\bjson\b", re.I), "mysql", "mjsontext", "json"),
    (re.compile(r"\buuid\b", re.I), "postgresql", "utext", "uuid"),
    (re.compile(r"\b(var)?char\s*\((\d+)\)", re.I), None, None, "char"),
    (re.compile(r"\bsmallint\b", re.I), None, "smallint", "small"),
    (re.compile(r"\btinyint\s+unsigned\b", re.I), "mysql", "utinyint", "tiny"),
    (re.compile(r"\btinyint\b", re.I), "mysql", "tinyint", "stiny"),
    (re.compile(r"\btext\b", re.I), "mysql", "text", "text"),
)


def ddl(kind, sql):
    """CREATE TABLE in SQLite's terms."""
    m = re.match(r"(?is)^\s*create\s+table\s+(if\s+not\s+exists\s+)?([\w.`\"]+)\s*\((.*)\)([^)]*)$", sql)
    if not m:
        return sql
    out = []
    for part in re.split(r",(?![^(]*\))", m.group(3)):
        w = part.strip().split()
        if not w:
            continue
        name = w[0].strip('`"')
        rest = part.strip()[len(w[0]):]
        check = ""
        if name.lower() not in ("primary", "unique", "key", "index", "constraint", "foreign", "check"):
            for rx, k, repl, what in TYPES:
                if k not in (None, kind):
                    continue
                mm = rx.search(rest)
                if not mm:
                    continue
                if what == "char":
                    check = "length(%s) <= %s" % (name, mm.group(2))
                elif what == "json":
                    check = "dsim_json(%s)" % name
                elif what == "uuid":
                    check = "dsim_uuid(%s)" % name
                elif what == "small":
                    check = "typeof(%s) in ('integer','null') and %s between -32768 and 32767" % (name, name)
                elif what == "tiny":
                    check = "typeof(%s) in ('integer','null') and %s between 0 and 255" % (name, name)
                elif what == "stiny":
                    check = "typeof(%s) in ('integer','null') and %s between -128 and 127" % (name, name)
                elif what == "text":
                    check = "length(cast(%s as blob)) <= 65535" % name
                if repl:
                    rest = rest[:mm.start()] + repl + rest[mm.end():]
                break
            rest = re.sub(r"(?i)\bcharacter\s+set\s+\w+|\bcollate\s+\w+|\bcharset\s+\w+|\bauto_increment\b", "", rest)
            if kind == "mysql" and re.search(r"(?i)char|text", rest) and "dsim" not in rest:
                if not re.search(r"(?i)collate\s+\w*bin\b|\bbinary\b", part):
                    rest += " collate nocase"
                rest = re.sub(r"(?i)\bbinary\b", "", rest)
            # (as separate names for what the checks are about)
            if check:
                rest += " check(%s)" % check
            out.append("%s %s" % (name, rest))
        else:
            out.append(part.strip())
    return "create table %s%s (%s)" % (m.group(1) or "", m.group(2).strip('`"'), ", ".join(out))


def params(sql, args, E):
    """pyformat to qmark."""
    if args is None:
        return sql, ()
    out, vals, i, n = [], [], 0, 0
    named = isinstance(args, dict)
    while i < len(sql):
        c = sql[i]
        if c != "%":
            out.append(c)
            i += 1
            continue
        nx = sql[i + 1:i + 2]
        if nx == "%":
            out.append("%")
            i += 2
        elif nx == "s":
            if named or n >= len(args):
                raise (TypeError if E.kind == "postgresql" else E.ProgrammingError)(
                    "not enough arguments for format string")
            v = args[n]
            n += 1
            i += 2
            put(out, vals, v, E)
        elif nx == "(":
            j = sql.index(")", i)
            put(out, vals, args[sql[i + 2:j]], E)
            i = j + 2
        else:
            raise ValueError("unsupported format character %r" % nx)
    if not named and n < len(args):
        raise (TypeError if E.kind == "postgresql" else E.ProgrammingError)("not all arguments converted during string formatting")
    return "".join(out), vals


def put(out, vals, v, E):
    if isinstance(v, (tuple, list)) and (isinstance(v, tuple) or E.kind == "mysql"):
        if not v:
            raise E.ProgrammingError("syntax error at or near \")\"")
        out.append("(" + ",".join("?" * len(v)) + ")")
        for x in v:
            vals.append(adapt(x, E))
        return
    out.append("?")
    vals.append(adapt(v, E))


def adapt(v, E):
    if isinstance(v, E.Wrapped):
        return v.text()
    if v is None or isinstance(v, (float, bytes)):
        return v
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        if abs(v) >= 1 << 63:
            raise E.DataError("integer out of range")
        return v
    if isinstance(v, str):
        v = str(v)
        if "\0" in v and E.kind == "postgresql":
            raise ValueError("A string literal cannot contain NUL (0x00) characters.")
        v.encode("utf-8")
        return v
    if isinstance(v, datetime.datetime):
        if E.kind == "postgresql" and v.tzinfo is not None:
            v = v.astimezone(E.zone())
        # (MySQLdb's literal does not mention the offset)
        return DT + v.replace(tzinfo=None, fold=0).isoformat(" ", "microseconds")
    if isinstance(v, uuid.UUID) and E.kind == "mysql":
        return str(v)
    if E.kind == "mysql" and not isinstance(v, (dict, set)):
        return str(v)
    raise E.ProgrammingError("can't adapt type %r" % type(v).__name__)


class Wrapped:
    def __init__(self, obj=None, dumps=None):
        self.adapted = obj
        self._dumps = dumps or json.dumps

    def text(self):
        return self._dumps(self.adapted)


VERB = re.compile(r"^\s*(?:--[^\n]*\n\s*|/\*.*?\*/\s*)*(\w+)", re.S)


class Conn:
    """A connection of either kind."""

    def __init__(self, E, row="tuple"):
        s = sim()
        self.E = E
        if s is None or s.server.kind != E.kind:
            raise E.OperationalError("could not connect to server")
        the_point("connect")
        self.sim = s
        s.sql_conns = self.number = getattr(s, "sql_conns", 0) + 1
        self.closed = 0
        self.row = row
        self.auto = False
        self.mem = None
        self.version = None
        self.intx = self.wrote = self.failed = False
        self.isolation = "repeatable" if E.kind == "mysql" else "committed"

    # -- state
    def check(self):
        if self.closed:
            raise self.E.InterfaceError("connection already closed")
        if self.sim.server.broken >= self.number:
            self.closed = 2 if self.E.kind == "postgresql" else 1
            raise self.E.OperationalError("server closed the connection unexpectedly" if self.E.kind == "postgresql"
                                          else (2006, "MySQL server has gone away"))

    def fresh(self):
        srv = self.sim.server
        if self.mem is not None:
            self.mem.close()
        self.mem = load(srv)
        self.base = {t: dict(r) for t, r in srv.rows.items()}
        self.base_schema = list(srv.schema)
        self.version = srv.version

    def execute(self, sql, args, count=None):
        E = self.E
        verb = VERB.match(sql)
        verb = verb.group(1).lower() if verb else ""
        if self.sim.in_child:
            self.sim.sql_child = True
        self.check()
        the_point(verb)
        self.check()
        if self.failed:
            if verb in ("rollback", "commit", "end"):
                self.rollback()
                return [], None, -1
            raise E.InFailedSqlTransaction("current transaction is aborted, commands ignored until end of transaction block")
        try:
            text, vals = params(sql, args if args or E.kind == "mysql" else None, E)
        except (KeyError, IndexError) as e:
            raise E.ProgrammingError(str(e))
        if verb in ("commit", "end"):
            self.commit()
            return [], None, -1
        if verb in ("rollback", "abort"):
            self.rollback()
            return [], None, -1
        if verb in ("set", "begin", "start", "lock", "unlock", "use", "savepoint", "release", "discard", "listen"):
            m = re.search(r"(?i)isolation\s+level\s+(\w+\s+\w+|serializable)", text)
            if m:
                self.isolation = "committed" if "commit" in m.group(1).lower() else "repeatable"
            if verb in ("begin", "start"):
                self.intx = True
            the_point(verb, True)
            return [], None, 0
        srv = self.sim.server
        write = verb not in ("select", "show", "explain", "values")
        if not self.intx or ((self.isolation == "committed" or write) and not self.wrote):
            if self.mem is None or self.version != srv.version:
                self.fresh()
        self.intx = True
        try:
            out = self.run(verb, text, vals, write)
        except sqlite3.IntegrityError as e:
            self.fail()
            raise (E.DataError if "CHECK" in str(e) else E.IntegrityError)(str(e))
        except (sqlite3.Error, sqlite3.Warning) as e:
            self.fail()
            if "user-defined function" in str(e):
                raise E.DataError(str(e))
            raise (E.UndefinedTable if "no such table" in str(e) else E.ProgrammingError)(str(e))
        except OverflowError as e:
            self.fail()
            raise E.DataError(str(e))
        except E.Error:
            self.fail()
            raise
        if self.auto or (E.kind == "mysql" and verb in ("create", "alter", "drop", "truncate")):
            self.apply()
        the_point(verb, True)
        return out

    def fail(self):
        if self.E.kind == "postgresql" and not self.auto:
            self.failed = True

    def run(self, verb, text, vals, write):
        E = self.E
        if re.search(r"(?is)\bin\s*\(\s*\)", text):
            raise E.ProgrammingError("syntax error at or near \")\"")
        if "?" in re.sub(r"'[^']*'", "", text) and not vals:
            raise E.ProgrammingError("syntax error at or near \"?\"")
        if verb == "create":
            text = ddl(E.kind, text)
        elif verb == "truncate":
            text = re.sub(r"(?i)^\s*truncate\s+(table\s+)?", "delete from ", text)
        if E.kind == "mysql":
            text = text.replace("`", '"')
            text = re.sub(r"(?i)^\s*insert\s+ignore", "insert or ignore", text)
            text = re.sub(r"(?i)=\s*binary\s+\?", "= ? collate binary", text)
            text = re.sub(r"(?i)\bbinary\s+(\w+)\s*(=|in)", r"\1 collate binary \2", text)
        else:
            text = re.sub(r"::\s*\w+(\[\])?", "", text)
            text = re.sub(r"(?i)=\s*any\s*\(\s*\?\s*\)", "in ?", text)
            if re.search(r"(?i)\brun_id\b", text) and write is False:
                for v in vals:
                    if isinstance(v, str) and re.search(r"(?i)\brun_id\s*(=|in)", text) and not f_uuid(v) \
                            and not re.search(r"(?i)\bjob_name\b\s*(=|in)", text):
                        raise E.DataError("invalid input syntax for type uuid: %r" % v)
        text = re.sub(r"(?i)\s+for\s+update(\s+nowait|\s+skip\s+locked)?\s*;?\s*$", "", text)
        text = re.sub(r"(?i)\bpublic\.", "", text)
        n0 = self.mem.total_changes
        cur = self.mem.execute(text, vals)
        desc = cur.description
        rows = [tuple(out_value(v) for v in r) for r in cur.fetchall()] if desc else []
        if verb in ("insert", "update", "replace", "with"):
            for t in TABLES:
                info = self.mem.execute("pragma main.table_info(%s)" % t).fetchall()
                for c in info:
                    if c[2].lower() == "dsim_dtext":
                        self.mem.execute("update main.%s set %s = dsim_todt(%s) where substr(%s,1,2) <> ?" % (
                            t, c[1], c[1], c[1]), (DT,))
        if verb in ("create", "alter", "drop"):
            catalogue(self.mem, E.kind)
        if write:
            self.wrote = True
        return rows, desc, (len(rows) if not write else self.mem.total_changes - n0)

    def apply(self):
        if self.wrote:
            commit_to(self.sim.server, self.mem, self.base, self.base_schema)
            self.version = None
        self.intx = self.wrote = self.failed = False

    def commit(self):
        if self.sim.in_child:
            self.sim.sql_child = True
        self.check()
        if self.failed:
            self.rollback()
            return
        the_point("commit")
        self.check()
        self.apply()
        the_point("commit", True)
        self.check()

    def rollback(self):
        self.check()
        the_point("rollback")
        self.version = None
        self.intx = self.wrote = self.failed = False

    def close(self):
        if self.sim.in_child:
            # the server is told, on the socket which the parent uses, too
            self.sim.sql_child = True
        self.closed = 1
        self.mem = None


class Cur:
    arraysize = 1

    def __init__(self, conn, row):
        self.connection = conn
        self.row = row
        self.rows = []
        self.description = None
        self.rowcount = -1
        self.closed = False
        self.lastrowid = None

    def _c(self):
        if self.closed:
            raise self.connection.E.InterfaceError("cursor already closed")

    def execute(self, sql, args=None):
        self._c()
        if isinstance(sql, bytes):
            sql = sql.decode()
        rows, desc, n = self.connection.execute(sql, args)
        self.description = desc
        names = [d[0] for d in desc] if desc else []
        rows = self.unordered(sql, names, rows)
        self.rows = [make_row(self.row, names, r) for r in rows]
        self.has = bool(desc)
        self.pos = 0
        self.rowcount = n
        return n if self.connection.E.kind == "mysql" else None

    def unordered(self, sql, names, rows):
        """Rows come in no particular order unless one is asked for: MySQL's (InnoDB's) are kept in the order of
        their primary keys, PostgreSQL may start anywhere in a table (synchronize_seqscans)."""
        rows = list(rows)
        if len(rows) < 2 or "run_id" not in names or re.search(r"\border\s+by\b|\blimit\b", sql, re.I):
            return rows
        if self.connection.E.kind == "mysql":
            return sorted(rows, key=lambda r: str(r[names.index("run_id")]))
        k = self.connection.sim.scn.get("noise", 0) % (2 * len(rows))
        return rows[k:] + rows[:k]

    def executemany(self, sql, seq):
        n = 0
        for a in seq:
            self.execute(sql, a)
            n += self.rowcount
        self.rowcount = n

    def _fetch(self):
        self._c()
        if self.description is None:
            raise self.connection.E.ProgrammingError("no results to fetch")

    def fetchone(self):
        self._fetch()
        if self.pos >= len(self.rows):
            return None
        self.pos += 1
        return self.rows[self.pos - 1]

    def fetchall(self):
        self._fetch()
        out = self.rows[self.pos:]
        self.pos = len(self.rows)
        return out if self.connection.E.kind != "mysql" else tuple(out)

    def fetchmany(self, size=None):
        self._fetch()
        out = self.rows[self.pos:self.pos + (size or self.arraysize)]
        self.pos += len(out)
        return out

    def __iter__(self):
        while True:
            r = self.fetchone()
            if r is None:
                return
            yield r

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class DictRow(list):
    """psycopg2.extras.DictRow"""

    def __init__(self, names, vals):
        super().__init__(vals)
        self._index = {n: i for i, n in enumerate(names)}

    def __getitem__(self, k):
        if isinstance(k, str):
            return list.__getitem__(self, self._index[k])
        return list.__getitem__(self, k)

    def keys(self):
        return iter(self._index)

    def values(self):
        return iter(list(self))

    def items(self):
        return ((k, self[k]) for k in self._index)

    def get(self, k, default=None):
        return self[k] if k in self._index else default

    def copy(self):
        return dict(self.items())

    def __contains__(self, k):
        return k in self._index


def make_row(kind, names, vals):
    if kind == "dictrow":
        return DictRow(names, vals)
    if kind == "dict":
        return dict(zip(names, vals))
    if kind == "named":
        import collections
        return collections.namedtuple("Record", names)(*vals)
    return tuple(vals)


def errors(mod, kind):
    mod.Warning = type("Warning", (Exception,), {})
    mod.Error = type("Error", (Exception,), {"pgcode": None})
    mod.InterfaceError = type("InterfaceError", (mod.Error,), {})
    mod.DatabaseError = type("DatabaseError", (mod.Error,), {})
    for n in ("DataError", "OperationalError", "IntegrityError", "InternalError", "ProgrammingError", "NotSupportedError"):
        setattr(mod, n, type(n, (mod.DatabaseError,), {}))
    mod.MySQLError = mod.Error
    mod.apilevel, mod.threadsafety = "2.0", 2
    mod.paramstyle = "pyformat" if kind == "postgresql" else "format"
    E = types.SimpleNamespace(**{n: getattr(mod, n) for n in (
        "Error InterfaceError DatabaseError DataError OperationalError IntegrityError InternalError ProgrammingError "
        "NotSupportedError").split()})
    E.kind = kind
    E.InFailedSqlTransaction = type("InFailedSqlTransaction", (mod.InternalError,), {})
    E.UndefinedTable = type("UndefinedTable", (mod.ProgrammingError,), {}) if kind == "postgresql" else mod.ProgrammingError
    E.Wrapped = Wrapped
    return E


# --------------------------------------------------------------------- psycopg2
def make_psycopg2():
    m = types.ModuleType("psycopg2")
    x = types.ModuleType("psycopg2.extras")
    er = types.ModuleType("psycopg2.errors")
    ex = types.ModuleType("psycopg2.extensions")
    m.__path__ = []
    E = errors(m, "postgresql")
    er.InFailedSqlTransaction, er.UndefinedTable = E.InFailedSqlTransaction, E.UndefinedTable
    er.UniqueViolation = m.IntegrityError

    def zone():
        import zoneinfo
        s = sim()
        return zoneinfo.ZoneInfo(s.scn.get("db_tz", "UTC"))
    E.zone = zone

    class cursor(Cur):
        kind = "tuple"

        def __init__(self, conn, *a, **k):
            Cur.__init__(self, conn, self.kind)

        def mogrify(self, sql, args=None):
            return (sql % tuple(repr(a) for a in args)).encode()

    class DictCursor(cursor):
        kind = "dictrow"

    class RealDictCursor(cursor):
        kind = "dict"

    class NamedTupleCursor(cursor):
        kind = "named"

    class connection(Conn):
        def __init__(self, dsn=None, cursor_factory=None, **k):
            Conn.__init__(self, E)
            self.dsn = dsn
            self.cursor_factory = cursor_factory

        @property
        def autocommit(self):
            return self.auto

        @autocommit.setter
        def autocommit(self, v):
            if self.intx and v != self.auto:
                raise E.ProgrammingError("set_session cannot be used inside a transaction")
            self.auto = bool(v)

        def set_session(self, isolation_level=None, readonly=None, deferrable=None, autocommit=None):
            if autocommit is not None:
                self.autocommit = autocommit
            if isolation_level is not None:
                self.set_isolation_level(isolation_level)

        def set_isolation_level(self, lv):
            if lv == 0:
                self.auto = True
            else:
                self.auto = False
                self.isolation = "committed" if lv in (1, 4, "READ COMMITTED") else "repeatable"

        def get_transaction_status(self):
            return 3 if self.failed else 2 if self.intx else 0

        def cursor(self, name=None, cursor_factory=None, **k):
            self.check()
            return (cursor_factory or self.cursor_factory or cursor)(self)

        def __enter__(self):
            return self

        def __exit__(self, t, v, tb):
            if t is None:
                self.commit()
            else:
                self.rollback()

    class Json(Wrapped):
        pass

    def connect(dsn=None, connection_factory=None, cursor_factory=None, **k):
        return (connection_factory or connection)(dsn, cursor_factory=cursor_factory, **k)

    def execute_values(cur, sql, argslist, template=None, page_size=100, fetch=False):
        for a in argslist:
            cur.execute(sql.replace("%s", "(" + ",".join(["%s"] * len(a)) + ")", 1), tuple(a))

    m.connect = connect
    ex.connection = m._conn = connection
    ex.cursor = cursor
    ex.ISOLATION_LEVEL_AUTOCOMMIT, ex.ISOLATION_LEVEL_READ_COMMITTED = 0, 1
    ex.ISOLATION_LEVEL_REPEATABLE_READ, ex.ISOLATION_LEVEL_SERIALIZABLE = 2, 3
    ex.register_adapter = lambda *a, **k: None
    ex.TRANSACTION_STATUS_IDLE, ex.TRANSACTION_STATUS_INTRANS, ex.TRANSACTION_STATUS_INERROR = 0, 2, 3
    x.DictCursor, x.RealDictCursor, x.NamedTupleCursor, x.DictRow = DictCursor, RealDictCursor, NamedTupleCursor, DictRow
    x.Json, x.execute_values = Json, execute_values
    x.execute_batch = lambda cur, sql, args, page_size=100: cur.executemany(sql, args)
    x.register_uuid = x.register_default_json = x.register_json = x.register_default_jsonb = lambda *a, **k: None
    m.extras, m.errors, m.extensions = x, er, ex
    for mod in (m, x, er, ex):
        sys.modules[mod.__name__] = mod


# ---------------------------------------------------------------------- MySQLdb
def make_mysqldb():
    m = types.ModuleType("MySQLdb")
    cs = types.ModuleType("MySQLdb.cursors")
    ee = types.ModuleType("MySQLdb._exceptions")
    m.__path__ = []
    E = errors(m, "mysql")

    class BaseCursor(Cur):
        kind = "tuple"

        def __init__(self, conn):
            Cur.__init__(self, conn, self.kind)

    class Cursor(BaseCursor):
        pass

    class DictCursor(BaseCursor):
        kind = "dict"

    class SSCursor(BaseCursor):
        pass

    class SSDictCursor(BaseCursor):
        kind = "dict"

    class Connection(Conn):
        def __init__(self, *a, **k):
            Conn.__init__(self, E)
            self.cursorclass = k.get("cursorclass", Cursor)
            self.auto = bool(k.get("autocommit", False))

        def cursor(self, cursorclass=None):
            return (cursorclass or self.cursorclass)(self)

        def autocommit(self, on):
            self.auto = bool(on)

        def get_autocommit(self):
            return self.auto

        def ping(self, reconnect=False):
            if reconnect and self.sim.server.broken >= self.number:
                self.sim.sql_conns = self.number = self.sim.sql_conns + 1
                self.closed = 0
                self.intx = self.wrote = False
                self.version = None
            self.check()

        def query(self, q):
            self.execute(q, None)

        def begin(self):
            self.execute("begin", None)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            self.close()

    m.connect = m.Connect = m.Connection = Connection
    cs.BaseCursor, cs.Cursor, cs.DictCursor, cs.SSCursor, cs.SSDictCursor = BaseCursor, Cursor, DictCursor, SSCursor, SSDictCursor
    m.cursors = cs
    m._exceptions = ee
    for n in ("Error", "OperationalError", "ProgrammingError", "DataError", "IntegrityError"):
        setattr(ee, n, getattr(m, n))
    for mod in (m, cs, ee):
        sys.modules[mod.__name__] = mod


# ---------------------------------------------------------------------- pymongo
class CodecOptions:
    def __init__(self, document_class=dict, tz_aware=False, uuid_representation=0, unicode_decode_error_handler="strict",
                 tzinfo=None, **k):
        self.tz_aware, self.tzinfo = tz_aware, tzinfo


def make_pymongo():
    m = types.ModuleType("pymongo")
    er = types.ModuleType("pymongo.errors")
    b = types.ModuleType("bson")
    bc = types.ModuleType("bson.codec_options")
    be = types.ModuleType("bson.errors")
    m.__path__ = []
    b.__path__ = []
    er.PyMongoError = type("PyMongoError", (Exception,), {})
    er.ConnectionFailure = type("ConnectionFailure", (er.PyMongoError,), {})
    er.AutoReconnect = type("AutoReconnect", (er.ConnectionFailure,), {})
    er.ServerSelectionTimeoutError = type("ServerSelectionTimeoutError", (er.AutoReconnect,), {})
    er.OperationFailure = type("OperationFailure", (er.PyMongoError,), {})
    er.WriteError = type("WriteError", (er.OperationFailure,), {})
    er.DuplicateKeyError = type("DuplicateKeyError", (er.WriteError,), {})
    er.InvalidOperation = type("InvalidOperation", (er.PyMongoError,), {})
    be.BSONError = type("BSONError", (Exception,), {})
    be.InvalidDocument = type("InvalidDocument", (be.BSONError,), {})
    be.InvalidStringData = type("InvalidStringData", (be.BSONError,), {})
    er.InvalidDocument = be.InvalidDocument

    class ObjectId(str):
        pass

    def enc(v):
        """to BSON (kept as Python data; dates as seconds since the epoch, whole milliseconds)"""
        if isinstance(v, dict):
            out = {}
            for k, x in v.items():
                if not isinstance(k, str):
                    raise be.InvalidDocument("documents must have only string keys, key was %r" % (k,))
                if "\0" in k:
                    raise be.InvalidDocument("Key names must not contain the NULL byte")
                k.encode("utf-8")
                out[k] = enc(x)
            return out
        if isinstance(v, (list, tuple)):
            return [enc(x) for x in v]
        if isinstance(v, bool) or v is None or isinstance(v, float):
            return v
        if isinstance(v, int):
            if not -(1 << 63) <= v < 1 << 63:
                raise OverflowError("MongoDB can only handle up to 8-byte ints")
            return v
        if isinstance(v, str):
            v.encode("utf-8")
            return v
        if isinstance(v, datetime.datetime):
            if v.tzinfo is not None:
                v = v.astimezone(UTC)
            else:
                v = v.replace(tzinfo=UTC)
            d = v - datetime.datetime(1970, 1, 1, tzinfo=UTC)
            return BDate((d.days * 86400 + d.seconds) * 1000 + d.microseconds // 1000)
        if isinstance(v, BDate):
            return v
        raise be.InvalidDocument("cannot encode object: %r, of type: %r" % (v, type(v)))

    def dec(v, opt):
        if isinstance(v, dict):
            return {k: dec(x, opt) for k, x in v.items()}
        if isinstance(v, list):
            return [dec(x, opt) for x in v]
        if isinstance(v, BDate):
            d = datetime.datetime(1970, 1, 1, tzinfo=UTC) + datetime.timedelta(milliseconds=int(v))
            if opt.tz_aware:
                return d.astimezone(opt.tzinfo) if opt.tzinfo else d
            return d.replace(tzinfo=None)
        return v

    def rank(v):
        if v is None:
            return 0
        if isinstance(v, (int, float)) and not isinstance(v, (bool, BDate)):
            return 1
        return 2 if isinstance(v, str) else 3 if isinstance(v, dict) else 4 if isinstance(v, list) else \
            9 if isinstance(v, BDate) else 8

    def key(v):
        return (rank(v), v if rank(v) in (1, 2, 9, 8) else repr(v))

    def get(d, path):
        for p in path.split("."):
            if not isinstance(d, dict) or p not in d:
                return None
            d = d[p]
        return d

    def matches(d, flt):
        for k, want in (flt or {}).items():
            if k == "$and":
                if not all(matches(d, f) for f in want):
                    return False
                continue
            if k == "$or":
                if not any(matches(d, f) for f in want):
                    return False
                continue
            if k == "$nor":
                if any(matches(d, f) for f in want):
                    return False
                continue
            v = get(d, k)
            if isinstance(want, dict) and want and all(x.startswith("$") for x in want):
                for o, a in want.items():
                    if o == "$options":
                        continue
                    if o in ("$in", "$nin") and not isinstance(a, (list, tuple)):
                        raise er.OperationFailure("%s needs an array" % o)
                    a = enc(a)
                    ok = {"$eq": lambda: v == a, "$ne": lambda: v != a, "$in": lambda: v in a,
                          "$nin": lambda: v not in a, "$exists": lambda: (v is not None) == bool(a),
                          "$gt": lambda: v is not None and rank(v) == rank(a) and v > a,
                          "$gte": lambda: v is not None and rank(v) == rank(a) and v >= a,
                          "$lt": lambda: v is not None and rank(v) == rank(a) and v < a,
                          "$lte": lambda: v is not None and rank(v) == rank(a) and v <= a,
                          "$regex": lambda: isinstance(v, str) and re.search(a, v) is not None,
                          "$not": lambda: not matches(d, {k: a})}
                    if o not in ok:
                        raise er.OperationFailure("unknown operator: %s" % o)
                    if not ok[o]():
                        return False
            elif v != enc(want):
                return False
        return True

    class Cursor:
        def __init__(self, coll, flt, projection=None):
            self.coll, self.flt, self.proj = coll, flt, projection
            self._sort, self._limit, self._skip = None, 0, 0
            self._docs = None

        def _free(self):
            if self._docs is not None:
                raise er.InvalidOperation("cannot set options after executing query")

        def sort(self, key_or_list, direction=None):
            self._free()
            if isinstance(key_or_list, str):
                key_or_list = [(key_or_list, direction or 1)]
            elif isinstance(key_or_list, dict):
                key_or_list = list(key_or_list.items())
            self._sort = [(x, 1) if isinstance(x, str) else tuple(x) for x in key_or_list]
            return self

        def limit(self, n):
            self._free()
            self._limit = abs(n)
            return self

        def skip(self, n):
            self._free()
            self._skip = n
            return self

        def batch_size(self, n):
            return self

        def _run(self, limit=None, skip=None):
            self.coll._op("find")
            docs = [d for d in self.coll._docs().values() if matches(d, self.flt)]
            for k, o in reversed(self._sort or []):
                docs.sort(key=lambda d: key(get(d, k)), reverse=o < 0)
            docs = docs[self._skip if skip is None else skip:]
            n = self._limit if limit is None else limit
            if n:
                docs = docs[:n]
            self.coll._done("find")
            opt = self.coll.opt
            out = [dec(d, opt) for d in docs]
            p = self.proj
            if p:
                if not isinstance(p, dict):
                    p = {k: 1 for k in p}
                inc = any(v for k, v in p.items() if k != "_id")
                out = [{k: v for k, v in d.items() if (
                    (p.get(k, k == "_id") if inc else p.get(k, True)))} for d in out]
            return out

        def __iter__(self):
            return self

        def __next__(self):
            if self._docs is None:
                self._docs = self._run()
            if not self._docs:
                raise StopIteration
            return self._docs.pop(0)

        next = __next__

        def __getitem__(self, i):
            self._free()
            if isinstance(i, slice):
                self._skip, self._limit = i.start or 0, (i.stop or 0) - (i.start or 0)
                return self
            if i < 0:
                raise IndexError("Cursor instances do not support negative indices")
            got = self._run(limit=1, skip=self._skip + i)
            if not got:
                raise IndexError("no such item for Cursor instance")
            return got[0]

        def to_list(self, n=None):
            return list(self)

        def clone(self):
            c = Cursor(self.coll, self.flt, self.proj)
            c._sort, c._limit, c._skip = self._sort, self._limit, self._skip
            return c

        def close(self):
            self._docs = []

        def count(self, *a):
            raise AttributeError("count")

        def __bool__(self):
            return True

        def __enter__(self):
            return self

        def __exit__(self, *a):
            self.close()

    class Collection:
        def __init__(self, db, name):
            self.database, self.name = db, name
            self.opt = db.opt

        def _docs(self):
            return self.database.client.sim.server.docs.setdefault(self.database.name, {}).setdefault(self.name, {})

        def _op(self, verb):
            self.database.client._check(verb)

        def _done(self, verb, changed=False):
            c = self.database.client
            if changed:
                c.sim.server.version += 1
            the_point(verb, True)
            if c.sim.server.broken >= c.number:
                c._check(verb)

        def find(self, filter=None, projection=None, sort=None, limit=0, skip=0, **k):
            c = Cursor(self, filter, projection)
            if sort:
                c.sort(sort)
            return c.limit(limit).skip(skip)

        def find_one(self, filter=None, *a, **k):
            if filter is not None and not isinstance(filter, dict):
                filter = {"_id": filter}
            for d in self.find(filter, *a, **k).limit(1):
                return d
            return None

        def insert_one(self, doc, **k):
            e = enc(doc)
            self._op("insert")
            s = self.database.client.sim.server
            s.serial += 1
            e.setdefault("_id", "oid%d" % s.serial)
            doc.setdefault("_id", ObjectId(e["_id"]))
            if any(d["_id"] == e["_id"] for d in self._docs().values()):
                raise er.DuplicateKeyError("E11000 duplicate key error")
            self._docs()[s.serial] = e
            self._done("insert", True)
            return types.SimpleNamespace(inserted_id=doc["_id"], acknowledged=True)

        def insert_many(self, docs, **k):
            ids = [self.insert_one(d).inserted_id for d in docs]
            return types.SimpleNamespace(inserted_ids=ids, acknowledged=True)

        def _delete(self, flt, one):
            self._op("delete")
            docs = self._docs()
            hit = [n for n, d in docs.items() if matches(d, flt)]
            if one:
                hit = hit[:1]
            for n in hit:
                del docs[n]
            self._done("delete", True)
            return types.SimpleNamespace(deleted_count=len(hit), acknowledged=True)

        def delete_many(self, filter, **k):
            return self._delete(filter, False)

        def delete_one(self, filter, **k):
            return self._delete(filter, True)

        def _update(self, flt, change, one, upsert, replace=False):
            change = {k: enc(v) for k, v in change.items()}
            self._op("update")
            docs = self._docs()
            hit = [n for n, d in docs.items() if matches(d, flt)]
            if one:
                hit = hit[:1]
            s = self.database.client.sim.server
            up = None
            if not hit and upsert:
                s.serial += 1
                up = "oid%d" % s.serial
                docs[s.serial] = dict({"_id": up}, **{k: enc(v) for k, v in flt.items() if not k.startswith("$")})
                hit2 = [s.serial]
            else:
                hit2 = hit
            for n in hit2:
                d = dict(docs[n])
                if replace:
                    d = dict({"_id": d["_id"]}, **change)
                else:
                    for o, a in change.items():
                        if o == "$set" or (o == "$setOnInsert" and not hit):
                            d.update(a)
                        elif o == "$unset":
                            for k in a:
                                d.pop(k, None)
                        elif o != "$setOnInsert":
                            raise er.OperationFailure("unknown modifier: %s" % o)
                docs[n] = d
            self._done("update", True)
            return types.SimpleNamespace(matched_count=len(hit), modified_count=len(hit), upserted_id=up)

        def update_one(self, filter, update, upsert=False, **k):
            return self._update(filter, update, True, upsert)

        def update_many(self, filter, update, upsert=False, **k):
            return self._update(filter, update, False, upsert)

        def replace_one(self, filter, replacement, upsert=False, **k):
            return self._update(filter, replacement, True, upsert, True)

        def count_documents(self, filter=None, **k):
            return len(self.find(filter)._run())

        def estimated_document_count(self, **k):
            return self.count_documents({})

        def distinct(self, k, filter=None):
            out = []
            for d in self.find(filter):
                if k in d and d[k] not in out:
                    out.append(d[k])
            return out

        def create_index(self, *a, **k):
            return "index"

        ensure_index = create_index

        def drop(self):
            self._docs().clear()

        def with_options(self, codec_options=None, **k):
            c = Collection(self.database, self.name)
            c.opt = codec_options or self.opt
            return c

        def __getattr__(self, n):
            if n.startswith("_"):
                raise AttributeError(n)
            return Collection(self.database, self.name + "." + n)

        def __bool__(self):
            raise NotImplementedError("Collection objects do not implement truth value testing")

    class Database:
        def __init__(self, client, name, opt):
            self.client, self.name, self.opt = client, name, opt
            self.codec_options = opt

        def __getitem__(self, n):
            return Collection(self, n)

        def __getattr__(self, n):
            if n.startswith("_"):
                raise AttributeError(n)
            return Collection(self, n)

        def get_collection(self, n, codec_options=None, **k):
            c = Collection(self, n)
            c.opt = codec_options or self.opt
            return c

        def with_options(self, codec_options=None, **k):
            return Database(self.client, self.name, codec_options or self.opt)

        def list_collection_names(self, **k):
            return sorted(self.client.sim.server.docs.get(self.name, {}))

        def command(self, *a, **k):
            self.client._check("command")
            return {"ok": 1.0}

        def __bool__(self):
            raise NotImplementedError("Database objects do not implement truth value testing")

    class MongoClient:
        def __init__(self, host=None, port=None, document_class=dict, tz_aware=None, connect=None, tzinfo=None, **k):
            s = sim()
            self.sim = s
            self.host = host
            if s is not None:
                s.sql_conns = self.number = getattr(s, "sql_conns", 0) + 1
            if isinstance(host, str) and "tz_aware=true" in host.lower() and tz_aware is None:
                tz_aware = True
            if tzinfo is not None and not tz_aware:
                raise ValueError("cannot specify tzinfo without also setting tz_aware=True")
            self.opt = CodecOptions(tz_aware=bool(tz_aware), tzinfo=tzinfo)
            self.codec_options = self.opt

        def _check(self, verb):
            s = self.sim
            if s is None or s.server.kind != "mongodb":
                raise er.ServerSelectionTimeoutError("localhost:27017: [Errno 111] Connection refused")
            if s.in_child:
                s.sql_child = True
            the_point(verb)
            if s.server.broken >= self.number:
                # the pool is emptied; the next operation connects again
                s.sql_conns = self.number = s.sql_conns + 1
                raise er.AutoReconnect("connection closed")

        def __getitem__(self, n):
            return Database(self, n, self.opt)

        def __getattr__(self, n):
            if n.startswith("_"):
                raise AttributeError(n)
            return Database(self, n, self.opt)

        def get_database(self, name=None, codec_options=None, **k):
            return Database(self, name or self.default_name(), codec_options or self.opt)

        def get_default_database(self, default=None, codec_options=None, **k):
            return Database(self, self.default_name() or default, codec_options or self.opt)

        def default_name(self):
            mt = re.match(r"^mongodb(?:\+srv)?://[^/]+/([^?]+)", self.host or "")
            return mt.group(1) if mt else None

        def close(self):
            pass

        def server_info(self):
            self._check("command")
            return {"version": "6.0.0"}

        def __enter__(self):
            return self

        def __exit__(self, *a):
            pass

    m.MongoClient = MongoClient
    m.ASCENDING, m.DESCENDING = 1, -1
    m.errors = er
    m.version = "4.6.0"
    m.version_tuple = (4, 6, 0)
    class BSON(bytes):
        @classmethod
        def encode(cls, doc, check_keys=False, codec_options=None):
            if not isinstance(doc, dict):
                raise TypeError("encode expected a mapping type but got: %r" % (doc,))
            return cls(repr(enc(doc)).encode("utf-8"))

        def decode(self, codec_options=None):
            raise be.InvalidDocument("not simulated")

    b.BSON = BSON
    b.encode = BSON.encode
    b.CodecOptions = bc.CodecOptions = CodecOptions
    b.codec_options, b.errors = bc, be
    b.ObjectId = ObjectId
    for mod in (m, er, b, bc, be):
        sys.modules[mod.__name__] = mod


class BDate(int):
    """A date in a document, in milliseconds."""


_epoch = epoch


def epoch(v):      # noqa: F811
    if isinstance(v, BDate):
        return int(v) / 1000
    return _epoch(v)


def stored_ms(t):      # noqa: F811
    return BDate(math.floor(round(t * 1e6) / 1000))


def install():
    make_psycopg2()
    make_mysqldb()
    make_pymongo()
