"""Independent reference for job schedules: which instants a schedule names.
Shares no code with dsari, croniter or dateutil."""
import binascii
import datetime as D
import re
from functools import lru_cache
from zoneinfo import ZoneInfo

EPOCH = D.date(1970, 1, 1)
UTC = D.timezone.utc
RANGES = ((0, 59), (0, 23), (1, 31), (1, 12), (0, 6), (0, 59))
UNSURE = "unsure"           # next to a DST change: this reference takes no position


def crc(name):
    return binascii.crc32(name.encode("utf-8")) & 0xFFFFFFFF


def offset(name):
    """Each job's fixed sub-second offset."""
    return crc(name) / 0xFFFFFFFF


ALIAS = {"@midnight": "H H(0-2) * * * H", "@hourly": "H * * * * H", "@daily": "H H * * * H",
         "@weekly": "H H * * H H", "@monthly": "H H H * * H", "@yearly": "H H H H * H",
         "@annually": "H H H H * H"}


def hashed(name, pos, lo, hi):
    return ((crc(name) >> pos) % (hi - lo + 1)) + lo


def field(txt, pos, name):
    lo, hi = RANGES[pos]
    out = set()
    for part in txt.split(","):
        if part == "H":
            out.add(hashed(name, pos, lo, hi))
            continue
        m = re.fullmatch(r"H\((\d+)-(\d+)\)/(\d+)", part)
        if m:
            a, b, n = map(int, m.groups())
            # hashed start within one step
            out.update(range(hashed(name, pos, lo, n) % n + a, b + 1, n))
            continue
        m = re.fullmatch(r"H\((\d+)-(\d+)\)", part)
        if m:
            out.add(hashed(name, pos, int(m.group(1)) or lo, int(m.group(2))))
            continue
        m = re.fullmatch(r"H/(\d+)", part)
        if m:
            n = int(m.group(1))
            out.update(range((hashed(name, pos, lo, n) - lo) % n + lo, hi + 1, n))
            continue
        step = 1
        if "/" in part:
            part, s = part.split("/")
            step = int(s)
        if part == "*":
            a, b = lo, hi
        elif "-" in part:
            a, b = map(int, part.split("-"))
        else:
            a = b = int(part)
        out.update(range(a, b + 1, step))
    if pos == 4:
        out = {0 if v == 7 else v for v in out}
    return frozenset(out)


@lru_cache(maxsize=4000)
def parse(expr, name):
    expr = ALIAS.get(expr, expr)
    f = expr.split(" ")
    if len(f) == 5:
        f.append("H")
    assert len(f) == 6, expr
    return [field(f[i], i, name) for i in range(6)], f[2] == "*", f[4] == "*"


@lru_cache(maxsize=64)
def zone(name):
    return ZoneInfo(name)


def off_at(tz, e):
    return D.datetime.fromtimestamp(e, tz).utcoffset().total_seconds()


@lru_cache(maxsize=200000)
def shaky(tzname, h):
    """Is there an offset change within three hours of hour h (since the epoch)?"""
    tz = zone(tzname)
    e = h * 3600
    return off_at(tz, e - 4 * 3600) != off_at(tz, e + 4 * 3600)


def to_epoch(tz, naive):
    return naive.replace(tzinfo=tz).timestamp()


def cron_after(expr, name, tzname, x):
    """First instant named by the expression strictly after epoch x."""
    (mi, ho, dom, mon, dow, se), dom_any, dow_any = parse(expr, name)
    tz = zone(tzname)
    start = D.datetime.fromtimestamp(x, tz).replace(tzinfo=None)
    if shaky(tzname, int(x // 3600)):
        return UNSURE
    mis, hos, ses = sorted(mi), sorted(ho), sorted(se)
    day = start.date()
    for _ in range(366 * 9):
        ok = day.month in mon
        if ok:
            a, b = day.day in dom, (day.isoweekday() % 7) in dow
            ok = (a or b) if not (dom_any or dow_any) else (a and b)
        if ok:
            first = day == start.date()
            for h in hos:
                if first and h < start.hour:
                    continue
                for m in mis:
                    if first and h == start.hour and m < start.minute:
                        continue
                    for s in ses:
                        c = D.datetime(day.year, day.month, day.day, h, m, s)
                        if c > start:
                            e = to_epoch(tz, c)
                            if shaky(tzname, int(e // 3600)):
                                return UNSURE
                            if len(hos) > 1 and off_at(tz, e) != off_at(tz, x):
                                return UNSURE
                            return e
        day += D.timedelta(days=1)
    return None


WD = ("MO", "TU", "WE", "TH", "FR", "SA", "SU")
UNIT = {"SECONDLY": 1, "MINUTELY": 60, "HOURLY": 3600, "DAILY": 86400, "WEEKLY": 604800}


@lru_cache(maxsize=4000)
def rparse(expr):
    p = dict(kv.split("=") for kv in expr[6:].split(";"))
    ints = {k: tuple(sorted(int(v) for v in p[k].split(","))) for k in
            ("BYMONTH", "BYMONTHDAY", "BYHOUR", "BYMINUTE", "BYSECOND", "BYSETPOS") if k in p}
    days = None
    if "BYDAY" in p:
        days = []
        for v in p["BYDAY"].split(","):
            days.append((WD.index(v[-2:]), int(v[:-2]) if v[:-2] else None))
    left = set(p) - set(ints) - {"FREQ", "INTERVAL", "UNTIL", "BYDAY"}
    if left:
        raise ValueError(expr)
    return p["FREQ"], int(p.get("INTERVAL", 1)), p.get("UNTIL"), ints, days


def month_len(y, m):
    return (D.date(y + m // 12, m % 12 + 1, 1) - D.date(y, m, 1)).days


def rrule_after(expr, name, tzname, x):
    freq, n, until, ints, days = rparse(expr)
    tz = zone(tzname)
    c = crc(name)
    lim = None
    if until:
        u = D.datetime.strptime(until.rstrip("Z"), "%Y%m%dT%H%M%S")
        lim = u.replace(tzinfo=UTC).timestamp() if until.endswith("Z") else to_epoch(tz, u)
    if shaky(tzname, int(x // 3600)):
        return UNSURE
    # the job's own position, by the clock of the timezone
    cday, csec = divmod(c, 86400)
    hs_, ms_, ss_ = csec // 3600, csec % 3600 // 60, csec % 60
    wall = D.datetime.fromtimestamp(x, tz).replace(tzinfo=None)
    mdays, months = ints.get("BYMONTHDAY"), ints.get("BYMONTH")
    if not (mdays or days):
        if freq == "YEARLY":
            months = months or (1 + cday // 28 % 12,)
        if freq in ("YEARLY", "MONTHLY"):
            mdays = (1 + cday % 28,)
        elif freq == "WEEKLY":
            days = [((cday + 3) % 7, None)]
    coarse = freq in ("DAILY", "WEEKLY", "MONTHLY", "YEARLY")

    def day_ok(d):
        k = (d - EPOCH).days
        if freq == "DAILY" and (k - cday) % n:
            return False
        if freq == "WEEKLY" and ((k + 3) // 7 - (cday + 3) // 7) % n:
            return False
        if freq == "MONTHLY" and (d.year * 12 + d.month - 1 - c) % n:
            return False
        if freq == "YEARLY" and (d.year - c) % n:
            return False
        if months and d.month not in months:
            return False
        if mdays and d.day not in mdays and d.day - month_len(d.year, d.month) - 1 not in mdays:
            return False
        if days:
            first = (d.day - 1) // 7 + 1
            last = -((month_len(d.year, d.month) - d.day) // 7 + 1)
            if not any(d.weekday() == w and (o is None or o in (first, last)) for w, o in days):
                return False
        return True

    def days_ok(d):
        """Of those of the month, the ones at the positions asked for."""
        pos = ints.get("BYSETPOS")
        if not pos:
            return day_ok(d)
        assert freq == "MONTHLY" and not set(ints) & {"BYHOUR", "BYMINUTE", "BYSECOND"}, expr
        all_ = [q for q in range(1, month_len(d.year, d.month) + 1) if day_ok(D.date(d.year, d.month, q))]
        return d.day in [all_[q - 1 if q > 0 else q] for q in pos if abs(q) <= len(all_)]

    hs = ints.get("BYHOUR") or ((hs_,) if coarse else range(24))
    ms = ints.get("BYMINUTE") or ((ms_,) if coarse or freq == "HOURLY" else range(60))
    ss = ints.get("BYSECOND") or ((ss_,) if freq != "SECONDLY" else range(60))
    day = wall.date()
    for _ in range(366 * 10):
        first = day == wall.date()
        if days_ok(day):
            k = (day - EPOCH).days * 86400
            for h in hs:
                if first and h < wall.hour or freq == "HOURLY" and ((k + h * 3600) // 3600 - c // 3600) % n:
                    continue
                for m in ms:
                    if first and (h, m) < (wall.hour, wall.minute):
                        continue
                    if freq == "MINUTELY" and ((k + h * 3600 + m * 60) // 60 - c // 60) % n:
                        continue
                    for s in ss:
                        if freq == "SECONDLY" and (k + h * 3600 + m * 60 + s - c) % n:
                            continue
                        w = D.datetime(day.year, day.month, day.day, h, m, s)
                        if w <= wall:
                            continue
                        e = to_epoch(tz, w)
                        if shaky(tzname, int(e // 3600)) or not coarse and off_at(tz, x) != off_at(tz, e):
                            return UNSURE
                        if len(hs) > 1 and off_at(tz, x) != off_at(tz, e):
                            return UNSURE
                        return None if lim is not None and e > lim else float(e)
        day += D.timedelta(days=1)
    return None


def after(expr, name, tzname, x):
    """First occurrence (without the sub-second offset) strictly after x."""
    if expr.startswith("RRULE:"):
        return rrule_after(expr, name, tzname, x)
    return cron_after(expr, name, tzname, x)
