"""Symbolic stand-ins for datetime values: wall-clock seconds since 1970 and microseconds, proleptic Gregorian calendar.
The tz database package (pytz) runs natively on them: every comparison it makes is a branch."""
import datetime

import z3

from sx import core, rt
from sx.values import SymInt, SymReal, SymBool, is_sym, mkbool

EPOCH = datetime.datetime(1970, 1, 1)
ONE = datetime.timedelta(seconds=1)
LO = (datetime.datetime.min - EPOCH) // ONE
HI = (datetime.datetime.max - EPOCH) // ONE


def _i(x):
    if type(x) is SymInt:
        return x.e
    if type(x) is SymBool:
        return x._int().e
    if is_sym(x):
        raise TypeError("integer argument expected")
    return z3.IntVal(int(x))


def _ite(p, a, b):
    return SymInt(z3.If(p.e if type(p) is SymBool else p, _i(a), _i(b)))


def civil(days):
    """(year, month, day) of a day number since 1970-01-01."""
    z = days + 719468
    era = z // 146097
    doe = z - era * 146097
    yoe = (doe - doe // 1460 + doe // 36524 - doe // 146096) // 365
    yy = yoe + era * 400
    doy = doe - (365 * yoe + yoe // 4 - yoe // 100)
    mp = (5 * doy + 2) // 153
    m = _ite(mp < 10, mp + 3, mp - 9)
    return _ite(m <= 2, yy + 1, yy), m, doy - (153 * mp + 2) // 5 + 1


def leap(y):
    return z3.And((y % 4 == 0).e, z3.Or((y % 100 != 0).e, (y % 400 == 0).e))


CUM = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334]


def before(m, y):
    out = 0
    for k, n in enumerate(CUM):
        out = _ite(m == k + 1, n, out)
    return out + _ite(z3.And((m > 2).e, leap(y)), 1, 0)


def days_from_civil(y, m, d):
    k = y - 1
    return k * 365 + k // 4 - k // 100 + k // 400 + before(m, y) + d - 1 - 719162


def parts(x):
    """(seconds, microseconds) as SymInts or ints of a delta or naive wall clock."""
    if isinstance(x, datetime.timedelta):
        return x // ONE, (x % ONE).microseconds
    if isinstance(x, datetime.datetime) and type(x) is not SymDatetime:
        return parts(x.replace(tzinfo=None) - EPOCH)
    return x.s, x.u


def norm(s, u):
    """carry microseconds into seconds"""
    if not is_sym(u):
        return s + u // 1000000, u % 1000000
    return s + u // 1000000, u % 1000000


def compare(a, b, op):
    (s, u), (t, v) = a, b
    if not is_sym(u) and not is_sym(v) and u == v:
        x, y = _i(s), _i(t)
    else:
        x, y = _i(s) * 1000000 + _i(u), _i(t) * 1000000 + _i(v)
    return mkbool(op(x, y))


class Ordered(object):
    def _cmp(self, o, op):
        p = self._pair(o)
        return NotImplemented if p is NotImplemented else compare(p[0], p[1], op)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __hash__(self):
        return 0


class SymDelta(Ordered):
    def __init__(self, s, u):
        self.s, self.u = norm(s, u)

    def total_seconds(self):
        s = SymReal(z3.ToReal(_i(self.s)))
        return s if not is_sym(self.u) and self.u == 0 else SymReal(s.e + z3.ToReal(_i(self.u)) / 1000000)

    def _pair(self, o):
        return (parts(self), parts(o)) if isinstance(o, (datetime.timedelta, SymDelta)) else NotImplemented

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b)

    def __add__(self, o):
        s, u = parts(o)
        return SymDelta(self.s + s, self.u + u)
    __radd__ = __add__

    def __sub__(self, o):
        s, u = parts(o)
        return SymDelta(self.s - s, self.u - u)

    __hash__ = Ordered.__hash__
    days = property(lambda x: x.s // 86400)
    seconds = property(lambda x: x.s % 86400)
    microseconds = property(lambda x: x.u)


class SymDatetime(Ordered):
    def __init__(self, s, u, tzinfo=None):
        self.s, self.u, self.tzinfo, self._civil = s, u, tzinfo, None

    @property
    def __class__(self):
        return datetime.datetime

    def _shift(self, delta, tzinfo, sign=1):
        ds, du = parts(delta)
        s, u = norm(self.s + sign * ds, self.u + sign * du)
        if not core.CTX.branch(z3.And(_i(s) >= LO, _i(s) <= HI)):
            raise OverflowError("date value out of range")
        return SymDatetime(s, u, tzinfo)

    def civil(self):
        if self._civil is None:
            self._civil = civil(self.s // 86400)
        return self._civil

    year = property(lambda x: x.civil()[0])
    month = property(lambda x: x.civil()[1])
    day = property(lambda x: x.civil()[2])
    hour = property(lambda x: x.s % 86400 // 3600)
    minute = property(lambda x: x.s % 3600 // 60)
    second = property(lambda x: x.s % 60)
    microsecond = property(lambda x: x.u)

    def weekday(self):
        return (self.s // 86400 + 3) % 7

    def isoweekday(self):
        return self.weekday() + 1

    def timetuple(self):
        return SymTuple(self)

    def utcoffset(self):
        return None if self.tzinfo is None else self.tzinfo.utcoffset(self)

    def replace(self, **k):
        if set(k) - {"tzinfo"}:
            core.CTX.unsupported("datetime.replace")
        return SymDatetime(self.s, self.u, k["tzinfo"])

    def date(self):
        core.CTX.unsupported("datetime.date")

    def _utc(self):
        s, u = parts(self.utcoffset())
        return norm(self.s - s, self.u - u)

    def astimezone(self, tz=None):
        if tz is None:
            core.CTX.unsupported("astimezone()")
        if self.tzinfo is tz:
            return self
        return local(self._shift(self.utcoffset(), tz, -1), tz)

    def timestamp(self):
        return SymDelta(*self._utc()).total_seconds()

    def __add__(self, o):
        if isinstance(o, (datetime.timedelta, SymDelta)):
            return self._shift(o, self.tzinfo)
        return NotImplemented
    __radd__ = __add__

    def _pair(self, o):
        if not isinstance(o, datetime.datetime):
            return NotImplemented
        aware = self.tzinfo is not None
        if aware != (o.tzinfo is not None):
            raise TypeError("can't compare offset-naive and offset-aware datetimes")
        if not aware:
            return parts(self), parts(o)
        if type(o) is SymDatetime:
            return self._utc(), o._utc()
        s, u = parts(o)
        t, v = parts(o.utcoffset())
        return self._utc(), norm(s - t, u - v)

    def __sub__(self, o):
        if isinstance(o, (datetime.timedelta, SymDelta)):
            return self._shift(o, self.tzinfo, -1)
        (s, u), (t, v) = self._pair(o)
        return SymDelta(s - t, u - v)

    def __rsub__(self, o):
        (s, u), (t, v) = self._pair(o)
        return SymDelta(t - s, v - u)

    __hash__ = Ordered.__hash__

    def __eq__(self, o):
        if self is o:
            return True
        if not isinstance(o, datetime.datetime) or (self.tzinfo is None) != (o.tzinfo is None):
            return False
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        r = self.__eq__(o)
        return mkbool(z3.Not(r.e)) if type(r) is SymBool else not r


class SymTuple(object):
    def __init__(self, d):
        self.d = d
        self.tm_year, self.tm_mon, self.tm_mday = d.year, d.month, d.day
        self.tm_hour, self.tm_min, self.tm_sec = d.hour, d.minute, d.second
        self.tm_wday = d.weekday()
        self.tm_yday = before(d.month, d.year) + d.day
        self.tm_isdst = -1

    def __getitem__(self, i):
        return [self.tm_year, self.tm_mon, self.tm_mday, self.tm_hour, self.tm_min, self.tm_sec, self.tm_wday, self.tm_yday, self.tm_isdst][i]


def local(utc, tz):
    """tz.fromutc, with the simple zones that only say their offset."""
    if isinstance(tz, datetime.tzinfo) and type(tz).fromutc is datetime.tzinfo.fromutc:
        return utc._shift(tz.utcoffset(utc), tz)
    return tz.fromutc(utc)


def m_fromtimestamp(ts, tz=None):
    if not is_sym(ts) and not is_sym(tz):
        return datetime.datetime.fromtimestamp(ts, tz)
    c = core.CTX
    if tz is None:
        c.unsupported("fromtimestamp in the local zone")
    if isinstance(ts, float):
        x = z3.simplify(rt.m_float(ts).e)
        if x.sort() != z3.RealSort():
            c.unsupported("fromtimestamp of a floating-point value")
        frac, whole = 0, None
        terms = x.children() if z3.is_add(x) else [x]
        for t in terms:
            if z3.is_rational_value(t):
                frac += t.as_fraction()
            elif z3.is_app_of(t, z3.Z3_OP_TO_REAL):
                whole = t.arg(0) if whole is None else whole + t.arg(0)
            else:
                whole = None
                break
        if whole is not None:   # a whole number of seconds and a constant
            u = round(frac * 1000000)
            s, u = norm(SymInt(whole), u)
        else:
            us = z3.ToInt(x * 1000000 + z3.RealVal("1/2"))   # to the nearest microsecond
            s, u = norm(0, SymInt(us))
    else:
        s, u = SymInt(_i(ts)), 0
    if not c.branch(z3.And(_i(s) >= LO, _i(s) <= HI)):
        raise ValueError("year is out of range")
    return local(SymDatetime(s, u, tz), tz)


def m_datetime(year, month=None, day=None, hour=0, minute=0, second=0, microsecond=0, tzinfo=None, **k):
    vals = [year, month, day, hour, minute, second, microsecond]
    if not any(is_sym(v) for v in vals):
        return datetime.datetime(*vals, tzinfo=tzinfo, **k)
    c = core.CTX
    y, m, d, h, mi, s, us = [_i(v) for v in vals]
    for ok, what in ((z3.And(y >= 1, y <= 9999), "year"), (z3.And(m >= 1, m <= 12), "month")):
        if not c.branch(ok):
            raise ValueError(what + " is out of range")
    dim = z3.If(m == 2, z3.If(leap(SymInt(y)), 29, 28), z3.If(z3.Or(m == 4, m == 6, m == 9, m == 11), 30, 31))
    for ok, what in ((z3.And(d >= 1, d <= dim), "day"), (z3.And(h >= 0, h <= 23), "hour"), (z3.And(mi >= 0, mi <= 59), "minute"), (z3.And(s >= 0, s <= 59), "second"), (z3.And(us >= 0, us <= 999999), "microsecond")):
        if not c.branch(ok):
            raise ValueError(what + " is out of range")
    y, m, d, h, mi, s = [SymInt(v) for v in (y, m, d, h, mi, s)]
    return SymDatetime(days_from_civil(y, m, d) * 86400 + h * 3600 + mi * 60 + s, SymInt(us) if is_sym(microsecond) else microsecond, tzinfo)


rt.MODELS[datetime.datetime] = m_datetime
rt.MODELS[datetime.datetime.fromtimestamp] = m_fromtimestamp
