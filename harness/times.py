"""C28 time functions (titus/lib/pfatime.py) against the calendar."""
from harness.lib import *

LO, HI = -62135596800, 253402300799
D = "double"
FRACTION = [0.0, 0.25, 0.5, 0.999]

# offsets in force, as UTC intervals [from, to) -> seconds, in the window 2015-01-01 .. 2017-01-01
W0, W1 = 1420070400, 1483228800
ZONES = {
    "": [(LO, HI + 1, 0)], "Etc/UTC": [(LO, HI + 1, 0)], "Etc/GMT+5": [(LO, HI + 1, -18000)], "Etc/GMT-14": [(LO, HI + 1, 50400)],
    "Asia/Kolkata": [(W0, W1, 19800)], "Asia/Kathmandu": [(W0, W1, 20700)],
    "Europe/Paris": [(W0, 1427590800, 3600), (1427590800, 1445734800, 7200), (1445734800, 1459040400, 3600), (1459040400, 1477789200, 7200), (1477789200, W1, 3600)],
    "America/New_York": [(W0, 1425798000, -18000), (1425798000, 1446357600, -14400), (1446357600, 1457852400, -18000), (1457852400, 1478412000, -14400), (1478412000, W1, -18000)],
    "Australia/Sydney": [(W0, 1428163200, 39600), (1428163200, 1443888000, 36000), (1443888000, 1459612800, 39600), (1459612800, 1475337600, 36000), (1475337600, W1, 39600)],
}
FIXED = ["", "Etc/UTC", "Etc/GMT+5", "Etc/GMT-14"]


def civil(days):
    """(year, month, day) of a day number since 1970-01-01."""
    z = days + 719468
    era = z // 146097
    doe = z - era * 146097
    yoe = (doe - doe // 1460 + doe // 36524 - doe // 146096) // 365
    yy = yoe + era * 400
    doy = doe - (365 * yoe + yoe // 4 - yoe // 100)
    mp = (5 * doy + 2) // 153
    return yy, mp, doy - (153 * mp + 2) // 5 + 1    # mp counts months from March


def leap(c, y):
    return c.and_(y % 4 == 0, c.or_(y % 100 != 0, y % 400 == 0))


CUM = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334]


def before(c, m, y):
    """Days of the year before month m."""
    out = 0
    for k, n in enumerate(CUM):
        out = c.ite(m == k + 1, n, out)
    return out + c.ite(c.and_(m > 2, leap(c, y)), 1, 0)


def fields(c, wall):
    days = wall // 86400
    y, mp, d = civil(days)
    m = c.ite(mp < 10, mp + 3, mp - 9)
    y = c.ite(m <= 2, y + 1, y)
    return {"year": lambda: y, "monthOfYear": lambda: m, "dayOfMonth": lambda: d, "dayOfYear": lambda: before(c, m, y) + d, "dayOfWeek": lambda: (days + 3) % 7,
            "hourOfDay": lambda: wall % 86400 // 3600, "minuteOfHour": lambda: wall % 3600 // 60, "secondOfMinute": lambda: wall % 60}


def offset(c, zone, s):
    for a, b, o in ZONES[zone]:
        if s < b:
            return o
    return o


def stamp(c, zone):
    """(timestamp, whole seconds of it)"""
    lo, hi = (LO - 3, HI + 3) if zone in FIXED else (W0, W1 - 1)
    s = c.int("s", lo, hi)
    f = c.choice("fraction", FRACTION)
    return (s if f == 0.0 else s + f), s


GET = {"year": 40000, "monthOfYear": 40010, "dayOfYear": 40020, "dayOfMonth": 40030, "dayOfWeek": 40040, "hourOfDay": 40050, "minuteOfHour": 40060, "secondOfMinute": 40070}
IS = {"SecondOfMinute": 40090, "MinuteOfHour": 40100, "HourOfDay": 40110, "DayOfWeek": 40120, "DayOfMonth": 40130, "MonthOfYear": 40140, "DayOfYear": 40150}


def wall(c, zone, ts, s, err):
    if c.or_(ts < LO, ts > HI):
        raise Err(err)
    w = s + offset(c, zone, s)
    if c.or_(w < LO, w > HI):
        raise Err(err)
    return w


def getter(name, base, zones):
    def setup():
        return fn_engine({"ts": D, "zone": "string"}, "int", {"time." + name: ["input.ts", "input.zone"]})

    def fn(c, env):
        zone = c.choice("zone", zones)
        ts, s = stamp(c, zone)
        want = oracle_outcome(lambda: fields(c, wall(c, zone, ts, s, base + 1))[name]())
        agree(c, act(env, {"ts": ts, "zone": zone}), want, "time." + name)
    return Job("time." + name, fn, setup, limit=200, bound="all times to the second with four fractions; years 1 to 9999 in fixed zones, 2015 and 2016 in zones with summer time")


def range_of(name, base, zones):
    def setup():
        return fn_engine({"ts": D, "zone": "string", "low": D, "high": D}, "boolean", {"time.is" + name: ["input.ts", "input.zone", "input.low", "input.high"]})

    def fn(c, env):
        zone = c.choice("zone", zones)
        ts, s = stamp(c, zone)
        low, high = c.real("low", -10, 400), c.real("high", -10, 400)

        def oracle():
            if low >= high:
                raise Err(base)
            v = fields(c, wall(c, zone, ts, s, base + 2))[name[0].lower() + name[1:]]()
            return c.and_(low <= v, v < high)
        agree(c, act(env, {"ts": ts, "zone": zone, "low": low, "high": high}), oracle_outcome(oracle), "time.is" + name)
    return Job("time.is" + name, fn, setup, limit=200, bound="any interval, times as above")


def predicate(name, base, zones, oracle):
    def setup():
        return fn_engine({"ts": D, "zone": "string"}, "boolean", {"time." + name: ["input.ts", "input.zone"]})

    def fn(c, env):
        zone = c.choice("zone", zones)
        ts, s = stamp(c, zone)
        agree(c, act(env, {"ts": ts, "zone": zone}), oracle_outcome(lambda: oracle(c, wall(c, zone, ts, s, base + 1))), "time." + name)
    return Job("time." + name, fn, setup, limit=200)


def days_of(c, y, m, d):
    """Days since 1970-01-01, counted from the year's start."""
    k = y - 1
    return k * 365 + k // 4 - k // 100 + k // 400 + before(c, m, y) + d - 1 - 719162


def make(zones, deep):
    def setup():
        P = ["year", "month", "day", "hour", "minute", "second", "millisecond"]
        return fn_engine(dict([(p, "int") for p in P] + [("zone", "string")]), D, {"time.makeTimestamp": ["input." + p for p in P + ["zone"]]})

    def fn(c, env):
        zone = c.choice("zone", zones)
        edge = c.choice("free", ["date", "clock", "all"])
        v = {"zone": zone}
        wide = zone in FIXED
        v["year"] = c.int("year") if edge != "clock" and wide else c.int("year", 2015, 2016)
        v["month"] = c.int("month") if edge != "clock" else c.choice("month", [1, 2, 12])
        v["day"] = c.int("day") if edge != "clock" else c.choice("day", [1, 28])
        for k in ("hour", "minute", "second", "millisecond"):
            v[k] = c.int(k) if edge != "date" else c.choice(k, [0, 500] if k == "millisecond" else [0, 1])
        y, m, d = v["year"], v["month"], v["day"]
        dim = c.ite(m == 2, c.ite(leap(c, y), 29, 28), c.ite(c.or_(m == 4, m == 6, m == 9, m == 11), 30, 31))
        ok = c.and_(y >= 1, y <= 9999, m >= 1, m <= 12, d >= 1, d <= dim, v["hour"] >= 0, v["hour"] < 24, v["minute"] >= 0, v["minute"] < 60, v["second"] >= 0, v["second"] < 60, v["millisecond"] >= 0, v["millisecond"] < 1000)
        got = act(env, v)
        if not ok:
            agree(c, got, ("err", 40081), "time.makeTimestamp")
            return
        w = days_of(c, y, m, d) * 86400 + v["hour"] * 3600 + v["minute"] * 60 + v["second"]
        spans = ZONES[zone]
        if len(spans) == 1:
            s = w - spans[0][2]
            if c.or_(s < LO, s > HI):
                agree(c, got, ("err", 40081), "time.makeTimestamp")
                return
            agree(c, got, ("ok", s + v["millisecond"] / 1000.0), "time.makeTimestamp")
            return
        # the instant with that wall time, where there is exactly one in the window
        n = 0
        for a, b, o in spans:
            n = n + c.ite(c.and_(w - o >= a, w - o < b), 1, 0)
        if c.or_(n != 1, w < W0 + 86400 * 2, w > W1 - 86400 * 2):
            return
        s = w
        for a, b, o in spans:
            s = c.ite(c.and_(w - o >= a, w - o < b), w - o, s)
        agree(c, got, ("ok", s + v["millisecond"] / 1000.0), "time.makeTimestamp")
    return Job("time.makeTimestamp", fn, setup, limit=250, bound="any int arguments; zones with summer time in 2015 and 2016, away from repeated and skipped hours")


def zones_refused(c, env):
    z = c.choice("zone", ["Nowhere/Land", "x", "europe paris", " "])
    which = c.choice("function", sorted(env.all))
    e, code, args = env.all[which]
    v = {"ts": c.int("s", LO, HI), "zone": z, "low": 0.5, "high": 1.5}
    agree(c, act(e, dict((k, v[k]) for k in args)), ("err", code), "unknown zone")


def zones_setup():
    class Es(object):
        pass
    e = Es()
    e.all = {}
    for n, b in GET.items():
        e.all[n] = (fn_engine({"ts": D, "zone": "string"}, "int", {"time." + n: ["input.ts", "input.zone"]}), b, ["ts", "zone"])
    for n, b in (("isWeekend", 40160), ("isWorkHours", 40170)):
        e.all[n] = (fn_engine({"ts": D, "zone": "string"}, "boolean", {"time." + n: ["input.ts", "input.zone"]}), b, ["ts", "zone"])
    for n, b in IS.items():
        e.all["is" + n] = (fn_engine({"ts": D, "zone": "string", "low": D, "high": D}, "boolean", {"time.is" + n: ["input.ts", "input.zone", "input.low", "input.high"]}), b + 1, ["ts", "zone", "low", "high"])
    e.all["make"] = (fn_engine({"ts": "long", "zone": "string"}, D, {"time.makeTimestamp": [2015, 1, 1, 0, 0, 0, 0, "input.zone"]}), 40080, ["ts", "zone"])
    return e


def jobs(tier):
    deep = tier == "thorough"
    zs = list(ZONES) if deep else ["", "Etc/GMT+5", "Asia/Kolkata", "Europe/Paris", "Australia/Sydney"]
    few = zs if deep else ["", "America/New_York"]
    for n, b in GET.items():
        yield getter(n, b, zs)
    for n, b in IS.items():
        yield range_of(n, b, few)
    yield predicate("isWeekend", 40160, few, lambda c, w: (w // 86400 + 3) % 7 >= 5)
    yield predicate("isWorkHours", 40170, few, lambda c, w: c.and_((w // 86400 + 3) % 7 < 5, w % 86400 >= 9 * 3600, w % 86400 < 17 * 3600))
    yield make(zs, deep)
    yield Job("unknown zones", zones_refused, zones_setup)
