"""C19: dates, times, datetimes, timedeltas: in bounds, valid, bounds reachable, time zones."""
import datetime as dt
import zoneinfo
from pyvc.runtime import RT
from rt.draw import draw, redraw
from hypothesis import strategies as st
from hypothesis.errors import InvalidArgument
from hypothesis.internal.conjecture.data import ConjectureData

DATES = [dt.date.min, dt.date.max, dt.date(2000, 1, 1), dt.date(2000, 2, 29), dt.date(1999, 12, 31), dt.date(2001, 2, 28), dt.date(2100, 2, 28), dt.date(2000, 1, 31), dt.date(2000, 3, 1), dt.date(1999, 2, 28), dt.date(2023, 11, 30), dt.date(2024, 2, 29)]
TIMES = [dt.time.min, dt.time.max, dt.time(0, 0, 0, 1), dt.time(23, 59), dt.time(12), dt.time(12, 0, 59, 999999), dt.time(1, 0), dt.time(0, 59, 59), dt.time(2, 30)]
ZONES = [n for n in ("Europe/Dublin", "America/New_York", "Australia/Lord_Howe", "UTC", "Asia/Kathmandu", "Pacific/Apia", "Africa/Monrovia") if n in zoneinfo.available_timezones()]


def rdate(rng):
    return rng.choice(DATES) if rng.random() < .6 else dt.date.fromordinal(rng.randint(1, dt.date.max.toordinal()))


def rtime(rng):
    return rng.choice(TIMES) if rng.random() < .6 else dt.time(rng.randrange(24), rng.randrange(60), rng.randrange(60), rng.randrange(10**6))


def rdelta(rng):
    return rng.choice([dt.timedelta.min, dt.timedelta.max, dt.timedelta(0), dt.timedelta(microseconds=1), dt.timedelta(microseconds=-1), dt.timedelta(days=1), dt.timedelta(days=-1), dt.timedelta(seconds=86399, microseconds=999999), dt.timedelta(days=-1, seconds=1),
                       dt.timedelta(days=rng.randint(-5, 5), seconds=rng.randrange(86400), microseconds=rng.randrange(10**6))])


def near(rng, x):
    "x moved a little"
    try:
        if isinstance(x, dt.datetime):
            return x + rng.choice([dt.timedelta(0), dt.timedelta(microseconds=1), dt.timedelta(seconds=1), dt.timedelta(minutes=1), dt.timedelta(hours=1), dt.timedelta(days=1), dt.timedelta(days=31), dt.timedelta(days=366)])
        if isinstance(x, dt.date):
            return x + dt.timedelta(days=rng.choice([0, 1, 2, 27, 31, 366, 1500]))
        if isinstance(x, dt.timedelta):
            return x + rng.choice([dt.timedelta(0), dt.timedelta(microseconds=1), dt.timedelta(seconds=1), dt.timedelta(days=1), dt.timedelta(seconds=86399)])
    except OverflowError:
        pass
    return x


def g(rng):
    kind = rng.choice(["date", "time", "datetime", "timedelta"])
    f = {"date": rdate, "time": rtime, "timedelta": rdelta, "datetime": lambda r: dt.datetime.combine(rdate(r), rtime(r))}[kind]
    a = f(rng)
    b = near(rng, a) if rng.random() < .5 else f(rng)
    return kind, min(a, b), max(a, b), rng.choice([0, 0, 0, 1, 2, 3]), rng.choice([None, None] + ZONES), rng.random() < .5, rng.random() < .7, rng.getrandbits(32)


KW = [lambda a, b: (a, b), lambda a, b: (a, None), lambda a, b: (None, b), lambda a, b: (None, None)]


def p(args):
    kind, a, b, open_, zone, imaginary, edge, seed = args
    lo, hi = KW[open_](a, b)
    kw = {k: v for k, v in (("min_value", lo), ("max_value", hi)) if v is not None}
    tz = None
    if zone and kind in ("time", "datetime"):
        tz = zoneinfo.ZoneInfo(zone)
        kw["timezones"] = st.just(tz)
    if kind == "datetime" and not imaginary:
        kw["allow_imaginary"] = False
    T = {"date": dt.date, "time": dt.time, "datetime": dt.datetime, "timedelta": dt.timedelta}[kind]
    lo = T.min if lo is None else lo
    hi = T.max if hi is None else hi
    s = getattr(st, kind + "s")(**kw)
    what = f"{kind}s({kw})"
    for k in range(8):
        st_, v, data = draw(s, seed + k, edge)
        if st_ != "ok":
            continue
        if type(v) is not T:
            return f"{what} gave a {type(v).__name__}: {v!r}"
        naive = v.replace(tzinfo=None) if kind in ("time", "datetime") else v
        if not lo <= naive <= hi:
            return f"{what} gave {v!r}"
        if kind in ("time", "datetime") and v.tzinfo is not tz:
            return f"{what} gave {v!r} with another time zone"
        if kind == "datetime" and not imaginary and tz is not None:
            # PEP 495: a time exists unless a round trip through UTC changes it
            try:
                back = v.astimezone(dt.timezone.utc).astimezone(tz)
            except OverflowError:
                back = None
            if back is not None and back.replace(tzinfo=None) != naive:
                return f"{what} gave {v!r}, which does not exist"
        if k == 0:
            st2, w, _ = redraw(s, data)
            if st2 != "ok" or w != v or getattr(w, "fold", 0) != getattr(v, "fold", 0):
                return f"{what}: replaying its choices gives {w!r}, not {v!r}"
    if tz is None:
        for v in {lo, hi, mid(lo, hi)}:
            w = reach(s, v)
            if w != v:
                return f"{what}: the choices for {v!r} give {w!r}"
            if kind in ("time", "datetime"):
                w = reach(s, v.replace(fold=1))
                if w != v or w.fold != 1:
                    return f"{what}: the choices for {v!r} with fold=1 give {w!r}"


def mid(lo, hi):
    if isinstance(lo, dt.time):
        n = lambda t: ((t.hour * 60 + t.minute) * 60 + t.second) * 10**6 + t.microsecond
        m = (n(lo) + n(hi)) // 2
        return dt.time(m // 3600000000, m // 60000000 % 60, m // 1000000 % 60, m % 1000000)
    if isinstance(lo, dt.timedelta):
        return dt.timedelta(microseconds=(lo // dt.timedelta(microseconds=1) + hi // dt.timedelta(microseconds=1)) // 2)
    return lo + (hi - lo) // 2


def reach(s, v):
    if isinstance(v, dt.timedelta):
        c = (v.days, v.seconds, v.microseconds)
    else:
        c = tuple(getattr(v, n) for n in ("year", "month", "day", "hour", "minute", "second", "microsecond", "fold") if hasattr(v, n))
    st_, w, d = draw(s, 0, data=ConjectureData.for_choices(c))
    if st_ == "ok":
        return w
    # a single value needs no choices
    st_, w, d = draw(s, 0, data=ConjectureData.for_choices(()))
    return w if st_ == "ok" else st_


def p_exists(a):
    "datetime_does_not_exist against the definition, around transitions"
    from hypothesis.strategies._internal.datetime import datetime_does_not_exist
    zone, day, minutes, fold = a
    tz = zoneinfo.ZoneInfo(zone)
    v = dt.datetime.combine(day, dt.time(0), tzinfo=tz).replace(tzinfo=None) + dt.timedelta(minutes=minutes)
    v = v.replace(tzinfo=tz, fold=fold)
    back = v.astimezone(dt.timezone.utc).astimezone(tz)
    want = back.replace(tzinfo=None, fold=0) != v.replace(tzinfo=None, fold=0)
    if bool(datetime_does_not_exist(v)) != want:
        return f"datetime_does_not_exist({v!r}) = {not want}"
    if datetime_does_not_exist(v.replace(tzinfo=None)):
        return f"datetime_does_not_exist({v.replace(tzinfo=None)!r})"


def g_exists(rng):
    z, d = rng.choice([("Europe/Dublin", dt.date(2023, 3, 26)), ("America/New_York", dt.date(2023, 3, 12)), ("Australia/Lord_Howe", dt.date(2023, 10, 1)), ("Pacific/Apia", dt.date(2011, 12, 30)), ("America/New_York", dt.date(2023, 11, 5)), ("Africa/Monrovia", dt.date(1972, 1, 7))])
    return z, d, rng.randint(-60, 1500), rng.randrange(2)


def p_bad(a):
    kind, lo, hi = a
    try:
        getattr(st, kind + "s")(lo, hi).validate()
    except InvalidArgument:
        return None
    return f"{kind}s({lo!r}, {hi!r}) accepted"


def g_bad(rng):
    kind = rng.choice(["date", "time", "datetime", "timedelta"])
    f = {"date": rdate, "time": rtime, "timedelta": rdelta, "datetime": lambda r: dt.datetime.combine(rdate(r), rtime(r))}[kind]
    a, b = f(rng), f(rng)
    return (kind, max(a, b), min(a, b)) if a != b else None


def p_dfilter(a):
    "a timezone drawn from a strategy, None included"
    seed, edge = a
    zs = [None, dt.timezone.utc, zoneinfo.ZoneInfo(ZONES[0])]
    for s, T in ((st.datetimes(timezones=st.sampled_from(zs)), dt.datetime), (st.times(timezones=st.sampled_from(zs)), dt.time)):
        st_, v, _ = draw(s, seed, edge)
        if st_ == "ok" and not (type(v) is T and v.tzinfo in zs):
            return f"{s!r} gave {v!r}"


def p_zones(a):
    seed, edge, prefix, nocache = a
    s = st.timezone_keys(allow_prefix=prefix)
    ok = set(zoneinfo.available_timezones())
    st_, v, _ = draw(s, seed, edge)
    if st_ == "ok":
        base = v
        for pre in ("posix/", "right/"):
            if prefix and base.startswith(pre):
                base = base[len(pre):]
        if base not in ok and v != "UTC":
            return f"timezone_keys(allow_prefix={prefix}) gave {v!r}"
    st_, v, _ = draw(st.timezones(no_cache=nocache), seed, edge)
    if st_ == "ok" and not isinstance(v, dt.tzinfo):
        return f"timezones() gave {v!r}"


CHECKS = [RT("values", g, p, n=2200, budget=60), RT("imaginary", g_exists, p_exists, n=3000), RT("refused", g_bad, p_bad, n=400), RT("zone-strategies", lambda r: (r.getrandbits(32), r.random() < .5), p_dfilter, n=200),
          RT("zone-keys", lambda r: (r.getrandbits(32), r.random() < .5, r.random() < .5, r.random() < .5), p_zones, n=200)]
