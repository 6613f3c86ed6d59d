"""Contracts for hypothesis.strategies._internal.datetime: what is drawn lies between the bounds and is a calendar value."""
import datetime as dt
import z3
from pyvc.values import *
from pyvc.ctx import Group
from pyvc.engine import Loop, Obj, zint, zbool, AND, OR
from hypothesis.strategies._internal.datetime import DATENAMES, TIMENAMES, DateStrategy, TimeStrategy, TimedeltaStrategy, DatetimeStrategy
from contracts import models

DM = "hypothesis.strategies._internal.datetime"
G = Group(DM)
models.install(G)
N = dict(date=DATENAMES, time=TIMENAMES, datetime=DATENAMES + TIMENAMES, timedelta=("days", "seconds", "microseconds"))
REAL = dict(date=dt.date, time=dt.time, datetime=dt.datetime, timedelta=dt.timedelta)
G.spec("""
def dim(y, m):
    # days of a month in the proleptic Gregorian calendar
    return (29 if y % 4 == 0 and (y % 100 != 0 or y % 400 == 0) else 28) if m == 2 else (30 if m == 4 or m == 6 or m == 9 or m == 11 else 31)
""")
G.spec("""
def okdate(y, m, d):
    return 1 <= y and y <= 9999 and 1 <= m and m <= 12 and 1 <= d and d <= dim(y, m)
""")
G.spec("""
def oktime(h, mi, s, us):
    return 0 <= h and h <= 23 and 0 <= mi and mi <= 59 and 0 <= s and s <= 59 and 0 <= us and us <= 999999
""")
G.spec("""
def okdelta(d, s, us):
    return -999999999 <= d and d <= 999999999 and 0 <= s and s <= 86399 and 0 <= us and us <= 999999
""")


def tup(kind, x, sub=False):
    return "(" + ", ".join((f"{x}['{n}']" if sub else f"{x}.{n}") for n in N[kind]) + ",)"


def ok(kind, x, sub=False):
    f = (lambda n: f"{x}['{n}']") if sub else (lambda n: f"{x}.{n}")
    out = []
    if kind in ("date", "datetime"):
        out.append(f"okdate({f('year')}, {f('month')}, {f('day')})")
    if kind in ("time", "datetime"):
        out.append(f"oktime({f('hour')}, {f('minute')}, {f('second')}, {f('microsecond')})")
    if kind == "timedelta":
        out.append(f"okdelta({f('days')}, {f('seconds')}, {f('microseconds')})")
    return " and ".join(out)


def _cmp(op, kind):
    return Prim(lambda ex, a, k: ex.compare(op, tuple(ex.getattr(a[0], n) for n in N[kind]), tuple(ex.getattr(a[1], n) for n in N[kind])))


def _new(kind):
    def f(ex, a, kw):
        "the constructor of the standard library: refuses what is no calendar value; here it must never refuse"
        names = N[kind] + (("fold",) if kind in ("time", "datetime") else ())
        d = dict(zip(names, a))
        d.update(kw)
        d.pop("tzinfo", None)
        o = Obj(ex.alloc(("new", kind)), kind)
        for n in names:
            ex.wr((o.key, n), d.get(n, 0))
        models.pre(ex, f"{kind}:is a calendar value", zbool(ex.truth_pure(ex.eval_spec_of(ex.contract, ok(kind, "result"), ex.top_frame, {"result": o}))))
        return o
    return Prim(f, kind)


for kind in N:
    G.cls(kind, real=REAL[kind], fields={n: Int for n in N[kind] + (("fold",) if kind in ("time", "datetime") else ())},
          methods=dict({m: _cmp(o, kind) for m, o in (("__lt__", "<"), ("__le__", "<="), ("__gt__", ">"), ("__ge__", ">="))}, __new__=_new(kind)))


def _monthrange(ex, a, kw):
    y, m = models.arg(a, kw, -1, "year"), models.arg(a, kw, 0, "month")
    return (ex.mk(Int, ex.fresh("weekday")), ex.eval_spec_of(ex.contract, "dim(result[0], result[1])", ex.top_frame, {"result": (y, m)}))


G.override(DM, "monthrange", Prim(_monthrange, "monthrange"))
G.trusted.append("calendar.monthrange gives the days of a month of the proleptic Gregorian calendar; datetime's comparisons are lexicographic in the components and its constructors keep them")
KW = dict(opts=dict(no_native=True))
D = TObj("Data")
for kind in ("date", "time", "datetime"):
    r = tup(kind, "result", True)
    G.fn("draw_capped_multipart", dict(data=D, min_value=TObj(kind), max_value=TObj(kind), duration_names=TConst(N[kind])), name=f"draw_capped_multipart[{kind}]", select=lambda ex, a, k, kind=kind: a[1].cls == kind,
         returns=TDict(**{n: Int for n in N[kind] + (("fold",) if kind != "date" else ())}),
         requires=[ok(kind, "min_value"), ok(kind, "max_value"), f"{tup(kind, 'min_value')} <= {tup(kind, 'max_value')}"],
         ensures=[("calendar", ok(kind, "result", True)), ("at-least-min", f"{tup(kind, 'min_value')} <= {r}"), ("at-most-max", f"{r} <= {tup(kind, 'max_value')}")] + ([("fold", "0 <= result['fold'] and result['fold'] <= 1")] if kind != "date" else []), **KW)
for nm, kind, cls in (("DateStrategy", "date", DateStrategy), ("TimedeltaStrategy", "timedelta", TimedeltaStrategy)):
    G.cls(nm, real=cls, fields=dict(min_value=TObj(kind), max_value=TObj(kind)),
          inv=[("min", ok(kind, "self.min_value")), ("max", ok(kind, "self.max_value")), ("order", f"{tup(kind, 'self.min_value')} < {tup(kind, 'self.max_value')}")])
    G.fn(f"{nm}.do_draw", dict(self=TObj(nm), data=D), returns=TObj(kind), self_invariant=True,
         ensures=[("at-least-min", f"{tup(kind, 'self.min_value')} <= {tup(kind, 'result')}"), ("at-most-max", f"{tup(kind, 'result')} <= {tup(kind, 'self.max_value')}"), ("calendar", ok(kind, "result"))], **KW)
G.cls("Data", methods=dict(models.DATA, draw=Prim(lambda ex, a, k: ex.mk(AnyT, ex.fresh("drawn")))))
G.override(DM, "is_pytz_timezone", Prim(lambda ex, a, k: False))
G.trusted.append("pytz timezones (localize instead of replace) are left to the bounded checks; time zones drawn are opaque")


def _replace(ex, a, kw):
    o = Obj(ex.alloc(("replace",)), a[0].cls)
    for n in ex.ctx.classes[a[0].cls].fields:
        ex.wr((o.key, n), ex.getattr(a[0], n))
    for n in kw:
        if n != "tzinfo":
            ex.wr((o.key, n), kw[n])
    return o


for kind in ("time", "datetime"):
    G.classes[kind].methods["replace"] = Prim(_replace)
for nm, kind, cls, meth, params, exc in (("TimeStrategy", "time", TimeStrategy, "do_draw", {}, None), ("DatetimeStrategy", "datetime", DatetimeStrategy, "draw_naive_datetime_and_combine", dict(tz=AnyT), {"StopTest": None})):
    G.cls(nm, real=cls, fields=dict(min_value=TObj(kind), max_value=TObj(kind), tz_strat=AnyT, allow_imaginary=Bool),
          inv=[("min", ok(kind, "self.min_value")), ("max", ok(kind, "self.max_value")), ("order", f"{tup(kind, 'self.min_value')} <= {tup(kind, 'self.max_value')}")])
    G.fn(f"{nm}.{meth}", dict(params, self=TObj(nm), data=D), returns=TObj(kind), self_invariant=True, raises=exc,
         ensures=[("at-least-min", f"{tup(kind, 'self.min_value')} <= {tup(kind, 'result')}"), ("at-most-max", f"{tup(kind, 'result')} <= {tup(kind, 'self.max_value')}"), ("calendar", ok(kind, "result")), ("fold", "0 <= result.fold and result.fold <= 1")], **KW)


# disallowed imaginary times never appear
def _imag(ex, a, kw):
    f = z3.Function("imaginary", *[z3.IntSort()] * 8, z3.BoolSort())
    return f(*[zint(ex.getattr(a[0], n)) for n in N["datetime"] + ("fold",)])



G.override(DM, "datetime_does_not_exist", Prim(_imag))
G.ns["imaginary"] = Prim(_imag)
G.trusted.append("datetime_does_not_exist is an arbitrary predicate of the datetime here (checked by the bounded checks against the standard library)")
G.fn("DatetimeStrategy.do_draw", dict(self=TObj("DatetimeStrategy"), data=D), returns=TObj("datetime"), self_invariant=True, raises={"StopTest": None},
     ensures=[("at-least-min", f"{tup('datetime', 'self.min_value')} <= {tup('datetime', 'result')}"), ("at-most-max", f"{tup('datetime', 'result')} <= {tup('datetime', 'self.max_value')}"), ("no-imaginary", "self.allow_imaginary or not imaginary(result)")], **KW)
