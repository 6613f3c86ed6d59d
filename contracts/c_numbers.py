"""Contracts for hypothesis.strategies._internal.numbers: values drawn respect the arguments, and nothing the arguments allow is lost."""
import math
import z3
from pyvc.values import *
from pyvc.ctx import Group
from pyvc.engine import Loop, Obj, zint, zbool, AND, OR
from hypothesis.strategies._internal.numbers import IntegersStrategy, FloatStrategy, NanStrategy
from contracts import models
from contracts.c_providers import OKF

NM = "hypothesis.strategies._internal.numbers"
G = Group(NM)
models.install(G)
from contracts import c_floats
for k_, v_ in c_floats.F.ns.items():
    G.ns.setdefault(k_, v_)
for k_, v_ in c_floats.F.native_ns.items():
    G.native_ns.setdefault(k_, v_)
G.spec("""
def fok(s, v):
    # v is permitted by the constraints the strategy passes on
    return s.allow_nan if isnan(v) else (sle(s.min_value, v) and sle(v, s.max_value) and (v == 0.0 or abs(v) >= s.smallest_nonzero_magnitude))
""")


def _draw_float(ex, a, kw):
    "ConjectureData.draw_float: a value permitted by its constraints (C07)"
    v = ex.mk(Float, ex.fresh("drawn"))
    names = ("min_value", "max_value", "allow_nan", "smallest_nonzero_magnitude")
    d = dict(zip(names, a[1:]), **kw)
    models.pre(ex, "draw_float:order", zbool(ex.truth_pure(ex.eval_spec_of(ex.contract, "not isnan(result['min_value']) and not isnan(result['max_value']) and sle(result['min_value'], result['max_value'])", ex.top_frame, {"result": d} if False else {"result": _rec(ex, d)}))))
    ex.assume(zbool(ex.truth_pure(ex.eval_spec_of(ex.contract, "(result[0]['allow_nan'] and isnan(result[1])) or (not isnan(result[1]) and sle(result[0]['min_value'], result[1]) and sle(result[1], result[0]['max_value']) and (result[1] == 0.0 or abs(result[1]) >= result[0]['smallest_nonzero_magnitude']))",
                                                  ex.top_frame, {"result": (_rec(ex, d), v)}))))
    return v


def _rec(ex, d):
    c = RecCell(ex.alloc(("floatargs",)))
    ex.store[c.key] = dict(d)
    return c


G.cls("Data", methods=dict(models.DATA, draw_float=Prim(_draw_float)))
D = TObj("Data")
OI = TOpt(Int)
NN = dict(opts=dict(no_native=True))
G.cls("IntegersStrategy", real=IntegersStrategy, fields=dict(start=OI, end=OI), inv=[("order", "self.start is None or self.end is None or self.start <= self.end")])
G.fn("IntegersStrategy.do_draw", dict(self=TObj("IntegersStrategy"), data=D), returns=Int, self_invariant=True,
     ensures=[("at-least-min", "self.start is None or self.start <= result"), ("at-most-max", "self.end is None or result <= self.end")], **NN)
G.fn("integers", dict(min_value=OI, max_value=OI), returns=TObj("IntegersStrategy"), raises={"InvalidArgument": "min_value is not None and max_value is not None and max_value < min_value"},
     ensures=[("bounds", "result.start == old(min_value) and result.end == old(max_value)")], **NN)
FS = dict(min_value=Float, max_value=Float, allow_nan=Bool, smallest_nonzero_magnitude=Float)
G.cls("FloatStrategy", real=FloatStrategy, fields=FS,
      inv=[("bounds", "not isnan(self.min_value) and not isnan(self.max_value)"), ("order", "sle(self.min_value, self.max_value)"), ("magnitude", "self.smallest_nonzero_magnitude > 0.0 and not isinf(self.smallest_nonzero_magnitude)")])
G.fn("FloatStrategy.do_draw", dict(self=TObj("FloatStrategy"), data=D), returns=Float, self_invariant=True, ensures=[("permitted", "fok(self, result)")], **NN)
OF = TOpt(Float)
OB = TOpt(Bool)
MINARG, MAXARG = "min_value", "max_value"
# the values the documentation of floats() allows, for width 64
G.spec("""
def allowed(v, lo, hi, nan, inf, sub, xlo, xhi):
    return (nan if nan is not None else (lo is None and hi is None)) if isnan(v) else (
        (lo is None or ((v > lo if xlo else sle(lo, v))))
        and (hi is None or ((v < hi if xhi else sle(v, hi))))
        and (not isinf(v) or (inf if inf is not None else (lo is None or hi is None or v == lo or v == hi)))
        and (sub is None or sub or v == 0.0 or abs(v) >= 2.0**-1022))
""")
ARGS = dict(min_value=OF, max_value=OF, allow_nan=OB, allow_infinity=OB, allow_subnormal=OB, width=TConst(64), exclude_min=Bool, exclude_max=Bool)
OLD = "old(min_value), old(max_value), old(allow_nan), old(allow_infinity), old(allow_subnormal), exclude_min, exclude_max"
for xlo in (False, True):
  for xhi in (False, True):
    G.fn("floats", dict(ARGS, exclude_min=TConst(xlo), exclude_max=TConst(xhi)), name=f"floats[64,{xlo},{xhi}]", returns=TObj("FloatStrategy"), raises={"InvalidArgument": None}, no_call=True,
     ensures=[("nothing-else", f"forall_t(Float, lambda v: implies(fok(result, v), allowed(v, {OLD})))"),
              ("nothing-lost", f"forall_t(Float, lambda v: implies(allowed(v, {OLD}), fok(result, v)))"),
              ("inhabited", "fok(result, result.min_value) or fok(result, result.max_value) or fok(result, 0.0) or fok(result, -0.0) or fok(result, result.smallest_nonzero_magnitude) or fok(result, -result.smallest_nonzero_magnitude)")], **NN)
from contracts import c_floats
DEPS = c_floats.GROUPS
