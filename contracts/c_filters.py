"""Contracts for hypothesis.internal.filtering and the filter methods of the number strategies: the rewritten bounds accept exactly what the comparisons accept."""
import ast
import math
import z3
from pyvc.prims import LIB
from pyvc.values import *
from pyvc.ctx import Group
from pyvc.engine import Loop, Obj, is_intlike, lift_float, norm, zint, zbool, AND, OR, NOT
from hypothesis.internal.filtering import ARG, ConstructivePredicate
from contracts import models

FM = "hypothesis.internal.filtering"
G = Group(FM)
models.install(G)
NN = dict(opts=dict(no_native=True))


# a record of bounds, as the keyword dictionaries of this module: which values satisfy it
def sat(ex, kw, v):
    d = ex.rd(kw.key) if isinstance(kw, RecCell) else kw
    if isinstance(kw, MapCell):
        return True
    out = []
    for b, x, strict, weak in (("min_value", "exclude_min", ">", ">="), ("max_value", "exclude_max", "<", "<=")):
        if b in d:
            exc = ex.truth_pure(d[x]) if x in d else False
            out.append(OR(AND(exc, ex.compare(strict, v, d[b])), AND(NOT(exc), ex.compare(weak, v, d[b]))))
    return AND(*out) if out else True


G.ns["sat"] = Prim(lambda ex, a, k: sat(ex, ex.force(a[0]), a[1]))
G.ns["some"] = Prim(lambda ex, a, k: any(b in ex.rd(a[0].key) for b in ("min_value", "max_value")) if isinstance(a[0], RecCell) else False)
G.ns["orig"] = Prim(lambda ex, a, k: sat(ex, ex.store[("$orig",)], a[0]))
G.ns["orig_len"] = Prim(lambda ex, a, k: "len" in ex.store[("$orig",)])
G.ns["of_length"] = Prim(lambda ex, a, k: "len" in ex.rd(a[0].key))
G.ns["orig_pred"] = Prim(lambda ex, a, k: ex.store[("$pred",)])




def pick(ex, nm, n):
    for k in range(n - 1):
        if ex.branch(z3.Bool(ex.fresh(f"{nm}.is{k}"))):
            return k
    return n - 1


def _numeric(ex, a, kw):
    "get_numeric_predicate_bounds: some record of bounds on numbers of any kind, and the predicate left to apply, if any"
    if ex.contract.name.startswith("get_float"):
        return _numeric_f(ex, a, kw)
    d = {}
    for b, x in (("min_value", "exclude_min"), ("max_value", "exclude_max")):
        k = pick(ex, b, 5)
        if k < 4:
            d[b] = (lambda: ex.mk(Int, "bound." + b), lambda: ex.mk(Real, "bound." + b), lambda: math.inf, lambda: -math.inf)[k]()
            if pick(ex, x, 2):
                d[x] = ex.mk(Bool, "bound." + x)
    if d and pick(ex, "len", 2):
        d["len"] = True
    c = RecCell(ex.alloc(("numeric",)))
    ex.store[c.key] = dict(d)
    ex.store[("$orig",)] = dict(d)
    p = None if pick(ex, "pred", 2) else ex.mk(AnyT, ex.fresh("pred"))
    ex.store[("$pred",)] = p
    return (c, p)


G.override(FM, "get_numeric_predicate_bounds", Prim(_numeric, "get_numeric_predicate_bounds"))
G.cls("ConstructivePredicate", real=ConstructivePredicate, methods=dict(__new__=Prim(lambda ex, a, k: (a[0] if a else k["constraints"], a[1] if len(a) > 1 else k["predicate"]))))
G.fn("get_integer_predicate_bounds", dict(predicate=AnyT), ensures=[
    ("same-integers", "forall_t(Int, lambda v: orig(v) == sat(result[0], v))"), ("predicate-kept", "result[1] == orig_pred() or not (result[1] is not None) and forall_t(Int, lambda v: not orig(v))"),
    ("whole", "whole(result[0])")], **NN)
G.ns["whole"] = Prim(lambda ex, a, k: all(k2 == "len" or is_intlike(norm(v)) for k2, v in ex.rd(a[0].key).items()) if isinstance(a[0], RecCell) else True)
# ---- one comparison
CASES = []
X = ast.parse("x", mode="eval").body
LX = ast.parse("len(x)", mode="eval").body
NUM = ast.parse("0", mode="eval").body


def _convert(ex, a, kw):
    n = ex.force(a[0])
    if n.o is NUM:
        return ex.mk(Int, "num")
    return PyVal(ARG)


G.override(FM, "convert", Prim(_convert, "convert"))
OPS = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "=="}
for cls, op in OPS.items():
    for form, nd in (("x", X), ("len(x)", LX)):
        for swap in (False, True):
            G.fn("comp_to_constraints", dict(x=TConst(PyVal(NUM if swap else nd)), op=TConst(PyVal(cls())), y=TConst(PyVal(nd if swap else NUM)), argname=TConst("x")), ghost=dict(num=Int), name=f"comp_to_constraints[{'n' if swap else form}{op}{form if swap else 'n'}]", no_call=True,
                 ensures=[("same-values", f"forall_t(Int, lambda v: sat(result, v) == ({'num ' + op + ' v' if swap else 'v ' + op + ' num'}))"), ("length", f"of_length(result) == {form != 'x'}")], **NN)


# ---- conjunction of bounds: the merged record accepts what every part accepts
THEPRED = PyVal(lambda x: x)


def _pair(withlen):
    def f(ex, nm):
        d = {}
        for b, x in (("min_value", "exclude_min"), ("max_value", "exclude_max")):
            if pick(ex, nm + b, 2):
                d[b] = ex.mk(Int, nm + b)
                if pick(ex, nm + x, 2):
                    d[x] = ex.mk(Bool, nm + x)
        if withlen and d:
            d["len"] = True
        c = RecCell(ex.alloc(("pair", nm)))
        ex.store[c.key] = d
        return (c, THEPRED if pick(ex, nm + "p", 2) else None)
    return TMk(f, f"pair{withlen}")


for wl in (False, True):
    for n in (1, 2):
        G.fn("merge_preds", dict(con_predicates=TTuple(*[_pair(wl)] * n)), name=f"merge_preds[{n}{',len' if wl else ''}]", no_call=True,
             ensures=[("conjunction", "forall_t(Int, lambda v: sat(result[0], v) == (" + " and ".join(f"sat(con_predicates[{k}][0], v)" for k in range(n)) + "))"),
                      ("predicate", "(result[1] is None) == (" + " and ".join(f"con_predicates[{k}][1] is None" for k in range(n)) + ")"),
                      ("something-left", "not (" + " and ".join(f"(con_predicates[{k}][1] is not None or some(con_predicates[{k}][0]))" for k in range(n)) + ") or result[1] is not None or some(result[0])")] +
                     ([("length", "of_length(result[0]) == (" + " or ".join(f"of_length(con_predicates[{k}][0])" for k in range(n)) + ")")] if wl else []), **NN)


# ---- bounds on floats.  A number of any kind (int, Fraction, Decimal, float) is seen through the floats around it: the largest at most it and the smallest at least it.
from contracts import c_floats
DEPS = c_floats.GROUPS
for k_, v_ in c_floats.F.ns.items():
    G.ns.setdefault(k_, v_)
for k_, v_ in c_floats.F.native_ns.items():
    G.native_ns.setdefault(k_, v_)


def num_cmp(op):
    def f(ex, a, kw):
        n, x = a[0], a[1]
        fl, ce = ex.getattr(n, "fl"), ex.getattr(n, "ce")
        return {"<": lambda: ex.compare("<", fl, x), "<=": lambda: ex.compare("<=", ce, x), ">": lambda: ex.compare(">", ce, x), ">=": lambda: ex.compare(">=", fl, x),
                "==": lambda: AND(ex.eq(fl, x), ex.eq(ce, x))}[op]()
    return Prim(f, "number" + op)


def num_float(ex, a, kw):
    "float(number): one of the two floats around it; OverflowError instead of an infinity is possible when the number is finite"
    n = a[0]
    fl, ce = ex.getattr(n, "fl"), ex.getattr(n, "ce")
    r = ce if ex.branch(z3.Bool(ex.fresh("rounds_up"))) else fl
    if ex.branch(z3.And(fl.bv != ce.bv, z3.fpIsInf(r.fp))) and ex.branch(z3.Bool(ex.fresh("overflows"))):
        ex.raise_("OverflowError")
    return r


NUMBER = {"__lt__": num_cmp("<"), "__le__": num_cmp("<="), "__gt__": num_cmp(">"), "__ge__": num_cmp(">="), "__eq__": num_cmp("=="), "__float__": Prim(num_float)}
G.cls("Number", fields=dict(fl=Float, ce=Float), methods=NUMBER)


def number(ex, nm):
    o = ex.mk(TObj("Number"), nm)
    fl, ce = ex.getattr(o, "fl"), ex.getattr(o, "ce")
    up = z3.And(fl.bv >= 0, ce.bv == fl.bv + 1)         # neighbours among the positive floats (from 0.0)
    dn = z3.And(fl.bv < 0, ce.bv < 0, fl.bv == ce.bv + 1)    # among the negative ones (up to -0.0)
    ex.assume(z3.And(z3.Not(z3.fpIsNaN(fl.fp)), z3.Not(z3.fpIsNaN(ce.fp)), z3.Or(fl.bv == ce.bv, up, dn)))
    return o


def _numeric_f(ex, a, kw):
    "bounds on one side or none; on both, where a flag that is absent is the same as False"
    two = ex.contract.name.endswith("[two]")
    d = {}
    side = 0 if two else pick(ex, "side", 3)
    for b, x, skip in (("min_value", "exclude_min", 1), ("max_value", "exclude_max", 2)):
        if two or side == skip:
            d[b] = number(ex, "bound." + b)
            if two or pick(ex, x, 2):
                d[x] = ex.mk(Bool, "bound." + x)
    c = RecCell(ex.alloc(("numeric",)))
    ex.store[c.key] = dict(d)
    ex.store[("$orig",)] = dict(d)
    p = ex.mk(AnyT, ex.fresh("pred")) if two or not d or pick(ex, "pred", 2) else None
    ex.store[("$pred",)] = p
    return (c, p)


for side in ("one", "two"):
  G.fn("get_float_predicate_bounds", dict(predicate=AnyT), name=f"get_float_predicate_bounds[{side}]", no_call=True, ensures=[
    ("same-floats", "forall_t(Float, lambda v: orig(v) == sat(result[0], v))"),
    ("predicate-kept", "result[1] == orig_pred() or not (result[1] is not None) and forall_t(Float, lambda v: not orig(v))"), ("something-left", "result[1] is not None or some(result[0])"), ("clean", "clean(result[0])")], **NN)
G.ns["clean"] = Prim(lambda ex, a, k: AND(*[isinstance(v, int) or z3.And(z3.Not(z3.fpIsNaN(lift_float(v).fp)), lift_float(v).bv != (0 if k2 == "min_value" else 1 << 63)) for k2, v in ex.rd(a[0].key).items()]) if isinstance(a[0], RecCell) else True)


# ---- the filter methods of the number strategies: the rewritten strategy accepts exactly the values of the old one that satisfy the predicate
from hypothesis.strategies._internal.numbers import IntegersStrategy, FloatStrategy, NanStrategy
from hypothesis.strategies._internal.strategies import FilteredStrategy, SampledFromStrategy
from contracts import c_numbers
NM = "hypothesis.strategies._internal.numbers"
N = Group(NM)
N.ns = dict(c_numbers.G.ns, **G.ns)
N.native_ns = dict(c_numbers.G.native_ns)
COND = PyVal(object())
N.cls("IntegersStrategy", real=IntegersStrategy, fields=dict(start=TOpt(Int), end=TOpt(Int)), inv=c_numbers.G.classes["IntegersStrategy"].inv)
N.cls("FloatStrategy", real=FloatStrategy, fields=c_numbers.FS, inv=c_numbers.G.classes["FloatStrategy"].inv)
N.cls("NothingStrategy", fields={})
N.cls("FilteredStrategy", real=FilteredStrategy, methods={"__new__": Prim(lambda ex, a, k: _filtered(ex, k["strategy"], k["conditions"]))})
N.cls("NanStrategy", real=NanStrategy, fields={}, methods={"__new__": Prim(lambda ex, a, k: Obj(ex.alloc(("nan",)), "NanStrategy"))})
N.cls("SampledFromStrategy", real=SampledFromStrategy, methods={"__new__": Prim(lambda ex, a, k: _sampled(ex, a[0]))})
N.override(NM, "nothing", Prim(lambda ex, a, k: Obj(ex.alloc(("nothing",)), "NothingStrategy"), "nothing"))


def _filtered(ex, strategy, conditions):
    o = Obj(ex.alloc(("filtered",)), "FilteredStrategy")
    ex.store[(o.key, "inner")], ex.store[(o.key, "conds")] = strategy, conditions
    return o


def _sampled(ex, els):
    o = Obj(ex.alloc(("sampled",)), "SampledFromStrategy")
    ex.store[(o.key, "els")] = els
    return o


PINT = z3.Function("predicate_int", z3.IntSort(), z3.BoolSort())
PFLT = z3.Function("predicate_float", z3.BitVecSort(64), z3.BoolSort())


def pred_holds(ex, v):
    "what the predicate left to apply says of v: unknown, but the same each time"
    return PFLT(v.bv) if isinstance(v, FloatV) else PINT(zint(v))


def accepts(ex, s, v):
    "the values a strategy can produce"
    s = ex.force(s)
    if s.cls == "NothingStrategy":
        return False
    if s.cls == "FilteredStrategy":
        assert len(s_conds := ex.store[(s.key, "conds")]) == 1
        c = ex.force(s_conds[0])
        f = orig_holds(ex, v) if isinstance(c, PyVal) and c.o is COND.o else pred_holds(ex, v)
        return AND(accepts(ex, ex.store[(s.key, "inner")], v), f)
    if s.cls == "NanStrategy":
        return z3.fpIsNaN(v.fp)
    if s.cls == "SampledFromStrategy":
        seq = ex.as_seq(ex.store[(s.key, "els")])
        k = z3.Int(ex.fresh("k"))
        return z3.Exists([k], z3.And(0 <= k, k < zint(seq.n), lift_float(seq.get(k)).bv == v.bv))
    e = {"IntegersStrategy": "(s.start is None or s.start <= v) and (s.end is None or v <= s.end)", "FloatStrategy": "fok(s, v)"}[s.cls]
    return ex.truth_pure(ex.eval_spec_of(ex.contract, e, ex.top_frame, {"s": s, "v": v}))


def orig_holds(ex, v):
    "the condition: the bounds found in it, together with the predicate left to apply, if any"
    if ("$rec",) not in ex.store:
        return pred_holds(ex, v)
    p = ex.store[("$pred",)]
    return AND(sat(ex, ex.store[("$rec",)], v), OR(zbool(ex.eq(p, None)), pred_holds(ex, v)))


N.ns["accepts"] = Prim(lambda ex, a, k: accepts(ex, a[0], ex.force(a[1])))
N.ns["holds"] = Prim(lambda ex, a, k: orig_holds(ex, ex.force(a[0])))


def _bounds(kind):
    def f(ex, a, kw):
        d = {}
        if kind == "float" and pick(ex, "contradiction", 2):
            d = dict(min_value=1, max_value=-1)
        else:
            for b in ("min_value", "max_value"):
                if pick(ex, b, 2):
                    d[b] = ex.mk(Int if kind == "int" else Float, "bound." + b)
                    if kind == "float":
                        ex.assume(z3.And(z3.Not(z3.fpIsNaN(d[b].fp)), d[b].bv != (0 if b == "min_value" else 1 << 63)))
        c = RecCell(ex.alloc(("bounds",)))
        ex.store[c.key] = dict(d)
        ex.store[("$rec",)] = dict(d)
        p = ex.mk(TOpt(AnyT), ex.fresh("pred"))
        if not d and kind == "float":
            ex.assume(NOT(ex.is_(p, None)))
        ex.store[("$pred",)] = p
        return (c, p)
    return Prim(f, f"get_{kind}_bounds")


N.override(NM, "get_integer_predicate_bounds", _bounds("int"))
N.override(NM, "get_float_predicate_bounds", _bounds("float"))
N.fn("IntegersStrategy.filter", dict(self=TObj("IntegersStrategy"), condition=TConst(COND)), self_invariant=True, no_call=True,
     ensures=[("same-values", "forall_t(Int, lambda v: accepts(result, v) == (accepts(old(self), v) and holds(v)))")], **NN)
for cnd, nm, cond in ((COND, "any", "holds(v)"), (LIB[math.isfinite], "isfinite", "not isnan(v) and not isinf(v)"), (LIB[math.isinf], "isinf", "isinf(v)"), (LIB[math.isnan], "isnan", "isnan(v)")):
    N.fn("FloatStrategy.filter", dict(self=TObj("FloatStrategy"), condition=TConst(cnd)), self_invariant=True, no_call=True, name=f"FloatStrategy.filter[{nm}]",
         ensures=[("same-values", f"forall_t(Float, lambda v: accepts(result, v) == (accepts(old(self), v) and ({cond})))")], **NN)
for cnd, nm, cond in ((LIB[math.isfinite], "isfinite", "True"), (LIB[math.isinf], "isinf", "False"), (LIB[math.isnan], "isnan", "False")):
    N.fn("IntegersStrategy.filter", dict(self=TObj("IntegersStrategy"), condition=TConst(cnd)), self_invariant=True, no_call=True, name=f"IntegersStrategy.filter[{nm}]",
         ensures=[("same-values", f"forall_t(Int, lambda v: accepts(result, v) == (accepts(old(self), v) and {cond}))")], **NN)
GROUPS = [G, N]
# ---- predicates made with functools.partial: partial(op, arg)(x) is op(arg, x)
import functools
import operator
import hypothesis.internal.filtering as _flt
P_ = Group(FM)
P_.ns = G.ns
P_.cls("partial", real=functools.partial, fields=dict(keywords=AnyT))
OPF = {operator.lt: "arg < v", operator.le: "arg <= v", operator.eq: "arg == v", operator.ge: "arg >= v", operator.gt: "arg > v", _flt.min_len: "arg <= v", _flt.max_len: "v <= arg"}


def _partial(fun):
    def f(ex, nm):
        o = Obj(ex.alloc(("partial",)), "partial")
        ex.store[(o.key, "func")] = LIB.get(fun) or PyVal(fun)
        ex.store[(o.key, "args")] = (ex.mk(Int, "arg"),)
        c = RecCell(ex.alloc(("kw",)))
        ex.store[c.key] = {}
        ex.store[(o.key, "keywords")] = c
        return o
    return TMk(f, f"partial({fun.__name__}, int)")


for fun, e in OPF.items():
    P_.fn("get_numeric_predicate_bounds", dict(predicate=_partial(fun)), ghost=dict(arg=Int), name=f"get_numeric_predicate_bounds[partial {fun.__name__}]", no_call=True,
          ensures=[("same-values", f"result[1] is None and forall_t(Int, lambda v: sat(result[0], v) == ({e}))"), ("length", f"of_length(result[0]) == {fun.__name__.endswith('len')}")], **NN)
GROUPS.append(P_)
