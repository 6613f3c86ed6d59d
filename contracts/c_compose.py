"""Contracts for the composing strategies: what a composed strategy returns was produced by its parts and satisfies its conditions."""
import z3
from pyvc.values import *
from pyvc.ctx import Group
from pyvc.engine import Loop, Obj, AND, NOT, zbool, zint
from hypothesis.strategies._internal.strategies import FilteredStrategy, MappedStrategy, OneOfStrategy, SampledFromStrategy
from hypothesis.strategies._internal.flatmapped import FlatMapStrategy
from hypothesis.strategies._internal.shared import SharedStrategy
from hypothesis.strategies._internal.recursive import LimitedStrategy
from hypothesis.strategies._internal.misc import JustStrategy
from contracts import models

SM = "hypothesis.strategies._internal.strategies"
A = AnyT
ST = TOpaque("Strategy")
NN = dict(opts=dict(no_native=True))


def produces_f(ex, s, v):
    return z3.Function("produces", s.t.sort(), v.t.sort(), z3.BoolSort())(s.t, v.t)


SENT = Opaque(z3.Const("filter_not_satisfied", sort_of("Any")), "Any")


def draw(ex, a, kw):
    "ConjectureData.draw(strategy): a value the strategy can produce (its do_draw), or StopTest / UnsatisfiedAssumption"
    s = ex.force(a[1] if len(a) > 1 else kw["strategy"])
    if isinstance(s, Obj):
        # a sampling: one of its elements, passing its filter (SampledFromStrategy.do_filtered_draw)
        q, cond = ex.store[(s.key, "els")], ex.store[(s.key, "cond")]
        m = z3.Int(ex.fresh("sampled"))
        ex.assume(z3.And(0 <= m, m < zint(q.n)))
        v = q.get(m)
        if cond is not None:
            ex.assume(zbool(ex.truth_pure(ex.call(cond, [v], {}))))
        return v
    v = ex.mk(A, ex.fresh("drawn"))
    ex.assume(z3.And(produces_f(ex, s, v), v.t != SENT.t))       # the internal marker is never a drawn value
    ex.store[("$last",)] = (s, v)
    return v


def setup(G, **data):
    models.install(G)
    G.cls("Data", methods=dict(models.DATA, draw=Prim(draw), **data), fields=dict(events=TObj("Events"), _shared_strategy_draws=TMap(A, A)))
    G.cls("Events", methods={"__setitem__": Prim(models.nothing)})
    G.ns["produces"] = Prim(lambda ex, a, k: produces_f(ex, ex.force(a[0]), ex.force(a[1])))
    G.cls("BuildContext", methods=dict(record_call=Prim(models.nothing)))
    G.override(SM, "_current_build_context", Opaque(z3.Const("ctxvar", sort_of("CtxVar")), "CtxVar"))
    G.override(SM, "current_build_context", Prim(lambda ex, a, k: Obj(("bc",), "BuildContext")))
    G.opaque_attrs[("CtxVar", "value")] = lambda ex, b: Obj(("bc",), "BuildContext")
    G.opaque_attrs[("Any", "isinstance:UniqueIdentifier")] = lambda ex, b: b.t == SENT.t
    G.override(G.module, "filter_not_satisfied", SENT)
    return G


S = setup(Group(SM))
D = TObj("Data")
COND = TFn([A], Bool)
for n in (0, 1, 2, 3):
    S.cls(f"Filtered{n}", real=FilteredStrategy, fields=dict(flat_conditions=TTuple(*[COND] * n), filtered_strategy=ST, _FilteredStrategy__condition=NoneT))
    ok = " and ".join(["produces(self.filtered_strategy, result)"] + [f"self.flat_conditions[{k}](result)" for k in range(n)])
    S.fn("FilteredStrategy.do_draw", dict(self=TObj(f"Filtered{n}"), data=D), name=f"FilteredStrategy.do_draw[{n}]", no_call=True, modifies=["self._FilteredStrategy__condition"], raises={"StopTest": None},
         ensures=[("produced-and-satisfies", ok)], **NN)
# ---- sampling: an element, transformed, that passes every filter; and if any of (up to ten thousand) elements passes, one is found
import itertools
S.ns["unmarked"] = Prim(lambda ex, a, k: ex.force(a[0]).t != SENT.t)
S.override(SM, "is_identity_function", Prim(lambda ex, a, k: False))
for n in (0, 1, 2):
    for kinds in itertools.product(("filter", "map"), repeat=n):
        nm = "Sampled" + "".join(k[0] for k in kinds)
        S.cls(nm, real=SampledFromStrategy, fields=dict(elements=TSeq(A, "list"), _transformations=TTuple(*[TTuple(TConst(k), COND if k == "filter" else TFn([A], A)) for k in kinds]), _MAX_FILTER_CALLS=TConst(10_000)))
        x, ok, um = "{}", [], ["unmarked({})"]
        for k, kind in enumerate(kinds):
            if kind == "map":
                x = f"self._transformations[{k}][1]({x})"
                um.append(f"unmarked({x})")
            else:
                ok.append(f"self._transformations[{k}][1]({x})")
        OKX = lambda e: " and ".join([o.format(e) for o in ok] or ["True"])
        um = " and ".join(u.format(*["self.elements[k]"] * 9) for u in um)
        OK = OKX("self.elements[k]")
        S.fn("SampledFromStrategy.do_filtered_draw", dict(self=TObj(nm), data=D), name=f"SampledFromStrategy.do_filtered_draw[{','.join(kinds)}]", no_call=True, raises={"StopTest": None},
             requires=["len(self.elements) > 0", f"forall(0, len(self.elements), lambda k: {um})"],
             ensures=[("an-element", f"not unmarked(result) or exists(0, len(self.elements), lambda k: result == {x.format('self.elements[k]')} and {OK})"),
                      ("found-if-any", f"unmarked(result) or len(self.elements) > 9997 or forall(0, len(self.elements), lambda k: not ({OK}))")],
             loops=[None, Loop(types=dict(allowed=TList(TTuple(Int, A))), inv=[f"forall(0, len(allowed), lambda j: 0 <= allowed[j][0] and allowed[j][0] < len(self.elements) and allowed[j][1] == {x.format('self.elements[allowed[j][0]]')} and {OKX('self.elements[allowed[j][0]]')} and unmarked(allowed[j][1]))",
                               f"len(allowed) > 0 or forall(0, _i, lambda k: not ({OK}))"])], **NN)
S.opaque_attrs[("Any", "isinstance:SearchStrategy")] = lambda ex, b: z3.Function("is_strategy", b.t.sort(), z3.BoolSort())(b.t)
S.cls("JustF", real=JustStrategy, fields=dict(elements=TSeq(A, "list"), _transformations=TTuple(TTuple(TConst("filter"), COND))))
S.cls("MappedStrategy", real=MappedStrategy, fields=dict(mapped_strategy=ST, pack=TFn([A], A)))
S.ns["last"] = Prim(lambda ex, a, k: ex.store[("$last",)][1])
S.fn("MappedStrategy.do_draw", dict(self=TObj("MappedStrategy"), data=D), raises={"UnsatisfiedAssumption": None}, no_call=True, modifies=[],
     ensures=[("image", "produces(self.mapped_strategy, last()) and result == self.pack(last())")], **NN)
# one of several: the value comes from one of the (non-empty) alternatives
S.cls("OneOfStrategy", real=OneOfStrategy, fields=dict(element_strategies=TSeq(ST, "list")))
S.fn("OneOfStrategy.do_draw", dict(self=TObj("OneOfStrategy"), data=D), no_call=True, requires=["len(self.element_strategies) > 0"],
     ensures=[("from-one", "exists(0, len(self.element_strategies), lambda k: produces(self.element_strategies[k], result) and available(self.element_strategies[k]))")], **NN)


def _sampled_new(ex, a, kw):
    o = Obj(ex.alloc(("sampling",)), "Sampling")
    ex.store[(o.key, "els")], ex.store[(o.key, "cond")] = ex.as_seq(a[0]), None
    return o


def _sampled_filter(ex, a, kw):
    o = Obj(ex.alloc(("sampling",)), "Sampling")
    ex.store[(o.key, "els")], ex.store[(o.key, "cond")] = ex.store[(a[0].key, "els")], a[1]
    return o


S.cls("Sampling", methods=dict(filter=Prim(_sampled_filter)))
S.override(SM, "SampledFromStrategy", Prim(lambda ex, a, k: _sampled_new(ex, a, k), "SampledFromStrategy"))
S.opaque_attrs[("Strategy", "available")] = lambda ex, b: BoundV(b, Prim(lambda ex, a, k: z3.Function("available", a[0].t.sort(), z3.BoolSort())(a[0].t)))
S.ns["available"] = Prim(lambda ex, a, k: z3.Function("available", ex.force(a[0]).t.sort(), z3.BoolSort())(ex.force(a[0]).t))
M = setup(Group("hypothesis.strategies._internal.misc"))
M.ns.update(S.ns)
M.cls("JustF", real=JustStrategy, fields=dict(elements=TSeq(A, "list"), _transformations=TTuple(TTuple(TConst("filter"), COND))))
M.fn("JustStrategy.do_filtered_draw", dict(self=TObj("JustF"), data=D), no_call=True, requires=["len(self.elements) == 1", "unmarked(self.elements[0])"],
     ensures=[("the-value", "result == self.elements[0] and self._transformations[0][1](result) if unmarked(result) else not self._transformations[0][1](self.elements[0])")], **NN)
FM_ = setup(Group("hypothesis.strategies._internal.flatmapped"))
FM_.ns.update(S.ns)
FM_.override("hypothesis.strategies._internal.flatmapped", "check_strategy", Prim(models.nothing))
FM_.ns["first_drawn"] = Prim(lambda ex, a, k: ex.store[("$first",)])
FM_.cls("FlatMapStrategy", real=FlatMapStrategy, fields=dict(base=ST, expand=TFn([A], ST)))
FM_.fn("FlatMapStrategy.do_draw", dict(self=TObj("FlatMapStrategy"), data=D), no_call=True,
       ensures=[("from-expansion", "exists_t(AnyT, lambda b: produces(self.base, b) and produces(self.expand(b), result))")], **NN)
R = setup(Group("hypothesis.strategies._internal.recursive"))
R.cls("LimitedStrategy", real=LimitedStrategy, fields=dict(base_strategy=ST, marker=Int, currently_capped=Bool))
R.fn("LimitedStrategy.do_draw", dict(self=TObj("LimitedStrategy"), data=D), no_call=True, requires=["self.currently_capped"], modifies=["self.marker"], raises={"LimitReached": "old(self.marker) <= 0"},
     ensures=[("counted", "self.marker == old(self.marker) - 1 and self.marker >= 0"), ("produced", "produces(self.base_strategy, result)")], **NN)
H = setup(Group("hypothesis.strategies._internal.shared"))
H.cls("SharedStrategy", real=SharedStrategy, fields=dict(key=A, base=ST))
H.fn("SharedStrategy.do_draw", dict(self=TObj("SharedStrategy"), data=D), no_call=True, modifies=["data._shared_strategy_draws"],
     ensures=[("same-each-time", "self.key in data._shared_strategy_draws and result == data._shared_strategy_draws[self.key]"),
              ("kept", "forall_t(AnyT, lambda x: implies(x in old(data._shared_strategy_draws), x in data._shared_strategy_draws and data._shared_strategy_draws[x] == old(data._shared_strategy_draws)[x]))"),
              ("drawn-once", "self.key in old(data._shared_strategy_draws) or produces(self.base, result)")], **NN)
from hypothesis.strategies._internal.core import PermutationStrategy
CO = setup(Group("hypothesis.strategies._internal.core"))
CO.cls("PermutationStrategy", real=PermutationStrategy, fields=dict(values=TSeq(A, "list")))
PERM = ["len(result) == len(self.values)", "forall(0, len(result), lambda k: exists(0, len(self.values), lambda m: result[k] == self.values[m]))", "forall(0, len(result), lambda k: forall(0, k, lambda j: result[j] != result[k]))"]
CO.fn("PermutationStrategy.do_draw", dict(self=TObj("PermutationStrategy"), data=D), returns=TList(A), no_call=True, requires=["forall(0, len(self.values), lambda k: forall(0, k, lambda j: self.values[j] != self.values[k]))"],
      ensures=[("permutation", " and ".join(PERM))], loops=[Loop(types=dict(result=TList(A)), inv=PERM)], **NN)
from hypothesis.strategies._internal.collections import ListStrategy, UniqueListStrategy, UniqueSampledListStrategy, TupleStrategy
from contracts import c_utils
C = setup(Group("hypothesis.strategies._internal.collections"))
RF = dict(opts=dict(no_native=True, real_fp=True))
C.opaque_attrs[("Strategy", "is_empty")] = lambda ex, b: z3.Function("is_empty", b.t.sort(), z3.BoolSort())(b.t)
SIZES = dict(element_strategy=ST, min_size=Int, max_size=Int, average_size=Real)
SINV = [("sizes", "0 <= self.min_size and self.min_size <= self.max_size and (self.min_size < self.average_size and self.average_size < self.max_size or self.min_size == self.max_size and self.average_size == self.min_size)"),
        ("empty", "not self.element_strategy.is_empty or self.min_size == 0")]
C.cls("ListStrategy", real=ListStrategy, fields=SIZES, inv=SINV)
C.fn("ListStrategy.do_draw", dict(self=TObj("ListStrategy"), data=D), returns=TList(A), self_invariant=True, no_call=True,
     ensures=[("size", "self.min_size <= len(result) and len(result) <= self.max_size"), ("elements", "forall(0, len(result), lambda k: produces(self.element_strategy, result[k]))")],
     loops=[Loop(types=dict(result=TList(A)), inv=["len(result) <= self.max_size and elements.count == len(result) and elements.min_size == self.min_size and elements.max_size == self.max_size and elements.forced_size is None and not elements.force_stop", "forall(0, len(result), lambda k: produces(self.element_strategy, result[k]))"])], **RF)
# lists of distinct elements: the filtered element strategy returns a value its condition accepts, or the marker
def _ffd(ex, a, kw):
    o = Obj(ex.alloc(("filtered",)), "FilteredDraw")
    ex.store[(o.key, "cond")], ex.store[(o.key, "strategy")] = a[1], a[0]
    return o


def _dfd(ex, a, kw):
    "do_filtered_draw: checked above for filters and samplings"
    if ex.branch(z3.Bool(ex.fresh("gave_up"))):
        return SENT
    v = draw(ex, [None, ex.store[(a[0].key, "strategy")]], {})
    ex.assume(zbool(ex.truth_pure(ex.call(ex.store[(a[0].key, "cond")], [v], {}))))
    return v


C.opaque_attrs[("Strategy", "_filter_for_filtered_draw")] = lambda ex, b: BoundV(b, Prim(_ffd))
C.cls("FilteredDraw", methods=dict(do_filtered_draw=Prim(_dfd)))
KEY = TFn([A], A)
UINV = "elements.count == len(result) and elements.min_size == self.min_size and elements.max_size == self.max_size and elements.forced_size is None and len(result) <= self.max_size and elements.rejections >= 0 and (not elements.force_stop or elements.count >= elements.min_size)"
for nk in (1, 2):
    C.cls(f"UniqueList{nk}", real=UniqueListStrategy, fields=dict(SIZES, keys=TTuple(*[KEY] * nk), tuple_suffixes=NoneT), inv=SINV)
    DIST = [f"forall(0, len(result), lambda k: forall(0, k, lambda j: self.keys[{q}](result[j]) != self.keys[{q}](result[k])))" for q in range(nk)]
    SEEN = [f"forall_t(AnyT, lambda x: (x in seen_sets[{q}]) == exists(0, len(result), lambda k: self.keys[{q}](result[k]) == x))" for q in range(nk)]
    PR = "forall(0, len(result), lambda k: produces(self.element_strategy, result[k]))"
    C.fn("UniqueListStrategy.do_draw", dict(self=TObj(f"UniqueList{nk}"), data=D), name=f"UniqueListStrategy.do_draw[{nk}]", returns=TList(A), self_invariant=True, no_call=True, raises={"StopTest": None},
         ensures=[("size", "self.min_size <= len(result) and len(result) <= self.max_size"), ("elements", PR), ("distinct", " and ".join(DIST))],
         loops=[Loop(types={"result": TList(A), "$map": TMap(A, NoneT)}, inv=[UINV, PR] + DIST + SEEN)], **RF)
for n in range(4):
    C.cls(f"Tuple{n}", real=TupleStrategy, fields=dict(element_strategies=TTuple(*[ST] * n)))
    C.fn("TupleStrategy.do_draw", dict(self=TObj(f"Tuple{n}"), data=D), name=f"TupleStrategy.do_draw[{n}]", no_call=True,
         ensures=[("each-from-its-strategy", " and ".join([f"len(result) == {n}"] + [f"produces(self.element_strategies[{k}], result[{k}])" for k in range(n)]))], **NN)
TR = lambda x: Opaque(z3.Function("transform", x.t.sort(), x.t.sort())(x.t), "Any")
C.cls("SampledEl", real=SampledFromStrategy, fields=dict(elements=TSeq(A, "list")), methods=dict(_transform=Prim(lambda ex, a, k: TR(ex.force(a[1])))))
def _copy(ex, a, kw):
    o = Obj(ex.alloc(("remaining",)), "Remaining")
    q = ex.as_seq(a[0])
    ex.store[(o.key, "values")], ex.store[(o.key, "n")] = q, q.n
    return o


def _pop(ex, a, kw):
    "LazySequenceCopy.pop (its own contract: C21): one of the elements, and one fewer remains"
    o, j = a[0], a[1]
    n = ex.rd((o.key, "n"))
    models.pre(ex, "pop:in-range", z3.And(zint(j) >= 0, zint(j) < zint(n)))
    ex.wr((o.key, "n"), zint(n) - 1)
    m = z3.Int(ex.fresh("popped"))
    q = ex.store[(o.key, "values")]
    ex.assume(z3.And(0 <= m, m < zint(q.n)))
    return q.get(m)


C.cls("Remaining", fields=dict(n=Int), methods=dict(pop=Prim(_pop), __len__=Prim(lambda ex, a, k: ex.rd((a[0].key, "n")))))
C.override(C.module, "LazySequenceCopy", Prim(_copy, "LazySequenceCopy"))
C.ns["tr"] = Prim(lambda ex, a, k: TR(ex.force(a[0])))
C.ns["unmarked"] = S.ns["unmarked"]
for nk in (1, 2):
    C.cls(f"UniqueSampled{nk}", real=UniqueSampledListStrategy, fields=dict(SIZES, element_strategy=TObj("SampledEl"), keys=TTuple(*[KEY] * nk), tuple_suffixes=NoneT), inv=SINV[:1] + [("enough", "self.max_size <= len(self.element_strategy.elements)")])
    DIST = [f"forall(0, len(result), lambda k: forall(0, k, lambda j: self.keys[{q}](result[j]) != self.keys[{q}](result[k])))" for q in range(nk)]
    SEEN = [f"forall_t(AnyT, lambda x: (x in seen_sets[{q}]) == exists(0, len(result), lambda k: self.keys[{q}](result[k]) == x))" for q in range(nk)]
    PR = "forall(0, len(result), lambda k: unmarked(result[k]) and exists(0, len(self.element_strategy.elements), lambda m: result[k] == tr(self.element_strategy.elements[m])))"
    C.fn("UniqueSampledListStrategy.do_draw", dict(self=TObj(f"UniqueSampled{nk}"), data=D), name=f"UniqueSampledListStrategy.do_draw[{nk}]", returns=TList(A), self_invariant=True, no_call=True, raises={"StopTest": None},
         ensures=[("size", "self.min_size <= len(result) and len(result) <= self.max_size"), ("elements", PR), ("distinct", " and ".join(DIST))],
         loops=[Loop(types={"result": TList(A), "$map": TMap(A, NoneT)}, inv=[UINV.replace("elements.", "should_draw."), "0 <= remaining.n and remaining.n <= len(self.element_strategy.elements)", PR] + DIST + SEEN)], **RF)
DEPS = c_utils.GROUPS if hasattr(c_utils, "GROUPS") else [c_utils.G]
GROUPS = [S, M, FM_, R, H, CO, C]
