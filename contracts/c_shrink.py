"""Contracts for shrinking (C12): a value is only ever replaced by a better one that satisfies the predicate."""
import z3
from pyvc.values import *
from pyvc.ctx import Group
from pyvc.engine import Loop, Obj, AND, NOT, zbool, zint, FuncV, PathEnd
from hypothesis.internal.conjecture.shrinking.common import Shrinker as ValueShrinker
from hypothesis.internal.conjecture.shrinking.integer import Integer
from hypothesis.internal.conjecture.shrinking.collection import Collection
from hypothesis.internal.conjecture.data import ConjectureResult, Status
from hypothesis.internal.conjecture.shrinker import Shrinker
from hypothesis.internal.conjecture.shrinking.floats import Float as FloatShrinker

NN = dict(opts=dict(no_native=True))
A = AnyT


def seen_has(ex, a, k):
    "which values were tried before makes no difference to what may be adopted"
    return ex.mk(Bool, ex.fresh("seen"))


SEEN = dict(__contains__=Prim(seen_has), add=Prim(lambda ex, a, k: None))

# ---- any shrinker of single values: `better` is its order, `pred` its predicate
S = Group("hypothesis.internal.conjecture.shrinking.common")
S.trusted.append("the predicate and the order of a value shrinker are deterministic functions of the value (the shrinker's documented assumption)")


def fn(name, *sorts):
    return lambda ex, a, k: z3.Function(name, *sorts)(*[ex.force(x).t for x in a])


ANY = sort_of("Any")
better, pred = fn("better", ANY, ANY, z3.BoolSort()), fn("pred", ANY, z3.BoolSort())
canon = lambda ex, a, k: Opaque(z3.Function("canonical", ANY, ANY)(ex.force(a[0]).t), "Any")
S.ns["better"], S.ns["pred"], S.ns["canon"], S.ns["immut"] = Prim(better), Prim(pred), Prim(canon), Prim(lambda ex, a, k: Opaque(z3.Function("immutable", ANY, ANY)(ex.force(a[0]).t), "Any"))
drop = lambda p: Prim(lambda ex, a, k: p(ex, a[1:], k))
S.cls("Seen", methods=SEEN)
S.cls("AnyShrinker", real=ValueShrinker, fields={"current": A, "initial": A, "changes": Int, "debugging_enabled": Bool, "_Shrinker__predicate": TConst(Prim(pred)), "_Shrinker__seen": TObj("Seen")},
      methods=dict(left_is_better=drop(better), make_canonical=drop(canon), make_immutable=drop(S.ns["immut"].fn), check_invariants=Prim(lambda ex, a, k: None), debug=Prim(lambda ex, a, k: None)))
CONSIDER = dict(returns=Bool, modifies=["self.current", "self.changes"])
S.fn("Shrinker.consider", dict(self=TObj("AnyShrinker"), value=A), select=lambda ex, a, k: a[0].cls == "AnyShrinker", **CONSIDER, **NN,
     ensures=[("adopted", "self.current == old(self.current) or (self.current == immut(value) and pred(self.current) and better(self.current, old(self.current)))"),
              ("true", "implies(result, canon(self.current) == canon(immut(value)))"), ("false", "implies(not result, self.current == old(self.current))"),
              ("count", "self.changes == old(self.changes) + (1 if result and canon(immut(value)) != canon(old(self.current)) else 0)")])

# ---- integers
I = Group("hypothesis.internal.conjecture.shrinking.integer")
IP = TFn([Int], Bool)
I.cls("Seen", methods=SEEN)
I.cls("Integer", real=Integer, fields={"current": Int, "initial": Int, "changes": Int, "full": Bool, "debugging_enabled": Bool, "_Shrinker__predicate": IP, "_Shrinker__seen": TObj("Seen")}, methods=dict(debug=Prim(lambda ex, a, k: None)),
      inv=["0 <= self.current and self.current <= self.initial", "self.current == self.initial or self._Shrinker__predicate(self.current)"])
SELF = TObj("Integer")
I.fn("Shrinker.consider", dict(self=SELF, value=Int), name="Integer.consider", select=lambda ex, a, k: a[0].cls == "Integer", module="hypothesis.internal.conjecture.shrinking.common", self_invariant=True, **CONSIDER, **NN, requires=["value >= 0"],
     ensures=[("smaller", "self.current == old(self.current) or (self.current == value and value < old(self.current) and self._Shrinker__predicate(value))"), ("true", "implies(result, self.current == value)"), ("false", "implies(not result, self.current == old(self.current))")])
I.fn("Integer.left_is_better", dict(self=SELF, left=Int, right=Int), returns=Bool, ensures=["result == (left < right)"], **NN)


def repeated(ex, a, k):
    """find_integer(f) calls f some number of times with positive arguments and returns a count; whatever f may change is
    arbitrary within the invariant, which every call of f must keep"""
    fr = ex.top_frame
    inv = ["0 <= self.current and self.current <= old(self.current)", "self.initial == old(self.initial)", "self.current == self.initial or self._Shrinker__predicate(self.current)"]
    obj = fr.vars["self"]
    say = lambda w: [ex.oblige(f"{ex.contract.name}:find_integer:{w}:{n}", ex.spec_bool(s, fr), kind="loop") for n, s in enumerate(inv)]
    say("init")
    for f in ("current", "changes"):
        ex.wr((obj.key, f), ex.mk(Int, ex.fresh(f)))
    for s in inv:
        ex.assume(ex.spec_bool(s, fr))
    if ex.branch(ex.mk(Bool, ex.fresh("again"))):
        n = ex.mk(Int, ex.fresh("k"))
        ex.assume(n >= 1)
        ex.call(a[0], [n], {})
        say("preserve")
        raise PathEnd
    r = ex.mk(Int, ex.fresh("found"))
    ex.assume(r >= 0)
    return r


IM = "hypothesis.internal.conjecture.shrinking.integer"
I.override(IM, "find_integer", Prim(repeated, "find_integer"))
I.trusted.append("find_integer calls its argument with positive integers only and returns a nonnegative one (contract of find_integer, C21)")
STEP = dict(self_invariant=True, modifies=["self.current", "self.changes"], **NN)
LESS = [("smaller", "self.current <= old(self.current)")]
for nm_ in ("mask_high_bits", "shift_right", "run_step"):
    I.fn("Integer." + nm_, dict(self=SELF), ensures=LESS, **STEP)
I.fn("Integer.shrink_by_multiples", dict(self=SELF, k=Int), requires=["k >= 1"], returns=Bool, ensures=LESS, **STEP)
I.fn("Integer.short_circuit", dict(self=SELF), returns=Bool, ensures=LESS + [("done", "implies(result, self.current <= 2)")], **STEP)
I.fn("Shrinker.run", dict(self=SELF), name="Integer.run", module="hypothesis.internal.conjecture.shrinking.common", ensures=LESS, loops=[Loop(inv=["0 <= self.current and self.current <= old(self.current)", "self.initial == old(self.initial)", "self.current == self.initial or self._Shrinker__predicate(self.current)"])], **STEP)

# ---- sequences, floats
K = Group("hypothesis.internal.conjecture.shrinking.collection")
K.cls("Collection", real=Collection, fields=dict(to_order=TFn([A], Int), from_order=TFn([Int], A), min_size=Int))
TA = TSeq(A, "tuple")
K.fn("Collection.left_is_better", dict(self=TObj("Collection"), left=TA, right=TA), returns=Bool, requires=["len(left) <= len(right)"],
     ensures=["result == (len(left) < len(right) or exists(0, len(left), lambda d: self.to_order(left[d]) < self.to_order(right[d]) and forall(0, d, lambda k: self.to_order(left[k]) == self.to_order(right[k]))))"],
     loops=[Loop(inv=["forall(0, _i, lambda k: self.to_order(left[k]) == self.to_order(right[k]))"])], **NN)
F = Group("hypothesis.internal.conjecture.shrinking.float")
F.cls("FloatShrinker", real=FloatShrinker, fields=dict())
F.override("hypothesis.internal.conjecture.shrinking.floats", "float_to_lex", Prim(lambda ex, a, k: z3.Function("lex", z3.BitVecSort(64), z3.IntSort())(ex.force(a[0]).bv)))
F.ns["lex"] = Prim(lambda ex, a, k: z3.Function("lex", z3.BitVecSort(64), z3.IntSort())(ex.force(a[0]).bv))
F.fn("Float.left_is_better", dict(self=TObj("FloatShrinker"), left=Float, right=Float), module="hypothesis.internal.conjecture.shrinking.floats", returns=Bool, ensures=["result == (lex(left) < lex(right))"], **NN)

# ---- test cases
T = Group("hypothesis.internal.conjecture.shrinker")
TM = "hypothesis.internal.conjecture.shrinker"
NODE, ANYS = sort_of("Node"), sort_of("Any")
node_attr = lambda nm: (lambda ex, b: Opaque(z3.Function("node_" + nm, NODE, ANYS)(b.t), "Any"))
for nm_ in ("value", "constraints"):
    T.opaque_attrs[("Node", nm_)] = node_attr(nm_)
two = lambda nm, sort: Prim(lambda ex, a, k: z3.Function(nm, ANYS, ANYS, sort)(ex.force(a[0]).t, ex.force(a[1]).t), nm)
T.override(TM, "choice_to_index", two("choice_index", z3.IntSort()))
T.override(TM, "choice_permitted", two("choice_permitted", z3.BoolSort()))
T.ns["ix"] = Prim(lambda ex, a, k: z3.Function("choice_index", ANYS, ANYS, z3.IntSort())(*[node_attr(n)(ex, ex.force(a[0])).t for n in ("value", "constraints")]))
T.trusted.append("choice_to_index and choice_permitted are functions of value and constraints (contracts of C01)")
NODES = TSeq(TOpaque("Node"), "tuple")
T.spec("""
def simpler(l, r):
    return len(l) < len(r) or (len(l) == len(r) and exists(0, len(l), lambda d: ix(l[d]) < ix(r[d]) and forall(0, d, lambda k: ix(l[k]) == ix(r[k]))))
""")
T.cls("Result", real=ConjectureResult, fields=dict(nodes=NODES, status=Int))
RS = TRef("Result")
PRED = Prim(lambda ex, a, k: z3.Function("test_case_ok", z3.IntSort(), z3.BoolSort())(ex.force(a[0]).id))
ALLOW = Prim(lambda ex, a, k: ex.mk(Bool, ex.fresh("allowed")))
T.ns["ok"] = PRED


def run_test(ex, a, k):
    "running a test gives any result at all"
    return ex.mk(RS, ex.fresh("ran"))


T.cls("Engine", fields=dict(call_count=Int, misaligned_count=Int), methods=dict(cached_test_function=Prim(run_test)))
T.cls("Shrinker", real=Shrinker, fields={"engine": TObj("Engine"), "shrink_target": RS, "shrinks": Int, "max_stall": Int, "calls_at_last_shrink": Int, "_Shrinker__predicate": TConst(PRED), "_Shrinker__allow_transition": TConst(ALLOW), "_Shrinker__derived_values": A, "_Shrinker__extend": A},
      inv=["ok(self.shrink_target)"])
TS = TObj("Shrinker")
MODS = ["self.shrink_target", "self.shrinks", "self.max_stall", "self.calls_at_last_shrink", "self._Shrinker__derived_values"]
BETTER = "self.shrink_target is old(self.shrink_target) or (ok(self.shrink_target) and self.shrink_target.status >= 2 and simpler(self.shrink_target.nodes, old(self.shrink_target).nodes))"
T.fn("Shrinker.update_shrink_target", dict(self=TS, new_target=RS), requires=["ok(new_target)"], self_invariant=True, modifies=MODS, ensures=[("set", "self.shrink_target is new_target"), ("counted", "self.shrinks == old(self.shrinks) + 1")], **NN)
T.fn("Shrinker.incorporate_test_data", dict(self=TS, data=RS), self_invariant=True, modifies=MODS, ensures=[("better", BETTER), ("only", "self.shrink_target is old(self.shrink_target) or self.shrink_target is data")], **NN)
T.fn("Shrinker.cached_test_function", dict(self=TS, nodes=NODES), returns=TTuple(Bool, TOpt(RS)), self_invariant=True, modifies=MODS, raises={"StopShrinking": None}, ensures=[("better", BETTER), ("told", "implies(self.shrink_target is not old(self.shrink_target), result[0])")], exc_ensures=[("better", BETTER)], **NN)
T.fn("Shrinker.consider_new_nodes", dict(self=TS, nodes=NODES), returns=Bool, self_invariant=True, modifies=MODS, raises={"StopShrinking": None}, ensures=[("better", BETTER), ("told", "implies(self.shrink_target is not old(self.shrink_target), result)")], exc_ensures=[("better", BETTER)], **NN)
GROUPS = [S, I, K, F, T]
