"""Contracts for the pareto front and the optimiser: dominance is exactly being better in every way; a target's score never gets worse."""
import z3
from pyvc.values import *
from pyvc.ctx import Group
from pyvc.engine import Loop, Obj, AND, NOT, zbool, zint
from hypothesis.internal.conjecture.data import ConjectureResult, Status
from hypothesis.internal.conjecture.optimiser import Optimiser
from hypothesis.internal.conjecture.pareto import DominanceRelation

NN = dict(opts=dict(no_native=True))
PM = "hypothesis.internal.conjecture.pareto"
G = Group(PM)
A = AnyT
G.override(PM, "sort_key", Prim(lambda ex, a, k: z3.Function("shortlex_rank", ex.force(a[0]).t.sort(), z3.IntSort())(ex.force(a[0]).t), "sort_key"))
G.ns["rank"] = Prim(lambda ex, a, k: z3.Function("shortlex_rank", ex.force(a[0]).t.sort(), z3.IntSort())(ex.force(a[0]).t))
G.cls("ConjectureResult", real=ConjectureResult, fields=dict(nodes=A, status=Int, tags=TMap(A, NoneT), interesting_origin=A, target_observations=TMap(A, Real)))
R = TObj("ConjectureResult")
G.spec("""
def score(r, t):
    return r.target_observations[t]
""")
G.spec("""
def noworse(l, r, t):
    # a missing score is minus infinity
    return (t not in r.target_observations) or (t in l.target_observations and score(l, t) >= score(r, t))
""")
G.spec("""
def better(l, r):
    return (rank(l.nodes) < rank(r.nodes) and l.status >= r.status and forall_t(AnyT, lambda t: implies(t in r.tags, t in l.tags))
            and (l.status != 3 or l.interesting_origin == r.interesting_origin) and forall_t(AnyT, lambda t: noworse(l, r, t)))
""")
assert int(Status.INTERESTING) == 3
for k_, v_ in (("EQ", DominanceRelation.EQUAL), ("LD", DominanceRelation.LEFT_DOMINATES), ("RD", DominanceRelation.RIGHT_DOMINATES), ("ND", DominanceRelation.NO_DOMINANCE)):
    G.ns[k_] = PyVal(v_)
ENS = [("equal", "(result == EQ) == (rank(left.nodes) == rank(right.nodes))"), ("left", "(result == LD) == better(left, right)"), ("right", "(result == RD) == better(right, left)"),
       ("one", "result == EQ or result == LD or result == RD or result == ND")]
G.fn("dominance", dict(left=R, right=R), recursive_ok=True, ensures=ENS, decreases="1 if rank(right.nodes) < rank(left.nodes) else 0",
     loops=[Loop(inv=["forall(0, _i, lambda k: noworse(left, right, _seq[k]))"])], **NN)

# ---- the hill climber keeps the best it has seen
O = Group("hypothesis.internal.conjecture.optimiser")
O.cls("Result", real=ConjectureResult, fields=dict(nodes=TSeq(A, "tuple"), status=Int, target_observations=TMap(A, Real)))
O.cls("Optimiser", real=Optimiser, fields=dict(target=A, current_data=TRef("Result"), max_improvements=Int, improvements=Int))
O.spec("""
def atleast(l, r, t):
    # a missing score is minus infinity
    return (t not in r.target_observations) or (t in l.target_observations and l.target_observations[t] >= r.target_observations[t])
""")
O.fn("Optimiser.consider_new_data", dict(self=TObj("Optimiser"), data=TRef("Result")), returns=Bool, modifies=["self.current_data", "self.improvements"],
     ensures=[("never-worse", "atleast(self.current_data, old(self.current_data), self.target)"),
              ("no-longer", "implies(atleast(old(self.current_data), self.current_data, self.target), len(self.current_data.nodes) <= len(old(self.current_data).nodes))"),
              ("adopted", "implies(result, self.current_data is data)"), ("kept", "implies(not result, self.current_data is old(self.current_data) and self.improvements == old(self.improvements))"),
              ("better-taken", "implies(data.status >= 2 and not atleast(old(self.current_data), data, self.target), result)"),
              ("invalid-refused", "implies(data.status < 2, not result)"), ("counted", "self.improvements - old(self.improvements) == (0 if atleast(old(self.current_data), self.current_data, self.target) else 1)")], **NN)
assert int(Status.VALID) == 2
GROUPS = [G, O]
