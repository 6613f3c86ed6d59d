"""Contracts for hypothesis.internal.conjecture.utils: sizes of collections, weighted sampling."""
import math
from pyvc.values import *
from pyvc.ctx import Group
from pyvc.engine import Loop
from hypothesis.internal.conjecture.utils import many, Sampler
from contracts import models

G = Group("hypothesis.internal.conjecture.utils")
models.install(G)
D = TObj("Data")
# how many elements were kept, and that a finished collection has at least the minimum
F = dict(min_size=Int, max_size=Int, data=D, forced_size=TOpt(Int), p_continue=Real, count=Int, rejections=Int, drawn=Bool, force_stop=Bool, rejected=Bool, observe=Bool)
INV = [("sizes", "0 <= self.min_size and self.min_size <= self.max_size"), ("count", "0 <= self.count and self.count <= self.max_size"), ("rejections", "self.rejections >= 0"),
       ("p", "0 <= self.p_continue and self.p_continue <= 1 and (self.min_size == self.max_size or (self.p_continue > 0 and self.p_continue < 1))"),
       ("stop", "not self.force_stop or (self.count >= self.min_size and self.forced_size is None)"),
       ("forced", "self.forced_size is None or (self.min_size <= self.forced_size and self.forced_size <= self.max_size and self.count <= self.forced_size)")]
G.cls("many", real=many, fields=F, inv=INV)
FI = dict(F, max_size=TConst(math.inf))
INVI = [i for i in INV if i[0] not in ("sizes", "count", "p", "forced")] + [("sizes", "0 <= self.min_size"), ("count", "0 <= self.count"), ("p", "0 < self.p_continue and self.p_continue < 1"), ("forced", "self.forced_size is None or (self.min_size <= self.forced_size and self.count <= self.forced_size)")]
G.cls("many_inf", real=many, fields=FI, inv=INVI)
G.fn("_calc_p_continue", dict(desired_avg=Real, max_size=Real), returns=Real, trusted="bounded check only (float iteration)", requires=["0 <= desired_avg", "desired_avg <= max_size"],
     ensures=["0 <= result and result <= 1", "(result == 1) == (desired_avg == max_size)", "(result == 0) == (desired_avg == 0 and max_size > 0)"])
KW = dict(opts=dict(no_native=True, real_fp=True))
for cls, mx in (("many", Int),):
    G.fn("many.__init__", dict(self=TObj(cls), data=D, min_size=Int, max_size=mx, average_size=Real, forced=TOpt(Int), observe=Bool), name=f"{cls}.__init__", noinv=True, establishes_inv=True, modifies=["self." + f for f in F],
         requires=["0 <= min_size", "min_size <= max_size", "(min_size < average_size and average_size < max_size) or (min_size == max_size and average_size == min_size)", "forced is None or (min_size <= forced and forced <= max_size)"],
         ensures=[("fresh", "self.count == 0 and self.min_size == min_size and self.max_size == max_size and not self.force_stop and self.rejections == 0 and self.forced_size == forced")], **KW)
for cls in ("many", "many_inf"):
    rest = [("frame", "self.min_size == old(self.min_size) and self.max_size == old(self.max_size)")]
    G.fn("many.more", dict(self=TObj(cls)), name=f"{cls}.more", returns=Bool, self_invariant=True, modifies=["self.count", "self.drawn", "self.rejected"], select=lambda ex, a, k, cls=cls: a[0].cls == cls,
         requires=["not self.force_stop or self.forced_size is None or self.forced_size == self.count"],
         ensures=[("counts", "self.count == old(self.count) + (1 if result else 0)"), ("minimum", "result or self.count >= self.min_size"), ("maximum", "self.count <= self.max_size"), ("stopped", "not (self.force_stop and result)"),
                  ("must-go-on", "implies(old(self.count) < self.min_size, result)"), ("forced", "self.forced_size is None or self.min_size == self.max_size or old(self.force_stop) or result == (old(self.count) < self.forced_size)")], **KW)
    G.fn("many.reject", dict(self=TObj(cls), why=AnyT), name=f"{cls}.reject", returns=NoneT, self_invariant=True, select=lambda ex, a, k, cls=cls: a[0].cls == cls, modifies=["self.count", "self.rejections", "self.rejected", "self.force_stop"],
         requires=["self.count > 0", "self.forced_size is None", "not self.force_stop"], raises={"StopTest": None},
         ensures=[("uncounted", "self.count == old(self.count) - 1"), ("goes-on", "not self.force_stop or self.count >= self.min_size")],
         exc_ensures=[("gives-up-only-below-minimum", "self.count < self.min_size")], **KW)

TAB = TSeq(TTuple(Int, Int, Real), "list")
G.cls("Sampler", real=Sampler, fields=dict(observe=Bool, table=TAB),
      inv=[("table", "len(self.table) > 0"), ("rows", "forall(0, len(self.table), lambda k: self.table[k][0] <= self.table[k][1] and 0 <= self.table[k][2] and self.table[k][2] <= 1)")])
G.fn("Sampler.sample", dict(self=TObj("Sampler"), data=D, forced=TOpt(Int)), returns=Int, self_invariant=True,
     requires=["forced is None or exists(0, len(self.table), lambda k: forced == self.table[k][0] and self.table[k][2] < 1 or (forced == self.table[k][1] and self.table[k][2] > 0))",
               "forced is None or forall(0, len(self.table), lambda k: not (forced == self.table[k][0]) or self.table[k][2] < 1 or forced == self.table[k][1])"],
     ensures=[("forced", "forced is None or result == forced"),
              ("possible", "forced is not None or exists(0, len(self.table), lambda k: (result == self.table[k][0] and self.table[k][2] < 1) or (result == self.table[k][1] and self.table[k][2] > 0))")], **KW)
