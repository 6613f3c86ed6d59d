"""Contracts for hypothesis.internal.conjecture.junkdrawer."""
from pyvc.values import *
from pyvc.ctx import Group
from pyvc.engine import Loop
from hypothesis.internal.conjecture.junkdrawer import SelfOrganisingList, LazySequenceCopy, NotFound

G = Group("hypothesis.internal.conjecture.junkdrawer")
PB = TFn([Int], Bool)
G.fn("binary_search", dict(lo=Int, hi=Int, f=PB), returns=Int, no_call=True,
     requires=["lo < hi", "f(lo) != f(hi)"],
     ensures=[("range", "lo <= result and result < hi"), ("boundary", "f(result) == f(lo) and f(result + 1) != f(lo)")],
     loops=[Loop(inv=["old(lo) <= lo", "lo < hi", "hi <= old(hi)", "f(lo) == f(old(lo))", "f(hi) != f(old(lo))"], decreases="hi - lo")])
# partial correctness: the exponential probe ends only if f fails somewhere above
G.fn("find_integer", dict(f=PB), returns=Int, no_call=True, ensures=[("boundary", "result >= 0 and (result == 0 or f(result)) and not f(result + 1)")],
     loops=[None, Loop(inv=["4 <= lo", "lo < hi", "f(lo)"]), Loop(inv=["4 <= lo", "lo < hi", "f(lo)", "not f(hi)"], decreases="hi - lo")])
A = AnyT
REP = TSeq(TTuple(Int, Int, TSeq(A, "list")), "list")
SH = TFn([Int], Int)
# shift(k): how far elements after the first k replacements have moved
G.fn("replace_all", dict(ls=TSeq(A, "list"), replacements=REP), ghost=dict(shift=SH), returns=TList(A), no_call=True,
     requires=["shift(0) == 0", "forall(0, len(replacements), lambda k: shift(k + 1) == shift(k) + len(replacements[k][2]) - (replacements[k][1] - replacements[k][0]))",
               "forall(0, len(replacements), lambda k: 0 <= replacements[k][0] and replacements[k][0] <= replacements[k][1] and replacements[k][1] <= len(ls))",
               "forall(1, len(replacements), lambda k: replacements[k - 1][1] <= replacements[k][0])"],
     types=dict(result=TList(A)),
     ensures=[("length", "len(result) == len(ls) + shift(len(replacements))"),
              ("replaced", "forall(0, len(replacements), lambda k: forall(0, len(replacements[k][2]), lambda t: result[replacements[k][0] + shift(k) + t] == replacements[k][2][t]))"),
              ("before", "forall(0, len(ls) if len(replacements) == 0 else replacements[0][0], lambda x: result[x] == ls[x])"),
              ("between", "forall(1, len(replacements), lambda k: forall(replacements[k - 1][1], replacements[k][0], lambda x: result[x + shift(k)] == ls[x]))"),
              ("after", "len(replacements) == 0 or forall(replacements[len(replacements) - 1][1], len(ls), lambda x: result[x + shift(len(replacements))] == ls[x])")],
     loops=[Loop(types=dict(result=TList(A)), inv=[
         "offset == shift(_i)", "prev == (0 if _i == 0 else replacements[_i - 1][1])", "len(result) == prev + shift(_i)", "0 <= prev and prev <= len(ls)",
         "forall(0, _i, lambda k: replacements[k][0] + shift(k) >= 0 and replacements[k][0] + shift(k) + len(replacements[k][2]) <= len(result) and forall(0, len(replacements[k][2]), lambda t: result[replacements[k][0] + shift(k) + t] == replacements[k][2][t]))",
         "_i == 0 or forall(0, replacements[0][0], lambda x: result[x] == ls[x])",
         "_i == 0 or replacements[0][0] <= len(result)",
         "forall(1, _i, lambda k: replacements[k - 1][1] + shift(k) >= 0 and replacements[k][0] + shift(k) <= len(result) and forall(replacements[k - 1][1], replacements[k][0], lambda x: result[x + shift(k)] == ls[x]))"])])
G.fn("startswith", dict(l1=TSeq(A, "list"), l2=TSeq(A, "list")), returns=Bool, no_call=True, ensures=["result == (len(l2) <= len(l1) and forall(0, len(l2), lambda k: l1[k] == l2[k]))"])
G.fn("endswith", dict(l1=TSeq(A, "list"), l2=TSeq(A, "list")), returns=Bool, no_call=True, ensures=["result == (len(l2) <= len(l1) and forall(0, len(l2), lambda k: l1[len(l1) - len(l2) + k] == l2[k]))"])
G.fn("bits_to_bytes", dict(n=Int), returns=Int, requires=["n >= 0"], ensures=["8 * result >= n and 8 * (result - 1) < n"], gen=lambda r: dict(n=r.randint(0, 300)))

G.cls("SelfOrganisingList", real=SelfOrganisingList, fields={"_SelfOrganisingList__values": TList(A)})
G.fn("SelfOrganisingList.find", dict(self=TObj("SelfOrganisingList"), condition=TFn([TAny()], Bool)), returns=A, no_call=True,
     modifies=["self._SelfOrganisingList__values"],
     raises={"NotFound": None},
     ensures=[("satisfies", "condition(result)"), ("len", "len(self._SelfOrganisingList__values) == len(old(self._SelfOrganisingList__values))"),
              ("front", "self._SelfOrganisingList__values[len(self._SelfOrganisingList__values) - 1] == result"),
              ("moved", "exists(0, len(self._SelfOrganisingList__values), lambda k: old(self._SelfOrganisingList__values)[k] == result and forall(0, k, lambda j: self._SelfOrganisingList__values[j] == old(self._SelfOrganisingList__values)[j]) and forall(k + 1, len(self._SelfOrganisingList__values), lambda j: self._SelfOrganisingList__values[j - 1] == old(self._SelfOrganisingList__values)[j]))")],
     exc_ensures=[("none", "forall(0, len(self._SelfOrganisingList__values), lambda k: not condition(self._SelfOrganisingList__values[k]))")],
     loops=[Loop(inv=["len(self._SelfOrganisingList__values) == len(old(self._SelfOrganisingList__values))", "forall(0, len(self._SelfOrganisingList__values), lambda k: self._SelfOrganisingList__values[k] == old(self._SelfOrganisingList__values)[k])", "forall(len(self._SelfOrganisingList__values) - _i, len(self._SelfOrganisingList__values), lambda k: not condition(self._SelfOrganisingList__values[k]))"])])
G.fn("SelfOrganisingList.add", dict(self=TObj("SelfOrganisingList"), value=A), returns=NoneT, no_call=True, modifies=["self._SelfOrganisingList__values"],
     ensures=[("appended", "len(self._SelfOrganisingList__values) == len(old(self._SelfOrganisingList__values)) + 1 and self._SelfOrganisingList__values[len(self._SelfOrganisingList__values) - 1] == value"),
              ("kept", "forall(0, len(old(self._SelfOrganisingList__values)), lambda k: self._SelfOrganisingList__values[k] == old(self._SelfOrganisingList__values)[k])")])

L = "_LazySequenceCopy__"
G.cls("LazySequenceCopy", real=LazySequenceCopy, fields={L + "values": TSeq(A, "list"), L + "len": Int, L + "mask": TOpt(TMap(Int, A)), L + "popped_indices": TOpt(TList(Int, "sorted"))},
      inv=[("len", "self._LazySequenceCopy__len == len(self._LazySequenceCopy__values)"),
           ("popped", "self._LazySequenceCopy__popped_indices is None or (len(self._LazySequenceCopy__popped_indices) <= len(self._LazySequenceCopy__values) and popok(self._LazySequenceCopy__popped_indices, len(self._LazySequenceCopy__values)))")])
# strictly increasing, stated with distances
G.spec("""
def popok(P, n):
    return forall(0, len(P), lambda i: 0 <= P[i] and P[i] < n and P[i] >= i and n - P[i] >= len(P) - i) and forall(0, len(P), lambda i: forall(i + 1, len(P), lambda j: P[j] - P[i] >= j - i))
""")
G.spec("""
def npop(o):
    return 0 if o._LazySequenceCopy__popped_indices is None else len(o._LazySequenceCopy__popped_indices)
""")
# r is the place, in the sequence copied, of element i: k popped places lie below it and r = i + k
G.spec("""
def under(o, i, r):
    return (r == i) if o._LazySequenceCopy__popped_indices is None else (0 <= r - i and r - i <= len(o._LazySequenceCopy__popped_indices) and (r == i or o._LazySequenceCopy__popped_indices[r - i - 1] < r) and (r - i == len(o._LazySequenceCopy__popped_indices) or o._LazySequenceCopy__popped_indices[r - i] > r))
""")
G.spec("""
def val(o, r):
    return o._LazySequenceCopy__mask[r] if o._LazySequenceCopy__mask is not None and r in o._LazySequenceCopy__mask else o._LazySequenceCopy__values[r]
""")
LS = TObj("LazySequenceCopy")
OUT = "i < -(len(self._LazySequenceCopy__values) - npop(self)) or i >= len(self._LazySequenceCopy__values) - npop(self)"
NI = "(i if i >= 0 else i + len(self._LazySequenceCopy__values) - npop(self))"
V, M, P = "self._LazySequenceCopy__values", "self._LazySequenceCopy__mask", "self._LazySequenceCopy__popped_indices"
KW = dict(self_invariant=True, opts=dict(no_native=True))
G.fn("LazySequenceCopy.__init__", dict(self=LS, values=TSeq(A, "list")), noinv=True, establishes_inv=True, opts=dict(no_native=True), modifies=["self." + L + x for x in ("values", "len", "mask", "popped_indices")],
     ensures=[("same", f"len({V}) == len(values) and forall(0, len(values), lambda q: val(self, q) == values[q])"), ("whole", f"npop(self) == 0 and {M} is None")])
G.fn("LazySequenceCopy.__len__", dict(self=LS), returns=Int, ensures=[("n", f"result == len({V}) - npop(self)"), ("nonneg", "result >= 0")], **KW)
G.fn("LazySequenceCopy.__underlying_index", dict(self=LS, i=Int), returns=Int, raises={"IndexError": OUT},
     ensures=[("place", f"under(self, {NI}, result)"), ("inside", f"0 <= result and result < len({V})")],
     loops=[Loop(inv=["i == old(" + NI + ") + _i", "forall(0, _i, lambda j: _seq[j] < i)", "_i == 0 or _seq[_i - 1] < i"])], **KW)
G.fn("LazySequenceCopy.__getitem__", dict(self=LS, i=Int), returns=A, raises={"IndexError": OUT},
     ensures=[("element", f"exists(0, len({V}), lambda r: under(self, {NI}, r) and result == val(self, r))"), ("unique", f"forall(0, len({V}), lambda r: not under(self, {NI}, r) or result == val(self, r))")], **KW)
G.fn("LazySequenceCopy.__setitem__", dict(self=LS, i=Int, v=A), returns=NoneT, raises={"IndexError": OUT}, modifies=[M],
     ensures=[("set", f"exists(0, len({V}), lambda r: under(self, {NI}, r) and forall(0, len({V}), lambda q: val(self, q) == (v if q == r else old(val(self, q)))))"),
              ("unique", f"forall(0, len({V}), lambda r: not under(self, {NI}, r) or forall(0, len({V}), lambda q: val(self, q) == (v if q == r else old(val(self, q)))))")], **KW)
NJ = NI.replace("(i if i >= 0 else i", "(j if j >= 0 else j")
G.fn("LazySequenceCopy.swap", dict(self=LS, i=Int, j=Int), ghost=dict(r=Int, s=Int), returns=NoneT, raises={"IndexError": None}, modifies=[M],
     requires=[f"0 <= r and r < len({V}) and under(self, {NI}, r)", f"0 <= s and s < len({V}) and under(self, {NJ}, s)", f"not ({OUT})", f"not ({OUT.replace('i <', 'j <').replace('i >=', 'j >=')})"],
     ensures=[("swapped", f"forall(0, len({V}), lambda q: val(self, q) == (old(val(self, s)) if q == r else (old(val(self, r)) if q == s else old(val(self, q)))))")], **KW)
ONI = "old" + NI
G.fn("LazySequenceCopy.pop", dict(self=LS, i=Int), returns=A, ghost=dict(x=Int, rx=Int), raises={"IndexError": OUT}, modifies=[M, P], requires=["0 <= rx", f"rx < len({V})", "under(self, x, rx)", f"0 <= x and x < len({V}) - npop(self)"],
     ensures=[("element", f"exists(0, len({V}), lambda r: old(under(self, {NI}, r)) and result == old(val(self, r)))"), ("length", "npop(self) == old(npop(self)) + 1"),
              ("others", f"x == {ONI} or val(self, rx) == old(val(self, rx))"), ("shift", f"x == {ONI} or under(self, x if x < {ONI} else x - 1, rx)")], **KW)
