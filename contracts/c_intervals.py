"""Contracts for hypothesis.internal.intervalsets.IntervalSet."""
from pyvc.values import *
from pyvc.ctx import Group
from pyvc.engine import Loop
from hypothesis.internal.intervalsets import IntervalSet

G = Group("hypothesis.internal.intervalsets")
IV = TSeq(TTuple(Int, Int), "tuple")

# sorted and disjoint (neighbouring members allowed); `norm` adds that adjacent intervals are merged
G.spec("""
def sorted_iv(s):
    return forall(0, len(s), lambda i: 0 <= s[i][0] and s[i][0] <= s[i][1] and s[i][1] <= 0x10FFFF) and forall(0, len(s), lambda i: forall(i + 1, len(s), lambda j: s[i][1] < s[j][0]))
""")
G.spec("""
def norm_iv(s):
    return forall(0, len(s), lambda i: 0 <= s[i][0] and s[i][0] <= s[i][1] and s[i][1] <= 0x10FFFF) and forall(0, len(s), lambda i: forall(i + 1, len(s), lambda j: s[i][1] + 1 < s[j][0]))
""")
G.spec("""
def within(s, k, x):
    return s[k][0] <= x and x <= s[k][1]
""")
G.spec("""
def mem(s, x):
    return exists(0, len(s), lambda k: within(s, k, x))
""")
# `value` is the member at position `pos` of the sorted list of members
G.spec("""
def at(o, pos, value):
    return exists(0, len(o.intervals), lambda k: within(o.intervals, k, value) and pos == o.offsets[k] + value - o.intervals[k][0])
""")
G.spec("""
def above(o, value, r):
    # r members are smaller than value
    return ((r == o.size and forall(0, len(o.intervals), lambda k: o.intervals[k][1] < value))
            or exists(0, len(o.intervals), lambda k: (o.intervals[k][0] >= value and r == o.offsets[k] and forall(0, k, lambda m: o.intervals[m][1] < value))
                      or (within(o.intervals, k, value) and r == o.offsets[k] + value - o.intervals[k][0])))
""")
G.spec("""
def perm(zero, Z, i):
    return i if i > Z else (i + zero if i <= Z - zero else zero - (i - (Z - zero)))
""")
G.spec("""
def perm_inv(zero, Z, i):
    return i if i > Z else (i - zero if i >= zero else zero - i + (Z - zero))
""")
import z3
from pyvc.values import Prim
from pyvc.engine import zint, zbool


def _pos_of(ex, a, k):
    """position of a member in the sorted member list: defined by the intervals (they are disjoint, so the
    definition is consistent); an arbitrary number for anything that is not a member"""
    o, v = a
    iv, off = ex.store[(o.key, "intervals")], ex.rd(ex.store[(o.key, "offsets")].key)
    f = z3.Function(f"posof.{ex.fresh_n.get('posof', 0)}.{o.key}", z3.IntSort(), z3.IntSort())
    if ("posof", f.name()) not in ex.rec_facts:
        ex.rec_facts.add(("posof", f.name()))
        q, c = z3.Ints("_pk _pv")
        u, w = iv.get(q)
        ex.pc.append(z3.ForAll([q, c], z3.Implies(z3.And(0 <= q, q < zint(iv.n), zint(u) <= c, c <= zint(w)), f(c) == zint(off.get(q)) + c - zint(u)),
                               patterns=[z3.MultiPattern(f(c), zint(u))]))
    return f(zint(v))


def _order_of(ex, a, k):
    "place of a member in the simplicity order (named, so that it stays atomic in products)"
    o, v = a
    f = z3.Function(f"orderof.{o.key}", z3.IntSort(), z3.IntSort())
    p = _pos_of(ex, a, k)
    zero, Z = zint(ex.store[(o.key, "_idx_of_zero")]), zint(ex.store[(o.key, "_idx_of_Z")])
    if ("orderof", f.name()) not in ex.rec_facts:
        ex.rec_facts.add(("orderof", f.name()))
        c = z3.Int("_pv")
        pc = z3.Function(p.decl().name(), z3.IntSort(), z3.IntSort())(c)
        ex.pc.append(z3.ForAll([c], f(c) == z3.If(pc > Z, pc, z3.If(pc >= zero, pc - zero, zero - pc + (Z - zero))), patterns=[f(c)]))
    return f(zint(v))


G.ns["order_of"] = Prim(_order_of, "order_of")
G.native_ns["order_of"] = lambda o, v: o.index_from_char_in_shrink_order(chr(v))
G.ns["pos_of"] = Prim(_pos_of, "pos_of")
G.native_ns["pos_of"] = lambda o, v: list(o).index(v)
LAYOUT = [("sorted", "sorted_iv(self.intervals)"),
          ("offsets-len", "len(self.offsets) == len(self.intervals)"),
          ("first", "len(self.intervals) == 0 or self.offsets[0] == 0"),
          ("next", "forall(1, len(self.intervals), lambda k: self.offsets[k] == self.offsets[k - 1] + self.intervals[k - 1][1] - self.intervals[k - 1][0] + 1)"),
          ("mono", "forall(0, len(self.intervals), lambda i: self.offsets[i] >= 0 and forall(i + 1, len(self.intervals), lambda j: self.offsets[i] + self.intervals[i][1] - self.intervals[i][0] + 1 <= self.offsets[j]))"),
          ("size0", "len(self.intervals) > 0 or self.size == 0"),
          ("size", "len(self.intervals) == 0 or self.size == self.offsets[len(self.intervals) - 1] + self.intervals[len(self.intervals) - 1][1] - self.intervals[len(self.intervals) - 1][0] + 1"),
          ("ends", "forall(0, len(self.intervals), lambda k: self.offsets[k] + self.intervals[k][1] - self.intervals[k][0] + 1 <= self.size)"),
          ("size-nonneg", "self.size >= 0")]
ORDER = [("zero", "above(self, 48, self._idx_of_zero)"),
         ("Z", "(self._idx_of_Z == self.size - 1 and forall(0, len(self.intervals), lambda k: self.intervals[k][1] <= 90)) or (self._idx_of_Z < self.size and above(self, 90, self._idx_of_Z))"),
         ("zero-range", "0 <= self._idx_of_zero and self._idx_of_zero <= self.size"),
         ("Z-range", "self._idx_of_zero - 1 <= self._idx_of_Z and self._idx_of_Z < self.size")]
G.cls("IntervalSet", real=IntervalSet, fields=dict(intervals=IV, offsets=TList(Int), size=Int, _idx_of_zero=Int, _idx_of_Z=Int), inv=LAYOUT + ORDER)
IS = TObj("IntervalSet")


def gen_iv(rng):
    n = rng.randint(0, 6)
    out, x = [], rng.choice([0, 40, 45, 48, 60, 90, 0x10FF00])
    for _ in range(n):
        u = x + rng.choice([0, 1, 2, 5, 30])
        v = u + rng.choice([0, 0, 1, 2, 9, 60])
        if v > 0x10FFFF:
            break
        out.append((u, v))
        x = v + 2
    return tuple(out)


def _set(rng):
    return IntervalSet(gen_iv(rng))


G.fn("IntervalSet.__init__", dict(self=IS, intervals=IV), noinv=True, establishes_inv=True,
     requires=["sorted_iv(intervals)"],
     ensures=[("stored", "len(self.intervals) == len(intervals) and forall(0, len(intervals), lambda k: self.intervals[k][0] == intervals[k][0] and self.intervals[k][1] == intervals[k][1])")],
     loops=[Loop(inv=["len(self.offsets) == _i + 1", "self.offsets[0] == 0",
                      "forall(1, _i + 1, lambda k: self.offsets[k] == self.offsets[k - 1] + intervals[k - 1][1] - intervals[k - 1][0] + 1)",
                      "forall(0, _i, lambda i: self.offsets[i] >= 0 and forall(i + 1, _i + 1, lambda j: self.offsets[i] + intervals[i][1] - intervals[i][0] + 1 <= self.offsets[j]))",
                      "self.offsets[_i] >= 0"])],
     modifies=["self.intervals", "self.offsets", "self.size", "self._idx_of_zero", "self._idx_of_Z"], native_skip=("stored",))
G.fn("IntervalSet.__len__", dict(self=IS), returns=Int, ensures=["result == self.size"], pure_expr="self.size")
G.fn("IntervalSet.__getitem__", dict(self=IS, i=Int), returns=Int, self_invariant=True,
     raises={"IndexError": "i < -self.size or i >= self.size"},
     ensures=[("member", "at(self, (i if i >= 0 else self.size + i), result)"), ("range", "0 <= result and result <= 0x10FFFF")],
     gen=lambda rng: dict(self=_set(rng), i=rng.randint(-40, 40)),
     loops=[Loop(inv=["0 <= lo", "lo < hi", "hi <= len(self.intervals) - 1", "self.offsets[lo] <= i", "i < self.offsets[hi]"], decreases="hi - lo")])
G.fn("IntervalSet.__contains__", dict(self=IS, elem=Int), name="IntervalSet.__contains__[int]", returns=Bool, self_invariant=True, requires=["0 <= elem", "elem <= 0x10FFFF"],
     gen=lambda rng: dict(self=_set(rng), elem=rng.randint(0, 300)),
     pure_expr="mem(self.intervals, elem)", ensures=["result == mem(self.intervals, elem)"])
G.fn("IntervalSet.index", dict(self=IS, value=Int), returns=Int, self_invariant=True,
     raises={"ValueError": "not mem(self.intervals, value)"}, gen=lambda rng: dict(self=_set(rng), value=rng.randint(0, 200)),
     ensures=[("position", "at(self, result, value)")],
     loops=[Loop(inv=["forall(0, _i, lambda k: self.intervals[k][1] < value)"])])
G.fn("IntervalSet.index_above", dict(self=IS, value=Int), returns=Int, noinv=True, gen=lambda rng: dict(self=_set(rng), value=rng.randint(0, 200)),
     requires=[s.replace("self", "self") for _, s in LAYOUT],
     ensures=[("count", "above(self, value, result)"), ("range", "0 <= result and result <= self.size")],
     loops=[Loop(inv=["forall(0, _i, lambda k: self.intervals[k][1] < value)"])])
G.lemma("""
def lemma_above_mono(o, a, b, ra, rb):
    pass
""", dict(o=IS, a=Int, b=Int, ra=Int, rb=Int), requires=["a <= b", "above(o, a, ra)", "above(o, b, rb)", "0 <= rb", "rb <= o.size"], ensures=["ra <= rb"], native_skip=("all",))
G.lemma("""
def lemma_at_unique(o, i, j, v, w):
    pass
""", dict(o=IS, i=Int, j=Int, v=Int, w=Int), requires=["at(o, i, v)", "at(o, j, w)"], ensures=["(i == j) == (v == w)", "(i < j) == (v < w)", "0 <= i and i < o.size"], native_skip=("all",))
G.lemma("""
def lemma_perm(zero, Z, size, i):
    pass
""", dict(zero=Int, Z=Int, size=Int, i=Int), requires=["0 <= zero", "zero <= size", "zero - 1 <= Z", "Z < size", "0 <= i", "i < size"],
    ensures=["perm_inv(zero, Z, perm(zero, Z, i)) == i", "perm(zero, Z, perm_inv(zero, Z, i)) == i", "0 <= perm(zero, Z, i)", "perm(zero, Z, i) < size", "0 <= perm_inv(zero, Z, i)", "perm_inv(zero, Z, i) < size"])
G.fn("IntervalSet.char_in_shrink_order", dict(self=IS, i=Int), returns=Str(), self_invariant=True, requires=["0 <= i", "i < self.size"],
     gen=lambda rng: dict(self=_set(rng), i=rng.randint(0, 60)),
     ensures=[("position", "i == perm_inv(self._idx_of_zero, self._idx_of_Z, pos_of(self, ord(result)))"), ("order", "i == order_of(self, ord(result))"), ("member", "mem(self.intervals, ord(result))"),
              ("char", "len(result) == 1 and at(self, perm(self._idx_of_zero, self._idx_of_Z, i), ord(result))"),
              ("zero-first", "implies(i == 0 and mem(self.intervals, 48), ord(result) == 48)")])
G.fn("IntervalSet.index_from_char_in_shrink_order", dict(self=IS, c=Str()), returns=Int, self_invariant=True, requires=["len(c) == 1"],
     raises={"ValueError": "not mem(self.intervals, ord(c))"},
     gen=lambda rng: dict(self=_set(rng), c=chr(rng.randint(30, 140))),
     ensures=[("inverse", "at(self, perm(self._idx_of_zero, self._idx_of_Z, result), ord(c))"), ("position", "result == perm_inv(self._idx_of_zero, self._idx_of_Z, pos_of(self, ord(c)))"), ("order", "result == order_of(self, ord(c))"), ("range", "0 <= result and result < self.size")],
     hints=["lemma(lemma_perm(self._idx_of_zero, self._idx_of_Z, self.size, i))"])

# ---- set algebra
TWO = dict(self=IS, other=IS)
gen2 = lambda rng: dict(self=_set(rng), other=_set(rng))

def gen2(rng):
    a, b = _set(rng), _set(rng)
    xs = [p for u, v in a.intervals + b.intervals for p in (u - 1, u, v, v + 1)] or [0]
    return dict(self=a, other=b, x=rng.choice(xs), w=rng.randint(0, 6))


# x: an arbitrary character; w: an arbitrary interval it may lie in. Both universally quantified.
GH = dict(x=Int, w=Int)
G.spec("""
def memf(s, i, x):
    return exists(i, len(s), lambda k: within(s, k, x))
""")
G.fn("IntervalSet.intersection", TWO, ghost=GH, no_call=True, returns=IS, self_invariant=True, gen=gen2,
     requires=["norm_iv(self.intervals)", "norm_iv(other.intervals)"],
     types=dict(intervals=TList(TTuple(Int, Int))),
     ensures=[("only-common", "implies(mem(result.intervals, x), mem(self.intervals, x) and mem(other.intervals, x))"),
              ("all-common", "implies(mem(self.intervals, x) and mem(other.intervals, x), mem(result.intervals, x))"),
              ("normal", "norm_iv(result.intervals)")],
     loops=[Loop(types=dict(intervals=TList(TTuple(Int, Int))), inv=["0 <= i and i <= len(self.intervals)", "0 <= j and j <= len(other.intervals)", "norm_iv(intervals)",
                      "implies(mem(intervals, x), mem(self.intervals, x) and mem(other.intervals, x))",
                      "implies(mem(self.intervals, x) and mem(other.intervals, x), mem(intervals, x) or (memf(self.intervals, i, x) and memf(other.intervals, j, x)))",
                      "i >= len(self.intervals) or j >= len(other.intervals) or forall(0, len(intervals), lambda k: intervals[k][1] + 1 < max(self.intervals[i][0], other.intervals[j][0]))"],
                 decreases="len(self.intervals) - i + len(other.intervals) - j")])
G.spec("""
def sorted_desc(s):
    return forall(0, len(s), lambda i: 0 <= s[i][0] and s[i][0] <= s[i][1] and s[i][1] <= 0x10FFFF) and forall(0, len(s), lambda i: forall(i + 1, len(s), lambda j: s[j][0] <= s[i][0]))
""")
def gen3(rng):
    a = gen2(rng)
    a["ch"] = a.pop("x")
    return a


G.fn("IntervalSet.union", TWO, ghost=dict(ch=Int, w=Int), no_call=True, returns=IS, self_invariant=True, gen=gen3,
     types=dict(intervals=TList(TTuple(Int, Int)), result=TList(TTuple(Int, Int))),
     ensures=[("only-members", "implies(mem(result.intervals, ch), mem(self.intervals, ch) or mem(other.intervals, ch))"),
              ("all-left", "implies(0 <= w and w < len(self.intervals) and within(self.intervals, w, ch), mem(result.intervals, ch))"),
              ("all-right", "implies(0 <= w and w < len(other.intervals) and within(other.intervals, w, ch), mem(result.intervals, ch))"),
              ("normal", "implies(len(self.intervals) > 0 and len(other.intervals) > 0, norm_iv(result.intervals))")],
     hints=["sort_pos(w) >= 0", "sort_pos(len(self.intervals) + w) >= 0"],
     loops=[Loop(types=dict(intervals=TList(TTuple(Int, Int)), result=TList(TTuple(Int, Int))), inv=["len(result) >= 1", "norm_iv(result)", "sorted_desc(intervals)",
                      "forall(0, len(intervals), lambda k: result[len(result) - 1][0] <= intervals[k][0])",
                      "implies(mem(intervals, ch) or mem(result, ch), mem(self.intervals, ch) or mem(other.intervals, ch))",
                      "implies(0 <= w and w < len(self.intervals) and within(self.intervals, w, ch), mem(intervals, ch) or mem(result, ch))",
                      "implies(0 <= w and w < len(other.intervals) and within(other.intervals, w, ch), mem(intervals, ch) or mem(result, ch))"], decreases="len(intervals)")])
L2 = TList(TRef("$list2"))

G.fn("IntervalSet.difference", TWO, ghost=dict(ch=Int, w=Int), no_call=True, returns=IS, self_invariant=True, gen=gen3,
     requires=["norm_iv(self.intervals)", "norm_iv(other.intervals)"],
     types=dict(x=L2, result=L2), hints=["result.intervals[len(result.intervals) - (len(self.intervals) - w)][0] >= 0"],
     ensures=[("only-left", "implies(mem(result.intervals, ch), mem(self.intervals, ch))"),
              ("none-right", "implies(mem(result.intervals, ch), not mem(other.intervals, ch))"),
              ("all-left", "implies(0 <= w and w < len(self.intervals) and within(self.intervals, w, ch) and not mem(other.intervals, ch), mem(result.intervals, ch))"),
              ("normal", "norm_iv(result.intervals)")],
     loops=[Loop(types=dict(x=L2, result=L2), inv=[
         "0 <= i and i <= len(x) and len(x) == len(self.intervals)", "0 <= j and j <= len(y)",
         ("right-ends", "forall(i, len(x), lambda k: x[k][1] == self.intervals[k][1])"),
         ("left-ends", "forall(i + 1, len(x), lambda k: x[k][0] == self.intervals[k][0])"),
         ("current", "i >= len(x) or (self.intervals[i][0] <= x[i][0] and x[i][0] <= x[i][1])"),
         ("alive", "forall(0, len(result), lambda k: alive(result[k]))"),
         ("alive-x", "forall(0, len(x), lambda k: alive(x[k]))"),
         ("apart", "forall(0, len(result), lambda k: forall(i, len(x), lambda q: result[k] is not x[q]))"),
         ("normal", "norm_iv(result)"),
         ("gap", "i >= len(x) or forall(0, len(result), lambda k: result[k][1] + 1 < x[i][0])"),
         ("gap-rest", "forall(i, len(x), lambda q: forall(0, len(result), lambda k: result[k][1] + 1 < x[q][0]))"),
         ("cut", "i >= len(x) or x[i][0] == self.intervals[i][0] or (j > 0 and x[i][0] == y[j - 1][1] + 1)"),
         ("passed", "i >= len(x) or forall(0, j, lambda k: y[k][1] < x[i][0])"),
         ("only-left", "implies(mem(result, ch), mem(self.intervals, ch))"),
         ("none-right", "implies(mem(result, ch), not mem(other.intervals, ch))"),
         ("all-left", "implies(0 <= w and w < len(self.intervals) and within(self.intervals, w, ch) and not mem(other.intervals, ch), mem(result, ch) or (w >= i and within(x, w, ch)))"),
         ], decreases="len(x) - i + len(y) - j")])
