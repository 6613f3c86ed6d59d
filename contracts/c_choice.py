"""Contracts for hypothesis.internal.conjecture.choice (integers and booleans)."""
from pyvc.values import *
from pyvc.ctx import Group
from pyvc.engine import Loop

G = Group("hypothesis.internal.conjecture.choice")

# value at a given distance order: the specification of the shrink order of integers
G.spec("""
def zz(value, s):
    return 2 * abs(s - value) - (1 if value > s else 0)
""")
G.spec("""
def clampi(s, lo, hi):
    s1 = s if lo is None else max(lo, s)
    return s1 if hi is None else min(hi, s1)
""")
G.spec("""
def permitted_int(v, lo, hi):
    return (lo is None or v >= lo) and (hi is None or v <= hi)
""")
G.spec("""
def ispec(v, lo, hi, s0):
    # the simplest-first order: distance zigzag until one side is exhausted, then straight out
    s = clampi(s0, lo, hi)
    return (zz(v, s) if (lo is None and hi is None)
            else (v - lo if (hi is None or (lo is not None and s - lo < hi - s)) and abs(v - s) > s - lo
                  else (hi - v if (not (hi is None or (lo is not None and s - lo < hi - s))) and abs(v - s) > hi - s else zz(v, s))))
""")
IC = TDict(min_value=TOpt(Int), max_value=TOpt(Int), shrink_towards=Int, weights=NoneT)

G.fn("zigzag_index", dict(value=Int, shrink_towards=Int), returns=Int,
     ensures=[("order", "result == zz(value, shrink_towards)"), ("nonneg", "result >= 0")])
G.fn("zigzag_value", dict(index=Int, shrink_towards=Int), requires=["index >= 0"], returns=Int,
     ensures=[("inverse", "zz(result, shrink_towards) == index")])
for w in ("none",):
    G.fn("choice_to_index", dict(choice=Int, constraints=IC), name="choice_to_index[int]", returns=Int,
         select=lambda ex, a, k: False,
         requires=["permitted_int(choice, constraints['min_value'], constraints['max_value'])"],
         ensures=[("order", "result == ispec(choice, constraints['min_value'], constraints['max_value'], constraints['shrink_towards'])"),
                  ("nonneg", "result >= 0"),
                  ("bounded", "implies(constraints['min_value'] is not None and constraints['max_value'] is not None, result <= constraints['max_value'] - constraints['min_value'])")])
G.fn("choice_from_index", dict(index=Int, choice_type=TConst("integer"), constraints=IC), name="choice_from_index[int]", returns=Int,
     select=lambda ex, a, k: False,
     requires=["index >= 0",
               "constraints['min_value'] is None or constraints['max_value'] is None or (constraints['min_value'] <= constraints['max_value'] and index <= constraints['max_value'] - constraints['min_value'])"],
     ensures=[("permitted", "permitted_int(result, constraints['min_value'], constraints['max_value'])"),
              ("inverse", "ispec(result, constraints['min_value'], constraints['max_value'], constraints['shrink_towards']) == index")])
G.fn("choice_permitted", dict(choice=Int, constraints=IC), name="choice_permitted[int]", returns=Bool, select=lambda ex, a, k: False,
     ensures=["result == permitted_int(choice, constraints['min_value'], constraints['max_value'])"])
OI = TOpt(Int)
G.lemma("""
def lemma_ispec_injective(v, w, lo, hi, s):
    pass
""", dict(v=Int, w=Int, lo=OI, hi=OI, s=Int),
    requires=["permitted_int(v, lo, hi)", "permitted_int(w, lo, hi)", "ispec(v, lo, hi, s) == ispec(w, lo, hi, s)"], ensures=["v == w"])
G.lemma("""
def lemma_ispec_simplest(lo, hi, s):
    pass
""", dict(lo=OI, hi=OI, s=Int), requires=["lo is None or hi is None or lo <= hi"],
    ensures=["ispec(clampi(s, lo, hi), lo, hi, s) == 0", "permitted_int(clampi(s, lo, hi), lo, hi)"])

# ---- booleans
BC = TDict(p=Float)
G.fn("choice_to_index", dict(choice=Bool, constraints=BC), name="choice_to_index[bool]", returns=Int, select=lambda ex, a, k: False,
     requires=["not isnan(constraints['p'])"],
     ensures=["result == (1 if choice and (2.0**-64 < constraints['p'] and constraints['p'] < 1 - 2.0**-64) else 0)"])
G.fn("choice_from_index", dict(index=Int, choice_type=TConst("boolean"), constraints=BC), name="choice_from_index[bool]", returns=Bool, select=lambda ex, a, k: False,
     requires=["not isnan(constraints['p'])", "index == 0 or index == 1", "2.0**-64 < constraints['p'] and constraints['p'] < 1 - 2.0**-64 or index == 0"],
     ensures=["result == ((index == 1) if (2.0**-64 < constraints['p'] and constraints['p'] < 1 - 2.0**-64) else constraints['p'] >= 0.5)"])
G.fn("choice_permitted", dict(choice=Bool, constraints=BC), name="choice_permitted[bool]", returns=Bool, select=lambda ex, a, k: False,
     requires=["not isnan(constraints['p'])"],
     ensures=["result == ((not choice) if constraints['p'] <= 0.0 else (choice if constraints['p'] >= 1.0 else True))"])

# ---- collections: length first, then base-`alphabet` value (Horner), shifted by the sizes below min_size
G.recspec("""
def geo(k, a):
    return 0 if k <= 0 else a * geo(k - 1, a) + 1
""", [Int, Int])
G.lemma("""
def lemma_geo_closed(k, a):
    if k > 0:
        lemma_geo_closed(k - 1, a)
""", dict(k=Int, a=Int), requires=["k >= 0", "a >= 2"], ensures=["(a - 1) * geo(k, a) == pow(a, k) - 1", "geo(k, a) >= 0"], decreases="k",
    hints=["unfold(geo(k, a))", "pow(a, k) == pow(a, k)"])
G.lemma("""
def lemma_div_exact(d, g):
    pass
""", dict(d=Int, g=Int), requires=["d >= 1"], ensures=["(d * g) // d == g"])
G.lemma("""
def lemma_cancel(d, x, y):
    pass
""", dict(d=Int, x=Int, y=Int), requires=["d >= 1"], ensures=["(d * x <= d * y) == (x <= y)", "(d * x < d * y) == (x < y)"])
G.lemma("""
def lemma_geo_one(k):
    if k > 0:
        lemma_geo_one(k - 1)
""", dict(k=Int), requires=["k >= 0"], ensures=["geo(k, 1) == k"], decreases="k", hints=["unfold(geo(k, 1))"])
G.lemma("""
def lemma_pow_mono(a, i, j):
    if i < j:
        lemma_pow_mono(a, i, j - 1)
""", dict(a=Int, i=Int, j=Int), requires=["a >= 1", "0 <= i", "i <= j"], ensures=["pow(a, i) <= pow(a, j)"], decreases="j - i", hints=["pow(a, j) == pow(a, j)"])
G.lemma("""
def lemma_pow_one(k):
    if k > 0:
        lemma_pow_one(k - 1)
""", dict(k=Int), requires=["k >= 0"], ensures=["pow(1, k) == 1"], decreases="k", hints=["pow(1, k) == pow(1, k)"])
G.lemma("""
def lemma_geo_mono(a, i, j):
    if i < j:
        lemma_geo_mono(a, i, j - 1)
""", dict(a=Int, i=Int, j=Int), requires=["a >= 1", "0 <= i", "i <= j"], ensures=["geo(i, a) <= geo(j, a)", "geo(i, a) >= 0"], decreases="j - i",
    hints=["unfold(geo(j, a))", "lemma(lemma_geo_closed(j, a))", "lemma(lemma_geo_closed(i, a))", "lemma(lemma_geo_closed(j - 1, a))", "lemma(lemma_geo_one(i))", "lemma(lemma_geo_one(j))"])
def _gen_size(rng):
    a = rng.choice([0, 1, 2, 3, 5, 26, 96, 256, 1112064, rng.randint(1, 300)])
    return dict(size=0 if a == 0 else rng.randint(0, 60), alphabet_size=a)


def _gen_index(rng):
    a = rng.choice([0, 1, 1, 2, 3, 5, 7, 10, 26, 31, 96, 256, 1112064, rng.randint(1, 300)])
    if a <= 1 or rng.random() < 0.2:
        return dict(index=rng.randint(0, 300), alphabet_size=a)
    k = rng.randint(0, 60)
    return dict(index=max(0, (a**k - 1) // (a - 1) + rng.randint(-2, 2)) if rng.random() < 0.8 else rng.getrandbits(rng.randint(1, 200)), alphabet_size=a)


G.fn("_size_to_index", dict(size=Int, alphabet_size=Int), returns=Int, gen=_gen_size,
     requires=["size >= 0", "alphabet_size >= 0", "alphabet_size > 0 or size == 0"],
     ensures=[("geometric", "result == geo(size, alphabet_size)"), ("nonneg", "result >= 0")],
     hints=["lemma(lemma_geo_closed(size, alphabet_size))", "lemma(lemma_geo_one(size))", "unfold(geo(size, alphabet_size))",
            "lemma(lemma_div_exact(alphabet_size - 1, geo(size, alphabet_size)))"])
import math
import z3
from pyvc.engine import zint, is_sym
from pyvc import prims


def _log(ex, a, k):
    """trusted contract of math.log(n, b) for ints n >= 1, b >= 2: a real within 5e-8 of log_b(n).
    Stated without logarithms: b**m <= n whenever m <= L - 5e-8, and n < b**m whenever m >= L + 5e-8 (m >= 0)."""
    n, b = ex.force(a[0]), ex.force(a[1])
    if not is_sym(n) and not is_sym(b):
        return math.log(n, b)
    n, b = zint(n), zint(b)
    ex.oblige(f"{ex.contract.name}:math.log domain", z3.And(n >= 1, b >= 2), kind="pre")
    L = z3.Real(ex.fresh("log"))
    m = z3.Int("_logm")
    f = ex.ctx.pow_fn()
    eps = z3.Q(1, 2 * 10**7)
    ex.assume(L >= -eps)
    for mm in (lambda q: q,):
        ex.pc.append(z3.ForAll([m], z3.Implies(z3.And(m >= 0, z3.ToReal(m) <= L - eps), f(b, m) <= n), patterns=[f(b, m)]))
        ex.pc.append(z3.ForAll([m], z3.Implies(z3.And(m >= 0, z3.ToReal(m) >= L + eps), n < f(b, m)), patterns=[f(b, m)]))
    return RealV(L)


prims.LIB[math.log] = Prim(_log, "log")
G.trusted.append("math.log(n, b): absolute error below 5e-8 (holds for arguments below b**(2**26)); modelled as a real number")
G.fn("_index_to_size", dict(index=Int, alphabet_size=Int), returns=Int, gen=_gen_index, opts=dict(native_n=3000),
     requires=["index >= 0", "alphabet_size >= 0"],
     ensures=[("nonneg", "result >= 0"),
              ("size-lower", "implies(alphabet_size >= 1, geo(result, alphabet_size) <= index)"),
              ("size-upper", "implies(alphabet_size >= 1, index < geo(result + 1, alphabet_size))"),
              ("empty-alphabet", "implies(alphabet_size == 0, result == 0)")],
     loops=[Loop(inv=["s >= 0", "total >= 1", "pow(alphabet_size, s) * total <= index * (alphabet_size - 1) + 1", "index * (alphabet_size - 1) + 1 < pow(alphabet_size, s) * (total + 1)"],
                 decreases="total")],
     hints=["lemma(lemma_geo_closed(result, alphabet_size))", "lemma(lemma_geo_closed(result + 1, alphabet_size))", "lemma(lemma_geo_one(result))", "lemma(lemma_geo_one(result + 1))",
            "lemma(lemma_cancel(alphabet_size - 1, geo(result, alphabet_size), index))",
            "lemma(lemma_cancel(alphabet_size - 1, index, geo(result + 1, alphabet_size)))"])
HV = TFn([Int], Int)     # a Horner accumulator: V(k) = base-a value of the first k digits
ORD = TFn([TAny()], Int)
G.spec("""
def horner(V, s, order, a):
    return V(0) == 0 and forall(0, len(s), lambda k: V(k + 1) == a * V(k) + order(s[k]))
""")
G.fn("collection_index", dict(choice=TSeq(AnyT, "list"), min_size=Int, alphabet_size=Int, to_order=ORD), ghost=dict(V=HV), returns=Int, no_call=True,
     requires=["0 <= min_size", "min_size <= len(choice)", "alphabet_size >= 0", "alphabet_size > 0 or len(choice) == 0",
               "horner(V, choice, to_order, alphabet_size)"],
     ensures=[("order", "result == geo(len(choice), alphabet_size) - geo(min_size, alphabet_size) + V(len(choice))")],
     loops=[Loop(inv=["running_exp == pow(alphabet_size, _i)",
                      "index - (geo(len(choice), alphabet_size) - geo(min_size, alphabet_size)) + V(len(choice) - _i) * pow(alphabet_size, _i) == V(len(choice))"])],
     hints=["V(len(choice) - _i) == alphabet_size * V(len(choice) - _i - 1) + to_order(choice[len(choice) - _i - 1]) or len(choice) - _i <= 0"])
G.fn("collection_value", dict(index=Int, min_size=Int, alphabet_size=Int, from_order=TFn([Int], TAny())), ghost=dict(V=HV, to_order=ORD), returns=TList(AnyT), no_call=True,
     requires=["index >= 0", "min_size >= 0", "alphabet_size >= 0", "alphabet_size >= 1 or (index == 0 and min_size == 0)",
               "forall(0, alphabet_size, lambda n: to_order(from_order(n)) == n)"],
     raises={"ChoiceTooLarge": None},
     types=dict(vals=TList(AnyT)),
     ensures=[("inverse", "implies(alphabet_size >= 1 and horner(V, result, to_order, alphabet_size), geo(len(result), alphabet_size) - geo(min_size, alphabet_size) + V(len(result)) == old(index))"),
              ("min-size", "len(result) >= min_size"),
              ("size", "implies(alphabet_size >= 1, geo(len(result), alphabet_size) <= old(index) + geo(min_size, alphabet_size))"),
              ("digits", "forall(0, len(result), lambda k: exists(0, alphabet_size, lambda d: result[k] == from_order(d)))")],
     loops=[Loop(inv=["len(vals) == _i", "0 <= index", "index < pow(alphabet_size, size - _i)",
                      "implies(horner(V, vals, to_order, alphabet_size), V(_i) * pow(alphabet_size, size - _i) + index == old(index) + geo(min_size, alphabet_size) - geo(size, alphabet_size))",
                      "forall(0, len(vals), lambda k: exists(0, alphabet_size, lambda d: vals[k] == from_order(d)))"])],
     hints=["lemma(lemma_geo_closed(size, alphabet_size))", "lemma(lemma_geo_one(size))", "lemma(lemma_geo_one(min_size))", "unfold(geo(size + 1, alphabet_size))", "unfold(geo(min_size, alphabet_size))",
            "lemma(lemma_geo_mono(alphabet_size, size + 1, min_size))",
            "lemma(lemma_pow_one(size))", "lemma(lemma_pow_one(size - _i))", "lemma(lemma_pow_one(size - _i - 1))"])

# ---- distinct collections have distinct indices (digits in [0, a))
G.spec("""
def horner_d(V, D, n, a):
    return V(0) == 0 and forall(0, n, lambda k: 0 <= D(k) and D(k) < a and V(k + 1) == a * V(k) + D(k))
""")
DG = TFn([Int], Int)
G.lemma("""
def lemma_horner_bound(V, D, n, a, k):
    if k > 0:
        lemma_horner_bound(V, D, n, a, k - 1)
""", dict(V=HV, D=DG, n=Int, a=Int, k=Int), requires=["a >= 1", "0 <= k", "k <= n", "horner_d(V, D, n, a)"], ensures=["0 <= V(k)", "V(k) < pow(a, k)"], decreases="k",
    hints=["pow(a, k) == pow(a, k)", "V(k) == a * V(k - 1) + D(k - 1) or k == 0"])
G.lemma("""
def lemma_digit(a, x, d, y, e):
    if x < y:
        lemma_cancel(a, x + 1, y)
    if y < x:
        lemma_cancel(a, y + 1, x)
""", dict(a=Int, x=Int, d=Int, y=Int, e=Int), requires=["a >= 1", "0 <= d", "d < a", "0 <= e", "e < a", "a * x + d == a * y + e"], ensures=["x == y", "d == e"],
    hints=["a * (x + 1) == a * x + a", "a * (y + 1) == a * y + a"])
G.lemma("""
def lemma_horner_inj(V, D, W, E, n, a, k, j):
    # equal values at k: equal digits at every j < k
    lemma_digit(a, V(k - 1), D(k - 1), W(k - 1), E(k - 1))
    if k > 0 and j < k - 1:
        lemma_horner_inj(V, D, W, E, n, a, k - 1, j)
""", dict(V=HV, D=DG, W=HV, E=DG, n=Int, a=Int, k=Int, j=Int), requires=["a >= 1", "0 <= j", "j < k", "k <= n", "horner_d(V, D, n, a)", "horner_d(W, E, n, a)", "V(k) == W(k)"],
    ensures=["D(j) == E(j)"], decreases="k", hints=["V(k) == a * V(k - 1) + D(k - 1)", "W(k) == a * W(k - 1) + E(k - 1)"])
G.lemma("""
def lemma_collection_order(V, D, n, W, E, m, a):
    # shorter collections come first, so equal indices mean equal lengths
    lemma_horner_bound(V, D, n, a, n)
    lemma_horner_bound(W, E, m, a, m)
    if a >= 2:
        lemma_geo_closed(n, a)
        lemma_geo_closed(m, a)
        lemma_geo_closed(n + 1, a)
    else:
        lemma_geo_one(n)
        lemma_geo_one(n + 1)
        lemma_geo_one(m)
    lemma_pow_one(n)
    lemma_pow_one(m)
    if n < m:
        lemma_geo_mono(a, n + 1, m)
""", dict(V=HV, D=DG, n=Int, W=HV, E=DG, m=Int, a=Int), requires=["a >= 1", "n >= 0", "m >= 0", "horner_d(V, D, n, a)", "horner_d(W, E, m, a)"],
    ensures=["implies(n < m, geo(n, a) + V(n) < geo(m, a) + W(m))"], hints=["unfold(geo(n + 1, a))", "a * geo(n, a) + 1 == geo(n + 1, a)"])

# ---- bytes: the collection functions are inlined here, with the same loop invariants
YC = TDict(min_size=Int, max_size=Int)
G.fn("choice_to_index", dict(choice=Bytes(), constraints=YC), name="choice_to_index[bytes]", returns=Int, ghost=dict(V=HV), no_call=True,
     requires=["0 <= constraints['min_size']", "constraints['min_size'] <= len(choice)", "horner(V, choice, lambda x: x, 256)"],
     ensures=[("order", "result == geo(len(choice), 256) - geo(constraints['min_size'], 256) + V(len(choice))")],
     opts=dict(inline=("collection_index",), helper_loops={"collection_index": [Loop(inv=["running_exp == pow(alphabet_size, _i)",
                      "index - (geo(len(choice), alphabet_size) - geo(min_size, alphabet_size)) + V(len(choice) - _i) * pow(alphabet_size, _i) == V(len(choice))"])]}))
G.fn("choice_from_index", dict(index=Int, choice_type=TConst("bytes"), constraints=YC), name="choice_from_index[bytes]", returns=Bytes(), ghost=dict(V=HV), no_call=True,
     requires=["index >= 0", "0 <= constraints['min_size']", "constraints['min_size'] <= constraints['max_size']", "index < geo(constraints['max_size'] + 1, 256) - geo(constraints['min_size'], 256)"],
     raises={"ChoiceTooLarge": None},
     ensures=[("inverse", "implies(horner(V, result, lambda x: x, 256), geo(len(result), 256) - geo(constraints['min_size'], 256) + V(len(result)) == index)"),
              ("min-size", "len(result) >= constraints['min_size']"), ("max-size", "len(result) <= constraints['max_size']")],
     types=dict(vals=TList(Int)),
     opts=dict(inline=("collection_value",), helper_loops={"collection_value": [Loop(types=dict(vals=TList(Int)), inv=["len(vals) == _i", "0 <= index", "index < pow(alphabet_size, size - _i)",
                      "implies(horner(V, vals, lambda x: x, alphabet_size), V(_i) * pow(alphabet_size, size - _i) + index == old(index) + geo(min_size, alphabet_size) - geo(size, alphabet_size))",
                      "forall(0, len(vals), lambda k: 0 <= vals[k] and vals[k] < 256)"])]}),
     hints=["lemma(lemma_geo_mono(256, constraints['max_size'] + 1, len(result)))", "lemma(lemma_geo_mono(256, len(result) + 1, constraints['min_size']))",
            "lemma(lemma_geo_closed(size, alphabet_size))", "unfold(geo(size + 1, alphabet_size))", "unfold(geo(min_size, alphabet_size))",
            "lemma(lemma_geo_mono(alphabet_size, size + 1, min_size))"])

G.lemma("""
def lemma_distrib(a, v, w, d, p, q):
    pass
""", dict(a=Int, v=Int, w=Int, d=Int, p=Int, q=Int), requires=["q == a * p", "w == a * v + d"], ensures=["w * p == v * q + d * p"])
# ---- text: the same, with characters numbered by their position in the simplicity order of the alphabet
from . import c_intervals as CI
DEPS = [CI.G]
G.ns.update({k: v for k, v in CI.G.ns.items()})
G.native_ns.update(CI.G.native_ns)
SC = TDict(intervals=TObj("IntervalSet"), min_size=Int, max_size=Int)
IVINV = [s.replace("self", "constraints['intervals']") for _, s in CI.LAYOUT + CI.ORDER]
G.spec("""
def chars_at(ivs, V, s):
    # V(k) is the base-(number of characters) value of the first k characters
    return V(0) == 0 and forall(0, len(s), lambda k: V(k + 1) == ivs.size * V(k) + order_of(ivs, ord(s[k])))
""")
G.spec("""
def all_in(ivs, s):
    return forall(0, len(s), lambda k: mem(ivs.intervals, ord(s[k])))
""")
G.fn("choice_to_index", dict(choice=Str(), constraints=SC), name="choice_to_index[str]", returns=Int, ghost=dict(V=HV), no_call=True,
     requires=IVINV + ["0 <= constraints['min_size']", "constraints['min_size'] <= len(choice)", "chars_at(constraints['intervals'], V, choice)", "all_in(constraints['intervals'], choice)",
                       "constraints['intervals'].size > 0 or len(choice) == 0"],
     ensures=[("order", "result == geo(len(choice), constraints['intervals'].size) - geo(constraints['min_size'], constraints['intervals'].size) + V(len(choice))")],
     opts=dict(inline=("collection_index",), helper_loops={"collection_index": [Loop(inv=["running_exp == pow(alphabet_size, _i)",
                      "index - (geo(len(choice), alphabet_size) - geo(min_size, alphabet_size)) + V(len(choice) - _i) * pow(alphabet_size, _i) == V(len(choice))"])]}),
     hints=["V(len(choice) - _i) == alphabet_size * V(len(choice) - _i - 1) + order_of(constraints['intervals'], ord(choice[len(choice) - _i - 1])) or len(choice) - _i <= 0"])
G.fn("choice_from_index", dict(index=Int, choice_type=TConst("string"), constraints=SC), name="choice_from_index[str]", returns=Str(), ghost=dict(V=HV), no_call=True,
     requires=IVINV + ["index >= 0", "0 <= constraints['min_size']", "constraints['min_size'] <= constraints['max_size']", "constraints['intervals'].size > 0 or (index == 0 and constraints['max_size'] == 0)",
                       "index < geo(constraints['max_size'] + 1, constraints['intervals'].size) - geo(constraints['min_size'], constraints['intervals'].size) or constraints['intervals'].size == 0"],
     raises={"ChoiceTooLarge": None},
     ensures=[("inverse", "implies(constraints['intervals'].size > 0 and chars_at(constraints['intervals'], V, result), geo(len(result), constraints['intervals'].size) - geo(constraints['min_size'], constraints['intervals'].size) + V(len(result)) == index)"),
              ("members", "all_in(constraints['intervals'], result)"),
              ("min-size", "len(result) >= constraints['min_size']"), ("max-size", "len(result) <= constraints['max_size']")],
     types=dict(vals=TList(Str()), value_s=TList(Str())),
     opts=dict(inline=("collection_value",), helper_loops={"collection_value": [Loop(types=dict(vals=TList(Str())), inv=["len(vals) == _i", "0 <= index", "index < pow(alphabet_size, size - _i)",
                      "forall(0, len(vals), lambda k: len(vals[k]) == 1 and mem(constraints['intervals'].intervals, ord(vals[k])))",
                      "implies(chars_at(constraints['intervals'], V, vals), V(_i) * pow(alphabet_size, size - _i) + index == old(index) + geo(min_size, alphabet_size) - geo(size, alphabet_size))",
                      ])]}),
     hints=["lemma(lemma_geo_mono(constraints['intervals'].size, constraints['max_size'] + 1, len(result)))", "lemma(lemma_geo_mono(constraints['intervals'].size, len(result) + 1, constraints['min_size']))",
            "lemma(lemma_geo_closed(size, alphabet_size))", "unfold(geo(size + 1, alphabet_size))", "unfold(geo(min_size, alphabet_size))", "lemma(lemma_geo_one(size))", "lemma(lemma_geo_one(min_size))", "lemma(lemma_geo_one(constraints['max_size'] + 1))",
            "lemma(lemma_geo_mono(alphabet_size, size + 1, min_size))", "lemma(lemma_pow_one(size))", "lemma(lemma_pow_one(size - _i))", "lemma(lemma_pow_one(size - _i - 1))",
            "lemma(lemma_distrib(alphabet_size, V(_i - 1), V(_i), order_of(constraints['intervals'], ord(vals[_i - 1])), pow(alphabet_size, size - _i), pow(alphabet_size, size - _i + 1)))",
            "lemma(lemma_distrib(alphabet_size, V(_i), V(_i + 1), order_of(constraints['intervals'], ord(vals[_i])), pow(alphabet_size, size - _i - 1), pow(alphabet_size, size - _i)))"])
for mx in (Int, NoneT):
    G.fn("choice_permitted", dict(choice=Str(), constraints=TDict(intervals=TObj("IntervalSet"), min_size=Int, max_size=mx)), name=f"choice_permitted[str,{mx!r}]", returns=Bool, no_call=True,
         requires=IVINV, ensures=["result == (len(choice) >= constraints['min_size'] and (constraints['max_size'] is None or len(choice) <= constraints['max_size']) and all_in(constraints['intervals'], choice))"])
    G.fn("choice_permitted", dict(choice=Bytes(), constraints=TDict(min_size=Int, max_size=mx)), name=f"choice_permitted[bytes,{mx!r}]", returns=Bool, no_call=True,
         ensures=["result == (len(choice) >= constraints['min_size'] and (constraints['max_size'] is None or len(choice) <= constraints['max_size']))"])
