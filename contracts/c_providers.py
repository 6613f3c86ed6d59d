"""Contracts for hypothesis.internal.conjecture.providers: what a provider returns is permitted by the constraints."""
import math
from pyvc.values import *
from pyvc.ctx import Group
from pyvc.engine import Loop, Obj, zint, zbool, AND, is_intlike
from hypothesis.internal.conjecture.providers import HypothesisProvider, BytestringProvider, INT_SIZES_SAMPLER
from contracts import models

PM = "hypothesis.internal.conjecture.providers"
G = Group(PM)
models.install(G)
G.spec("""
def rank(x):
    return bits(x) if bits(x) < 9223372036854775808 else 9223372036854775807 - bits(x)
""")
G.spec("""
def sle(x, y):
    return rank(x) <= rank(y)
""")
G.spec("""
def permitted_int(v, lo, hi):
    return (lo is None or v >= lo) and (hi is None or v <= hi)
""")


def _sizes(ex, a, kw):
    # Sampler.sample returns an index of a row entry (see c_utils); the sampler is built over the five sizes
    v = ex.mk(Int, ex.fresh("size_idx"))
    ex.assume(z3.Or(*[v == k for k in sorted({x for b, a, p in INT_SIZES_SAMPLER.table for x in ((b,) if p < 1 else ()) + ((a,) if p > 0 else ())})]))
    return v


G.cls("SizesSampler", methods=dict(sample=Prim(_sizes)))
G.override(PM, "INT_SIZES_SAMPLER", Obj("$sizes", "SizesSampler"))
H, B = TObj("HypothesisProvider"), TObj("BytestringProvider")
G.cls("HypothesisProvider", real=HypothesisProvider, fields=dict(_cd=TObj("Data"), _random=TObj("Random"), _local_constants=TObj("Pools")))
KW = dict(opts=dict(no_native=True, real_fp=True))
OI = TOpt(Int)
PERM = [("permitted", "permitted_int(result, min_value, max_value)")]
RANGE = ["min_value is None or max_value is None or min_value <= max_value"]
ELT = dict(integer=Int, float=Float, string=Str(), bytes=Bytes())
POK = {}


def _pool(ex, a, kw):
    return ex.mk(TSeq(ELT[a[1]], "list"), ex.fresh("pool"))


def _permitted(ex, t, x):
    "the element is permitted by the constraints the function was called with"
    return ex.truth_pure(ex.eval_spec_of(ex.contract, POK[t], ex.top_frame, {"result": x}))


def _cache_set(ex, a, kw):
    t = ex.force(a[1][0])
    for i, s in enumerate(a[2]):
        s = ex.as_seq(s)
        j = z3.Int(ex.fresh("cj"))
        f = lambda: _permitted(ex, t, s.get(j))
        ex.pure += 1
        try:
            g = f()
        finally:
            ex.pure -= 1
        ex.oblige(f"{ex.contract.name}:cache:stored-permitted-{i}", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < zint(s.n)), zbool(g))), kind="pre")
    ex.store[("$cache", "v")] = a[2]


def _cache_get(ex, a, kw):
    if ("$cache", "v") in ex.store:
        return ex.store[("$cache", "v")]
    t = ex.force(a[1][0])
    out = []
    for nm in ("g", "l"):
        s = ex.mk(TSeq(ELT[t], "list"), ex.fresh("cached_" + nm))
        j = z3.Int(ex.fresh("cj"))
        ex.pure += 1
        try:
            g = _permitted(ex, t, s.get(j))
        finally:
            ex.pure -= 1
        ex.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < zint(s.n)), zbool(g))))
        out.append(s)
    return tuple(out)


G.cls("Pools", methods=dict(__getitem__=Prim(_pool)))
G.cls("ConstantsCache", methods=dict(__contains__=Prim(lambda ex, a, k: ex.mk(Bool, ex.fresh("cached"))), __setitem__=Prim(_cache_set), __getitem__=Prim(_cache_get)))
G.override(PM, "GLOBAL_CONSTANTS", Obj("$gconst", "Pools"))
G.override(PM, "CONSTANTS_CACHE", Obj("$ccache", "ConstantsCache"))
G.override(PM, "choice_constraints_key", Prim(lambda ex, a, k: ex.mk(AnyT, ex.fresh("ckey"))))
G.trusted.append("CONSTANTS_CACHE: an entry stored for a key holds only values permitted by every constraint set with that key (each store is checked; the key is assumed to determine what is permitted)")
MDC = dict(opts=dict(no_native=True))
for nm, t in (("integer", Int), ("bytes", Bytes())):
    ens = {"integer": "result is None or permitted_int(result, constraints['min_value'], constraints['max_value'])", "bytes": "result is None or (constraints['min_size'] <= len(result) and len(result) <= constraints['max_size'])"}[nm]
    ct = {"integer": TDict(min_value=OI, max_value=OI, weights=AnyT, shrink_towards=Int), "bytes": TDict(min_size=Int, max_size=Int)}[nm]
    G.fn("HypothesisProvider._maybe_draw_constant", dict(self=H, choice_type=TConst(nm), constraints=ct, p=Float), name=f"_maybe_draw_constant[{nm}]", returns=TOpt(t), select=lambda ex, a, k, nm=nm: a[1] == nm, ensures=[("permitted", ens)], **MDC)
G.fn("HypothesisProvider._draw_unbounded_integer", dict(self=H), returns=Int, ensures=[], **KW)
G.fn("HypothesisProvider._draw_bounded_integer", dict(self=H, lower=Int, upper=Int, vary_size=Bool), returns=Int, requires=["lower <= upper"], ensures=[("in-range", "lower <= result and result <= upper")], **KW)
G.fn("HypothesisProvider.draw_integer", dict(self=H, min_value=OI, max_value=OI, weights=NoneT, shrink_towards=Int), returns=Int, requires=RANGE, ensures=PERM, loops=[Loop(), Loop()], **KW)
G.fn("HypothesisProvider.draw_boolean", dict(self=H, p=Float), returns=Bool, requires=["not isnan(p)"], ensures=[("possible", "(not result or p > 0.0) and (result or p < 1.0)")], opts=dict(no_native=True))
MANY = ["elements.min_size == min_size and elements.max_size == max_size and not elements.force_stop and elements.forced_size is None", "0 <= elements.count and elements.count <= elements.max_size"]
BA = TList(Int, "bytearray")
G.fn("HypothesisProvider.draw_bytes", dict(self=H, min_size=Int, max_size=Int), returns=Bytes(), requires=["0 <= min_size", "min_size <= max_size"], types=dict(buf=BA),
     ensures=[("sizes", "min_size <= len(result) and len(result) <= max_size")],
     loops=[Loop(types=dict(buf=BA), inv=["len(buf) == elements.count", "forall(0, len(buf), lambda k: 0 <= buf[k] and buf[k] <= 255)"] + MANY)], **KW)



def _ifb(ex, a, kw):
    "trusted: int.from_bytes(b, 'big') < (b[0] + 1) * 256**(len(b) - 1)"
    b = ex.as_seq(a[0])
    v = ex.mk(Int, ex.fresh("from_bytes"))
    n = zint(b.n)
    ex.assume(z3.And(v >= 0, z3.Implies(n == 0, v == 0), z3.Implies(n >= 1, v < (zint(b.get(0)) + 1) * ex.ctx.pow2(ex, 8 * (n - 1)))))
    return v


G.override(PM, "int_from_bytes", Prim(_ifb, "int_from_bytes"))
G.trusted.append("int.from_bytes(b, 'big') is below (b[0] + 1) * 256**(len(b) - 1)")
# ---- bytes as the source of randomness
G.cls("BytestringProvider", real=BytestringProvider, fields=dict(_cd=TObj("Data"), bytestring=Bytes(), index=Int, drawn=BA), inv=[("index", "0 <= self.index")])
BK = dict(KW, self_invariant=True, raises={"StopTest": None}, modifies=["self.index", "self.drawn"])
G.fn("BytestringProvider._draw_bits", dict(self=B, n=Int), returns=Int, requires=["n >= 0"], ensures=[("in-range", "0 <= result and result < pow(2, n)")],
     hints=[f"lemma(lemma_pow2_split(n - {k}))" for k in range(1, 9)], **BK)
G.lemma("""
def lemma_pow2_split(a):
    x = pow(2, a + 1) + pow(2, a + 2) + pow(2, a + 3) + pow(2, a + 4) + pow(2, a + 5) + pow(2, a + 6) + pow(2, a + 7)
""", dict(a=Int), requires=["a >= 0"], ensures=[f"pow(2, a + {k}) == pow(2, a) * {2**k}" for k in range(1, 9)])
G.fn("BytestringProvider._draw_bits", dict(self=B, n=TConst(64)), name="_draw_bits[64]", returns=TBV(64), select=lambda ex, a, k: a[1] == 64, trusted="instance of the contract of _draw_bits at n = 64", self_invariant=True, raises={"StopTest": None}, modifies=["self.index", "self.drawn"])


def _clamper(ex, a, kw):
    "the clamper, by the contract proved as clamper_client in c_floats"
    from contracts.c_floats import F
    c = F.lemmas["clamper_client"]
    v = dict(min_value=models.arg(a, kw, -1, "min_value"), max_value=models.arg(a, kw, 0, "max_value"), allow_nan=kw["allow_nan"], smallest_nonzero_magnitude=kw["smallest_nonzero_magnitude"])
    fv = FuncV(c.src, None, c.module, c.qual)
    return Prim(lambda ex2, b, k2: ex2.call_contract(c, dict(v, f=b[0]), fv), "clamper")




def _lex(ex, a, kw):
    "lex_to_float is total on 64-bit codes (its contract is proved in c_floats)"
    i = ex.force(a[0])
    models.pre(ex, "lex_to_float:64 bits", AND(ex.truth_pure(ex.compare(">=", i, 0)), ex.truth_pure(ex.compare("<", i, 2**64))))
    return ex.mk(Float, ex.fresh("lex"))


G.override(PM, "lex_to_float", Prim(_lex, "lex_to_float"))
G.override(PM, "make_float_clamper", Prim(_clamper, "make_float_clamper"))
FP = ["not isnan(min_value)", "not isnan(max_value)", "sle(min_value, max_value)", "smallest_nonzero_magnitude > 0.0", "not isinf(smallest_nonzero_magnitude)",
      "smallest_nonzero_magnitude <= max_value or -smallest_nonzero_magnitude >= min_value or (sle(min_value, 0.0) and sle(-0.0, max_value))"]
OKF = [("permitted", "(allow_nan and isnan(result)) or (not isnan(result) and sle(min_value, result) and sle(result, max_value) and (result == 0.0 or abs(result) >= smallest_nonzero_magnitude))")]
FARG = dict(min_value=Float, max_value=Float, allow_nan=Bool, smallest_nonzero_magnitude=Float)
FOPT = dict(no_native=True, abstract_fp=True)
OKC = OKF[0][1].replace("smallest", "constraints['smallest").replace("magnitude", "magnitude']").replace("min_value", "constraints['min_value']").replace("max_value", "constraints['max_value']").replace("allow_nan", "constraints['allow_nan']")
G.fn("choice_permitted", dict(choice=Float, constraints=TDict(**FARG)), module="hypothesis.internal.conjecture.choice", name="choice_permitted[float]", returns=Bool, select=lambda ex, a, k: isinstance(a[0], (float, FloatV)), opts=dict(no_native=True),
     requires=["not isnan(constraints['smallest_nonzero_magnitude'])", "not isnan(constraints['min_value'])", "not isnan(constraints['max_value'])"], pure_expr=OKC.replace("result", "choice"), ensures=["result == (" + OKC.replace("result", "choice") + ")"])
G.fn("BytestringProvider.draw_float", dict(FARG, self=B), returns=Float, requires=FP, ensures=OKF, **dict(BK, opts=FOPT))
G.fn("HypothesisProvider._maybe_draw_constant", dict(self=H, choice_type=TConst("float"), constraints=TDict(**FARG), p=Float), name="_maybe_draw_constant[float]", returns=TOpt(Float), select=lambda ex, a, k: a[1] == "float", requires=["not isnan(constraints['smallest_nonzero_magnitude'])", "not isnan(constraints['min_value'])", "not isnan(constraints['max_value'])"],
     ensures=[("permitted", "result is None or (" + OKC + ")")], **MDC)
G.fn("HypothesisProvider._draw_float", dict(self=H), returns=Float, no_call=False, opts=dict(FOPT), ensures=[])
G.fn("HypothesisProvider.draw_float", dict(FARG, self=H), returns=Float, requires=FP, ensures=OKF, opts=FOPT)
G.fn("BytestringProvider.draw_boolean", dict(self=B, p=Float), returns=Bool, requires=["not isnan(p)"], ensures=[("possible", "(not result or p > 0.0) and (result or p < 1.0)")], **BK)
G.fn("BytestringProvider.draw_integer", dict(self=B, min_value=OI, max_value=OI, weights=AnyT, shrink_towards=Int), returns=Int, requires=RANGE, ensures=PERM, loops=[Loop(inv=["0 <= self.index"])], **BK)
VL = TList(Int)
G.fn("BytestringProvider._draw_collection", dict(self=B, min_size=Int, max_size=Int, alphabet_size=Int), returns=VL, requires=["0 <= min_size", "min_size <= max_size", "alphabet_size >= 1"], types=dict(values=VL),
     ensures=[("sizes", "min_size <= len(result) and len(result) <= max_size"), ("elements", "forall(0, len(result), lambda k: 0 <= result[k] and result[k] < alphabet_size)")],
     loops=[Loop(types=dict(values=VL), inv=["len(values) == elements.count", "forall(0, len(values), lambda k: 0 <= values[k] and values[k] < alphabet_size)", "0 <= self.index"] + MANY)], **BK)
G.fn("BytestringProvider.draw_bytes", dict(self=B, min_size=Int, max_size=Int), returns=Bytes(), requires=["0 <= min_size", "min_size <= max_size"], ensures=[("sizes", "min_size <= len(result) and len(result) <= max_size")], **BK)

# ---- text: every character is a member
from contracts import c_intervals as CI
for k_, v_ in CI.G.ns.items():
    G.ns.setdefault(k_, v_)
for k_, v_ in CI.G.native_ns.items():
    G.native_ns.setdefault(k_, v_)
INTS = [s.replace("self", "intervals") for _, s in CI.LAYOUT + CI.ORDER]
SL = TList(Str())
G.fn("HypothesisProvider._maybe_draw_constant", dict(self=H, choice_type=TConst("string"), constraints=TDict(intervals=TObj("IntervalSet"), min_size=Int, max_size=Int), p=Float), name="_maybe_draw_constant[string]", returns=TOpt(Str()), select=lambda ex, a, k: a[1] == "string", requires=[s.replace("self", "constraints['intervals']") for _, s in CI.LAYOUT + CI.ORDER],
     ensures=[("permitted", "result is None or (constraints['min_size'] <= len(result) and len(result) <= constraints['max_size'] and forall(0, len(result), lambda k: mem(constraints['intervals'].intervals, ord(result[k]))))")], **MDC)
STR = [("sizes", "(min_size <= len(result) and len(result) <= max_size) or (intervals.size == 0 and len(result) == 0)"), ("members", "forall(0, len(result), lambda k: mem(intervals.intervals, ord(result[k])))")]
G.fn("HypothesisProvider.draw_string", dict(self=H, intervals=TObj("IntervalSet"), min_size=Int, max_size=Int), returns=Str(), requires=INTS + ["0 <= min_size", "min_size <= max_size"], types=dict(chars=SL), ensures=STR,
     loops=[Loop(types=dict(chars=SL), inv=["len(chars) == elements.count", "forall(0, len(chars), lambda k: len(chars[k]) == 1 and mem(intervals.intervals, ord(chars[k])))"] + MANY)], **KW)

POK.update(integer="permitted_int(result, constraints['min_value'], constraints['max_value'])", float=OKC, bytes="constraints['min_size'] <= len(result) and len(result) <= constraints['max_size']",
           string="constraints['min_size'] <= len(result) and len(result) <= constraints['max_size'] and forall(0, len(result), lambda k: mem(constraints['intervals'].intervals, ord(result[k])))")
CM = "hypothesis.internal.conjecture.choice"
for nm, t, ct in (("integer", Int, TDict(min_value=OI, max_value=OI, weights=AnyT, shrink_towards=Int)), ("bytes", Bytes(), TDict(min_size=Int, max_size=Int)), ("string", Str(), TDict(intervals=TObj("IntervalSet"), min_size=Int, max_size=Int))):
    G.fn("choice_permitted", dict(choice=t, constraints=ct), module=CM, name=f"choice_permitted[{nm}]", returns=Bool, opts=dict(no_native=True), pure_expr=POK[nm].replace("result", "choice"), ensures=["result == (" + POK[nm].replace("result", "choice") + ")"],
         select=lambda ex, a, k, nm=nm: (is_intlike(a[0]) if nm == "integer" else getattr(ex.seq_or_none(a[0]), "kind", None) == {"bytes": "bytes", "string": "str"}[nm]),
         requires=[s.replace("self", "constraints['intervals']") for _, s in CI.LAYOUT + CI.ORDER] if nm == "string" else [])
from contracts import c_utils, c_junk, c_floats
DEPS = [c_utils.G, CI.G, c_junk.G] + c_floats.GROUPS
