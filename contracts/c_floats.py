"""Contracts for hypothesis.internal.floats and hypothesis.internal.conjecture.floats."""
import math
from pyvc.values import *
from pyvc.ctx import Group
from pyvc.engine import Loop

F = Group("hypothesis.internal.floats")
L = Group("hypothesis.internal.conjecture.floats")
GROUPS = [F, L]
W = 64
for g in GROUPS:
    # position in the total order of floats that separates -0.0 from 0.0 (not meaningful for NaN)
    g.spec("""
def rank(x):
    return bits(x) if bits(x) < 9223372036854775808 else 9223372036854775807 - bits(x)
""")
    g.spec("""
def sle(x, y):
    return rank(x) <= rank(y)
""")
# ------------------------------------------------------------------ internal/floats.py
F.fn("is_negative", dict(x=Float), returns=Bool, ensures=["result == (bits(x) >= 9223372036854775808)"])
F.fn("sign_aware_lte", dict(x=Float, y=Float), returns=Bool, requires=["not isnan(x)", "not isnan(y)"], ensures=["result == sle(x, y)"])
F.fn("float_to_int", dict(value=Float, width=TConst(64)), name="float_to_int[64]", returns=TBV(64), ensures=["result == bits(value)"], select=lambda ex, a, k: False)
F.fn("int_to_float", dict(value=TBV(64), width=TConst(64)), name="int_to_float[64]", returns=Float, ensures=["bits(result) == value"], select=lambda ex, a, k: False)
F.fn("clamp", dict(lower=Float, value=Float, upper=Float), returns=Float, select=lambda ex, a, k: False, opts=dict(inline=("sign_aware_lte",)),
     requires=["not isnan(lower)", "not isnan(upper)", "sle(lower, upper)"],
     ensures=[("in-bounds", "not isnan(result) and sle(lower, result) and sle(result, upper)"),
              ("nan-to-lower", "implies(isnan(value), bits(result) == bits(lower))"),
              ("identity-inside", "implies(not isnan(value) and sle(lower, value) and sle(value, upper), bits(result) == bits(value))")])
NU = [("fixed", "implies(isnan(value) or value == float('inf'), bits(result) == bits(value))"),
      ("successor", "implies(not isnan(value) and value != float('inf'), not isnan(result) and rank(result) == rank(value) + 1)")]
ND = [("fixed", "implies(isnan(value), isnan(result))"), ("fixed-inf", "implies(value == -float('inf'), bits(result) == bits(value))"),
      ("predecessor", "implies(not isnan(value) and value != -float('inf'), not isnan(result) and rank(result) == rank(value) - 1)")]
F.fn("next_up", dict(value=Float, width=TConst(64)), name="next_up[64]", returns=Float, ensures=NU, select=lambda ex, a, k: False)
F.fn("next_down", dict(value=Float, width=TConst(64)), name="next_down[64]", returns=Float, ensures=ND, select=lambda ex, a, k: False)
for w in (32, 16):
    # in a narrow format: strictly above, and the nearest value of that format above
    F.fn("next_up", dict(value=Float, width=TConst(w)), name=f"next_up[{w}]", returns=Float, requires=[f"fits(value, {w})"], select=lambda ex, a, k: False,
         ensures=[("fixed", "implies(isnan(value), isnan(result))"), ("fixed-inf", "implies(value == float('inf'), bits(result) == bits(value))"), ("format", f"fits(result, {w})"),
                  ("zero", "implies(bits(value) == 9223372036854775808, bits(result) == 0)"),
                  ("greater", "implies(not isnan(value) and value != float('inf') and bits(value) != 9223372036854775808, result > value)"),
                  ("least", f"implies(not isnan(value) and value != float('inf') and bits(value) != 9223372036854775808, forall_t(Float, lambda g: implies(fits(g, {w}) and g > value, g >= result)))")])
    F.fn("next_down", dict(value=Float, width=TConst(w)), name=f"next_down[{w}]", returns=Float, requires=[f"fits(value, {w})"], select=lambda ex, a, k: False,
         ensures=[("fixed", "implies(isnan(value), isnan(result))"), ("fixed-inf", "implies(value == -float('inf'), bits(result) == bits(value))"), ("format", f"fits(result, {w})"),
                  ("smaller", "implies(not isnan(value) and value != -float('inf') and bits(value) != 0, result < value)"),
                  ("greatest", f"implies(not isnan(value) and value != -float('inf') and bits(value) != 0, forall_t(Float, lambda g: implies(fits(g, {w}) and g < value, g <= result)))")])
F.fn("float_of", dict(x=Float, width=TConst(64)), name="float_of[64]", returns=Float, ensures=["bits(result) == bits(x)"], select=lambda ex, a, k: False)
for w in (32, 16):
    # rounding to a narrow format: exact on its values, and no value of the format lies strictly between
    F.fn("float_of", dict(x=Float, width=TConst(w)), name=f"float_of[{w}]", returns=Float, raises={"OverflowError": f"not isnan(x) and not isinf(x) and abs(x) >= {65520.0 if w == 16 else float(2**128 - 2**103)}"}, select=lambda ex, a, k: False,
         ensures=[("nan", "isnan(x) == isnan(result)"), ("format", f"fits(result, {w})"), ("exact", f"implies(not isnan(x) and fits(x, {w}), bits(result) == bits(x))"),
                  ("sign", "implies(not isnan(x), (bits(x) >= 9223372036854775808) == (bits(result) >= 9223372036854775808))"),
                  ("tight", f"implies(not isnan(x), forall_t(Float, lambda g: implies(fits(g, {w}) and g < x, g <= result) and implies(fits(g, {w}) and g > x, g >= result)))")])
SNM = {16: 2.0**-14, 32: 2.0**-126, 64: 2.0**-1022}
for nm, sgn in (("next_down_normal", "-"), ("next_up_normal", "")):
    F.fn(nm, dict(value=Float, width=TConst(64), allow_subnormal=Bool), name=f"{nm}[64]", returns=Float,
         requires=["not isnan(value)", f"value != {sgn}float('inf')"],
         ensures=[("direction", f"result {'<' if sgn else '>'} value or (value == 0.0 and result == 0.0)"),
                  ("no-subnormal", "implies(not allow_subnormal, result == 0.0 or abs(result) >= 2.0**-1022)"),
                  ("zero", "implies(bits(value) == 0, bits(result) == 9223372036854775808)" if sgn else "implies(bits(value) == 9223372036854775808, bits(result) == 0)"),
                  ("strict", "implies(bits(value) != 0, result < value)" if sgn else "implies(bits(value) != 9223372036854775808, result > value)"),
                  ("extreme", f"implies(bits(value) != {'0' if sgn else '9223372036854775808'}, forall_t(Float, lambda g: implies(g {'<' if sgn else '>'} value and (allow_subnormal or g == 0.0 or abs(g) >= 2.0**-1022), {'sle(g, result)' if sgn else 'sle(result, g)'})))")],
         opts=dict(inline=("next_down_normal", "next_down", "next_up")))
F.fn("count_between_floats", dict(x=Float, y=Float, width=TConst(64)), name="count_between_floats[64]", returns=TBV(66), recursive_ok=True,
     requires=["not isnan(x)", "not isnan(y)", "sle(x, y)"], ensures=["result == rank(y) - rank(x) + 1"], decreases="0 if sle(0.0, x) or not sle(0.0, y) else 1",
     hints=["lemma(lemma_rank_cmp(x, y))"])
F.lemma("""
def lemma_rank_cmp(x, y):
    pass
""", dict(x=Float, y=Float), requires=["not isnan(x)", "not isnan(y)"], ensures=["implies(sle(x, y), x <= y)", "implies(x < y, sle(x, y) and not sle(y, x))"])
# every value the clamper returns is a permitted float choice
F.lemma("""
def clamper_client(min_value, max_value, allow_nan, smallest_nonzero_magnitude, f):
    return make_float_clamper(min_value, max_value, allow_nan=allow_nan, smallest_nonzero_magnitude=smallest_nonzero_magnitude)(f)
""", dict(min_value=Float, max_value=Float, allow_nan=Bool, smallest_nonzero_magnitude=Float, f=Float), returns=Float,
    requires=["not isnan(min_value)", "not isnan(max_value)", "sle(min_value, max_value)", "smallest_nonzero_magnitude > 0.0", "not isinf(smallest_nonzero_magnitude)",
              "smallest_nonzero_magnitude <= max_value or -smallest_nonzero_magnitude >= min_value or (sle(min_value, 0.0) and sle(-0.0, max_value))"],
    ensures=[("permitted", "(allow_nan and isnan(result)) or (not isnan(result) and sle(min_value, result) and sle(result, max_value) and (result == 0.0 or abs(result) >= smallest_nonzero_magnitude))"),
             ("identity", "implies(not isnan(f) and sle(min_value, f) and sle(f, max_value) and (f == 0.0 or abs(f) >= smallest_nonzero_magnitude), bits(result) == bits(f))"),
             ("nan-kept", "implies(allow_nan and isnan(f), bits(result) == bits(f))")], opts=dict(inline=("sign_aware_lte",), abstract_fp=True))
# ------------------------------------------------------------------ conjecture/floats.py
L.table("hypothesis.internal.conjecture.floats", "ENCODING_TABLE", "i", "i + 1023 if i <= 1023 else (2046 - i if i <= 2046 else 2047)")
L.table("hypothesis.internal.conjecture.floats", "REVERSE_BITS_TABLE", "i", "|".join(f"(((i >> {k}) & 1) << {7 - k})" for k in range(8)))
L.table("hypothesis.internal.conjecture.floats", "DECODING_TABLE", "i", "i - 1023 if 1023 <= i and i <= 2046 else (2046 - i if i < 1023 else 2047)")

B64 = TBV(64)
L.fn("reverse64", dict(v=B64), returns=B64, select=lambda ex, a, k: False,
     ensures=[("bits", " and ".join(f"((result >> {i}) & 1) == ((v >> {63 - i}) & 1)" for i in range(64)))])
L.fn("reverse_bits", dict(x=B64, n=TBV(7)), returns=B64, requires=["n <= 64", "x >> n == 0"], select=lambda ex, a, k: False,
     ensures=[("in-range", "result >> n == 0")])
L.lemma("""
def reverse_bits_client(x, n):
    return reverse_bits(reverse_bits(x, n), n)
""", dict(x=B64, n=TBV(7)), requires=["n <= 64", "x >> n == 0"], ensures=[("involution", "result == x")])
L.fn("decode_exponent", dict(e=TBV(11)), returns=TBV(11), select=lambda ex, a, k: False, ensures=["result == (e + 1023 if e <= 1023 else (2046 - e if e <= 2046 else 2047))"])
L.fn("encode_exponent", dict(e=TBV(11)), returns=TBV(11), select=lambda ex, a, k: False, ensures=["result == (e - 1023 if 1023 <= e and e <= 2046 else (2046 - e if e < 1023 else 2047))"])
L.lemma("""
def exponent_client(e):
    return (decode_exponent(encode_exponent(e)), encode_exponent(decode_exponent(e)))
""", dict(e=TBV(11)), ensures=["result[0] == e", "result[1] == e"])
L.lemma("""
def mantissa_client(e, m):
    return update_mantissa(e - 1023, update_mantissa(e - 1023, m))
""", dict(e=TBV(11), m=TBV(52)), ensures=[("involution", "result == m")])
L.fn("is_simple", dict(f=Float), returns=Bool, select=lambda ex, a, k: False,
     ensures=["result == (integral(f) and abs(f) < 2.0**56)"])
L.fn("lex_to_float", dict(i=B64), returns=Float, select=lambda ex, a, k: False,
     ensures=[("nonneg", "bits(result) < 9223372036854775808")])
L.fn("float_to_lex", dict(f=Float), returns=B64, select=lambda ex, a, k: False, requires=["bits(f) < 9223372036854775808"],
     ensures=[("in-range", "0 <= result and result < 18446744073709551616"),
              ("integers-first", "(result < 72057594037927936) == (integral(f) and f < 2.0**56)"), ("value", "implies(integral(f) and f < 2.0**56, result == ipart(f))"), ("rest-tagged", "implies(not (integral(f) and f < 2.0**56), result >= 9223372036854775808)"),
              ("infinity-after-finite", "implies(isinf(f), result == 18442240474082181120)"), ("finite-before", "implies(not isinf(f) and not isnan(f), result < 18442240474082181120)"),
              ("nan-last", "implies(isnan(f), result > 18442240474082181120)")])
L.lemma("""
def roundtrip_client(f):
    return lex_to_float(float_to_lex(f))
""", dict(f=Float), requires=["bits(f) < 9223372036854775808"], ensures=[("lossless", "bits(result) == bits(f)")])
L.lemma("""
def lemma_integers_ordered(f, g):
    # so the codes of the integers below 2**56 are ordered like the integers
    pass
""", dict(f=Float, g=Float), requires=["0.0 <= f", "f < g", "g < 2.0**56", "integral(f)", "integral(g)"], ensures=["ipart(f) < ipart(g)"])
L.lemma("""
def integer_part_client(f, g):
    return (base_float_to_lex(f), base_float_to_lex(g))
""", dict(f=Float, g=Float), requires=["1.0 <= f", "f < g", "g < 2.0**52", "ipart(f) < ipart(g)"],
    ensures=[("by-integer-part", "result[0] < result[1]")])
