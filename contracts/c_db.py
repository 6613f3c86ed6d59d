"""Contracts for hypothesis.database: variable-length sizes of the stored form."""
from pyvc.values import *
from pyvc.ctx import Group
from pyvc.engine import Loop

G = Group("hypothesis.database")
HV = TFn([Int], Int)
G.spec("""
def leb(L, s, n):
    # L(k) is the number the low seven bits of the first k bytes stand for, least significant first
    return L(0) == 0 and forall(0, n, lambda k: L(k + 1) == L(k) + (s[k] % 128) * pow(2, 7 * k))
""")
G.lemma("""
def lemma_pow7(k):
    a = pow(2, 7 * k + 1) + pow(2, 7 * k + 2) + pow(2, 7 * k + 3) + pow(2, 7 * k + 4) + pow(2, 7 * k + 5) + pow(2, 7 * k + 6)
""", dict(k=Int), requires=["k >= 0"], ensures=["pow(2, 7 * k + 7) == 128 * pow(2, 7 * k)", "pow(2, 7 * k) >= 1"])
G.fn("_pack_uleb128", dict(value=Int), ghost=dict(L=HV), returns=Bytes(), no_call=True, requires=["value >= 0"], types=dict(parts=TList(Int, "bytearray")),
     gen=lambda r: dict(value=max(0, (1 << r.randint(0, 60)) + r.randint(-1, 1))),
     ensures=[("value", "implies(leb(L, result, len(result)), L(len(result)) == value)"), ("nonempty", "len(result) >= 1"), ("last", "result[len(result) - 1] < 128"),
              ("more", "forall(0, len(result) - 1, lambda k: result[k] >= 128)")],
     loops=[Loop(types=dict(parts=TList(Int, "bytearray")), decreases="value", inv=["value >= 0", "value > 0 or len(parts) == 0",
                 "implies(leb(L, parts, len(parts)), L(len(parts)) + value * pow(2, 7 * len(parts)) == old(value))", "forall(0, len(parts), lambda k: parts[k] >= 128 and parts[k] < 256)"])],
     hints=["lemma(lemma_pow7(len(parts)))", "lemma(lemma_pow7(len(parts) - 1))"])
G.fn("_unpack_uleb128", dict(buffer=Bytes()), ghost=dict(L=HV, m=Int), returns=TTuple(Int, Int), no_call=True,
     requires=["leb(L, buffer, len(buffer))", "0 <= m", "m < len(buffer)", "buffer[m] < 128", "forall(0, m, lambda k: buffer[k] >= 128)"],
     ensures=[("stop", "result[0] == m + 1"), ("value", "result[1] == L(m + 1)")],
     loops=[Loop(inv=["0 <= value", "value < pow(2, 7 * _i)", "value == L(_i)", "forall(0, _i, lambda k: buffer[k] >= 128)"])],
     hints=["lemma(lemma_pow7(_i))"])
