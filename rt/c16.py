"""C16: floating-point helpers against bit patterns and exact rationals."""
import math
from fractions import Fraction
from pyvc.runtime import RT
from hypothesis.internal import floats as fl
from rt.fl import *


def same(a, b):
    return bits(a) == bits(b)


def nx(case):
    w, f = case
    if f == f:
        r = rank(f, w)
        up = f if f == math.inf else unrank(r + 1, w)
        dn = f if f == -math.inf else unrank(r - 1, w)
        if not same(fl.next_up(f, w), up):
            return f"next_up({f!r}, {w}) == {fl.next_up(f, w)!r}, expected {up!r}"
        if not same(fl.next_down(f, w), dn):
            return f"next_down({f!r}, {w}) == {fl.next_down(f, w)!r}, expected {dn!r}"
        tiny = {16: 2.0**-14, 32: 2.0**-126, 64: 2.0**-1022}[w]
        for asn in (True, False):
            u, d = up, dn
            if not asn:
                u = up if not (0 < abs(up) < tiny) else (tiny if up > 0 else -0.0)
                d = dn if not (0 < abs(dn) < tiny) else (0.0 if dn > 0 else -tiny)
            ru, rd = fl.next_up_normal(f, w, allow_subnormal=asn), fl.next_down_normal(f, w, allow_subnormal=asn)
            if not same(ru, u):
                return f"next_up_normal({f!r}, {w}, {asn}) == {ru!r}, expected {u!r}"
            if not same(rd, d):
                return f"next_down_normal({f!r}, {w}, {asn}) == {rd!r}, expected {d!r}"
    b = bits(f, w)
    if f == f:
        if fl.float_to_int(f, w) != b or not same(fl.int_to_float(b, w), f):
            return "integer image"
    if fl.is_negative(f) != (bits(f) >> 63 == 1):
        return "is_negative"


def of(case):
    w, x = case
    big = {16: Fraction(65504) + 16, 32: Fraction(2)**128 - Fraction(2)**103, 64: None}[w]
    try:
        r = fl.float_of(x, w)
    except OverflowError:
        if x != x or math.isinf(x) or w == 64 or abs(Fraction(x)) < big:
            return f"float_of({x!r}, {w}) overflows"
        return
    if x != x:
        return None if r != r else "NaN lost"
    if math.isinf(x):
        return None if r == x else "infinity lost"
    if w == 64:
        return None if same(r, x) else "changed"
    if abs(Fraction(x)) >= big:
        return f"float_of({x!r}, {w}) == {r!r} although it does not fit"
    k = rank(r, w)
    for q in (unrank(k - 1, w), unrank(k + 1, w)):
        if math.isinf(q):
            continue
        d, d0 = abs(Fraction(q) - Fraction(x)), abs(Fraction(r) - Fraction(x))
        if d < d0 or (d == d0 and q != r and bits(r, w) & 1 and not (q == 0 and r == 0)):
            return f"float_of({x!r}, {w}) == {r!r} but {q!r} is nearer"
    if math.copysign(1, r) != math.copysign(1, x):
        return "sign lost"


def order(case):
    w, x, y, z = case
    if fl.sign_aware_lte(x, y) != (rank(x) <= rank(y)):
        return f"sign_aware_lte({x!r}, {y!r})"
    lo, hi = sorted((x, y), key=rank)
    want = lo if rank(z) < rank(lo) else hi if rank(z) > rank(hi) else z
    if not same(fl.clamp(lo, z, hi), want):
        return f"clamp({lo!r}, {z!r}, {hi!r}) == {fl.clamp(lo, z, hi)!r}"
    lw, hw = sorted((unbits(bits(narrow(x, w), w), w), unbits(bits(narrow(y, w), w), w)), key=lambda f: rank(f, w))
    n = fl.count_between_floats(lw, hw, w)
    if n != rank(hw, w) - rank(lw, w) + 1:
        return f"count_between_floats({lw!r}, {hw!r}, {w}) == {n}, expected {rank(hw, w) - rank(lw, w) + 1}"


def narrow(f, w):
    try:
        return unbits(bits(f, w), w)
    except OverflowError:
        return math.copysign(math.inf, f)


def gnx(rng):
    w = rng.choice([16, 32, 64])
    return w, wfloat(rng, w)


CHECKS = [
    RT("next float", gnx, nx, n=20000, rule="next_up/next_down/normal variants against bit patterns"),
    RT("next float16, exhaustively", lambda r: None, lambda f: nx((16, f)), n=0, cases=lambda: [f for f in (unbits(b, 16) for b in range(65536)) if f == f], budget=60),
    RT("rounding to a width", lambda r: (r.choice([16, 32, 64]), rfloat(r)), of, n=15000, cases=[(16, 65519.0), (16, 65520.0), (16, 65519.99999), (32, 3.4028235677973366e38), (32, 3.4028235677973362e38), (16, 2.0**-25), (16, 2.0**-25 * 1.0001), (32, 2.0**-150)]),
    RT("float order, clamp, count", lambda r: (r.choice([16, 32, 64]), rfloat(r, False), rfloat(r, False), rfloat(r, False)), order, n=15000),
]
