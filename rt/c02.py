"""C02: the float encoding and the clamper."""
import math
from pyvc.runtime import RT
from hypothesis.internal import floats as fl
from hypothesis.internal.conjecture import floats as cf
from rt.fl import *


def pairs(case):
    a, b = (unbits(bits(x) & ~(1 << 63)) for x in case)
    c = []
    for f in (a, b):
        i = cf.float_to_lex(f)
        if not 0 <= i < 1 << 64:
            return f"code of {f!r} is {i}"
        g = cf.lex_to_float(i)
        if bits(g) != bits(f):
            return f"{f!r} (bits {bits(f):#x}) decodes to {g!r} (bits {bits(g):#x})"
        if f == f and not math.isinf(f) and f == int(f) and f < 2**56:
            if i != int(f):
                return f"the integer {f!r} has code {i}"
        elif i < 2**56:
            return f"{f!r} has code {i}, that of an integer"
        c.append(i)
    if a != a or b != b:
        if (a != a) != (b != b) and (c[0] < c[1]) != (a == a):
            return "NaN is not last"
        return
    if a == b:
        return
    if math.isinf(a) or math.isinf(b):
        if (c[0] < c[1]) != (b == math.inf):
            return "infinity is not after the finite floats"
        return
    if a >= 1 and b >= 1 and int(a) != int(b):
        ai, bi = a == int(a) and a < 2**56, b == int(b) and b < 2**56
        if ai == bi and (c[0] < c[1]) != (a < b):
            return f"{a!r} and {b!r} are ordered against their integer parts"


def codes(i):
    f = cf.lex_to_float(i)
    if bits(f) >> 63:
        return f"code {i} gives a negative float"
    j = cf.float_to_lex(f)
    if bits(cf.lex_to_float(j)) != bits(f):
        return f"code {i} gives {f!r}, recoded to {j} it gives {cf.lex_to_float(j)!r}"


def clampers(case):
    lo, hi, an, snm, f = case
    g = fl.make_float_clamper(lo, hi, allow_nan=an, smallest_nonzero_magnitude=snm)(f)
    def ok(v):
        if v != v:
            return an
        return rank(lo) <= rank(v) <= rank(hi) and not 0 < abs(v) < snm
    if not ok(g):
        return f"clamped {f!r} to {g!r}, which is not permitted"
    if ok(f) and bits(g) != bits(f):
        return f"permitted {f!r} changed to {g!r}"


def gclamp(rng):
    while True:
        lo, hi = sorted((rfloat(rng, False), rfloat(rng, False)), key=rank)
        k = rng.random()
        if k < 0.2:
            hi = unrank(min(rank(math.inf), rank(lo) + rng.randint(0, 4)))
        if k > 0.8:
            lo, hi = rng.choice([(-math.inf, math.inf), (0.0, math.inf), (-math.inf, -0.0), (-1.7976931348623157e308, 1.7976931348623157e308), (0.0, 1.0), (-0.0, 0.0)])
        snm = rng.choice([5e-324, 5e-324, 2.2250738585072014e-308, 1.1754943508222875e-38, 0.5, 1e-3])
        if rng.random() < .15:
            m = unrank(rank(snm) - rng.randint(0, 3))
            lo, hi = sorted((rng.choice([-m, lo, -m / 2]), rng.choice([m, hi, m / 4])), key=rank)
        # some number must be permitted
        if not (hi >= snm or lo <= -snm or rank(lo) <= 0 and rank(hi) >= -1):
            continue
        return lo, hi, rng.random() < 0.5, snm, rfloat(rng)


CHECKS = [
    RT("float code", lambda r: (rfloat(r), rfloat(r)), pairs, n=30000, rule="lossless, integers first, infinity and NaN last, ordered by integer part"),
    RT("float codes back", lambda r: r.getrandbits(64) if r.random() < 0.5 else (1 << 63) | r.getrandbits(r.randint(1, 63)) if r.random() < 0.7 else r.getrandbits(r.randint(1, 64)), codes, n=15000),
    RT("float clamper", gclamp, clampers, n=20000),
]
