"""C01: choice indices, end to end over all kinds of constraints."""
import math
from pyvc.runtime import RT
from hypothesis.errors import *
from hypothesis.internal.conjecture import choice as ch
from hypothesis.internal.conjecture.floats import float_to_lex
from hypothesis.internal.intervalsets import IntervalSet
from rt.c03 import raw, members

BIG = [0, 1, 2, 5, 63, 64, 127, 128, 255, 256, 2**31, 2**32, 2**63, 2**64, 2**64 + 1, 2**127, 10**30]


def rint(rng):
    k = rng.random()
    if k < 0.5:
        return rng.randint(-8, 8)
    return rng.choice(BIG) * rng.choice([1, -1]) + rng.randint(-2, 2)


def int_case(rng):
    lo = rint(rng) if rng.random() < 0.7 else None
    hi = rint(rng) if rng.random() < 0.7 else None
    if lo is not None and hi is not None and lo > hi:
        lo, hi = hi, lo
    if rng.random() < 0.4 and lo is not None:
        hi = lo + rng.randint(0, 12)
    s = rint(rng) if rng.random() < 0.6 else 0
    if rng.random() < 0.3:
        s = (lo if lo is not None else hi if hi is not None else 0) + rng.randint(-4, 12)
    idx = [rng.randint(0, 40) if rng.random() < 0.7 else rng.choice(BIG) for _ in range(3)]
    val = [rint(rng) for _ in range(2)] + [s + rng.randint(-20, 20)]
    return lo, hi, s, idx, val


def spec_int(v, lo, hi, s):
    s = s if lo is None else max(lo, s)
    s = s if hi is None else min(hi, s)
    d = abs(v - s)
    # how many permitted values come before v: all nearer ones, then (at the same distance) the upper one
    def count(d):          # permitted values at distance < d
        if d <= 0:
            return 0
        up = d - 1 if hi is None else min(d - 1, hi - s)
        dn = d - 1 if lo is None else min(d - 1, s - lo)
        return 1 + up + dn
    upper = hi is None or s + d <= hi
    return count(d) + (1 if v < s and upper and d > 0 else 0)


def ints(case):
    lo, hi, s, idx, val = case
    c = dict(min_value=lo, max_value=hi, weights=None, shrink_towards=s)
    n = None if lo is None or hi is None else hi - lo + 1
    for v in val + [x for x in (lo, hi) if x is not None]:
        ok = (lo is None or v >= lo) and (hi is None or v <= hi)
        if ch.choice_permitted(v, c) != ok:
            return f"choice_permitted({v}) is {not ok}"
        if not ok:
            continue
        i = ch.choice_to_index(v, c)
        if i != spec_int(v, lo, hi, s):
            return f"index of {v} is {i}, expected {spec_int(v, lo, hi, s)}"
        if ch.choice_from_index(i, "integer", c) != v:
            return f"index {i} of {v} turns back into {ch.choice_from_index(i, 'integer', c)}"
    rng = range(min(n, 60)) if n is not None else range(30)
    for i in list(rng) + [x for x in idx if n is None or x < n]:
        v = ch.choice_from_index(i, "integer", c)
        if type(v) is not int or not ((lo is None or v >= lo) and (hi is None or v <= hi)):
            return f"index {i} gives {v!r}, not permitted"
        if ch.choice_to_index(v, c) != i:
            return f"index {i} gives {v}, whose index is {ch.choice_to_index(v, c)}"


def bools(p):
    c = dict(p=p)
    eps = 2.0**-64
    only = False if p <= eps else True if p >= 1 - eps else None
    for v in (False, True):
        if ch.choice_permitted(v, c) != (p > 0 if v else p < 1):
            return "permitted"
        if only is None or v is only:
            i = ch.choice_to_index(v, c)
            if ch.choice_from_index(i, "boolean", c) is not v:
                return f"{v} has index {i} which turns into {ch.choice_from_index(i, 'boolean', c)}"
            if i != (int(v) if only is None else 0):
                return f"{v} has index {i}"


def seq_case(rng):
    kind = rng.choice(["bytes", "string", "string"])
    mn = rng.choice([0, 0, 0, 1, 2, 3, 10, 40])
    mx = mn + rng.choice([0, 0, 1, 2, 5, 50])
    k = rng.random()
    iv = raw(rng) if k < 0.7 else ((0, 0x10FFFF),) if k < 0.75 else ((97, 97 + rng.randint(0, 3)),)
    seed = rng.getrandbits(30)
    return kind, mn, mx, iv, seed


def seqs(case):
    import random
    kind, mn, mx, iv, seed = case
    rng = random.Random(seed)
    if kind == "bytes":
        alpha = [bytes([b]) for b in range(256)]
        c = dict(min_size=mn, max_size=mx)
        join, dec = b"".join, lambda x: [bytes([b]) for b in x]
        rank = {x: i for i, x in enumerate(alpha)}
    else:
        s = IntervalSet(iv)
        m = members(iv) if len(s) < 5000 else None
        if m == []:
            mn = mx = 0
        c = dict(min_size=mn, max_size=mx, intervals=s)
        z = len([x for x in (m or []) if x < 48])
        join, dec = "".join, list
        alpha = None if m is None else [chr(x) for x in [x for x in m if 48 <= x <= 90] + [x for x in m if x < 48][::-1] + [x for x in m if x > 90]]
        if m and not [x for x in m if x >= 48]:
            alpha = [chr(x) for x in m[::-1]]
        if m:
            Z = min(sum(1 for x in m if x < 90), len(m) - 1)
            zero = sum(1 for x in m if x < 48)
            o = m[zero:Z + 1] + m[:zero][::-1] + m[max(Z + 1, zero):]
            alpha = [chr(x) for x in o]
        if alpha is not None:
            rank = {x: i for i, x in enumerate(alpha)}
    if alpha is None:
        a = len(s)
        rank = None
    else:
        a = len(alpha)
    offset = sum(a**k for k in range(mn))
    vals = []
    for _ in range(4):
        n = rng.randint(mn, min(mx, mn + 6))
        if a:
            vals.append(join((rng.choice(alpha) if alpha else chr(rng.choice([0, 48, 90, 91, 0x10FFFF, rng.randrange(0x110000)]))) for _ in range(n)))
            if alpha:
                vals += [join([alpha[0]] * n), join([alpha[-1]] * n)]
        elif mn == 0:
            vals.append(join([]))
    for v in vals:
        if not ch.choice_permitted(v, c):
            return f"{v!r} is not permitted"
        i = ch.choice_to_index(v, c)
        if rank is not None:
            x = 0
            for e in dec(v):
                x = x * a + rank[e]
            want = sum(a**k for k in range(len(v))) - offset + x
            if i != want:
                return f"index of {v!r} is {i}, expected {want}"
        r = ch.choice_from_index(i, kind, c)
        if r != v or type(r) is not type(v):
            return f"index {i} of {v!r} turns back into {r!r}"
    total = sum(a**k for k in range(mn, min(mx, mn + 7) + 1))
    probes = set(range(min(total, 12))) | {rng.randrange(total) for _ in range(3)} if total else set()
    for k in range(mn, min(mx, mn + 5) + 1):
        t = sum(a**q for q in range(mn, k + 1))
        probes |= {p for p in (t - 1, t, t - 2) if 0 <= p < total}
    for i in probes:
        v = ch.choice_from_index(i, kind, c)
        if not mn <= len(v) <= mx or (rank is not None and any(e not in rank for e in dec(v))):
            return f"index {i} gives {v!r}, not permitted"
        if ch.choice_to_index(v, c) != i:
            return f"index {i} gives {v!r}, whose index is {ch.choice_to_index(v, c)}"
    if len(vals) and a:
        short = join([alpha[0] if alpha else "a"] * (mn - 1)) if mn else None
        long = join([alpha[0] if alpha else "a"] * (mx + 1))
        if (short is not None and ch.choice_permitted(short, c)) or ch.choice_permitted(long, c):
            return "a string of forbidden length is permitted"
    if kind == "string" and mn <= 1 <= mx:
        for p in (0, 47, 48, 90, 91, 127, 0x10FFFF):
            if ch.choice_permitted(chr(p), c) != any(u <= p <= v for u, v in iv):
                return f"permitted({chr(p)!r})"


def large(case):
    "too large an index is refused or answered correctly"
    kind, size, a, d = case
    c = dict(min_size=0, max_size=10**10) if kind == "bytes" else dict(min_size=0, max_size=10**10, intervals=IntervalSet(((97, 96 + a),)))
    a = 256 if kind == "bytes" else a
    i = max(0, sum(a**k for k in range(size)) + d) if size < 3000 else (a**size - 1) // (a - 1) + d if a > 1 else size + d
    try:
        v = ch.choice_from_index(i, kind, c)
    except ch.ChoiceTooLarge:
        if size < 1000:
            return f"index of a string of size {size} was refused"
        return
    if ch.choice_to_index(v, c) != i:
        return f"index {i} gives a string of size {len(v)} whose index differs"
    want = size if d >= 0 else size - 1
    if a > 1 and size > 1 and abs(d) < a and len(v) != want:
        return f"size {len(v)} instead of {want}"


def large_case(rng):
    return rng.choice(["bytes", "string"]), rng.choice([0, 1, 2, 3, 10, 30, 64, 100, 200, 500, 900, 8191, 8192, 9000]), rng.choice([1, 2, 3, 5, 7, 10, 26]), rng.randint(-2, 2)


def f_case(rng):
    from pyvc.native import gen_value, Float
    return gen_value(Float, rng), gen_value(Float, rng)


def flt(fs):
    c = dict(min_value=-math.inf, max_value=math.inf, allow_nan=True, smallest_nonzero_magnitude=5e-324)
    for f in fs:
        i = ch.choice_to_index(f, c)
        neg = math.copysign(1.0, f) < 0
        if i != (int(neg) << 64) + float_to_lex(abs(f)):
            return f"index of {f!r}"
        if f != f:
            continue
        r = ch.choice_from_index(i, "float", c)
        if r != f or math.copysign(1.0, r) != math.copysign(1.0, f):
            return f"{f!r} has index {i} which gives {r!r}"
    a, b = fs
    if (ch.choice_key(a) == ch.choice_key(b)) != (repr(a) == repr(b)) and not (a != a and b != b):
        return "choice_key"


def key_case(rng):
    pool = [0, 1, False, True, 0.0, -0.0, 1.0, b"", b"0", "", "0", 2, float("nan")]
    return rng.choice(pool), rng.choice(pool)


def keys(ab):
    a, b = ab
    same = type(a) is type(b) and repr(a) == repr(b)
    if (ch.choices_key((a,)) == ch.choices_key((b,))) != same:
        return f"choices_key confuses {a!r} and {b!r}" if not same else "choices_key differs"
    if type(a) is type(b) and ch.choice_equal(a, b) != same:
        return f"choice_equal({a!r}, {b!r})"


CHECKS = [
    RT("integer indices", int_case, ints, n=6000, rule="index order, inverse and range for integers with any bounds and target"),
    RT("boolean indices", lambda r: r.choice([0.0, 1.0, 0.5, 2.0**-64, 2.0**-63, 1 - 2.0**-53, r.random(), 1e-300]), bools, n=300),
    RT("text and byte indices", seq_case, seqs, n=3000, rule="index order, inverse and range for strings and bytes against a direct count"),
    RT("huge indices", large_case, large, n=120, trivial=None),
    RT("float indices", f_case, flt, n=4000),
    RT("choice keys", key_case, keys, n=1500),
]
