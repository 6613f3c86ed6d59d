"""C03: interval sets against Python sets of code points."""
from pyvc.runtime import RT
from hypothesis.internal.intervalsets import IntervalSet

EDGES = [0, 1, 40, 46, 47, 48, 49, 57, 58, 65, 89, 90, 91, 92, 100, 127, 128, 0xD7FF, 0xD800, 0xDFFF, 0xE000, 0x10FFFE, 0x10FFFF]


def raw(rng, k=None):
    "normalised intervals"
    n = rng.choice([0, 1, 1, 2, 3, 4, 6, 9]) if k is None else k
    pts = set()
    base = rng.choice([0, 0, 40, 45, 60, 85, 0x10FFC0])
    for _ in range(n):
        u = base + rng.randint(0, 60) if rng.random() < 0.8 else rng.choice(EDGES)
        pts.update(p for p in range(u, u + rng.choice([1, 1, 2, 3, 10])) if p <= 0x10FFFF)
    return to_iv(pts)


def to_iv(pts):
    out = []
    for p in sorted(pts):
        if out and out[-1][1] + 1 == p:
            out[-1][1] = p
        else:
            out.append([p, p])
    return tuple(map(tuple, out))


def members(iv):
    return [c for u, v in iv for c in range(u, v + 1)]


def single(iv):
    s = IntervalSet(iv)
    m = members(iv)
    if len(s) != len(m) or list(s) != m:
        return f"iteration/len: {len(s)} vs {len(m)}"
    for i in range(-len(m), len(m)):
        if s[i] != m[i]:
            return f"[{i}] is {s[i]}, expected {m[i]}"
    for i in (len(m), len(m) + 5, -len(m) - 1):
        try:
            r = s[i]
            return f"[{i}] returned {r} for size {len(m)}"
        except IndexError:
            pass
    ms = set(m)
    probe = sorted({p + d for u, v in iv for p in (u, v) for d in (-1, 0, 1)} | {0, 48, 90, 0x10FFFF})
    for p in probe:
        if not 0 <= p <= 0x10FFFF:
            continue
        if (p in s) != (p in ms) or (chr(p) in s) != (p in ms):
            return f"membership of {p}"
        if s.index_above(p) != sum(1 for x in m if x < p):
            return f"index_above({p}) == {s.index_above(p)}"
        try:
            r = s.index(p)
        except ValueError:
            r = None
        if r != (m.index(p) if p in ms else None):
            return f"index({p}) == {r}"
    return order(s, m)


def order(s, m):
    cs = [s.char_in_shrink_order(i) for i in range(len(m))]
    if sorted(map(ord, cs)) != m:
        return "the simplicity order is not a permutation of the members"
    for i, c in enumerate(cs):
        if s.index_from_char_in_shrink_order(c) != i:
            return f"order position of {c!r} is {s.index_from_char_in_shrink_order(c)}, expected {i}"
    zero = sum(1 for x in m if x < 48)
    Z = min(sum(1 for x in m if x < 90), len(m) - 1)
    want = m[zero:Z + 1] + m[:zero][::-1] + m[max(Z + 1, zero):]
    if Z >= 0 and [ord(c) for c in cs] != want:
        return f"order {cs} differs from '0'..'Z', then down, then up"
    if 48 in m and cs[0] != "0":
        return "'0' is not the simplest member"


def pair(ab):
    a, b = ab
    A, B = IntervalSet(a), IntervalSet(b)
    ma, mb = set(members(a)), set(members(b))
    for op, f, want in (("union", lambda: A.union(B), ma | mb), ("or", lambda: A | B, ma | mb), ("difference", lambda: A.difference(B), ma - mb), ("sub", lambda: A - B, ma - mb),
                        ("intersection", lambda: A.intersection(B), ma & mb), ("and", lambda: A & B, ma & mb)):
        r = f()
        if tuple(map(tuple, r.intervals)) != to_iv(want):
            return f"{op}: {r.intervals} expected {to_iv(want)}"
        if not all(type(x) is tuple for x in r.intervals):
            return f"{op}: intervals are not tuples"
    if (A == B) != (ma == mb) or (A == B and hash(A) != hash(B)):
        return "equality"
    if A.intervals != a or B.intervals != b:
        return "an operand changed"


def from_string(s):
    r = IntervalSet.from_string(s)
    if tuple(r.intervals) != to_iv({ord(c) for c in s}):
        return f"from_string: {r.intervals}"
    return single(r.intervals)


def big(iv):
    s = IntervalSet(iv)
    n = sum(v - u + 1 for u, v in iv)
    if len(s) != n:
        return "size"
    pos = 0
    for u, v in iv:
        for x in {u, v, (u + v) // 2}:
            i = pos + x - u
            if s[i] != x or s.index(x) != i or s[i - n] != x:
                return f"position {i} / {x}"
            j = s.index_from_char_in_shrink_order(chr(x))
            if s.char_in_shrink_order(j) != chr(x):
                return f"order of {x}"
        pos += v - u + 1


def gen_big(rng):
    out, x = [], 0
    for _ in range(rng.randint(1, 12)):
        u = x + rng.randint(0, 20000)
        v = u + rng.randint(0, 120000)
        if v > 0x10FFFF:
            break
        out.append((u, v))
        x = v + 2
    return tuple(out) or ((0, 0x10FFFF),)


CHECKS = [
    RT("interval set as a list", lambda r: raw(r), single, n=2500, cases=[(), ((48, 48),), ((0, 47),), ((91, 100),), ((48, 90),), ((0, 200),)], rule="IntervalSet agrees with its sorted member list (len, iteration, indexing, search, order)"),
    RT("interval set algebra", lambda r: (raw(r), raw(r)), pair, n=8000, rule="union, difference, intersection against Python sets, in normal form"),
    RT("interval set from string", lambda r: "".join(chr(r.choice(EDGES) if r.random() < 0.3 else r.randint(40, 60)) for _ in range(r.randint(0, 12))), from_string, n=2500),
    RT("large interval sets", gen_big, big, n=2000),
]
