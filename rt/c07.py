"""C07: values drawn by every provider against an independent reading of the constraints."""
import math
from random import Random
from pyvc.runtime import RT
from rt.fl import rfloat, rank, unrank, bits, SPECIAL
from rt.c03 import raw, members
from hypothesis.errors import StopTest
from hypothesis.internal.conjecture import providers as PR
from hypothesis.internal.conjecture.data import ConjectureData, Status
from hypothesis.internal.intervalsets import IntervalSet

BIGS = [0, 1, -1, 2, 5, 127, 128, 255, 256, 257, 65535, 2**31, 2**32, 2**63, 2**64, 2**64 + 1, 2**127, 2**128, 10**40]


def rint(rng):
    k = rng.random()
    return rng.randint(-20, 20) if k < .5 else rng.choice([1, -1]) * (rng.choice(BIGS) + rng.randint(-1, 1)) if k < .9 else rng.choice([1, -1]) * rng.getrandbits(rng.randint(1, 200))


def g_int(rng):
    lo, hi = rint(rng), rint(rng)
    if rng.random() < .4:
        hi = lo + rng.choice([0, 1, 2, 3, 7, 126, 127, 128, 129, 255, 256, 1000])
    lo, hi = min(lo, hi), max(lo, hi)
    k = rng.random()
    w = None
    if k < .2:
        lo = None
    elif k < .4:
        hi = None
    elif k < .5:
        lo = hi = None
    elif k < .75 and hi - lo >= 1:
        n = rng.randint(1, min(5, hi - lo))
        ks = set()
        while len(ks) < n:
            ks.add(rng.choice([lo, hi, rng.randint(lo, hi)]))
        w = {v: rng.choice([.05, .1, .15]) for v in sorted(ks)}
    s = 0 if k >= .5 and rng.random() < .3 else rint(rng) if rng.random() < .5 else (lo if lo is not None else hi if hi is not None else 3)
    return dict(min_value=lo, max_value=hi, weights=w, shrink_towards=s)


def ok_int(v, c):
    return type(v) is int and (c["min_value"] is None or v >= c["min_value"]) and (c["max_value"] is None or v <= c["max_value"])


def g_float(rng):
    a, b = rfloat(rng, False), rfloat(rng, False)
    if rng.random() < .3:
        b = unrank(max(rank(-math.inf), min(rank(math.inf), rank(a) + rng.choice([0, 1, 2, -1, 5]))))
    a, b = (a, b) if rank(a) <= rank(b) else (b, a)
    if rng.random() < .25:
        a = -math.inf
    if rng.random() < .25:
        b = math.inf
    m = rng.choice([5e-324, 5e-324, 2.2250738585072014e-308, 1e-5, 1.0])
    if rng.random() < .1:
        a, b = sorted((rng.choice([a, -m / 2, -m]), rng.choice([b, m / 2, m])), key=rank)
    # the constraints must permit a number
    if not any(ok_float(x, dict(min_value=a, max_value=b, allow_nan=False, smallest_nonzero_magnitude=m)) for x in (a, b, 0.0, -0.0, m, -m)):
        m = 5e-324
    return dict(min_value=a, max_value=b, allow_nan=rng.random() < .5, smallest_nonzero_magnitude=m)


def ok_float(v, c):
    if type(v) is not float:
        return False
    if v != v:
        return c["allow_nan"]
    return rank(c["min_value"]) <= rank(v) <= rank(c["max_value"]) and (v == 0 or abs(v) >= c["smallest_nonzero_magnitude"])


def g_size(rng):
    lo = rng.choice([0, 0, 1, 2, 3, 10])
    return lo, rng.choice([lo, lo + 1, lo + 2, lo + 8, 10**10])


def g_str(rng):
    iv = ()
    while not iv:
        iv = rng.choice([raw(rng), ((0, 127),), ((97, 97),), ((0, 0xD7FF), (0xE000, 0x10FFFF)), ((48, 57), (0x10000, 0x10FFFF)), ((0, 255),), ((0, 256),), ((200, 500),)])
    lo, hi = g_size(rng)
    return dict(intervals=iv, min_size=lo, max_size=hi)


def ok_str(v, c):
    return type(v) is str and c["min_size"] <= len(v) <= c["max_size"] and all(any(a <= ord(x) <= b for a, b in c["intervals"]) for x in v)


def g_bytes(rng):
    lo, hi = g_size(rng)
    return dict(min_size=lo, max_size=hi)


def ok_bytes(v, c):
    return type(v) is bytes and c["min_size"] <= len(v) <= c["max_size"]


def g_bool(rng):
    return dict(p=rng.choice([0, 0.0, 1, 1.0, .5, .01, .99, 2**-20, 1 - 2**-20, rng.random()]))


def ok_bool(v, c):
    return type(v) is bool and not (c["p"] == 0 and v) and not (c["p"] == 1 and not v)


T = {"integer": (g_int, ok_int), "float": (g_float, ok_float), "string": (g_str, ok_str), "bytes": (g_bytes, ok_bytes), "boolean": (g_bool, ok_bool)}


class Tape(Random):
    "a source that sometimes returns its extremes"
    def __init__(self, seed):
        self.k = Random(seed)
        self.mode = self.k.random() * .8
        super().__init__(seed)

    def random(self):
        return self.k.choice([0.0, 1 - 2**-53, 2**-53, .5, .04, .06]) if self.k.random() < self.mode else self.k.random()

    def getrandbits(self, n):
        return self.k.choice([0, (1 << n) - 1, 1 << (n - 1) if n else 0, 1]) & ((1 << n) - 1) if self.k.random() < self.mode * .7 else self.k.getrandbits(n)


def make(kind, seed):
    if kind == "bytes":
        r = Random(seed)
        b = bytes(r.choice([0, 255, r.getrandbits(8), r.getrandbits(8)]) for _ in range(r.choice([40, 400, 4000])))
        return ConjectureData(random=None, provider=PR.BytestringProvider, provider_kw={"bytestring": b})
    if kind == "urandom":
        return ConjectureData(random=None, provider=PR.URandomProvider)
    return ConjectureData(random=Tape(seed) if kind == "tape" else Random(seed))


def go(data, t, c, forced=None):
    kw = dict(c)
    if t == "string":
        kw["intervals"] = IntervalSet(c["intervals"])
    return getattr(data, "draw_" + t)(**kw, **({} if forced is None else {"forced": forced}))


def p(a):
    cs, kind, seed = a
    data = make(kind, seed)
    out = []
    try:
        for t, c in cs:
            out.append(go(data, t, c))
            if not T[t][1](out[-1], c):
                return f"{kind} drew {out[-1]!r:.100} for {t} {c}"
    except StopTest:
        if data.status is not Status.OVERRUN:
            return f"stopped with {data.status}"
        if kind in ("random", "urandom") and sum(len(x) if isinstance(x, (str, bytes)) else 8 for x in out) < 2000 and all(c.get("min_size", 0) < 20 for _, c in cs):
            return f"overrun after only {out!r:.200}"
    rec = list(data.choices)
    if [x if x == x else "nan" for x in rec] != [x if x == x else "nan" for x in out]:
        return f"recorded {rec!r:.200}, drew {out!r:.200}"


def g(rng):
    cs = []
    for _ in range(rng.choice([1, 1, 2, 5])):
        t = rng.choice(list(T))
        c = T[t][0](rng)
        cs.append((t, c))
        if rng.random() < .3:
            # a close relative afterwards: constraints that are pooled or cached must not be mixed up
            c2 = dict(c)
            if t == "integer" and c["weights"]:
                c2["weights"] = {k: .14 for k in list(c["weights"])[:1] + [x for x in list(c["weights"])[1:]]}
            elif t == "float":
                c2["allow_nan"] = not c["allow_nan"]
            elif t in ("string", "bytes"):
                c2["max_size"] = c["min_size"]
            elif t == "integer" and c["min_value"] is not None and c["max_value"] is not None:
                c2["max_value"] = c["min_value"]
            elif t == "boolean":
                c2["p"] = 1 - c["p"]
            cs.append((t, c2))
    return cs, rng.choice(["random", "tape", "tape", "bytes", "urandom"]), rng.getrandbits(40)


def g_many(rng):
    t = rng.choice(["integer", "float", "string", "bytes"])
    return t, T[t][0](rng), rng.choice(["random", "tape"]), rng.getrandbits(40)


def p_many(a):
    "many draws under one constraint: the rare branches (constants, special floats) come up"
    t, c, kind, seed = a
    data = make(kind, seed)
    try:
        for _ in range(150):
            v = go(data, t, c)
            if not T[t][1](v, c):
                return f"{kind} drew {v!r:.100} for {t} {c}"
    except StopTest:
        pass


def g_forced(rng):
    t = rng.choice(list(T))
    c = T[t][0](rng)
    if t == "integer":
        lo, hi = c["min_value"], c["max_value"]
        v = rng.choice([x for x in (lo, hi, rng.randint(lo if lo is not None else (hi or 0) - 50, hi if hi is not None else (lo or 0) + 50)) if x is not None])
    elif t == "float":
        v = rng.choice([x for x in (c["min_value"], c["max_value"], 0.0, -0.0, math.nan, rfloat(rng)) if ok_float(x, c)] or [None])
    elif t == "boolean":
        v = rng.choice([x for x in (True, False) if ok_bool(x, c)])
    elif t == "bytes":
        v = rng.randbytes(rng.randint(c["min_size"], min(c["max_size"], c["min_size"] + 4)))
    else:
        m = members(c["intervals"][:3] if sum(b - a for a, b in c["intervals"]) < 2000 else ((c["intervals"][0][0], c["intervals"][0][0]),))
        v = "".join(chr(rng.choice(m)) for _ in range(rng.randint(c["min_size"], min(c["max_size"], c["min_size"] + 4))))
    return t, c, v, rng.choice(["random", "tape", "replay"]), rng.getrandbits(40)


def p_forced(a):
    t, c, v, kind, seed = a
    if v is None:
        return
    if kind == "replay":
        # whatever the replayed choice is, the forced value wins
        data = ConjectureData.for_choices([{"integer": 3, "float": 1.5, "string": "zz", "bytes": b"zz", "boolean": True}[t]])
    else:
        data = make(kind, seed)
    got = go(data, t, c, v)
    if type(got) is not type(v) or (bits(got) != bits(v) if t == "float" else got != v):
        return f"forced {t} {v!r:.100} under {c} gave {got!r:.100}"
    n = data.nodes[-1] if hasattr(data, "nodes") else None
    if n is not None and (n.was_forced is not True or (bits(n.value) != bits(v) if t == "float" else n.value != v)):
        return f"forced {v!r:.100} recorded as {n!r:.200}"


def g_rep(rng):
    t = rng.choice(list(T))
    c = T[t][0](rng)
    u = rng.choice(list(T)) if rng.random() < .3 else t
    x = {"integer": lambda: rint(rng), "float": lambda: rfloat(rng), "string": lambda: rng.choice(["", "a", "ab0", "\0", "\x80" * 3, "0" * 9]), "bytes": lambda: rng.randbytes(rng.randint(0, 4)), "boolean": lambda: rng.random() < .5}[u]()
    return t, c, x


def p_rep(a):
    "a replayed choice is used exactly when it has the type and is permitted"
    t, c, x = a
    data = ConjectureData.for_choices([x])
    try:
        v = go(data, t, c)
    except StopTest:
        return "overrun" if not isinstance(x, (str, bytes)) and not c.get("min_size") else None
    if not T[t][1](v, c):
        return f"replaying {x!r} for {t} {c} gave {v!r:.100}"
    if type(x) is type(v) and T[t][1](x, c):
        if (bits(v) != bits(x) if t == "float" else v != x) or data.misaligned_at is not None:
            return f"permitted choice {x!r} for {t} {c} was replaced by {v!r:.100}"
    elif data.misaligned_at is None:
        return f"choice {x!r} does not fit {t} {c} but was not counted as misaligned"


CHECKS = [RT("draws", g, p, n=12000, rule="random constraints; providers: random, boundary-returning random source, bytes, urandom"), RT("repeated-draws", g_many, p_many, n=500), RT("forced", g_forced, p_forced, n=6000), RT("replayed", g_rep, p_rep, n=8000)]
