"""C23: composed strategies generate only the values their definition allows (and can generate each alternative)."""
import collections
import enum
import zlib
from random import Random
from pyvc.runtime import RT
from hypothesis import strategies as st
from hypothesis.errors import InvalidArgument
from rt.draw import draw


class Colour(enum.Enum):
    red = 1
    green = 2
    blue = 3


class Perm(enum.Flag):
    r = 4
    w = 2
    x = 1


class T:
    "a value that remembers what made it; a new object every time"
    def __init__(self, tag, *vs, **kw):
        self.tag, self.vs, self.kw = tag, vs, kw

    def __repr__(self):
        return f"T({self.tag!r}, {self.vs!r}, {self.kw!r})"


def h(x):
    return zlib.crc32(repr(x).encode())


def keep(k, m):
    return lambda v: (h(v) + k) % m != 0


KEYS = [None, None, "a", "b", 0, "", (), 7]


# --- descriptions
def g_tree(rng, depth, keys):
    leaf = ["int", "sf", "sf", "sfe", "just", "perm", "slices", "bool"]
    node = ["one_of", "one_of", "map", "filter", "tuples", "builds", "flatmap", "lists", "composite", "deferred", "rec", "recursive", "shared", "shared", "data", "dict", "fixed", "or"]
    if keys is None:                        # inside a shared strategy: no further keys
        node = [x for x in node if x != "shared"]
    k = rng.choice(leaf if depth <= 0 or rng.random() < .2 else node)
    sub = lambda: g_tree(rng, depth - 1, keys)
    subs = lambda a, b: [sub() for _ in range(rng.randint(a, b))]
    if k == "int":
        lo = rng.randint(-5, 5)
        return ["int", lo, lo + rng.choice([0, 1, 10, 300])]
    if k == "sf":
        n = rng.choice([1, 2, 3, 5, 12, 40])
        tr = [[rng.choice(["map", "filter"]), rng.randint(0, 99), rng.choice([2, 3, 3])] for _ in range(rng.choice([0, 0, 1, 1, 2, 3]))]
        return ["sf", [rng.randint(-9, 99) for _ in range(n)], rng.choice(["list", "tuple", "range", "odict"]), tr]
    if k == "sfe":
        return ["sfe", rng.choice(["Colour", "Perm"]), rng.choice([None, None, [rng.randint(0, 9), 2]])]
    if k == "just":
        return ["just", rng.randint(0, 99)]
    if k == "perm":
        return ["perm", [rng.choice("aabcde") for _ in range(rng.choice([0, 1, 2, 3, 6]))]]
    if k == "slices":
        return ["slices", rng.choice([0, 1, 2, 5, 9])]
    if k == "bool":
        return ["bool"]
    if k in ("one_of", "or"):
        d = [k, [["nothing"] if rng.random() < .1 else x for x in subs(1, 4)]]
        return d if rng.random() < .5 else rng.choice([["map", d, 5], ["filter", d, 1, 3], ["flatmap", d, subs(1, 2)]])
    if k == "map":
        return ["map", sub(), rng.randint(0, 9)]
    if k == "filter":
        return ["filter", sub(), rng.randint(0, 9), rng.choice([2, 3, 3, 5])]
    if k in ("tuples", "composite", "data"):
        return [k, subs(0, 3)]
    if k == "fixed":
        return [k, subs(0, 3), subs(0, 2)]
    if k == "builds":
        return [k, subs(0, 2), subs(0, 2)]
    if k == "flatmap":
        return [k, sub(), subs(1, 3)]
    if k == "lists":
        lo = rng.choice([0, 0, 1, 2])
        return [k, sub(), lo, lo + rng.randint(0, 3)]
    if k == "dict":
        return [k, sub()]
    if k in ("deferred", "rec"):
        return [k, sub()]
    if k == "recursive":
        return [k, g_tree(rng, min(depth - 1, 1), keys), rng.choice([1, 2, 3, 5, 9, 20]), rng.choice(["lists", "tuples", "dict", "mixed", "unused"])]
    if k == "shared":
        key = rng.choice(KEYS)
        if key is None:
            return [k, None, sub()]
        if key not in keys:
            keys[key] = g_tree(rng, min(depth - 1, 1), None)
        return [k, key, keys[key]]
    raise AssertionError(k)


def empty(d):
    "the definition has no value (None: not certain)"
    k = d[0]
    if k == "nothing":
        return True
    if k == "sf":
        return None if any(t[0] == "filter" for t in d[3]) else False
    if k == "sfe":
        return None if d[2] else False
    if k in ("one_of", "or"):
        es = [empty(x) for x in d[1]]
        return True if all(e is True for e in es) else (False if any(e is False for e in es) else None)
    if k in ("tuples", "composite", "data"):
        return any3([empty(x) for x in d[1]])
    if k == "builds":
        return any3([empty(x) for x in d[1] + d[2]])
    if k == "fixed":
        return any3([empty(x) for x in d[1]])
    if k == "flatmap":
        es = [empty(x) for x in d[2]]
        return True if empty(d[1]) is True or all(e is True for e in es) else (False if empty(d[1]) is False and all(e is False for e in es) else None)
    if k == "lists":
        return empty(d[1]) if d[2] else False
    if k == "dict":
        return False
    if k == "filter":
        return empty(d[1]) or None
    if k in ("map", "deferred", "rec", "recursive"):
        return empty(d[1])
    if k == "shared":
        return empty(d[2])
    return False


def any3(es):
    return True if True in es else (None if None in es else False)


def build(d, env):
    "-> (strategy, checker: value -> None or complaint). env: made shared strategies, seen shared values"
    k = d[0]
    if k == "int":
        return st.integers(d[1], d[2]), lambda v: None if type(v) is int and d[1] <= v <= d[2] else f"{v!r} from integers({d[1]}, {d[2]})"
    if k == "bool":
        return st.booleans(), lambda v: None if v is True or v is False else f"{v!r} from booleans"
    if k == "just":
        return st.just(d[1]), lambda v: None if v == d[1] else f"{v!r} from just({d[1]})"
    if k == "nothing":
        return st.nothing(), lambda v: f"{v!r} from nothing()"
    if k == "sf":
        els = d[1]
        if d[2] == "range":
            src = range(els[0], els[0] + len(els))
        elif d[2] == "odict":
            src = collections.OrderedDict((e, 0) for e in els)
        else:
            src = (list if d[2] == "list" else tuple)(els)
        s = st.sampled_from(src)
        for t, a, m in d[3]:
            s = s.map(lambda v, a=a: (a, v)) if t == "map" else s.filter(keep(a, m))
        allowed = {repr(x) for x in sf_allowed(list(src), d[3])}
        return s, lambda v: None if repr(v) in allowed else f"{v!r} is not among {sorted(allowed)} of a sampled_from with {d[3]}"
    if k == "sfe":
        cls = Colour if d[1] == "Colour" else Perm
        s = st.sampled_from(cls)
        if d[2]:
            s = s.filter(keep(*d[2]))
        return s, lambda v: None if type(v) is cls and (cls is Colour and v in list(Colour) or cls is Perm and 0 <= v.value <= 7) and (not d[2] or keep(*d[2])(v)) else f"{v!r} from sampled_from({cls.__name__}) with filter {d[2]}"
    if k == "perm":
        return st.permutations(list(d[1])), lambda v: None if type(v) is list and sorted(v) == sorted(d[1]) else f"{v!r} is not a permutation of {d[1]!r}"
    if k == "slices":
        n = d[1]
        def ok(v):
            if type(v) is not slice or v.step == 0:
                return f"{v!r} from slices({n})"
            if n == 0:
                return None if v.start is None and v.stop is None else f"{v!r} from slices(0)"
            if not (v.start is None or -n <= v.start < n) or not (v.stop is None or -n <= v.stop <= n):
                return f"{v!r} from slices({n}) is out of range"
            if not range(n)[v]:
                a, b, c = v.indices(n)
                if a != b:
                    return f"{v!r} from slices({n}) selects nothing, though its start and end differ"
        return st.slices(n), ok
    if k in ("one_of", "or"):
        parts = [build(x, env) for x in d[1]]
        ss = [p[0].map(lambda v, i=i: (i, v)) for i, p in enumerate(parts)]
        if k == "one_of":
            s = st.one_of(ss) if h(d) % 2 else st.one_of(*ss)
        else:
            s = ss[0]
            for x in ss[1:]:
                s = s | x
        return s, lambda v: parts[v[0]][1](v[1]) if type(v) is tuple and len(v) == 2 and v[0] in range(len(parts)) else f"{v!r} from {k}"
    if k == "map":
        s, c = build(d[1], env)
        return s.map(lambda v: T(d[2], v)), lambda v: c(v.vs[0]) if type(v) is T and v.tag == d[2] else f"{v!r} is not a mapped value"
    if k == "filter":
        s, c = build(d[1], env)
        f = keep(d[2], d[3])
        return s.filter(f), lambda v: c(v) or (None if f(v) else f"{v!r} does not pass the filter")
    if k == "tuples":
        parts = [build(x, env) for x in d[1]]
        return st.tuples(*[p[0] for p in parts]), lambda v: each(parts, v) if type(v) is tuple else f"{v!r} from tuples"
    if k == "fixed":
        req, opt = [build(x, env) for x in d[1]], [build(x, env) for x in d[2]]
        s = st.fixed_dictionaries({i: p[0] for i, p in enumerate(req)}, optional={100 + i: p[0] for i, p in enumerate(opt)})
        def okf(v):
            if type(v) is not dict or not set(range(len(req))) <= set(v) <= set(range(len(req))) | {100 + i for i in range(len(opt))}:
                return f"{v!r} has the wrong keys for fixed_dictionaries with {len(req)} + {len(opt)} keys"
            for kk, x in v.items():
                m = (req[kk] if kk < 100 else opt[kk - 100])[1](x)
                if m:
                    return m
        return s, okf
    if k == "builds":
        a, b = [build(x, env) for x in d[1]], [build(x, env) for x in d[2]]
        s = st.builds(T, st.just("b"), *[p[0] for p in a], **{f"k{i}": p[0] for i, p in enumerate(b)})
        return s, lambda v: (each(a, v.vs) or each(b, [v.kw[f"k{i}"] for i in range(len(v.kw))])) if type(v) is T and v.tag == "b" else f"{v!r} from builds"
    if k == "flatmap":
        s, c = build(d[1], env)
        parts = [build(x, env) for x in d[2]]
        r = s.flatmap(lambda v: st.tuples(st.just(v), parts[h(v) % len(parts)][0]))
        return r, lambda v: (c(v[0]) or parts[h(v[0]) % len(parts)][1](v[1])) if type(v) is tuple and len(v) == 2 else f"{v!r} from flatmap"
    if k == "lists":
        s, c = build(d[1], env)
        return st.lists(s, min_size=d[2], max_size=d[3]), lambda v: next((m for m in map(c, v) if m), None) if type(v) is list and d[2] <= len(v) <= d[3] else f"{v!r} from lists({d[2]}, {d[3]})"
    if k == "dict":
        s, c = build(d[1], env)
        return st.dictionaries(st.integers(0, 3), s, max_size=3), lambda v: next((m for m in map(c, v.values()) if m), None) if type(v) is dict and len(v) <= 3 and set(v) <= {0, 1, 2, 3} else f"{v!r} from dictionaries"
    if k == "composite":
        parts = [build(x, env) for x in d[1]]

        @st.composite
        def comp(draw, n, *, tag):
            return (tag, n, [draw(p[0]) for p in parts])
        return comp(3, tag="c"), lambda v: each(parts, v[2]) if type(v) is tuple and v[:2] == ("c", 3) else f"{v!r} from composite"
    if k == "data":
        parts = [build(x, env) for x in d[1]]

        @st.composite
        def usesdata(draw):
            dt = draw(st.data())
            return [dt.draw(p[0]) for p in parts]
        return usesdata(), lambda v: each(parts, v)
    if k == "deferred":
        s, c = build(d[1], env)
        return st.deferred(lambda: s), c
    if k == "rec":
        s, c = build(d[1], env)
        r = st.deferred(lambda: s.map(lambda v: T("leaf", v)) | st.tuples(r, s).map(lambda v: T("node", v)))

        def okr(v):
            while True:
                if type(v) is not T:
                    return f"{v!r} from a deferred strategy"
                if v.tag == "leaf":
                    return c(v.vs[0])
                v, x = v.vs[0]
                m = c(x)
                if m:
                    return m
        return r, okr
    if k == "recursive":
        s, c = build(d[1], env)
        leaf = s.map(lambda v: T("leaf", v))
        ext = {"lists": lambda x: st.lists(x, max_size=4), "tuples": lambda x: st.tuples(x, x), "dict": lambda x: st.dictionaries(st.booleans(), x),
               "mixed": lambda x: st.tuples(x) | st.lists(x, min_size=2, max_size=5) | st.none(), "unused": lambda x: st.integers(0, 3)}[d[3]]

        def okl(v):
            n = [0]

            def walk(v):
                if type(v) is T and v.tag == "leaf":
                    n[0] += 1
                    return c(v.vs[0])
                if d[3] in ("lists", "mixed") and type(v) is list or d[3] in ("tuples", "mixed") and type(v) is tuple:
                    return next((m for m in map(walk, v) if m), None)
                if d[3] == "dict" and type(v) is dict:
                    return next((m for m in map(walk, v.values()) if m), None)
                if d[3] == "mixed" and v is None or d[3] == "unused" and type(v) is int:
                    return None
                return f"{v!r} inside a recursive structure"
            m = walk(v)
            return m or (f"{n[0]} leaves, max_leaves={d[2]}" if n[0] > d[2] else None)
        return st.recursive(leaf, ext, max_leaves=d[2]), okl
    if k == "shared":
        key = d[1]
        if key is None:
            s, c = build(d[2], env)
            x = st.shared(s.map(lambda v: T("sh", v)))
            ident = object()
            if h(d) % 2:                    # the same strategy drawn twice
                return st.tuples(x, x), lambda v: c(v[0].vs[0]) if type(v) is tuple and v[0] is v[1] and type(v[0]) is T else f"{v!r}: a shared strategy drawn twice gave two values"
            return x, lambda v: c(v.vs[0]) if type(v) is T and v.tag == "sh" else f"{v!r} from shared"
        s, c = build(d[2], env)
        kk = repr(key)
        x = st.shared(s.map(lambda v: T("sh" + kk, v)), key=key)

        def oks(v):
            if type(v) is not T or v.tag != "sh" + kk:
                return f"{v!r} from shared(key={key!r})"
            if env.setdefault(kk, v) is not v:
                return f"two values for shared(key={key!r}) in one test case: {env[kk]!r} and {v!r}"
            return c(v.vs[0])
        return x, oks
    raise AssertionError(k)


def sf_allowed(els, tr):
    out = els
    for t, a, m in tr:
        out = [(a, v) for v in out] if t == "map" else [v for v in out if keep(a, m)(v)]
    return out


def each(parts, vs):
    if len(parts) != len(vs):
        return f"{vs!r} has {len(vs)} parts, not {len(parts)}"
    for (s, c), v in zip(parts, vs):
        m = c(v)
        if m:
            return m


def g_comp(rng):
    keys = {}
    d = g_tree(rng, rng.choice([1, 2, 2, 3, 3, 4]), keys)
    return d, rng.getrandbits(32), rng.random() < .6


def p_comp(inp):
    d, seed, edge = inp
    env = {}
    s, c = build(d, env)
    try:
        s.validate()
        e = s.is_empty
    except InvalidArgument as x:
        return None if "'nothing'" in repr(d) else f"refused: {x!s:.200}"
    if e and empty(d) is False:
        return "reported empty, though its definition has values"
    if e:
        return None
    for i in range(4):
        env.clear()
        try:
            tag, v, data = draw(s, seed + i, edge)
        except InvalidArgument:
            if "'nothing'" in repr(d):     # e.g. a non-empty list of nothing
                return None
            raise
        if tag == "ok":
            if empty(d) is True:
                return f"gave {v!r}, though its definition has no value"
            m = c(v)
            if m:
                return m
    return None


# --- every alternative can occur
def g_reach(rng):
    return rng.choice(["one_of", "one_of_map", "sampled", "enum", "flag", "perm", "nested", "bool_filter"]), [rng.randint(0, 99) for _ in range(rng.randint(1, 6))], rng.getrandbits(32)


def p_reach(inp):
    k, els, seed = inp
    want = set(range(len(els)))
    if k == "one_of":
        s = st.one_of(*[st.just(i) for i in range(len(els))])
    elif k == "one_of_map":
        s = st.one_of(*[st.integers(0, 3).map(lambda v, i=i: i) for i in range(len(els))]).map(lambda i: i)
    elif k == "nested":
        s = st.nothing()
        for i in range(len(els)):
            s = s | st.sampled_from([i, i]) | st.nothing()
    elif k == "sampled":
        f = keep(els[0], 2)
        s, want = st.sampled_from(els * 3).filter(f), {e for e in els if f(e)}
        if not want:
            return None
    elif k == "bool_filter":
        f = keep(els[0], 2)
        s, want = st.sampled_from(els).map(lambda v: (v, 1)).filter(f).map(lambda t: t[0]), {e for e in els if f((e, 1))}
        if not want:
            return None
    elif k == "enum":
        s, want = st.sampled_from(Colour), set(Colour)
    elif k == "flag":
        s, want = st.sampled_from(Perm), {Perm(4), Perm(2), Perm(1), Perm(3), Perm(7)}
    else:
        s, want = st.permutations([0, 1, 2]).map(tuple), {(0, 1, 2), (0, 2, 1), (1, 0, 2), (1, 2, 0), (2, 0, 1), (2, 1, 0)}
    seen = set()
    for i in range(400):
        tag, v, data = draw(s, seed + i, False)
        if tag == "invalid":
            return f"{k} over {els}: rejected, though elements pass the filter"
        if tag == "ok":
            seen.add(v)
            if seen >= want:
                return None
    return f"{k} over {els}: never gave {sorted(map(str, want - seen))} in 400 draws"


CHECKS = [
    RT("composition", g_comp, p_comp, n=6000, budget=35, rule="values of composed strategies satisfy the definition they were composed from"),
    RT("alternatives", g_reach, p_reach, n=150, budget=15, rule="each alternative and allowed element occurs"),
]
