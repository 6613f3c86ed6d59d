"""C08: sizes, uniqueness and membership of generated collections."""
import functools
import operator
from pyvc.runtime import RT
from rt.draw import draw, redraw
from hypothesis import strategies as st

ELEM = {"int": (lambda: st.integers(0, 6), lambda x: type(x) is int and 0 <= x <= 6, 7), "bigint": (lambda: st.integers(), lambda x: type(x) is int, None), "bool": (lambda: st.booleans(), lambda x: type(x) is bool, 2),
        "sampled": (lambda: st.sampled_from([3, 1, 2, 5, 4]), lambda x: x in (1, 2, 3, 4, 5), 5), "dup": (lambda: st.sampled_from([1, 1, 2, 3, 3, 3]), lambda x: x in (1, 2, 3), 3),
        "filtered": (lambda: st.integers(0, 9).filter(lambda x: x % 3 == 0), lambda x: x in (0, 3, 6, 9), 4), "text": (lambda: st.text("ab", max_size=2), lambda x: isinstance(x, str) and set(x) <= set("ab") and len(x) <= 2, 7),
        "none": (lambda: st.none(), lambda x: x is None, 1), "float": (lambda: st.floats(0, 1), lambda x: isinstance(x, float) and 0 <= x <= 1, None), "fset": (lambda: st.frozensets(st.integers(0, 2)), lambda x: isinstance(x, frozenset) and x <= {0, 1, 2}, 8),
        "sampmap": (lambda: st.sampled_from(range(8)).map(lambda x: x * 2), lambda x: x in range(0, 16, 2), 8), "sampfilt": (lambda: st.sampled_from(range(8)).filter(lambda x: x != 5), lambda x: x in (0, 1, 2, 3, 4, 6, 7), 7),
        "oneof": (lambda: st.one_of(st.integers(0, 2), st.just("x")), lambda x: x in (0, 1, 2, "x"), 4)}
BY = {None: None, "id": lambda x: x, "mod2": lambda x: hash(x) % 2, "str": str, "mod3": lambda x: hash(x) % 3, "const": lambda x: 0}
# a bound on how many elements can be distinct under a key
CAP = {"mod2": 2, "mod3": 3, "const": 1}


def g(rng):
    kind = rng.choice(["list", "list", "ulist", "ulist", "ulist", "set", "frozenset", "dict", "fdict", "tuple", "iterables", "shared-key"])
    e = rng.choice(list(ELEM))
    cap = ELEM[e][2]
    uby = rng.choice([None, "id", "id", "mod2", "str", "mod3", "const", ("id", "mod3"), ("mod2", "mod3")])
    lo = rng.choice([0, 0, 1, 2, 3, 5])
    hi = rng.choice([None, lo, lo, lo + 1, lo + 2, lo + 6])
    if kind in ("ulist", "set", "frozenset", "dict"):
        caps = [c for c in [cap] + [CAP.get(u) for u in (uby if isinstance(uby, tuple) else (uby,))] if c is not None]
        if kind != "ulist":
            caps = [cap] if cap else []
        if caps:
            lo = min(lo, max(0, min(caps) - (1 if rng.random() < .5 else 0)))
            if hi is not None:
                hi = max(lo, min(hi, 8))
    return kind, e, uby, lo, hi, rng.choice(list(ELEM)), rng.random() < .65, rng.getrandbits(32), rng.randint(0, 4)


def build(a):
    kind, e, uby, lo, hi, e2, edge, seed, n = a
    E = ELEM[e][0]()
    if kind == "list":
        return st.lists(E, min_size=lo, max_size=hi)
    if kind == "ulist":
        return st.lists(E, min_size=lo, max_size=hi, unique_by=tuple(BY[u] for u in uby) if isinstance(uby, tuple) else BY[uby]) if uby is not None else st.lists(E, min_size=lo, max_size=hi, unique=True)
    if kind == "set":
        return st.sets(E, min_size=lo, max_size=hi)
    if kind == "frozenset":
        return st.frozensets(E, min_size=lo, max_size=hi)
    if kind in ("dict", "shared-key"):
        return st.dictionaries(E, ELEM[e2][0](), min_size=lo if kind == "dict" else 0, max_size=hi)
    if kind == "tuple":
        return st.tuples(*[ELEM[(e, e2)[k % 2]][0]() for k in range(n)])
    if kind == "iterables":
        return st.iterables(E, min_size=lo, max_size=hi, unique=bool(n % 2) and (ELEM[e][2] or 99) > lo)
    if kind == "fdict":
        return st.fixed_dictionaries({f"r{k}": ELEM[e][0]() for k in range(n)}, optional={f"o{k}": ELEM[e2][0]() for k in range(lo)} if lo else None)


def key(x):
    return (type(x).__name__, x) if isinstance(x, float) else x


def p(a):
    kind, e, uby, lo, hi, e2, edge, seed, n = a
    s = build(a)
    st_, v, data = draw(s, seed, edge)
    if st_ != "ok":
        return None
    r = verdict(a, v)
    if r:
        return f"{s!r}: {r}"
    if kind != "iterables":
        st2, w, _ = redraw(s, data)
        if st2 != "ok" or w != v or type(w) is not type(v):
            return f"{s!r}: replaying its choices gives {st2} {w!r}, not {v!r}"


def verdict(a, v):
    kind, e, uby, lo, hi, e2, edge, seed, n = a
    ok1, ok2 = ELEM[e][1], ELEM[e2][1]
    top = 10**9 if hi is None else hi
    if kind in ("list", "ulist"):
        if type(v) is not list:
            return f"not a list: {v!r}"
        items = v
    elif kind in ("set", "frozenset"):
        if type(v) is not {"set": set, "frozenset": frozenset}[kind]:
            return f"type {type(v)}"
        items = list(v)
    elif kind in ("dict", "shared-key"):
        if type(v) is not dict:
            return f"type {type(v)}"
        items = list(v)
        if kind == "shared-key":
            lo = 0
        for x in v.values():
            if not ok2(x):
                return f"value {x!r} is not from its strategy"
    elif kind == "iterables":
        items = list(v)
        if list(v):
            return "an exhausted iterable yields again"
    elif kind == "tuple":
        if type(v) is not tuple or len(v) != n:
            return f"not a tuple of {n}: {v!r}"
        for k, x in enumerate(v):
            if not ELEM[(e, e2)[k % 2]][1](x):
                return f"element {k} {x!r} is not from its strategy"
        return
    else:
        req, opt = {f"r{k}" for k in range(n)}, {f"o{k}" for k in range(lo)}
        if type(v) is not dict or not req <= set(v) <= req | opt:
            return f"keys {list(v)}, required {sorted(req)}, optional {sorted(opt)}"
        for k, x in v.items():
            if not (ok1 if k in req else ok2)(x):
                return f"value {x!r} of {k} is not from its strategy"
        return
    if not lo <= len(items) <= top:
        return f"size {len(items)} outside [{lo}, {hi}]: {v!r}"
    for x in items:
        if not ok1(x):
            return f"element {x!r} is not from its strategy"
    if kind == "ulist":
        for u in (uby if isinstance(uby, tuple) else (uby,)):
            f = BY[u] or (lambda x: x)
            ks = [f(x) for x in items]
            if any(ks[i] == ks[j] for i in range(len(ks)) for j in range(i)):
                return f"two elements equal under {u}: {items!r}"
    if kind == "iterables" and n % 2 and (ELEM[e][2] or 99) > a[3] and len(set(items)) != len(items):
        return f"not unique: {items!r}"


def reach(a):
    "every size within the bounds can come out"
    kind, e, lo, hi = a
    s = {"list": lambda: st.lists(st.integers(0, 99), min_size=lo, max_size=hi), "set": lambda: st.sets(st.integers(0, 99), min_size=lo, max_size=hi), "usampled": lambda: st.lists(st.sampled_from(range(hi + 1)), unique=True, min_size=lo, max_size=hi),
         "exact": lambda: st.lists(st.sampled_from(range(max(hi, 1))), unique=True, min_size=lo, max_size=hi if hi else None), "fd": lambda: st.fixed_dictionaries({}, optional={k: st.just(k) for k in range(hi)}),
         "dict": lambda: st.dictionaries(st.integers(0, 99), st.none(), min_size=lo, max_size=hi)}[kind]()
    seen, firsts = set(), set()
    for seed in range(400):
        t, v, _ = draw(s, (e, seed).__hash__(), seed % 3 != 0, size=2)
        if t == "ok":
            seen.add(len(v))
            if kind == "usampled" and v:
                firsts.update(v)
    want = set(range(0 if kind == "fd" else lo, hi + 1)) if kind != "exact" or hi else {0, 1} - (set() if lo == 0 else {0})
    if not want <= seen:
        return f"{kind}: sizes {sorted(want - seen)} of [{lo}, {hi}] never came out"
    if kind == "usampled" and hi and firsts != set(range(hi + 1)):
        return f"{sorted(set(range(hi + 1)) - firsts)} never sampled"


CHECKS = [RT("collections", g, p, n=6000, rule="random element strategies, bounds, keys; boundary-preferring and random choices"),
          RT("sizes-reached", lambda rng: (rng.choice(["list", "set", "usampled", "exact", "fd", "dict"]), rng.getrandbits(16), (l := rng.randint(0, 3)), l + rng.randint(0, 3)), reach, n=25)]


def dups(a):
    "unique samples of elements which may be equal to one another: rejected, or right"
    els, lo, by, seed = a
    lo = min(lo, len(els))
    f = [lambda x: x, lambda x: 0, lambda x: x % 2][by]
    for s, ok in ((st.lists(st.sampled_from(els), unique_by=f, min_size=lo), True), (st.lists(st.sampled_from(els).filter(lambda x: x != els[0]), unique=True, min_size=lo), False), (st.sets(st.sampled_from(els).map(f), min_size=lo), False)):
        t, v, _ = draw(s, seed, seed % 2 == 0, size=3)
        if t == "ok":
            v = list(v)
            if len(v) < lo or len({f(x) for x in v} if ok else set(v)) != len(v):
                return f"{v!r} from {els!r}, at least {lo}"


CHECKS.append(RT("duplicate-samples", lambda rng: ([rng.randint(0, 3) for _ in range(rng.randint(1, 6))], rng.randint(0, 3), rng.randint(0, 2), rng.getrandbits(20)), dups, n=400))
