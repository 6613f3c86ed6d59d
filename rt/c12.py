"""C12: minimisers and the shrinker, under random predicates."""
import hashlib
import math
from random import Random
from pyvc.runtime import RT
from rt.fl import rfloat, bits
from hypothesis import settings, strategies as st, HealthCheck, Phase
from hypothesis.control import BuildContext
from hypothesis.internal.intervalsets import IntervalSet
from hypothesis.internal.conjecture import engine as E
from hypothesis.internal.conjecture.data import ConjectureData, Status
from hypothesis.internal.conjecture.floats import float_to_lex
from hypothesis.internal.conjecture.junkdrawer import find_integer, binary_search
from hypothesis.internal.conjecture.shrinking import Bytes, Float, Integer, Ordering, String
from hypothesis.internal.conjecture.shrinking import Collection


def h(seed, v):
    return Random(hashlib.sha1(repr((seed, v)).encode()).digest())


class Pred:
    """a predicate the start satisfies: some mix of structure and of a fixed pseudo-random set"""
    def __init__(self, seed, start, key, kind):
        self.seed, self.start, self.key, self.kind, self.calls, self.passed = seed, key(start), key, kind, 0, {key(start)}

    def __call__(self, v):
        self.calls += 1
        if self.calls > 60000:
            raise AssertionError("60000 predicate calls without an end")
        k = self.key(v)
        if self.ok(k, v):
            self.passed.add(k)
            return True
        return False

    def ok(self, k, v):
        if k == self.start:
            return True
        kind = self.kind
        if kind[0] == "random":
            return h(self.seed, k).random() < kind[1]
        if kind[0] == "at_least":
            return v >= kind[1]
        if kind[0] == "mask":
            return v & kind[1] == kind[1]
        if kind[0] == "mod":
            return v % kind[1] == kind[2]
        if kind[0] == "len":
            return len(v) >= kind[1]
        if kind[0] == "has":
            return kind[1] in v
        if kind[0] == "dup":
            return len(set(v)) < len(v)
        if kind[0] == "sum":
            return sum(v) >= kind[1]
        return False


# --- integers
def g_int(rng):
    n = rng.choice([rng.randrange(10), rng.randrange(300), rng.getrandbits(16), rng.getrandbits(64), rng.getrandbits(200), 1 << rng.randrange(130)])
    k = rng.random()
    kind = (("random", rng.choice([0, .01, .1, .5, .9])) if k < .4 else ("at_least", rng.randint(0, n)) if k < .6 else
            ("mask", n & rng.getrandbits(max(1, n.bit_length()))) if k < .8 else (lambda m: ("mod", m, n % m))(rng.randint(1, 20)))
    return n, kind, rng.getrandbits(32), rng.random() < .3


def p_int(a):
    n, kind, seed, full = a
    f = Pred(seed, n, int, kind)
    r = Integer.shrink(n, f, full=full)
    if type(r) is not int or r < 0 or r > n:
        return f"Integer.shrink({n}) gave {r!r}"
    if not f.ok(r, r):
        return f"Integer.shrink({n}) gave {r}, which does not satisfy the predicate {kind}"
    if kind[0] == "at_least" and r != kind[1]:
        return f"Integer.shrink({n}, x >= {kind[1]}) gave {r}"
    for c in (0, 1, r - 1 if full else 0):
        if 0 <= c < r and f.ok(c, c):
            return f"Integer.shrink({n}, full={full}) stopped at {r} though {c} satisfies {kind}"
    return None


# --- floats
def g_float(rng):
    while True:
        x = abs(rfloat(rng))
        if not x < 0:
            break
    k = rng.random()
    kind = ("random", rng.choice([0, .01, .1, .5, .9])) if k < .6 or x != x else ("at_least", x * rng.random() if x < math.inf else 1e300) if k < .95 else ("none",)
    return x, kind, rng.getrandbits(32), rng.random() < .3


def p_float(a):
    x, kind, seed, full = a
    f = Pred(seed, x, bits, kind)
    bad = []

    def pred(v):
        if not isinstance(v, float):
            v_ = float(v)
        else:
            v_ = v
        if v_ < 0:
            bad.append(v)
        return f(v_)
    # numbers equal to an integer may be tried as integers: the caller converts
    r = float(Float.shrink(x, pred, full=full))
    if bad:
        return f"Float.shrink({x!r}) tried the negative {bad[0]!r}"
    if bits(r) not in f.passed:
        return f"Float.shrink({x!r}) gave {r!r}, which the predicate never accepted"
    if float_to_lex(r) > float_to_lex(x):
        return f"Float.shrink({x!r}) gave the more complex {r!r}"
    return None


# --- strings and bytes
ALPHA = ["0", "ab", "abc", "019Zaz", "\x00\x01~é☃\U0001f600", "".join(map(chr, range(32, 127)))]


def g_seq(rng):
    t = rng.choice(["bytes", "string", "ints"])
    alpha = rng.choice(ALPHA)
    n = rng.choice([0, 1, 2, 3, 5, 8])
    v = bytes(rng.choice([0, 1, 2, 255, rng.randrange(256)]) for _ in range(n)) if t == "bytes" else "".join(rng.choice(alpha) for _ in range(n)) if t == "string" else tuple(rng.choice([0, 1, 2, rng.getrandbits(20)]) for _ in range(n))
    k = rng.random()
    kind = ("random", rng.choice([0, .02, .2, .6, .9]))
    if k < .2:
        kind = ("len", rng.randint(0, n))
    elif k < .4 and n:
        kind = ("has", rng.choice(v))
    elif k < .6 and len(set(v)) < n:
        kind = ("dup",)
    elif k < .75 and t != "string":
        kind = ("sum", rng.randint(0, sum(v)))
    return t, alpha, v, kind, rng.getrandbits(32), rng.randint(0, n) if kind[0] == "random" else 0, rng.random() < .3


def p_seq(a):
    t, alpha, v, kind, seed, min_size, full = a
    iv = IntervalSet.from_string(alpha)
    order = iv.index_from_char_in_shrink_order if t == "string" else int

    def key(x):
        return (len(x), tuple(order(c) for c in x))
    f = Pred(seed, v, lambda x: x, kind)
    odd = []

    def pred(x):
        if type(x) is not (bytes if t == "bytes" else str if t == "string" else tuple):
            odd.append(x)
        if t == "string" and not set(x) <= set(alpha):
            odd.append(x)
        return f(x)
    if t == "bytes":
        r = Bytes.shrink(v, pred, min_size=min_size, full=full)
        r = bytes(r)
    elif t == "string":
        r = String.shrink(v, pred, intervals=iv, min_size=min_size, full=full)
        r = "".join(r)
    else:
        r = Collection.shrink(v, pred, ElementShrinker=Integer, min_size=min_size, full=full)
    if odd:
        return f"{t} shrink of {v!r} tried {odd[0]!r}"
    if r not in f.passed:
        return f"{t} shrink of {v!r} gave {r!r}, which the predicate never accepted"
    if key(r) > key(v):
        return f"{t} shrink of {v!r} gave the more complex {r!r}"
    if kind == ("random", 0) and r != v:
        return f"{t} shrink of {v!r} under a predicate only it satisfies gave {r!r}"
    if kind[0] == "len" and kind[1] == 0 and len(r):
        return f"{t} shrink of {v!r} under a predicate everything satisfies gave {r!r}"
    if kind[0] == "len" and (len(r) != kind[1] or any(order(c) for c in r)):
        return f"{t} shrink of {v!r} to length {kind[1]} gave {r!r}"
    return None


# --- orderings
def g_ord(rng):
    n = rng.choice([0, 1, 2, 3, 5, 9, 14])
    v = [rng.randrange(rng.choice([2, 5, 100])) for _ in range(n)]
    return v, rng.choice(["id", "neg", "mod"]), rng.choice([0, .05, .3, .8, 1]), rng.getrandbits(32)


def p_ord(a):
    v, kk, pr, seed = a
    key = {"id": lambda x: x, "neg": lambda x: -x, "mod": lambda x: (x % 3, x)}[kk]
    f = Pred(seed, tuple(v), lambda x: tuple(x), ("random", pr))
    r = Ordering.shrink(v, f, key=key)
    if sorted(r) != sorted(v):
        return f"Ordering.shrink({v}) gave {r}"
    if tuple(r) not in f.passed:
        return f"Ordering.shrink({v}) gave {r}, which the predicate never accepted"
    if [key(x) for x in r] > [key(x) for x in v]:
        return f"Ordering.shrink({v}) gave the later {r}"
    if pr == 1 and [key(x) for x in r] != sorted(key(x) for x in v):
        return f"Ordering.shrink({v}) under a predicate everything satisfies gave {r}"
    return None


# --- searches
def g_find(rng):
    return rng.choice([rng.randrange(12), rng.randrange(200), rng.getrandbits(40), 1 << rng.randrange(70), (1 << rng.randrange(70)) - 1]), rng.choice([0, 1, -5, rng.getrandbits(30)]), rng.choice([1, 2, 3, 100, rng.getrandbits(40) + 1]), rng.getrandbits(32)


def p_find(a):
    n, lo, w, seed = a
    calls = []

    def f(k):
        calls.append(k)
        if k < 0:
            raise AssertionError(f"find_integer asked about {k}")
        return k <= n
    r = find_integer(f)
    if r != n:
        return f"find_integer(k <= {n}) gave {r}"
    if len(calls) > 2 * n.bit_length() + 8:
        return f"find_integer(k <= {n}) asked {len(calls)} times"
    # not monotone: f(r) and not f(r + 1) still
    m = {}

    def f2(k):
        return m.setdefault(k, k == 0 or (k < n and h(seed, k).random() < .7))
    r = find_integer(f2)
    if not f2(r) or f2(r + 1):
        return f"find_integer gave {r} where f is {f2(r)}, and {f2(r + 1)} just after"
    hi = lo + w
    cut = lo + 1 + n % w
    flip = bool(seed & 1)
    r = binary_search(lo, hi, lambda k: (k < cut) != flip)
    # the largest value of [lo, hi) for which f agrees with f(lo), hi excluded
    want = cut - 1 if cut <= hi else hi - 1
    if r != want and cut < hi:
        return f"binary_search({lo}, {hi}, changes at {cut}) gave {r}, not {want}"
    return None


# --- the whole shrinker
ZOO = [
    lambda: st.integers(), lambda: st.integers(-50, 1000), lambda: st.floats(), lambda: st.text("abc01é", max_size=6), lambda: st.binary(max_size=6), lambda: st.lists(st.integers(0, 300), max_size=8),
    lambda: st.lists(st.booleans(), max_size=10), lambda: st.tuples(st.integers(), st.floats(allow_nan=False)), lambda: st.one_of(st.integers(), st.text(max_size=3), st.lists(st.integers(), max_size=3)),
    lambda: st.recursive(st.booleans(), lambda s: st.lists(s, max_size=3), max_leaves=8), lambda: st.lists(st.lists(st.integers(0, 9), max_size=4), max_size=4), lambda: st.sets(st.integers(0, 20), max_size=6),
    lambda: st.dictionaries(st.text("ab", max_size=2), st.integers(0, 5), max_size=4), lambda: st.integers(0, 8).flatmap(lambda n: st.lists(st.integers(0, n), min_size=n, max_size=n)),
    lambda: st.sampled_from(["a", "b", "c", 4, 5]), lambda: st.lists(st.sampled_from("abcd"), min_size=2, max_size=6), lambda: st.integers(0, 1000).filter(lambda x: x % 3 == 0),
    lambda: st.lists(st.floats(0, 10), max_size=4), lambda: st.datetimes(), lambda: st.permutations(range(5)),
]


def features(v):
    r = repr(v)
    return [len(r), sum(map(ord, r)) % 97, r.count(","), sum(c.isdigit() for c in r), int(hashlib.sha1(r.encode()).hexdigest()[:6], 16)]


def g_shrink(rng):
    return [rng.randrange(len(ZOO)) for _ in range(rng.choice([1, 1, 2, 3]))], rng.choice(["feature", "feature", "random", "structural"]), rng.randrange(5), rng.random(), rng.getrandbits(32), rng.random() < .5, rng.random() < .2


def value_key(data):
    return E.sort_key(data.nodes)


def p_shrink(a):
    zoo, kind, which, frac, seed, two, explain = a
    ss = [ZOO[i]() for i in zoo]
    log = []

    def classify(vals):
        fs = features(vals)
        if kind == "feature":
            hit = fs[which] >= thr[0]
        elif kind == "random":
            hit = fs[4] % 5 < 2
        else:
            hit = any(v not in (0, "", b"", [], False, None) and v == v for v in vals) and fs[0] >= thr[0] // 2
        if not hit:
            return None
        return (1 if two and fs[1] % 2 else 0)
    thr = [0]
    executed = {}

    def test(data):
        with BuildContext(data):
            vals = [data.draw(s) for s in ss]
        o = classify(vals)
        if o is not None:
            data.mark_interesting(("origin", o))
    # choose a threshold some drawn example reaches
    probe = []
    for i in range(8):
        d = ConjectureData(random=Random(seed + i))
        try:
            with BuildContext(d):
                vals = [d.draw(s) for s in ss]
        except BaseException as e:
            if type(e).__name__ != "StopTest":
                raise
            continue
        d.freeze()
        probe.append(features(vals)[which if kind == "feature" else 0])
    if not probe:
        return None
    thr[0] = sorted(probe)[int(frac * len(probe))]

    class Watch(E.Shrinker):
        def __init__(self, engine, initial, predicate, **kw):
            self.w_pred = predicate
            self.w_start = initial
            super().__init__(engine, initial, predicate, **kw)

        @property
        def shrink_target(self):
            return self.__dict__["target"]

        @shrink_target.setter
        def shrink_target(self, new):
            old = self.__dict__.get("target")
            self.__dict__["target"] = new
            if old is not None:
                log.append((old, new, self.w_pred))
                k0, k1 = value_key(old), value_key(new)
                if not (len(new.nodes) < len(old.nodes) or (len(new.nodes) == len(old.nodes) and k1 < k0)):
                    problems.append(f"adopted {new.choices!r} though it is not simpler than {old.choices!r}")
                if self.w_pred is not None and not self.w_pred(new):
                    problems.append(f"adopted {new.choices!r}, which the predicate rejects")
                if new.status < Status.VALID:
                    problems.append(f"adopted {new.choices!r} of status {new.status}")
    problems = []
    phases = [Phase.generate, Phase.shrink] + ([Phase.explain] if explain else [])
    old = E.Shrinker
    E.Shrinker = Watch
    try:
        runner = E.ConjectureRunner(test, settings=settings(max_examples=60, database=None, deadline=None, suppress_health_check=list(HealthCheck), phases=phases), random=Random(seed))
        best = {}
        orig = runner.test_function

        def spy(data):
            try:
                orig(data)
            finally:
                if data.status == Status.INTERESTING:
                    k = value_key(data)
                    o = data.interesting_origin
                    if o not in best or k < best[o]:
                        best[o] = k
        runner.test_function = spy
        runner.run()
    finally:
        E.Shrinker = old
    if problems:
        return problems[0]
    for o, d in runner.interesting_examples.items():
        # the reported example is still a failure of the same origin, found by running the choices from scratch
        again = ConjectureData.for_choices(d.choices)
        try:
            test(again)
        except BaseException as e:
            if type(e).__name__ != "StopTest":
                raise
        again.freeze()
        if again.status != Status.INTERESTING or again.interesting_origin != o:
            return f"the example reported for {o} ({d.choices!r}) gives {again.status} {again.interesting_origin}"
        if value_key(d) != best[o]:
            return f"the example reported for {o} is {d.choices!r}, but a simpler one was run ({best[o]})"
        if E.sort_key(again.nodes) != value_key(d):
            return f"the example reported for {o} replays with other choices: {again.choices!r} for {d.choices!r}"
    if set(best) != set(runner.interesting_examples):
        return f"ran failures {sorted(best)}, reported {sorted(runner.interesting_examples)}"
    return None


# --- minimal results on independent bounds: the simplest failing value is known
def g_min(rng):
    k = rng.choice(["int", "list_len", "list_sum", "float", "text", "any"])
    return k, rng.randint(1, 30), rng.getrandbits(32)


def p_min(a):
    k, n, seed = a
    from hypothesis import find
    s_ = settings(max_examples=2000, database=None, deadline=None, suppress_health_check=list(HealthCheck))
    from hypothesis.errors import NoSuchExample
    n8 = n % 8
    cases = {"int": (st.integers(), lambda x: x >= n * 37, n * 37), "list_len": (st.lists(st.booleans()), lambda x: len(x) >= n8, [False] * n8),
             "list_sum": (st.lists(st.integers(0, 50), max_size=9), lambda x: len(x) >= 2 and x[0] >= n, [n, 0]), "float": (st.floats(allow_nan=False), lambda x: x >= n, float(n)),
             "text": (st.text("0ab"), lambda x: "b" in x, "b"), "any": (st.tuples(st.integers(), st.text()), lambda x: True, (0, ""))}
    s, f, want = cases[k]
    try:
        got = find(s, f, settings=s_, random=Random(seed))
    except NoSuchExample:
        return None
    if not f(got):
        return f"find gave {got!r}, which does not satisfy the condition"
    if got != want:
        return f"find for {k} with {n} gave {got!r}; the simplest is {want!r}"
    return None


CHECKS = [
    RT("integer", g_int, p_int, n=2500, budget=10, rule="Integer.shrink: the result satisfies its predicate and is not larger; exact on thresholds; tries 0, 1 and (full) result-1"),
    RT("float", g_float, p_float, n=1200, budget=10, rule="Float.shrink: the result was accepted, is not more complex in the lex order, nothing negative is tried"),
    RT("sequence", g_seq, p_seq, n=1500, budget=12, rule="Bytes/String/Collection.shrink: accepted, no more complex by (length, order), of the right type, exact on length thresholds"),
    RT("ordering", g_ord, p_ord, n=1200, budget=8, rule="Ordering.shrink permutes, is accepted and no later in order"),
    RT("search", g_find, p_find, n=2500, budget=6, rule="find_integer and binary_search give the boundary"),
    RT("shrinker", g_shrink, p_shrink, n=45, budget=40, rule="every adopted target is interesting and strictly simpler; the reported one is the simplest run, per origin, and replays to the same choices"),
    RT("minimal", g_min, p_min, n=30, budget=25, rule="find() reaches the simplest value for threshold conditions"),
]
