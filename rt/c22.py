"""C22: pseudo-random state around tests; generated Random objects and functions."""
import copy
import inspect
import math
import random
from random import Random
import numpy as np
from pyvc.runtime import RT
from hypothesis import HealthCheck, given, register_random, seed as with_seed, settings, strategies as st
from hypothesis.control import BuildContext
from hypothesis.errors import InvalidState, StopTest
from hypothesis.internal.conjecture.data import ConjectureData

QUIET = dict(database=None, deadline=None, suppress_health_check=list(HealthCheck))


class Lcg:
    "a user's generator with the three methods asked for"
    def __init__(self, s):
        self.s = s

    def seed(self, s):
        self.s = (s * 2862933555777941757 + 3037000493) % 2**64

    def getstate(self):
        return ("lcg", self.s)

    def setstate(self, st_):
        assert st_[0] == "lcg"
        self.s = st_[1]

    def next(self):
        self.s = (self.s * 6364136223846793005 + 1442695040888963407) % 2**64
        return self.s


KEPT = []          # registration is weak: keep what is registered alive


def registered():
    if not KEPT:
        KEPT.extend([Lcg(1), Lcg(2), Random(3)])
        for r in list(KEPT):
            register_random(r)
    return KEPT


def states():
    np_ = np.random.get_state()
    return (random.getstate(), (np_[0], tuple(np_[1].tolist()), *np_[2:]), *[r.getstate() for r in registered()])


def g_prng(rng):
    return dict(seed=rng.getrandbits(30), n=rng.choice([1, 3, 8]), fail=rng.choice([None, None, "raise", "assume", "nested"]), module=rng.random() < .4, poke=rng.choice(["draw", "reseed", "numpy", "all"]), drop=rng.random() < .3, entry=rng.getrandbits(20), scopes=rng.random() < .3)


def p_prng(a):
    registered()
    random.seed(a["entry"])
    np.random.seed(a["entry"] % 2**32)
    for i, r in enumerate(registered()):
        r.seed(a["entry"] + i)
    starts = []
    seeds = []
    temp = Lcg(9)
    if a["drop"]:
        register_random(temp)
    holder = [temp]
    del temp

    def poke():
        if a["poke"] in ("draw", "all"):
            for _ in range(3):
                random.random()
        if a["poke"] in ("reseed", "all"):
            random.seed(a["seed"])
            registered()[0].seed(4)
        if a["poke"] in ("numpy", "all"):
            np.random.rand(3)
            registered()[1].next()
            registered()[2].random()

    @settings(max_examples=a["n"], **QUIET)
    @with_seed(a["seed"])
    @given(st.data())
    def t(data):
        before = states()
        starts.append(before)
        x = data.draw(st.integers(0, 5))
        if holder and a["drop"] and len(starts) == 2:
            holder.clear()
        poke()
        if a["module"]:
            m = data.draw(st.random_module())
            seeds.append((m.seed, states()))
        if a["fail"] == "raise" and x == 3:
            raise ZeroDivisionError
        if a["fail"] == "assume" and x == 3:
            from hypothesis import assume
            assume(False)
        if a["fail"] == "nested":
            inner = states()

            @settings(max_examples=3, **QUIET)
            @with_seed(a["seed"])
            @given(st.integers())
            def u(y):
                poke()
            u()
            if states() != inner:
                raise AssertionError("an inner @given left the generators changed")
        poke()
    before = states()
    try:
        t()
    except ZeroDivisionError:
        pass
    after = states()
    if after != before:
        which = [n for n, x, y in zip(["random", "numpy", "r0", "r1", "r2"], before, after) if x != y]
        return f"after the test {which} are not back in the state they had before"
    if any(s != starts[0] for s in starts):
        return "the generators did not start every call in the same state"
    for s, state in seeds:
        exp = Random(s).getstate()
        if state[0] != exp:
            return f"random_module gave seed {s}, but random is not seeded with it"
        rs = np.random.RandomState(s).get_state()
        if state[1][1] != tuple(rs[1].tolist()):
            return f"random_module gave seed {s}, but numpy.random is not seeded with it"
    return None


# --- generated Random objects
def g_call(rng):
    def c():
        k = rng.choice(["randint", "randrange", "randrange3", "random", "choice", "choices", "sample", "samplec", "shuffle", "getrandbits", "randbytes", "uniform", "triangular", "seed", "save", "restore", "betavariate", "gauss", "vonmises", "binomial", "copy", "expovariate", "choicesw"])
        lo = rng.choice([0, -5, 10, 2**70])
        return k, lo, rng.choice([0, 1, 5, 100]), rng.randrange(4), rng.random() < .5
    return [c() for _ in range(rng.randint(1, 12))], rng.random() < .3, rng.getrandbits(32)


def do(r, c, saved):
    k, lo, w, i, flip = c
    pop = "abcdefgh"[:i + 1]
    if k == "randint":
        v = r.randint(lo, lo + w)
        return v, type(v) is int and lo <= v <= lo + w
    if k == "randrange":
        v = r.randrange(lo, lo + w + 1)
        return v, lo <= v <= lo + w
    if k == "randrange3":
        step = 3 if flip else -3
        R = range(lo, lo + w + 1, step) if flip else range(lo + w, lo - 1, step)
        v = r.randrange(R.start, R.stop, step)
        return v, v in R
    if k == "random":
        v = r.random()
        return v, 0 <= v < 1
    if k == "choice":
        v = r.choice(pop)
        return v, v in pop
    if k == "choices":
        v = r.choices(pop, k=w % 7)
        return v, len(v) == w % 7 and set(v) <= set(pop)
    if k == "choicesw":
        wt = [1 if j == i else 0 for j in range(i + 1)]
        v = r.choices(pop, wt, k=3) if flip else r.choices(pop, cum_weights=wt, k=3)
        return v, v == [pop[i]] * 3
    if k == "sample":
        v = r.sample(pop, min(i, 2))
        return v, len(v) == len(set(v)) == min(i, 2) and set(v) <= set(pop)
    if k == "samplec":
        v = r.sample(pop, counts=[2] * len(pop), k=i + 1)
        return v, len(v) == i + 1 and all(v.count(x) <= 2 and x in pop for x in v)
    if k == "shuffle":
        x = list(range(w % 7))
        r.shuffle(x)
        return x, sorted(x) == list(range(w % 7))
    if k == "getrandbits":
        v = r.getrandbits(w)
        return v, 0 <= v < 2**w
    if k == "randbytes":
        v = r.randbytes(w)
        return v, type(v) is bytes and len(v) == w
    if k == "uniform":
        a, b = (float(w), -1.0) if flip else (-1.0, float(w))
        v = r.uniform(a, b)
        return v, min(a, b) <= v <= max(a, b)
    if k == "triangular":
        v = r.triangular(0.0, float(w), None if flip else w / 2)
        return v, 0 <= v <= w
    if k == "betavariate":
        v = r.betavariate(1.0, 2.0)
        return v, 0 <= v <= 1
    if k == "gauss":
        v = r.gauss(0.0, 1.0)
        return v, math.isfinite(v)
    if k == "vonmises":
        v = r.vonmisesvariate(0.0, 1.0)
        return v, 0 <= v <= 2 * math.pi
    if k == "binomial":
        v = r.binomialvariate(w, 0.5)
        return v, 0 <= v <= w
    if k == "expovariate":
        v = r.expovariate(2.0)
        return v, v >= 0
    if k == "seed":
        r.seed(i)
        return None, True
    if k == "save":
        saved.append(r.getstate())
        return None, True
    if k == "restore":
        if saved:
            r.setstate(saved[-1])
        return None, True
    q = copy.copy(r)
    u, v = q.randint(0, 10**9), r.randint(0, 10**9)
    return (u, v), u == v


def p_random(a):
    script, true, seed = a
    strat = st.randoms(use_true_random=true)
    out = []

    def run(data):
        got = []
        with BuildContext(data):
            r = data.draw(strat)
            saved = []
            for c in script:
                v, ok = do(r, c, saved)
                got.append(v)
                if not ok:
                    return got, f"{c} gave {v!r}"
            # the same state and the same call: the same value
            for c in script:
                if c[0] in ("seed", "save", "restore"):
                    continue
                s = r.getstate()
                x = do(r, c, saved)[0]
                r.setstate(s)
                y = do(r, c, saved)[0]
                if repr(x) != repr(y):
                    return got, f"{c} gave {x!r}, then {y!r} from the same state"
            for _ in range(2):
                r.seed(77)
                got.append([repr(do(r, c, [])[0]) for c in script if c[0] not in ("seed", "save", "restore")])
            if got[-1] != got[-2]:
                return got, f"the same seed gave {got[-2]} and then {got[-1]}"
        return got, None
    d = ConjectureData(random=Random(seed))
    try:
        got, msg = run(d)
    except StopTest:
        return None
    d.freeze()
    if msg:
        return msg
    e = ConjectureData.for_choices(d.choices)
    got2, msg = run(e)
    if repr(got) != repr(got2):
        return f"replaying the same choices gave {got2}, not {got}"
    return None


# --- generated functions
def g_fn(rng):
    likes = ["lambda", "ab", "star", "kw", "default"]
    return rng.choice(likes), rng.random() < .6, rng.getrandbits(32), [(rng.randrange(3), rng.randrange(3), rng.randrange(3)) for _ in range(rng.randint(1, 7))]


def like_of(k):
    def ab(a, b):
        pass

    def star(*args):
        pass

    def kw(a, *, b):
        pass

    def default(a, b=2):
        pass
    return {"lambda": lambda a: None, "ab": ab, "star": star, "kw": kw, "default": default}[k]


def p_fn(a):
    k, pure, seed, calls = a
    like = like_of(k)
    leaked = []

    def run(data):
        got, keys = [], {}
        with BuildContext(data):
            f = data.draw(st.functions(like=like, returns=st.integers(0, 10**6), pure=pure))
            leaked.append(f)
            g = data.draw(st.functions(like=like, returns=st.integers(0, 10**6), pure=pure)) if seed % 2 else None
            if inspect.signature(f).parameters.keys() != inspect.signature(like).parameters.keys() or f.__name__ != like.__name__:
                return got, f"generated {f.__name__}{inspect.signature(f)} like {inspect.signature(like)}"
            for x, y, how in calls:
                if k == "lambda":
                    key, v = (x,), (f(x) if how else f(a=x))
                elif k == "ab":
                    key, v = (x, y), (f(x, y) if how == 0 else f(b=y, a=x) if how == 1 else f(x, b=y))
                elif k == "star":
                    key, v = (x,) * how, f(*(x,) * how)
                elif k == "kw":
                    key, v = (x, y), (f(x, b=y) if how else f(a=x, b=y))
                else:
                    key, v = (x, y), (f(x, y) if how else f(x, b=y))
                if type(v) is not int or not 0 <= v <= 10**6:
                    return got, f"the function returned {v!r}"
                if pure and key in keys and keys[key] != v:
                    return got, f"a pure function gave {keys[key]} and then {v} for {key}"
                keys[key] = v
                got.append(v)
                if g is not None and how == 2 and k == "ab":
                    got.append(g(x, y))
            try:
                f(1, 2, 3, 4) if k != "star" else f(zz=1)
                return got, "a call with the wrong arguments was accepted"
            except TypeError:
                pass
        return got, None
    d = ConjectureData(random=Random(seed))
    got, msg = run(d)
    d.freeze()
    if msg:
        return msg
    e = ConjectureData.for_choices(d.choices)
    got2, msg = run(e)
    e.freeze()
    if got != got2 or msg:
        return f"replaying the same choices gave {got2}, not {got} ({msg})"
    for f in leaked:
        try:
            f(0) if k in ("lambda", "star", "default") else f(0, b=0)
        except InvalidState:
            continue
        return "a generated function could be called after its test had ended"
    return None


CHECKS = [
    RT("prng", g_prng, p_prng, n=150, budget=15, rule="random, numpy.random and registered generators: same state at every start, restored at the end, whatever the test does"),
    RT("randoms", g_call, p_random, n=900, budget=15, rule="generated Random: only results Random can give; same state, seed or choices, same results"),
    RT("functions", g_fn, p_fn, n=700, budget=10, rule="generated functions: signature, purity, range, replay, not callable afterwards"),
]
