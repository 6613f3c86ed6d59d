"""C17: whole runs of @given tests whose every call is recorded, against what a run may and must do."""
import hashlib
import math
import warnings
from random import Random
from unittest import SkipTest
from pyvc.runtime import RT
import hypothesis
from hypothesis import HealthCheck, Phase, assume, example, find, given, seed as with_seed, settings, strategies as st
from hypothesis.database import InMemoryExampleDatabase
from hypothesis.errors import Flaky, FlakyFailure, NoSuchExample, Unsatisfiable, UnsatisfiedAssumption
from hypothesis.reporting import with_reporter

ALL = [Phase.explicit, Phase.reuse, Phase.generate, Phase.target, Phase.shrink, Phase.explain]


class Boom0(Exception):
    pass


class Boom1(Exception):
    pass


class Boom2(ValueError):
    pass


KINDS = [Boom0, Boom1, Boom2]
STRATS = [lambda: st.integers(0, 3), lambda: st.integers(0, 40), lambda: st.integers(), lambda: st.integers(0, 10**6), lambda: st.lists(st.booleans(), max_size=6), lambda: st.text("ab", max_size=4),
          lambda: st.tuples(st.integers(0, 9), st.booleans()), lambda: st.floats(allow_nan=False)]


def hh(seed, v):
    return Random(hashlib.sha1(repr((seed, v)).encode()).digest())


def order(v):
    return (abs(v), v < 0)


class Behaviour:
    """passes, fails in one of three ways, or rejects its input: a fixed function of the value"""
    def __init__(self, seed, pfail, preject, nkinds, min_len=0):
        self.seed, self.pfail, self.preject, self.nkinds, self.min_len = seed, pfail, preject, nkinds, min_len

    def __call__(self, v):
        r = hh(self.seed, v)
        x = r.random()
        if x < self.preject:
            return "reject"
        if x < self.preject + self.pfail and abs(v if isinstance(v, (int, float)) else len(v)) >= self.min_len:
            return r.randrange(self.nkinds)
        return "pass"


def g(rng):
    phases = ALL if rng.random() < .5 else [p for p in ALL if rng.random() < .75]
    if Phase.target not in phases or Phase.generate not in phases:
        phases = [p for p in phases if p is not Phase.target]
    if Phase.shrink not in phases:
        phases = [p for p in phases if p is not Phase.explain]
    return dict(strat=rng.randrange(len(STRATS)), phases=phases, max_examples=rng.choice([1, 2, 5, 10, 20, 50, 100]), db=rng.random() < .6, multi=rng.random() < .75, pfail=rng.choice([0, 0, .01, .1, .5]), preject=rng.choice([0, 0, .2, .9]),
                nkinds=rng.choice([1, 2, 3]), min_len=rng.choice([0, 0, 2, 5]), seed=rng.getrandbits(32), derandomize=rng.random() < .2, examples=rng.choice([0, 0, 0, 1, 2]), explicit_rejects=rng.random() < .3)


def leaves(e):
    if isinstance(e, BaseExceptionGroup):
        for x in e.exceptions:
            yield from leaves(x)
    else:
        yield e


def make(a, behaviour, db, explicit=()):
    calls = []
    strat = STRATS[a["strat"]]()

    def test(x):
        o = behaviour(x)
        calls.append((x, o))
        if o == "reject":
            assume(False)
        if isinstance(o, int):
            raise KINDS[o](repr(x))
    t = given(x=strat)(test)
    for v in reversed(explicit):
        t = example(x=v)(t)
    s = dict(max_examples=a["max_examples"], phases=a["phases"], database=db, deadline=None, suppress_health_check=list(HealthCheck), report_multiple_bugs=a["multi"])
    if a["derandomize"]:
        s.update(derandomize=True, database=None)
    else:
        t = with_seed(a["seed"])(t)
    return settings(**s)(t), calls


def execute(t):
    out = []
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with with_reporter(out.append):
            try:
                t()
            except (Exception, BaseExceptionGroup) as e:
                return e
    return None


def p(a):
    beh = Behaviour(a["seed"], a["pfail"], a["preject"], a["nkinds"], a["min_len"])
    db = InMemoryExampleDatabase() if a["db"] and not a["derandomize"] else None
    r = Random(a["seed"])
    explicit = []
    if a["examples"]:
        pool = {0: [0, 3], 1: [0, 17, 40], 2: [-1, 10**20], 3: [5, 999999], 4: [[], [True]], 5: ["", "ab"], 6: [(1, True)], 7: [0.5, -0.0]}[a["strat"]]
        explicit = [r.choice(pool) for _ in range(a["examples"])]
    t, calls = make(a, beh, db, explicit)
    err = execute(t)
    shown = calls[:6]
    fails = [(v, o) for v, o in calls if isinstance(o, int)]
    ph = a["phases"]
    # explicit examples first
    n_ex = 0
    if Phase.explicit in ph and explicit:
        n_ex = len(explicit)
        for i, v in enumerate(explicit):
            if i < len(calls) and calls[i][0] != v:
                return f"explicit examples {explicit}, but the calls began with {shown}"
            if isinstance(beh(v), int):
                if err is None:
                    return f"the explicit example {v!r} failed and the run passed"
                if not a["multi"]:
                    n_ex = i + 1
                    break
        if len(calls) < n_ex:
            return f"explicit examples {explicit}, but only {len(calls)} calls were made"
        if any(isinstance(beh(v), int) for v in explicit[:n_ex]):
            got = sorted(type(e).__name__ for e in leaves(err))
            want = sorted(KINDS[beh(v)].__name__ for v in explicit[:n_ex] if isinstance(beh(v), int))
            if got != want or len(calls) != n_ex:
                return f"explicit examples {explicit} fail with {want}; the run reported {got} after {len(calls)} calls"
            return None
    rest = calls[n_ex:]
    fails = [(v, o) for v, o in rest if isinstance(o, int)]
    if Phase.generate not in ph and rest:
        return f"phases {ph} without saved examples, but calls {rest[:4]} were made"
    if not fails:
        if isinstance(err, SkipTest) and not calls:
            return None
        if err is not None and not (isinstance(err, Unsatisfiable) and not any(o == "pass" for _, o in rest)):
            return f"no call failed, but {err!r} was raised"
        valid = sum(o == "pass" for _, o in rest)
        if valid > a["max_examples"]:
            return f"{valid} valid examples with max_examples={a['max_examples']}"
        if len(rest) > max(1000, 10 * a["max_examples"]):
            return f"{len(rest)} calls with max_examples={a['max_examples']}"
        if Phase.generate in ph and valid < a["max_examples"]:
            # stopping early needs the space to be used up, or the limit on calls
            domain = {0: list(range(4)), 1: list(range(41)), 4: [[bool(i >> j & 1) for j in range(n)] for n in range(7) for i in range(2**n)], 6: [(i, b) for i in range(10) for b in (False, True)],
                      5: ["".join("ab"[i >> j & 1] for j in range(n)) for n in range(5) for i in range(2**n)]}.get(a["strat"])
            seen = {repr(v) for v, _ in rest}
            if domain is None or not {repr(v) for v in domain} <= seen:
                # draws cut short for size also count as calls; only enough real calls are asked for
                if a["preject"] < .5:
                    return f"stopped after {valid} valid examples of max_examples={a['max_examples']} with {len(rest)} calls"
        if err is None and Phase.generate in ph and not any(o == "pass" for _, o in rest) and not explicit:
            return "no valid example, and the run passed"
        return None
    # something failed: a failure of that kind has to be reported
    if err is None:
        return f"the call on {fails[0][0]!r} failed and the run passed"
    got = [e for e in leaves(err)]
    for e in got:
        if type(e) not in KINDS:
            return f"failing calls {fails[:3]}; the run raised {e!r}"
    kinds = sorted({o for _, o in fails})
    names = sorted(KINDS.index(type(e)) for e in got)
    if a["multi"]:
        if names != kinds:
            return f"calls failed in the ways {kinds}, the run reported {names}"
    elif len(names) != 1 or names[0] not in kinds:
        return f"calls failed in the ways {kinds}, the run reported {names} (one failure asked for)"
    for e in got:
        k = KINDS.index(type(e))
        vs = [v for v, o in fails if (o == k if a["multi"] else True)]
        if e.args[0] not in [repr(v) for v in vs]:
            return f"reported {e!r}, which no call raised"
        if a["strat"] <= 3:
            best = min(vs, key=order)
            if a["multi"] or Phase.shrink in ph:
                if e.args[0] != repr(best):
                    return f"reported {e!r}, though {best} failed in the same way"
    first = next(i for i, (v, o) in enumerate(rest) if isinstance(o, int))
    valid_before = sum(o == "pass" for _, o in rest[:first])
    if valid_before >= a["max_examples"]:
        return f"{valid_before} valid examples before the first failure with max_examples={a['max_examples']}"
    # again: the same seed makes the same calls
    if a["derandomize"] or db is None:
        t2, calls2 = make(a, beh, None, explicit)
        err2 = execute(t2)
        if [repr(c) for c in calls2] != [repr(c) for c in calls]:
            k = next((i for i, (x, y) in enumerate(zip(calls, calls2)) if repr(x) != repr(y)), min(len(calls), len(calls2)))
            return f"a second run with the same seed differs at call {k}: {calls[k:k + 1]} and {calls2[k:k + 1]}"
    if db is not None:
        keys = list(db.data)
        prim = [k for k in keys if not k.endswith(b".secondary") and not k.endswith(b".pareto")]
        if len(prim) != 1:
            return f"a failing run saved under {len(prim)} keys"
        if len(db.data[prim[0]]) < len({type(e) for e in got}):
            return f"{len(got)} failures, {len(db.data[prim[0]])} saved"
        # later with the same database: found at once
        b = dict(a, phases=[Phase.reuse] + [p_ for p_ in ph if p_ in (Phase.shrink,)], seed=a["seed"] + 1)
        t3, calls3 = make(b, beh, db)
        err3 = execute(t3)
        if err3 is None:
            return f"failures {names} were saved, and a second run with the database passed"
        if isinstance(err3, Unsatisfiable):
            return "the saved failures were not replayed"
        again = sorted({KINDS.index(type(e)) for e in leaves(err3) if type(e) in KINDS})
        if a["multi"] and again != kinds or not set(again) <= set(range(3)):
            return f"first run reported {names}, the second with the same database {again}"
        if not isinstance(calls3[0][1], int):
            return f"the second run began with {calls3[0]}, not a saved failure"
        for e in leaves(err3):
            k = KINDS.index(type(e))
            if a["multi"] and e.args[0] not in [x.args[0] for x in got] and a["strat"] <= 3 and order(eval(e.args[0])) > min(order(eval(x.args[0])) for x in got if type(x) is type(e)):
                return f"the second run reports the worse {e!r}"
        # and when reuse is off, or the test is mended
        mended = Behaviour(a["seed"], 0, 0, 1)
        t4, calls4 = make(dict(b, phases=[Phase.reuse]), mended, db)
        err4 = execute(t4)
        if err4 is not None and not isinstance(err4, SkipTest):
            return f"after the test was mended: {err4!r}"
        if not calls4:
            return "saved failures were not replayed after mending"
        if db.data.get(prim[0]) and len(calls4) < a["max_examples"]:
            return f"{len(db.data[prim[0]])} stale examples stay saved"
    return None


# --- tests that change their mind
def g_flaky(rng):
    return rng.randrange(len(STRATS)), rng.choice([1, 3, 10]), rng.choice(["once", "alternate", "type", "count", "reject"]), rng.randint(1, 6), rng.getrandbits(32)


def p_flaky(a):
    s, mx, kind, k, seed = a
    calls = []

    def test(x):
        calls.append(x)
        n = len(calls)
        if kind == "once" and n == k or kind == "count" and n >= k:
            raise Boom0(n)
        if kind == "alternate" and n % 2 == 0:
            raise Boom0(n)
        if kind == "type":
            raise KINDS[n % 3](n)
        if kind == "reject":
            if n == k:
                raise Boom1(n)
            assume(False)
    t = settings(max_examples=mx, database=None, deadline=None, suppress_health_check=list(HealthCheck))(with_seed(seed)(given(STRATS[s]())(test)))
    err = execute(t)
    failed = (kind == "once" and len(calls) >= k or kind == "count" and len(calls) >= k or kind == "alternate" and len(calls) >= 2 or kind == "type" or kind == "reject" and len(calls) >= k)
    if failed and err is None:
        return f"a call failed ({kind} {k}, {len(calls)} calls) and the run passed"
    if not failed and err is not None and not isinstance(err, Unsatisfiable):
        return f"no call failed and the run raised {err!r}"
    if failed and isinstance(err, Unsatisfiable):
        return f"a call failed and the run reported {err!r}"
    return None


# --- find
def p_find(a):
    s, th, seed, mx = a
    calls = []
    beh = Behaviour(seed, th, 0, 1)

    def cond(x):
        calls.append(x)
        return isinstance(beh(x), int)
    try:
        v = find(STRATS[s](), cond, settings=settings(max_examples=mx, database=None, deadline=None, suppress_health_check=list(HealthCheck)), random=Random(seed))
    except NoSuchExample:
        if any(isinstance(beh(x), int) for x in calls):
            return f"find saw {next(x for x in calls if isinstance(beh(x), int))!r} and gave up"
        return None
    except Unsatisfiable as e:
        return f"find raised {e!r}"
    if not isinstance(beh(v), int):
        return f"find gave {v!r}, which does not satisfy the condition"
    if s <= 3:
        best = min((x for x in calls if isinstance(beh(x), int)), key=order)
        if best != v:
            return f"find gave {v!r}, though {best!r} was accepted"
    return None


CHECKS = [
    RT("runs", g, p, n=220, budget=45, rule="recorded @given runs: explicit first, phases obeyed, limits kept, every way of failing reported with the simplest input run, same seed same calls, saved failures found again and stale ones dropped"),
    RT("flaky", g_flaky, p_flaky, n=150, budget=15, rule="a run in which any call failed is never reported as passing"),
    RT("find", lambda rng: (rng.randrange(len(STRATS)), rng.choice([.01, .1, .5]), rng.getrandbits(32), rng.choice([5, 50, 200])), p_find, n=80, budget=15, rule="find returns an accepted value, the simplest it ran"),
]
