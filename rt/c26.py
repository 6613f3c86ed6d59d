"""C26: dominance, the Pareto front and hill climbing against direct recomputation."""
import math
from random import Random
from pyvc.runtime import RT
from hypothesis import settings, HealthCheck, Phase, target as user_target
from hypothesis.control import BuildContext
from hypothesis.database import InMemoryExampleDatabase
from hypothesis.errors import StopTest
from hypothesis.internal.conjecture import engine as E
from hypothesis.internal.conjecture import optimiser as O
from hypothesis.internal.conjecture.choice import choices_key
from hypothesis.internal.conjecture.data import ConjectureData, Status, Overrun
from hypothesis.internal.conjecture.pareto import ParetoFront, dominance, DominanceRelation as D
from hypothesis.internal.conjecture.shrinker import sort_key
from hypothesis.database import choices_to_bytes


def result(spec):
    choices, status, origin, obs, tags = spec
    d = ConjectureData.for_choices(choices)
    try:
        for _ in choices:
            d.draw_integer(0, 9)
        d.target_observations.update(obs)
        d.tags.update(tags)
        d.conclude_test(status, origin if status is Status.INTERESTING else None)
    except StopTest:
        pass
    d.freeze()
    return d.as_result()


def g_spec(rng, small):
    n = rng.choice([1, 1, 2, 2, 3])
    st_ = rng.choice([Status.VALID] * 5 + [Status.INTERESTING] * 2 + [Status.INVALID])
    obs = {k: rng.choice([0, 1, 2, -1.5, 1e300, -math.inf]) if not small else rng.choice([0, 1, 2]) for k in "abc" if rng.random() < (.8 if small else .5)}
    return tuple(rng.randrange(10) for _ in range(n)), st_, rng.choice(["x", "y"]), obs, tuple(t for t in "pq" if rng.random() < .3)


def better(l, r):
    "l dominates r by the documented rules"
    if not ((len(l[0]), l[0]) < (len(r[0]), r[0])):
        return False
    if l[1] < r[1] or not set(r[4]) <= set(l[4]):
        return False
    if l[1] is Status.INTERESTING and (r[1] is not Status.INTERESTING or l[2] != r[2]):
        return False
    return all(l[3].get(k, -math.inf) >= r[3].get(k, -math.inf) for k in set(l[3]) | set(r[3]))


def p_dom(a):
    l, r = a
    dl, dr = result(l), result(r)
    want = D.EQUAL if l[0] == r[0] else D.LEFT_DOMINATES if better(l, r) else D.RIGHT_DOMINATES if better(r, l) else D.NO_DOMINANCE
    got = dominance(dl, dr)
    if got != want:
        return f"dominance({l}, {r}) is {got}, not {want}"
    return None


def g_front(rng):
    big = rng.random() < .4
    n = rng.randint(12, 40) if big else rng.randint(1, 9)
    specs, seen = [], set()
    for _ in range(n):
        s = g_spec(rng, rng.random() < .5)
        if s[0] not in seen:
            seen.add(s[0])
            specs.append(s)
    order = [rng.randrange(len(specs)) for _ in range(n // 2)] + list(range(len(specs)))
    rng.shuffle(order)
    return specs, order, rng.getrandbits(32)


def p_front(a):
    specs, order, seed = a
    front = ParetoFront(Random(seed))
    out = []
    front.on_evict(lambda d: out.append(d.choices))
    rs = [result(s) for s in specs]
    by = {s[0]: s for s in specs}
    offered = []
    evicted_before = 0
    held = set()
    for i in order:
        s, r = specs[i], rs[i]
        before = [d.choices for d in front]
        got = front.add(r)
        now = [d.choices for d in front]
        if s[1] >= Status.VALID and s[0] not in [o[0] for o in offered]:
            offered.append(s)
        if got != (s[0] in now) or got != (r in front):
            return f"add({s}) gave {got}; the front holds {now}"
        if s[1] < Status.VALID and (got or now != before):
            return f"an invalid example changed the front: {s}"
        if now != sorted(set(now), key=lambda c: (len(c), c)):
            return f"the front is not in order without repeats: {now}"
        if len(front) != len(now) or any(front[j].choices != c for j, c in enumerate(now)):
            return "len, indexing and iteration of the front disagree"
        lost = [c for c in before if c not in now]
        if sorted(out[evicted_before:]) != sorted(lost):
            return f"evictions reported {out[evicted_before:]}, but {lost} left"
        evicted_before = len(out)
        for c in lost + ([s[0]] if not got and s[1] >= Status.VALID else []):
            if not any(better(by[o], by[c]) for o in now):
                return f"{by[c]} was dropped though nothing left in the front dominates it: {now}"
        for d in front:
            if d.target_observations != by[d.choices][3] or d.status != by[d.choices][1]:
                return f"the entry {d.choices} has scores {d.target_observations}, recorded {by[d.choices][3]}"
        if set(now) - {o[0] for o in offered}:
            return f"the front holds {set(now) - {o[0] for o in offered}}, never added"
        # up to ten entries every pair is compared
        if len(specs) <= 9:
            want = [o[0] for o in sorted(offered, key=lambda o: (len(o[0]), o[0])) if not any(better(x, o) for x in offered)]
            if now != want:
                return f"after adding {[o[0] for o in offered]} the front is {now}; the undominated ones are {want}"
    return None


def g_run(rng):
    return rng.randrange(6), rng.randint(1, 3), rng.choice([30, 80, 150]), rng.getrandbits(32), rng.random() < .7, rng.random() < .2


def p_run(a):
    prog, ntargets, max_examples, seed, with_db, fails = a
    runs = []
    climbs = []

    def test(data):
        with BuildContext(data):
            if prog == 0:
                v = [data.draw_integer(0, 50) for _ in range(2)]
            elif prog == 1:
                v = [data.draw_integer(0, 5)]
                v += [data.draw_integer(0, 20) for _ in range(v[0])]
            elif prog == 2:
                v = [data.draw_integer(-100, 100), int(data.draw_boolean()), len(data.draw_bytes(0, 3))]
            elif prog == 3:
                v = [int(max(-1000, min(1000, data.draw_float(allow_nan=False)))), data.draw_integer(0, 9)]
            elif prog == 4:
                v = [data.draw_integer(0, 2**40), data.draw_integer()]
            else:
                data.start_span(7)
                v = [data.draw_integer(0, 3)]
                data.stop_span(discard=v[0] == 2)
                v.append(data.draw_integer(0, 30))
            h = sum((i + 1) * x for i, x in enumerate(v))
            if h % 11 == 3:
                data.mark_invalid()
            scores = [h, -abs(v[0] - 17), (h * 2654435761) % 1000]
            for i in range(ntargets):
                if not (i == 2 and h % 2):
                    user_target(float(scores[i]), label=str(i))
            if fails and h % 97 == 50:
                data.mark_interesting(("o", 1))
    db = InMemoryExampleDatabase() if with_db else None
    runner = E.ConjectureRunner(test, random=Random(seed), database_key=b"k" if with_db else None,
                                settings=settings(max_examples=max_examples, database=db, deadline=None, suppress_health_check=list(HealthCheck), phases=[Phase.generate, Phase.target] + ([Phase.reuse] if with_db else [])))
    problems = []
    orig = runner.test_function

    def spy(data):
        prev = dict(runner.best_observed_targets)
        try:
            orig(data)
        finally:
            if data.frozen:
                runs.append(data)
                for k, v in prev.items():
                    if runner.best_observed_targets[k] < v:
                        problems.append(f"the best score of {k} fell from {v} to {runner.best_observed_targets[k]}")
    runner.test_function = spy
    oc = O.Optimiser.consider_new_data

    def watch(self, data):
        old, before = self.current_data, self.current_score
        r = oc(self, data)
        if self.current_score < before:
            problems.append(f"hill climbing on {self.target} went from {before} to {self.current_score}")
        if r and self.current_data is not data:
            problems.append("an accepted example was not kept")
        if not r and self.current_data is not old:
            problems.append("a refused example was kept")
        if data.status >= Status.VALID and not r:
            if data.target_observations.get(self.target, -math.inf) > before:
                problems.append(f"hill climbing refused the better {data.target_observations} over {before}")
        if data.status < Status.VALID and r:
            problems.append(f"hill climbing accepted an example of status {data.status}")
        climbs.append(r)
        return r
    O.Optimiser.consider_new_data = watch
    try:
        runner.run()
    finally:
        O.Optimiser.consider_new_data = oc
    if problems:
        return problems[0]
    ok = [d for d in runs if d.status >= Status.VALID]
    best = {}
    for d in ok:
        for k, v in d.target_observations.items():
            best[k] = max(best.get(k, -math.inf), v)
    if dict(runner.best_observed_targets) != best:
        return f"best scores {dict(runner.best_observed_targets)}; those run reached {best}"
    for k, v in best.items():
        d = runner.best_examples_of_observed_targets[k]
        if d.target_observations[k] != v:
            return f"the best example of {k} scores {d.target_observations[k]}, the best score is {v}"
        sim = min(sort_key(x.nodes) for x in ok if x.target_observations.get(k) == v)
        if sort_key(d.nodes) != sim:
            return f"the best example of {k} is {d.choices}, a simpler one of the same score was run"
    if with_db:
        front = list(runner.pareto_front)
        keys = [sort_key(d.nodes) for d in front]
        if any(x >= y for x, y in zip(keys, keys[1:])):
            return "the front is out of order"
        ran = {choices_key(d.choices): d for d in ok}
        for d in front:
            r = ran.get(choices_key(d.choices))
            if r is None or r.status != d.status or dict(r.target_observations) != dict(d.target_observations):
                return f"the front's {d.choices} with {d.target_observations} was not run like that"
        saved = set(db.fetch(b"k.pareto"))
        want = {choices_to_bytes(d.choices) for d in front}
        if saved != want:
            return f"the database holds {len(saved)} of the front, the front has {len(want)}; {len(saved - want)} extra, {len(want - saved)} missing"
        for d in ok:
            if not any(x.choices == d.choices or dominance(x, d.as_result()) is D.LEFT_DOMINATES for x in front):
                return f"{d.choices} {d.target_observations} is neither in the front nor dominated by a member"
    elif runner.pareto_front is not None:
        return "a front without a database"
    return None


CHECKS = [
    RT("dominance", lambda rng: (lambda s: (g_spec(rng, s), g_spec(rng, s)))(rng.random() < .5), p_dom, n=8000, budget=8, rule="dominance follows its definition (smaller, status, tags, origin, every score)"),
    RT("front", g_front, p_front, n=800, budget=15, rule="sequences of additions: order, membership, eviction reports, nothing undominated is dropped; exact up to nine entries"),
    RT("targeted_run", g_run, p_run, n=60, budget=30, rule="targeted runs: best scores and examples recomputed from all executed cases; hill climbing never worsens; front saved exactly in the database"),
]
