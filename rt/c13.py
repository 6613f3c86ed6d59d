"""C13: the tree of tried choices against exhaustive enumeration of small programs."""
import hashlib
import math
from random import Random
from pyvc.runtime import RT
from rt.fl import rank, unrank, bits
from hypothesis.errors import StopTest, Flaky
from hypothesis.internal.conjecture.data import ConjectureData, Status, Overrun
from hypothesis.internal.conjecture import datatree as T
from hypothesis.internal.intervalsets import IntervalSet


def key(v):
    return ("f", bits(v)) if type(v) is float else (type(v).__name__, v)


class Program:
    """What happens after given choices is a fixed pseudo-random function of them: a draw with a small domain, a forced draw, a killed branch or an end."""
    def __init__(self, seed, depth, flags):
        self.seed, self.depth, self.flags = seed, depth, flags

    def step(self, path):
        h = Random(hashlib.sha1(repr((self.seed, path)).encode()).digest())
        if len(path) >= self.depth or h.random() < (.12 if path else .03):
            return ("end", h.choice([Status.VALID, Status.INVALID, Status.INTERESTING]), h.randrange(2))
        k = h.random()
        forced = "forced" in self.flags and h.random() < .2
        if k < .3:
            lo = h.choice([0, -1, -2, 5])
            c = dict(min_value=lo, max_value=lo + h.choice([0, 1, 1, 2, 3, 5]), weights=None, shrink_towards=h.choice([0, 0, lo + 1]))
            if "weights" in self.flags and h.random() < .3 and c["max_value"] > lo:
                c["weights"] = {lo: .2, lo + 1: .3}
            c["shrink_towards"] = max(c["min_value"], min(c["max_value"], c["shrink_towards"])) if c["weights"] else c["shrink_towards"]
            d = range(c["min_value"], c["max_value"] + 1)
            r = ("integer", c, list(d))
        elif k < .55:
            p = h.choice([0.5, 0.5, 0.1, 0.999, 0.0, 1.0])
            r = ("boolean", dict(p=p), [False] if p == 0 else [True] if p == 1 else [False, True])
        elif k < .75:
            a = h.choice([0.0, -0.0, -5e-324, 1.0, -1.0, 2.0**-1022, -2.0**-1022])
            n = h.choice([0, 1, 1, 2, 3])
            lo, hi = a, unrank(rank(a) + n)
            snm = h.choice([5e-324, 5e-324, 2.0**-1022])
            d = [x for x in (unrank(rank(lo) + i) for i in range(n + 1)) if x == 0 or abs(x) >= snm]
            if not d:
                snm, d = 5e-324, [unrank(rank(lo) + i) for i in range(n + 1)]
            r = ("float", dict(min_value=lo, max_value=hi, allow_nan=False, smallest_nonzero_magnitude=snm), d)
        elif k < .9:
            al = h.choice(["", "a", "ab", "abc", "09z"])
            lo = h.choice([0, 0, 1]) if al else 0
            hi = lo + h.choice([0, 1, 1, 2]) if len(al) < 3 else lo + h.choice([0, 1])
            d = [""]
            out = [""] if lo == 0 else []
            for n in range(1, hi + 1):
                d = [x + ch for x in d for ch in al]
                if n >= lo:
                    out += d
            r = ("string", dict(intervals=IntervalSet.from_string(al), min_size=lo, max_size=hi), out)
        else:
            r = ("bytes", dict(min_size=0, max_size=0), [b""])
        if forced:
            return r + (h.choice(r[2]),)
        if "kill" in self.flags and h.random() < .1:
            return ("kill",) + r
        return r + (None,)

    def leaves(self, path=(), killed=False):
        s = self.step(path)
        kill = False
        if s[0] == "kill":
            s, kill = s[1:] + (None,), True
        if s[0] == "end":
            yield path, killed
            return
        for v in ([s[3]] if s[3] is not None else s[2]):
            yield from self.leaves(path + (key(v),), killed or kill)

    def size(self, cap):
        n = 0
        for x in self.leaves():
            n += 1
            if n > cap:
                return None
        return n

    def run(self, data, flip=None):
        path = ()
        try:
            while True:
                s = self.step(path)
                if s[0] == "kill":
                    s = s[1:] + (None,)
                    data.observer.kill_branch()
                if flip is not None and len(path) == flip:
                    s = ("integer", dict(min_value=0, max_value=77, weights=None, shrink_towards=0), [], None) if s[0] == "end" else ("end", Status.VALID, 0)
                if s[0] == "end":
                    data.conclude_test(s[1], s[2] if s[1] is Status.INTERESTING else None)
                v = getattr(data, "draw_" + s[0])(**s[1], forced=s[3])
                if key(v) not in [key(x) for x in s[2]] and flip is None:
                    raise AssertionError(f"draw_{s[0]}({s[1]}) gave {v!r}")
                path += (key(v),)
        except StopTest:
            pass
        data.freeze()
        return path


def g(rng):
    flags = tuple(f for f in ("forced", "kill", "weights") if rng.random() < .5)
    while True:
        p_ = Program(rng.getrandbits(40), rng.choice([1, 2, 3, 4, 5]), flags)
        n = p_.size(260)
        if n and (n > 1 or rng.random() < .1):
            return p_.seed, p_.depth, flags, rng.getrandbits(32), rng.random() < .3


def p(a):
    seed, depth, flags, rs, overruns = a
    prog = Program(seed, depth, flags)
    total = dict(prog.leaves())
    free = {x for x, killed in total.items() if not killed}
    rnd = Random(rs)
    tree = T.DataTree()
    seen, records = set(), []
    # something is always left to explore up to here: the leaves outside killed branches
    for step in range(4 * len(total) + 30):
        if tree.is_exhausted:
            break
        pre = tree.generate_novel_prefix(rnd)
        if overruns and rnd.random() < .3:
            d = ConjectureData(random=rnd, prefix=pre, observer=tree.new_observer(), max_choices=rnd.randint(0, depth))
        else:
            d = ConjectureData(random=rnd, prefix=pre, observer=tree.new_observer())
        path = prog.run(d)
        if tuple(key(x) for x in d.choices[:len(pre)]) != tuple(key(x) for x in pre)[:len(d.choices)]:
            return f"the novel prefix {pre} was replayed as {d.choices}: it was not possible under the recorded constraints"
        if d.status is Status.OVERRUN:
            continue
        if path in seen and not total[path]:
            return f"novel prefix {pre} led to {d.choices}, which was tried before"
        seen.add(path)
        records.append((d.choices, d.status, d.interesting_origin))
    if not tree.is_exhausted:
        if free <= seen:
            return f"all {len(free)} choice sequences were tried but the tree is not exhausted"
        return f"after {step + 1} runs only {len(free & seen)} of {len(free)} choice sequences were proposed"
    if not free <= seen:
        # a killed branch inside counts as explored
        return f"exhausted, but {sorted(free - seen)[0]} was never tried ({len(free - seen)} of {len(free)} missing)"
    # recorded runs are predicted
    for choices, status, origin in records[:40]:
        got, st = tree.rewrite(choices)
        if [key(x) for x in got] != [key(x) for x in choices] or st is not status:
            return f"rewrite({choices}) = {got, st}, recorded {status}"
        d = ConjectureData.for_choices(choices)
        try:
            tree.simulate_test_function(d)
        except T.PreviouslyUnseenBehaviour:
            return f"simulating the recorded {choices} says it is unseen"
        d.freeze()
        if d.status is not status or d.interesting_origin != origin or [key(x) for x in d.choices] != [key(x) for x in choices]:
            return f"simulating {choices}: {d.status, d.interesting_origin, d.choices}, recorded {status, origin}"
        # with extra choices at the end, and one too few
        got, st = tree.rewrite(choices + (0,))
        if [key(x) for x in got] != [key(x) for x in choices] or st is not status:
            return f"rewrite of {choices} and one more = {got, st}"
        if choices:
            got, st = tree.rewrite(choices[:-1])
            d2 = ConjectureData.for_choices(choices[:-1])
            prog.run(d2)
            if st is not d2.status:
                return f"rewrite({choices[:-1]}) says {st}, a run says {d2.status}"


def p_predict(a):
    "a partly filled tree predicts only what a run does"
    seed, depth, flags, rs, _ = a
    prog = Program(seed, depth, tuple(f for f in flags if f != "kill"))
    rnd = Random(rs)
    tree = T.DataTree()
    for _ in range(rnd.randint(1, 12)):
        d = ConjectureData(random=rnd, observer=tree.new_observer())
        prog.run(d)
    for _ in range(8):
        d = ConjectureData(random=rnd)
        prog.run(d)
        ch = list(d.choices)
        if ch and rnd.random() < .5:
            i = rnd.randrange(len(ch))
            ch[i] = rnd.choice([0, 1, True, False, 0.0, -0.0, 1.0, "", "a", "b", b"", 5])
        if ch and rnd.random() < .2:
            ch.pop()
        got, st = tree.rewrite(tuple(ch))
        if st is not None:
            d2 = ConjectureData.for_choices(tuple(ch))
            prog.run(d2)
            if d2.status is not st or [key(x) for x in d2.choices] != [key(x) for x in got]:
                return f"the tree predicts {got, st} for {ch}, a run gives {d2.choices, d2.status}"
        pre = None
        if not tree.is_exhausted:
            pre = tree.generate_novel_prefix(rnd)
            if tree.rewrite(pre)[1] not in (None, Status.OVERRUN):
                return f"novel prefix {pre} is predicted to end as {tree.rewrite(pre)[1]}"


def p_flaky(a):
    "draws that change under the same choices are reported"
    seed, depth, flags, rs, _ = a
    prog = Program(seed, depth, tuple(f for f in flags if f == "forced"))
    rnd = Random(rs)
    tree = T.DataTree()
    ds = []
    for _ in range(rnd.randint(1, 6)):
        d = ConjectureData(random=rnd, observer=tree.new_observer())
        prog.run(d)
        ds.append(d)
    d = rnd.choice(ds)
    n = len(d.choices)
    flip = rnd.randint(0, n)
    at_end = flip == n
    if at_end:
        want = d.status is not Status.OVERRUN
    else:
        want = True
    d2 = ConjectureData(random=rnd, prefix=d.choices, observer=tree.new_observer())
    try:
        prog.run(d2, flip=flip)
    except Flaky:
        return None
    if want:
        return f"the test first made the choices {d.choices} ({d.status}) and now behaves differently after {flip} of them; nothing was reported"


def p_children(a):
    "the count and enumeration of the children of a draw"
    t, c, want = a
    c = dict(c)
    if t == "string":
        c["intervals"] = IntervalSet.from_string(c["intervals"])
    n = T.compute_max_children(t, c)
    if t in ("string", "bytes") and want > T.MAX_CHILDREN_EFFECTIVELY_INFINITE == n:
        return None     # documented: such counts are not computed
    if n != want:
        return f"compute_max_children({t!r}, {c}) = {n}, there are {want}"
    if n <= 3000:
        ch = [key(x) for x in T.all_children(t, c)]
        if len(ch) != n or len(set(ch)) != n:
            return f"all_children({t!r}, {c}) gives {len(ch)} values, {len(set(ch))} distinct; there are {n}"
        from hypothesis.internal.conjecture.choice import choice_permitted
        for x in T.all_children(t, c):
            if not choice_permitted(x, c):
                return f"all_children({t!r}, {c}) gives {x!r}, which is not permitted"


def g_children(rng):
    k = rng.random()
    if k < .25:
        lo = rng.choice([0, -5, 2**70, rng.randint(-100, 100)])
        n = rng.choice([0, 1, 2, 127, 128, 999, 10**9, 2**65])
        return "integer", dict(min_value=lo, max_value=lo + n, weights=None, shrink_towards=rng.choice([0, lo, lo + n // 2])), n + 1
    if k < .35:
        p_ = rng.choice([0.0, 1.0, .5, 1e-9, 1 - 1e-9])
        return "boolean", dict(p=p_), 1 if p_ in (0, 1) else 2
    if k < .55:
        lo = rng.randint(0, 3)
        hi = lo + rng.randint(0, 3)
        return "bytes", dict(min_size=lo, max_size=hi), sum(256**i for i in range(lo, hi + 1)) if hi < 3 or True else None
    if k < .75:
        al = rng.choice(["", "a", "ab", "xyz0", "".join(map(chr, range(100)))])
        lo = rng.randint(0, 3) if al else 0
        hi = lo + rng.randint(0, 4)
        return "string", dict(intervals=al, min_size=lo, max_size=hi), (sum(len(al)**i for i in range(lo, hi + 1)) if al else 1)
    snm = rng.choice([5e-324, 5e-324, 1e-323, 2.0**-1022, 1.0])
    a = rng.choice([0.0, -0.0, 1.0, -1.0, snm, -snm, 1e300, -1e300, math.inf, -math.inf, 2.0**-1022, 1e-310, -1e-310])
    r = max(-(0x7ff0 << 48) - 1, min(0x7ff0 << 48, rank(a) + rng.choice([0, 1, 2, 3, 50, 1000, 10**6, 2**62])))
    lo, hi = unrank(rank(a)), unrank(r)
    if rng.random() < .2:
        lo, hi = -unrank(abs(rng.randint(0, 4))), unrank(rng.randint(0, 4))
    s = rank(snm)
    def upto(r):       # permitted values of rank in [0, r]
        return 0 if r < 0 else 1 + max(0, r - s + 1)
    x, y = rank(lo), rank(hi)
    n = (upto(y) - upto(x - 1) if x >= 0 else upto(-x - 1) - upto(-y - 2) if y < 0 else upto(y) + upto(-x - 1))
    if n == 0:
        return None
    return "float", dict(min_value=lo, max_value=hi, allow_nan=False, smallest_nonzero_magnitude=snm), n


CHECKS = [RT("exploration", g, p, n=300, budget=45), RT("prediction", g, p_predict, n=600), RT("flaky", g, p_flaky, n=900), RT("children", g_children, p_children, n=4000)]
