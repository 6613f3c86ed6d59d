"""C06: running a test on recorded choices, against an independent interpreter of test programs."""
import math
import struct
from random import Random
from pyvc.runtime import RT
from hypothesis.errors import Frozen, StopTest
from hypothesis.internal.conjecture import data as D
from hypothesis.internal.conjecture.choice import ChoiceTemplate, choice_from_index
from hypothesis.internal.conjecture.data import ConjectureData, DataObserver, Status
from hypothesis.internal.conjecture.engine import BUFFER_SIZE
from hypothesis.internal.intervalsets import IntervalSet
from rt.draw import Edge
from rt.fl import rank

IV = [((48, 57),), ((97, 122),), ((0, 0x10FFFF),), ((65, 70), (200, 220)), ()]


# --- programs: nested lists of operations; what runs depends on the values drawn
def g_con(rng):
    t = rng.choice(["integer", "integer", "boolean", "float", "bytes", "string"])
    if t == "integer":
        lo = rng.choice([None, None, -5, 0, 3, 300, -2**40])
        hi = rng.choice([None, None, 4, 7, 1000, 2**70])
        if lo is not None and hi is not None and lo > hi:
            lo, hi = None, hi
        w = None
        if lo is not None and hi is not None and rng.random() < .2:
            w = {lo: .4, hi: .3} if lo != hi else None
        return t, dict(min_value=lo, max_value=hi, shrink_towards=rng.choice([0, 0, 5, -3]), weights=w)
    if t == "boolean":
        return t, dict(p=rng.choice([.5, .01, .99, 0.0, 1.0, 2.0**-65]))
    if t == "float":
        a, b = sorted(rng.choice([-math.inf, -1.5, 0.0, 1.0, 7.25, math.inf]) for _ in range(2))
        return t, dict(min_value=a, max_value=b, allow_nan=rng.random() < .5, smallest_nonzero_magnitude=5e-324)
    mn = rng.choice([0, 0, 1, 3, 30])
    if t == "bytes":
        return t, dict(min_size=mn, max_size=mn + rng.choice([0, 2, 10]))
    iv = rng.choice(IV)
    mn = mn if iv else 0
    return t, dict(intervals=iv, min_size=mn, max_size=mn + rng.choice([0, 2, 10]) if iv else 0)


def g_val(rng, t, c, free=False):
    "a permitted value"
    if t == "integer":
        lo, hi = c["min_value"], c["max_value"]
        lo2 = lo if lo is not None else min(-9, hi - 9 if hi is not None else -9)
        hi2 = hi if hi is not None else max(lo2 + 9, 9)
        return rng.choice([lo2, hi2, rng.randint(lo2, hi2)])
    if t == "boolean":
        return True if c["p"] >= 1 else False if c["p"] <= 0 else rng.random() < .5
    if t == "float":
        a, b = c["min_value"], c["max_value"]
        o = [a, b] + ([math.nan] if c["allow_nan"] else []) + [x for x in (0.5, 3.0, 100.25) if a <= x <= b]
        return rng.choice(o)
    n = rng.choice([c["min_size"], c["max_size"]])
    if t == "bytes":
        return bytes(rng.choice([0, 255, 7]) for _ in range(n))
    pts = [p for iv in c["intervals"] for p in iv if not 0xD800 <= p <= 0xDFFF]
    return "".join(chr(rng.choice(pts)) for _ in range(n))


def g_block(rng, depth):
    ops = []
    for _ in range(rng.randint(1, 4)):
        k = rng.random()
        if k < .5 or depth >= 3:
            t, c = g_con(rng)
            forced = (g_val(rng, t, c),) if rng.random() < .2 else None
            ops.append(("draw", t, c, forced, True))
        elif k < .68:
            ops.append(("span", rng.choice([1, 2, 3, 70000]), g_block(rng, depth + 1), rng.random() < .25))
        elif k < .78:
            ops.append(("if", g_block(rng, depth + 1), g_block(rng, depth + 1)))
        elif k < .86:
            ops.append(("repeat", g_block(rng, depth + 1)))
        elif k < .89:
            ops.append(("event", rng.choice(["a", "b"])))
        elif k < .93:
            ops.append(("target", rng.choice(["s", "t"])))
        else:
            ops.append(("stop", rng.choice([Status.INVALID, Status.INTERESTING, Status.OVERRUN])))
    return ops


def big(ops):
    return ("draw", "bytes", dict(min_size=0, max_size=9000), (bytes(4000),), True)


def g(rng):
    ops = g_block(rng, 0)
    while rng.random() < .6:
        ops += g_block(rng, 0)
    if rng.random() < .12:
        ops.insert(rng.randrange(len(ops) + 1), big(ops))
        ops.insert(rng.randrange(len(ops) + 1), big(ops))
        if rng.random() < .5:
            ops.insert(rng.randrange(len(ops) + 1), ("draw", "bytes", dict(min_size=0, max_size=9000), (bytes(rng.choice([180, 183, 184, 185, 186, 187, 188, 189, 190])),), True))
    return ops, rng.getrandbits(32), rng.random() < .7


def real(c):
    return {**c, "intervals": IntervalSet(c["intervals"])} if "intervals" in c else c


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, float):
        return struct.pack("!d", a) == struct.pack("!d", b) or (a != a and b != b)
    return a == b


def truth(v):
    return v == v and bool(v)


class Stop(Exception):
    pass


def execute(d, ops, out):
    """the test: runs against the real data"""
    for op in ops:
        if op[0] == "draw":
            _, t, c, forced, observe = op
            c = dict(real(c))
            kw = dict(observe=observe)
            if forced is not None:
                kw["forced"] = forced[0]
            out.append(getattr(d, "draw_" + t)(**c, **kw))
        elif op[0] == "span":
            d.start_span(op[1])
            try:
                execute(d, op[2], out)
            finally:
                d.stop_span(discard=op[3])
        elif op[0] == "if":
            execute(d, op[1] if out and truth(out[-1]) else op[2], out)
        elif op[0] == "repeat":
            n = (len(out[-1]) if isinstance(out[-1], (bytes, str)) else int(bool(out[-1])) + 1) % 4 if out else 1
            for _ in range(n):
                execute(d, op[1], out)
        elif op[0] == "event":
            d.events[op[1]] = len(out)
        elif op[0] == "target":
            d.target_observations[op[1]] = float(len(out))
        else:
            d.conclude_test(op[1], interesting_origin="o" if op[1] is Status.INTERESTING else None)


# --- the reference
def permitted(v, t, c):
    want = {"integer": int, "boolean": bool, "float": float, "bytes": bytes, "string": str}[t]
    if type(v) is not want:
        return False
    if t == "integer":
        return (c["min_value"] is None or v >= c["min_value"]) and (c["max_value"] is None or v <= c["max_value"])
    if t == "boolean":
        return c["p"] > 0 if v else c["p"] < 1
    if t == "float":
        if v != v:
            return c["allow_nan"]
        return rank(c["min_value"]) <= rank(v) <= rank(c["max_value"])
    if not c["min_size"] <= len(v) <= c["max_size"]:
        return False
    return t == "bytes" or all(any(a <= ord(x) <= b for a, b in c["intervals"]) for x in v)


def simplest(t, c):
    if t == "integer":
        v = c["shrink_towards"]
        if c["min_value"] is not None:
            v = max(v, c["min_value"])
        if c["max_value"] is not None:
            v = min(v, c["max_value"])
        return v
    if t == "boolean":
        return c["p"] >= 1 - 2.0**-64
    if t == "bytes":
        return bytes(c["min_size"])
    return choice_from_index(0, t, real(c))


def size_of(v):
    "bytes one choice takes up in the stored form"
    if isinstance(v, bool):
        return 1
    if isinstance(v, float):
        return 9
    if isinstance(v, int):
        n = max(1, 1 + v.bit_length() // 8)
        return n + 1 + (n >= 31) * leb(n)
    n = len(v if isinstance(v, bytes) else v.encode("utf-8", "surrogatepass"))
    return n + 1 + (n >= 31) * leb(n)


def leb(n):
    return max(1, -(-n.bit_length() // 7))


class Ref:
    """what a test case is meant to do: consume the prefix in order, then the provider's values (given as a list)"""

    def __init__(self, prefix, fresh, max_choices, unobserved):
        self.prefix, self.fresh, self.max_choices, self.unobserved = prefix, list(fresh), max_choices, list(unobserved)
        self.i, self.nodes, self.length, self.status, self.origin, self.mis = 0, [], 0, Status.VALID, None, None
        self.spans, self.stack, self.discards, self.out, self.events, self.targets, self.used = [], [], False, [], {}, {}, 0
        self.template = prefix[-1].count if prefix and isinstance(prefix[-1], ChoiceTemplate) else None
        self.start(D.TOP_LABEL)

    def start(self, label):
        self.spans.append([label, self.stack[-1] if self.stack else None, len(self.nodes), None, len(self.stack), False])
        self.stack.append(len(self.spans) - 1)

    def stop(self, discard):
        k = self.stack.pop()
        self.spans[k][3] = len(self.nodes)
        self.spans[k][5] = discard
        self.discards |= discard

    def end(self, status, origin=None):
        self.status, self.origin = status, origin
        while self.stack:
            self.stop(False)
        raise Stop

    def draw(self, t, c, forced, observe):
        if self.length == BUFFER_SIZE or len(self.nodes) == self.max_choices:
            self.end(Status.OVERRUN)
        if not observe:
            v = forced[0] if forced else self.unobserved.pop(0)
            self.out.append(v)
            return
        if self.i < len(self.prefix):
            v = self.prefix[self.i]
            if isinstance(v, ChoiceTemplate):
                v = forced[0] if forced else simplest(t, c)
                if self.template is not None:
                    self.template -= 1
                    if self.template < 0:
                        self.end(Status.OVERRUN)
            else:
                if not permitted(v, t, c):
                    if self.mis is None:
                        self.mis = (self.i, t)
                    v = simplest(t, c)
                self.i += 1
        elif forced is None:
            v = self.fresh.pop(0)
        if forced:
            v = forced[0]
        if self.length + size_of(v) > BUFFER_SIZE:
            self.end(Status.OVERRUN)
        self.length += size_of(v)
        self.nodes.append((t, v, c, forced is not None))
        self.out.append(v)

    def block(self, ops):
        for op in ops:
            if op[0] == "draw":
                self.draw(*op[1:])
            elif op[0] == "span":
                self.start(op[1])
                self.block(op[2])
                self.stop(op[3])
            elif op[0] == "if":
                self.block(op[1] if self.out and truth(self.out[-1]) else op[2])
            elif op[0] == "repeat":
                o = self.out
                for _ in range((len(o[-1]) if isinstance(o[-1], (bytes, str)) else int(bool(o[-1])) + 1) % 4 if o else 1):
                    self.block(op[1])
            elif op[0] == "event":
                self.events[op[1]] = len(self.out)
            elif op[0] == "target":
                self.targets[op[1]] = float(len(self.out))
            else:
                self.end(op[1], "o" if op[1] is Status.INTERESTING else None)

    def run(self, ops):
        try:
            self.block(ops)
            while self.stack:
                self.stop(False)
        except Stop:
            pass


class Log(DataObserver):
    def __init__(self):
        self.seen, self.ended = [], []

    def conclude_test(self, status, interesting_origin):
        self.ended.append((status, interesting_origin))

    def __getattribute__(self, name):
        if name.startswith("draw_"):
            t = name[5:]
            return lambda value, *, constraints, was_forced: self.seen.append((t, value, was_forced))
        return object.__getattribute__(self, name)


def run_real(d, ops):
    out = []
    try:
        execute(d, ops, out)
    except StopTest:
        pass
    d.freeze()
    return out


def lists_same(a, b):
    return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))


def compare(what, d, out, ref, obs):
    if d.status != ref.status or d.interesting_origin != ref.origin:
        return f"{what}: status {d.status!r} {d.interesting_origin}, expected {ref.status!r} {ref.origin}"
    if not lists_same(out, ref.out):
        return f"{what}: the test saw {out!r:.300}, expected {ref.out!r:.300}"
    got = [(n.type, n.value, n.was_forced) for n in d.nodes]
    if len(got) != len(ref.nodes) or any(g_[0] != w[0] or g_[2] != w[3] or not same(g_[1], w[1]) for g_, w in zip(got, ref.nodes)):
        return f"{what}: recorded {got!r:.300}, expected {[(w[0], w[1], w[3]) for w in ref.nodes]!r:.300}"
    for n, w in zip(d.nodes, ref.nodes):
        if n.constraints != real(w[2]):
            return f"{what}: the node for {n.value!r} has constraints {n.constraints}, drawn with {w[2]}"
    if [n.index for n in d.nodes] != list(range(len(d.nodes))):
        return f"{what}: node positions {[n.index for n in d.nodes]}"
    if not lists_same(list(d.choices), [w[1] for w in ref.nodes]):
        return f"{what}: choices {d.choices!r:.200}"
    if d.length != ref.length:
        return f"{what}: length {d.length}, the choices take {ref.length}"
    mis = d.misaligned_at
    if (None if mis is None else mis[:2]) != ref.mis:
        return f"{what}: misaligned at {mis}, expected {ref.mis}"
    if d.events.get("a") != ref.events.get("a") or d.events.get("b") != ref.events.get("b") or d.target_observations != ref.targets:
        return f"{what}: events {d.events} targets {d.target_observations}, expected {ref.events} {ref.targets}"
    if d.has_discards != ref.discards:
        return f"{what}: has_discards {d.has_discards}, expected {ref.discards}"
    spans = [[s.label, s.parent, s.start, s.end, s.depth, s.discarded] for s in d.spans]
    if spans != ref.spans:
        return f"{what}: spans {spans}, expected {ref.spans}"
    for k, s in enumerate(d.spans):
        kids = [j for j, x in enumerate(ref.spans) if x[1] == k]
        if [c.index for c in s.children] != kids or s.choice_count != ref.spans[k][3] - ref.spans[k][2]:
            return f"{what}: children of span {k} are {[c.index for c in s.children]}, expected {kids}"
    groups = {}
    for l, p, a, b, dep, dis in ref.spans:
        groups.setdefault(l, set()).add((a, b))
    if sorted(map(sorted, d.spans.mutator_groups)) != sorted(sorted(x) for x in groups.values() if len(x) >= 2):
        return f"{what}: groups of spans {d.spans.mutator_groups}, expected {groups}"
    if obs is not None:
        # the observer also hears of a value that turns out not to fit
        seen = obs.seen[:len(ref.nodes)]
        if any(a[0] != w[0] or not same(a[1], w[1]) or a[2] != w[3] for a, w in zip(seen, ref.nodes)) or len(obs.seen) - len(ref.nodes) not in ((0, 1) if ref.status is Status.OVERRUN else (0,)):
            return f"{what}: the observer heard {obs.seen!r:.300}, the choices are {got!r:.300}"
        if obs.ended != [(ref.status, ref.origin)]:
            return f"{what}: the observer heard the test end {obs.ended}"
    return None


def unobserved_values(ops, out, nodes):
    return None


class Feed(Edge):
    "replays the unobserved draws, which are not part of the record"

    def __init__(self, cd, /, *, random, log=None, feed=None):
        super().__init__(cd, random=random)
        self.log, self.feed = log, feed


def snapshot(d):
    return (d.status, d.interesting_origin, tuple((n.type, n.value if n.value == n.value else "nan", n.was_forced) for n in d.nodes), d.length, d.index, d.has_discards, d.depth, dict(d.target_observations), d.misaligned_at and d.misaligned_at[:2], len(d.spans), d.output, d.frozen)


def frozen_check(d):
    before = snapshot(d)
    calls = [lambda: d.draw_integer(), lambda: d.draw_integer(0, 5, forced=3), lambda: d.draw_boolean(), lambda: d.draw_float(), lambda: d.draw_bytes(), lambda: d.draw_string(IntervalSet(((48, 50),))),
             lambda: d.start_span(3), lambda: d.note("x"), lambda: d.conclude_test(Status.INTERESTING, "late"), lambda: d.mark_invalid(), lambda: d.mark_overrun()]
    for k, c in enumerate(calls):
        try:
            r = c()
            return f"call {k} on a frozen test case returned {r!r}"
        except Frozen:
            pass
        except StopTest:
            return f"call {k} on a frozen test case stopped the test again"
        if snapshot(d) != before:
            return f"call {k} changed a frozen test case: {before} to {snapshot(d)}"
    d.stop_span()
    d.freeze()
    if snapshot(d) != before:
        return "stop_span or freeze changed a frozen test case"
    if d.as_result() is not d.as_result():
        return "as_result gives different objects"
    r = d.as_result()
    if d.status is not Status.OVERRUN:
        if r.status != d.status or r.nodes != d.nodes or r.choices != d.choices or r.length != d.length or r.interesting_origin != d.interesting_origin or r.has_discards != d.has_discards or r.target_observations != d.target_observations or r.misaligned_at != d.misaligned_at or r.spans is not d.spans or set(r.tags) != set(d.tags):
            return f"the result {r} differs from the test case"
    elif r is not D.Overrun:
        return f"the result of an overrun is {r}"
    return None


def has_unobserved(ops):
    return any((o[0] == "draw" and not o[4] and o[3] is None) or any(isinstance(x, list) and has_unobserved(x) for x in o) for o in ops)


def p(a):
    ops, seed, edge = a
    rng = Random(seed)
    # a fresh run. Unobserved draws are not recorded: programs with unforced ones are only run once
    obs = Log()
    r = Random(seed)
    d = ConjectureData(random=r, observer=obs, provider=Edge(None, random=r) if edge else D.HypothesisProvider)
    out = run_real(d, ops)
    free = []
    un = []
    ref = Ref((), [], None, [])

    def split():
        # attribute the values the provider gave: a dry run of the reference that takes each from the test's own record
        vals = list(out) + [s[1] for s in obs.seen[len(d.nodes):]]
        class Take(Ref):
            def draw(self, t, c, forced, observe):
                v = vals[len(self.out)] if len(self.out) < len(vals) else simplest(t, c)
                self.fresh, self.unobserved = [v], [v]
                if not permitted(v, t, c):
                    raise AssertionError(f"drew {v!r} for {t} {c}")
                Ref.draw(self, t, c, forced, observe)
        ref = Take((), [], None, [])
        ref.run(ops)
        return ref
    try:
        ref = split()
    except AssertionError as e:
        return str(e)
    bad = compare("fresh run", d, out, ref, obs) or frozen_check(d)
    if bad or has_unobserved(ops):
        return bad
    choices = d.choices
    # the recorded choices again
    for what, prefix in [("replay", choices), ("replay of a list", list(choices))]:
        if d.status is Status.OVERRUN:
            break
        obs2 = Log()
        d2 = ConjectureData.for_choices(prefix, observer=obs2)
        out2 = run_real(d2, ops)
        bad = compare(what, d2, out2, ref, obs2)
        if bad:
            return bad
        if d2.misaligned_at is not None or d2.index != len(choices):
            return f"{what}: used {d2.index} of {len(choices)} choices, misaligned {d2.misaligned_at}"
    # changed choices
    pool = list(choices) + [0, 1, -1, 10**20, True, False, 0.5, math.nan, math.inf, b"", b"ab", "", "0", "zz", "\ud800"]
    for k in range(6):
        pre = list(choices)
        for _ in range(rng.randint(1, 3)):
            m = rng.randrange(4)
            if m == 0 and pre:
                del pre[rng.randrange(len(pre)):][:rng.randint(1, 2)]
            elif m == 1 and pre:
                pre[rng.randrange(len(pre))] = rng.choice(pool)
            elif m == 2:
                pre.insert(rng.randrange(len(pre) + 1), rng.choice(pool))
            elif pre:
                i = rng.randrange(len(pre))
                pre.append(pre.pop(i))
        tmpl = rng.random()
        if tmpl < .3:
            pre.append(ChoiceTemplate("simplest", count=rng.choice([None, 1, 2, 5])))
        mx = None
        if not (pre and isinstance(pre[-1], ChoiceTemplate) and pre[-1].count is None):
            mx = len(pre) - 1 + pre[-1].count if pre and isinstance(pre[-1], ChoiceTemplate) else len(pre)
        ref2 = Ref(pre, [], mx, [])
        ref2.run(ops)
        obs2 = Log()
        d2 = ConjectureData.for_choices(pre, observer=obs2)
        shown = repr(pre)
        out2 = run_real(d2, ops)
        bad = compare(f"on {shown:.300}", d2, out2, ref2, obs2) or frozen_check(d2)
        if bad:
            return bad
    # a prefix, then new values
    if choices:
        pre = list(choices[:rng.randrange(len(choices))])
        r = Random(seed + 1)
        obs3 = Log()
        d3 = ConjectureData(random=r, observer=obs3, prefix=pre, provider=Edge(None, random=r), max_choices=rng.choice([None, len(pre), len(pre) + 2]))
        out3 = run_real(d3, ops)
        vals = list(out3) + [s[1] for s in obs3.seen[len(d3.nodes):]]

        class Take(Ref):
            def draw(self, t, c, forced, observe):
                self.fresh = [vals[len(self.out)] if len(self.out) < len(vals) else simplest(t, c)]
                Ref.draw(self, t, c, forced, observe)
        ref3 = Take(pre, [], d3.max_choices, [])
        ref3.run(ops)
        bad = compare(f"with prefix {pre!r:.200}", d3, out3, ref3, obs3)
        if bad:
            return bad
    return None


# --- strategies: the same value from the recorded choices
def g_strat(rng):
    return rng.randrange(len(STRATS)), rng.getrandbits(32), rng.random() < .5


from hypothesis import strategies as st


@st.composite
def comp(draw):
    n = draw(st.integers(0, 4))
    return [draw(st.integers(0, 10 * (i + 1))) for i in range(n)] + [draw(st.sampled_from("abc"))]


STRATS = [
    st.integers(), st.floats(), st.text(), st.binary(), st.booleans(), st.lists(st.integers()), st.lists(st.text(max_size=3), unique=True), st.sets(st.integers(0, 9)), st.dictionaries(st.text(max_size=2), st.floats()),
    st.tuples(st.booleans(), st.integers(3)), st.one_of(st.integers(), st.text(), st.just(3)), st.integers().filter(lambda x: x % 3), st.integers(0, 9).flatmap(lambda n: st.lists(st.integers(), min_size=n, max_size=n)), comp(),
    st.recursive(st.booleans(), lambda s: st.lists(s, max_size=3)), st.permutations(range(6)), st.dates(), st.datetimes(), st.timedeltas(), st.times(), st.decimals(), st.fractions(), st.complex_numbers(), st.uuids(), st.emails(),
    st.from_regex(r"[a-c]{2,5}\d*", fullmatch=True), st.characters(), st.sampled_from(range(10)).filter(lambda x: x > 6), st.ip_addresses(), st.slices(10), st.fixed_dictionaries({"a": st.integers()}, optional={"b": st.text()}),
    st.lists(st.sampled_from(range(30)), unique=True, min_size=3), st.integers(0, 10**9), st.floats(0, 1), st.lists(st.floats(width=32)), st.iterables(st.integers(), max_size=4).map(list), st.randoms(use_true_random=False).map(lambda r: [r.random(), r.randint(0, 9), r.choice("abc")]),
    st.builds(complex, st.floats(), st.floats()), st.shared(st.integers(), key="k").map(lambda x: x + 1), st.deferred(lambda: st.integers() | st.text()),
]


def p_strat(a):
    k, seed, edge = a
    s = STRATS[k]
    from rt.draw import draw, redraw
    tag, v, d = draw(s, seed, edge)
    if d.status is Status.OVERRUN:
        return None
    tag2, v2, d2 = redraw(s, d)
    if tag2 != tag or repr(v2) != repr(v):
        return f"{s!r}: drew {tag} {v!r}, its choices {d.choices!r:.300} give {tag2} {v2!r}"
    if not lists_same(list(d.choices), list(d2.choices)) or d2.misaligned_at is not None or d.status != d2.status or d.length != d2.length:
        return f"{s!r}: choices {d.choices!r:.200} replay as {d2.choices!r:.200}, misaligned {d2.misaligned_at}"
    x = [[q.label, q.start, q.end, q.parent, q.depth, q.discarded] for q in d.spans]
    y = [[q.label, q.start, q.end, q.parent, q.depth, q.discarded] for q in d2.spans]
    if x != y or d.has_discards != d2.has_discards or set(d.tags) != set(d2.tags):
        return f"{s!r}: the structure differs on replay: {x} and {y}"
    return None


CHECKS = [RT("programs", g, p, n=2500, budget=25, rule="random test programs: fresh run, replay, edited choices, templates and prefixes against a reference interpreter; nothing changes after freezing"),
          RT("strategies", g_strat, p_strat, n=3000, budget=20, rule="a strategy drawn from the recorded choices gives the same value, choices and structure")]
