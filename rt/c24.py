"""C24: automata against the set of strings they accept, enumerated by plain simulation."""
import itertools
import math
from random import Random
from pyvc.runtime import RT
from hypothesis.internal.conjecture.dfa import DEAD, ConcreteDFA
from hypothesis.internal.conjecture.dfa.lstar import IntegerNormalizer, LStar


class Ref:
    "a table: state -> {byte: state}"
    def __init__(self, table, accepting, start):
        self.t, self.acc, self.s = table, set(accepting), start

    def run(self, s, i=None):
        i = self.s if i is None else i
        for c in s:
            i = None if i is None else self.t[i].get(c)
        return i

    def matches(self, s, i=None):
        return self.run(s, i) in self.acc

    def strings(self, length, i=None):
        "strings of the length accepted from i, in order"
        i = self.s if i is None else i
        if length == 0:
            return [b""] if i in self.acc else []
        return [bytes([c]) + r for c in sorted(self.t[i]) for r in self.strings(length - 1, self.t[i][c])]

    def count(self, length, i=None):
        v = [int(j in self.acc) for j in range(len(self.t))]
        for _ in range(length):
            v = [sum(v[j] for j in row.values()) for row in self.t]
        return v[self.s if i is None else i]

    def live(self):
        live = set(self.acc) & set(range(len(self.t)))
        while True:
            more = {i for i in range(len(self.t)) if set(self.t[i].values()) & live} - live
            if not more:
                return live
            live |= more

    def max_length(self, i):
        live = self.live()
        if i not in live:
            return 0
        reach, todo = set(), [i]
        while todo:
            j = todo.pop()
            if j not in reach and j in live:
                reach.add(j)
                todo += self.t[j].values()
        # longest walk through live states, infinite when a state repeats
        best = {j: 0 for j in reach}
        for step in range(len(self.t) + 1):
            new = {j: max([1 + best[k] for k in self.t[j].values() if k in reach], default=0) for j in reach}
            if new == best:
                return best[i]
            best = new
        return math.inf

    def equivalent(self, o):
        seen, todo = set(), [(self.s, o.s)]
        while todo:
            a, b = todo.pop()
            if (a, b) in seen:
                continue
            seen.add((a, b))
            if (a in self.acc) != (b in o.acc):
                return False
            ta, tb = ({} if a is None else self.t[a]), ({} if b is None else o.t[b])
            todo += [(ta.get(c), tb.get(c)) for c in set(ta) | set(tb)]
        return True


def g_table(rng, size=None):
    n = size or rng.choice([1, 1, 2, 3, 4, 6])
    chars = rng.choice([[0, 1], [0, 1, 2], [5, 6, 7, 200], [0, 255], list(range(0, 12, 2)), [97]])
    t = [{c: rng.randrange(n) for c in chars if rng.random() < rng.choice([.3, .7, 1])} for _ in range(n)]
    if rng.random() < .5:
        # forward only: a finite language
        t = [{c: j for c, j in row.items() if j > i} for i, row in enumerate(t)]
    return t, [i for i in range(n) if rng.random() < .35], rng.randrange(n) if rng.random() < .3 else 0


def build(spec, how):
    t, acc, s = spec
    out = []
    for i, row in enumerate(t):
        if how == "dict" or how == "mixed" and i % 2:
            out.append(dict(row))
            continue
        lst = []
        for c, j in sorted(row.items()):
            if lst and how != "pairs" and lst[-1][-1] == j and lst[-1][-2] == c - 1:
                lst[-1] = (lst[-1][0], c, j)
            else:
                lst.append((c, j))
        if how == "shuffled":
            Random(len(lst)).shuffle(lst)
        out.append(lst)
    return ConcreteDFA(out, set(acc), start=s)


HOWS = ["dict", "ranges", "pairs", "mixed", "shuffled"]


def g_dfa(rng):
    t = g_table(rng)
    chars = sorted({c for row in t[0] for c in row}) or [0]
    return t, rng.choice(HOWS), [bytes(rng.choice(chars + [3]) for _ in range(rng.randrange(8))) for _ in range(4)], rng.getrandbits(30)


def p_dfa(a):
    spec, how, probes, seed = a
    ref, d = Ref(*spec), build(spec, how)
    n = len(spec[0])
    r = Random(seed)
    ops = ["matches", "dead", "maxlen", "count", "has", "enum", "regions", "trans", "canon", "all"]
    r.shuffle(ops)          # answers may not depend on what was asked before
    live = ref.live()
    lengths = list(range(5))
    r.shuffle(lengths)
    for op in ops:
        if op == "matches":
            for s in probes:
                if d.matches(s) != ref.matches(s):
                    return f"matches({s!r}) is {d.matches(s)}"
        elif op == "dead":
            for i in r.sample(range(n), n):
                if d.is_dead(i) == (i in live) or d.is_live(i) != (i in live):
                    return f"is_dead({i}) is {d.is_dead(i)}; live are {live}"
            if not d.is_dead(DEAD):
                return "the dead state is live"
        elif op == "maxlen":
            for i in r.sample(range(n), n):
                if d.max_length(i) != ref.max_length(i):
                    return f"max_length({i}) is {d.max_length(i)}, not {ref.max_length(i)}"
        elif op == "count":
            for k in lengths + [9]:
                i = r.randrange(n)
                if d.count_strings(i, k) != ref.count(k, i):
                    return f"count_strings({i}, {k}) is {d.count_strings(i, k)}, not {ref.count(k, i)}"
        elif op == "has":
            for k in lengths + [9]:
                i = r.randrange(n)
                if bool(d.has_strings(i, k)) != (ref.count(k, i) > 0):
                    return f"has_strings({i}, {k}) is {d.has_strings(i, k)}; there are {ref.count(k, i)}"
        elif op == "enum":
            for k in lengths:
                if ref.count(k) > 400:
                    continue
                got, want = list(d.all_matching_strings_of_length(k)), ref.strings(k)
                if got != want:
                    return f"strings of length {k}: {got[:8]}, not {want[:8]}"
        elif op == "all":
            m = r.randrange(3)
            lim = 60
            got = list(itertools.islice(d.all_matching_strings(min_length=m), lim))
            want = []
            top = ref.max_length(ref.s)
            k = m
            while k <= top and len(want) < lim and k < 12:
                if ref.count(k) > 3000:
                    break
                want += ref.strings(k)
                k += 1
            w = want[:min(lim, len(want))]
            if got[:len(w)] != w or (len(got) > len(want) and k > top):
                return f"all_matching_strings(min_length={m}) gives {got[:8]}, not {w[:8]}"
        elif op == "regions":
            for s in probes:
                got = sorted(d.all_matching_regions(s))
                want = [(u, v) for u in range(len(s) + 1) for v in range(u, len(s) + 1) if ref.matches(s[u:v])]
                if got != want:
                    return f"all_matching_regions({s!r}) is {got}, not {want}"
        elif op == "trans":
            for i in range(n):
                got = sorted(d.transitions(i))
                want = sorted((c, j) for c, j in spec[0][i].items() if j in live)
                if got != want:
                    return f"transitions({i}) is {got}, not {want}"
                if dict(d.transition_counts(i)) != {j: [x for _, x in want].count(j) for _, j in want}:
                    return f"transition_counts({i}) is {d.transition_counts(i)}"
                for c in (0, 1, 3, 97, 255):
                    if (d.transition(i, c) if d.transition(i, c) != DEAD else None) != spec[0][i].get(c):
                        return f"transition({i}, {c}) is {d.transition(i, c)}, not {spec[0][i].get(c)}"
        else:
            c = d.canonicalise()
            if not d.equivalent(c) or not c.equivalent(d):
                return "the canonical form is not equivalent"
            for s in probes + [x for k in range(4) if ref.count(k) < 200 for x in ref.strings(k)]:
                if c.matches(s) != ref.matches(s):
                    return f"the canonical form says {c.matches(s)} for {s!r}"
            e = eval(repr(c), {"ConcreteDFA": ConcreteDFA})
            if not e.equivalent(d) or repr(e) != repr(c):
                return "the repr of the canonical form does not give it back"
    return None


def g_eq(rng):
    a = g_table(rng)
    k = rng.random()
    if k < .4:
        b = g_table(rng, len(a[0]))
    elif k < .7:
        # the same language, states renamed
        n = len(a[0])
        p = list(range(n))
        rng.shuffle(p)
        t = [None] * n
        for i, row in enumerate(a[0]):
            t[p[i]] = {c: p[j] for c, j in row.items()}
        b = t, [p[i] for i in a[1]], p[a[2]]
    else:
        t = [dict(r) for r in a[0]]
        acc = list(a[1])
        i = rng.randrange(len(t))
        if rng.random() < .5:
            acc = sorted(set(acc) ^ {i})
        elif t[i]:
            t[i][rng.choice(list(t[i]))] = rng.randrange(len(t))
        b = t, acc, a[2]
    return a, b, rng.choice(HOWS), rng.choice(HOWS)


def p_eq(a):
    x, y, hx, hy = a
    dx, dy = build(x, hx), build(y, hy)
    want = Ref(*x).equivalent(Ref(*y))
    if dx.equivalent(dy) != want or dy.equivalent(dx) != want:
        return f"equivalent says {dx.equivalent(dy)} and {dy.equivalent(dx)}; the languages are {'the same' if want else 'different'}"
    if not dx.equivalent(build(x, hy)):
        return "two forms of one automaton are not equivalent"
    return None


# --- learning
def g_learn(rng):
    t = g_table(rng, rng.choice([1, 2, 3, 3, 4]))
    chars = sorted({c for row in t[0] for c in row}) or [0]
    return t, [bytes(rng.choice(chars + [chars[-1] + 1 if chars[-1] < 255 else 3]) for _ in range(rng.randrange(7))) for _ in range(rng.randint(1, 14))], rng.random() < .5


def p_learn(a):
    spec, strings, enumerate_ = a
    ref = Ref(*spec)
    asked = []

    def member(s):
        asked.append(s)
        return ref.matches(s)
    l = LStar(member)
    for s in strings:
        l.learn(s)
        if l.dfa.matches(s) != ref.matches(s):
            return f"after learning {s!r} the answer is {l.dfa.matches(s)}"
    for _ in range(300):
        g0 = l.generation
        for s in strings:
            l.learn(s)
        if l.generation == g0:
            break
    else:
        return "learning the same strings never settles"
    for s in strings:
        if l.dfa.matches(s) != ref.matches(s):
            return f"after learning settled the answer for {s!r} is {l.dfa.matches(s)}"
    d = l.dfa
    c = d.canonicalise()
    for s in strings:
        if c.matches(s) != ref.matches(s):
            return f"the canonical form of the learned automaton says {c.matches(s)} for {s!r}"
    if enumerate_:
        for k in range(4):
            if c.count_strings(c.start, k) > 300:
                break
            got = list(d.all_matching_strings_of_length(k))
            if got != list(c.all_matching_strings_of_length(k)) or d.count_strings(d.start, k) != len(got) or not all(d.matches(s) for s in got):
                return f"the learned automaton lists {got[:6]} for length {k}, its canonical form {list(c.all_matching_strings_of_length(k))[:6]}"
    # every string over the alphabet and one more letter, up to twice the states: the language itself
    chars = sorted({x for row in spec[0] for x in row})[:2]
    if len(spec[0]) <= 2 and all(set(row) <= set(chars) for row in spec[0]):
        allc = [x for x in range(256)]
        while True:
            g0 = l.generation
            for k in range(4):
                for s in itertools.product(chars, repeat=k):
                    l.learn(bytes(s))
            for x in allc:
                for p_ in itertools.chain([()], [(q,) for q in chars]):
                    for s_ in itertools.chain([()], [(q,) for q in chars]):
                        l.learn(bytes(p_ + (x,) + s_))
            if l.generation == g0:
                break
        if not l.dfa.equivalent(build(spec, "dict")):
            return "taught every short string, the learned automaton is another language"
    return None


def p_norm(a):
    cuts, asks = a
    n = IntegerNormalizer()

    def cls(v):
        return sum(v >= c for c in cuts)
    for v in asks:
        before = [n.normalize(x) for x in range(60)]
        changed = n.distinguish(v, cls)
        after = [n.normalize(x) for x in range(60)]
        if changed != (before != after):
            return f"distinguish({v}) said {changed}; the table went from {before} to {after}"
        if cls(n.normalize(v)) != cls(v):
            return f"after distinguish({v}), it normalises to {n.normalize(v)}, which tests differently"
        if any(y > x or n.normalize(y) != y for x, y in enumerate(after)):
            return f"the normal forms {after} are not smaller fixed points"
    return None


CHECKS = [
    RT("automata", g_dfa, p_dfa, n=1200, budget=15, rule="every query of a concrete automaton, in any order, against enumeration; transition tables in all accepted forms"),
    RT("equivalence", g_eq, p_eq, n=1500, budget=10, rule="equivalence against a product search"),
    RT("learning", g_learn, p_learn, n=500, budget=20, rule="after learning, the automaton agrees with membership on every string asked; small languages are learned exactly"),
    RT("normalizer", lambda rng: (sorted(rng.sample(range(1, 50), rng.randrange(5))), [rng.randrange(60) for _ in range(rng.randrange(8))]), p_norm, n=2000, budget=6, rule="normal forms test like the values they stand for"),
]
