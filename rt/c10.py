"""C10: the weighted sampler's table, forced draws, ranges and coins."""
import math
from fractions import Fraction
from random import Random
from pyvc.runtime import RT
from hypothesis.errors import StopTest
from hypothesis.internal.conjecture import utils as U
from hypothesis.internal.conjecture.data import ConjectureData, Status
from hypothesis.internal.conjecture.junkdrawer import *  # noqa
from rt.draw import new_data


def g_w(rng):
    n = rng.choice([1, 2, 3, 4, 5, 8, 17])
    k = rng.choice(["int", "float", "tiny", "fraction", "eq", "skew"])
    w = []
    for _ in range(n):
        w.append({"int": lambda: rng.randint(0, 6), "float": rng.random, "tiny": lambda: rng.choice([1e-9, 1.0, 0.0, 1e-300]), "fraction": lambda: Fraction(rng.randint(0, 9), rng.randint(1, 9)),
                  "eq": lambda: 1.0, "skew": lambda: 2.0 ** rng.randint(-30, 4)}[k]())
        if rng.random() < .15:
            w[-1] = w[-1] * 0
    if not any(w):
        w[rng.randrange(n)] = type(w[0])(1)
    return w, rng.getrandbits(32)


def p_table(a):
    w, seed = a
    n = len(w)
    s = U.Sampler(tuple(w))
    t = s.table
    if len(t) != n:
        return f"{len(t)} rows for {n} weights"
    if sorted(t) != list(t):
        return f"rows out of order {t}"
    got = [Fraction(0)] * n
    for b, alt, p in t:
        if not (0 <= b <= alt < n and 0 <= p <= 1):
            return f"row {(b, alt, p)}"
        got[b] += (1 - Fraction(p)) / n
        got[alt] += Fraction(p) / n
    tot = sum(map(Fraction, w))
    for i in range(n):
        if abs(got[i] - Fraction(w[i]) / tot) > Fraction(1, 10**9):
            return f"weight {w[i]} of {w} is represented as {float(got[i])}, expected {float(Fraction(w[i]) / tot)}"
        if w[i] == 0 and got[i] != 0:
            return f"index {i} of weight zero can be sampled from {w}: {t}"
    for k in range(12):
        d = new_data(seed + k, k % 2 == 0)
        i = s.sample(d)
        if not 0 <= i < n or w[i] == 0:
            return f"sampled {i} from {w}"
        d.freeze()
        d2 = ConjectureData.for_choices(d.choices)
        if s.sample(d2) != i:
            return f"sampled {i}, replay gave another"
    for i in range(n):
        if w[i] > 0 and got[i] > 0:
            d = new_data(seed + i)
            if s.sample(d, forced=i) != i:
                return f"forced {i} gave another"
            d.freeze()
            if s.sample(ConjectureData.for_choices(d.choices)) != i:
                return f"forcing {i}, replayed without forcing, gave another"


def p_freq(a):
    w, seed = a
    s = U.Sampler(tuple(w))
    d = ConjectureData(random=Random(seed), max_choices=None)
    d.max_length = 10**9
    N = 1500
    c = [0] * len(w)
    for _ in range(N):
        c[s.sample(d)] += 1
    tot = float(sum(w))
    for i in range(len(w)):
        e = N * float(w[i]) / tot
        if abs(c[i] - e) > 6 * math.sqrt(e * (1 - float(w[i]) / tot)) + 6:
            return f"index {i} of {w} came out {c[i]} times of {N}, expected about {e:.0f}"


def g_weights(rng):
    lo = rng.choice([0, -5, 100, -2**40])
    hi = lo + rng.choice([3, 9, 200, 2**50])
    ks = rng.sample(range(lo, min(hi, lo + 12) + 1), rng.randint(1, 4))
    return lo, hi, [(k, rng.choice([.05, .1, .2, .22])) for k in sorted(ks)], rng.getrandbits(32)


def p_weights(a):
    lo, hi, ws, seed = a
    d = ConjectureData(random=Random(seed), max_choices=None)
    d.max_length = 10**9
    N = 1200
    # another call with the same values and other weights must not influence this one
    d.draw_integer(lo, hi, weights={k: .24 - w for k, w in ws})
    c = {}
    for _ in range(N):
        x = d.draw_integer(lo, hi, weights=dict(ws))
        if not lo <= x <= hi:
            return f"{x} outside [{lo}, {hi}]"
        c[x] = c.get(x, 0) + 1
    rest = 1 - sum(w for _, w in ws)
    for k, w in ws:
        p = w + (rest / (hi - lo + 1) if hi - lo < 2**24 else 0)
        p = .95 * p + .0  # constants are drawn now and then instead
        e = N * p
        if abs(c.get(k, 0) - e) > 6 * math.sqrt(e) + 10 + N * .06:
            return f"{k} with weight {w} in [{lo}, {hi}] came out {c.get(k, 0)} times of {N}, expected about {e:.0f}"


def g_int(rng):
    lo = rng.choice([None, 0, -7, 5, -2**70, 2**65, rng.randint(-1000, 1000)])
    hi = rng.choice([None, None if lo is None else lo, None if lo is None else lo + rng.randint(0, 9), None if lo is None else lo + 2**rng.randint(1, 80)]) if lo is not None else rng.choice([None, 3, -2**66])
    return lo, hi, rng.choice([0, 1, -1, 6, 2**66, -2**71, rng.randint(-2000, 2000)]), rng.getrandbits(32), rng.random() < .5


def p_int(a):
    lo, hi, c, seed, edge = a
    d = new_data(seed, edge)
    for _ in range(4):
        x = d.draw_integer(lo, hi, shrink_towards=c)
        if lo is not None and x < lo or hi is not None and x > hi:
            return f"{x} outside [{lo}, {hi}]"
    from hypothesis.internal.conjecture.choice import ChoiceTemplate
    d = ConjectureData.for_choices([ChoiceTemplate("simplest", count=None)])
    want = c if lo is None else max(lo, c)
    want = want if hi is None else min(hi, want)
    x = d.draw_integer(lo, hi, shrink_towards=c)
    if x != want:
        return f"the simplest value of [{lo}, {hi}] towards {c} is {x}"


def g_coin(rng):
    return rng.choice([0.0, 1.0, 0.5, 1e-300, 2.0**-64, 2.0**-65, 1 - 2.0**-53, rng.random(), .25]), rng.choice([None, True, False]), rng.getrandbits(32), rng.random() < .5


def p_coin(a):
    p, f, seed, edge = a
    if f is not None and p == (0.0 if f else 1.0):
        f = None
    d = new_data(seed, edge)
    for _ in range(10):
        b = d.draw_boolean(p, forced=f)
        if f is not None and b is not f:
            return f"forced {f}, got {b}"
        if b and p == 0 or not b and p == 1:
            return f"a coin of probability {p} gave {b}"


def g_more(rng):
    lo = rng.choice([0, 0, 1, 2, 5, 30])
    hi = rng.choice([lo, lo + 1, lo + 3, lo + 40, 10**6, math.inf])
    if hi == lo:
        av = lo
    else:
        av = min(max(lo * 2, lo + 5), .5 * (lo + hi)) if rng.random() < .7 else lo + (min(hi, lo + 60) - lo) * rng.uniform(.02, .98)
    return lo, hi, av, rng.choice([None, None, None, rng.randint(lo, int(min(hi, lo + 9)))]), rng.choice([0, .2, .5, .95]), rng.getrandbits(32), rng.random() < .5


def p_more(a):
    "the loop that decides on another element"
    lo, hi, av, forced, rej, seed, edge = a
    r = Random(seed)
    d = new_data(seed, edge)
    m = U.many(d, min_size=lo, max_size=hi, average_size=av, forced=forced)
    kept = steps = 0
    try:
        while m.more():
            steps += 1
            if kept >= hi:
                return f"went beyond {hi} elements"
            if forced is None and r.random() < rej:
                m.reject("no")
            else:
                kept += 1
            if steps > 20000:
                break
    except StopTest:
        if d.status is Status.OVERRUN:
            return
        if d.status is not Status.INVALID or kept >= lo:
            return f"gave up with {kept} of at least {lo}: {d.status}"
        return
    if steps <= 20000:
        if not lo <= kept <= hi:
            return f"ended with {kept} elements of [{lo}, {hi}]"
        if forced is not None and kept != forced:
            return f"forced {forced} elements, got {kept}"


def p_avg(a):
    lo, hi, av, seed = a
    N = 900
    tot = 0
    d = ConjectureData(random=Random(seed), max_choices=None)
    d.max_length = 10**9
    sq = 0
    for _ in range(N):
        m = U.many(d, min_size=lo, max_size=hi, average_size=av)
        k = 0
        while m.more():
            k += 1
        tot += k
        sq += k * k
    mean = tot / N
    sd = math.sqrt(max(sq / N - mean * mean, 0) / N)
    if abs(mean - av) > 6 * sd + .05 + .02 * (av - lo):
        return f"many({lo}, {hi}, average {av}) averaged {mean:.2f}"


def g_avg(rng):
    lo = rng.choice([0, 1, 4])
    hi = lo + rng.choice([1, 2, 5, 10, 50])
    return lo, hi, lo + (hi - lo) * rng.uniform(.05, .9) if hi - lo < 20 else lo + rng.uniform(.5, 12), rng.getrandbits(32)


CHECKS = [RT("sampler-table", g_w, p_table, n=1500), RT("sampler-frequency", g_w, p_freq, n=40), RT("weighted-integers", g_weights, p_weights, n=25), RT("centred-integers", g_int, p_int, n=4000), RT("coins", g_coin, p_coin, n=1500),
          RT("sizes", g_more, p_more, n=3000), RT("average-size", g_avg, p_avg, n=40)]
