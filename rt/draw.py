"""Drawing values from strategies under controlled choices: the library's own random provider, or one that prefers boundary values."""
import math
from random import Random
from hypothesis.control import BuildContext
from hypothesis.errors import StopTest, UnsatisfiedAssumption
from hypothesis.internal.conjecture.data import ConjectureData, Status
from hypothesis.internal.conjecture.providers import PrimitiveProvider
from rt.fl import rfloat, rank, unrank


def permitted_int(v, min_value, max_value):
    return (min_value is None or v >= min_value) and (max_value is None or v <= max_value)


class Edge(PrimitiveProvider):
    """any value the constraints permit is a legal draw; boundary ones are preferred. `bias` in [0, 1]"""
    lifetime = "test_case"
    avoid_realization = False

    def __init__(self, conjecturedata, /, *, random=None, bias=0.6, size=5):
        self.r, self.bias, self.size = random, bias, size
        super().__init__(conjecturedata)

    def draw_boolean(self, p=0.5):
        if p <= 0:
            return False
        if p >= 1:
            return True
        if self.r.random() < self.bias:
            return self.r.random() < 0.5
        return self.r.random() < p

    def draw_integer(self, min_value=None, max_value=None, *, weights=None, shrink_towards=0):
        r = self.r
        if weights is not None and r.random() < .5:
            ks = [k for k, w in weights.items() if w > 0]
            if ks:
                return r.choice(ks)
        c = [0, 1, -1, 2, shrink_towards, shrink_towards + 1, 255, 256, -2**31, 2**64]
        if min_value is not None:
            c += [min_value, min_value + 1] * 3
        if max_value is not None:
            c += [max_value, max_value - 1] * 3
        if r.random() < self.bias:
            v = r.choice(c)
            if permitted_int(v, min_value, max_value):
                return v
        lo = min_value if min_value is not None else (max_value - 100 if max_value is not None else -100)
        hi = max_value if max_value is not None else max(lo, 0) + 100
        return r.randint(min(lo, hi), hi)

    def draw_float(self, *, min_value=-math.inf, max_value=math.inf, allow_nan=True, smallest_nonzero_magnitude):
        r = self.r
        lo, hi = rank(min_value), rank(max_value)

        def ok(f):
            if f != f:
                return allow_nan
            return lo <= rank(f) <= hi and (f == 0 or abs(f) >= smallest_nonzero_magnitude)
        for _ in range(8):
            k = r.random()
            if k < self.bias:
                f = r.choice([min_value, max_value, unrank(min(lo + 1, hi)), unrank(max(hi - 1, lo)), 0.0, -0.0, smallest_nonzero_magnitude, -smallest_nonzero_magnitude, math.nan, math.inf, -math.inf, 1.0])
            elif k < self.bias + .2:
                f = rfloat(r)
            else:
                f = unrank(r.randint(lo, hi))
            if ok(f):
                return f
        for f in (min_value, max_value, 0.0, -0.0, smallest_nonzero_magnitude, -smallest_nonzero_magnitude):
            if ok(f):
                return f
        return unrank(r.randint(lo, hi))

    def _n(self, lo, hi):
        r = self.r
        hi = min(hi, lo + self.size * 4)
        return r.choice([lo, lo, hi, min(lo + 1, hi), r.randint(lo, hi), min(hi, lo + r.randint(0, self.size))])

    def draw_string(self, intervals, *, min_size=0, max_size=10**10):
        n = self._n(min_size, max_size)
        if not len(intervals):
            return ""
        m = len(intervals)
        return "".join(chr(intervals[self.r.choice([0, m - 1, self.r.randrange(m)])]) for _ in range(n))

    def draw_bytes(self, min_size=0, max_size=10**10):
        return bytes(self.r.choice([0, 255, self.r.getrandbits(8)]) for _ in range(self._n(min_size, max_size)))


def new_data(seed, edge=True, bias=None, size=5):
    r = Random(seed)
    if edge:
        return ConjectureData(random=r, provider=Edge(None, random=r, bias=r.choice([0.3, 0.6, 0.9]) if bias is None else bias, size=size))
    return ConjectureData(random=r)


def draw(strategy, seed, edge=True, bias=None, size=5, data=None):
    "-> (status, value, data); status ok / invalid / overrun"
    data = data or new_data(seed, edge, bias, size)
    try:
        with BuildContext(data):
            v = data.draw(strategy)
        data.freeze()
        return "ok", v, data
    except UnsatisfiedAssumption:
        data.freeze()
        return "invalid", None, data
    except StopTest:
        data.freeze()
        return ("overrun" if data.status is Status.OVERRUN else "invalid"), None, data


def redraw(strategy, data):
    "the same strategy on the recorded choices"
    d2 = ConjectureData.for_choices(data.choices)
    return draw(strategy, 0, data=d2)
