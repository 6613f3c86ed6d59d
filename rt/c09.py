"""C09: filtering against the plain meaning of a filter."""
import atexit
import datetime as dt
import functools
import importlib.util
import itertools
import math
import operator
import os
import re
import shutil
import tempfile
import warnings
from decimal import Decimal
from fractions import Fraction
from functools import partial
from pyvc.runtime import RT
from rt.draw import draw
from rt.fl import rfloat
from hypothesis import strategies as st
from hypothesis.internal.conjecture.data import ConjectureData

OPS = {"lt": operator.lt, "le": operator.le, "eq": operator.eq, "ge": operator.ge, "gt": operator.gt}
_dir = []
_n = itertools.count()


def load(src, name="pred"):
    "a function with source code, as a user's module has"
    if not _dir:
        _dir.append(tempfile.mkdtemp(prefix="c09"))
    f = os.path.join(_dir[0], f"m{os.getpid()}_{next(_n)}.py")
    with open(f, "w") as o:
        o.write("import functools, math, operator\nfrom functools import partial\n" + src)
    spec = importlib.util.spec_from_file_location(os.path.basename(f)[:-3], f)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    os.unlink(f) if False else None
    return getattr(m, name)


def cleanup():
    if _dir:
        shutil.rmtree(_dir[0], ignore_errors=True)
        _dir.clear()


SKIP = object()


def holds(pred, v):
    try:
        return bool(pred(v))
    except Exception:
        return SKIP


def from_choices(s, choices):
    return draw(s, 0, data=ConjectureData.for_choices(choices))


def same(a, b):
    if isinstance(a, float) and isinstance(b, float):
        return (a != a and b != b) or (a == b and math.copysign(1, a) == math.copysign(1, b))
    return type(a) is type(b) and a == b


# ---- numbers
def lit(rng, fl, lens=False):
    if lens:
        return rng.choice(["0", "1", "-1", "2", "3", "5", "4", "2.0", "0.5", "3.7", "-0.0", "1e999", "-1e999", "True", "100", "y"])
    k = rng.random()
    if k < .55:
        return rng.choice(["0", "1", "-1", "2", "3", "5", "-5", "7", "10", "-3", "4"])
    if k < .85:
        return rng.choice(["0.5", "-0.5", "2.0", "-0.0", "0.0", "3.7", "-2.5", "1e999", "-1e999", "1e-320", "-1e-320", "0.1", "1e16", "9007199254740993"])
    return rng.choice(["True", "100", "-100", "y"] + ["1" + "0" * 320] * (not lens))


def expr(rng, fl, d=0, lens=False):
    x = "len(x)" if lens and rng.random() < .8 else "x"
    if lens:
        x = "len(x)"
    k = rng.random()
    if d < 2 and k < .25:
        return f"{expr(rng, fl, d + 1, lens)} and {expr(rng, fl, d + 1, lens)}"
    if d < 2 and k < .3:
        return f"({expr(rng, fl, d + 1, lens)} or {expr(rng, fl, d + 1, lens)})"
    if d < 2 and k < .34:
        return f"(not {expr(rng, fl, d + 1, lens)})"
    if k < .38:
        return f"{x} % 2 == 0" if not fl else f"{x} != 1"
    ops = ["<", "<=", "==", ">=", ">"] if rng.random() < .95 else ["!="]
    k = rng.random()
    if k < .35:
        return f"{x} {rng.choice(ops)} {lit(rng, fl, lens)}"
    if k < .7:
        return f"{lit(rng, fl, lens)} {rng.choice(ops)} {x}"
    if k < .95:
        return f"{lit(rng, fl, lens)} {rng.choice(ops)} {x} {rng.choice(ops)} {lit(rng, fl, lens)}"
    return f"{x} {rng.choice(ops)} {lit(rng, fl, lens)} {rng.choice(ops)} {x}"


def number(rng):
    return rng.choice([0, 1, -1, 3, 5, 0.0, -0.0, 2.5, -2.5, math.inf, -math.inf, math.nan, Fraction(1, 10), Fraction(7, 2), Fraction(-1, 3), Decimal("0.3"), Decimal("-0.1"), Decimal("1e-400"), Decimal("-1e-400"), Decimal("1e400"),
                       Decimal("inf"), Decimal("nan"), Decimal("snan"), True, 2**53 + 1, -2**53 - 1, 10**400, -10**400, 5e-324, -5e-324, 1.7976931348623157e308, Decimal("2.5"), rng.randint(-20, 20), rng.uniform(-9, 9), 0.1, "a", None])


def pspec(rng, fl, lens=False):
    k = rng.random()
    if k < .35 and not lens:
        return "op", rng.choice(list(OPS)), number(rng)
    if k < .42 and not lens:
        return "math", rng.choice(["isfinite", "isinf", "isnan"]), None
    e = expr(rng, fl, lens=lens)
    form = rng.choice(["lambda", "lambda", "lambda", "def", "two", "deco", "default", "doc", "shadow", "nested"])
    return "src", form, e


def make(spec):
    kind, a, b = spec
    if kind == "op":
        return partial(OPS[a], b)
    if kind == "math":
        return getattr(math, a)
    src = {"lambda": f"y = 2\npred = lambda x: {b}\n", "def": f"y = 2\ndef pred(x):\n    return {b}\n", "two": f"y = 2\nother, pred = (lambda x: x == x), (lambda x: {b})\n",
           "deco": f"y = 2\ndef negate(f):\n    @functools.wraps(f)\n    def g(x):\n        return not f(x)\n    return g\n@negate\ndef pred(x):\n    return {b}\n",
           "default": f"y = 2\npred = lambda x, y=3: {b}\n", "doc": f"y = 2\ndef pred(x):\n    'doc'\n    return {b}\n", "shadow": f"y = 2\nlen_ = len\ndef len(x):\n    return 3\ndef pred(x):\n    return {b}\n",
           "nested": f"y = 2\ndef outer(y):\n    return lambda x: {b}\npred = outer(4)\n"}[a]
    return load(src)


BASES_I = [(None, None), (0, None), (None, 5), (-5, 5), (0, 10), (3, 3), (-2, 1), (0, 1)]
BASES_F = [(None, None), (0.0, None), (None, -0.0), (-0.0, 5.0), (-5.0, 5.0), (0.5, 1.0), (None, 0.0), (-1.0, 0.0), (1e300, None), (0.0, 0.0), (-0.0, 0.0)]


def g_int(rng):
    return rng.choice(BASES_I), [pspec(rng, False) for _ in range(rng.choice([1, 1, 1, 2, 3]))], rng.getrandbits(32)


def p_int(a):
    try:
        return _int(*a)
    finally:
        cleanup()


def check(what, s, preds, oracle, candidates, seed, n=25, choices=lambda v: [(v,)]):
    try:
        s.validate()
        empty = s.is_empty
    except Exception as e:
        return f"{what}: {type(e).__name__}: {e}"
    good = []
    for v in candidates:
        if oracle(v):
            r = [holds(p, v) for p in preds]
            if SKIP in r:
                return None                         # the predicate itself is an error for this value
            if all(r):
                good.append(v)
    if empty:
        return f"{what} is empty but {good[0]!r} passes" if good else None
    for k in range(n):
        st_, v, _ = draw(s, seed + k, edge=k % 3 != 0)
        if st_ == "ok":
            r = [holds(p, v) for p in preds]
            if SKIP in r:
                return None
            if not oracle(v) or not all(r):
                return f"{what} generated {v!r}"
    if choices is not None:
        lost = []
        for v in good:
            for c in choices(v):
                st_, w, _ = from_choices(s, c)
                if st_ == "ok" and same(v, w):
                    break
            else:
                lost.append(v)
        if lost:
            # not drawn directly: perhaps another way
            seen = []
            for k in range(150):
                st_, v, _ = draw(s, seed + 1000 + k, edge=k % 2 == 0)
                if st_ == "ok":
                    seen.append(v)
            lost = [v for v in lost if not any(same(v, w) for w in seen)]
            if lost:
                return f"{what} cannot generate {lost[0]!r}, which passes"


def _int(base, specs, seed):
    lo, hi = base
    preds = [make(p) for p in specs]
    s = st.integers(lo, hi)
    what = f"integers({lo}, {hi})" + "".join(f".filter({p[1]} {p[2]})" for p in specs)
    try:
        for p in preds:
            s = s.filter(p)
        s.validate()
    except Exception as e:
        return f"{what}: {type(e).__name__}: {e}"
    cand = list(range(-12, 13)) + [100, -100, 99, 101, 10**16, 10**16 + 1, 9007199254740993, 9007199254740992, 10**320, 10**320 + 1, -10**400, 2**53 + 1, -2**53 - 2]
    return check(what, s, preds, lambda v: type(v) is int and (lo is None or v >= lo) and (hi is None or v <= hi), cand, seed)


def g_float(rng):
    return rng.choice(BASES_F), [pspec(rng, True) for _ in range(rng.choice([1, 1, 1, 2]))], rng.random() < .2, [rfloat(rng) for _ in range(4)], rng.getrandbits(32)


def p_float(a):
    try:
        return _float(*a)
    finally:
        cleanup()


CAND = [0.0, -0.0, 5e-324, -5e-324, 2.2250738585072014e-308, -2.2250738585072014e-308, 1e-320, -1e-320, 0.1, math.nextafter(.1, 1), math.nextafter(.1, 0), 0.3, math.nextafter(.3, 1), 0.5, -0.5, 1.0, math.nextafter(1, 0), math.nextafter(1, 2), 2.0, -2.0, 2.5, -2.5, 3.0, 3.7, 5.0,
        math.nextafter(5, 6), -5.0, 7.0, 10.0, 100.0, 2.0**53, 2.0**53 + 2, -2.0**53, -2.0**53 - 2, 1e16, 1.7976931348623157e308, -1.7976931348623157e308, math.inf, -math.inf, math.nan, -0.1, math.nextafter(-.1, 0), math.nextafter(-.1, -1), -1 / 3, math.nextafter(-1 / 3, 0)]


def _float(base, specs, nosub, more, seed):
    lo, hi = base
    preds = [make(p) for p in specs]
    kw = dict(allow_subnormal=False) if nosub and base != (5e-324, None) else {}
    s = st.floats(lo, hi, **kw)
    what = f"floats({lo}, {hi}{', allow_subnormal=False' if kw else ''})" + "".join(f".filter({p[1]} {p[2]})" for p in specs)
    try:
        for p in preds:
            s = s.filter(p)
        s.validate()
    except Exception as e:
        return f"{what}: {type(e).__name__}: {e}"
    unbounded = lo is None and hi is None
    key = lambda f: (f, math.copysign(1, f))

    def oracle(v):
        if type(v) is not float:
            return False
        if v != v:
            return unbounded
        if kw and 0 < abs(v) < 2.2250738585072014e-308:
            return False
        if abs(v) == math.inf and ((v > 0 and hi is not None) or (v < 0 and lo is not None)):
            return False
        return (lo is None or key(v) >= key(lo)) and (hi is None or key(v) <= key(hi))
    return check(what, s, preds, oracle, CAND + more, seed)


# ---- collections and text
STR = ["split", "rsplit", "splitlines", "capitalize", "expandtabs", "lower", "swapcase", "title", "upper", "islower", "isupper", "isalnum", "isalpha", "isascii", "isdigit", "isspace", "istitle", "lstrip", "rstrip", "strip", "isdecimal", "isnumeric", "isidentifier", "casefold", "encode", "isprintable"]
BYT = [n for n in STR if n not in ("isdecimal", "isnumeric", "isidentifier", "casefold", "encode", "isprintable")]
PAT = ["a", "ab|b", "a*", "^a", "a$", "^a|b$", r"\Aa", r"a\Z", "[ab]{2}", "(a)b?", "", "(?:a|)b", "a+?", ".", "(?i)a", "a # b", "^$", r"\n", "a{2,3}", "[^a]", r"\w", r"\s*a"]
FLAGS = [0, 0, re.M, re.S, re.I, re.X, re.M | re.S, re.A]


def g_coll(rng):
    kind = rng.choice(["text", "text", "text", "binary", "binary", "list", "set", "dict"])
    lo = rng.choice([0, 0, 0, 1, 2])
    hi = rng.choice([None, lo, lo + 1, 3, 4])
    hi = hi if hi is None else max(hi, lo)
    specs = []
    for _ in range(rng.choice([1, 1, 1, 2])):
        k = rng.random()
        if kind in ("text", "binary") and k < .35:
            specs.append(("method", rng.choice(STR if kind == "text" else BYT), None))
        elif kind in ("text", "binary") and k < .65:
            specs.append(("re", rng.choice(["match", "search", "fullmatch", "findall", "finditer", "split"]), (rng.choice(PAT), rng.choice(FLAGS))))
        elif k < .78:
            specs.append(("name", rng.choice(["bool", "len", "tuple", "list", "identity", "str", "bytes"] if kind != "dict" else ["bool", "len"]), None))
        else:
            specs.append(pspec(rng, False, lens=True))
    return kind, lo, hi, specs, rng.getrandbits(32)


def mk(spec, kind):
    a, b, c = spec
    if a == "method":
        return getattr(str if kind == "text" else bytes, b)
    if a == "re":
        p, f = c
        if kind == "binary":
            p = p.encode()
        return getattr(re.compile(p, f), b)
    if a == "name":
        return {"bool": bool, "len": len, "tuple": tuple, "list": list, "str": str, "bytes": bytes}.get(b) or load("pred = lambda x: x\n")
    return make(spec)


def p_coll(a):
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return _coll(*a)
    finally:
        cleanup()


def seqs(v):
    "the choices for a collection of booleans: with and without the draws that decide on going on"
    return [tuple(x for e in v for x in (True, e)) + (False,), tuple(v), tuple(x for e in reversed(list(v)) for x in (True, e)) + (False,), tuple(reversed(list(v)))]


ALPH = "a bA\n1_"


def _coll(kind, lo, hi, specs, seed):
    top = 10**9 if hi is None else hi
    if kind == "text":
        s = st.text(ALPH, min_size=lo, max_size=hi)
        oracle = lambda v: type(v) is str and set(v) <= set(ALPH) and lo <= len(v) <= top
        cand = ["", *ALPH, "ab", "aa", "ba", "b\na", "a\n", "\na", "a b", "  ", "Aa", "aab", "aaaa", "\n\n", "1a"]
        choices = lambda v: [(v,)]
    elif kind == "binary":
        s = st.binary(min_size=lo, max_size=hi)
        oracle = lambda v: type(v) is bytes and lo <= len(v) <= top
        cand = [b"", b"a", b"\0", b"\xff", b" ", b"ab", b"b\na", b"a\n", b"\na", b"aa", b"  ", b"Aa", b"\x0c", b"\x1c", b"aaa"]
        choices = lambda v: [(v,)]
    elif kind == "list":
        hi = 3 if hi is None else min(hi, 3)
        s = st.lists(st.booleans(), min_size=lo, max_size=hi)
        oracle = lambda v: type(v) is list and all(type(x) is bool for x in v) and lo <= len(v) <= hi
        cand = [list(c) for n in range(3) for c in itertools.product([False, True], repeat=n)]
        choices = seqs
    elif kind == "set":
        hi = 2 if hi is None else min(hi, 2)
        s = st.sets(st.booleans(), min_size=lo, max_size=hi)
        oracle = lambda v: type(v) is set and v <= {True, False} and lo <= len(v) <= hi
        cand = [set(), {True}, {False}, {True, False}]
        choices = seqs
    else:
        hi = 2 if hi is None else min(hi, 2)
        s = st.dictionaries(st.booleans(), st.just(0), min_size=lo, max_size=hi)
        oracle = lambda v: type(v) is dict and set(v) <= {True, False} and lo <= len(v) <= hi
        cand = [{}, {True: 0}, {False: 0}, {True: 0, False: 0}]
        choices = seqs
    preds = [mk(p, kind) for p in specs]
    what = f"{s!r}" + "".join(f".filter({p[1]} {p[2]!r})" for p in specs)
    try:
        for p in preds:
            s = s.filter(p)
        s.validate()
    except Exception as e:
        # a filter that cannot be true of anything may be refused, e.g. a regular expression outside the alphabet
        if type(e).__name__ in ("InvalidArgument", "IncompatibleWithAlphabet") and not any(oracle(v) and all(holds(p, v) is True for p in preds) for v in cand):
            return None
        return f"{what}: {type(e).__name__}: {e}"
    if any(p[:2] == ("src", "shadow") for p in specs):
        cand = []                           # a user function named len is documented to narrow the sizes as well
    if any(p[:2] == ("method", "isidentifier") for p in specs):
        choices = lambda v: [(v[:1], v[1:])]
    if any(p[0] == "re" and p[1] not in ("finditer", "split") for p in specs) and kind in ("text", "binary"):
        choices = None                      # drawn piece by piece: which values can come out is decided by C20
    return check(what, s, preds, oracle, cand, seed, choices=choices)


# ---- dates, sampled values and chains
def g_misc(rng):
    kind = rng.choice(["date", "date", "sampled", "sampled", "chain", "one_of"])
    d = lambda: dt.date(2000, rng.choice([1, 2, 12]), rng.choice([1, 2, 28])) if rng.random() < .8 else rng.choice([dt.date.min, dt.date.max])
    return kind, sorted([d(), d()]), [(rng.choice(list(OPS)), d()) for _ in range(rng.choice([1, 1, 2]))], rng.random() < .1, rng.sample([2, 3, 5], rng.randint(1, 3)), rng.getrandbits(32)


def p_misc(a):
    kind, (lo, hi), specs, dtm, mods, seed = a
    if kind == "date":
        specs = [(o, dt.datetime(d.year, d.month, d.day) if dtm else d) for o, d in specs]
        if dtm and any(o != "eq" for o, _ in specs):
            return None
        preds = [partial(OPS[o], d) for o, d in specs]
        s = st.dates(lo, hi)
        what = f"dates({lo}, {hi})" + "".join(f".filter({o} {d!r})" for o, d in specs)
        try:
            for p in preds:
                s = s.filter(p)
        except Exception as e:
            return f"{what}: {type(e).__name__}: {e}"
        near = {dt.date.fromordinal(min(max(x.toordinal() + k, 1), dt.date.max.toordinal())) for x in [lo, hi] + [d for _, d in specs] for k in (-1, 0, 1)}
        return check(what, s, preds, lambda v: type(v) is dt.date and lo <= v <= hi, sorted(near), seed, n=12, choices=None)
    preds = [(lambda x, m=m: x % m == 1) for m in mods]
    if kind == "sampled":
        s = st.sampled_from(range(40))
        cand = list(range(40))
    elif kind == "one_of":
        s = st.one_of(st.sampled_from(range(20)), st.integers(20, 39))
        cand = list(range(40))
    else:
        s = st.integers(0, 19).map(lambda x: 2 * x)
        cand = list(range(0, 40, 2))
    for p in preds:
        s = s.filter(p)
    ok = [v for v in cand if all(p(v) for p in preds)]
    for k in range(30):
        st_, v, _ = draw(s, seed + k, edge=k % 3 != 0)
        if st_ == "ok" and v not in ok:
            return f"{kind} filtered by {mods} generated {v!r}"
    if kind == "sampled" and ok:
        seen = {draw(s, seed + k, edge=False)[1] for k in range(60 + 25 * len(ok))}
        if not set(ok) <= seen:
            return f"sampled_from(range(40)) filtered by {mods}: {sorted(set(ok) - seen)} never came up"


CHECKS = [RT("integers", g_int, p_int, n=450, budget=60, cases=[((None, None), [("op", "le", 10**400)], 0)]), RT("floats", g_float, p_float, n=380, budget=60, cases=[((None, None), [("src", "lambda", "x < 0")], False, [], 1), ((None, None), [("op", "le", Decimal("0.3"))], False, [], 1)]),
          RT("collections", g_coll, p_coll, n=500, budget=60, cases=[("text", 0, None, [("method", "split", None)], 5), ("text", 0, None, [("re", "match", ("a", re.M))], 5)]), RT("others", g_misc, p_misc, n=150)]
