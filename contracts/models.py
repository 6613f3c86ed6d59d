"""Trusted contracts of dependencies: random.Random, and ConjectureData's draws as their callers may rely on them
(what the providers and ConjectureData._draw are checked to deliver under C07 and C06)."""
import z3
from pyvc.values import *
from pyvc.engine import zint, zbool, AND, NOT, norm, is_sym
from hypothesis.errors import StopTest


def arg(a, kw, i, name, default=None):
    return kw[name] if name in kw else (a[i + 1] if len(a) > i + 1 else default)


def pre(ex, what, f):
    ex.oblige(f"{ex.contract.name}:call {what}", f, kind="pre")


def rnd_random(ex, a, kw):
    v = ex.mk(Float, ex.fresh("random"))
    ex.assume(AND(ex.truth_pure(ex.compare("<=", 0.0, v)), ex.truth_pure(ex.compare("<", v, 1.0))))
    return v


def rnd_getrandbits(ex, a, kw):
    n = arg(a, kw, 0, "k")
    pre(ex, "getrandbits:nonneg", ex.truth_pure(ex.compare(">=", n, 0)))
    v = ex.mk(Int, ex.fresh("bits"))
    ex.assume(z3.And(v >= 0, v < ex.ctx.pow2(ex, zint(n))))
    return v


def rnd_randint(ex, a, kw):
    lo, hi = arg(a, kw, 0, "a"), arg(a, kw, 1, "b")
    pre(ex, "randint:nonempty", ex.truth_pure(ex.compare("<=", lo, hi)))
    v = ex.mk(Int, ex.fresh("randint"))
    ex.assume(z3.And(zint(lo) <= v, v <= zint(hi)))
    return v


def rnd_choice(ex, a, kw):
    s = ex.as_seq(arg(a, kw, 0, "seq"))
    pre(ex, "choice:nonempty", ex.truth_pure(ex.compare(">", s.n, 0)))
    j = z3.Int(ex.fresh("choice"))
    ex.assume(z3.And(0 <= j, j < zint(s.n)))
    n = norm(s.n)
    if isinstance(n, int):
        for k in range(n - 1):
            if ex.branch(j == k):
                return s.get(k)
        return s.get(n - 1)
    return s.get(j)


def rnd_randbytes(ex, a, kw):
    n = arg(a, kw, 0, "n")
    s = ex.mk(Bytes(), ex.fresh("randbytes"))
    ex.assume(zint(s.n) == zint(n))
    return s


RANDOM = dict(random=Prim(rnd_random), getrandbits=Prim(rnd_getrandbits), randint=Prim(rnd_randint), choice=Prim(rnd_choice), randbytes=Prim(rnd_randbytes))


def stop(ex, a, kw):
    ex.raise_(StopTest)


def d_integer(ex, a, kw):
    lo, hi = ex.force(arg(a, kw, 0, "min_value")), ex.force(arg(a, kw, 1, "max_value"))
    forced = ex.force(kw.get("forced"))
    if forced is not None:
        v = forced
        for nm, op, b in (("min", ">=", lo), ("max", "<=", hi)):
            if b is not None:
                pre(ex, "draw_integer:forced-" + nm, ex.truth_pure(ex.compare(op, v, b)))
        return v
    if lo is not None and hi is not None:
        pre(ex, "draw_integer:range", ex.truth_pure(ex.compare("<=", lo, hi)))
    v = ex.mk(Int, ex.fresh("drawn"))
    if lo is not None:
        ex.assume(v >= zint(lo))
    if hi is not None:
        ex.assume(v <= zint(hi))
    return v


def d_boolean(ex, a, kw):
    p = arg(a, kw, 0, "p", 0.5)
    forced = ex.force(kw.get("forced"))
    if forced is not None:
        f = zbool(ex.truth(forced))
        pre(ex, "draw_boolean:forced-true", z3.Or(z3.Not(f), zbool(ex.truth_pure(ex.compare(">", p, 0)))))
        pre(ex, "draw_boolean:forced-false", z3.Or(f, zbool(ex.truth_pure(ex.compare("<", p, 1)))))
        return forced
    v = ex.mk(Bool, ex.fresh("coin"))
    ex.assume(z3.Implies(v, zbool(ex.truth_pure(ex.compare(">", p, 0)))))
    ex.assume(z3.Implies(z3.Not(v), zbool(NOT(ex.truth_pure(ex.compare(">=", p, 1))))))
    return v


def d_choice(ex, a, kw):
    s = ex.as_seq(arg(a, kw, 0, "values"))
    forced = ex.force(kw.get("forced"))
    if forced is not None:
        return forced
    return rnd_choice(ex, [None, s], {})


def nothing(ex, a, kw):
    return None


DATA = dict(draw_integer=Prim(d_integer), draw_boolean=Prim(d_boolean), choice=Prim(d_choice), start_span=Prim(nothing), stop_span=Prim(nothing), mark_invalid=Prim(stop), mark_overrun=Prim(stop))


def install(G):
    G.cls("Random", methods=RANDOM)
    G.cls("Data", methods=DATA)
    G.trusted.append("random.Random: random() in [0, 1), getrandbits(n) in [0, 2**n), randint inclusive, choice an element, randbytes(n) of length n")
    G.trusted.append("ConjectureData as seen by its callers: a drawn integer lies in the bounds, a boolean is possible under p, a forced value is what comes back, mark_* raise StopTest (the subject of C06 and C07)")
