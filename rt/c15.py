"""C15: integers, floats, decimals, fractions, complex numbers: documented restrictions, refusals, attainable bounds."""
import cmath
import math
import struct
from decimal import Decimal, Context, localcontext
from fractions import Fraction
from pyvc.runtime import RT
from rt.draw import draw, redraw
from rt.fl import rank, unrank, bits, rfloat, wfloat
from hypothesis import strategies as st
from hypothesis.errors import InvalidArgument
from hypothesis.internal.conjecture.data import ConjectureData

NORMAL = {16: 2.0**-14, 32: 2.0**-126, 64: 2.0**-1022}
TINY = {16: 2.0**-24, 32: 2.0**-149, 64: 5e-324}


def same(a, b):
    return (a != a and b != b) or (a == b and math.copysign(1, a) == math.copysign(1, b))


def floatset(kw):
    """Documented meaning -> (error or None, (lo rank, hi rank), nan ok, inf ok, subnormal ok). Ranks at the given width."""
    w = kw.get("width", 64)
    lo, hi = kw.get("min_value"), kw.get("max_value")
    xlo, xhi = kw.get("exclude_min", False), kw.get("exclude_max", False)
    nan, inf, sub = kw.get("allow_nan"), kw.get("allow_infinity"), kw.get("allow_subnormal")
    for b in (lo, hi):
        if b is not None and b != b:
            return "nan bound", None, None, None, None
    if nan and (lo is not None or hi is not None):
        return "nan with bound", None, None, None, None
    for b in (lo, hi):
        if b is not None:
            try:
                if unrank(rank(b, w), w) != b:
                    return "not representable", None, None, None, None
            except (OverflowError, struct.error):
                return "not representable", None, None, None, None
    if xlo and (lo is None or lo == math.inf) or xhi and (hi is None or hi == -math.inf):
        return "cannot exclude", None, None, None, None
    nan = (lo is None and hi is None) if nan is None else nan
    rlo = rank(-math.inf if lo is None else lo, w)
    rhi = rank(math.inf if hi is None else hi, w)
    if xlo:
        rlo = 1 if lo == 0 else rlo + 1
    if xhi:
        rhi = -2 if hi == 0 else rhi - 1
    return None, (rlo, rhi), nan, inf, sub


def members(kw):
    err, r, nan, inf, sub = floatset(kw)
    if err:
        return err, None
    w = kw.get("width", 64)
    rlo, rhi = r
    rinf = rank(math.inf, w)
    if inf is False:
        rlo, rhi = max(rlo, -rinf), min(rhi, rinf - 1)     # rank(-inf) is -rinf - 1

    def ok(v):
        if v != v:
            return nan
        try:
            if unrank(rank(v, w), w) != v:
                return False
        except OverflowError:
            return False
        if sub is False and v != 0 and abs(v) < NORMAL[w]:
            return False
        return rlo <= rank(v, w) <= rhi or v == 0 and (rlo == 0 or rhi == -1)    # the sign of a zero equal to a bound is not specified
    nonempty = nan or rlo <= rhi and not (sub is False and (0 < rlo and rhi < rank(NORMAL[w], w) or rhi < -1 and rlo > rank(-NORMAL[w], w)))
    return (None if nonempty else "empty"), (ok, rlo, rhi, nan)


def g_floats(rng):
    w = rng.choice([16, 32, 64, 64])
    kw = {}
    if w != 64 or rng.random() < .3:
        kw["width"] = w

    def b():
        k = rng.random()
        if k < .35:
            return rng.choice([0.0, -0.0, math.inf, -math.inf, NORMAL[w], -NORMAL[w], unrank(rank(NORMAL[w], w) - 1, w), -unrank(rank(NORMAL[w], w) - 1, w), TINY[w], -TINY[w], 1.0, -1.0, unrank(rank(math.inf, w) - 1, w), -unrank(rank(math.inf, w) - 1, w), 2, 0, -3])
        if k < .95:
            return wfloat(rng, w)
        return rng.choice([0.1, 65520.0, 1e300, 3.5e38, math.nan, 10**400, 2**53 + 1])
    if rng.random() < .65:
        kw["min_value"] = b()
    if rng.random() < .65:
        kw["max_value"] = b()
    if len(kw) > 1 and "min_value" in kw and "max_value" in kw:
        lo, hi = kw["min_value"], kw["max_value"]
        if rng.random() < .3 and isinstance(lo, float) and lo == lo and abs(lo) <= 60000:
            r = rank(lo, w) + rng.randint(0, 3)
            hi = kw["max_value"] = unrank(r, w)
        if hi < lo and rng.random() < .85:
            kw["min_value"], kw["max_value"] = hi, lo
    for n, pr in (("exclude_min", .25), ("exclude_max", .25)):
        if rng.random() < pr and (("min_value" if n == "exclude_min" else "max_value") in kw or rng.random() < .1):
            kw[n] = True
    for n, pt, pf in (("allow_nan", .1, .3), ("allow_infinity", .1, .3), ("allow_subnormal", .1, .35)):
        k = rng.random()
        if k < pt:
            kw[n] = True
        elif k < pt + pf:
            kw[n] = False
    return kw, rng.getrandbits(32), rng.random() < .7


def p_floats(a):
    kw, seed, edge = a
    try:
        s = st.floats(**kw)
        s.validate()
        refused = None
    except (InvalidArgument, OverflowError) as e:
        refused = str(e)
    what = f"floats({kw})"
    if any(isinstance(kw.get(n), int) and abs(kw[n]) > 2**60 for n in ("min_value", "max_value")):
        return None if refused else f"{what} accepted"
    err, m = members(kw)
    if err:
        return None if refused else f"{what} accepted, but {err}"
    ok, rlo, rhi, nan = m
    w = kw.get("width", 64)
    if refused:
        lo, hi = kw.get("min_value"), kw.get("max_value")
        if kw.get("allow_infinity") and lo is not None and hi is not None:
            return None
        if kw.get("allow_subnormal") and (rlo >= rank(NORMAL[w], w) or rhi <= rank(-NORMAL[w], w)):
            return None
        if lo is not None and hi is not None and lo == hi == 0 and math.copysign(1, lo) > math.copysign(1, hi):
            return None
        return f"{what} refused: {refused}"
    for k in range(6):
        stt, v, data = draw(s, seed + k, edge)
        if stt == "ok" and not (type(v) is float and ok(v)):
            return f"{what} gave {v!r}"
    zero = 1 if rlo == 0 else 0
    for v in {bits(x, w): x for x in [unrank(rlo, w), unrank(rhi, w), unrank(min(rlo + 1, rhi), w), unrank(max(rlo, rhi - 1), w), unrank((rlo + rhi) // 2, w), 1.0, -1.0, TINY[w], -NORMAL[w], NORMAL[w], math.inf, -math.inf, 0.5] if rlo <= rhi}.values():
        if v == v and ok(v) and rlo <= rank(v, w) <= rhi and not (v == 0 and (v is None)):
            if v == 0 and math.copysign(1, v) < 0 and (kw.get("min_value") == 0):
                continue
            if v == 0 and math.copysign(1, v) > 0 and (kw.get("max_value") == 0):
                continue
            if abs(v) == math.inf and kw.get("allow_infinity") is None and kw.get("min_value") is not None and kw.get("max_value") is not None and abs(kw["min_value"]) != math.inf and abs(kw["max_value"]) != math.inf:
                continue
            stt, x, _ = draw(s, 0, data=ConjectureData.for_choices((v,)))
            if stt != "ok" or not same(x, v):
                return f"{what}: the choice {v!r} gives {x!r} ({stt})"
    if nan:
        stt, x, _ = draw(s, 0, data=ConjectureData.for_choices((math.nan,)))
        if stt != "ok" or x == x:
            return f"{what}: NaN is not generated"


def g_integers(rng):
    def b():
        k = rng.random()
        return None if k < .25 else rng.choice([0, 1, -1, 255, 2**64, -2**63, 10**400]) if k < .6 else rng.randint(-10**rng.randint(1, 30), 10**rng.randint(1, 30))
    lo, hi = b(), b()
    if lo is not None and rng.random() < .3:
        hi = lo + rng.randint(-1, 130)
    if rng.random() < .1 and lo is not None and abs(lo) < 2**50:
        lo = rng.choice([float(lo), Fraction(lo), lo + .5, math.nan, math.inf, Decimal(lo)])
    return lo, hi, rng.getrandbits(32), rng.random() < .7


def p_integers(a):
    lo, hi, seed, edge = a
    what = f"integers({lo!r}, {hi!r})"
    try:
        s = st.integers(lo, hi)
        s.validate()
    except (InvalidArgument, OverflowError):
        if (lo is None or isinstance(lo, (int, float, Fraction, Decimal)) and lo == lo and abs(lo) != math.inf and lo == int(lo)) and (lo is None or hi is None or lo <= hi):
            return f"{what} refused"
        return None
    if lo is not None and (lo != lo or abs(lo) == math.inf or lo != int(lo)) or (lo is not None and hi is not None and lo > hi):
        return f"{what} accepted"
    for k in range(6):
        stt, v, data = draw(s, seed + k, edge)
        if stt != "ok" or type(v) is not int or (lo is not None and v < lo) or (hi is not None and v > hi):
            return f"{what} gave {v!r} ({stt})"
    for v in (lo, hi, 0, 10**50, -10**50):
        if v is not None and (lo is None or v >= lo) and (hi is None or v <= hi):
            stt, x, _ = draw(s, 0, data=ConjectureData.for_choices((int(v),)))
            if lo is not None and hi is not None and hi - lo > 127:     # a size is drawn first or instead
                stt2, y, _ = draw(s, 0, data=ConjectureData.for_choices((0, int(v))))
                x = y if stt2 == "ok" and y == v else x
            if x != v:
                return f"{what}: the choices for {v} give {x!r} ({stt})"


def rdec(rng):
    k = rng.random()
    if k < .2:
        return Decimal(rng.choice(["0", "-0", "1", "-1", "0.5", "100", "1E+5", "1E-5", "0.1", "-0.0009765625"]))
    d = Decimal(rng.randint(-10**rng.randint(1, 12), 10**rng.randint(1, 12))).scaleb(-rng.randint(0, 12))
    if k < .5:
        return d
    if k < .6:
        return Decimal(1) / 2**rng.randint(1, 20)
    return Decimal(rng.randint(-1000, 1000)) / rng.choice([1, 2, 4, 8, 10, 16, 64, 100])


def g_decimals(rng):
    kw = {}
    if rng.random() < .7:
        kw["min_value"] = rdec(rng)
    if rng.random() < .7:
        kw["max_value"] = rdec(rng)
    if len(kw) == 2:
        if rng.random() < .3:
            kw["max_value"] = kw["min_value"] + abs(rdec(rng)) / 10**rng.randint(0, 12)
        if kw["max_value"] < kw["min_value"] and rng.random() < .9:
            kw["min_value"], kw["max_value"] = kw["max_value"], kw["min_value"]
    for n in list(kw):
        k = rng.random()
        if k < .1:
            kw[n] = str(kw[n])
        elif k < .15:
            kw[n] = rng.choice(["Infinity", "-Infinity", "NaN", "x"])
        elif k < .25:
            kw[n] = float(kw[n])
        elif k < .3:
            kw[n] = int(kw[n])
    if rng.random() < .5:
        kw["places"] = rng.choice([0, 1, 2, 3, 5, 10, 40])
    for n in ("allow_nan", "allow_infinity"):
        if rng.random() < .4:
            kw[n] = rng.random() < .4
    return kw, rng.choice([None, 1, 3]), rng.getrandbits(32), rng.random() < .7


def p_decimals(a):
    kw, prec, seed, edge = a
    with localcontext(Context(prec=prec or 28)):
        return p_decimals2(kw, seed, edge)


def p_decimals2(kw, seed, edge):
    what = f"decimals({kw})"
    nan, inf, places = kw.get("allow_nan"), kw.get("allow_infinity"), kw.get("places")
    bad = None
    b = []
    for n, sign in (("min_value", -1), ("max_value", 1)):
        v = kw.get(n)
        if v is not None:
            try:
                v = Decimal(v)
            except Exception:
                bad = "no number"
                v = None
        if v is not None and not v.is_finite():
            if v.is_infinite() and (v > 0) == (sign > 0) and inf is not False:
                v = None
            else:
                bad = "bad bound"
                v = None
        b.append(v)
    lo, hi = b
    flo, fhi = (None if x is None else Fraction(x) for x in b)
    if not bad and lo is not None and hi is not None:
        if lo > hi:
            bad = "empty"
        elif inf:
            bad = "infinity"
        elif places is not None and math.ceil(flo * 10**places) > math.floor(fhi * 10**places):
            bad = "no such decimal"
    try:
        s = st.decimals(**kw)
        s.validate()
        if bad:
            return f"{what} accepted ({bad})"
    except InvalidArgument as e:
        return None if bad else f"{what} refused: {e}"
    nan_ok = nan or (nan is None and (lo is None or hi is None))

    def check(v):
        if type(v) is not Decimal:
            return f"{what} gave {v!r}"
        if v.is_nan():
            return None if nan_ok else f"{what} gave {v!r}"
        if v.is_infinite():
            return None if inf is not False and (inf or (hi if v > 0 else lo) is None) else f"{what} gave {v!r}"
        if (flo is not None and Fraction(v) < flo) or (fhi is not None and Fraction(v) > fhi):
            return f"{what} gave {v!r}, out of bounds"
        if places is not None and v.as_tuple().exponent != -places:
            return f"{what} gave {v!r}, which has not {places} places"
    for k in range(8):
        stt, v, data = draw(s, seed + k, edge)
        if stt == "ok" and (r := check(v)):
            return r
    if places is not None and None not in (lo, hi) and not (nan_ok or inf or (inf is None and (lo is None or hi is None))):
        k0, k1 = math.ceil(flo * 10**places), math.floor(fhi * 10**places)
        for n in {k0, k1, (k0 + k1) // 2}:
            got = []
            for c in ((), (n,), (0, n), (n, 0)):
                stt, v, _ = draw(s, 0, data=ConjectureData.for_choices(c))
                if stt == "ok":
                    if (r := check(v)):
                        return r
                    got.append(Fraction(v))
            if Fraction(n, 10**places) not in got and k1 - k0 <= 127:
                return f"{what}: no choices give {n} / 10**{places}; got {got}"


def rfrac(rng):
    return Fraction(rng.randint(-10**rng.randint(1, 8), 10**rng.randint(1, 8)), rng.choice([1, 2, 3, 7, 10, 97, rng.randint(1, 10**5)]))


def g_fractions(rng):
    lo = rfrac(rng) if rng.random() < .7 else None
    hi = rfrac(rng) if rng.random() < .7 else None
    if lo is not None and hi is not None:
        if rng.random() < .4:
            hi = lo + abs(rfrac(rng)) / rng.choice([1, 1000, 10**6])
        if hi < lo and rng.random() < .9:
            lo, hi = hi, lo
    md = None
    if rng.random() < .6:
        md = max([rng.randint(0, 20)] + [x.denominator for x in (lo, hi) if x is not None and rng.random() < .9]) + rng.choice([0, 0, 1, 50])
    return lo, hi, md, rng.getrandbits(32), rng.random() < .6


def p_fractions(a):
    lo, hi, md, seed, edge = a
    what = f"fractions({lo}, {hi}, max_denominator={md})"
    bad = (lo is not None and hi is not None and lo > hi) or (md is not None and (md < 1 or any(x is not None and x.denominator > md for x in (lo, hi))))
    try:
        s = st.fractions(lo, hi, max_denominator=md)
        s.validate()
        if bad:
            return f"{what} accepted"
    except InvalidArgument as e:
        return None if bad else f"{what} refused: {e}"

    def check(v):
        if type(v) is not Fraction or (lo is not None and v < lo) or (hi is not None and v > hi) or (md is not None and v.denominator > md):
            return f"{what} gave {v!r}"
    for k in range(8):
        stt, v, data = draw(s, seed + k, edge)
        if stt == "ok" and (r := check(v)):
            return r


def g_complex(rng):
    kw = {}
    w = rng.choice([32, 64, 128, 128])
    if w != 128:
        kw["width"] = w
    c = w // 2
    def m():
        k = rng.random()
        if k < .5:
            return rng.choice([0, 0, 1, 1.0, 2, 1e-5, 1e-7, 0.1, 1e4, 3.0, NORMAL[c], TINY[c], 65504, 1e10, 7e4, 1e38, 1e300, math.inf])
        return abs(wfloat(rng, c))
    if rng.random() < .7:
        kw["min_magnitude"] = m()
    if rng.random() < .7:
        kw["max_magnitude"] = rng.choice([None, m(), m(), m()])
    if kw.get("max_magnitude") is not None and "min_magnitude" in kw:
        if rng.random() < .3:
            kw["max_magnitude"] = kw["min_magnitude"]
        if kw["max_magnitude"] < kw["min_magnitude"] and rng.random() < .95:
            kw["min_magnitude"], kw["max_magnitude"] = kw["max_magnitude"], kw["min_magnitude"]
    for n in ("allow_nan", "allow_infinity", "allow_subnormal"):
        if rng.random() < .3:
            kw[n] = rng.random() < .3
    return kw, rng.getrandbits(32), rng.random() < .6


def p_complex(a):
    kw, seed, edge = a
    what = f"complex_numbers({kw})"
    w = kw.get("width", 128) // 2
    lo, hi = kw.get("min_magnitude", 0), kw.get("max_magnitude")
    hi = None if hi == math.inf else hi
    nan, inf, sub = kw.get("allow_nan"), kw.get("allow_infinity"), kw.get("allow_subnormal", True)
    big = unrank(rank(math.inf, w) - 1, w)
    top = big * math.sqrt(2) if big < 1e300 else math.inf
    empty = lo > top and not (inf is not False and hi is None) or lo == math.inf and (inf is False or hi is not None)
    bad = (hi is not None and lo > hi) or (inf and hi is not None) or (nan and (lo != 0 or hi is not None))
    try:
        s = st.complex_numbers(**kw)
        s.validate()
        if bad:
            return f"{what} accepted"
    except InvalidArgument as e:
        return None if bad or empty or lo > big or (not sub and lo > 0 and hi is not None and hi <= NORMAL[w]) else f"{what} refused: {e}"
    nan_ok = nan or (nan is None and lo == 0 and hi is None)
    inf_ok = inf or (inf is None and hi is None)
    eps = {16: 2.0**-10, 32: 2.0**-23, 64: 2.0**-52}[w] * 4
    for k in range(8):
        try:
            stt, v, data = draw(s, seed + k, edge)
        except InvalidArgument:
            if empty or (not sub and lo < NORMAL[w]) or lo > big:
                return None
            raise
        if stt != "ok":
            continue
        if type(v) is not complex:
            return f"{what} gave {v!r}"
        for x in (v.real, v.imag):
            if x != x:
                if not nan_ok:
                    return f"{what} gave {v!r}"
            elif abs(x) == math.inf:
                if not inf_ok:
                    return f"{what} gave {v!r}"
            else:
                if abs(x) > big or unrank(rank(x, w), w) != x:
                    return f"{what} gave {v!r}, whose parts have not {w} bits"
                if not sub and x != 0 and abs(x) < NORMAL[w]:
                    return f"{what} gave {v!r}, which is subnormal"
        if cmath.isfinite(v):
            try:
                m = abs(v)
            except OverflowError:
                m = math.inf
            t = TINY[w] * 2
            if m < lo * (1 - eps) - t or (hi is not None and m > min(hi * (1 + eps), 1.7976931348623157e308 if hi < 1e308 else math.inf) + t):
                return f"{what} gave {v!r} of magnitude {m!r}"


CHECKS = [RT("floats", g_floats, p_floats, n=3000), RT("integers", g_integers, p_integers, n=700), RT("decimals", g_decimals, p_decimals, n=900), RT("fractions", g_fractions, p_fractions, n=450), RT("complex", g_complex, p_complex, n=1500)]
