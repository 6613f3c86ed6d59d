import math
import struct
FMT = {16: ("!e", "!H"), 32: ("!f", "!I"), 64: ("!d", "!Q")}


def bits(f, w=64):
    return struct.unpack(FMT[w][1], struct.pack(FMT[w][0], f))[0]


def unbits(b, w=64):
    return struct.unpack(FMT[w][0], struct.pack(FMT[w][1], b))[0]


def rank(f, w=64):
    "signed place of a non-NaN float of the width in the total order with -0.0 just below 0.0"
    b = bits(f, w)
    s = 1 << (w - 1)
    return b if b < s else -(b - s) - 1


def unrank(r, w=64):
    return unbits(r, w) if r >= 0 else unbits((-r - 1) | (1 << (w - 1)), w)


SPECIAL = [0.0, 5e-324, 1e-323, 2.2250738585072014e-308, 2.225073858507201e-308, 1e-10, 0.1, 0.3, 0.5, 1 / 3, 0.9999999999999999, 1.0, 1.0000000000000002, 1.5, 2.0, 3.0, 7.0, 255.0, 256.0, 2.0**24, 2.0**24 + 2, 2.0**52 + .5,
           2.0**53, 2.0**53 - 1, 2.0**53 + 2, 2.0**55, 2.0**56 - 8, 2.0**56, 2.0**56 + 16, 2.0**63, 2.0**64, 2.0**127, 3.4028234663852886e38, 65504.0, 6e-8, 6.1e-5, 1.1754943508222875e-38, 1e-45, 1e300, 1.7976931348623157e308, math.inf]


def rfloat(rng, nan=True):
    k = rng.random()
    if nan and k < 0.05:
        return unbits(0x7FF0000000000000 | rng.getrandbits(52) | (rng.getrandbits(1) << 63)) if rng.random() < 0.7 else math.nan
    if k < 0.35:
        f = rng.choice(SPECIAL)
    elif k < 0.5:
        f = float(rng.randint(0, 1000)) / rng.choice([1, 1, 2, 4, 3, 10])
    elif k < 0.6:
        f = float(rng.getrandbits(rng.randint(1, 60)))
    elif k < 0.7:
        f = math.ldexp(rng.getrandbits(53) | 1, rng.randint(-70, 10))
    elif k < 0.8:
        f = math.ldexp(1.0, rng.randint(-1074, 1023))
    else:
        while True:
            f = unbits(rng.getrandbits(63))
            if f == f:
                break
    r = rank(f)
    if rng.random() < 0.2:
        r = min(rank(math.inf), max(0, r + rng.randint(-2, 2)))
        f = unrank(r)
    return -f if rng.random() < 0.4 else f


def wfloat(rng, w, nan=False):
    "a float of the width"
    if rng.random() < 0.5:
        while True:
            b = rng.getrandbits(w) if rng.random() < 0.6 else (1 << rng.randrange(w)) - rng.randint(0, 1)
            f = unbits(b, w)
            if f == f:
                return f
    f = rfloat(rng, nan)
    try:
        return unbits(bits(f, w), w)
    except OverflowError:
        return math.copysign(math.inf, f)
