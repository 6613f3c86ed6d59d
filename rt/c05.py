"""C05: choice sequences through the stored form, the database and the failure blob."""
import base64
import itertools
import math
import random
import zlib
from pyvc.runtime import RT
from rt.fl import rfloat, bits, unbits
from hypothesis import database as D
from hypothesis import core as K
from hypothesis.errors import InvalidArgument

SIZES = [0, 1, 2, 7, 29, 30, 31, 32, 33, 126, 127, 128, 129, 255, 256, 16383, 16384, 16385]


def rsize(rng):
    k = rng.random()
    return rng.randint(0, 6) if k < .5 else rng.choice(SIZES[:14]) if k < .93 else rng.choice(SIZES) if k < .9995 else rng.choice([2097151, 2097152])


def rint(rng):
    k = rng.random()
    if k < .2:
        return rng.randint(-300, 300)
    if k < .7:
        b = rng.choice([7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 239, 240, 247, 248, 255, 256, rng.randint(1, 300)])
        return rng.choice([1, -1]) * ((1 << b) + rng.randint(-2, 2))
    return rng.choice([1, -1]) * rng.getrandbits(rng.choice([8, 60, 200, 1000, 1016, 1015, 2100]))


CH = [0, 1, 0x41, 0x7F, 0x80, 0xFF, 0x7FF, 0x800, 0xD7FF, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xE000, 0xFFFF, 0x10000, 0x10FFFF]


def rstr(rng):
    n = rsize(rng)
    if n > 200:
        return rng.choice(["a", "\u0800", "\ud800", "\U00010000"]) * (n // rng.choice([1, 1, 2, 3]))
    return "".join(chr(rng.choice(CH)) for _ in range(n))


def choice(rng):
    k = rng.randint(0, 9)
    if k < 2:
        return rng.random() < .5
    if k < 4:
        return rint(rng)
    if k < 6:
        return rfloat(rng)
    if k < 8:
        n = rsize(rng)
        return random.Random(rng.random()).randbytes(n) if rng.random() < .7 else bytes([rng.choice([0, 31, 0x5f, 255])]) * n
    return rstr(rng)


def g(rng):
    n = rng.choice([0, 1, 1, 2, 3, 5, 12, 40])
    return [choice(rng) for _ in range(n)]


def same(a, b):
    return len(a) == len(b) and all(type(x) is type(y) and (bits(x) == bits(y) if isinstance(x, float) else x == y) for x, y in zip(a, b))


def p_round(cs):
    b = D.choices_to_bytes(cs)
    if not isinstance(b, bytes):
        return f"not bytes: {type(b)}"
    r = D.choices_from_bytes(b)
    if r is None or not same(tuple(cs), r):
        return f"{cs!r:.300} reads back as {r!r:.300}"
    if D.choices_to_bytes(iter(cs)) != b:
        return "an iterator of the choices is serialised differently"
    blob = K.encode_failure(cs)
    if not same(tuple(cs), tuple(K.decode_failure(blob))):
        return f"blob of {cs!r:.300} decodes to {K.decode_failure(blob)!r:.300}"
    if not same(tuple(cs), tuple(K.decode_failure(base64.b64encode(b"\0" + b)))) or not same(tuple(cs), tuple(K.decode_failure(base64.b64encode(b"\1" + zlib.compress(b))))):
        return "a blob in the other storage form is not decoded"


def p_inj(t):
    a, b = t
    if not same(a, b) and D.choices_to_bytes(a) == D.choices_to_bytes(b):
        return f"{a!r:.200} and {b!r:.200} have one serialisation"


def g_inj(rng):
    a = g(rng)[:4]
    b = list(a)
    k = rng.random()
    if k < .4 or not b:
        b.insert(rng.randint(0, len(b)), choice(rng))
    elif k < .7:
        i = rng.randrange(len(b))
        b[i] = {bool: int, int: lambda v: v == 1 if v in (0, 1) else v + 1, float: lambda f: unbits(bits(f) ^ 1), bytes: lambda x: x.decode("latin1"), str: lambda x: x.encode("utf-8", "surrogatepass")}[type(b[i])](b[i])
    else:
        b = g(rng)[:4]
    return a, b


def g_junk(rng):
    if rng.random() < .5:
        b = bytearray(D.choices_to_bytes(g(rng)[:4])[:200])
        for _ in range(rng.randint(1, 3)):
            k = rng.randint(0, 3)
            if not b or k == 0:
                b.insert(rng.randint(0, len(b)), rng.getrandbits(8))
            elif k == 1:
                b[rng.randrange(len(b))] ^= 1 << rng.randrange(8)
            elif k == 2:
                del b[rng.randrange(len(b)):]
            else:
                del b[rng.randrange(len(b))]
        return bytes(b)
    return rng.randbytes(rng.randint(0, 12))


def p_junk(b):
    r = D.choices_from_bytes(b)
    if r is not None and not (isinstance(r, tuple) and all(type(x) in (bool, int, float, bytes, str) for x in r)):
        return f"{b!r} read as {r!r}"
    for blob in (base64.b64encode(b), base64.b64encode(b"\0" + b), base64.b64encode(b"\1" + b), b, base64.b64encode(b"\1" + zlib.compress(b))):
        try:
            q = K.decode_failure(blob)
        except InvalidArgument:
            continue
        if not all(type(x) in (bool, int, float, bytes, str) for x in q):
            return f"blob {blob!r} decodes to {q!r}"


def p_leb(a):
    n, tail = a
    b = D._pack_uleb128(n)
    i, v = D._unpack_uleb128(b + tail)
    if (i, v) != (len(b), n):
        return f"uleb128 of {n}: {b!r} then {tail!r} reads {(i, v)}"
    ref, m = bytearray(), n
    while True:
        ref.append((m & 127) | (128 if m > 127 else 0))
        m >>= 7
        if not m:
            break
    if b != bytes(ref):
        return f"uleb128 of {n}: {b!r}"


def g_leb(rng):
    k = rng.randint(0, 70)
    return max(0, (1 << k) + rng.randint(-1, 1)) if rng.random() < .6 else rng.getrandbits(rng.randint(1, 90)), rng.randbytes(rng.randint(0, 3))


def p_db(cs):
    db = D.InMemoryExampleDatabase()
    b = D.choices_to_bytes(cs)
    db.save(b"k", b)
    got = [D.choices_from_bytes(v) for v in db.fetch(b"k")]
    if len(got) != 1 or got[0] is None or not same(tuple(cs), got[0]):
        return f"{cs!r:.300} from the database: {got!r:.300}"


SMALL = [False, True, 0, 1, -1, 127, 128, -128, -129, 255, 32767, -32768, 0.0, -0.0, math.inf, math.nan, unbits(0xFFF8000000000001), b"", b"\0", "", "\0", "\udc80", "a" * 30, "a" * 31, b"b" * 30, b"b" * 31, b"b" * 32,
         1 << 239, 1 << 247, -(1 << 247), -(1 << 247) - 1, 1 << 8000]
CHECKS = [RT("roundtrip", g, p_round, n=5000, cases=[[x] for x in SMALL] + [list(t) for t in itertools.product(SMALL, SMALL)], rule="seeded random sequences, sizes around the 5-bit and 7-bit length boundaries"),
          RT("injective", g_inj, p_inj, n=3000), RT("junk", g_junk, p_junk, n=6000), RT("uleb128", g_leb, p_leb, n=5000), RT("database", g, p_db, n=500)]
