"""C04: character queries against a direct scan of all code points."""
import codecs
import functools
import sys
import unicodedata
import warnings
from pyvc.runtime import RT
from hypothesis import strategies as st
from hypothesis.errors import InvalidArgument
from hypothesis.internal import charmap
from hypothesis.internal.intervalsets import IntervalSet
from hypothesis.strategies._internal.strings import OneCharStringStrategy
from hypothesis.strategies._internal.lazy import unwrap_strategies

N = sys.maxunicode + 1


@functools.lru_cache(None)
def cats():
    "category -> bit mask over all code points"
    runs = {}
    last, start = unicodedata.category(chr(0)), 0
    for i in range(1, N + 1):
        c = unicodedata.category(chr(i)) if i < N else None
        if c != last:
            runs.setdefault(last, []).append((start, i))
            last, start = c, i
    return {c: mask(v) for c, v in runs.items()}


def mask(runs):
    m = bytearray(N)
    for a, b in runs:
        m[a:b] = b"\1" * (b - a)
    return int.from_bytes(m, "little")


@functools.lru_cache(None)
def codec_mask(name):
    m = bytearray(N)
    for i in range(N):
        try:
            chr(i).encode(name)
            m[i] = 1
        except Exception:
            pass
    return int.from_bytes(m, "little")


@functools.lru_cache(500)
def rng_mask(lo, hi):
    return mask([(lo, hi + 1)]) if lo <= hi else 0


def of(intervals):
    "mask of an interval tuple, or a message when it is not in normal form"
    last = -2
    for u, v in intervals:
        if not (0 <= u <= v < N) or u <= last + 1:
            return f"not sorted, disjoint and separated: {str(intervals)[:200]}"
        last = v
    return mask([(u, v + 1) for u, v in intervals])


ALL = sorted(cats())
MAJOR = "LMNPSZC"


def expected(lo, hi, cs, inc, exc, codec=None):
    lo = 0 if lo is None else lo
    hi = N - 1 if hi is None else hi
    if cs is None:
        m = mask([(0, N)])
    else:
        m = 0
        for c in cs:
            for k in ALL:
                if k == c or (c in MAJOR and k[0] == c):
                    m |= cats()[k]
    m &= rng_mask(lo, hi)
    for c in inc:
        m |= 1 << (8 * ord(c))
    for c in exc:
        m &= ~(1 << (8 * ord(c)))
    if codec:
        m &= codec_mask(codec)
    return m


def say(got, want):
    d = got ^ want
    n = (d & -d).bit_length() // 8 if d else 0
    return f"U+{n:04X} is {'included' if got >> (8 * n) & 1 else 'left out'} ({bin(d).count('1')} code points differ)"


PTS = [0, 1, 31, 47, 48, 57, 58, 64, 65, 90, 97, 122, 126, 127, 128, 255, 256, 0x37a, 0x2028, 0xd7ff, 0xd800, 0xdfff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x1f600, N - 2, N - 1]


def pt(rng):
    return rng.choice([rng.choice(PTS), rng.choice(PTS), rng.randrange(N), rng.randrange(400)])


def query_args(rng, public=False):
    lo = rng.choice([None, None, pt(rng)])
    hi = rng.choice([None, None, pt(rng)])
    if lo is not None and hi is not None and lo > hi and (public or rng.random() < .8):
        lo, hi = hi, lo
    names = ALL + (list(MAJOR) if public else [])
    cs = rng.choice([None, (), tuple(rng.sample(ALL, rng.randint(1, 4))), tuple(rng.sample(names, rng.randint(1, 3))), tuple(ALL), tuple(x for x in ALL if x != rng.choice(ALL)), tuple(x for x in ALL if x != "Cs")])
    inc = "".join(chr(pt(rng)) for _ in range(rng.choice([0, 0, 1, 2, 4])))
    exc = "".join(chr(pt(rng)) for _ in range(rng.choice([0, 0, 1, 2, 4])))
    if inc and rng.random() < .4:
        k = ord(rng.choice(inc))
        inc += "".join(chr(min(N - 1, k + j)) for j in range(rng.randint(1, 3)))
    return lo, hi, cs, inc, exc


def g_query(rng):
    base = [query_args(rng) for _ in range(4)]
    out = []
    for _ in range(6):
        q = list(rng.choice(base))
        for j in range(5):
            if rng.random() < .35:
                q[j] = rng.choice(base)[j]
        if q[2] is not None and rng.random() < .3:
            q[2] = tuple(rng.sample(q[2], len(q[2])))
        out.append(tuple(q))
    return out, rng.random() < .3


def p_query(a):
    qs, fresh = a
    if fresh:
        charmap.limited_category_index_cache.clear()
        charmap.category_index_cache.clear()
        charmap.category_index_cache[frozenset()] = ()
    for lo, hi, cs, inc, exc in qs:
        r = charmap.query(min_codepoint=lo, max_codepoint=hi, categories=cs, include_characters=inc, exclude_characters=exc)
        got = of(r.intervals)
        what = f"query({lo}, {hi}, {cs}, +{inc!r}, -{exc!r})"
        if isinstance(got, str):
            return f"{what}: {got}"
        want = expected(lo, hi, cs, inc, exc)
        if got != want:
            return f"{what}: {say(got, want)}"
        if len(r) != bin(want).count("1"):
            return f"{what}: size {len(r)}, but {bin(want).count('1')} characters"


def g_chars(rng):
    qs = []
    for _ in range(2):
        lo, hi, cs, inc, exc = query_args(rng, public=True)
        exc = "".join(c for c in exc if c not in inc)
        neg = cs is not None and rng.random() < .4
        codec = rng.choice([None, None, "ascii", "utf-8", "latin-1", "cp1252", "utf-16", "us-ascii", "UTF8", "iso-8859-15", "shift_jis"])
        if codec and rng.random() < .7:
            inc = "".join(c for c in inc if ord(c) < 128)
        qs.append((lo, hi, cs, neg, inc, exc, codec))
    return qs


def p_chars(qs):
    for lo, hi, cs, neg, inc, exc, codec in qs:
        kw = {}
        for k, v in (("min_codepoint", lo), ("max_codepoint", hi), ("codec", codec), ("include_characters", inc or None), ("exclude_characters", exc or None)):
            if v is not None:
                kw[k] = v
        if cs is not None:
            kw["exclude_categories" if neg else "categories"] = cs
        full = cs
        if neg:
            full = [k for k in ALL if not any(k == c or (c in MAJOR and k[0] == c) for c in cs)]
        name = codecs.lookup(codec).name if codec else None
        refuse = None
        if name and any(not (codec_mask(name) >> (8 * ord(c)) & 1) for c in inc):
            refuse = "included characters outside the codec"
        elif cs is not None and not neg and not cs and not inc:
            refuse = "nothing asked for"
        elif lo is None and hi is None and cs is None and inc and codec is None:
            refuse = "include_characters alone"
        want = expected(lo, hi, full, inc, exc, name)
        if not want:
            refuse = refuse or "empty"
        try:
            s = unwrap_strategies(st.characters(**kw))
            s.validate()
        except InvalidArgument as e:
            if refuse:
                continue
            return f"characters({kw}) refused: {e}"
        if refuse:
            return f"characters({kw}) accepted: {refuse}"
        got = of(s.intervals.intervals)
        if isinstance(got, str):
            return f"characters({kw}): {got}"
        if got != want:
            return f"characters({kw}): {say(got, want)}"


def g_alpha(rng):
    parts = []
    for _ in range(rng.randint(1, 3)):
        if rng.random() < .5:
            parts.append(("s", "".join(sorted({chr(pt(rng)) for _ in range(rng.randint(1, 6))}))))
        else:
            a = pt(rng)
            parts.append(("c", a, min(N - 1, a + rng.choice([0, 1, 30, 3000]))))
    return parts, rng.random() < .5


def p_alpha(a):
    parts, shuffle = a
    ss = [st.sampled_from(list(x[1])) if x[0] == "s" else st.characters(min_codepoint=x[1], max_codepoint=x[2]) for x in parts]
    if shuffle:
        ss = ss[::-1]
    want = set()
    for x in parts:
        want |= set(x[1]) if x[0] == "s" else {chr(c) for c in range(x[1], x[2] + 1)}
    elems = OneCharStringStrategy.from_alphabet(st.one_of(*ss) if len(ss) > 1 else ss[0])
    got = of(elems.intervals.intervals)
    if isinstance(got, str):
        return f"text({ss}): {got}"
    w = 0
    for c in want:
        w |= 1 << (8 * ord(c))
    if got != w:
        return f"text({ss}): {say(got, w)}"
    if len(parts) == 1 and parts[0][0] == "s":
        got = of(OneCharStringStrategy.from_alphabet(parts[0][1]).intervals.intervals)
        if got != w:
            return f"text({parts[0][1]!r}): {say(got, w)}"


def p_cats(cs):
    try:
        r = charmap.as_general_categories(cs)
    except InvalidArgument:
        return None if any(c not in ALL and c not in MAJOR for c in cs) else f"as_general_categories({cs}) refused"
    want = [k for k in charmap.categories() if any(k == c or (c in MAJOR and k[0] == c) for c in cs)]
    if any(c not in ALL and c not in MAJOR for c in cs) or list(r) != want:
        return f"as_general_categories({cs}) = {r}, expected {want}"


def p_table(_):
    "the table, computed afresh, read back from its file, and read from a damaged file"
    if sorted(charmap.categories()) != ALL:
        return f"categories() = {charmap.categories()}"
    f = charmap.charmap_file()
    for state in ("missing", "saved", "damaged", "resaved"):
        charmap._charmap = None
        if state == "missing" and f.exists():
            f.unlink()
        if state == "damaged" and f.exists():
            f.write_bytes(f.read_bytes()[:200])
        t = charmap.charmap()
        if set(t) != set(ALL):
            return f"{state}: categories {sorted(t)}"
        for k in ALL:
            got = of(t[k])
            if got != cats()[k]:
                return f"{state}: category {k}: {got if isinstance(got, str) else say(got, cats()[k])}"


CHECKS = [RT("query", g_query, p_query, n=150, cases=[([(None, None, None, "", "")], True), ([(200, 127, None, "a", "")], True)], budget=60), RT("characters", g_chars, p_chars, n=180, budget=60),
          RT("alphabets", g_alpha, p_alpha, n=150), RT("categories", lambda rng: rng.choice([tuple, list])(rng.sample(ALL + list(MAJOR) + ["Xx", "l"], rng.randint(0, 5))), p_cats, n=2000),
          RT("table", lambda rng: 0, p_table, n=2)]
