"""C21: the containers against list models under random operation sequences."""
from pyvc.runtime import RT
from hypothesis.internal.conjecture import junkdrawer as J

BIG = [0, 1, 2, 5, 127, 128, 255, 256, 257, 65535, 65536, 2**31, 2**32 - 1, 2**32, 2**63, 2**64 - 1, 2**64, 2**64 + 1, 2**70]


def rint(rng):
    k = rng.random()
    if k < 0.5:
        return rng.randint(0, 4)
    return rng.choice(BIG) if k < 0.9 else rng.getrandbits(rng.randint(1, 80))


def outcome(f):
    try:
        return ("ok", f())
    except (IndexError, ValueError) as e:
        return ("exc", type(e).__name__)


def g_intlist(rng):
    init = [rint(rng) for _ in range(rng.randint(0, 6))]
    if rng.random() < 0.6:
        init = [x % 256 for x in init]
    ops = []
    for _ in range(rng.randint(1, 14)):
        o = rng.choice(["append", "set", "insert", "del", "delslice", "extend", "get", "slice", "count", "eq", "contains", "index", "rev", "pop?"])
        i = rng.randint(-8, 8)
        ops.append((o, i, rng.randint(-8, 8), rint(rng), [rint(rng) for _ in range(rng.randint(0, 3))], rng.choice([None, None, 1, 2, -1, -2])))
    return init, ops, rng.random() < 0.2


def p_intlist(a):
    init, ops, oflen = a
    if oflen:
        init = [0] * len(init)
        x = J.IntList.of_length(len(init))
    else:
        x = J.IntList(init)
    src = list(init)
    m = list(init)
    for o, i, j, v, vs, st in ops:
        if o == "append":
            r = (outcome(lambda: x.append(v)), outcome(lambda: m.append(v)))
        elif o == "set":
            def seti(t):
                t[i] = v
            r = (outcome(lambda: seti(x)), outcome(lambda: seti(m)))
        elif o == "insert":
            if v >= 256 and max(m, default=0) < 256 or True:
                # insert does not upgrade the storage: only values that fit are used (as its callers do)
                v2 = min(v, max(m, default=0), 255)
                r = (outcome(lambda: x.insert(i, v2)), outcome(lambda: m.insert(i, v2)))
        elif o == "del":
            def deli(t):
                del t[i]
            r = (outcome(lambda: deli(x)), outcome(lambda: deli(m)))
        elif o == "delslice":
            def dels(t):
                del t[i:j]
            r = (outcome(lambda: dels(x)), outcome(lambda: dels(m)))
        elif o == "extend":
            r = (outcome(lambda: x.extend(vs)), outcome(lambda: m.extend(vs)))
        elif o == "get":
            r = (outcome(lambda: x[i]), outcome(lambda: m[i]))
        elif o == "slice":
            r = (outcome(lambda: list(x[i:j:st])), outcome(lambda: m[i:j:st]))
        elif o == "count":
            r = (x.count(v), m.count(v))
        elif o == "eq":
            other = m if i > 0 else m + [0]
            r = ((x == J.IntList(other), x != J.IntList(other)), (m == other, m != other))
        elif o == "contains":
            r = (v in x, v in m)
        elif o == "index":
            r = (outcome(lambda: x.index(v)), outcome(lambda: m.index(v)))
        elif o == "rev":
            r = (list(reversed(x)), m[::-1])
        else:
            continue
        if r[0] != r[1]:
            return f"{o}({i},{j},{v},{vs},{st}): {r[0]!r}, a list gives {r[1]!r}"
        if list(x) != m or len(x) != len(m):
            return f"after {o}: {list(x)!r}, a list is {m!r}"
    if src != init:
        return "the argument was changed"


def g_bad(rng):
    vs = [rint(rng) for _ in range(rng.randint(0, 4))]
    vs.insert(rng.randint(0, len(vs)), rng.choice([-1, -2**40, -128, 1.5, "a"]))
    return vs


def p_bad(vs):
    try:
        x = J.IntList(vs)
    except (ValueError, TypeError):
        return
    return f"IntList({vs}) accepted: {x!r}"


def g_lazy(rng):
    n = rng.randint(0, 7)
    vals = [rng.choice([None, 0, 1, 2, "x", False, i, i]) for i in range(n)]
    ops = [(rng.choice(["get", "set", "pop", "pop", "poplast", "swap", "iter", "nest"]), rng.randint(-8, 8), rng.randint(-8, 8), rng.choice([None, 0, 5, "y", ""])) for _ in range(rng.randint(1, 16))]
    return vals, ops


def p_lazy(a):
    vals, ops = a
    src = tuple(vals)
    under = list(vals)
    x = J.LazySequenceCopy(under)
    m = list(vals)
    for o, i, j, v in ops:
        if o == "get":
            r = (outcome(lambda: x[i]), outcome(lambda: m[i]))
        elif o == "set":
            def s(t):
                t[i] = v
            r = (outcome(lambda: s(x)), outcome(lambda: s(m)))
        elif o == "pop":
            r = (outcome(lambda: x.pop(i)), outcome(lambda: m.pop(i)))
        elif o == "poplast":
            r = (outcome(lambda: x.pop()), outcome(lambda: m.pop()))
        elif o == "swap":
            def sw(t):
                t[i], t[j] = t[j], t[i]
            if not (-len(m) <= i < len(m) and -len(m) <= j < len(m)):
                continue
            r = (outcome(lambda: x.swap(i, j)), outcome(lambda: sw(m)))
        elif o == "nest":
            # a lazy copy of the lazy copy, modified, must leave it alone
            y = J.LazySequenceCopy(x)
            if len(m):
                y[0] = "changed"
                y.pop()
            r = (0, 0)
        else:
            r = (list(x), list(m))
        if r[0] != r[1] or type(r[0][1] if r[0] and isinstance(r[0], tuple) else 0) != type(r[1][1] if r[1] and isinstance(r[1], tuple) else 0):
            return f"{o}({i},{j},{v!r}): {r[0]!r}, a list gives {r[1]!r}"
        if list(x) != m or len(x) != len(m) or [x[k] for k in range(-len(m), 0)] != m:
            return f"after {o}({i},{j},{v!r}): {list(x)!r}, a list is {m!r}"
        if tuple(under) != src:
            return f"{o} changed the sequence copied: {under!r}"


def g_self(rng):
    return [rng.randint(0, 6) for _ in range(rng.randint(0, 6))], [(rng.choice("faf"), rng.randint(0, 6), rng.randint(1, 4)) for _ in range(rng.randint(1, 10))]


def p_self(a):
    init, ops = a
    src = list(init)
    x = J.SelfOrganisingList(init)
    m = list(init)
    for o, v, d in ops:
        if o == "a":
            x.add(v)
            m.append(v)
            continue
        asked = []
        cond = lambda t: (asked.append(t), t % d == v % d)[1]
        try:
            r = x.find(cond)
        except J.NotFound:
            if any(t % d == v % d for t in m):
                return f"NotFound but {m} has one"
            if sorted(asked) != sorted(m):
                return f"asked {asked} of {m}"
            continue
        want = next((t for t in reversed(m) if t % d == v % d), None)
        if r != want:
            return f"found {r}, expected {want} in {m}"
        k = len(m) - 1 - m[::-1].index(want)
        m.append(m.pop(k))
        got = []
        try:
            x.find(lambda t: (got.append(t), False)[1])
        except J.NotFound:
            pass
        if got[::-1] != m:
            return f"order {got[::-1]}, expected {m}"
    if init != src:
        return "the argument was changed"


def g_repl(rng):
    n = rng.randint(0, 9)
    ls = list(range(100, 100 + n))
    cuts = sorted(rng.randint(0, n) for _ in range(2 * rng.randint(0, 3)))
    reps = [(cuts[2 * k], cuts[2 * k + 1], [rng.randint(0, 9) for _ in range(rng.randint(0, 4))]) for k in range(len(cuts) // 2)]
    return ls, reps


def p_repl(a):
    ls, reps = a
    want = list(ls)
    for u, v, r in reversed(reps):
        want[u:v] = r
    src = list(ls)
    got = J.replace_all(ls, reps)
    if list(got) != want:
        return f"{got}, expected {want}"
    if ls != src:
        return "the argument was changed"
    if got is ls:
        return "the argument itself was returned"


def g_fi(rng):
    n = rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 100, 1000]) if rng.random() < 0.7 else rng.randint(0, 200)
    return n, frozenset(rng.randint(0, 400) for _ in range(rng.randint(0, 12))), rng.randint(-50, 50), rng.randint(1, 300), rng.random() < 0.5


def p_fi(a):
    n, extra, lo, w, flip = a
    if J.find_integer(lambda k: k <= n) != n:
        return f"find_integer(k <= {n}) == {J.find_integer(lambda k: k <= n)}"
    f = lambda k: k == 0 or (k <= n or k in extra) and k < 500
    r = J.find_integer(f)
    if not f(r) or f(r + 1):
        return f"find_integer: {r} is no boundary"
    hi = lo + w
    f = lambda k: (((k <= lo + n % w) or (k in extra and lo < k < hi)) and k != hi) != flip
    r = J.binary_search(lo, hi, f)
    if not (lo <= r < hi) or f(r) != f(lo) or f(r + 1) == f(lo):
        return f"binary_search({lo},{hi}) == {r}"


def g_se(rng):
    a = [rng.randint(0, 1) for _ in range(rng.randint(0, 5))]
    b = [rng.randint(0, 1) for _ in range(rng.randint(0, 5))]
    if rng.random() < .5:
        k = rng.randint(0, len(a))
        b = a[:k] if rng.random() < .5 else a[k:]
    return a, b


def p_se(t):
    a, b = t
    if bool(J.startswith(a, b)) != (a[:len(b)] == b):
        return f"startswith({a},{b})"
    if bool(J.endswith(a, b)) != (len(b) <= len(a) and a[len(a) - len(b):] == b):
        return f"endswith({a},{b})"


def g_misc(rng):
    return rng.randint(0, 5000), [rng.choice([1, 2, 3, "a", (1,), 2.0]) for _ in range(rng.randint(0, 7))]


def p_misc(t):
    n, xs = t
    if J.bits_to_bytes(n) != -(-n // 8):
        return f"bits_to_bytes({n})"


CHECKS = [RT("intlist", g_intlist, p_intlist, n=6000), RT("intlist-refuses", g_bad, p_bad, n=500), RT("lazy-copy", g_lazy, p_lazy, n=8000), RT("self-organising", g_self, p_self, n=3000),
          RT("replace_all", g_repl, p_repl, n=3000), RT("searches", g_fi, p_fi, n=4000), RT("startswith", g_se, p_se, n=1500), RT("misc", g_misc, p_misc, n=1000)]
