"""C11: caches against a dictionary with scores."""
import threading
from pyvc.runtime import RT
from hypothesis.internal.cache import GenericCache, LRUCache, LRUReusedCache


class Scored(GenericCache):
    "scores from a table; an access may change the score"
    def __init__(self, n, table, bump):
        super().__init__(n)
        self.table, self.bump, self.out = table, bump, []

    def new_entry(self, key, value):
        return self.table[key % len(self.table)]

    def on_access(self, key, value, score):
        return score + self.bump

    def on_evict(self, key, value, score):
        self.out.append((key, value, score))


class Reused(LRUReusedCache):
    def __init__(self, n):
        super().__init__(n)
        self.out = []

    def on_evict(self, key, value, score):
        self.out.append((key, value, score))


def g(rng):
    kind = rng.choice(["scored", "scored", "reused"])
    keys = rng.choice([3, 6, 12, 30])
    size = rng.choice([1, 2, 3, 5, 8, 16])
    table = [rng.randint(-4, 9) for _ in range(rng.randint(1, 9))]
    bump = rng.choice([0, 0, 1, -1, 3, -5])
    ops = []
    for _ in range(rng.choice([10, 40, 150])):
        ops.append((rng.choice(["set", "set", "set", "get", "get", "pin", "unpin", "has", "len", "ispinned", "iter"] + (["clear"] if rng.random() < .05 else [])), rng.randrange(keys), rng.randrange(100)))
    return kind, size, table, bump, ops


def p(a):
    kind, size, table, bump, ops = a
    c = Scored(size, table, bump) if kind == "scored" else Reused(size)
    model = {}      # key -> [value, score, pins]
    tick = [0]

    def new(k):
        tick[0] += 1
        return table[k % len(table)] if kind == "scored" else (1, tick[0])

    def access(k):
        tick[0] += 1
        model[k][1] = model[k][1] + bump if kind == "scored" else (2, tick[0])

    def write(k, v):
        "-> message or None; raises ValueError when everything is pinned"
        if k in model:
            c[k] = v
            model[k][0] = v
            access(k)
            return
        full = len(model) >= size
        free = [x for x in model if model[x][2] == 0]
        c.out = []
        if full and not free:
            tick[0] += 1
            try:
                c[k] = v
            except ValueError:
                return "full"
            return "a full cache of pinned keys accepted another key"
        s = new(k)
        c[k] = v
        if full:
            if len(c.out) != 1:
                return f"evictions reported: {c.out}"
            ek, ev, es = c.out[0]
            if ek not in model or model[ek][:2] != [ev, es]:
                return f"evicted {c.out[0]}, stored was {model.get(ek)}"
            if model[ek][2]:
                return f"evicted the pinned key {ek}"
            if es != min(model[x][1] for x in free):
                return f"evicted {ek} with score {es}, lowest was {min(model[x][1] for x in free)}"
            del model[ek]
        elif c.out:
            return f"evicted {c.out} below the limit"
        model[k] = [v, s, 0]
    for op, k, v in ops:
        if op == "set":
            m = write(k, v)
            if m and m != "full":
                return m
        elif op == "get":
            try:
                r = c[k]
            except KeyError:
                if k in model:
                    return f"lookup of stored key {k} failed"
            else:
                if k not in model or r != model[k][0]:
                    return f"lookup of {k} gave {r}, stored {model.get(k)}"
                access(k)
        elif op == "pin":
            full = k not in model and len(model) >= size and not [x for x in model if model[x][2] == 0]
            if full:
                tick[0] += 1
                try:
                    c.pin(k, v)
                except ValueError:
                    continue
                return "pinned a new key in a full cache"
            if k in model:
                c.pin(k, v)
                model[k][0] = v
                access(k)
            else:
                c.out = []
                s = new(k)
                evict = len(model) >= size
                low = min((model[x][1] for x in model if model[x][2] == 0), default=None)
                c.pin(k, v)
                if evict:
                    ek, ev, es = c.out[0]
                    if model[ek][2] or es != low or model[ek][:2] != [ev, es]:
                        return f"pin evicted {c.out[0]}; stored {model.get(ek)}, lowest score {low}"
                    del model[ek]
                model[k] = [v, s, 0]
            model[k][2] += 1
        elif op == "unpin":
            try:
                c.unpin(k)
            except KeyError:
                if k in model:
                    return "unpin of a stored key: KeyError"
            except ValueError:
                if k not in model or model[k][2]:
                    return "unpin of a pinned key: ValueError"
            else:
                if k not in model or not model[k][2]:
                    return "unpinned an unpinned key"
                model[k][2] -= 1
        elif op == "has":
            if (k in c) != (k in model):
                return f"membership of {k}: {k in c}"
        elif op == "len":
            if len(c) != len(model) or len(c) > size:
                return f"{len(c)} entries, model {len(model)}, limit {size}"
        elif op == "ispinned":
            if k in model and c.is_pinned(k) != (model[k][2] > 0):
                return f"is_pinned({k}) = {c.is_pinned(k)}"
        elif op == "iter":
            if sorted(c) != sorted(model):
                return f"keys {sorted(c)}, model {sorted(model)}"
        elif op == "clear":
            c.clear()
            model.clear()
        if len(c) > size or len(c) != len(model):
            return f"{len(c)} entries after {op}, model {len(model)}, limit {size}"
        c.check_valid()
    for k in sorted(model, key=lambda k: k):
        if k not in c or c[k] != model[k][0]:
            return f"at the end {k} is not {model[k][0]}"
        access(k)


def g_lru(rng):
    return rng.choice([1, 2, 3, 7]), [(rng.choice(["set", "set", "get", "iter"]), rng.randrange(9), rng.randrange(99)) for _ in range(rng.choice([10, 60]))], rng.random() < .1


def p_lru(a):
    size, ops, thread = a
    c = LRUCache(size)
    model = []          # pairs, least recently used first
    if thread:
        # another thread's use leaves this one's entries alone
        t = threading.Thread(target=lambda: [c.__setitem__(k, -1) for k in range(9)])
        c[0] = 5
        model.append((0, 5))
        t.start()
        t.join()
    for op, k, v in ops:
        if op == "set":
            c[k] = v
            model = [x for x in model if x[0] != k] + [(k, v)]
            model = model[-size:]
        elif op == "get":
            try:
                r = c[k]
            except KeyError:
                r = None
            w = dict(model).get(k)
            if r != w:
                return f"lookup of {k} gave {r}, expected {w}"
            if w is not None:
                model = [x for x in model if x[0] != k] + [(k, v if False else w)]
        elif list(c) != [x[0] for x in model]:
            return f"order {list(c)}, expected {[x[0] for x in model]}"
        if len(list(c)) > size:
            return f"{len(list(c))} entries, limit {size}"
    if {k: c[k] for k in list(c)} != dict(model):
        return f"contents {dict(model)} expected"


CHECKS = [RT("scored-caches", g, p, n=6000), RT("lru", g_lru, p_lru, n=4000)]
