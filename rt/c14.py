"""C14: example databases against dictionaries of sets."""
import errno
import os
import shutil
import tempfile
import zipfile
from datetime import datetime, timezone
from pathlib import Path
from pyvc.runtime import RT
import hypothesis.database as D

LEAVES = ["mem", "dir", "mem", "dir", "redis"]


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="c14-")
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


# a tree: ("mem"|"dir"|"redis", slot) | ("ro", t) | ("multi", [t...]) | ("bg", t)
def gtree(rng, depth=2):
    k = rng.random()
    if depth == 0 or k < .4:
        kind = rng.choice(LEAVES)
        return kind, rng.randrange(2)
    if k < .6:
        return "multi", [gtree(rng, depth - 1) for _ in range(rng.choice([1, 2, 2, 3]))]
    if k < .8:
        return "ro", gtree(rng, depth - 1)
    return "bg", gtree(rng, depth - 1)


KEYS = [b"", b"k", b"key2", b"\xff\x00", b"k.secondary", b"k.pareto", b"a" * 100]
VALUES = [b"", b"v", b"\x00", b"\xff" * 9, b"k", bytes(range(256)), b"x" * 5000]


def g(rng):
    t = gtree(rng)
    ops = [(rng.choice(["save", "save", "save", "delete", "move", "move", "fetch", "leaf", "reopen"]), rng.choice(KEYS[:rng.choice([2, 7])]), rng.choice(KEYS[:rng.choice([2, 7])]), rng.choice(VALUES[:rng.choice([3, 7])])) for _ in range(rng.choice([4, 12, 30]))]
    return t, ops


def build(t, slots, d):
    kind = t[0]
    if kind == "mem":
        return slots.setdefault(t, (D.InMemoryExampleDatabase(), {}))[0]
    if kind == "dir":
        slots.setdefault(t, (None, {}))
        return D.DirectoryBasedExampleDatabase(os.path.join(d, f"db{t[1]}", "examples"))
    if kind == "redis":
        import fakeredis
        from hypothesis.extra.redis import RedisExampleDatabase
        if t not in slots:
            slots[t] = (RedisExampleDatabase(fakeredis.FakeStrictRedis(server=fakeredis.FakeServer())), {})
        return slots[t][0]
    if kind == "ro":
        return D.ReadOnlyDatabase(build(t[1], slots, d))
    if kind == "bg":
        return D.BackgroundWriteDatabase(build(t[1], slots, d))
    return D.MultiplexedDatabase(*[build(x, slots, d) for x in t[1]])


def leaves(t, writable=True):
    if t[0] in ("mem", "dir", "redis"):
        yield t, writable
    elif t[0] == "ro":
        yield from leaves(t[1], False)
    elif t[0] == "bg":
        yield from leaves(t[1], writable)
    else:
        for x in t[1]:
            yield from leaves(x, writable)


def p(a):
    t, ops = a
    with Scratch() as d:
        slots = {}
        db = build(t, slots, d)
        for op, k1, k2, v in ops:
            if op == "reopen":
                list(db.fetch(k1))
                db = build(t, slots, d)
                continue
            if op == "leaf":       # someone else writes to a leaf directly
                list(db.fetch(k1))
                leaf = list(leaves(t))[0][0]
                build(leaf, slots, d).save(k1, v)
                slots[leaf][1].setdefault(k1, set()).add(v)
                continue
            if op == "save":
                db.save(k1, v)
            elif op == "delete":
                db.delete(k1, v)
            elif op == "move":
                db.move(k1, k2, v)
            if op != "fetch":
                for leaf, w in leaves(t):
                    if w:
                        m = slots[leaf][1]
                        if op in ("delete", "move"):
                            m.get(k1, set()).discard(v)
                        if op != "delete":
                            m.setdefault(k1 if op == "save" else k2, set()).add(v)
            for k in {k1, k2}:
                want = set().union(*(slots[leaf][1].get(k, set()) for leaf, _ in leaves(t)))
                got = list(db.fetch(k))
                if any(type(x) is not bytes for x in got) or len(got) != len(set(got)) or set(got) != want:
                    return f"{t}: after {op} {k1!r} {k2!r} {v!r}, fetch({k!r}) gives {sorted(got)!r:.200}, not {sorted(want)!r:.200}"
                for leaf, _ in leaves(t):
                    got = set(build(leaf, slots, d).fetch(k))
                    if got != slots[leaf][1].get(k, set()):
                        return f"{t}: after {op} {k1!r} {k2!r} {v!r}, {leaf} has {sorted(got)!r:.200} under {k!r}, not {sorted(slots[leaf][1].get(k, set()))!r:.200}"


# ---------------------------------------------------------------- listeners
def g_listen(rng):
    t = gtree(rng)
    while any(x[0] in ("dir", "redis") for x, _ in leaves(t)) or len({x for x, _ in leaves(t)}) != len(list(leaves(t))):
        t = gtree(rng)
    return t, [(rng.choice(["save", "save", "delete", "move"]), rng.choice(KEYS[:3]), rng.choice(KEYS[:3]), rng.choice(VALUES[:3])) for _ in range(12)]


def p_listen(a):
    t, ops = a
    slots, events = {}, []
    db = build(t, slots, None)
    db.add_listener(events.append)
    model = {leaf: {} for leaf, _ in leaves(t)}
    for op, k1, k2, v in ops:
        want = []
        for leaf, w in leaves(t):
            if not w:
                continue
            m = model[leaf]
            if op in ("delete", "move") and not (op == "move" and k1 == k2) and v in m.get(k1, ()):
                m[k1].discard(v)
                want.append(("delete", (k1, v)))
            if op != "delete":
                k = k1 if op == "save" else k2
                if v not in m.setdefault(k, set()):
                    m[k].add(v)
                    want.append(("save", (k, v)))
        del events[:]
        getattr(db, op)(*((k1, k2, v) if op == "move" else (k1, v)))
        list(db.fetch(k1))
        if sorted(events) != sorted(want):
            return f"{t}: {op} {k1!r} {k2!r} {v!r} told {events}, not {want}"
    db.remove_listener(events.append)
    del events[:]
    db.save(b"unseen", b"1")
    list(db.fetch(b"unseen"))
    if events:
        return f"a removed listener was told {events}"


# ---------------------------------------------------------------- directory across file systems, faults
def p_far(a):
    "the temporary directory is on another file system, or a rename or a write fails now and then"
    ops, fail_every = a
    with Scratch() as d:
        tmp = os.path.join(d, "tmp")
        os.mkdir(tmp)
        old, real = tempfile.tempdir, os.rename
        count = [0]

        def rename(src, dst, **kw):
            count[0] += 1
            far = os.path.dirname(os.fspath(src)) == tmp
            if far or (fail_every and count[0] % fail_every == 0 and not os.path.basename(os.fspath(src)).startswith("tmp")):
                raise OSError(errno.EXDEV, "simulated")
            return real(src, dst, **kw)
        tempfile.tempdir = tmp
        os.rename = rename
        try:
            db = D.DirectoryBasedExampleDatabase(os.path.join(d, "db"))
            model = {}
            for op, k1, k2, v in ops:
                getattr(db, op)(*((k1, k2, v) if op == "move" else (k1, v)))
                if op in ("delete", "move"):
                    model.get(k1, set()).discard(v)
                if op != "delete":
                    model.setdefault(k1 if op == "save" else k2, set()).add(v)
                for k in (k1, k2):
                    got = sorted(db.fetch(k))
                    if got != sorted(model.get(k, ())):
                        return f"renaming across directories is refused: after {op} {k1!r} {k2!r} {v!r}, {k!r} holds {got!r:.200}, not {sorted(model.get(k, ()))!r:.200}"
        finally:
            tempfile.tempdir, os.rename = old, real
        left = os.listdir(tmp)
        if left:
            return f"temporary files are left: {left}"


def g_far(rng):
    return [(rng.choice(["save", "save", "delete", "move"]), rng.choice(KEYS[:3]), rng.choice(KEYS[:3]), rng.choice(VALUES[:4])) for _ in range(10)], rng.choice([0, 0, 2, 3])


# ---------------------------------------------------------------- what one wrote another reads; artifacts
def p_artifact(a):
    entries, dirs, ops = a
    with Scratch() as d:
        src = D.DirectoryBasedExampleDatabase(os.path.join(d, "db"))
        model = {}
        for k, v in entries:
            src.save(k, v)
            model.setdefault(k, set()).add(v)
        art = os.path.join(d, "art")
        os.mkdir(art)
        name = datetime.now(timezone.utc).isoformat().replace(":", "_") + ".zip"
        with zipfile.ZipFile(os.path.join(art, name), "w") as z:
            root = Path(d) / "db"
            for f in sorted(root.rglob("*")):
                if f.is_file() or dirs:
                    z.write(f, f.relative_to(root))
        g = D.GitHubArtifactDatabase("test", "test", path=art)
        for k in KEYS:
            got = sorted(g.fetch(k))
            if got != sorted(model.get(k, ())):
                return f"artifact {'with' if dirs else 'without'} directory entries: fetch({k!r}) gives {got!r:.200}, not {sorted(model.get(k, ()))!r:.200}"
        before = os.listdir(art)
        ro = D.ReadOnlyDatabase(g)
        for op, k1, k2, v in ops:
            getattr(ro, op)(*((k1, k2, v) if op == "move" else (k1, v)))
            try:
                getattr(g, op)(*((k1, k2, v) if op == "move" else (k1, v)))
                return f"{op} on an artifact was accepted"
            except RuntimeError:
                pass
        if os.listdir(art) != before:
            return "the artifacts changed"


def g_artifact(rng):
    return [(rng.choice(KEYS), rng.choice(VALUES)) for _ in range(rng.randint(0, 9))], rng.random() < .5, [(rng.choice(["save", "delete", "move"]), rng.choice(KEYS), rng.choice(KEYS), rng.choice(VALUES)) for _ in range(3)]


CHECKS = [RT("operations", g, p, n=450, budget=40), RT("listeners", g_listen, p_listen, n=900), RT("renames-fail", g_far, p_far, n=400), RT("artifacts", g_artifact, p_artifact, n=150)]
