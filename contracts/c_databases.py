"""Contracts for hypothesis.database (C14): every database is a map from keys to sets of values, alone and composed; moving loses nothing."""
import z3
from pyvc.values import *
from pyvc.ctx import Group
from pyvc.engine import Loop, Obj, AND, NOT, OR, zint, zbool
from hypothesis import database as db

NN = dict(opts=dict(no_native=True))
DB = "hypothesis.database"
A = AnyT
AS = sort_of("Any")
G = Group(DB)
t = lambda ex, v: ex.force(v).t
# what a database holds, as a state: saving, deleting and moving lead to other states
has = z3.Function("db_has", z3.IntSort(), AS, AS, z3.BoolSort())
sv = z3.Function("db_saved", z3.IntSort(), AS, AS, z3.IntSort())
dl = z3.Function("db_deleted", z3.IntSort(), AS, AS, z3.IntSort())


def theory(ex, a=None, kw=None):
    s = z3.Int("s_db")
    k, v, k2, v2 = z3.Consts("k_db v_db k2_db v2_db", AS)
    same = z3.And(k == k2, v == v2)
    ex.pc.append(z3.ForAll([s, k, v, k2, v2], has(sv(s, k, v), k2, v2) == z3.Or(has(s, k2, v2), same), patterns=[has(sv(s, k, v), k2, v2)]))
    ex.pc.append(z3.ForAll([s, k, v, k2, v2], has(dl(s, k, v), k2, v2) == z3.And(has(s, k2, v2), z3.Not(same)), patterns=[has(dl(s, k, v), k2, v2)]))
    return True


TH = ["db_theory()"]
G.ns["db_theory"] = Prim(theory)

def p_has(ex, a, k):
    return has(zint(a[0]), t(ex, a[1]), t(ex, a[2]))


G.ns["has"] = Prim(p_has)


def op(f):
    def g(ex, a, k):
        ref = a[0]
        if isinstance(ref, SymRef):
            ex.hset(ref, "state", f(zint(ex.hget(ref, "state")), *[t(ex, x) for x in a[1:]]))
        else:
            ex.wr((ref.key, "state"), f(zint(ex.store[(ref.key, "state")]), *[t(ex, x) for x in a[1:]]))
    return Prim(g)


def contents(ex, state, key):
    "an iteration over the values under that key, each once"
    n = z3.Int(ex.fresh("values"))
    at, idx = z3.Function(ex.fresh("value"), z3.IntSort(), AS), z3.Function(ex.fresh("value_index"), AS, z3.IntSort())
    i, v = z3.Int("i_db"), z3.Const("v_db", AS)
    ex.pc.append(n >= 0)
    ex.pc.append(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(has(state, key, at(i)), idx(at(i)) == i)), patterns=[at(i)]))
    ex.pc.append(z3.ForAll([v], z3.Implies(has(state, key, v), z3.And(0 <= idx(v), idx(v) < n, at(idx(v)) == v)), patterns=[has(state, key, v)]))
    return Seq(n, lambda i: Opaque(at(zint(i)), "Any"), A, "list")


mvs = lambda s, src, dest, v: z3.If(src == dest, sv(s, src, v), sv(dl(s, src, v), dest, v))
METHODS = dict(save=op(sv), delete=op(dl), move=op(mvs), fetch=Prim(lambda ex, a, k: contents(ex, zint(ex.hget(a[0], "state") if isinstance(a[0], SymRef) else ex.store[(a[0].key, "state")]), t(ex, a[1]))))
G.cls("DB", heap=True, fields=dict(state=Int), methods=METHODS)
G.cls("OwnDB", real=db.ExampleDatabase, fields=dict(state=Int), methods=dict(save=op(sv), delete=op(dl)))
SAVED = lambda now, was, k="key", v="value": f"forall_t(AnyT, lambda k2: forall_t(AnyT, lambda v2: has({now}, k2, v2) == (has({was}, k2, v2) or (k2 == {k} and v2 == {v}))))"
DELETED = lambda now, was: f"forall_t(AnyT, lambda k2: forall_t(AnyT, lambda v2: has({now}, k2, v2) == (has({was}, k2, v2) and not (k2 == key and v2 == value))))"
MOVED = lambda now, was: f"forall_t(AnyT, lambda k2: forall_t(AnyT, lambda v2: has({now}, k2, v2) == ((k2 == dest and v2 == value) or (has({was}, k2, v2) and not (k2 == src and v2 == value)))))"
SAME = lambda now, was: f"forall_t(AnyT, lambda k2: forall_t(AnyT, lambda v2: has({now}, k2, v2) == has({was}, k2, v2)))"
G.fn("ExampleDatabase.move", dict(self=TObj("OwnDB"), src=A, dest=A, value=A), modifies=["self.state"], requires=TH, ensures=[("moved", MOVED("self.state", "old(self.state)"))], no_call=True, **NN)

# --- in memory: a dict of sets
M = Group(DB)
M.override(DB, "bytes", Prim(lambda ex, a, k: a[0]))


def values_of(ex, a, key):
    o = Obj(ex.alloc("values"), "Values")
    ex.store[(o.key, "of")], ex.store[(o.key, "k")] = a, key
    return o


def m_get(ex, a, k):
    "the set under that key if there is one, else the default"
    m = ex.rd(ex.store[(a[0].key, "keys")].key)
    if ex.branch(zbool(m.dom(a[1]))):
        return values_of(ex, a[0], a[1])
    return a[2] if len(a) > 2 else None


def m_setdefault(ex, a, k):
    c = ex.store[(a[0].key, "keys")]
    m = ex.rd(c.key)
    if not ex.branch(zbool(m.dom(a[1]))):
        d = ex.rd(a[2].key) if isinstance(a[2], MapCell) else None
        if d is None or d.size != 0:
            raise Unsupported("setdefault with something else")
        ex.map_set(c, a[1], None)
    return values_of(ex, a[0], a[1])


def inner(ex, o):
    return ex.store[(ex.store[(o.key, "of")].key, "entries")], ex.store[(o.key, "k")]


def v_in(ex, a, k):
    c, key = inner(ex, a[0])
    return ex.rd(c.key).dom((key, a[1]))


def v_add(ex, a, k):
    c, key = inner(ex, a[0])
    ex.map_set(c, (key, a[1]), None)


def v_discard(ex, a, k):
    c, key = inner(ex, a[0])
    if ex.branch(zbool(ex.rd(c.key).dom((key, a[1])))):
        ex.map_del(c, (key, a[1]))


def v_iter(ex, a, k):
    c, key = inner(ex, a[0])
    m = ex.rd(c.key)
    n = z3.Int(ex.fresh("values"))
    at, idx = z3.Function(ex.fresh("value"), z3.IntSort(), AS), z3.Function(ex.fresh("value_index"), AS, z3.IntSort())
    i, v = z3.Int("i_db"), z3.Const("v_db", AS)
    dom = lambda x: zbool(m.dom((key, Opaque(x, "Any"))))
    ex.pc.append(n >= 0)
    ex.pc.append(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(dom(at(i)), idx(at(i)) == i)), patterns=[at(i)]))
    ex.pc.append(z3.ForAll([v], z3.Implies(dom(v), z3.And(0 <= idx(v), idx(v) < n, at(idx(v)) == v)), patterns=[idx(v)]))
    return Seq(n, lambda i: Opaque(at(zint(i)), "Any"), A, "list")


def told(ex, a, k):
    ex.wr((a[0].key, "told"), zint(ex.store[(a[0].key, "told")]) + 1)
    kind, (key, value) = a[1]
    ex.oblige(f"{ex.contract.name}:announces-this-change", AND(ex.eq(key, ex.top_frame.vars["key"]), ex.eq(value, ex.old_vars["value"]), kind == ("save" if ex.contract.name.endswith("save") else "delete")), kind="post")


M.cls("Values", methods=dict(add=Prim(v_add), discard=Prim(v_discard), __contains__=Prim(v_in), __iter__=Prim(v_iter)))
M.cls("DictOfSets", fields=dict(keys=TMap(A, NoneT), entries=TMap(TTuple(A, A), NoneT)), methods=dict(get=Prim(m_get), setdefault=Prim(m_setdefault)))
M.cls("InMemory", real=db.InMemoryExampleDatabase, fields=dict(data=TObj("DictOfSets"), told=Int), methods=dict(_broadcast_change=Prim(told)))
IN = "(({k}, {v}) in self.data.entries)"
E2 = lambda body: f"forall_t(AnyT, lambda k2: forall_t(AnyT, lambda v2: {IN.format(k='k2', v='v2')} == ({body})))"
WF = ["forall_t(AnyT, lambda k2: forall_t(AnyT, lambda v2: implies((k2, v2) in self.data.entries, k2 in self.data.keys)))"]
KV = dict(self=TObj("InMemory"), key=A, value=A)
OLD = "old((k2, v2) in self.data.entries)"
M.fn("InMemoryExampleDatabase.save", KV, name="InMemory.save", requires=WF, modifies=["self.data.keys", "self.data.entries", "self.told"], no_call=True,
     ensures=[("added", E2(OLD + " or (k2 == key and v2 == value)")), ("wf", WF[0]), ("told-once-if-new", f"self.told == old(self.told) + (0 if old({IN.format(k='key', v='value')}) else 1)")], **NN)
M.fn("InMemoryExampleDatabase.delete", KV, name="InMemory.delete", requires=WF, modifies=["self.data.keys", "self.data.entries", "self.told"], no_call=True,
     ensures=[("removed", E2(OLD + " and not (k2 == key and v2 == value)")), ("wf", WF[0]), ("told-once-if-there", f"self.told == old(self.told) + (1 if old({IN.format(k='key', v='value')}) else 0)")], **NN)
M.fn("InMemoryExampleDatabase.fetch", dict(self=TObj("InMemory"), key=A), requires=WF, returns=TSeq(A, "list"), yields=A, no_call=True,
     ensures=[("exactly", f"forall_t(AnyT, lambda v: {IN.format(k='key', v='v')} == exists(0, len(result), lambda i: result[i] == v))"), ("each-once", "forall(0, len(result), lambda j: forall(0, j, lambda i: result[i] != result[j]))")], **NN)

# --- wrappers
W = Group(DB)
W.ns.update(G.ns)
W.cls("ReadOnly", real=db.ReadOnlyDatabase, fields=dict(_wrapped=TRef("DB")))
W.cls("Many", real=db.MultiplexedDatabase, fields=dict(_wrapped=TSeq(TRef("DB"), "tuple")))
FOUND = lambda st: f"forall_t(AnyT, lambda v: has({st}, key, v) == exists(0, len(result), lambda i: result[i] == v))"
ONCE = ("each-once", "forall(0, len(result), lambda j: forall(0, j, lambda i: result[i] != result[j]))")
RO = dict(self=TObj("ReadOnly"), key=A, value=A)
W.fn("ReadOnlyDatabase.fetch", dict(self=TObj("ReadOnly"), key=A), returns=TSeq(A, "list"), yields=A, no_call=True, ensures=[("exactly", FOUND("self._wrapped.state")), ONCE], **NN)
for m_, ps in (("save", RO), ("delete", RO), ("move", dict(self=TObj("ReadOnly"), src=A, dest=A, value=A))):
    W.fn(("ReadOnlyDatabase." if m_ != "move" else "ExampleDatabase.") + m_, ps, name=f"ReadOnly.{m_}", no_call=True, ensures=[("untouched", "self._wrapped.state == old(self._wrapped.state)")], modifies=[], **NN)
ALL = "self._wrapped[i].state"
for m_, ps, spec in (("save", ["key", "value"], SAVED), ("delete", ["key", "value"], DELETED), ("move", ["src", "dest", "value"], MOVED)):
    W.fn("MultiplexedDatabase." + m_, dict(self=TObj("Many"), **{p: A for p in ps}), no_call=True, modifies=["heap:DB:state"], requires=TH + ["forall(0, len(self._wrapped), lambda j: forall(0, j, lambda i: self._wrapped[i] is not self._wrapped[j]))"],
         loops=[Loop(inv=[f"forall(0, _i, lambda i: {spec(ALL, f'old({ALL})')})", f"forall(_i, len(self._wrapped), lambda i: {ALL} == old({ALL}))"])], ensures=[("every-one", f"forall(0, len(self._wrapped), lambda i: {spec(ALL, f'old({ALL})')})")], **NN)
SEEN = "forall_t(AnyT, lambda v: (v in seen) == exists(0, len(_yielded), lambda i: _yielded[i] == v))"
UNION = "exists(0, {n}, lambda d: has(self._wrapped[d].state, key, {v}))"
W.fn("MultiplexedDatabase.fetch", dict(self=TObj("Many"), key=A), returns=TSeq(A, "list"), yields=A, no_call=True,
     ensures=[("union", f"forall_t(AnyT, lambda v: {UNION.format(n='len(self._wrapped)', v='v')} == exists(0, len(result), lambda i: result[i] == v))"), ONCE],
     loops=[Loop(index="_o", types={"$map": TMap(A, NoneT)}, inv=[f"forall_t(AnyT, lambda v: (v in seen) == {UNION.format(n='_o', v='v')})", SEEN, ONCE[1].replace("result", "_yielded")]),
            Loop(types={"$map": TMap(A, NoneT)}, inv=[f"forall_t(AnyT, lambda v: (v in seen) == ({UNION.format(n='_o', v='v')} or exists(0, _i, lambda i: _seq[i] == v)))", SEEN, ONCE[1].replace("result", "_yielded")])], **NN)

# --- writes in the background: fetching sees every one asked for before
B = Group(DB)
B.ns.update(G.ns)


def q_put(ex, a, k):
    method, args = a[1]
    f = dict(save=sv, delete=dl, move=mvs)[method]
    ex.wr((a[0].key, "goal"), f(zint(ex.store[(a[0].key, "goal")]), *[t(ex, x) for x in args]))


def q_get(ex, a, k):
    me = a[0]
    ex.oblige("worker:one-at-a-time", NOT(zbool(ex.store[(me.key, "busy")])), kind="post")
    x, y, z = (ex.mk(A, ex.fresh(n)) for n in "xyz")
    w = ex.hget(ex.store[(ex.top_frame.vars["self"].key, "_db")], "state")
    b = z3.Int(ex.fresh("kind"))
    m, args = ("save", (x, y)) if ex.branch(b == 0) else (("delete", (x, y)) if ex.branch(b == 1) else ("move", (x, y, z)))
    ex.wr((me.key, "busy"), z3.BoolVal(True))
    ex.wr((me.key, "goal"), dict(save=sv, delete=dl, move=mvs)[m](zint(w), *[v.t for v in args]))
    return (m, args)


def q_done(ex, a, k):
    me = a[0]
    ex.oblige("worker:done-exactly-that", z3.And(zbool(ex.store[(me.key, "busy")]), zint(ex.hget(ex.store[(ex.top_frame.vars["self"].key, "_db")], "state")) == zint(ex.store[(me.key, "goal")])), kind="post")
    ex.wr((me.key, "busy"), z3.BoolVal(False))


def q_join(ex, a, k):
    ex.hset(ex.store[(a[0].key, "_db")], "state", ex.store[(ex.store[(a[0].key, "_queue")].key, "goal")])


B.cls("WriteQueue", fields=dict(goal=Int, busy=Bool), methods=dict(put=Prim(q_put), get=Prim(q_get), task_done=Prim(q_done)))
B.cls("Background", real=db.BackgroundWriteDatabase, fields=dict(_db=TRef("DB"), _queue=TObj("WriteQueue")), methods=dict(_join=Prim(q_join)))
B.trusted.append("queue.Queue hands over the tasks in the order they were put, and BackgroundWriteDatabase._join returns only once all of them are done")
GOAL = ("self._queue.goal", "old(self._queue.goal)")
for m_, ps, spec in (("save", ["key", "value"], SAVED), ("delete", ["key", "value"], DELETED), ("move", ["src", "dest", "value"], MOVED)):
    B.fn("BackgroundWriteDatabase." + m_, dict(self=TObj("Background"), **{p: A for p in ps}), requires=TH, no_call=True, modifies=["self._queue.goal"], ensures=[("queued", spec(*GOAL))], **NN)
B.fn("BackgroundWriteDatabase.fetch", dict(self=TObj("Background"), key=A), requires=TH, no_call=True, returns=TSeq(A, "list"), modifies=["heap:DB:state"], ensures=[("everything-asked-for", FOUND("self._queue.goal")), ONCE], **NN)
B.fn("BackgroundWriteDatabase._worker", dict(self=TObj("Background")), requires=TH + ["not self._queue.busy"], no_call=True, modifies=["*"], loops=[Loop(inv=["not self._queue.busy"])], **NN)

# --- files in directories: a value under its key, named by their hashes
F = Group(DB)
F.trusted.append("the first 16 hex digits of sha384 differ for different keys and values; pathlib, os and tempfile as POSIX has them: rename is atomic, a fresh temporary file is nobody else's, listing a directory gives each of its files once")
IS = z3.IntSort()
child, par, lab = z3.Function("child", IS, AS, IS), z3.Function("parent_of", IS, IS), z3.Function("label_of", IS, AS)
hsh, unh, istemp = z3.Function("hash_of", AS, AS), z3.Function("hashed", AS, AS), z3.Function("is_temporary", IS, z3.BoolSort())
root, meta = z3.Int("database_directory"), z3.Const("metakeys_name", AS)
PR = lambda i: SymRef(i, "Path")
vp = lambda k, v: child(child(root, hsh(k)), hsh(v))


def fs_theory(ex, a, k):
    p, s = z3.Int("p_fs"), z3.Const("s_fs", AS)
    ex.pc.append(z3.ForAll([p, s], z3.And(par(child(p, s)) == p, lab(child(p, s)) == s, z3.Not(istemp(child(p, s)))), patterns=[child(p, s)]))
    ex.pc.append(z3.And(par(root) != root, z3.Not(istemp(root))))
    ex.pc.append(z3.ForAll([s], unh(hsh(s)) == s, patterns=[hsh(s)]))
    return True


FSO = lambda ex: ex.store[(ex.top_frame.vars["self"].key, "fs")]
FC = lambda ex: ex.store[(FSO(ex).key, "files")]
dom = lambda ex, p: zbool(ex.rd(FC(ex).key).dom(p))


def fails(ex, what, fatal=True):
    "any call may fail"
    if ex.branch(ex.mk(Bool, ex.fresh(what))):
        if fatal:
            ex.wr((FSO(ex).key, "failed"), True)
        ex.raise_("OSError")


def f_div(ex, a, k):
    r = PR(child(zint(a[0].id), t(ex, a[1])))
    ex.assume(t(ex, ex.hget(r, "name")) == t(ex, a[1]))
    return r


def f_rename(ex, a, k):
    src, dst = a
    fails(ex, "rename_fails", fatal=ex.store.get(("$own_tmp",)) is True)
    if not ex.branch(dom(ex, zint(src.id))):
        ex.raise_("OSError")
    v = ex.rd(FC(ex).key).get(zint(src.id))
    ex.map_del(FC(ex), zint(src.id))
    ex.map_set(FC(ex), zint(dst.id), v)


def f_unlink(ex, a, k):
    fails(ex, "unlink_fails")
    if not ex.branch(dom(ex, zint(a[0].id))):
        ex.raise_("OSError")
    ex.map_del(FC(ex), zint(a[0].id))


def f_isdir(ex, a, k):
    b = ex.mk(Bool, ex.fresh("is_dir"))
    p = z3.Int("p_dir")
    m = ex.rd(FC(ex).key)
    ex.pc.append(z3.Implies(z3.Not(b), z3.ForAll([p], z3.Implies(zbool(m.dom(p)), par(p) != zint(a[0].id)))))
    return b


def f_listdir(ex, a, k):
    fails(ex, "listdir_fails")
    d = zint(a[0].id)
    m = ex.rd(FC(ex).key)
    n, i, p = z3.Int(ex.fresh("entries")), z3.Int("i_fs"), z3.Int("p_fs")
    at, idx = z3.Function(ex.fresh("entry"), IS, AS), z3.Function(ex.fresh("entry_index"), IS, IS)
    ex.pc.append(n >= 0)
    ex.pc.append(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(zbool(m.dom(child(d, at(i)))), idx(child(d, at(i))) == i)), patterns=[at(i)]))
    ex.pc.append(z3.ForAll([p], z3.Implies(z3.And(zbool(m.dom(p)), par(p) == d, z3.Not(istemp(p))), z3.And(0 <= idx(p), idx(p) < n, child(d, at(idx(p))) == p)), patterns=[idx(p)]))
    ex.pc.append(z3.ForAll([p], z3.Implies(z3.And(zbool(m.dom(p)), par(p) == d, z3.Not(istemp(p))), z3.And(0 <= idx(p), idx(p) < n, child(d, at(idx(p))) == p))))
    return Seq(n, lambda i: Opaque(at(zint(i)), "Any"), A, "list")


def f_read(ex, a, k):
    fails(ex, "read_fails")
    if not ex.branch(dom(ex, zint(a[0].id))):
        ex.raise_("OSError")
    return ex.rd(FC(ex).key).get(zint(a[0].id))


def f_mkstemp(ex, a, k):
    fails(ex, "mkstemp_fails")
    p = z3.Int(ex.fresh("temporary"))
    ex.assume(z3.And(istemp(p), z3.Not(dom(ex, p)), p != 0))
    ex.map_set(FC(ex), p, ex.mk(A, ex.fresh("empty")))
    ex.store[("$own_tmp",)] = k.get("dir") is not None
    return (PR(p), PR(p))


def f_write(ex, a, k):
    fails(ex, "write_fails")
    ex.map_set(FC(ex), zint(a[0].id), a[1])


def f_renames(ex, a, k):
    fails(ex, "renames_fails", fatal=False)
    if not ex.branch(dom(ex, zint(a[0].id))):
        ex.raise_("OSError")
    v = ex.rd(FC(ex).key).get(zint(a[0].id))
    ex.map_del(FC(ex), zint(a[0].id))
    ex.map_set(FC(ex), zint(a[1].id), v)


def f_exists(ex, a, k):
    "a file is there if it is among the files; a directory is there if it is not empty, and perhaps if it is"
    p = zint(a[0].id)
    b = f_isdir(ex, a, k)
    here = dom(ex, p)
    ex.assume(z3.Implies(here, b))
    ex.assume(z3.Implies(z3.Or(istemp(p), par(par(p)) == root), b == here))
    return b


F.cls("Path", heap=True, fields=dict(name=A), methods=dict(__truediv__=Prim(f_div), exists=Prim(f_exists),
    mkdir=Prim(lambda ex, a, k: fails(ex, "mkdir_fails")), rename=Prim(f_rename), unlink=Prim(f_unlink), is_dir=Prim(f_isdir), read_bytes=Prim(f_read)))
F.cls("Files", fields=dict(files=TMap(Int, A), failed=Bool))
F.override(DB, "_hash", Prim(lambda ex, a, k: Opaque(hsh(t(ex, a[0])), "Any")))
F.override(DB, "Path", Prim(lambda ex, a, k: a[0]))
for mod_, nm_, f_ in (("tempfile", "mkstemp", f_mkstemp), ("os", "write", f_write), ("os", "close", lambda ex, a, k: None), ("os", "listdir", f_listdir), ("os", "renames", f_renames)):
    F.override(mod_, nm_, Prim(f_))
mk = lambda f: TMk(lambda ex, nm: f(), "const")
F.cls("Dir", real=db.DirectoryBasedExampleDatabase, fields=dict(path=mk(lambda: PR(root)), keypaths=TMap(A, TRef("Path")), fs=TObj("Files"), _metakeys_name=mk(lambda: Opaque(meta, "Any")), _metakeys_hash=mk(lambda: Opaque(hsh(meta), "Any"))))
F.ns.update(fs_theory=Prim(fs_theory), vp=Prim(lambda ex, a, k: vp(t(ex, a[0]), t(ex, a[1]))), keydir=Prim(lambda ex, a, k: PR(child(root, hsh(t(ex, a[0]))))), temp=Prim(lambda ex, a, k: istemp(zint(a[0]))),
            parent=Prim(lambda ex, a, k: par(zint(a[0]))), label=Prim(lambda ex, a, k: Opaque(lab(zint(a[0])), "Any")), hsh=Prim(lambda ex, a, k: Opaque(hsh(t(ex, a[0])), "Any")), meta=Opaque(meta, "Any"), pid=Prim(lambda ex, a, k: zint(a[0].id)))
FS, SELF = "self.fs.files", TObj("Dir")
CACHE = "forall_t(AnyT, lambda k: implies(k in self.keypaths, self.keypaths[k] is keydir(k) and self.keypaths[k].name == hsh(k)))"
# a file in a key's directory is named by the hash of what is in it
NAMED = f"forall_t(Int, lambda p: implies(p in {FS} and not temp(p), label(p) == hsh({FS}[p])))"
KEEP = lambda exc="False": f"forall_t(Int, lambda p: implies(old(p in {FS}) and not ({exc}), p in {FS} and {FS}[p] == old({FS}[p])))"
ONLY = lambda exc: f"forall_t(Int, lambda p: implies(p in {FS} and not ({exc}), old(p in {FS})))"
RQ = ["fs_theory()", CACHE, NAMED]
MODS = ["self.keypaths", FS, "self.fs.failed"]
FNN = dict(opts=dict(no_native=True))
F.fn("DirectoryBasedExampleDatabase._key_path", dict(self=SELF, key=A), requires=["fs_theory()", CACHE], returns=TRef("Path"), modifies=["self.keypaths"], ensures=[("hash-of-key", "result is keydir(key) and result.name == hsh(key)"), ("cache", CACHE)], **FNN)
F.fn("DirectoryBasedExampleDatabase._value_path", dict(self=SELF, key=A, value=A), requires=["fs_theory()", CACHE], returns=TRef("Path"), modifies=["self.keypaths"], ensures=[("hashes", "pid(result) == vp(key, value)"), ("cache", CACHE)], **FNN)
F.fn("DirectoryBasedExampleDatabase.fetch", dict(self=SELF, key=A), requires=RQ, returns=TSeq(A, "list"), yields=A, no_call=True, modifies=["self.keypaths", "self.fs.failed"], raises={"OSError": None},
     loops=[Loop(inv=["self.fs.failed or len(_yielded) == _i and forall(0, _i, lambda j: hsh(_yielded[j]) == _seq[j])", f"forall(0, len(_yielded), lambda j: vp(key, _yielded[j]) in {FS})", CACHE, "len(_yielded) <= _i"])],
     ensures=[("complete", f"self.fs.failed or forall_t(AnyT, lambda v: implies(vp(key, v) in {FS}, exists(0, len(result), lambda i: result[i] == v)))"), ("only", f"forall(0, len(result), lambda j: vp(key, result[j]) in {FS})"), ("each-once", "self.fs.failed or forall(0, len(result), lambda j: forall(0, j, lambda i: result[i] != result[j]))")], **FNN)
F.fn("DirectoryBasedExampleDatabase.delete", dict(self=SELF, key=A, value=A), requires=RQ, no_call=True, modifies=MODS, ensures=[("gone", f"self.fs.failed or vp(key, value) not in {FS}"), ("others-kept", KEEP("p == vp(key, value)")), ("nothing-new", ONLY("False")), ("cache", CACHE), ("named", NAMED)], **FNN)
F.fn("DirectoryBasedExampleDatabase.save", dict(self=SELF, key=A, value=A), requires=RQ, modifies=MODS, recursive_ok=True, decreases="0 if key == meta else 1",
     ensures=[("saved", f"self.fs.failed or vp(key, value) in {FS}"), ("kept", KEEP()), ("nothing-else", ONLY("p == vp(key, value) or (key != meta and p == vp(meta, key)) or (temp(p) and self.fs.failed)")), ("key-listed", f"self.fs.failed or key == meta or vp(meta, key) in {FS}"), ("cache", CACHE), ("named", NAMED), ("failures-stay", "implies(old(self.fs.failed), self.fs.failed)")], **FNN)
F.fn("DirectoryBasedExampleDatabase.move", dict(self=SELF, src=A, dest=A, value=A), requires=RQ + ["src != meta and dest != meta"], modifies=MODS, no_call=True,
     ensures=[("arrived", f"self.fs.failed or vp(dest, value) in {FS}"), ("left", f"self.fs.failed or src == dest or vp(src, value) not in {FS}"), ("others-kept", KEEP("p == vp(src, value)")), ("named", NAMED),
              ("nothing-else", ONLY("p == vp(dest, value) or p == vp(meta, dest) or p == vp(meta, src) or (temp(p) and self.fs.failed)"))], **FNN)
GROUPS = [G, M, W, B, F]
