"""Contracts for generated Random objects (C22): a result is one Random could give for those arguments, drawn now or remembered."""
import z3
from pyvc.values import *
from pyvc.ctx import Group
from pyvc.engine import Loop, Obj, AND, NOT, zbool, zint, lift_float, norm
from . import models
from hypothesis.strategies._internal.random import ArtificialRandom

NN = dict(opts=dict(no_native=True))
RM = "hypothesis.strategies._internal.random"
G = Group(RM)
models.install(G)
A = AnyT
G.fn("normalize_zero", dict(f=Float), returns=Float, ensures=["result == f or f != f", "implies(f == 0.0, not is_neg(result))", "implies(f != 0.0 and f == f, same(result, f))"], **NN)
G.ns["is_neg"] = Prim(lambda ex, a, k: z3.Extract(63, 63, ex.force(a[0]).bv) == 1 if isinstance(ex.force(a[0]), FloatV) else str(a[0])[0] == "-")
G.ns["same"] = Prim(lambda ex, a, k: lift_float(ex.force(a[0])).bv == lift_float(ex.force(a[1])).bv)
WS = TSeq(Int, "list")
# the weights as Random checks them
def rnd_choices(ex, a, k):
    return None


G.override(RM, "Random", Prim(lambda ex, a, k: Obj(("checker",), "RandomChecks")))
G.cls("RandomChecks", methods=dict(choices=Prim(rnd_choices)))
G.fn("possible_choices", dict(population=TSeq(A, "list"), weights=NoneT, cum_weights=NoneT, k=Int), name="possible_choices[plain]", ensures=["len(result) == len(population) and forall(0, len(population), lambda j: result[j] == j)"], no_call=True, **NN)
G.fn("possible_choices", dict(population=TSeq(A, "list"), weights=WS, cum_weights=NoneT, k=Int), name="possible_choices[weights]", requires=["len(weights) == len(population)"],
     ensures=[("positive", "forall(0, len(result), lambda j: 0 <= result[j] and result[j] < len(population) and weights[result[j]] > 0)"), ("complete", "forall(0, len(weights), lambda j: implies(weights[j] > 0, exists(0, len(result), lambda i: result[i] == j)))")], no_call=True, **NN)


class FS(Prim):
    "what floats(...) was asked for"


class LS(Prim):
    "what lists(sampled_from(...)) or permutations(...) was asked for"

    def draw(self, ex):
        out = ex.mk(TSeq(Int, "list"), ex.fresh("drawn"))
        ex.assume(z3.And(zint(out.n) >= zint(self.lo), zint(out.n) <= zint(self.hi)))
        pick = z3.Function(ex.fresh("pick"), z3.IntSort(), z3.IntSort())
        i, j = z3.Ints("q_i q_j")
        src = ex.as_seq(self.of)
        ex.pc.append(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < zint(out.n)), z3.And(0 <= pick(i), pick(i) < zint(src.n), zint(out.get(i)) == zint(src.get(pick(i))))), patterns=[pick(i)]))
        ex.pc.append(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < zint(out.n)), z3.And(0 <= pick(i), pick(i) < zint(src.n), zint(out.get(i)) == zint(src.get(pick(i))))), patterns=[zint(out.get(i))]))
        if self.unique:
            ex.pc.append(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < zint(out.n)), zint(out.get(i)) != zint(out.get(j))), patterns=[z3.MultiPattern(zint(out.get(i)), zint(out.get(j)))]))
        return out


def ls(of, lo, hi, unique):
    p = LS(None, "lists")
    p.of, p.lo, p.hi, p.unique = of, lo, hi, unique
    return p


def mk_lists(ex, a, k):
    models.pre(ex, "lists:bounds", z3.And(0 <= zint(k["min_size"]), zint(k["min_size"]) <= zint(k["max_size"])))
    of = a[0].of
    n = zint(ex.as_seq(of).n)
    models.pre(ex, "lists:possible", z3.Implies(zint(k["min_size"]) > 0, n > 0 if k.get("unique") is not True else n >= zint(k["min_size"])))
    return ls(of, k["min_size"], k["max_size"], k.get("unique") is True)


G.override(RM, "lists", Prim(mk_lists, "lists"))
G.override(RM, "sampled_from", Prim(lambda ex, a, k: ls(a[0], 1, 1, False), "sampled_from"))
G.override(RM, "permutations", Prim(lambda ex, a, k: ls(a[0], ex.as_seq(a[0]).n, ex.as_seq(a[0]).n, True), "permutations"))
G.trusted.append("lists(sampled_from(s), min_size=m, max_size=n, unique=u) draws lists of elements of s of those sizes, without repeats if u; permutations(r) a rearrangement (contracts of C08, C23)")


def mk_floats(ex, a, k):
    lo = a[0] if a else k.get("min_value")
    hi = a[1] if len(a) > 1 else k.get("max_value")
    p = FS(None, "floats")
    p.lo, p.hi, p.exmax, p.noinf, p.nonan = lo, hi, k.get("exclude_max", False), k.get("allow_infinity") is False, k.get("allow_nan") is False or (lo is not None or hi is not None)
    if lo is not None and hi is not None:
        models.pre(ex, "floats:bounds", zbool(ex.truth_pure(ex.compare("<=", lo, hi))))
    return p


def d_draw(ex, a, k):
    s = a[1]
    if isinstance(s, LS):
        return s.draw(ex)
    if not isinstance(s, FS):
        raise Unsupported("draw of another strategy")
    v = ex.mk(Float, ex.fresh("drawn"))
    if s.nonan:
        ex.assume(z3.Not(z3.fpIsNaN(v.fp)))
    if s.noinf:
        ex.assume(z3.Not(z3.fpIsInf(v.fp)))
    if s.lo is not None:
        ex.assume(ex.truth_pure(ex.compare("<=", s.lo, v)))
    if s.hi is not None:
        ex.assume(ex.truth_pure(ex.compare("<" if s.exmax else "<=", v, s.hi)))
    return v


G.override(RM, "floats", Prim(mk_floats, "floats"))
G.trusted.append("floats(lo, hi, ...) draws floats in those bounds (contracts of C15)")


def d_bytes(ex, a, k):
    s = ex.mk(Bytes(), ex.fresh("bytes"))
    ex.assume(z3.And(zint(s.n) >= zint(k["min_size"]), zint(s.n) <= zint(k["max_size"])))
    return s


G.cls("RData", methods=dict(models.DATA, draw=Prim(d_draw), draw_bytes=Prim(d_bytes)))


def spec_of(ex, key, r):
    c = ex.contract
    return c.opts["memo"](ex, key, r)


def memo_get(ex, a, k):
    if ex.branch(ex.mk(Bool, ex.fresh("unseen"))):
        ex.raise_("KeyError")
    r = ex.mk(ex.contract.opts["raw"], ex.fresh("remembered"))
    ex.assume(spec_of(ex, a[1], r))
    ex.memo_r = r
    return (r, ex.mk(TRef("RandomState"), ex.fresh("later")))


def memo_set(ex, a, k):
    r = a[2][0]
    ex.memo_r = r = ex.as_seq(r) if isinstance(r, (Cell, tuple)) else r
    if isinstance(r, Seq) and isinstance(norm(r.n), int) and norm(r.n) == 0:
        ex.memo_r = r = Seq(0, lambda i: z3.IntVal(0), Int, "list")
    ex.oblige(f"{ex.contract.name}:remembered-is-right", spec_of(ex, a[1], r), kind="inv")


G.cls("NextStates", methods=dict(__getitem__=Prim(memo_get), __setitem__=Prim(memo_set)))
G.opaque_attrs[("RState", "next_states")] = lambda ex, b: Obj(("next",), "NextStates")
G.override(RM, "RandomState", Prim(lambda ex, a, k: ex.mk(TOpaque("RState"), ex.fresh("state"))))
G.cls("ArtificialRandom", real=ArtificialRandom, fields={"_ArtificialRandom__data": TObj("RData"), "_ArtificialRandom__state": TOpaque("RState")})


def kv(ex, key, name):
    for x in key:
        if isinstance(x, tuple) and len(x) == 2 and x[0] == name:
            return x[1]
    raise Unsupported("key of another form")


def memo(method, raw, f):
    def g(ex, key, r):
        if not isinstance(key, tuple) or key[0] != method:
            raise Unsupported("key of another form")
        return zbool(f(ex, key, r))
    return dict(memo=g, raw=raw, no_native=True)


T = lambda ex, op, a, b: zbool(ex.truth_pure(ex.compare(op, a, b)))
R = TObj("ArtificialRandom")
memo_get_ref = None


def M(method, kwargs, raw, spec, ens, req=(), raises=None, name=None, mods=(), loops=None, **kw):
    G.fn("ArtificialRandom._hypothesis_do_random", dict(self=R, method=TConst(method), kwargs=TDict(**kwargs)), name=name or f"Random.{method}", returns=None, no_call=True, requires=list(req), ensures=ens, raises=raises or {},
         modifies=["self._ArtificialRandom__state", *mods], opts=dict(memo(method, raw, spec), **(dict(helper_loops={"ArtificialRandom.__convert_result": loops}) if loops else {})), **kw)


inr = lambda lo, hi: (lambda ex, key, r: z3.And(T(ex, "<=", lo(ex, key), r), T(ex, "<=", r, hi(ex, key))))
M("randint", dict(a=Int, b=Int), Int, inr(lambda ex, k: kv(ex, k, "a"), lambda ex, k: kv(ex, k, "b")), [("in-range", "kwargs['a'] <= result and result <= kwargs['b']")], raises={"ValueError": "kwargs['a'] > kwargs['b']"})
M("_randbelow", dict(n=Int), Int, lambda ex, k, r: z3.And(T(ex, "<=", 0, r), T(ex, "<", r, kv(ex, k, "n"))), [("in-range", "0 <= result and result < kwargs['n']")], req=["kwargs['n'] >= 1"])
M("getrandbits", dict(n=Int), Int, lambda ex, k, r: z3.And(T(ex, "<=", 0, r), r < ex.ctx.pow2(ex, zint(kv(ex, k, "n")))), [("in-range", "0 <= result and result < 2 ** kwargs['n']")], req=["kwargs['n'] >= 0"])
M("binomialvariate", dict(n=Int, p=Float), Int, lambda ex, k, r: z3.And(T(ex, "<=", 0, r), T(ex, "<=", r, kv(ex, k, "n"))), [("in-range", "0 <= result and result <= kwargs['n']")], req=["kwargs['n'] >= 0"])
M("randbytes", dict(n=Int), Bytes(), lambda ex, k, r: ex.eq(r.n, kv(ex, k, "n")), [("size", "len(result) == kwargs['n']")], req=["kwargs['n'] >= 0"])
M("choice", dict(seq=TSeq(A, "list")), Int, lambda ex, k, r: z3.And(T(ex, "<=", 0, r), T(ex, "<", r, k[1])), [("element", "exists(0, len(kwargs['seq']), lambda i: result == kwargs['seq'][i])")], raises={"IndexError": "len(kwargs['seq']) == 0"})
M("random", dict(), Float, lambda ex, k, r: z3.And(T(ex, "<=", 0.0, r), T(ex, "<", r, 1.0)), [("in-range", "0.0 <= result and result < 1.0")])
M("betavariate", dict(alpha=Float, beta=Float), Float, lambda ex, k, r: z3.And(T(ex, "<=", 0.0, r), T(ex, "<=", r, 1.0)), [("in-range", "0.0 <= result and result <= 1.0")])
fin = lambda f: f"not ({f} != {f}) and {f} - {f} == 0"
M("uniform", dict(a=Float, b=Float), Float, lambda ex, k, r: z3.Or(z3.And(T(ex, "<=", kv(ex, k, "a"), r), T(ex, "<=", r, kv(ex, k, "b"))), z3.And(T(ex, "<=", kv(ex, k, "b"), r), T(ex, "<=", r, kv(ex, k, "a")))),
  [("between", "(kwargs['a'] <= result and result <= kwargs['b']) or (kwargs['b'] <= result and result <= kwargs['a'])")], req=["kwargs['a'] == kwargs['a'] and kwargs['b'] == kwargs['b']"])
for meth in ("weibullvariate", "gammavariate"):
    M(meth, dict(alpha=Float, beta=Float), Float, lambda ex, k, r: T(ex, "<=", 0.0, r), [("nonnegative", "result >= 0.0")])
M("expovariate", dict(lambd=Float), Float, lambda ex, k, r: T(ex, "<=", 0.0, r), [("nonnegative", "result >= 0.0")])


def rr(ex, k, r):
    start, stop, step = (kv(ex, k, n) for n in ("start", "stop", "step"))
    if ex.force(stop) is None:
        start, stop = 0, start
    start, stop, step, r = zint(start), zint(stop), zint(step), zint(r)
    i = z3.Int(ex.fresh("steps"))
    return z3.And(z3.Or(z3.And(step > 0, start <= r, r < stop), z3.And(step < 0, start >= r, r > stop)), z3.Exists([i], z3.And(i >= 0, r == start + i * step)))


RANGE = "({s} <= result and result < {e} and kwargs['step'] > 0) or ({s} >= result and result > {e} and kwargs['step'] < 0)"
for nm_, stop_, s_, e_ in (("stop", Int, "kwargs['start']", "kwargs['stop']"), ("start", NoneT, "0", "kwargs['start']")):
    M("randrange", dict(start=Int, stop=stop_, step=Int), Int, rr, [("in-range", RANGE.format(s=s_, e=e_)), ("on-step", f"exists_t(Int, lambda i: i >= 0 and result == {s_} + i * kwargs['step'])")],
      raises={"ValueError": f"kwargs['step'] == 0 or (({s_} >= {e_}) if kwargs['step'] > 0 else ({s_} <= {e_}))"}, name=f"Random.randrange[{nm_}]")


# --- the registered generators around a test: seeded before it, put back after it whatever the test did to them
E = Group("hypothesis.internal.entropy")
E.cls("Rand", heap=True, fields={"state": Int}, methods=dict(
    getstate=Prim(lambda ex, a, k: ex.hget(a[0], "state")), setstate=Prim(lambda ex, a, k: ex.hset(a[0], "state", a[1])),
    seed=Prim(lambda ex, a, k: ex.hset(a[0], "state", seeded(zint(a[1]))))))
seeded = z3.Function("seeded_state", z3.IntSort(), z3.IntSort())
reg = z3.Function("registered", z3.IntSort(), z3.BoolSort())      # the keys in use when the test starts
rand = z3.Function("generator", z3.IntSort(), z3.IntSort())
index = z3.Function("registered_index", z3.IntSort(), z3.IntSort())
nth = z3.Function("registered_nth", z3.IntSort(), z3.IntSort())
kept = z3.Function("still_alive", z3.IntSort(), z3.BoolSort())


def managed(ex, a, k):
    n, i, j = z3.Ints("registered_count %r.i %r.j")
    ex.pc.append(n >= 0)
    ex.pc.append(z3.ForAll([i], z3.Implies(reg(i), z3.And(0 <= index(i), index(i) < n, nth(index(i)) == i)), patterns=[index(i)]))
    ex.pc.append(z3.ForAll([i], z3.Implies(reg(i), z3.And(0 <= index(i), index(i) < n, nth(index(i)) == i)), patterns=[reg(i)]))
    ex.pc.append(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(reg(nth(i)), index(nth(i)) == i)), patterns=[nth(i)]))
    ex.pc.append(z3.ForAll([i, j], z3.Implies(z3.And(reg(i), reg(j), rand(i) == rand(j)), i == j), patterns=[z3.MultiPattern(rand(i), rand(j))]))
    return Seq(n, lambda i: (nth(zint(i)), SymRef(rand(nth(zint(i))), "Rand")), TTuple(Int, TRef("Rand")), "list")


def managed_get(ex, a, k):
    "some may have been collected meanwhile, and only those"
    key = zint(a[1])
    if ex.branch(z3.And(reg(key), kept(key))):
        return SymRef(rand(key), "Rand")
    ex.assume(reg(key))
    return None


E.cls("Managed", methods=dict(items=Prim(managed), get=Prim(managed_get)))
E.override("hypothesis.internal.entropy", "RANDOMS_TO_MANAGE", Obj(("randoms",), "Managed"))
E.override("hypothesis.core", "_hypothesis_global_random", Opaque(z3.Const("global_random", sort_of("Any")), "Any"))
E.override("hypothesis.internal.entropy", "sys", Opaque(z3.Const("sys", sort_of("Sys")), "Sys"))
E.opaque_attrs[("Sys", "modules")] = lambda ex, b: ()


def st0(ex, r):
    saved, ex.store = ex.store, ex.old_store
    try:
        return ex.hget(r, "state")
    finally:
        ex.store = saved


R_ = lambda k: SymRef(rand(zint(k)), "Rand")
E.ns.update(gen_reg=Prim(lambda ex, a, k: reg(zint(a[0]))), gen_kept=Prim(lambda ex, a, k: kept(zint(a[0]))), gen_idx=Prim(lambda ex, a, k: index(zint(a[0]))),
            state_seeded=Prim(lambda ex, a, k: seeded(zint(a[0]))), now_state=Prim(lambda ex, a, k: ex.hget(R_(a[0]), "state")), first_state=Prim(lambda ex, a, k: st0(ex, R_(a[0]))))


def test_runs(ex, v, fr):
    ex.oblige(f"{ex.contract.name}:seeded-before", ex.spec_bool("forall_t(Int, lambda k: implies(gen_reg(k), now_state(k) == state_seeded(seed)))", fr), kind="post")
    key = ("H", "Rand", "state")
    h = z3.Function(ex.fresh("state_after_test"), z3.IntSort(), z3.IntSort())
    ex.wr(key, (lambda r: h(zint(r)), Int))
    if ex.branch(ex.mk(Bool, ex.fresh("test_raises"))):
        ex.raise_("TestFailure")


BACK = [("restored", "forall_t(Int, lambda k: implies(gen_reg(k) and gen_kept(k), now_state(k) == first_state(k)))")]
PART = "0 <= gen_idx(k) and gen_idx(k) < {i}"
E.fn("deterministic_PRNG", dict(seed=Int), requires=["0 <= seed", "seed < 2 ** 32"], raises={"TestFailure": None}, ensures=BACK, exc_ensures=BACK, no_call=True, modifies=["heap:Rand:state"],
     opts=dict(no_native=True, on_yield=test_runs, inline=("get_seeder_and_restorer",), helper_loops={
         "get_seeder_and_restorer.<locals>.seed_all": [Loop(types={"$map": TMap(Int, Int)}, inv=[
             "forall_t(Int, lambda k: (k in states) == (gen_reg(k) and gen_idx(k) < _i))", "forall_t(Int, lambda k: implies(k in states, states[k] == first_state(k)))",
             "forall_t(Int, lambda k: implies(gen_reg(k), now_state(k) == (state_seeded(seed) if gen_idx(k) < _i else first_state(k))))"])],
         "get_seeder_and_restorer.<locals>.restore_all": [Loop(inv=["forall(0, _i, lambda j: implies(gen_kept(_seq[j][0]), now_state(_seq[j][0]) == _seq[j][1]))"])]}))
IL = TSeq(Int, "list")
def each(ex, r, f):
    i = z3.Int(ex.fresh("e"))
    return z3.BoolVal(True) if isinstance(norm(r.n), int) and norm(r.n) == 0 else z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < zint(r.n)), f(i)), patterns=[zint(r.get(i))])


def distinct(ex, r):
    i, j = z3.Ints(ex.fresh("d1") + " " + ex.fresh("d2"))
    return z3.BoolVal(True) if isinstance(norm(r.n), int) and norm(r.n) == 0 else z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < zint(r.n)), zint(r.get(i)) != zint(r.get(j))), patterns=[z3.MultiPattern(zint(r.get(i)), zint(r.get(j)))])


def one_of(ex, seq, v):
    s = ex.as_seq(seq)
    i = z3.Int(ex.fresh("o"))
    return z3.Exists([i], z3.And(0 <= i, i < zint(s.n), zint(s.get(i)) == v))


G.ns["raw"] = Prim(lambda ex, a, k: ex.memo_r)      # the indices behind the result
PL = TSeq(A, "list")
CH = dict(population=PL, weights=NoneT, cum_weights=NoneT, k=Int)
FROMPOP = ("from-population", "forall(0, len(result), lambda j: exists(0, len(kwargs['population']), lambda i: result[j] == kwargs['population'][i]))")
SIZE = ("size", "len(result) == kwargs['k']")
chm = lambda ex, key, r: z3.And(zint(r.n) == zint(key[2]), each(ex, r, lambda i: one_of(ex, key[1], zint(r.get(i)))))
M("choices", CH, IL, chm, [SIZE, FROMPOP], req=["kwargs['k'] >= 0", "len(kwargs['population']) > 0"], name="Random.choices[plain]")
M("choices", dict(CH, weights=WS), IL, chm, [SIZE, ("possible", "forall(0, len(result), lambda j: exists(0, len(kwargs['population']), lambda i: result[j] == kwargs['population'][i] and kwargs['weights'][i] > 0))")],
  req=["kwargs['k'] >= 0", "len(kwargs['population']) > 0", "len(kwargs['weights']) == len(kwargs['population'])", "exists(0, len(kwargs['weights']), lambda i: kwargs['weights'][i] > 0)"], name="Random.choices[weights]")
M("sample", dict(population=PL, k=Int, counts=NoneT), IL, lambda ex, key, r: z3.And(0 <= zint(key[2]), zint(key[2]) <= zint(key[1]), zint(r.n) == zint(key[2]), each(ex, r, lambda i: z3.And(0 <= zint(r.get(i)), zint(r.get(i)) < zint(key[1]))), distinct(ex, r)),
  [SIZE, ("indices", "forall(0, len(result), lambda j: 0 <= raw()[j] and raw()[j] < len(kwargs['population']) and result[j] == kwargs['population'][raw()[j]]) and forall(0, len(result), lambda j: forall(0, j, lambda i: raw()[i] != raw()[j]))")],
  raises={"ValueError": "kwargs['k'] < 0 or kwargs['k'] > len(kwargs['population'])"}, name="Random.sample[plain]")
M("shuffle", dict(x=TList(A)), IL, lambda ex, key, r: z3.And(zint(r.n) == zint(key[1]), each(ex, r, lambda i: z3.And(0 <= zint(r.get(i)), zint(r.get(i)) < zint(key[1]))), distinct(ex, r)),
  [("rearranged", "len(kwargs['x']) == old(len(kwargs['x'])) and forall(0, len(kwargs['x']), lambda j: 0 <= raw()[j] and raw()[j] < len(kwargs['x']) and kwargs['x'][j] == old(kwargs['x'][raw()[j]])) and forall(0, len(kwargs['x']), lambda j: forall(0, j, lambda i: raw()[i] != raw()[j]))")],
  mods=["kwargs['x']"], name="Random.shuffle", loops=[Loop(inv=["len(seq) == len(original)", "forall(0, _i, lambda j: seq[j] == original[result[j]])"])])
GROUPS = [G, E]
