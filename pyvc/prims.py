"""Models of Python builtins, methods, and the specification forms."""
import ast
import builtins
import functools
import itertools
import math
import operator
import struct
import z3
from .values import *
from .engine import (SpecError, AND, OR, NOT, IMPL, BVI, bvbin, bvcmp, ext, is_boollike, is_intlike, is_sym, lift_float, bits_nan, norm, to_bvi, zbool, zint, Frame, parse_expr)

BUILTINS = {}
SPEC = {}
SPECFORMS = {}


def prim(*names):
    def deco(f):
        for n in names:
            BUILTINS[n] = Prim(f, n)
        return f
    return deco


def spec(name):
    def deco(f):
        SPEC[name] = Prim(f, name)
        return f
    return deco


def specform(name):
    def deco(f):
        SPECFORMS[name] = f
        return f
    return deco


@prim("len")
def p_len(ex, args, kw):
    v = ex.force(args[0])
    if isinstance(v, (tuple, str, bytes)):
        return len(v)
    if isinstance(v, (MapCell, MapV)):
        m = ex.rd(v.key) if isinstance(v, MapCell) else v
        return m.size
    if isinstance(v, Obj):
        m = ex.find_method(v.cls, "__len__")
        return ex.call(BoundV(v, m), [], {})
    if isinstance(v, SymRef) and v.cls == "$list2":
        return 2
    if isinstance(v, PyVal):
        return len(v.o)
    if isinstance(v, RecCell):
        return len(ex.rd(v.key))
    return ex.as_seq(v).n


@prim("range")
def p_range(ex, args, kw):
    args = [ex.force(a) for a in args]
    if len(args) == 1:
        return RangeV(0, args[0], 1)
    if len(args) == 2:
        return RangeV(args[0], args[1], 1)
    return RangeV(*args)


@prim("abs")
def p_abs(ex, args, kw):
    v = ex.force(args[0])
    if isinstance(v, (int, float)):
        return abs(v)
    if isinstance(v, FloatV):
        return FloatV(v.bv & z3.BitVecVal((1 << 63) - 1, 64))
    if isinstance(v, BVI):
        return BVI(z3.If(v.bv < 0, ext(-ext(v.bv, v.w + 1), v.w + 1), ext(v.bv, v.w + 1)))
    if isinstance(v, RealV):
        return RealV(z3.If(v.t < 0, -v.t, v.t))
    x = zint(v)
    return z3.If(x >= 0, x, -x)


def minmax(ex, args, kw, op):
    if len(args) == 1:
        s = ex.as_seq(args[0])
        n = norm(s.n)
        if not isinstance(n, int):
            return minmax_seq(ex, s, kw, op)
        args = [s.get(k) for k in range(n)]
        if not args:
            if "default" in kw:
                return kw["default"]
            ex.raise_("ValueError")
    key = kw.get("key")
    r = args[0]
    rk = ex.call(key, [r], {}) if key else r
    for a in args[1:]:
        ak = ex.call(key, [a], {}) if key else a
        c = ex.compare(op, ak, rk)
        if isinstance(norm(c), bool):
            if norm(c):
                r, rk = a, ak
            continue
        if ex.pure:
            r, rk = ex.merge(c, a, r), ex.merge(c, ak, rk)
        else:
            try:
                ex.pure += 1
                try:
                    m, mk = ex.merge(c, a, r), ex.merge(c, ak, rk)
                finally:
                    ex.pure -= 1
                r, rk = m, mk
            except Unsupported:
                if ex.branch(c):
                    r, rk = a, ak
    return r


def minmax_seq(ex, s, kw, op):
    if ex.pure or "key" in kw:
        raise Unsupported("min/max of symbolic sequence in pure context")
    if "default" in kw:
        if ex.branch(zint(s.n) == 0):
            return kw["default"]
    elif ex.branch(zint(s.n) == 0):
        ex.raise_("ValueError")
    k = z3.Int(ex.fresh("argm"))
    ex.assume(z3.And(0 <= k, k < zint(s.n)))
    r = s.get(k)
    j = z3.Int(ex.fresh("mj"))
    ex.pure += 1
    try:
        b = ex.compare(op, s.get(j), r)
    finally:
        ex.pure -= 1
    ex.pc.append(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < zint(s.n)), NOT(zbool(b)))))
    return r


@prim("min")
def p_min(ex, args, kw): return minmax(ex, args, kw, "<")
@prim("max")
def p_max(ex, args, kw): return minmax(ex, args, kw, ">")


@prim("tuple")
def p_tuple(ex, args, kw):
    if not args:
        return ()
    v = ex.force(args[0])
    if isinstance(v, tuple):
        return v
    if isinstance(v, SymRef) and v.cls == "$list2":
        return (ex.hget(v, "0"), ex.hget(v, "1"))
    s = ex.as_seq(v)
    if isinstance(norm(s.n), int):
        return tuple(s.get(k) for k in range(norm(s.n)))
    return Seq(s.n, s.get, s.ety, "tuple")


@prim("list")
def p_list(ex, args, kw):
    if not args:
        return ex.new_list(ex.const_seq([])) if not ex.pure else ex.const_seq([])
    v = ex.force(args[0])
    s = ex.as_seq(v)
    if s.kind == "strchars":
        s = Seq(s.n, s.get, Str(), "list")
    return ex.new_list(s) if not ex.pure else Seq(s.n, s.get, s.ety, "list")


@prim("bytes")
def p_bytes(ex, args, kw):
    if not args:
        return b""
    v = ex.force(args[0])
    if is_intlike(v):
        return Seq(v, lambda i: 0, Int, "bytes")
    s = ex.as_seq(v)
    if not ex.pure:
        j = z3.Int(ex.fresh("bj"))
        if s.kind != "bytes":
            ex.pure += 1
            try:
                x = s.get(j)
                body = z3.Implies(z3.And(0 <= j, j < zint(s.n)), z3.And(0 <= zint(x), zint(x) <= 255))
            finally:
                ex.pure -= 1
            ex.oblige(f"{ex.contract.name}:bytes-range", z3.ForAll([j], body), kind="assert")
    return Seq(s.n, s.get, s.ety or Int, "bytes")


@prim("bytearray")
def p_bytearray(ex, args, kw):
    s = ex.as_seq(args[0]) if args else ex.const_seq([], Int)
    return ex.new_list(Seq(s.n, s.get, Int, "list"), pykind="bytearray")


@prim("enumerate")
def p_enum(ex, args, kw):
    s = ex.as_seq(args[0])
    st = args[1] if len(args) > 1 else kw.get("start", 0)
    def g(i):
        return (i if isinstance(st, int) and st == 0 else ex.binop("+", i, st), s.get(i))
    return Seq(s.n, g, TTuple(Int, s.ety) if s.ety is not None else None, "list")


@prim("zip")
def p_zip(ex, args, kw):
    ss = [ex.as_seq(a) for a in args]
    n = ss[0].n
    for s in ss[1:]:
        if isinstance(n, int) and isinstance(s.n, int):
            n = min(n, s.n)
        else:
            n = norm(z3.simplify(z3.If(zint(s.n) < zint(n), zint(s.n), zint(n))))
    return Seq(n, lambda i: tuple(s.get(i) for s in ss), TTuple(*[s.ety for s in ss]), "list")


def reverse_seq(ex, v):
    if isinstance(v, RangeV) and v.step == 1:
        a, b = v.a, v.b
        if isinstance(a, int) and isinstance(b, int):
            return ex.const_seq(list(reversed(range(a, b))), Int)
        s = ex.as_seq(v)
        return Seq(s.n, lambda i: norm(z3.simplify(zint(b) - 1 - zint(i))), Int, "list")
    s = ex.as_seq(v)
    n = s.n
    if isinstance(n, int):
        return ex.const_seq([s.get(n - 1 - k) for k in range(n)], s.ety, s.kind)
    return Seq(n, lambda i: s.get(norm(z3.simplify(zint(n) - 1 - zint(i)))), s.ety, s.kind)


@prim("reversed")
def p_reversed(ex, args, kw): return reverse_seq(ex, args[0])


def quant(ex, s, body, univ):
    n = norm(s.n)
    if isinstance(n, int) and n <= 16:
        xs = [body(k) for k in range(n)]
        return AND(*xs) if univ else OR(*xs)
    i = z3.Int(ex.fresh("q"))
    b = zbool(body(i))
    rng = z3.And(0 <= i, i < zint(n))
    return z3.ForAll([i], z3.Implies(rng, b)) if univ else z3.Exists([i], z3.And(rng, b))


@prim("any")
def p_any(ex, args, kw):
    s = ex.as_seq(args[0])
    return quant(ex, s, lambda i: ex.truth_pure(s.get(i)), False)


@prim("all")
def p_all(ex, args, kw):
    s = ex.as_seq(args[0])
    return quant(ex, s, lambda i: ex.truth_pure(s.get(i)), True)


@prim("sum")
def p_sum(ex, args, kw):
    s = ex.as_seq(args[0])
    n = norm(s.n)
    start = args[1] if len(args) > 1 else 0
    if isinstance(n, int):
        r = start
        for k in range(n):
            r = ex.binop("+", r, s.get(k))
        return r
    ex.qdepth_check()
    nm = ex.fresh("psum")
    f = z3.Function(nm, z3.IntSort(), z3.IntSort())
    i = z3.Int(nm + ".i")
    ex.pc.append(f(0) == 0)
    ex.pc.append(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < zint(n)), f(i + 1) == f(i) + zint(s.get(i))), patterns=[f(i + 1)]))
    return f(zint(n)) + zint(start)


@prim("map")
def p_map(ex, args, kw):
    f = args[0]
    if len(args) != 2:
        raise Unsupported("map arity")
    s = ex.as_seq(args[1])
    if isinstance(f, Prim) and f.name == "list":
        # list(pair) for each pair: fresh mutable two-element lists
        return map_fresh_lists(ex, s)
    n = norm(s.n)
    if isinstance(n, int) and n <= 12:
        return ex.const_seq([ex.call(f, [s.get(k)], {}) for k in range(n)])
    def g(i):
        ex.pure += 1
        try:
            return ex.call(f, [s.get(i)], {})
        finally:
            ex.pure -= 1
    return Seq(s.n, g, ex.tryty(g(z3.Int("_ety"))), "list")


def map_fresh_lists(ex, s):
    if ex.pure:
        raise Unsupported("map(list) in pure")
    key = ("A", "$list2")
    A = ex.store.setdefault(key, z3.Int("alloc.$list2"))
    base = zint(A)
    for fld in ("0", "1"):
        hk = ("H", "$list2", fld)
        if hk not in ex.store:
            ex.hget(SymRef(z3.IntVal(0), "$list2"), fld)
        f, t = ex.store[hk]
        k = int(fld)
        def nf(r, f=f, k=k):
            inr = norm(z3.simplify(z3.And(base <= r, r < base + zint(s.n))))
            e = s.get(norm(z3.simplify(r - base)))
            return ex.merge(inr, e[k], f(r))
        ex.wr(hk, (nf, t))
    ex.wr(key, z3.simplify(base + zint(s.n)))
    if isinstance(s.n, int) and s.n <= 4:
        return Seq(s.n, lambda i: SymRef(norm(z3.simplify(base + zint(i))), "$list2"), TRef("$list2"), "list")
    # named, so that quantified facts about the lists have something to match on
    rf = z3.Function(ex.fresh("fresh_ref"), z3.IntSort(), z3.IntSort())
    qi = z3.Int("_qi")
    ex.pc.append(z3.ForAll([qi], rf(qi) == base + qi, patterns=[rf(qi)]))
    return Seq(s.n, lambda i: SymRef(rf(zint(i)), "$list2"), TRef("$list2"), "list")


@prim("filter")
def p_filter(ex, args, kw): raise Unsupported("filter()")


@prim("sorted")
def p_sorted(ex, args, kw):
    v = args[0]
    s = ex.as_seq(v)
    if isinstance(norm(s.n), int) and not kw:
        # pairs with distinct concrete names sort by those alone (the values, of mixed types, are kept as they are)
        items = [s.get(i) for i in range(norm(s.n))]
        firsts = [it[0] if isinstance(it, tuple) and it else None for it in items]
        if all(type(f) is str for f in firsts) and len(set(firsts)) == len(firsts):
            return tuple(items[i] for i in sorted(range(len(items)), key=lambda i: firsts[i]))
    n = norm(s.n)
    rev = kw.get("reverse", False)
    key = kw.get("key")
    if not isinstance(rev, bool):
        raise Unsupported("sorted reverse")
    if ex.pure:
        raise Unsupported("sorted in pure context")
    nm = ex.fresh("sorted")
    p = z3.Function(nm + ".perm", z3.IntSort(), z3.IntSort())
    q = z3.Function(nm + ".inv", z3.IntSort(), z3.IntSort())
    i, j = z3.Ints(f"{nm}.i {nm}.j")
    N = zint(n)
    inb = lambda x: z3.And(0 <= x, x < N)
    ex.pc.append(z3.ForAll([i], z3.Implies(inb(i), z3.And(inb(p(i)), q(p(i)) == i)), patterns=[p(i)]))
    ex.pc.append(z3.ForAll([i], z3.Implies(inb(i), z3.And(inb(q(i)), p(q(i)) == i)), patterns=[q(i)]))
    get = lambda k: s.get(p(zint(k)))
    ex.pure += 1
    try:
        kf = (lambda x: ex.call(key, [x], {})) if key is not None else (lambda x: x)
        a, b = kf(get(i)), kf(get(j))
        le = ex.compare("<=", a, b) if not rev else ex.compare(">=", a, b)
        strict = ex.compare("<", a, b) if not rev else ex.compare(">", a, b)
    finally:
        ex.pure -= 1
    ex.pc.append(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < N), z3.And(zbool(le), z3.Or(zbool(strict), p(i) < p(j)))),
                           patterns=[z3.MultiPattern(p(i), p(j))]))
    out = Seq(n, get, s.ety, "list")
    ex.last_sort = (p, q)
    return ex.new_list(out)


@prim("int")
def p_int(ex, args, kw):
    if not args:
        return 0
    v = ex.force(args[0])
    if isinstance(v, (int, float, str)) :
        try:
            return int(v, *args[1:])
        except Exception as e:
            ex.raise_(type(e))
    if is_boollike(v):
        return z3.If(v, z3.IntVal(1), z3.IntVal(0))
    if is_intlike(v):
        return v
    if isinstance(v, FloatV):
        if ex.pure:
            return BVI(z3.fpToSBV(z3.RTZ(), v.fp, z3.BitVecSort(66)))
        if ex.branch(z3.fpIsNaN(v.fp)):
            ex.raise_("ValueError")
        if ex.branch(z3.fpIsInf(v.fp)):
            ex.raise_("OverflowError")
        if ex.branch(z3.fpLT(z3.fpAbs(v.fp), z3.FPVal(2.0**64, F64))):
            return BVI(z3.fpToSBV(z3.RTZ(), v.fp, z3.BitVecSort(66)))
        return BigFloatInt(v)
    if isinstance(v, RealV):
        return z3.If(v.t >= 0, z3.ToInt(v.t), -z3.ToInt(-v.t))
    raise Unsupported(f"int({v!r})")


class BigFloatInt:
    "int(f) for |f| >= 2**64 (f is then an integer)"
    __slots__ = ("f",)
    def __init__(self, f): self.f = f


@prim("bool")
def p_bool(ex, args, kw): return ex.truth(args[0]) if args else False


@prim("float")
def p_float(ex, args, kw):
    v = ex.force(args[0])
    if isinstance(v, (int, float, str)):
        try:
            return float(v)
        except Exception as e:
            ex.raise_(type(e))
    if isinstance(v, FloatV):
        return v
    if isinstance(v, BVI):
        return ex.fp_result(z3.fpSignedToFP(RNE, v.bv, F64))
    if isinstance(v, Obj):
        m = ex.find_method(v.cls, "__float__")
        if m is not None:
            return ex.call(BoundV(v, m), [], {})
    raise Unsupported("float() of symbolic int")


@prim("ord")
def p_ord(ex, args, kw):
    v = ex.force(args[0])
    if isinstance(v, str):
        return ord(v)
    s = ex.seq_or_none(v)
    if s is None:
        raise Unsupported("ord")
    if not ex.pure and not ex.branch(ex.eq(s.n, 1)):
        ex.raise_("TypeError")
    return s.get(0)


@prim("chr")
def p_chr(ex, args, kw):
    v = ex.force(args[0])
    if isinstance(v, int):
        return chr(v)
    if not ex.pure and not ex.branch(z3.And(zint(v) >= 0, zint(v) <= 0x10FFFF)):
        ex.raise_("ValueError")
    return Seq(1, lambda i: v, Int, "str")


@prim("isinstance")
def p_isinstance(ex, args, kw):
    v, t = args
    v = ex.force(v)
    ts = t if isinstance(t, tuple) else (t,)
    return OR(*[isinst(ex, v, x) for x in ts])


def isinst(ex, v, t):
    n = t.name if isinstance(t, Prim) else (t.o if isinstance(t, PyVal) else None)
    cls = getattr(builtins, n) if isinstance(n, str) and hasattr(builtins, n) else n
    if not isinstance(cls, type):
        cls = next((o for o, q in LIB.items() if q is t and isinstance(o, type)), None)
    if not isinstance(cls, type):
        raise Unsupported(f"isinstance {t!r}")
    if v is None:
        return cls in (type(None), object)
    if is_boollike(v):
        return issubclass(bool, cls)
    if is_intlike(v) or isinstance(v, BigFloatInt):
        return issubclass(int, cls)
    if isinstance(v, (float, FloatV)):
        return issubclass(float, cls)
    if isinstance(v, tuple):
        return issubclass(tuple, cls)
    if isinstance(v, str):
        return issubclass(str, cls)
    if isinstance(v, bytes):
        return issubclass(bytes, cls)
    if isinstance(v, Seq):
        k = {"str": str, "bytes": bytes, "tuple": tuple, "list": list}.get(v.kind)
        return issubclass(k, cls)
    if isinstance(v, Cell):
        return issubclass({"list": list, "bytearray": bytearray}.get(v.pykind, list), cls)
    if isinstance(v, (Obj, SymRef)):
        real = ex.ctx.classes[v.cls].real
        if real is None:
            raise Unsupported("isinstance of spec class")
        return issubclass(real, cls)
    if isinstance(v, PyVal):
        return isinstance(v.o, cls)
    if isinstance(v, (MapCell, RecCell)):
        return issubclass(dict, cls)
    if isinstance(v, (FuncV, BoundV, Prim)):
        import types
        return issubclass(types.FunctionType, cls)
    if isinstance(v, Opaque) and (v.sort, "isinstance:" + cls.__name__) in ex.ctx.opaque_attrs:
        return ex.ctx.opaque_attrs[(v.sort, "isinstance:" + cls.__name__)](ex, v)
    raise Unsupported(f"isinstance({v!r}, {cls})")


@prim("type")
def p_type(ex, args, kw):
    v = ex.force(args[0])
    if isinstance(v, (Obj, SymRef)):
        return PyVal(ex.ctx.classes[v.cls].real)
    if v is None:
        return PyVal(type(None))
    for cond, t in ((is_boollike(v), bool), (is_intlike(v), int), (isinstance(v, (float, FloatV)), float), (isinstance(v, tuple), tuple),
                    (isinstance(v, str), str), (isinstance(v, bytes), bytes)):
        if cond:
            return lookup(t) or PyVal(t)
    if isinstance(v, Seq):
        t = {"str": str, "bytes": bytes, "tuple": tuple, "list": list}[v.kind]
        return lookup(t) or PyVal(t)
    raise Unsupported("type()")


@prim("hasattr")
def p_hasattr(ex, args, kw):
    v, a = args
    v = ex.force(v)
    if isinstance(v, Obj):
        return (v.key, a) in ex.store or ex.find_method(v.cls, a) is not None
    if isinstance(v, PyVal):
        return hasattr(v.o, a)
    raise Unsupported("hasattr")


@prim("getattr")
def p_getattr(ex, args, kw):
    if not isinstance(args[1], str):
        raise Unsupported("getattr with symbolic name")
    if len(args) == 3:
        v = ex.force(args[0])
        if isinstance(v, Obj) and (v.key, args[1]) not in ex.store and ex.find_method(v.cls, args[1]) is None:
            return args[2]
    return ex.getattr(args[0], args[1])


@prim("round")
def p_round(ex, args, kw):
    v = ex.force(args[0])
    if isinstance(v, (int, float)):
        return round(v, *args[1:])
    if is_intlike(v):
        return v
    if isinstance(v, RealV):
        ex.qdepth_check()
        r = z3.Int(ex.fresh("round"))
        ex.assume(z3.And(2 * (v.t - z3.ToReal(r)) <= 1, 2 * (v.t - z3.ToReal(r)) >= -1))
        fl = z3.ToInt(v.t)
        ex.assume(z3.And(z3.ToReal(fl) <= v.t, v.t < z3.ToReal(fl) + 1, z3.Or(r == fl, r == fl + 1)))
        return r
    raise Unsupported("round")


@prim("divmod")
def p_divmod(ex, args, kw): return (ex.binop("//", args[0], args[1]), ex.binop("%", args[0], args[1]))
@prim("pow")
def p_pow(ex, args, kw): return ex.binop("**", args[0], args[1])
@prim("repr", "str")
def p_repr(ex, args, kw):
    v = args[0] if args else ""
    if isinstance(v, str):
        return v
    if isinstance(v, Seq) and v.kind == "str":
        return v
    return OpaqueStr()
@prim("print")
def p_print(ex, args, kw): return None
@prim("iter")
def p_iter(ex, args, kw): return args[0]
@prim("next")
def p_next(ex, args, kw): raise Unsupported("next")
@prim("id")
def p_id(ex, args, kw): raise Unsupported("id")
@prim("callable")
def p_callable(ex, args, kw):
    v = ex.force(args[0])
    return isinstance(v, (FuncV, BoundV, Prim))


@prim("dict")
def p_dict(ex, args, kw):
    if not args and not kw:
        c = MapCell(ex.alloc(("dict",)))
        ex.store[c.key] = MapV(lambda k: False, lambda k: None, 0, None, None)
        return c
    if not args:
        c = RecCell(ex.alloc(("dictrec",)))
        ex.store[c.key] = dict(kw)
        return c
    if len(args) == 1 and not kw and isinstance(ex.force(args[0]), MapCell):
        c = MapCell(ex.alloc(("dict",)))
        ex.store[c.key] = ex.rd(ex.force(args[0]).key)
        return c
    raise Unsupported("dict()")


@prim("set", "frozenset")
def p_set(ex, args, kw):
    if not args:
        c = MapCell(ex.alloc(("set",)), "set")
        ex.store[c.key] = MapV(lambda k: False, lambda k: None, 0, None, NoneT)
        return c
    m = ex.as_map(ex.force(args[0]))
    if ex.pure:
        return m
    if m.k is None:
        return p_set(ex, [], {})
    src = ex.as_seq(args[0]) if not isinstance(ex.force(args[0]), (MapCell, MapV)) else None
    c = ex.new_map(m.dom, m.k, ("set",), size=m.size if src is None else None)
    if src is not None:
        ex.assume(zint(ex.rd(c.key).size) <= zint(src.n))
    return c


# ---------------------------------------------------------------- library functions
LIB = {}


def lookup(o):
    try:
        return LIB.get(o)
    except TypeError:
        return None


def lib(o):
    def deco(f):
        LIB[o] = Prim(f, getattr(o, "__name__", str(o)))
        return f
    return deco


try:
    from sortedcontainers import SortedList as _SortedList
    LIB[_SortedList] = Prim(lambda ex, a, k: p_sortedlist(ex, a, k), "SortedList")
except ImportError:
    pass
for _n, _p in list(BUILTINS.items()):
    if hasattr(builtins, _n):
        LIB[getattr(builtins, _n)] = _p
LIB[functools.reduce] = Prim(lambda ex, a, k: (_ for _ in ()).throw(Unsupported("reduce")), "reduce")


@lib(math.isnan)
def l_isnan(ex, a, k):
    v = ex.force(a[0])
    if isinstance(v, (int, float)):
        return math.isnan(v)
    if isinstance(v, FloatV):
        if ex.opts.get("rank_cmp"):
            return bits_nan(v.bv, True)
        return z3.fpIsNaN(v.fp)
    return False


@lib(math.isinf)
def l_isinf(ex, a, k):
    v = ex.force(a[0])
    if isinstance(v, (int, float)):
        return math.isinf(v)
    if isinstance(v, FloatV):
        if ex.opts.get("rank_cmp"):
            return bits_nan(v.bv, False)
        return z3.fpIsInf(v.fp)
    return False


@lib(math.isfinite)
def l_isfinite(ex, a, k):
    v = ex.force(a[0])
    if isinstance(v, (int, float)):
        return math.isfinite(v)
    return z3.Not(z3.Or(z3.fpIsNaN(v.fp), z3.fpIsInf(v.fp)))


@lib(math.copysign)
def l_copysign(ex, a, k):
    if is_boollike(a[1]) or is_intlike(a[1]):
        a = [a[0], -1.0 if ex.branch(ex.truth_pure(ex.compare("<", a[1], 0))) else 1.0]
    x, y = lift_float(a[0]), lift_float(a[1])
    if x is None or y is None:
        raise Unsupported("copysign")
    if isinstance(a[0], float) and isinstance(a[1], float):
        return math.copysign(*a)
    m = z3.BitVecVal((1 << 63) - 1, 64)
    return FloatV((x.bv & m) | (y.bv & ~m))


@lib(math.floor)
def l_floor(ex, a, k):
    v = ex.force(a[0])
    if isinstance(v, (int, float)):
        return math.floor(v)
    if is_intlike(v):
        return v
    if isinstance(v, RealV):
        return z3.ToInt(v.t)
    raise Unsupported("floor")


@lib(math.ceil)
def l_ceil(ex, a, k):
    v = ex.force(a[0])
    if isinstance(v, (int, float)):
        return math.ceil(v)
    if is_intlike(v):
        return v
    if isinstance(v, RealV):
        return -z3.ToInt(-v.t)
    raise Unsupported("ceil")


NARROW_F = {"!f": (z3.Float32(), 32), "!e": (z3.Float16(), 16)}
NARROW_I = {"!I": (32, False), "!i": (32, True), "!H": (16, False), "!h": (16, True)}


@lib(struct.pack)
def l_pack(ex, a, k):
    fmt, v = a
    v = ex.force(v)
    if isinstance(v, (int, float)) and not is_sym(v):
        return struct.pack(fmt, v)
    if fmt == "!d" and isinstance(v, FloatV):
        return ("$packed", v.bv)
    if fmt in ("!Q", "!q") and isinstance(v, BVI):
        if v.w <= 64:
            b = ext(v.bv, 65)
        else:
            b = v.bv
        lo, hi = (0, 2**64) if fmt == "!Q" else (-2**63, 2**63)
        w = max(b.size(), 67)
        bb = ext(b, w)
        ok = z3.And(bb >= lo, bb < hi)
        if not ex.pure and not ex.branch(ok):
            ex.raise_("error")
        return ("$packed", z3.Extract(63, 0, b))
    if fmt in NARROW_F:
        f = lift_float(v) if not is_sym(v) else v
        if isinstance(f, FloatV):
            sort, w = NARROW_F[fmt]
            r = z3.fpToFP(RNE, f.fp, sort)
            if ex.branch(z3.And(z3.fpIsInf(r), z3.Not(z3.fpIsInf(f.fp)))):
                ex.raise_("OverflowError")
            b = z3.BitVec(ex.fresh("narrow"), w)
            fact = z3.And(z3.fpBVToFP(b, sort) == r, z3.Extract(w - 1, w - 1, b) == z3.Extract(63, 63, f.bv))
            ex.assume(fact)
            return ("$packed", b)
    if fmt in NARROW_I and isinstance(v, BVI):
        w, signed = NARROW_I[fmt]
        bb = ext(v.bv, max(v.w, w + 2))
        lo, hi = (-(1 << (w - 1)), 1 << (w - 1)) if signed else (0, 1 << w)
        if not ex.pure and not ex.branch(z3.And(bb >= lo, bb < hi)):
            ex.raise_("error")
        return ("$packed", z3.Extract(w - 1, 0, bb))
    raise Unsupported(f"struct.pack {fmt}")


@lib(struct.unpack)
def l_unpack(ex, a, k):
    fmt, v = a
    if isinstance(v, bytes):
        return struct.unpack(fmt, v)
    if isinstance(v, tuple) and v and v[0] == "$packed":
        b = v[1]
        if fmt == "!d":
            return (FloatV(b),)
        if fmt == "!Q":
            return (BVI(z3.ZeroExt(1, b)),)
        if fmt == "!q":
            return (BVI(b),)
        if fmt in NARROW_F and b.size() == NARROW_F[fmt][1]:
            sort, w = NARROW_F[fmt]
            r = ex.fp_result(z3.fpToFP(RNE, z3.fpBVToFP(b, sort), F64))
            ex.assume(z3.Extract(63, 63, r.bv) == z3.Extract(w - 1, w - 1, b))
            return (r,)
        if fmt in NARROW_I and b.size() == NARROW_I[fmt][0]:
            return (BVI(b if NARROW_I[fmt][1] else z3.ZeroExt(1, b)),)
    raise Unsupported(f"struct.unpack {fmt}")


for _o, _s in ((operator.eq, "=="), (operator.lt, "<"), (operator.le, "<="), (operator.gt, ">"), (operator.ge, ">="), (operator.ne, "!=")):
    LIB[_o] = Prim((lambda op: lambda ex, a, k: ex.compare(op, a[0], a[1]))(_s), _o.__name__)
LIB[operator.not_] = Prim(lambda ex, a, k: NOT(ex.truth(a[0])), "not_")


@lib(itertools.chain)
def l_chain(ex, a, k):
    acc = ex.const_seq([])
    for x in a:
        acc = ex.seq_concat(acc, ex.as_seq(x))
    return acc


@lib(functools.partial)
def l_partial(ex, a, k):
    f, pre = a[0], list(a[1:])
    return Prim(lambda ex2, a2, k2: ex2.call(f, pre + list(a2), {**k, **k2}), "partial")


import copy as _copy
@lib(_copy.copy)
def l_copy(ex, a, k):
    v = a[0]
    if isinstance(v, Cell):
        return ex.new_list(ex.rd(v.key))
    raise Unsupported("copy")


# ---------------------------------------------------------------- methods on values
def method(ex, base, attr):
    t = None
    if isinstance(base, (Cell,)):
        t = LIST.get(attr)
    elif isinstance(base, (MapCell,)):
        t = MAP.get(attr)
    elif isinstance(base, RecCell):
        t = REC.get(attr)
    elif isinstance(base, Seq) or isinstance(base, (str, bytes, tuple)):
        t = SEQ.get(attr)
        if t is None and isinstance(base, str) and attr in ("format", "join"):
            t = lambda ex, s, a, k: OpaqueStr()
    elif isinstance(base, PyExc):
        if attr == "args":
            return tuple(base.pargs)
    elif is_intlike(base) or isinstance(base, BigFloatInt):
        t = INT.get(attr)
    elif isinstance(base, (float, FloatV)):
        t = FLOAT.get(attr)
    elif isinstance(base, Opaque):
        key = (base.sort, attr)
        if key in ex.ctx.opaque_attrs:
            return ex.ctx.opaque_attrs[key](ex, base)
    if t is None:
        return None
    return BoundV(base, Prim(lambda ex2, a, k: t(ex2, a[0], a[1:], k), attr))


LIST, MAP, REC, SEQ, INT, FLOAT = {}, {}, {}, {}, {}, {}


def meth(tab, *names):
    def deco(f):
        for n in names:
            tab[n] = f
        return f
    return deco


@meth(LIST, "append")
def m_append(ex, c, a, k): ex.list_append(c, a[0])
@meth(LIST, "add")
def m_sorted_add(ex, c, a, k):
    "sortedcontainers.SortedList.add (no key): the new element goes in front of the larger ones, the rest keep their order"
    if c.pykind != "sorted":
        ex.raise_("AttributeError")
    s = ex.rd(c.key)
    v = zint(a[0])
    if isinstance(norm(s.n), int) and norm(s.n) == 0:
        ex.wr(c.key, ex.const_seq([a[0]], Int))
        return None
    p = z3.Int(ex.fresh("sorted_at"))
    j = z3.Int("_sj")
    ex.assume(z3.And(0 <= p, p <= zint(s.n)))
    ex.pc.append(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < p), zint(s.get(j)) <= v)))
    ex.pc.append(z3.ForAll([j], z3.Implies(z3.And(p <= j, j < zint(s.n)), zint(s.get(j)) > v)))
    ex.wr(c.key, ex.splice(s, p, p, ex.const_seq([a[0]], Int)))


def p_sortedlist(ex, args, kw):
    if args or kw:
        raise Unsupported("SortedList of values")
    return ex.new_list(ex.const_seq([], Int), pykind="sorted")


@meth(LIST, "extend")
def m_extend(ex, c, a, k): ex.list_extend(c, a[0])
@meth(LIST, "pop")
def m_pop(ex, c, a, k): return ex.list_pop(c, a[0] if a else -1)
@meth(LIST, "insert")
def m_insert(ex, c, a, k): ex.list_insert(c, a[0], a[1])
@meth(LIST, "clear")
def m_clear(ex, c, a, k):
    s = ex.rd(c.key)
    ex.wr(c.key, ex.const_seq([], s.ety))
@meth(LIST, "reverse")
def m_reverse(ex, c, a, k): ex.wr(c.key, reverse_seq(ex, ex.rd(c.key)))
@meth(LIST, "copy")
def m_copy(ex, c, a, k): return ex.new_list(ex.rd(c.key))
@meth(LIST, "sort")
def m_sort(ex, c, a, k):
    r = p_sorted(ex, [c], k)
    ex.wr(c.key, ex.rd(r.key))
@meth(LIST, "index")
def m_index(ex, c, a, k):
    s = ex.rd(c.key)
    return seq_index(ex, s, a[0])
@meth(LIST, "remove")
def m_lremove(ex, c, a, k):
    ex.list_pop(c, seq_index(ex, ex.rd(c.key), a[0]))
@meth(SEQ, "index")
def m_sindex(ex, c, a, k): return seq_index(ex, ex.as_seq(c), a[0])


def seq_index(ex, s, x):
    if not ex.branch(ex.contains(x, s)):
        ex.raise_("ValueError")
    i, j = z3.Int(ex.fresh("idx")), z3.Int(ex.fresh("idj"))
    ex.assume(z3.And(0 <= i, i < zint(s.n)))
    ex.assume(ex.eq(s.get(i), x))
    ex.pure += 1
    try:
        e = ex.eq(s.get(j), x)
    finally:
        ex.pure -= 1
    ex.pc.append(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < i), NOT(zbool(e)))))
    return i


@meth(LIST, "tobytes")
def m_tobytes(ex, c, a, k): raise Unsupported("tobytes")


@meth(SEQ, "startswith")
def m_startswith(ex, s, a, k):
    if isinstance(s, str) and isinstance(a[0], str):
        return s.startswith(a[0])
    x, y = ex.as_seq(s), ex.as_seq(a[0])
    return AND(zint(x.n) >= zint(y.n), quant(ex, y, lambda i: ex.eq(x.get(i), y.get(i)), True))


@meth(SEQ, "join")
def m_join(ex, s, a, k):
    if s != "":
        return OpaqueStr()
    v = ex.as_seq(a[0])
    # joining one-character strings
    def g(i):
        e = v.get(i)
        es = ex.seq_or_none(e)
        return es.get(0)
    e0 = ex.seq_or_none(v.get(z3.Int("_ety"))) if not (isinstance(v.n, int) and v.n == 0) else None
    if e0 is not None and not (isinstance(e0.n, int) and e0.n == 1):
        if ex.pure:
            raise Unsupported("join of strings of unknown length")
        j = z3.Int(ex.fresh("jj"))
        ex.pure += 1
        try:
            n1 = zint(ex.seq_or_none(v.get(j)).n) == 1
        finally:
            ex.pure -= 1
        ex.oblige(f"{ex.contract.name}:join-of-characters", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < zint(v.n)), n1)), kind="assert")
    return Seq(v.n, g, Int, "str")


@meth(SEQ, "encode", "decode", "upper", "lower", "title", "strip", "split", "format", "hex")
def m_opaque_text(ex, s, a, k):
    raise Unsupported("text method")


@meth(MAP, "get")
def mm_get(ex, c, a, k):
    m = ex.rd(c.key)
    d = a[1] if len(a) > 1 else None
    has = m.dom(a[0])
    if isinstance(norm(has), bool):
        return m.get(a[0]) if norm(has) else d
    if ex.pure:
        return ex.merge(has, m.get(a[0]), d)
    return m.get(a[0]) if ex.branch(has) else d
@meth(MAP, "pop")
def mm_pop(ex, c, a, k):
    m = ex.rd(c.key)
    if len(a) > 1:
        if not ex.branch(m.dom(a[0])):
            return a[1]
    elif not ex.branch(m.dom(a[0])):
        ex.raise_("KeyError")
    v = m.get(a[0])
    ex.map_del(c, a[0])
    return v
@meth(MAP, "clear")
def mm_clear(ex, c, a, k):
    m = ex.rd(c.key)
    ex.wr(c.key, MapV(lambda k: False, m.get, 0, m.k, m.v))
@meth(MAP, "add")
def mm_add(ex, c, a, k): ex.map_set(c, a[0], None)
@meth(MAP, "discard")
def mm_discard(ex, c, a, k):
    m = ex.rd(c.key)
    if ex.branch(m.dom(a[0])):
        ex.map_del(c, a[0])
@meth(MAP, "issubset")
def mm_issubset(ex, c, a, k):
    x, y = ex.rd(c.key), ex.as_map(ex.force(a[0]))
    if x.k is None:
        return True
    vs, kv = ex.qkey(x.k)
    return z3.ForAll(vs, z3.Implies(zbool(x.dom(kv)), zbool(y.dom(kv))))
@meth(MAP, "issuperset")
def mm_issuperset(ex, c, a, k):
    x, y = ex.rd(c.key), ex.as_map(ex.force(a[0]))
    if y.k is None:
        return True
    vs, kv = ex.qkey(y.k)
    return z3.ForAll(vs, z3.Implies(zbool(y.dom(kv)), zbool(x.dom(kv))))
@meth(MAP, "remove")
def mm_remove(ex, c, a, k): ex.map_del(c, a[0])
@meth(MAP, "setdefault")
def mm_setdefault(ex, c, a, k):
    m = ex.rd(c.key)
    if ex.branch(m.dom(a[0])):
        return m.get(a[0])
    ex.map_set(c, a[0], a[1])
    return a[1]
def map_keys(ex, c):
    return ex.map_seq(ex.rd(c.key))
@meth(MAP, "keys")
def mm_keys(ex, c, a, k): return map_keys(ex, c)
@meth(MAP, "values")
def mm_values(ex, c, a, k):
    m, s = ex.rd(c.key), map_keys(ex, c)
    return Seq(s.n, lambda i: m.get(s.get(i)), m.v or AnyT, "list")
@meth(MAP, "items")
def mm_items(ex, c, a, k):
    m, s = ex.rd(c.key), map_keys(ex, c)
    return Seq(s.n, lambda i: (s.get(i), m.get(s.get(i))), TTuple(m.k, m.v) if m.k is not None and m.v is not None else AnyT, "list")


@meth(REC, "items")
def rec_items(ex, c, a, k): return tuple(ex.rd(c.key).items())


@meth(REC, "keys")
def rec_keys(ex, c, a, k): return tuple(ex.rd(c.key))


@meth(REC, "values")
def rec_values(ex, c, a, k): return tuple(ex.rd(c.key).values())


@meth(REC, "get")
def rr_get(ex, c, a, k):
    d = ex.rd(c.key)
    return d.get(a[0], a[1] if len(a) > 1 else None)


@meth(INT, "bit_length")
def i_bitlen(ex, v, a, k):
    if isinstance(v, int):
        return v.bit_length()
    if isinstance(v, BigFloatInt):
        r = z3.Int(ex.fresh("bl"))
        ex.assume(z3.And(r >= 65, r <= 1024))
        return r
    if isinstance(v, BVI):
        x = p_abs(ex, [v], {}).bv
        w = x.size()
        cw = w.bit_length() + 2
        r = z3.BitVecVal(0, cw)
        for i in range(w):
            r = z3.If(z3.Extract(i, i, x) == 1, z3.BitVecVal(i + 1, cw), r)
        return BVI(r)
    return ex.ctx.bit_length(ex, zint(v))


@meth(FLOAT, "is_integer")
def f_isint(ex, v, a, k):
    if isinstance(v, float):
        return v.is_integer()
    return z3.And(z3.Not(z3.fpIsNaN(v.fp)), z3.Not(z3.fpIsInf(v.fp)), z3.fpEQ(v.fp, z3.fpRoundToIntegral(z3.RTZ(), v.fp)))


# ---------------------------------------------------------------- specification forms
def _qform(univ):
    def f(ex, n, fr):
        lo = ex.ev(n.args[0], fr)
        hi = ex.ev(n.args[1], fr)
        lam = n.args[2]
        return range_quant(ex, lo, hi, lam, fr, univ, [k.value for k in n.keywords if k.arg == "trig"])
    return f


def range_quant(ex, lo, hi, lam, fr, univ, trig=()):
    if not isinstance(lam, ast.Lambda):
        raise SpecError("quantifier body must be a lambda")
    name = lam.args.args[0].arg
    lo_n, hi_n = norm(lo), norm(hi)
    if is_sym(lo_n):
        lo_n = norm(z3.simplify(lo_n))
    if is_sym(hi_n):
        hi_n = norm(z3.simplify(hi_n))
    def body(i):
        f2 = Frame({name: i}, fr, fr.module, fr.qual)
        f2.spec = fr.spec
        return ex.truth_pure(ex.ev(lam.body, f2))
    if isinstance(lo_n, int) and isinstance(hi_n, int) and hi_n - lo_n <= 12:
        xs = [body(k) for k in range(lo_n, hi_n)]
        return AND(*xs) if univ else OR(*xs)
    i = z3.Int(ex.fresh("q_" + name))
    ex.pure += 1
    ex.qdepth = getattr(ex, "qdepth", 0) + 1
    try:
        b = zbool(body(i))
        pats = []
        for t in trig:
            f2 = Frame({t.args.args[0].arg: i}, fr, fr.module, fr.qual)
            f2.spec = fr.spec
            v = ex.ev(t.body, f2)
            vs = v if isinstance(v, tuple) else (v,)
            terms = [term_of(x) for x in vs]
            pats.append(z3.MultiPattern(*terms) if len(terms) > 1 else terms[0])
    finally:
        ex.pure -= 1
        ex.qdepth -= 1
    rng = z3.And(zint(lo) <= i, i < zint(hi))
    if univ:
        return z3.ForAll([i], z3.Implies(rng, b), patterns=pats) if pats else z3.ForAll([i], z3.Implies(rng, b))
    return z3.Exists([i], z3.And(rng, b), patterns=pats) if pats else z3.Exists([i], z3.And(rng, b))


def term_of(x):
    if isinstance(x, (Opaque,)):
        return x.t
    if isinstance(x, FloatV):
        return x.bv
    if isinstance(x, SymRef):
        return zint(x.id)
    if isinstance(x, BVI):
        return x.bv
    return x


SPECFORMS["forall"] = _qform(True)
SPECFORMS["exists"] = _qform(False)


def _tquant(univ):
    def f(ex, n, fr):
        lam = n.args[-1]
        tys = [ex.ctx.named_type(a, ex, fr) for a in n.args[:-1]]
        names = [a.arg for a in lam.args.args]
        if len(tys) == 1 and len(names) > 1:
            tys = tys * len(names)
        vs, env = [], {}
        for nm, t in zip(names, tys):
            v, x = ex.qkey(t)
            vs += v
            env[nm] = x
        f2 = Frame(env, fr, fr.module, fr.qual)
        f2.spec = fr.spec
        ex.pure += 1
        ex.qdepth = getattr(ex, "qdepth", 0) + 1
        try:
            b = zbool(ex.truth_pure(ex.ev(lam.body, f2)))
            pats = []
            for k in n.keywords:
                if k.arg == "trig":
                    v = ex.ev(k.value.body, f2) if not k.value.args.args else None
                    if v is None:
                        f3 = Frame(dict(zip([a.arg for a in k.value.args.args], [env[m] for m in names])), fr, fr.module, fr.qual)
                        f3.spec = fr.spec
                        v = ex.ev(k.value.body, f3)
                    vv = v if isinstance(v, tuple) else (v,)
                    terms = [term_of(x) for x in vv]
                    pats.append(z3.MultiPattern(*terms) if len(terms) > 1 else terms[0])
        finally:
            ex.pure -= 1
            ex.qdepth -= 1
        q = z3.ForAll if univ else z3.Exists
        return q(vs, b, patterns=pats) if pats else q(vs, b)
    return f


SPECFORMS["forall_t"] = _tquant(True)
SPECFORMS["exists_t"] = _tquant(False)


@specform("implies")
def sf_implies(ex, n, fr):
    a = norm(ex.truth_pure(ex.ev(n.args[0], fr)))
    if is_sym(a):
        a = norm(z3.simplify(a))
    if a is False:
        return True
    b = ex.truth_pure(ex.ev(n.args[1], fr))
    return IMPL(a, b)


@specform("iff")
def sf_iff(ex, n, fr):
    a = ex.truth_pure(ex.ev(n.args[0], fr))
    b = ex.truth_pure(ex.ev(n.args[1], fr))
    if isinstance(a, bool) and isinstance(b, bool):
        return a == b
    return zbool(a) == zbool(b)


@specform("old")
def sf_old(ex, n, fr):
    if ex.old_store is None:
        raise SpecError("old() before the pre-state")
    env = dict(ex.old_vars)
    # bound variables of enclosing quantifiers stay visible
    f = fr
    bound = {}
    while f is not None and f.spec is not None:
        for k, v in f.vars.items():
            bound.setdefault(k, v)
        f = f.parent
    for k in ("result",):
        bound.pop(k, None)
    env = {**bound, **env}
    f2 = Frame(env, None, fr.module, fr.qual)
    f2.spec = fr.spec
    saved = ex.store
    ex.store = ex.old_store
    try:
        v = ex.ev(n.args[0], f2)
        # the contents then, not the reference
        return ex.rd(v.key) if isinstance(v, (Cell, MapCell)) else v
    finally:
        ex.store = saved


@specform("unfold")
def sf_unfold(ex, n, fr):
    call = n.args[0]
    sf = ex.ctx.rec_fn(ex.contract, call.func.id)
    args = [ex.ev(a, fr) for a in call.args]
    lhs = sf.apply(ex, args)
    rhs = sf.body(ex, args)
    return ex.eq(lhs, rhs)


@specform("lemma")
def sf_lemma(ex, n, fr):
    "lemma(name(args)): requires ==> ensures of a proved lemma"
    call = n.args[0]
    lc = ex.ctx.lemma(call.func.id)
    args = [ex.ev(a, fr) for a in call.args]
    ex.lemmas_used = getattr(ex, "lemmas_used", set()) | {lc.name}
    env = dict(zip(lc.params, args))
    f2 = Frame(env, None, lc.module, lc.qual)
    f2.spec = ex.ctx.spec_ns(lc)
    pre = AND(*[ex.truth_pure(ex.ev(parse_expr(s), f2)) for s in lc.requires])
    post = AND(*[ex.truth_pure(ex.ev(parse_expr(s), f2)) for _, s in lc.ensures])
    return IMPL(pre, post)


@spec("real")
def s_real(ex, a, k): return RealV(ex.real(a[0]))
@spec("bits")
def s_bits(ex, a, k):
    f = lift_float(a[0])
    return BVI(z3.ZeroExt(1, f.bv))
@spec("alive")
def s_alive(ex, a, k):
    "the reference was allocated before this point"
    r = a[0]
    A = ex.store.setdefault(("A", r.cls), z3.Int("alloc." + r.cls))
    return r.id < zint(A)
@spec("sort_pos")
def s_sort_pos(ex, a, k):
    "where element i of the input of the last sorted() went"
    if ex.last_sort is None:
        raise SpecError("no sort yet")
    return ex.last_sort[1](zint(a[0]))
@spec("same_float")
def s_same_float(ex, a, k): return lift_float(a[0]).bv == lift_float(a[1]).bv
@spec("integral")
def s_integral(ex, a, k):
    "a finite float with an integer value"
    f = lift_float(a[0])
    return z3.And(z3.Not(z3.fpIsNaN(f.fp)), z3.Not(z3.fpIsInf(f.fp)), z3.fpEQ(z3.fpRoundToIntegral(z3.RTZ(), f.fp), f.fp))
@spec("ipart")
def s_ipart(ex, a, k):
    "integer part of a float below 2**62 in magnitude"
    return BVI(z3.fpToSBV(z3.RTZ(), lift_float(a[0]).fp, z3.BitVecSort(64)))
@spec("fits")
def s_fits(ex, a, k):
    "a[0] is NaN or exactly a value of the IEEE format of a[1] bits"
    f = lift_float(a[0])
    if a[1] == 64:
        return True
    sort = {32: z3.Float32(), 16: z3.Float16()}[a[1]]
    return z3.Or(z3.fpIsNaN(f.fp), z3.fpFPToFP(RNE, z3.fpFPToFP(RNE, f.fp, sort), F64) == f.fp)
@spec("isnan")
def s_isnan(ex, a, k): return bits_nan(lift_float(a[0]).bv, True) if ex.opts.get("rank_cmp") else z3.fpIsNaN(lift_float(a[0]).fp)
@spec("isinf")
def s_isinf(ex, a, k): return bits_nan(lift_float(a[0]).bv, False) if ex.opts.get("rank_cmp") else z3.fpIsInf(lift_float(a[0]).fp)
@spec("is_int")
def s_is_int(ex, a, k): return is_intlike(a[0])
@spec("is_bool")
def s_is_bool(ex, a, k): return is_boollike(a[0])
@spec("is_none")
def s_is_none(ex, a, k): return ex.is_(a[0], None)
@spec("seq_eq")
def s_seq_eq(ex, a, k): return ex.eq(ex.as_seq(a[0]), ex.as_seq(a[1]))
@spec("has_key")
def s_has_key(ex, a, k):
    m = ex.rd(a[0].key) if isinstance(a[0], MapCell) else a[0]
    return m.dom(a[1])
@spec("at_key")
def s_at_key(ex, a, k):
    m = ex.rd(a[0].key) if isinstance(a[0], MapCell) else a[0]
    return m.get(a[1])
@spec("pow")
def s_pow(ex, a, k): return ex.binop("**", a[0], a[1])

# warnings filters change nothing a contract speaks about
import warnings as _warnings
LIB[_warnings.catch_warnings] = Prim(lambda ex, a, k: ("$ctx",), "catch_warnings")
LIB[_warnings.simplefilter] = Prim(lambda ex, a, k: None, "simplefilter")
