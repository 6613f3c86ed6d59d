"""Symbolic execution of Python ASTs, generating verification conditions.

Direct style with re-execution: a run follows a list of branch decisions; unexplored sides are queued.
Loops are cut by invariants; calls use the callee's contract (or inline an uncontracted helper's real text).
"""
import ast
import builtins
import enum
import math
import types
import z3
from .values import *
from .program import Program, strip_doc, loops_of, bind_order, fn_hash

MAXINLINE = 12


class Loop:
    def __init__(self, inv=(), decreases=None, types=None, index="_i", ghost=None, unroll=None, seq="_seq", havoc=()):
        self.inv = [(f"inv{k}", s) if isinstance(s, str) else s for k, s in enumerate(inv)]
        self.decreases, self.types, self.index, self.unroll, self.seq = decreases, types or {}, index, unroll, seq
        self.havoc = list(havoc)


class Frame:
    __slots__ = ("vars", "parent", "module", "qual", "node", "spec", "loops", "contract", "rename")
    def __init__(self, vars, parent, module, qual, node=None):
        self.vars, self.parent, self.module, self.qual, self.node = vars, parent, module, qual, node
        self.spec = None
        self.loops = None
        self.contract = None
        self.rename = {}


class Obl:
    __slots__ = ("name", "hyps", "goal", "kind", "trace", "params", "status", "time", "backend", "model", "line")
    def __init__(self, name, hyps, goal, kind, trace, line=None):
        self.name, self.hyps, self.goal, self.kind, self.trace, self.line = name, hyps, goal, kind, trace, line
        self.status = None
        self.time = 0.0
        self.backend = None
        self.model = None


def is_sym(x):
    return isinstance(x, z3.ExprRef)


def is_intlike(x):
    return (isinstance(x, int) and not isinstance(x, bool)) or (is_sym(x) and z3.is_int(x)) or isinstance(x, BVI)


def is_boollike(x):
    return isinstance(x, bool) or (is_sym(x) and z3.is_bool(x))


def zint(x):
    if isinstance(x, bool):
        return z3.IntVal(1 if x else 0)
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, BVI):
        return z3.BV2Int(x.bv, True)
    if is_sym(x) and z3.is_bool(x):
        return z3.If(x, z3.IntVal(1), z3.IntVal(0))
    if is_sym(x) and z3.is_int(x):
        return x
    raise Unsupported(f"not an int: {x!r}")


def zbool(x):
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if is_sym(x) and z3.is_bool(x):
        return x
    raise Unsupported(f"not a bool: {x!r}")


def norm(x):
    "fold z3 numerals back to python"
    if is_sym(x):
        if z3.is_int_value(x):
            return x.as_long()
        if z3.is_true(x):
            return True
        if z3.is_false(x):
            return False
    return x


def AND(*xs):
    ys = []
    for x in xs:
        if isinstance(x, bool):
            if not x:
                return False
        elif z3.is_true(x):
            pass
        elif z3.is_false(x):
            return False
        else:
            ys.append(x)
    if not ys:
        return True
    return ys[0] if len(ys) == 1 else z3.And(*ys)


def OR(*xs):
    ys = []
    for x in xs:
        if isinstance(x, bool):
            if x:
                return True
        elif z3.is_false(x):
            pass
        elif z3.is_true(x):
            return True
        else:
            ys.append(x)
    if not ys:
        return False
    return ys[0] if len(ys) == 1 else z3.Or(*ys)


def NOT(x):
    if isinstance(x, bool):
        return not x
    return z3.Not(x)


def IMPL(a, b):
    return OR(NOT(a), b)


def to_bvi(x):
    if isinstance(x, BVI):
        return x
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, int):
        w = x.bit_length() + 1
        return BVI(z3.BitVecVal(x, w))
    if is_sym(x) and z3.is_bool(x):
        return BVI(z3.If(x, z3.BitVecVal(1, 2), z3.BitVecVal(0, 2)))
    return None


def ext(b, w):
    return b if b.size() == w else z3.SignExt(w - b.size(), b)


def bvbin(op, a, b):
    a, b = to_bvi(a).bv, to_bvi(b).bv
    if op in ("+", "-"):
        w = max(a.size(), b.size()) + 1
        a, b = ext(a, w), ext(b, w)
        return BVI(a + b if op == "+" else a - b)
    if op == "*":
        w = a.size() + b.size()
        return BVI(ext(a, w) * ext(b, w))
    if op in ("&", "|", "^"):
        # masking by a nonnegative constant bounds the width
        w = max(a.size(), b.size())
        a2, b2 = ext(a, w), ext(b, w)
        r = {"&": a2 & b2, "|": a2 | b2, "^": a2 ^ b2}[op]
        if op == "&":
            for c in (a, b):
                if z3.is_bv_value(c) and c.as_signed_long() >= 0:
                    cw = c.as_signed_long().bit_length() + 1
                    if cw < r.size():
                        r = z3.Extract(cw - 1, 0, r)
        return BVI(r)
    raise Unsupported(f"bv op {op}")


def bvcmp(op, a, b):
    a, b = to_bvi(a).bv, to_bvi(b).bv
    w = max(a.size(), b.size())
    a, b = ext(a, w), ext(b, w)
    return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "==": a == b, "!=": a != b}[op]


RANK = z3.Function("float_rank", z3.BitVecSort(64), z3.IntSort())


def bits_nan(x, nan):
    m, INF = x & z3.BitVecVal((1 << 63) - 1, 64), z3.BitVecVal(0x7FF0000000000000, 64)
    return z3.UGT(m, INF) if nan else m == INF


def lift_float(x):
    if isinstance(x, FloatV):
        return x
    if isinstance(x, float):
        import struct
        return FloatV(z3.BitVecVal(struct.unpack("!Q", struct.pack("!d", x))[0], 64))
    return None


CMP = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!="}
BIN = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**", ast.BitAnd: "&",
       ast.BitOr: "|", ast.BitXor: "^", ast.LShift: "<<", ast.RShift: ">>", ast.Div: "/"}


class Exec:
    def __init__(self, ctx, contract, opts=None):
        self.ctx = ctx                # VerifContext: program, contracts, spec functions, class specs
        self.prog = ctx.prog
        self.contract = contract
        self.opts = opts or {}
        self.loop_mods = {}
        self.obls = []
        self.assumed_calls = set()
        self.inlined = set()
        self.trusted = set()
        self.feas_ms = self.opts.get("feas_ms", 300)
        self.max_paths = self.opts.get("max_paths", 6000)
        self.covers = []

    # ------------------------------------------------------------ driver
    def run_all(self):
        for _ in range(60):
            try:
                self.obls = []
                self.paths = 0
                self.normal_paths = 0
                work = [[]]
                self.work = work
                while work:
                    prefix = work.pop()
                    self.paths += 1
                    if self.paths > self.max_paths:
                        raise Unsupported("too many paths")
                    self.reset(prefix)
                    try:
                        self.run_contract()
                    except PathEnd:
                        pass
                return self.obls
            except Restart:
                continue
        raise Unsupported("loop modification sets did not stabilise")

    def reset(self, prefix):
        self.prefix = prefix
        self.trace = []
        self.pc = []
        self.feas = z3.Solver()
        self.feas.set("timeout", self.feas_ms)
        self.fresh_n = {}
        self.alloc_n = {}
        self.store = {}
        self.pure = 0
        self.noassume = 0
        self.depth = 0
        self.active_loops = []
        self.rec_facts = set()
        self.cur_line = None
        self.old_store = None
        self.hint_loops = {}
        self.feas_dirty = False
        self.hint_busy = False
        self.inl_frames = []
        self.hint_no = 0
        self.last_sort = None

    def fresh(self, name):
        k = self.fresh_n.get(name, 0)
        self.fresh_n[name] = k + 1
        return f"{name}!{k}"

    def alloc(self, site):
        k = self.alloc_n.get(site, 0)
        self.alloc_n[site] = k + 1
        return (site, k)

    # ------------------------------------------------------------ logic
    def assume(self, f):
        if isinstance(f, bool):
            if not f:
                raise PathEnd
            return
        f = zbool(f)
        self.pc.append(f)
        if not has_quant(f):
            self.feas.add(f)

    def feasible(self, c):
        r = self.feas.check(c)
        return r != z3.unsat

    def branch(self, cond):
        cond = norm(cond)
        if isinstance(cond, bool):
            return cond
        if self.pure:
            raise Unsupported("fork in pure context")
        cond = norm(z3.simplify(cond))
        if isinstance(cond, bool):
            return cond
        i = len(self.trace)
        if i < len(self.prefix):
            d = self.prefix[i]
        else:
            t = self.feasible(cond)
            f = self.feasible(z3.Not(cond))
            if t and f:
                d = True
                self.work.append(self.trace + [False])
            elif t:
                d = True
            elif f:
                d = False
            else:
                raise PathEnd
        self.trace.append(d)
        self.pc.append(cond if d else z3.Not(cond))
        if not has_quant(cond):
            self.feas.add(cond if d else z3.Not(cond))
        return d

    def qdepth_check(self):
        if getattr(self, "qdepth", 0):
            raise Unsupported("auxiliary definition under a quantifier")

    def choice(self, tag):
        "nondeterministic choice"
        return self.branch(z3.Bool(self.fresh("choice_" + tag)))

    def oblige(self, name, f, kind="assert", hints=True):
        if self.pure:
            raise Unsupported("obligation in pure context")
        f = norm(f)
        new = len(self.trace) >= len(self.prefix)
        if isinstance(f, bool) and f:
            if new:
                o = Obl(name, [], z3.BoolVal(True), kind, list(self.trace), self.cur_line)
                o.status, o.backend = "proved", "simplifier"
                self.obls.append(o)
            return
        if isinstance(f, bool):
            f = z3.BoolVal(f)
        if new:
            hyps = list(self.pc)
            if hints:
                hyps += self.eval_hints()
            o = Obl(name, hyps, f, kind, list(self.trace), self.cur_line)
            self.obls.append(o)
        else:
            if hints:
                self.eval_hints()
        self.assume(f)

    def eval_hints(self):
        if self.hint_busy or not self.contract.hints:
            return []
        out = []
        self.hint_busy = True
        n0 = len(self.pc)
        try:
            for h in self.contract.hints:
                n = parse_expr(h)
                fact = isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("unfold", "lemma")
                for fr in self.inl_frames[::-1] + [self.top_frame]:
                    try:
                        v = self.eval_spec(h, fr, self.hint_extra if fr is self.top_frame else self.hint_loops.get(id(fr)))
                        if isinstance(v, bool):
                            break
                        v = zbool(v)
                        if not fact:
                            # not a proved fact: only names its terms (a definition of a fresh symbol)
                            self.hint_no += 1
                            v = z3.Bool(f"hint!{self.hint_no}") == v
                        out.append(v)
                        break
                    except (SpecError, Unsupported):
                        continue
        finally:
            self.hint_busy = False
        return out

    # ------------------------------------------------------------ symbolic construction
    def mk(self, ty, name, idx=()):
        """a symbolic value of type ty. idx: tuple of Int terms the value is parametrised by."""
        def const(sort, nm):
            if not idx:
                return z3.Const(nm, sort)
            f = z3.Function(nm, *([i.sort() for i in idx] + [sort]))
            return f(*idx)

        def fact(mkf):
            # mkf: idx-> formula ; added once, quantified over idx
            if not idx:
                self.assume(mkf(()))
                return
            key = (name, "fact", mkf.__code__.co_firstlineno)
            if key in self.rec_facts:
                return
            self.rec_facts.add(key)
            vs = tuple(z3.Const(f"_q{k}", i.sort()) for k, i in enumerate(idx))
            body = mkf(vs)
            if isinstance(body, bool):
                return
            # facts are universally true of fresh symbols, so may be added in pure mode too
            self.pc.append(z3.ForAll(list(vs), body))

        if isinstance(ty, TInt):
            return const(z3.IntSort(), name)
        if isinstance(ty, TBool):
            return const(z3.BoolSort(), name)
        if isinstance(ty, TReal):
            return RealV(const(z3.RealSort(), name))
        if isinstance(ty, TFloat):
            return FloatV(const(z3.BitVecSort(64), name))
        if isinstance(ty, TBV):
            return BVI(z3.ZeroExt(1, const(z3.BitVecSort(ty.width), name)))
        if isinstance(ty, TNone):
            return None
        if isinstance(ty, TConst):
            return ty.v
        if isinstance(ty, TAny):
            return Opaque(const(sort_of("Any"), name), "Any")
        if isinstance(ty, TOpaque):
            return Opaque(const(sort_of(ty.sort), name), ty.sort)
        if isinstance(ty, TTuple):
            return tuple(self.mk(t, f"{name}.{k}", idx) for k, t in enumerate(ty.tys))
        if isinstance(ty, TSeq):
            n = const(z3.IntSort(), name + ".len")
            nm = name + ".len"

            def lenf(vs):
                return (z3.Function(nm, *([v.sort() for v in vs] + [z3.IntSort()]))(*vs) if vs else z3.Int(nm)) >= 0
            fact(lenf)
            s = Seq(n, lambda i: self.mk(ty.ety, name + ".at", idx + (zint(i),)), ty.ety, ty.kind)
            if ty.kind in ("str", "bytes"):
                hi = 0x10FFFF if ty.kind == "str" else 255
                at = name + ".at"

                def chf(vs):
                    j = z3.Int("_qj")
                    f = z3.Function(at, *([v.sort() for v in vs] + [z3.IntSort(), z3.IntSort()]))
                    return z3.ForAll([j], z3.And(f(*vs, j) >= 0, f(*vs, j) <= hi))
                fact(chf)
            return s
        if isinstance(ty, TList):
            if idx:
                raise Unsupported("list cell inside sequence")
            c = Cell(self.alloc(("mk", name)), ty.ety, ty.pykind)
            self.store[c.key] = self.mk(TSeq(ty.ety, "list"), name)
            return c
        if isinstance(ty, TOpt):
            b = const(z3.BoolSort(), name + ".isnone")
            if not idx and not self.pure:
                if self.branch(b):
                    return None
                return self.mk(ty.t, name)
            return OptV(b, self.mk(ty.t, name, idx))
        if isinstance(ty, TRef):
            return SymRef(const(z3.IntSort(), name), ty.cls)
        if isinstance(ty, TObj):
            if idx:
                raise Unsupported("object inside sequence; use TRef")
            o = Obj(self.alloc(("mkobj", name)), ty.cls)
            for f, t in self.ctx.classes[ty.cls].fields.items():
                self.store[(o.key, f)] = self.mk(t, f"{name}.{f}")
            return o
        if isinstance(ty, TDict):
            c = RecCell(self.alloc(("mkrec", name)))
            self.store[c.key] = {k: self.mk(t, f"{name}[{k}]") for k, t in ty.fields.items()}
            return c
        if isinstance(ty, TFn):
            return self.mk_fn(ty, name)
        if isinstance(ty, TMap):
            m = self.mk_map(ty, name, idx)
            c = MapCell(self.alloc(("mkmap", name)))
            self.store[c.key] = m
            return c
        if isinstance(ty, TMk) and not idx:
            return ty.f(self, name)
        raise Unsupported(f"mk {ty}")

    def mk_map(self, ty, name, idx=()):
        ksorts = self.key_sorts(ty.k)
        pre = [i.sort() for i in idx]
        dom = z3.Function(name + ".dom", *(pre + ksorts + [z3.BoolSort()]))
        size = z3.Int(name + ".size") if not idx else None
        if size is not None:
            self.assume(size >= 0)
            # size and dom are related by: size == 0 iff no key (axiomatised both ways)
            ks = [z3.Const(f"_qk{j}", s) for j, s in enumerate(ksorts)]
            self.pc.append(z3.ForAll(ks, z3.Implies(dom(*ks), size >= 1)))
        return MapV(lambda k: dom(*idx, *self.key_terms(k)),
                    lambda k: self.mk(ty.v, name + ".val", idx + tuple(self.key_terms(k))), size, ty.k, ty.v)

    def key_sorts(self, k):
        if isinstance(k, TInt):
            return [z3.IntSort()]
        if isinstance(k, TBool):
            return [z3.BoolSort()]
        if isinstance(k, TOpaque):
            return [sort_of(k.sort)]
        if isinstance(k, TAny):
            return [sort_of("Any")]
        if isinstance(k, TRef):
            return [z3.IntSort()]
        if isinstance(k, TTuple):
            return [s for t in k.tys for s in self.key_sorts(t)]
        raise Unsupported(f"map key type {k}")

    def key_terms(self, k):
        if isinstance(k, tuple):
            return [t for x in k for t in self.key_terms(x)]
        if is_boollike(k):
            return [zbool(k)]
        if is_intlike(k):
            return [zint(k)]
        if isinstance(k, Opaque):
            return [k.t]
        if isinstance(k, SymRef):
            return [zint(k.id)]
        raise Unsupported(f"map key {k!r}")

    def mk_fn(self, ty, name):
        def call(ex, args, kwargs):
            idx = []
            for a, t in zip(args, ty.args):
                if isinstance(t, TFloat):
                    idx.append(lift_float(a).bv)
                else:
                    idx.extend(ex.key_terms(ex.force(a)))
            if len(args) != len(ty.args):
                raise Unsupported("arity of function parameter")
            for r in ty.requires:
                if not ex.pure:
                    fr = Frame({f"a{k}": a for k, a in enumerate(args)}, None, ex.contract.module, name)
                    ex.oblige(f"{name}:requires", ex.truth(ex.eval_spec(r, ex.top_frame, fr.vars)), kind="pre")
            v = ex.mk(ty.ret, name + "()", tuple(idx)) if not isinstance(ty.ret, TOpt) else OptV(
                z3.Function(name + "().isnone", *([i.sort() for i in idx] + [z3.BoolSort()]))(*idx), ex.mk(ty.ret.t, name + "()", tuple(idx)))
            return v
        p = Prim(call, name)
        return p

    def typeof(self, v):
        if v is None:
            return NoneT
        if is_boollike(v):
            return Bool
        if isinstance(v, BVI):
            return v
        if is_intlike(v):
            return Int
        if isinstance(v, (float, FloatV)):
            return Float
        if isinstance(v, tuple):
            return TTuple(*[self.typeof(x) for x in v])
        if isinstance(v, str):
            return Str()
        if isinstance(v, bytes):
            return Bytes()
        if isinstance(v, Seq):
            return TSeq(v.ety, v.kind)
        if isinstance(v, SymRef):
            return TRef(v.cls)
        if isinstance(v, Opaque):
            return TOpaque(v.sort)
        if isinstance(v, OptV):
            return TOpt(self.typeof(v.v))
        if isinstance(v, RealV):
            return Real
        raise Unsupported(f"typeof {v!r}")

    def havoc_like(self, v, name, ty=None):
        if ty is None:
            if isinstance(v, BVI):
                return BVI(z3.BitVec(self.fresh(name), v.w))
            if isinstance(v, (Cell, Obj, MapCell, RecCell, PyVal, FuncV, Prim)):
                raise Unsupported(f"local {name} rebinding a mutable object in a loop; declare a type")
            if isinstance(v, MapV):
                return self.mk_map(TMap(v.k, v.v), self.fresh(name))
            ty = self.typeof(v)
            if isinstance(v, Seq) and v.ety is None:
                raise Unsupported(f"element type of {name} unknown; declare it")
        return self.mk(ty, self.fresh(name))

    # ------------------------------------------------------------ truth / merge / eq
    def truth(self, v):
        v = norm(v)
        if is_boollike(v):
            return v
        if v is None:
            return False
        if isinstance(v, BVI):
            return v.bv != 0
        if is_intlike(v):
            return (v != 0)
        if isinstance(v, (str, bytes, float, tuple)):
            return bool(v)
        if isinstance(v, Seq):
            return norm(z3.simplify(zint(v.n) > 0))
        if isinstance(v, Cell):
            return self.truth(self.rd(v.key))
        if isinstance(v, OptV):
            return AND(NOT(v.isnone), self.truth(v.v))
        if isinstance(v, FloatV):
            return z3.Not(z3.fpIsZero(v.fp))
        if isinstance(v, RecCell):
            return bool(self.rd(v.key))
        if isinstance(v, MapCell):
            return self.truth(self.rd(v.key))
        if isinstance(v, MapV):
            if v.size is None:
                raise Unsupported("truth of unsized map")
            return zint(v.size) > 0
        if isinstance(v, RangeV):
            return self.truth(self.as_seq(v))
        if isinstance(v, (FuncV, BoundV, Prim, SymRef)):
            return True
        if isinstance(v, PyVal):
            return bool(v.o)
        if isinstance(v, Obj):
            m = self.find_method(v.cls, "__bool__") or self.find_method(v.cls, "__len__")
            if m is None:
                return True
            return self.truth(self.call(BoundV(v, m), [], {}))
        if isinstance(v, Opaque):
            return z3.Function("truth_" + v.sort, v.t.sort(), z3.BoolSort())(v.t)
        raise Unsupported(f"truth of {v!r}")

    def merge(self, c, a, b):
        c = norm(c)
        if isinstance(c, bool):
            return a if c else b
        if a is b:
            return a
        if isinstance(a, OptV) or isinstance(b, OptV) or (a is None) != (b is None):
            an, av = (a.isnone, a.v) if isinstance(a, OptV) else ((True, None) if a is None else (False, a))
            bn, bv = (b.isnone, b.v) if isinstance(b, OptV) else ((True, None) if b is None else (False, b))
            v = av if bv is None else (bv if av is None else self.merge(c, av, bv))
            return OptV(z3.If(c, zbool(an), zbool(bn)), v)
        if is_boollike(a) and is_boollike(b):
            return norm(z3.If(c, zbool(a), zbool(b)))
        if isinstance(a, BVI) or isinstance(b, BVI):
            a2, b2 = to_bvi(a), to_bvi(b)
            if a2 is not None and b2 is not None:
                w = max(a2.w, b2.w)
                return BVI(z3.If(c, ext(a2.bv, w), ext(b2.bv, w)))
        if (is_intlike(a) or is_boollike(a)) and (is_intlike(b) or is_boollike(b)):
            if isinstance(a, int) and isinstance(b, int) and a == b and type(a) is type(b):
                return a
            return z3.If(c, zint(a), zint(b))
        if isinstance(a, RealV) and isinstance(b, RealV):
            return RealV(z3.If(c, a.t, b.t))
        fa, fb = lift_float(a), lift_float(b)
        if fa is not None and fb is not None:
            return FloatV(z3.If(c, fa.bv, fb.bv))
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.merge(c, x, y) for x, y in zip(a, b))
        sa, sb = self.seq_or_none(a), self.seq_or_none(b)
        if sa is not None and sb is not None:
            return Seq(z3.If(c, zint(sa.n), zint(sb.n)), lambda i: self.merge(c, sa.get(i), sb.get(i)), sa.ety or sb.ety, sa.kind)
        if isinstance(a, Opaque) and isinstance(b, Opaque) and a.sort == b.sort:
            return Opaque(z3.If(c, a.t, b.t), a.sort)
        if isinstance(a, SymRef) and isinstance(b, SymRef) and a.cls == b.cls:
            return SymRef(z3.If(c, zint(a.id), zint(b.id)), a.cls)
        if isinstance(a, (str, bytes, int, float)) and type(a) is type(b) and a == b:
            return a
        if isinstance(a, PyVal) and isinstance(b, PyVal) and a.o is b.o:
            return a
        raise Unsupported(f"merge {a!r} {b!r}")

    def seq_or_none(self, v):
        if isinstance(v, Seq):
            return v
        if isinstance(v, Cell):
            return self.rd(v.key)
        if isinstance(v, str):
            return self.const_seq([ord(c) for c in v], Int, "str")
        if isinstance(v, bytes):
            return self.const_seq(list(v), Int, "bytes")
        return None

    def const_seq(self, vals, ety=None, kind="list"):
        vals = list(vals)
        if ety is None and vals:
            try:
                ety = self.typeof(vals[0])
            except Unsupported:
                ety = None

        def get(i):
            i = norm(i)
            if isinstance(i, int):
                if 0 <= i < len(vals):
                    return vals[i]
                return self.mk(ety, "oob_elem")
            if not vals:
                if ety is None:
                    if self.pure:
                        return Opaque(z3.FreshConst(sort_of("Any")), "Any")     # unspecified: out of range
                    raise Unsupported("element of an empty sequence")
                return self.mk(ety, "empty_elem", (zint(i),))
            r = vals[-1]
            for k in range(len(vals) - 2, -1, -1):
                r = self.merge(bvcmp("==", i, k) if isinstance(i, BVI) else zint(i) == k, vals[k], r)
            return r
        return Seq(len(vals), get, ety, kind)

    def as_seq(self, v):
        "view any iterable as a sequence"
        if isinstance(v, OptV):
            v = self.force(v)
        s = self.seq_or_none(v)
        if s is not None:
            if s.kind == "str":
                return Seq(s.n, lambda i: self.char(s.get(i)), s.ety, "strchars")
            return s
        if isinstance(v, tuple):
            return self.const_seq(v, kind="tuple")
        if isinstance(v, RangeV):
            a, b, st = v.a, v.b, v.step
            if isinstance(a, int) and isinstance(b, int) and isinstance(st, int):
                n = len(range(a, b, st))
            elif st == 1:
                n = z3.If(zint(b) > zint(a), zint(b) - zint(a), z3.IntVal(0))
            elif st == -1:
                n = z3.If(zint(a) > zint(b), zint(a) - zint(b), z3.IntVal(0))
            else:
                raise Unsupported("range step")

            def get(i):
                if st == 1 and isinstance(a, int) and a == 0:
                    return i
                if isinstance(i, int) and isinstance(a, int):
                    return a + i * st
                return zint(a) + zint(i) * st
            return Seq(norm(z3.simplify(n)) if is_sym(n) else n, get, Int, "tuple")
        if isinstance(v, Obj):
            m = self.find_method(v.cls, "__iter__")
            if m is not None:
                return self.as_seq(self.call(BoundV(v, m), [], {}))
        if isinstance(v, (MapCell, MapV)):
            return self.map_seq(self.rd(v.key) if isinstance(v, MapCell) else v)
        if isinstance(v, PyVal) and isinstance(v.o, (set, frozenset)):
            raise Unsupported("iterating a set constant")
        raise Unsupported(f"iterate {v!r}")

    def map_seq(self, m):
        "the keys of a set or dict in some order, each once"
        if m.k is None:
            return Seq(0, lambda i: None, AnyT, "list")
        if self.pure:
            raise Unsupported("iterating a map in a specification")
        if m.size is None:
            m = MapV(m.dom, m.get, z3.Int(self.fresh("mapsize")), m.k, m.v)
            self.size_facts(m)
        nm = self.fresh("keys")
        seq = Seq(m.size, lambda i: self.mk(m.k, nm, (zint(i),)), m.k, "list")
        idx = z3.Function(nm + ".index", *(self.key_sorts(m.k) + [z3.IntSort()]))
        vs, kv = self.qkey(m.k)
        j = z3.Int(self.fresh("qj"))
        self.pure += 1
        try:
            at = lambda i: self.key_terms(seq.get(i))
            here = self.key_terms(kv)
            f1 = z3.Implies(zbool(m.dom(kv)), z3.And(0 <= idx(*here), idx(*here) < zint(m.size), *[x == y for x, y in zip(at(idx(*here)), here)]))
            f2 = z3.Implies(z3.And(0 <= j, j < zint(m.size)), z3.And(zbool(m.dom(seq.get(j))), idx(*at(j)) == j))
            pats = at(j)
        finally:
            self.pure -= 1
        self.pc.append(z3.ForAll(vs, f1, patterns=[idx(*here)]))
        self.pc.append(z3.ForAll(vs, f1))
        self.pc.append(z3.ForAll([j], f2, patterns=[z3.MultiPattern(*pats)]))
        return seq

    def new_map(self, dom, k, site, pykind="set", size=None):
        "a fresh set with this membership"
        c = MapCell(self.alloc(site), pykind)
        n = z3.Int(self.fresh("mapsize")) if size is None else size
        m = MapV(dom, lambda _: None, n, k, NoneT)
        self.store[c.key] = m
        self.size_facts(m)
        return c

    def as_map(self, v):
        "the set of the elements of any iterable"
        if isinstance(v, (MapCell, MapV)):
            return self.rd(v.key) if isinstance(v, MapCell) else v
        s = self.as_seq(v)
        n = norm(s.n)
        if n == 0:
            return MapV(lambda k: False, lambda k: None, 0, None, NoneT)
        kty = s.ety if s.ety is not None else self.typeof(s.get(0))
        self.key_sorts(kty)

        def dom(k):
            if isinstance(n, int) and n <= 8:
                return OR(*[self.eq(k, s.get(i)) for i in range(n)])
            return self.contains(k, s)
        return MapV(dom, lambda k: None, None, kty, NoneT)

    def char(self, code):
        "a one-character string"
        return Seq(1, lambda i: code, Int, "str")

    def eq(self, a, b):
        a, b = norm(a), norm(b)
        if isinstance(a, OptV) or isinstance(b, OptV):
            an, av = (a.isnone, a.v) if isinstance(a, OptV) else ((True, None) if a is None else (False, a))
            bn, bv = (b.isnone, b.v) if isinstance(b, OptV) else ((True, None) if b is None else (False, b))
            if av is None:
                return bn
            if bv is None:
                return an
            return OR(AND(an, bn), AND(NOT(an), NOT(bn), self.eq(av, bv)))
        if a is None or b is None:
            return a is b
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Obj) and not isinstance(y, Obj):
                m = self.find_method(x.cls, "__eq__")
                if m is not None:
                    return self.truth(self.call(BoundV(x, m), [y], {}))
        num = lambda x: is_intlike(x) or is_boollike(x)
        if num(a) and num(b):
            if isinstance(a, int) and isinstance(b, int):
                return a == b
            if is_boollike(a) and is_boollike(b):
                return norm(z3.simplify(zbool(a) == zbool(b)))
            if isinstance(a, BVI) or isinstance(b, BVI):
                if to_bvi(a) is not None and to_bvi(b) is not None:
                    return bvcmp("==", a, b)
            return zint(a) == zint(b)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, float) and num(y) and not isinstance(y, (int, BVI)):
                # exact comparison of a float constant with an int
                return False if x != x or math.isinf(x) else self.real(x) == z3.ToReal(zint(y))
        from .prims import BigFloatInt
        for x, y in ((a, b), (b, a)):
            if isinstance(x, BigFloatInt):
                y = lift_float(y) if not isinstance(y, BigFloatInt) else y.f
                if y is None:
                    raise Unsupported("comparison with a huge float integer")
                return z3.fpEQ(x.f.fp, y.fp)
        fa, fb = lift_float(a), lift_float(b)
        if fa is not None or fb is not None:
            if fa is not None and fb is not None:
                if isinstance(a, float) and isinstance(b, float):
                    return a == b
                return self.fcmp("==", fa, fb)
            f, o = (fa, b) if fa is not None else (fb, a)
            if num(o):
                return self.cmp_float_int("==", f, o)
            return False
        if isinstance(a, (str, bytes)) and isinstance(b, (str, bytes)):
            return a == b
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            return AND(*[self.eq(x, y) for x, y in zip(a, b)])
        sa, sb = self.seq_or_none(a), self.seq_or_none(b)
        if sa is None and isinstance(a, tuple) and sb is not None:
            sa = self.const_seq(a, kind="tuple")
        if sb is None and isinstance(b, tuple) and sa is not None:
            sb = self.const_seq(b, kind="tuple")
        if sa is not None and sb is not None:
            if isinstance(sa.n, int) and isinstance(sb.n, int):
                if sa.n != sb.n:
                    return False
                if sa.n <= 16:
                    return AND(*[self.eq(sa.get(k), sb.get(k)) for k in range(sa.n)])
            for x, y in ((sa, sb), (sb, sa)):
                if isinstance(x.n, int) and x.n <= 4:
                    return AND(zint(y.n) == x.n, *[self.eq(x.get(k), y.get(k)) for k in range(x.n)])
            i = z3.Int(self.fresh("eqi"))
            self.pure += 1
            try:
                body = self.eq(sa.get(i), sb.get(i))
            finally:
                self.pure -= 1
            return AND(zint(sa.n) == zint(sb.n), z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < zint(sa.n)), zbool(body))))
        if isinstance(a, Opaque) and isinstance(b, Opaque):
            return a.t == b.t if a.sort == b.sort else False
        if isinstance(a, SymRef) and isinstance(b, SymRef):
            return zint(a.id) == zint(b.id)
        if isinstance(a, Obj) and isinstance(b, Obj):
            if a is b or a.key == b.key:
                return True
            m = self.find_method(a.cls, "__eq__")
            if m is not None:
                return self.truth(self.call(BoundV(a, m), [b], {}))
            return False
        if isinstance(a, PyVal) and isinstance(b, PyVal):
            return a.o == b.o
        if isinstance(a, Prim) and isinstance(b, Prim):
            return a is b
        if isinstance(a, Prim) and isinstance(b, PyVal) or isinstance(a, PyVal) and isinstance(b, Prim):
            return False
        if isinstance(a, RealV) or isinstance(b, RealV):
            if any(isinstance(x, float) and not math.isfinite(x) for x in (a, b)):
                return False
            return self.real(a) == self.real(b)
        if isinstance(a, (MapCell, MapV)) and isinstance(b, (MapCell, MapV)):
            return self.map_eq(a, b)
        # values of different kinds
        kinds = (str, bytes, tuple, PyVal, Obj)
        if isinstance(a, kinds) or isinstance(b, kinds):
            if not isinstance(a, Opaque) and not isinstance(b, Opaque) and not any(isinstance(x, PyVal) and isinstance(x.o, (int, float, str, bytes, tuple, list, dict, set, frozenset)) for x in (a, b)):
                return False
        raise Unsupported(f"eq {a!r} {b!r}")

    def map_eq(self, a, b):
        a = self.rd(a.key) if isinstance(a, MapCell) else a
        b = self.rd(b.key) if isinstance(b, MapCell) else b
        vs, kv = self.qkey(a.k)
        self.pure += 1
        try:
            body = AND(zbool(a.dom(kv)) == zbool(b.dom(kv)),
                       True if isinstance(a.v, TNone) else IMPL(a.dom(kv), self.eq(a.get(kv), b.get(kv))))
        finally:
            self.pure -= 1
        return z3.ForAll(vs, zbool(body))

    def qkey(self, kty):
        "bound variables + key value"
        if isinstance(kty, TTuple):
            vs, out = [], []
            for t in kty.tys:
                v, x = self.qkey(t)
                vs += v
                out.append(x)
            return vs, tuple(out)
        if isinstance(kty, TInt):
            v = z3.Int(self.fresh("qk"))
            return [v], v
        if isinstance(kty, TBool):
            v = z3.Bool(self.fresh("qk"))
            return [v], v
        if isinstance(kty, TRef):
            v = z3.Int(self.fresh("qk"))
            return [v], SymRef(v, kty.cls)
        if isinstance(kty, TOpaque):
            v = z3.Const(self.fresh("qk"), sort_of(kty.sort))
            return [v], Opaque(v, kty.sort)
        if isinstance(kty, TAny):
            v = z3.Const(self.fresh("qk"), sort_of("Any"))
            return [v], Opaque(v, "Any")
        if isinstance(kty, TFloat):
            v = z3.BitVec(self.fresh("qk"), 64)
            return [v], FloatV(v)
        if isinstance(kty, TReal):
            v = z3.Real(self.fresh("qk"))
            return [v], RealV(v)
        if isinstance(kty, TBV):
            v = z3.BitVec(self.fresh("qk"), kty.width)
            return [v], BVI(z3.ZeroExt(1, v))
        raise Unsupported(f"quantify over {kty}")

    def real(self, x):
        if isinstance(x, RealV):
            return x.t
        if isinstance(x, (int, float)) and not isinstance(x, bool):
            from fractions import Fraction
            fr = Fraction(x)
            return z3.Q(fr.numerator, fr.denominator)
        if isinstance(x, FloatV):
            return z3.fpToReal(x.fp)
        return z3.ToReal(zint(x))

    def cmp_float_int(self, op, f, o, swap=False):
        # int constants exactly representable only; otherwise exact comparison through reals
        if isinstance(o, bool):
            o = int(o)
        if isinstance(o, int) and abs(o) <= 2**53:
            g = lift_float(float(o))
            return self.fcmp(op, f, g)
        if isinstance(o, BVI):
            # exact: compare via a wide conversion is not exact above 2**53; require it
            if o.w <= 54:
                g = z3.fpSignedToFP(RNE, o.bv, F64)
                return self.fcmpfp(op, f.fp, g)
            w = o.w + 2
            lim = z3.FPVal(float(2 ** (o.w - 1)), F64)
            small = z3.fpLT(z3.fpAbs(f.fp), lim)
            fl = z3.fpToSBV(z3.RTN(), f.fp, z3.BitVecSort(w))
            integral = z3.fpEQ(z3.fpRoundToIntegral(z3.RTZ(), f.fp), f.fp)
            oo = ext(o.bv, w)
            num_ = z3.Not(z3.fpIsNaN(f.fp))
            eq = z3.And(num_, small, integral, fl == oo)
            if op == "==":
                return eq
            if op == "!=":
                return z3.Not(eq)
            # f < o  iff  floor(f) < o
            lt = z3.And(num_, z3.If(small, fl < oo, z3.fpIsNegative(f.fp)))
            if op == "<":
                return lt
            if op == "<=":
                return z3.Or(lt, eq)
            if op == ">=":
                return z3.And(num_, z3.Not(lt))
            if op == ">":
                return z3.And(num_, z3.Not(lt), z3.Not(eq))
        raise Unsupported("float/int comparison")

    def fcmp(self, op, a, b):
        if self.opts.get("rank_cmp"):
            # by position in the order of floats, as an unbounded integer (-0.0 at -1, 0.0 at 0)
            nan = z3.Or(bits_nan(a.bv, True), bits_nan(b.bv, True))
            x, y = self.frank(a), self.frank(b)
            eq = z3.And(z3.Not(nan), z3.Or(x == y, z3.And(-1 <= x, x <= 0, -1 <= y, y <= 0)))
            lt = lambda p, q: z3.And(z3.Not(nan), p < q, z3.Not(z3.And(p == -1, q == 0)))
            return {"==": lambda: eq, "!=": lambda: z3.Not(eq), "<": lambda: lt(x, y), ">": lambda: lt(y, x), "<=": lambda: z3.Or(eq, lt(x, y)), ">=": lambda: z3.Or(eq, lt(y, x))}[op]()
        return self.fcmpfp(op, a.fp, b.fp)

    def frank(self, f):
        b = z3.simplify(f.bv)
        if z3.is_bv_value(b):
            n = b.as_long()
            return z3.IntVal(n if n < 1 << 63 else (1 << 63) - 1 - n)
        return RANK(f.bv)

    def fcmpfp(self, op, a, b):
        return {"<": z3.fpLT, "<=": z3.fpLEQ, ">": z3.fpGT, ">=": z3.fpGEQ, "==": z3.fpEQ,
                "!=": lambda x, y: z3.Not(z3.fpEQ(x, y))}[op](a, b)

    def compare(self, op, a, b):
        a, b = norm(a), norm(b)
        if op == "==":
            return self.eq(a, b)
        if op == "!=":
            return NOT(self.eq(a, b))
        a, b = self.force(a), self.force(b)
        num = lambda x: is_intlike(x) or is_boollike(x)
        pf = lambda x: isinstance(x, (int, float))
        if pf(a) and pf(b):
            return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op]
        if isinstance(a, RealV) or isinstance(b, RealV):
            for x, o in ((a, op), (b, {"<": ">", "<=": ">=", ">": "<", ">=": "<="}[op])):
                if isinstance(x, float) and not math.isfinite(x):
                    return x == x and (x > 0) == (o in (">", ">="))
            x, y = self.real(a), self.real(b)
            return {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[op]
        if num(a) and num(b):
            if isinstance(a, BVI) or isinstance(b, BVI):
                if to_bvi(a) is not None and to_bvi(b) is not None:
                    return norm(z3.simplify(bvcmp(op, a, b)))
            x, y = zint(a), zint(b)
            return {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[op]
        fa, fb = lift_float(a), lift_float(b)
        if fa is not None and fb is not None:
            return self.fcmp(op, fa, fb)
        for x, y, o in ((a, b, op), (b, a, {"<": ">", "<=": ">=", ">": "<", ">=": "<="}[op])):
            if isinstance(x, float) and num(y) and not isinstance(y, (int, BVI)):
                # exact comparison of a float constant with an int
                if x != x:
                    return False
                if math.isinf(x):
                    return (x > 0) == (o in (">", ">="))
                u, v = self.real(x), z3.ToReal(zint(y))
                return {"<": u < v, "<=": u <= v, ">": u > v, ">=": u >= v}[o]
        if fa is not None and num(b):
            return self.cmp_float_int(op, fa, b)
        if fb is not None and num(a):
            return self.cmp_float_int({"<": ">", "<=": ">=", ">": "<", ">=": "<="}[op], fb, a)
        if isinstance(a, tuple) and isinstance(b, tuple):
            return self.lex(op, list(a), list(b))
        if isinstance(a, str) and isinstance(b, str):
            return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op]
        sa, sb = self.seq_or_none(a), self.seq_or_none(b)
        if sa is not None and sb is not None and sa.n == 1 and sb.n == 1:
            return self.compare(op, sa.get(0), sb.get(0))
        if sa is None and isinstance(a, tuple) and sb is not None:
            sa = self.const_seq(a, kind="tuple")
        if sb is None and isinstance(b, tuple) and sa is not None:
            sb = self.const_seq(b, kind="tuple")
        if sa is not None and sb is not None and sa.kind == sb.kind:
            if op in (">", ">="):
                sa, sb, op = sb, sa, {">": "<", ">=": "<="}[op]
            self.qdepth_check()
            d, k = z3.Int(self.fresh("lexd")), z3.Int(self.fresh("lexk"))
            na, nb = zint(sa.n), zint(sb.n)
            self.pure += 1
            try:
                same = z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < d), zbool(self.eq(sa.get(k), sb.get(k)))))
                less = zbool(self.compare("<", sa.get(d), sb.get(d)))
            finally:
                self.pure -= 1
            end = z3.And(d == na, d < nb) if op == "<" else d == na
            return z3.Exists([d], z3.And(0 <= d, d <= na, d <= nb, same, z3.Or(end, z3.And(d < na, d < nb, less))))
        if isinstance(a, SymRef) and isinstance(b, SymRef):
            name = {"<": "__lt__", "<=": "__le__", ">": "__gt__", ">=": "__ge__"}[op]
            m = self.find_method(a.cls, name)
            if m:
                return self.truth(self.call(BoundV(a, m), [b], {}))
        if isinstance(a, Obj):
            name = {"<": "__lt__", "<=": "__le__", ">": "__gt__", ">=": "__ge__"}[op]
            m = self.find_method(a.cls, name)
            if m:
                return self.truth(self.call(BoundV(a, m), [b], {}))
        if isinstance(b, Obj) and a is not None:
            m = self.find_method(b.cls, {"<": "__gt__", "<=": "__ge__", ">": "__lt__", ">=": "__le__"}[op])
            if m:
                return self.truth(self.call(BoundV(b, m), [a], {}))
        if isinstance(a, Opaque) and isinstance(b, Opaque) and a.sort == b.sort:
            return self.opaque_cmp(op, a, b)
        if a is None or b is None:
            return self.raise_("TypeError")
        raise Unsupported(f"compare {op} {a!r} {b!r}")

    def opaque_cmp(self, op, a, b):
        "an arbitrary total order on an opaque sort, via an injective-up-to-equality rank"
        rank = z3.Function("rank_" + a.sort, a.t.sort(), z3.RealSort())
        x, y = rank(a.t), rank(b.t)
        return {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[op]

    def lex(self, op, a, b):
        if not a or not b:
            la, lb = len(a), len(b)
            return {"<": la < lb, "<=": la <= lb, ">": la > lb, ">=": la >= lb}[op]
        strict = {"<": "<", "<=": "<", ">": ">", ">=": ">"}[op]
        e = self.eq(a[0], b[0])
        return OR(self.compare(strict, a[0], b[0]), AND(e, self.lex(op, a[1:], b[1:])))

    def is_(self, a, b):
        if isinstance(a, OptV) and b is None:
            return a.isnone
        if isinstance(b, OptV) and a is None:
            return b.isnone
        if a is None or b is None:
            return a is b
        if is_boollike(a) and is_boollike(b):
            return self.eq(a, b)
        if isinstance(a, (Cell, Obj, MapCell, RecCell)) and type(a) is type(b):
            return a.key == b.key
        if isinstance(a, SymRef) and isinstance(b, SymRef):
            return zint(a.id) == zint(b.id)
        if isinstance(a, PyVal) or isinstance(b, PyVal):
            if isinstance(a, PyVal) and isinstance(b, PyVal):
                return a.o is b.o
            if isinstance(a, Opaque) or isinstance(b, Opaque):
                raise Unsupported("identity of opaque")
            return False
        if isinstance(a, Opaque) and isinstance(b, Opaque):
            return self.eq(a, b)
        if is_boollike(a) != is_boollike(b):
            return False
        if isinstance(a, Prim) and isinstance(b, Prim):
            return a is b
        if {type(a), type(b)} == {Obj, SymRef} and a.cls != b.cls:
            return False        # objects and references of different modelled classes are different objects
        raise Unsupported(f"is {a!r} {b!r}")

    def force(self, v):
        "strip Optional; None stays None"
        if isinstance(v, OptV):
            if self.pure:
                return v.v
            if self.branch(v.isnone):
                return None
            return v.v
        return v

    def contains(self, x, c):
        c = self.force(c)
        if isinstance(c, tuple):
            return OR(*[self.eq(x, y) for y in c])
        if isinstance(c, PyVal) and isinstance(c.o, (set, frozenset, list, dict, range)):
            if isinstance(c.o, range):
                return AND(self.compare(">=", x, c.o.start), self.compare("<", x, c.o.stop))
            return OR(*[self.eq(x, self.lift(y)) for y in c.o])
        if isinstance(c, RecCell):
            if isinstance(x, (Prim, PyVal, FuncV)):
                x = objkey(x)
            elif not isinstance(x, str):
                raise Unsupported("record membership")
            return x in self.rd(c.key)
        if isinstance(c, MapCell):
            return self.rd(c.key).dom(x)
        if isinstance(c, MapV):
            return c.dom(x)
        if isinstance(c, (Obj, SymRef)):
            m = self.find_method(c.cls, "__contains__")
            if m is None:
                raise Unsupported("in object")
            return self.truth(self.call(BoundV(c, m), [x], {}))
        s = self.as_seq(c)
        if isinstance(s.n, int) and s.n <= 8:
            return OR(*[self.eq(x, s.get(k)) for k in range(s.n)])
        i = z3.Int(self.fresh("ini"))
        self.pure += 1
        try:
            b = self.eq(x, s.get(i))
        finally:
            self.pure -= 1
        return z3.Exists([i], z3.And(0 <= i, i < zint(s.n), zbool(b)))

    # ------------------------------------------------------------ store
    def rd(self, key):
        try:
            return self.store[key]
        except KeyError:
            raise SpecError(f"no stored value for {key}")

    def wr(self, key, v):
        if self.pure:
            raise Unsupported("mutation in pure context")
        for lp in self.active_loops:
            if key in lp["keys"] and ("S", key) not in self.loop_mods.setdefault(lp["key"], {}):
                self.loop_mods[lp["key"]][("S", key)] = True
                raise Restart
        self.store[key] = v

    def setvar(self, fr, name, v):
        for lp in self.active_loops:
            if lp["frame"] is fr and name in lp["vars"] and ("V", name) not in self.loop_mods.setdefault(lp["key"], {}):
                self.loop_mods[lp["key"]][("V", name)] = True
                raise Restart
        fr.vars[name] = v

    def raise_(self, name, args=()):
        if self.pure:
            raise Unsupported(f"exception {name} in pure context")
        cls = getattr(builtins, name, None) if isinstance(name, str) else name
        raise PyExc(cls if cls is not None else name, args)

    # heap of symbolic references
    def hget(self, ref, field):
        key = ("H", ref.cls, field)
        if key not in self.store:
            cs = self.ctx.classes[ref.cls]
            if field not in cs.fields:
                return None
            t = cs.fields[field]
            nm = f"heap.{ref.cls}.{field}"
            self.init_heap(key, t, nm)
        return self.store[key][0](zint(ref.id))

    def init_heap(self, key, t, nm):
        f = lambda r: self.mk(t, nm, (r,))
        ent = (f, t)
        self.store[key] = ent
        if self.old_store is not None:
            self.old_store.setdefault(key, ent)
        for lp in self.active_loops:
            lp["keys"].add(key)

    def hset(self, ref, field, v):
        key = ("H", ref.cls, field)
        if key not in self.store:
            self.hget(ref, field)
        f, t = self.store[key]
        rid = zint(ref.id)
        self.wr(key, (lambda r: self.merge(norm(z3.simplify(r == rid)), v, f(r)), t))

    # ------------------------------------------------------------ lifting of real objects
    def lift(self, o, modname=None, name=None):
        if isinstance(o, enum.IntEnum):
            return int(o)
        if o is None or isinstance(o, (bool, int, float, str, bytes)):
            return o if type(o) in (type(None), bool, int, float, str, bytes) else PyVal(o)
        if type(o) is tuple:
            return tuple(self.lift(x) for x in o)
        if isinstance(o, types.FunctionType) and (o.__module__ or "").startswith("hypothesis"):
            node = self.prog.fn(o.__module__, o.__qualname__)
            if node is not None:
                return FuncV(node, None, o.__module__, o.__qualname__)
        if hasattr(o, "__wrapped__") and isinstance(getattr(o, "__wrapped__"), types.FunctionType) and o.__wrapped__.__module__.startswith("hypothesis"):
            w = o.__wrapped__
            node = self.prog.fn(w.__module__, w.__qualname__)
            if node is not None:
                return FuncV(node, None, w.__module__, w.__qualname__)
        if isinstance(o, types.BuiltinFunctionType) or isinstance(o, type) or isinstance(o, types.FunctionType):
            from . import prims
            p = prims.lookup(o)
            if p is not None:
                return p
            return PyVal(o)
        tb = self.ctx.tables.get((modname, name))
        if tb is not None:
            return Seq(len(o), lambda i: self.table_get(tb, o, i), Int, "list")
        import array
        if isinstance(o, (bytearray, array.array)) or (isinstance(o, list) and all(type(x) is int for x in o)):
            return self.const_seq(list(o), Int, "list")
        return PyVal(o)

    def table_get(self, tb, o, i):
        i = norm(i)
        if isinstance(i, int):
            return o[i] if 0 <= i < len(o) else 0
        # the closed form is only used when it agrees with every entry of the table in the current source
        key = (id(o), tb.expr)
        if key not in TABLE_OK:
            TABLE_OK[key] = all(eval(tb.expr, {tb.var: j}) == o[j] for j in range(len(o)))
        if TABLE_OK[key]:
            fr = Frame({tb.var: i}, None, self.contract.module, "table")
            return self.pure_eval(tb.expr, fr)
        if isinstance(i, BVI):
            w = max(1, (len(o) - 1).bit_length())
            ow = max(max(o).bit_length(), 1) + 1

            def mux(lo, k):
                if k < 0:
                    return z3.BitVecVal(o[lo] if lo < len(o) else 0, ow)
                a, b = mux(lo, k - 1), mux(lo + (1 << k), k - 1)
                if a.eq(b):
                    return a
                return z3.If(z3.Extract(k, k, i.bv) == 1, b, a)
            return BVI(mux(0, w - 1)) if i.w > w else _uns("table index width")
        r = z3.IntVal(o[-1])
        for j in range(len(o) - 1):
            r = z3.If(zint(i) == j, z3.IntVal(o[j]), r)
        return r

    def pure_eval(self, src, fr):
        self.pure += 1
        try:
            return self.ev(parse_expr(src), fr)
        finally:
            self.pure -= 1

    # ------------------------------------------------------------ names
    def lookup(self, name, fr):
        f = fr
        while f is not None:
            if name in f.vars:
                return f.vars[name]
            if name == "_yielded" and "$yield" in f.vars:
                return f.vars["$yield"]
            f = f.parent
        if fr.spec is not None:
            sp = fr.spec
            if name in sp:
                return sp[name]
        from . import prims
        if fr.spec is not None and name in prims.SPEC:
            return prims.SPEC[name]
        m = self.prog.module(fr.module)
        if (fr.module, name) in self.ctx.overrides:
            return self.ctx.overrides[(fr.module, name)]
        if name in vars(m):
            return self.lift(vars(m)[name], fr.module, name)
        if name in prims.BUILTINS:
            return prims.BUILTINS[name]
        if hasattr(builtins, name):
            return self.lift(getattr(builtins, name))
        if self.pure and name in self.contract.ghost:
            return self.top_frame.vars[name]
        if self.pure and name in self.contract.params and name in self.old_vars:
            return self.old_vars[name]      # the contract's argument, seen from an invariant of an inlined helper
        raise SpecError(f"name {name} not found")

    # ------------------------------------------------------------ spec evaluation
    def eval_spec(self, src, fr, extra=None, store=None):
        """evaluate a spec expression in pure mode in (a child of) fr"""
        node = parse_expr(src) if isinstance(src, str) else src
        v = dict(extra or {})
        f2 = Frame(v, fr, fr.module, fr.qual)
        f2.spec = self.ctx.spec_ns(self.contract)
        for new, oldn in fr.rename.items():
            if oldn in fr.vars and new not in v:
                v[new] = fr.vars[oldn]
        self.pure += 1
        saved = self.store
        if store is not None:
            self.store = store
        try:
            return self.ev(node, f2)
        except PyExc as e:
            raise Unsupported(f"spec raised {e.name}: {src}")
        finally:
            self.pure -= 1
            self.store = saved

    def spec_bool(self, src, fr, extra=None):
        r = self.truth_pure(self.eval_spec(src, fr, extra))
        return r

    def truth_pure(self, v):
        self.pure += 1
        try:
            return self.truth(v)
        finally:
            self.pure -= 1

    # ------------------------------------------------------------ contract verification
    def run_contract(self):
        c = self.contract
        node = self.ctx.node_of(c)
        fr = Frame({}, None, c.module, c.qual, node)
        fr.contract = c
        if c.lemma:
            fr.spec = self.ctx.spec_ns(c)
        self.top_frame = fr
        self.hint_extra = {}
        self.old_store = None
        self.old_vars = {}
        if self.opts.get("rank_cmp"):
            for b, n in ((0, 0), (1 << 63, -1)):
                self.pc.append(RANK(z3.BitVecVal(b, 64)) == n)
        # parameters
        for p, t in c.params.items():
            if callable(t) and not isinstance(t, Ty):
                v = t(self)
            else:
                v = self.mk(t, p)
            fr.vars[p] = v
        for g, t in c.ghost.items():
            fr.vars[g] = self.mk(t, g)
        self.bind_defaults(node, fr, c)
        if c.self_invariant:
            self.assume_inv(fr.vars["self"], fr)
        for p, t in c.params.items():
            if p != "self" and isinstance(t, TObj) and self.ctx.classes[t.cls].inv and not c.noinv:
                self.assume_inv(fr.vars[p], fr)
        for s in c.requires:
            self.assume(self.spec_bool(s, fr))
        self.entry_pc = len(self.pc)
        fr.rename = {}
        self.old_store = dict(self.store)
        self.old_vars = dict(fr.vars)
        fr.loops = self.ctx.loop_specs(c, node)
        fr.rename = self.ctx.renames(c, node)
        if c.is_generator:
            fr.vars["$yield"] = Cell(self.alloc("yield"), c.yields)
            self.store[fr.vars["$yield"].key] = Seq(0, lambda i: self.mk(c.yields, "noyield", (zint(i),)), c.yields, "list")
        if c.decreases is not None:
            self.dec0 = [self.eval_spec(d, fr) for d in aslist(c.decreases)]
            for d in self.dec0:
                self.oblige(f"{c.name}:decreases-nonneg", self.compare(">=", d, 0), kind="termination")
        try:
            if c.lemma:
                body = node.body
            else:
                body = strip_doc(node)
            self.exec_block(body, fr)
            ret = None
        except ReturnX as r:
            ret = r.v
        except PyExc as e:
            return self.check_raise(e, fr)
        if c.is_generator:
            ret = self.rd(fr.vars["$yield"].key)
        self.finish(ret, fr)

    def bind_defaults(self, node, fr, c):
        a = node.args
        pos = a.posonlyargs + a.args
        ds = [None] * (len(pos) - len(a.defaults)) + list(a.defaults)
        for p, d in list(zip(pos, ds)) + list(zip(a.kwonlyargs, a.kw_defaults)):
            if p.arg not in fr.vars:
                if d is None:
                    raise Unsupported(f"parameter {p.arg} of {c.qual} is not in the contract")
                fr.vars[p.arg] = self.ev(d, Frame({}, None, c.module, c.qual))
        if a.vararg and a.vararg.arg not in fr.vars:
            fr.vars[a.vararg.arg] = ()
        if a.kwarg and a.kwarg.arg not in fr.vars:
            raise Unsupported("**kwargs")

    def assume_inv(self, v, fr):
        for nm, s in self.ctx.classes[v.cls].inv:
            self.assume(self.spec_bool(s, fr, {"self": v}))

    def finish(self, ret, fr):
        c = self.contract
        self.normal_paths += 1
        pre = Frame(dict(self.old_vars), None, c.module, c.qual)
        extra = {"result": ret}
        for p in self.old_vars:
            extra[p] = self.old_vars[p]      # a rebound parameter: specs speak about the argument
        self.hint_extra = dict(extra)
        for exc, cond in c.raises.items():
            if cond is not None:
                f = self.eval_spec(cond, pre, store=self.old_store)
                self.oblige(f"{c.name}:returns-only-if-not:{exc}", NOT(self.truth_pure(f)), kind="post")
        if c.returns is not None:
            self.oblige_type(c, ret)
        for nm, s in c.ensures:
            self.oblige(f"{c.name}:ensures:{nm}", self.spec_bool(s, fr, extra), kind="post")
        if c.self_invariant or c.establishes_inv:
            for nm, s in self.ctx.classes[self.old_vars["self"].cls].inv:
                self.oblige(f"{c.name}:invariant:{nm}", self.spec_bool(s, fr, {"self": self.old_vars["self"]}), kind="inv")
        self.check_frame(c, fr)
        if len(self.trace) >= len(self.prefix):
            self.covers.append(list(self.pc))

    def oblige_type(self, c, ret):
        ok = self.conforms(ret, c.returns)
        self.oblige(f"{c.name}:returns-type", ok, kind="post")

    def conforms(self, v, t):
        if isinstance(v, OptV):
            if isinstance(t, TOpt):
                return True
            return AND(NOT(v.isnone), self.conforms(v.v, t))
        if isinstance(t, TOpt):
            return True if v is None else self.conforms(v, t.t)
        if isinstance(t, TNone):
            return v is None
        if isinstance(t, (TInt, TBV)):
            return is_intlike(v)
        if isinstance(t, TBool):
            return is_boollike(v)
        if isinstance(t, TFloat):
            return isinstance(v, (float, FloatV))
        if isinstance(t, TTuple):
            return isinstance(v, tuple) and len(v) == len(t.tys) and all(self.conforms(x, y) is True for x, y in zip(v, t.tys))
        if isinstance(t, (TSeq, TList)):
            return self.seq_or_none(v) is not None or isinstance(v, tuple)
        if isinstance(t, TObj):
            return isinstance(v, Obj) and v.cls == t.cls
        return True

    def check_frame(self, c, fr):
        "nothing outside `modifies` changes"
        mods = set()
        for m in c.modifies:
            if m == "*":
                return
            mods |= self.mod_keys(m, Frame(dict(self.old_vars), None, c.module, c.qual), self.old_store)
        for k, v in self.old_store.items():
            if k in mods:
                continue
            nv = self.store.get(k)
            if nv is v:
                continue
            if isinstance(k, tuple) and k and k[0] == "A":
                continue                       # allocating is not an effect
            if isinstance(k, tuple) and k[:2] == ("H", "$list2") and not any("$list2" in repr(t) for t in c.params.values()):
                continue                       # every two-element list was made here
            try:
                e = self.eq_stored(k, v, nv)
            except Unsupported:
                e = False
            self.oblige(f"{c.name}:frame:{fmt_key(k)}", e, kind="frame")

    def eq_stored(self, k, v, nv):
        if isinstance(k, tuple) and k and k[0] == "H":
            r = z3.Int(self.fresh("hr"))
            self.pure += 1
            try:
                e = self.eq(v[0](r), nv[0](r))
            finally:
                self.pure -= 1
            return z3.ForAll([r], zbool(e)) if not isinstance(e, bool) else e
        if isinstance(v, dict):
            return AND(*[self.eq(v[x], nv[x]) for x in v]) if set(v) == set(nv) else False
        if isinstance(v, (Cell, Obj, MapCell, RecCell)):
            return type(v) is type(nv) and v.key == nv.key
        if isinstance(v, MapV):
            return self.map_eq(v, nv)
        return self.eq(v, nv)

    def mod_keys(self, m, fr, store):
        saved = self.store
        self.store = store
        try:
            if m.startswith("heap:"):
                _, cls, f = m.split(":")
                key = ("H", cls, f)
                if key not in self.store:
                    self.hget(SymRef(z3.IntVal(0), cls), f)
                    if key not in saved:
                        saved[key] = self.store[key]
                return {key}
            node = ast.parse(m, mode="eval").body
            out = set()
            if isinstance(node, ast.Name):
                v = self.lookup(node.id, fr)
                out |= self.content_keys(v)
            elif isinstance(node, ast.Subscript):
                out |= self.content_keys(self.pure_eval_node(node, fr))
            elif isinstance(node, ast.Attribute):
                base = self.pure_eval_node(node.value, fr)
                out.add((base.key, node.attr))
                if (base.key, node.attr) in self.store:
                    v = self.store[(base.key, node.attr)]
                    out |= self.content_keys(v)
            return out
        finally:
            self.store = saved

    def pure_eval_node(self, node, fr):
        self.pure += 1
        try:
            return self.ev(node, fr)
        finally:
            self.pure -= 1

    def content_keys(self, v):
        if isinstance(v, (Cell, MapCell, RecCell)):
            return {v.key}
        if isinstance(v, Obj):
            return {k for k in self.store if isinstance(k, tuple) and len(k) == 2 and k[0] == v.key}
        return set()

    def check_raise(self, e, fr):
        c = self.contract
        pre = Frame(dict(self.old_vars), None, c.module, c.qual)
        name = exc_name(e)
        self.hint_extra = dict(self.old_vars)
        matched = None
        for exc in c.raises:
            if exc == name or (isinstance(e.name, type) and any(b.__name__ == exc for b in e.name.__mro__)):
                matched = exc
        if matched is not None:
            cond = c.raises[matched]
            if cond is not None:
                f = self.eval_spec(cond, pre, store=self.old_store)
                self.oblige(f"{c.name}:raises-only-if:{name}", self.truth_pure(f), kind="exc")
            for nm, s in c.exc_ensures:
                self.oblige(f"{c.name}:exc-ensures:{nm}", self.spec_bool(s, fr, dict(self.old_vars)), kind="post")
            return
        self.oblige(f"{c.name}:no-exception:{name}", False, kind="exc")

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, fr):
        for s in stmts:
            self.exec_stmt(s, fr)

    def exec_stmt(self, s, fr):
        if hasattr(s, "lineno") and fr is self.top_frame:
            self.cur_line = s.lineno
        m = getattr(self, "st_" + type(s).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(s).__name__}")
        return m(s, fr)

    def st_Pass(self, s, fr): pass
    def st_Import(self, s, fr):
        import importlib
        for a in s.names:
            nm = a.asname or a.name.split(".")[0]
            self.setvar(fr, nm, PyVal(importlib.import_module(a.name if a.asname else a.name.split(".")[0])))
    def st_ImportFrom(self, s, fr):
        import importlib
        m = importlib.import_module(s.module)
        for a in s.names:
            self.setvar(fr, a.asname or a.name, self.lift(getattr(m, a.name), s.module, a.name))
    def st_Global(self, s, fr): pass
    def st_Nonlocal(self, s, fr): raise Unsupported("nonlocal")
    def st_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, fr)
    def st_FunctionDef(self, s, fr):
        f = FuncV(s, fr, fr.module, fr.qual + ".<locals>." + s.name)
        for d in reversed(s.decorator_list):
            f = self.call(self.ev(d, fr), [f], {})
        self.setvar(fr, s.name, f)
    def st_Return(self, s, fr):
        raise ReturnX(self.ev(s.value, fr) if s.value is not None else None)
    def st_Break(self, s, fr): raise BreakX
    def st_Continue(self, s, fr): raise ContinueX
    def st_If(self, s, fr):
        if isinstance(s.test, ast.Name) and s.test.id == "TYPE_CHECKING":
            return self.exec_block(s.orelse, fr)
        if self.branch(self.ev_cond(s.test, fr)):
            self.exec_block(s.body, fr)
        else:
            self.exec_block(s.orelse, fr)
    def st_Assert(self, s, fr):
        c = self.ev_cond(s.test, fr)
        if self.opts.get("assert_raises"):
            if not self.branch(c):
                self.raise_("AssertionError")
            return
        if "AssertionError" in self.contract.raises:
            if not self.branch(c):
                self.raise_("AssertionError")
            return
        # inside a try that catches AssertionError the assert is control flow
        if getattr(self, "catching_assert", 0):
            if not self.branch(c):
                self.raise_("AssertionError")
            return
        self.oblige(f"{self.contract.name}:assert", c, kind="assert")
    def st_Raise(self, s, fr):
        if s.exc is None:
            raise self.handling[-1]
        v = s.exc
        if isinstance(v, ast.Call):
            f = self.ev(v.func, fr)
        else:
            f = self.ev(v, fr)
        if isinstance(f, PyVal) and isinstance(f.o, type) and issubclass(f.o, BaseException):
            self.raise_(f.o)
        if isinstance(f, PyVal) and isinstance(f.o, BaseException):
            self.raise_(type(f.o))
        if isinstance(f, PyExc):
            raise f
        raise Unsupported("raise")
    def st_Assign(self, s, fr):
        v = self.ev(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)
    def st_AnnAssign(self, s, fr):
        if s.value is None:
            return
        v = self.ev(s.value, fr)
        self.assign(s.target, v, fr)
    def st_AugAssign(self, s, fr):
        t = s.target
        op = BIN[type(s.op)]
        if isinstance(t, ast.Name):
            cur = self.ev(ast.copy_location(ast.Name(t.id, ast.Load()), t), fr)
            rhs = self.ev(s.value, fr)
            if isinstance(cur, Cell) and op == "+":
                self.list_extend(cur, rhs)
                return
            self.assign(t, self.binop(op, cur, rhs), fr)
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value, fr)
            cur = self.getattr(base, t.attr)
            rhs = self.ev(s.value, fr)
            if isinstance(cur, Cell) and op == "+":
                self.list_extend(cur, rhs)
                return
            self.setattr(base, t.attr, self.binop(op, cur, rhs))
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value, fr)
            i = self.ev(t.slice, fr)
            cur = self.getitem(base, i)
            rhs = self.ev(s.value, fr)
            self.setitem(base, i, self.binop(op, cur, rhs))
        else:
            raise Unsupported("augassign target")
    def st_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                fr.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                base = self.ev(t.value, fr)
                if isinstance(base, MapCell):
                    self.map_del(base, self.ev(t.slice, fr))
                elif isinstance(base, RecCell):
                    d, k = dict(self.rd(base.key)), self.ev(t.slice, fr)
                    if not isinstance(k, str):
                        raise Unsupported("record key")
                    if k not in d:
                        self.raise_("KeyError")
                    del d[k]
                    self.wr(base.key, d)
                elif isinstance(base, Cell):
                    if isinstance(t.slice, ast.Slice):
                        self.del_slice(base, t.slice, fr)
                    else:
                        self.list_pop(base, self.ev(t.slice, fr))
                elif isinstance(base, Obj):
                    m = self.find_method(base.cls, "__delitem__")
                    if isinstance(t.slice, ast.Slice) or m is None:
                        raise Unsupported("del")
                    self.call(BoundV(base, m), [self.ev(t.slice, fr)], {})
                else:
                    raise Unsupported("del")
            else:
                raise Unsupported("del")
    def st_With(self, s, fr):
        for it in s.items:
            v = self.ev(it.context_expr, fr)
            if isinstance(v, Prim) or (isinstance(v, PyVal)) or (isinstance(v, Opaque)):
                pass
            elif isinstance(v, tuple) and v and v[0] == "$ctx":
                pass
            else:
                raise Unsupported("with")
            if it.optional_vars is not None:
                raise Unsupported("with as")
        self.exec_block(s.body, fr)
    def st_Try(self, s, fr):
        self.handling = getattr(self, "handling", [])
        catches_assert = any(h.type is None or "AssertionError" in ast.dump(h.type) or "'Exception'" in ast.dump(h.type) for h in s.handlers)
        try:
            try:
                if catches_assert:
                    self.catching_assert = getattr(self, "catching_assert", 0) + 1
                try:
                    self.exec_block(s.body, fr)
                finally:
                    if catches_assert:
                        self.catching_assert -= 1
            except PyExc as e:
                for h in s.handlers:
                    if self.exc_matches(e, h, fr):
                        if h.name:
                            fr.vars[h.name] = e
                        self.handling.append(e)
                        try:
                            self.exec_block(h.body, fr)
                        finally:
                            self.handling.pop()
                        break
                else:
                    raise
            else:
                self.exec_block(s.orelse, fr)
        except (PyExc, ReturnX, BreakX, ContinueX):
            self.exec_block(s.finalbody, fr)
            raise
        self.exec_block(s.finalbody, fr)

    def exc_matches(self, e, h, fr):
        if h.type is None:
            return True
        t = self.ev(h.type, fr)
        ts = t if isinstance(t, tuple) else (t,)
        for x in ts:
            if isinstance(x, Prim) and isinstance(getattr(builtins, x.name, None), type):
                x = PyVal(getattr(builtins, x.name))
            if isinstance(x, PyVal):
                if isinstance(e.name, type):
                    if issubclass(e.name, x.o):
                        return True
                elif x.o.__name__ == e.name or x.o in (Exception, BaseException):
                    return True
        return False

    # ------------------------------------------------------------ loops
    def loop_spec(self, s, fr):
        f = fr
        if f.loops is not None and id(s) in f.loops:
            return f.loops[id(s)]
        return None

    def st_While(self, s, fr):
        spec = self.loop_spec(s, fr)
        if spec is None or spec.unroll:
            return self.unroll_while(s, fr, spec)
        lk = (fr.qual, s.lineno, s.col_offset, self.depth)
        tag = f"{self.contract.name}:loop@{self.ctx.loop_ordinal(fr, s)}"
        for nm, inv in spec.inv:
            self.oblige(f"{tag}:init:{nm}", self.spec_bool(inv, fr), kind="loop")
        self.havoc_loop(lk, spec, fr)
        for nm, inv in spec.inv:
            self.assume(self.spec_bool(inv, fr))
        self.active_loops.append({"key": lk, "keys": set(self.store), "frame": fr, "vars": set(fr.vars)})
        try:
            c = self.ev_cond(s.test, fr)
            if self.branch(c):
                d0 = [self.eval_spec(d, fr) for d in aslist(spec.decreases)]
                try:
                    self.exec_block(s.body, fr)
                except ContinueX:
                    pass
                except BreakX:
                    return
                for nm, inv in spec.inv:
                    self.oblige(f"{tag}:preserve:{nm}", self.spec_bool(inv, fr), kind="loop")
                if spec.decreases is not None:
                    d1 = [self.eval_spec(d, fr) for d in aslist(spec.decreases)]
                    self.oblige(f"{tag}:decreases", self.lex_dec(d0, d1), kind="termination")
                raise PathEnd
        finally:
            self.active_loops.pop()
        self.exec_block(s.orelse, fr)

    def lex_dec(self, d0, d1):
        # lexicographic decrease with every component bounded below by 0 at the start of the iteration
        r = False
        for k in range(len(d0) - 1, -1, -1):
            lt = AND(self.compare("<", d1[k], d0[k]), self.compare(">=", d0[k], 0))
            r = OR(lt, AND(self.eq(d1[k], d0[k]), r)) if r is not False else lt
        return r

    def unroll_while(self, s, fr, spec):
        lim = spec.unroll if spec and spec.unroll else 70
        for k in range(lim + 1):
            n0 = len(self.trace)
            c = norm(self.ev_cond(s.test, fr))
            if is_sym(c):
                c = norm(z3.simplify(c))
            if not isinstance(c, bool) and not (spec and spec.unroll):
                raise Unsupported(f"loop without invariant in {fr.qual}")
            if not self.branch(c):
                self.exec_block(s.orelse, fr)
                return
            if k == lim:
                raise Unsupported("unrolling bound reached")
            try:
                self.exec_block(s.body, fr)
            except ContinueX:
                continue
            except BreakX:
                return

    def st_For(self, s, fr):
        it = self.ev(s.iter, fr)
        spec = self.loop_spec(s, fr)
        seq = self.as_seq(it)
        if spec is None or spec.unroll:
            n = norm(seq.n)
            if is_sym(n):
                n = norm(z3.simplify(n))
            if not isinstance(n, int):
                raise Unsupported(f"loop without invariant in {fr.qual}")
            if n > 300:
                raise Unsupported("unrolling too long")
            for k in range(n):
                self.assign(s.target, seq.get(k), fr)
                try:
                    self.exec_block(s.body, fr)
                except ContinueX:
                    continue
                except BreakX:
                    return
            self.exec_block(s.orelse, fr)
            return
        lk = (fr.qual, s.lineno, s.col_offset, self.depth)
        tag = f"{self.contract.name}:loop@{self.ctx.loop_ordinal(fr, s)}"
        ex = lambda i: {spec.index: i, spec.seq: seq}
        for nm, inv in spec.inv:
            self.oblige(f"{tag}:init:{nm}", self.spec_bool(inv, fr, ex(0)), kind="loop")
        self.havoc_loop(lk, spec, fr, skip=names_in(s.target))
        i = z3.Int(self.fresh("it"))
        n = zint(seq.n)
        self.assume(z3.And(0 <= i, i <= n))
        for nm, inv in spec.inv:
            self.assume(self.spec_bool(inv, fr, ex(i)))
        saved_hint = dict(self.hint_extra)
        self.active_loops.append({"key": lk, "keys": set(self.store), "frame": fr, "vars": set(fr.vars) - set(names_in(s.target))})
        try:
            if self.branch(i < n):
                self.assign(s.target, seq.get(i), fr)
                if spec.index != "_i":
                    fr.vars[spec.index] = i          # named by its contract, for the invariants of inner loops
                if fr is self.top_frame:
                    self.hint_extra.update(ex(i))
                else:
                    self.hint_loops[id(fr)] = ex(i)
                try:
                    self.exec_block(s.body, fr)
                except ContinueX:
                    pass
                except BreakX:
                    return
                for nm, inv in spec.inv:
                    self.oblige(f"{tag}:preserve:{nm}", self.spec_bool(inv, fr, ex(i + 1)), kind="loop")
                raise PathEnd
            else:
                self.assume(i == n)
                if fr is self.top_frame:
                    self.hint_extra.update(ex(i))
        finally:
            self.active_loops.pop()
        for nm in names_in(s.target):
            fr.vars.pop(nm, None)
        tn = names_in(s.target)
        if not any(isinstance(x, ast.Name) and x.id in tn and isinstance(x.ctx, ast.Store) for b in s.body for x in ast.walk(b)) and self.feas.check(n < 1) == z3.unsat:
            self.assign(s.target, seq.get(z3.simplify(n - 1)), fr)      # loop variables keep their last value
        self.exec_block(s.orelse, fr)

    def havoc_loop(self, lk, spec, fr, skip=()):
        mods = self.loop_mods.get(lk, {})
        for kind, key in list(mods):
            if kind == "V":
                if key in skip:
                    continue
                if key in fr.vars:
                    t = spec.types.get(key) or spec.types.get({o: n for n, o in fr.rename.items()}.get(key))
                    fr.vars[key] = self.havoc_like(fr.vars[key], key, t)
            else:
                self.havoc_store(key, spec.types, fr)
        for name, t in spec.types.items():
            real = fr.rename.get(name, name)
            if "." not in name and name != "$map" and real not in fr.vars:
                # bound inside the loop: at the head it may hold a value of this type
                if ("V", real) not in mods:
                    self.loop_mods.setdefault(lk, {})[("V", real)] = True
                fr.vars[real] = self.mk(t, self.fresh(name))
        for m in spec.havoc:
            pass

    def havoc_store(self, key, types, fr=None):
        if key not in self.store:
            return
        v = self.store[key]
        nm = fmt_key(key)
        if isinstance(key, tuple) and key and key[0] == "H":
            f, t = v
            nn = self.fresh(nm)
            self.store[key] = ((lambda r: self.mk(t, nn, (r,))), t)
            return
        if isinstance(v, dict):
            self.store[key] = {k: self.havoc_like(x, nm + k) for k, x in v.items()}
            return
        if isinstance(key, tuple) and key and key[0] == "A":
            nv = z3.Int(self.fresh(nm))          # allocation counters only grow
            self.store[key] = nv
            self.assume(nv >= zint(v))
            return
        t = None
        for tn, ty in types.items():
            if tn.startswith("self.") and isinstance(key, tuple) and len(key) == 2 and key[1] == tn[5:]:
                t = ty
        if isinstance(v, Seq) and v.ety is None:
            ety = None
            for ty in types.values():
                pass
            # find the declared element type through a local naming this cell
            frames, f = [], fr
            while f is not None:
                frames.append(f)
                f = f.parent
            for f in frames + [self.top_frame]:
                for name, val in f.vars.items():
                    if isinstance(val, Cell) and val.key == key:
                        inv = {o: n for n, o in (f.rename or {}).items()}
                        ty = types.get(name) or types.get(inv.get(name)) or self.contract.types.get(name) or self.contract.types.get(inv.get(name))
                        if isinstance(ty, (TList, TSeq)) and ety is None:
                            ety = ty.ety
            if ety is None and "$list" in types:
                ety = types["$list"].ety
            if ety is None:
                raise Unsupported(f"element type of list {nm} unknown; declare it")
            self.store[key] = self.mk(TSeq(ety, v.kind), self.fresh(nm))
            return
        if isinstance(v, (Cell, Obj, MapCell)) and t is None:
            raise Unsupported(f"field {nm} rebound to a fresh object in a loop; declare a type")
        if isinstance(v, MapV):
            t = types.get("$map") if v.k is None else None       # a set or dict still empty: the declared type
            self.store[key] = self.mk_map(t or TMap(v.k, v.v), self.fresh(nm))
            return
        self.store[key] = self.havoc_like(v, nm, t)

    # ------------------------------------------------------------ assignment
    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.setvar(fr, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            v = self.force(v)
            elts = t.elts
            if isinstance(v, tuple):
                if len(v) != len(elts):
                    self.raise_("ValueError")
                vals = v
            elif isinstance(v, SymRef) and v.cls == "$list2":
                vals = [self.hget(v, "0"), self.hget(v, "1")]
            else:
                s = self.as_seq(v)
                if any(isinstance(e, ast.Starred) for e in elts):
                    raise Unsupported("starred")
                if self.branch(NOT(self.eq(s.n, len(elts)))):
                    self.raise_("ValueError")
                vals = [s.get(k) for k in range(len(elts))]
            for x, y in zip(elts, vals):
                self.assign(x, y, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value, fr)
            if isinstance(t.slice, ast.Slice):
                return self.set_slice(base, t.slice, v, fr)
            self.setitem(base, self.ev(t.slice, fr), v)
        else:
            raise Unsupported("assign target")

    def setattr(self, base, attr, v):
        base = self.force(base)
        if isinstance(base, Obj):
            self.wr((base.key, attr), v)
        elif isinstance(base, SymRef):
            self.hset(base, attr, v)
        else:
            raise Unsupported(f"setattr {base!r}")

    def find_method(self, cls, name):
        cs = self.ctx.classes.get(cls)
        if cs is None:
            return None
        if name in cs.methods:
            return cs.methods[name]
        real = cs.real
        if real is None:
            return None
        for k in real.__mro__:
            if name in vars(k):
                o = vars(k)[name]
                pre = "_" + k.__name__.lstrip("_") + "__"
                q = k.__qualname__ + "." + ("__" + name[len(pre):] if name.startswith(pre) else name)
                mod = getattr(o, "__module__", None) or k.__module__
                node = self.prog.fn(mod, q) if mod.startswith("hypothesis") else None
                if isinstance(node, ast.FunctionDef):
                    return FuncV(node, None, mod, q)
                if k is object:
                    return None
                return None
        return None

    def getattr(self, base, attr):
        base = self.force(base)
        if isinstance(base, Obj):
            if (base.key, attr) in self.store:
                return self.store[(base.key, attr)]
            m = self.find_method(base.cls, attr)
            if m is not None:
                if isinstance(m, Prim):
                    return BoundV(base, m)
                decs = [d.id if isinstance(d, ast.Name) else getattr(d, "attr", None) for d in getattr(m.node, "decorator_list", [])]
                if "property" in decs or "cached_property" in decs:
                    return self.call(m, [base], {})
                if "staticmethod" in decs:
                    return m
                if "classmethod" in decs:
                    return BoundV(PyVal(self.ctx.classes[base.cls].real), m)
                return BoundV(base, m)
            cs = self.ctx.classes.get(base.cls)
            if cs and cs.real is not None and hasattr(cs.real, attr):
                return self.lift(getattr(cs.real, attr))
            raise Unsupported(f"attribute {base.cls}.{attr}")
        if isinstance(base, SymRef):
            v = self.hget(base, attr)
            if v is None and attr not in self.ctx.classes[base.cls].fields:
                m = self.find_method(base.cls, attr)
                if m is None:
                    raise Unsupported(f"attribute {base.cls}.{attr}")
                decs = [d.id if isinstance(d, ast.Name) else getattr(d, "attr", None) for d in getattr(getattr(m, "node", None), "decorator_list", [])]
                if "property" in decs:
                    return self.call(m, [base], {})
                return BoundV(base, m)
            return v
        if isinstance(base, PyVal):
            o = base.o
            key = (getattr(o, "__name__", None), attr)
            if key in self.ctx.overrides:
                return self.ctx.overrides[key]
            if isinstance(o, type) and isinstance(vars(o).get(attr), classmethod):
                q = o.__qualname__ + "." + attr
                node = self.prog.fn(o.__module__, q)
                if node is not None:
                    return BoundV(base, FuncV(node, None, o.__module__, q))
            if not hasattr(o, attr):
                self.raise_("AttributeError")
            return self.lift(getattr(o, attr), getattr(o, "__name__", None), attr)
        from . import prims
        p = prims.method(self, base, attr)
        if p is not None:
            return p
        raise Unsupported(f"attribute {attr} of {base!r}")

    # ------------------------------------------------------------ lists
    def norm_index(self, i, n, exc="IndexError"):
        "python index -> position, forking on out of range"
        i = norm(i)
        if isinstance(i, BVI):
            return i
        n2 = norm(n)
        if isinstance(i, int) and isinstance(n2, int):
            j = i + n2 if i < 0 else i
            if not 0 <= j < n2:
                if self.pure:
                    return j
                self.raise_(exc)
            return j
        if self.pure:
            if isinstance(i, int):
                return i if i >= 0 else norm(z3.simplify(zint(n) + i))
            if is_neg_syntactic(i):
                return zint(n) + zint(i)
            return i       # specs use nonnegative indices unless the index is a literal negative
        if isinstance(i, int):
            ok = zint(n) > i if i >= 0 else zint(n) >= -i
            if not self.branch(ok):
                self.raise_(exc)
            return i if i >= 0 else norm(z3.simplify(zint(n) + i))
        ii, nn = zint(i), zint(n)
        if self.branch(ii >= 0):
            if not self.branch(ii < nn):
                self.raise_(exc)
            return ii
        if not self.branch(ii + nn >= 0):
            self.raise_(exc)
        return ii + nn

    def getitem(self, base, i):
        base = self.force(base)
        i = self.force(i) if not isinstance(base, (MapCell,)) else i
        if isinstance(base, tuple):
            i = norm(i)
            if isinstance(i, int):
                try:
                    return base[i]
                except IndexError:
                    self.raise_("IndexError")
            s = self.const_seq(base, kind="tuple")
            return s.get(self.norm_index(i, s.n))
        if isinstance(base, RecCell):
            if isinstance(i, (Prim, PyVal, FuncV)):
                i = objkey(i)
            elif not isinstance(i, str):
                raise Unsupported("record key")
            d = self.rd(base.key)
            if i not in d:
                self.raise_("KeyError")
            return d[i]
        if isinstance(base, MapCell):
            m = self.rd(base.key)
            if not self.pure and not self.branch(m.dom(i)):
                self.raise_("KeyError")
            return m.get(i)
        if isinstance(base, MapV):
            return base.get(i)
        if isinstance(base, SymRef) and base.cls == "$list2":
            if i in (0, 1):
                return self.hget(base, str(i))
        if isinstance(base, Obj):
            m = self.find_method(base.cls, "__getitem__")
            if m is None:
                raise Unsupported("getitem object")
            return self.call(BoundV(base, m), [i], {})
        if isinstance(base, RangeV):
            s = self.as_seq(base)
            return s.get(self.norm_index(i, s.n))
        if isinstance(base, PyVal):
            if isinstance(base.o, dict) and isinstance(i, (str, int)):
                return self.lift(base.o[i])
            raise Unsupported("getitem constant")
        s = self.seq_or_none(base)
        if s is None:
            raise Unsupported(f"getitem {base!r}")
        j = self.norm_index(i, s.n)
        if s.kind == "str":
            return self.char(s.get(j))
        return s.get(j)

    def slice_bounds(self, s, lo, hi):
        n = zint(s.n)
        def clamp(x, default):
            if x is None:
                return zint(default)
            x = norm(x)
            if isinstance(x, int) and x == 0:
                return z3.IntVal(0)
            xx = zint(x)
            if isinstance(x, int):
                if x > 0:
                    return z3.If(xx < n, xx, n)
                return z3.If(xx + n > 0, xx + n, z3.IntVal(0))
            return z3.If(xx < 0, z3.If(xx + n > 0, xx + n, z3.IntVal(0)), z3.If(xx < n, xx, n))
        a, b = clamp(lo, 0), clamp(hi, s.n)
        return z3.simplify(a), z3.simplify(b)

    def getslice(self, base, lo, hi):
        base = self.force(base)
        lo, hi = self.force(lo), self.force(hi)
        if isinstance(base, (tuple, str, bytes)) and all(x is None or isinstance(x, int) for x in (lo, hi)):
            return base[lo:hi]
        if isinstance(base, tuple):
            base = self.const_seq(base, kind="tuple")
        s = self.seq_or_none(base)
        if s is None and isinstance(base, RangeV):
            s = self.as_seq(base)
        if s is None:
            if isinstance(base, Obj):
                m = self.find_method(base.cls, "__getitem__")
                if m is not None:
                    raise Unsupported("slice of object")
            raise Unsupported("slice")
        if isinstance(s.n, int) and all(x is None or isinstance(x, int) for x in (lo, hi)):
            r = range(s.n)[lo:hi]
            out = self.const_seq([s.get(k) for k in r], s.ety, s.kind)
        else:
            a, b = self.slice_bounds(s, lo, hi)
            n = z3.simplify(z3.If(b > a, b - a, z3.IntVal(0)))
            az = norm(a)
            out = Seq(norm(n), (lambda i: s.get(i)) if isinstance(az, int) and az == 0 else (lambda i: s.get(norm(z3.simplify(zint(i) + a)))), s.ety, s.kind)
        if isinstance(base, Cell):
            c = Cell(self.alloc(("slice",)), s.ety, base.pykind)
            self.store[c.key] = out
            return c
        return out

    def slice_parts(self, sl, fr):
        if sl.step is not None:
            st = self.ev(sl.step, fr)
            if st is not None:
                raise Unsupported("slice step")
        lo = self.ev(sl.lower, fr) if sl.lower is not None else None
        hi = self.ev(sl.upper, fr) if sl.upper is not None else None
        return lo, hi

    def set_slice(self, base, sl, v, fr):
        lo, hi = self.slice_parts(sl, fr)
        if not isinstance(base, Cell):
            raise Unsupported("slice assignment")
        s = self.rd(base.key)
        w = self.as_seq(v)
        a, b = self.slice_bounds(s, lo, hi)
        b = z3.If(b > a, b, a)
        self.wr(base.key, self.splice(s, a, b, w))

    def splice(self, s, a, b, w):
        wn, n = zint(w.n), zint(s.n)
        a0 = a
        def get(i):
            ii = zint(i)
            return self.merge(norm(z3.simplify(ii < a0)), s.get(i), self.merge(norm(z3.simplify(ii < a0 + wn)), w.get(norm(z3.simplify(ii - a0))), s.get(norm(z3.simplify(ii - wn + (b - a0))))))
        def safe(i):
            return get(i)
        return Seq(norm(z3.simplify(n - (b - a) + wn)), safe if self.ety_known(w) else (lambda i: s.get(norm(z3.simplify(z3.If(zint(i) < a0, zint(i), zint(i) + (b - a0)))))), s.ety or w.ety, s.kind)

    def ety_known(self, w):
        return not (isinstance(w.n, int) and w.n == 0)

    def del_slice(self, base, sl, fr):
        lo, hi = self.slice_parts(sl, fr)
        s = self.rd(base.key)
        a, b = self.slice_bounds(s, lo, hi)
        b = z3.If(b > a, b, a)
        self.wr(base.key, self.splice(s, a, b, self.const_seq([], s.ety)))

    def setitem(self, base, i, v):
        base = self.force(base)
        if isinstance(base, Cell):
            s = self.rd(base.key)
            j = self.norm_index(i, s.n)
            self.wr(base.key, self.seq_store(s, j, v))
        elif isinstance(base, MapCell) and isinstance(i, str) and self.rd(base.key).k is None and self.rd(base.key).size == 0:
            # the empty display {} turns out to be a record
            base.__class__ = RecCell
            self.wr(base.key, {i: v})
        elif isinstance(base, MapCell):
            self.map_set(base, i, v)
        elif isinstance(base, RecCell):
            d = dict(self.rd(base.key))
            d[i] = v
            self.wr(base.key, d)
        elif isinstance(base, SymRef) and base.cls == "$list2" and i in (0, 1):
            self.hset(base, str(i), v)
        elif isinstance(base, Obj):
            m = self.find_method(base.cls, "__setitem__")
            if m is None:
                raise Unsupported("setitem")
            self.call(BoundV(base, m), [i, v], {})
        else:
            raise Unsupported(f"setitem {base!r}")

    def seq_store(self, s, j, v):
        jz = zint(j)
        def get(k):
            c = norm(z3.simplify(zint(k) == jz))
            if isinstance(c, bool):
                return v if c else s.get(k)
            return self.merge(c, v, s.get(k))
        return Seq(s.n, get, s.ety if s.ety is not None else self.tryty(v), s.kind)

    def tryty(self, v):
        try:
            return self.typeof(v)
        except Unsupported:
            return None

    def list_append(self, c, v):
        s = self.rd(c.key)
        if isinstance(s.ety, TRef) and s.ety.cls == "$list2" and isinstance(v, tuple) and len(v) == 2:
            # a pair stored among two-element lists: a fresh one with the same contents (a tuple is never written)
            from .prims import map_fresh_lists
            v = map_fresh_lists(self, self.const_seq([v])).get(0)
        n = s.n
        nz = zint(n)
        if isinstance(n, int) and isinstance(n, int) and n == 0:
            g = lambda k: v
        else:
            def g(k):
                cc = norm(z3.simplify(zint(k) == nz))
                if isinstance(cc, bool):
                    return v if cc else s.get(k)
                return self.merge(cc, v, s.get(k))
        self.wr(c.key, Seq(n + 1 if isinstance(n, int) else norm(z3.simplify(nz + 1)), g, s.ety if s.ety is not None else self.tryty(v), s.kind))

    def seq_concat(self, a, b, kind=None):
        if isinstance(a.n, int) and a.n == 0:
            return Seq(b.n, b.get, b.ety or a.ety, kind or a.kind)
        if isinstance(b.n, int) and b.n == 0:
            return Seq(a.n, a.get, a.ety or b.ety, kind or a.kind)
        an = zint(a.n)
        def g(k):
            c = norm(z3.simplify(zint(k) < an))
            if isinstance(c, bool):
                return a.get(k) if c else b.get(norm(z3.simplify(zint(k) - an)))
            return self.merge(c, a.get(k), b.get(norm(z3.simplify(zint(k) - an))))
        n = a.n + b.n if isinstance(a.n, int) and isinstance(b.n, int) else norm(z3.simplify(an + zint(b.n)))
        return Seq(n, g, a.ety or b.ety, kind or a.kind)

    def list_extend(self, c, v):
        s = self.rd(c.key)
        w = self.as_seq(v)
        self.wr(c.key, self.seq_concat(s, w, s.kind))

    def list_pop(self, c, i=-1):
        s = self.rd(c.key)
        j = self.norm_index(i, s.n)
        v = s.get(j)
        n1 = s.n - 1 if isinstance(s.n, int) else norm(z3.simplify(zint(s.n) - 1))
        jz = zint(j)
        last = norm(z3.simplify(jz == zint(n1)))
        if last is True:
            self.wr(c.key, Seq(n1, s.get, s.ety, s.kind))
        else:
            def g(k):
                cc = norm(z3.simplify(zint(k) < jz))
                nxt = norm(z3.simplify(zint(k) + 1))
                if isinstance(cc, bool):
                    return s.get(k) if cc else s.get(nxt)
                return self.merge(cc, s.get(k), s.get(nxt))
            self.wr(c.key, Seq(n1, g, s.ety, s.kind))
        return v

    def list_insert(self, c, i, v):
        s = self.rd(c.key)
        a, _ = self.slice_bounds(s, i, None)
        self.wr(c.key, self.splice(s, a, a, self.const_seq([v], s.ety or self.tryty(v))))

    def new_list(self, seq, site="newlist", pykind="list"):
        c = Cell(self.alloc((site,)), seq.ety, pykind)
        self.store[c.key] = Seq(seq.n, seq.get, seq.ety, "list")
        return c

    # ------------------------------------------------------------ maps
    def map_set(self, c, k, v):
        m = self.rd(c.key)
        had = m.dom(k)
        kt = self.key_terms(k)
        def same(k2):
            return AND(*[norm(z3.simplify(x == y)) for x, y in zip(self.key_terms(k2), kt)])
        size = None if m.size is None else norm(z3.simplify(z3.If(zbool(had), zint(m.size), zint(m.size) + 1)))
        kty = m.k if m.k is not None else self.typeof(k)
        vty = m.v if m.v is not None else self.tryty(v)
        self.wr(c.key, MapV(lambda k2: OR(same(k2), m.dom(k2)), lambda k2: self.merge(same(k2), v, m.get(k2)) if m.v is not None else v, size, kty, vty))

    def map_del(self, c, k):
        m = self.rd(c.key)
        if not self.branch(m.dom(k)):
            self.raise_("KeyError")
        kt = self.key_terms(k)
        def same(k2):
            return AND(*[norm(z3.simplify(x == y)) for x, y in zip(self.key_terms(k2), kt)])
        size = None if m.size is None else norm(z3.simplify(zint(m.size) - 1))
        nm = MapV(lambda k2: AND(NOT(same(k2)), m.dom(k2)), m.get, size, m.k, m.v)
        self.wr(c.key, nm)
        self.size_facts(nm)

    def size_facts(self, m):
        if m.size is None or is_sym(m.size) is False:
            return
        vs, kv = self.qkey(m.k)
        self.pc.append(z3.ForAll(vs, z3.Implies(zbool(m.dom(kv)), zint(m.size) >= 1)))
        self.assume(zint(m.size) >= 0)

    # ------------------------------------------------------------ calls
    def call(self, f, args, kwargs):
        f = self.force(f)
        if isinstance(f, Prim):
            return f.fn(self, args, kwargs)
        if isinstance(f, BoundV):
            return self.call(f.f, [f.self] + list(args), kwargs)
        if isinstance(f, FuncV):
            return self.call_func(f, args, kwargs)
        if isinstance(f, PyVal):
            if isinstance(f.o, type):
                return self.construct(f.o, args, kwargs)
            if hasattr(f.o, "__self__") and isinstance(getattr(f.o, "__self__"), type):
                o = f.o.__self__
                q = f.o.__qualname__
                node = self.prog.fn(f.o.__module__, q)
                if node is not None:
                    return self.call_func(FuncV(node, None, f.o.__module__, q), [PyVal(o)] + list(args), kwargs)
        if isinstance(f, (Obj, SymRef)):
            m = self.find_method(f.cls, "__call__")
            if m is not None:
                return self.call(BoundV(f, m), args, kwargs)
        raise Unsupported(f"call {f!r}")

    def construct(self, cls, args, kwargs):
        from . import prims
        p = prims.lookup(cls)
        if p is not None:
            return p.fn(self, args, kwargs)
        if issubclass(cls, BaseException):
            return PyExc(cls, args)
        name = self.ctx.class_name(cls)
        if name is None:
            raise Unsupported(f"construct {cls}")
        cs = self.ctx.classes[name]
        if "__new__" in cs.methods:
            return cs.methods["__new__"].fn(self, args, kwargs)
        if cs.heap:
            rid = z3.Int(self.fresh("new_" + name))
            A = self.store.setdefault(("A", name), z3.Int("alloc." + name))
            self.assume(rid == A)
            self.wr(("A", name), z3.simplify(A + 1))
            o = SymRef(rid, name)
            setf = lambda f, v: self.hset(o, f, v)
        else:
            o = Obj(self.alloc(("new", name)), name)
            setf = lambda f, v: self.wr((o.key, f), v)
        import dataclasses
        q = None
        for k in cls.__mro__:
            if "__init__" in vars(k) and k is not object:
                q = k
                break
        if q is not None and dataclasses.is_dataclass(cls) and self.prog.fn(q.__module__, q.__qualname__ + ".__init__") is None or (hasattr(cls, "__attrs_attrs__") and self.prog.fn(cls.__module__, cls.__qualname__ + ".__init__") is None):
            fields = [a.name for a in (dataclasses.fields(cls) if dataclasses.is_dataclass(cls) else cls.__attrs_attrs__)]
            defaults = {a.name: a.default for a in (dataclasses.fields(cls) if dataclasses.is_dataclass(cls) else cls.__attrs_attrs__)}
            vals = dict(zip(fields, args))
            vals.update(kwargs)
            for n in fields:
                if n in vals:
                    setf(n, vals[n])
                else:
                    d = defaults[n]
                    if d is None or isinstance(d, (int, bool, float, str)):
                        setf(n, d)
                    elif isinstance(d, (list, tuple)) or "Factory" in type(d).__name__ or d is dataclasses.MISSING:
                        setf(n, self.new_list(self.const_seq([], getattr(cs.fields.get(n), "ety", None))))
                    else:
                        raise Unsupported("dataclass default")
            return o
        if q is None:
            return o
        init = FuncV(self.prog.fn(q.__module__, q.__qualname__ + ".__init__"), None, q.__module__, q.__qualname__ + ".__init__")
        if init.node is None:
            raise Unsupported(f"constructor of {cls}")
        self.call_func(init, [o] + list(args), kwargs)
        return o

    def bind(self, node, args, kwargs, fr_default, fname):
        a = node.args
        pos = [p.arg for p in a.posonlyargs + a.args]
        out = {}
        args = list(args)
        for p, v in zip(pos, args):
            out[p] = v
        if len(args) > len(pos):
            if a.vararg is None:
                raise Unsupported(f"too many arguments for {fname}")
            out[a.vararg.arg] = tuple(args[len(pos):])
        elif a.vararg is not None:
            out[a.vararg.arg] = ()
        extra = {}
        names = pos + [p.arg for p in a.kwonlyargs]
        for k, v in kwargs.items():
            if k in names:
                out[k] = v
            else:
                extra[k] = v
        if extra:
            if a.kwarg is None:
                raise Unsupported(f"unexpected keyword {extra} for {fname}")
        if a.kwarg is not None:
            c = RecCell(self.alloc(("kw", fname)))
            self.store[c.key] = extra
            out[a.kwarg.arg] = c
        ds = dict(zip(pos[len(pos) - len(a.defaults):], a.defaults))
        ds.update({p.arg: d for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        for p in names:
            if p not in out:
                if p not in ds:
                    raise Unsupported(f"missing argument {p} for {fname}")
                out[p] = self.ev(ds[p], fr_default)
        return out

    def call_func(self, f, args, kwargs):
        node = f.node
        if isinstance(node, ast.Lambda):
            fr = Frame(self.bind(node, args, kwargs, f.env or Frame({}, None, f.module, f.qual), f.qual), f.env, f.module, f.qual, node)
            fr.spec = f.env.spec if f.env is not None else None
            return self.ev(node.body, fr)
        c = self.ctx.contract_for(f.module, f.qual, self.contract, args, kwargs, self)
        deff = Frame({}, f.env, f.module, f.qual)
        vars = self.bind(node, args, kwargs, deff, f.qual)
        if c is not None and not (c is self.contract and c.decreases is None and not c.recursive_ok):
            return self.call_contract(c, vars, f)
        # inline
        if self.depth >= MAXINLINE:
            raise Unsupported(f"inlining depth at {f.qual}")
        fr = Frame(vars, f.env, f.module, f.qual, node)
        fr.spec = f.env.spec if (f.env is not None and f.env.spec is not None) else getattr(f, "spec", None)
        fr.loops = self.ctx.helper_loops(self.contract, f)
        self.inlined.add(f"{f.module}:{f.qual}")
        if self.pure:
            return self.pure_block(strip_doc(node), fr)
        isgen = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in walk_fn(node))
        if isgen:
            cell = Cell(self.alloc(("yield", f.qual)), None)
            self.store[cell.key] = self.const_seq([])
            fr.vars["$yield"] = cell
        self.depth += 1
        self.inl_frames.append(fr)
        try:
            self.exec_block(strip_doc(node), fr)
            r = None
        except ReturnX as x:
            r = x.v
        finally:
            self.depth -= 1
            self.inl_frames.pop()
        if isgen:
            return self.rd(fr.vars["$yield"].key)
        return r

    def pure_block(self, stmts, fr):
        "functional evaluation of a statement list: assignments, ifs and returns only"
        if not stmts:
            return None
        s, rest = stmts[0], stmts[1:]
        if isinstance(s, ast.Return):
            return self.ev(s.value, fr) if s.value is not None else None
        if isinstance(s, (ast.Assign, ast.AnnAssign)):
            if isinstance(s, ast.AnnAssign) and s.value is None:
                return self.pure_block(rest, fr)
            v = self.ev(s.value, fr)
            for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                if not isinstance(t, (ast.Name, ast.Tuple)):
                    raise Unsupported("pure assign")
                self.assign(t, v, fr)
            return self.pure_block(rest, fr)
        if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name):
            fr.vars[s.target.id] = self.binop(BIN[type(s.op)], fr.vars[s.target.id], self.ev(s.value, fr))
            return self.pure_block(rest, fr)
        if isinstance(s, ast.If):
            c = norm(self.truth(self.ev(s.test, fr)))
            if is_sym(c):
                c = norm(z3.simplify(c))
            if isinstance(c, bool):
                return self.pure_block((s.body if c else s.orelse) + rest, fr)
            f1 = Frame(dict(fr.vars), fr.parent, fr.module, fr.qual, fr.node)
            f2 = Frame(dict(fr.vars), fr.parent, fr.module, fr.qual, fr.node)
            f1.spec = f2.spec = fr.spec
            f1.loops = f2.loops = fr.loops
            a = self.pure_block(s.body + rest, f1)
            b = self.pure_block(s.orelse + rest, f2)
            return self.merge(c, a, b)
        if isinstance(s, (ast.Assert, ast.Pass, ast.Expr)) and not (isinstance(s, ast.Expr) and not isinstance(s.value, ast.Constant)):
            return self.pure_block(rest, fr)
        if isinstance(s, ast.Raise):
            # an exceptional path has no value; the spec must not depend on it
            raise Unsupported("raise in pure call")
        if isinstance(s, ast.ImportFrom):
            self.st_ImportFrom(s, fr)
            return self.pure_block(rest, fr)
        raise Unsupported(f"pure statement {type(s).__name__}")

    def call_contract(self, c, vars, f):
        fr = Frame(dict(vars), None, c.module, c.qual, f.node)
        saved_contract_ns = None
        if self.pure:
            if c.pure_expr is not None:
                return self.eval_spec_of(c, c.pure_expr, fr)
            if c.inline_pure:
                fr2 = Frame(dict(vars), f.env, f.module, f.qual, f.node)
                return self.pure_block(strip_doc(f.node), fr2)
            raise Unsupported(f"call of contracted {c.qual} in pure context")
        self.assumed_calls.add(c.name)
        for p in list(fr.vars):
            fr.vars[p] = self.coerce(fr.vars[p], c.params.get(p))
        selfv = fr.vars.get("self")
        if c.self_invariant and isinstance(selfv, Obj):
            for nm, s in self.ctx.classes[selfv.cls].inv:
                self.oblige(f"{self.contract.name}:call {c.qual}:pre-invariant:{nm}", self.spec_of(c, s, fr, {"self": selfv}), kind="pre")
        for g, gt in c.ghost.items():
            raise Unsupported("call of contract with ghost parameters")
        for k, s in enumerate(c.requires):
            self.oblige(f"{self.contract.name}:call {c.qual}:requires{k}", self.spec_of(c, s, fr), kind="pre")
        if c is self.contract and c.decreases is not None:
            d1 = [self.eval_spec_of(c, d, fr) for d in aslist(c.decreases)]
            self.oblige(f"{c.name}:recursion-decreases", AND(self.lex_dec(self.dec0, d1)), kind="termination")
        old_store = dict(self.store)
        for exc, cond in c.raises.items():
            if cond is None:
                b = self.choice("raise_" + exc)
            else:
                b = self.branch(self.truth_pure(self.eval_spec_of(c, cond, fr)))
            if b:
                self.havoc_mods(c, fr)
                for nm, s in c.exc_ensures:
                    self.assume(self.spec_of(c, s, fr, {}, old=(old_store, dict(fr.vars))))
                self.raise_(self.ctx.exc_class(c, exc))
        self.havoc_mods(c, fr)
        ret = None
        if c.returns is not None:
            ret = self.mk(c.returns, self.fresh(f"ret_{c.qual}"))
        if c.establishes_inv and isinstance(selfv, Obj):
            for fn, t in self.ctx.classes[selfv.cls].fields.items():
                self.store[(selfv.key, fn)] = self.mk(t, self.fresh(f"{c.qual}.{fn}"))
        if c.result_expr is not None:
            ret = self.eval_spec_of(c, c.result_expr, fr)
        extra = {"result": ret}
        if (c.self_invariant or c.establishes_inv) and isinstance(selfv, Obj):
            for nm, s in self.ctx.classes[selfv.cls].inv:
                self.assume(self.spec_of(c, s, fr, {"self": selfv}))
        for nm, s in c.ensures:
            self.assume(self.spec_of(c, s, fr, extra, old=(old_store, dict(fr.vars))))
        if isinstance(ret, Obj) and self.ctx.classes[ret.cls].inv and not c.noinv:
            for nm, s in self.ctx.classes[ret.cls].inv:
                self.assume(self.spec_of(c, s, fr, {"self": ret}))
        return ret

    def coerce(self, v, t):
        return v

    def spec_of(self, c, s, fr, extra=None, old=None):
        return self.truth_pure(self.eval_spec_of(c, s, fr, extra, old))

    def eval_spec_of(self, c, s, fr, extra=None, old=None):
        saved = self.contract, self.old_store, self.old_vars
        self.contract_ns = c
        os = self.old_store
        try:
            if old is not None:
                self.old_store, self.old_vars = old
            node = parse_expr(s)
            f2 = Frame(dict(extra or {}), fr, c.module, c.qual)
            f2.spec = self.ctx.spec_ns(c)
            self.pure += 1
            try:
                return self.ev(node, f2)
            finally:
                self.pure -= 1
        finally:
            self.contract, self.old_store, self.old_vars = saved

    def havoc_mods(self, c, fr):
        for m in c.modifies:
            keys = self.mod_keys(m, fr, self.store)
            for k in sorted(keys, key=repr):
                if k in self.store and c.mod_types.get(m) is None and isinstance(self.store[k], (Cell, Obj, MapCell, RecCell)):
                    continue        # the reference stays; its contents are havocked through their own key
                for lp in self.active_loops:
                    if k in lp["keys"] and ("S", k) not in self.loop_mods.setdefault(lp["key"], {}):
                        self.loop_mods[lp["key"]][("S", k)] = True
                        raise Restart
                if k in self.store:
                    ty = c.mod_types.get(m)
                    if ty is not None:
                        self.store[k] = self.mk(ty, self.fresh(fmt_key(k)))
                        continue
                    v = self.store[k]
                    if isinstance(v, (Cell, Obj, MapCell, RecCell)):
                        continue        # the reference stays; its contents are havocked through their own key
                    if isinstance(v, Seq) and v.ety is None:
                        t = self.param_ety(c, m)
                        if t is None:
                            raise Unsupported(f"element type of modified {m}")
                        self.store[k] = self.mk(TSeq(t, v.kind), self.fresh(fmt_key(k)))
                        continue
                    self.havoc_store(k, {})

    def param_ety(self, c, m):
        t = c.params.get(m)
        return getattr(t, "ety", None)

    # ------------------------------------------------------------ expressions
    def ev_cond(self, node, fr):
        return norm(self.truth(self.ev(node, fr)))

    def ev(self, node, fr):
        m = getattr(self, "ex_" + type(node).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(node).__name__}")
        return m(node, fr)

    def ex_Constant(self, n, fr):
        if n.value is Ellipsis:
            raise Unsupported("...")
        return n.value
    def ex_Name(self, n, fr): return self.lookup(n.id, fr)
    def ex_Tuple(self, n, fr):
        out = []
        for e in n.elts:
            if isinstance(e, ast.Starred):
                v = self.ev(e.value, fr)
                if isinstance(v, tuple):
                    out.extend(v)
                else:
                    s = self.as_seq(v)
                    if isinstance(s.n, int):
                        out.extend(s.get(k) for k in range(s.n))
                    else:
                        return self.star_seq(n, fr, "tuple")
            else:
                out.append(self.ev(e, fr))
        return tuple(out)
    def star_seq(self, n, fr, kind):
        acc = self.const_seq([], None, kind)
        for e in n.elts:
            if isinstance(e, ast.Starred):
                acc = self.seq_concat(acc, self.as_seq(self.ev(e.value, fr)), kind)
            else:
                acc = self.seq_concat(acc, self.const_seq([self.ev(e, fr)], None, kind), kind)
        return acc
    def ex_List(self, n, fr):
        if any(isinstance(e, ast.Starred) for e in n.elts):
            return self.new_list(self.star_seq(n, fr, "list"), ("list", n.lineno, n.col_offset))
        vals = [self.ev(e, fr) for e in n.elts]
        if self.pure:
            return self.const_seq(vals)
        return self.new_list(self.const_seq(vals), ("list", n.lineno, n.col_offset))
    def ex_Dict(self, n, fr):
        if all(isinstance(k, ast.Constant) and isinstance(k.value, str) for k in n.keys) and n.keys:
            c = RecCell(self.alloc(("rec", n.lineno, n.col_offset)))
            self.store[c.key] = {k.value: self.ev(v, fr) for k, v in zip(n.keys, n.values)}
            return c
        if not n.keys:
            c = MapCell(self.alloc(("map", n.lineno, n.col_offset)))
            self.store[c.key] = MapV(lambda k: False, lambda k: None, 0, None, None)
            return c
        if any(k is None for k in n.keys) and all(k is None or isinstance(k, ast.Constant) and isinstance(k.value, str) for k in n.keys):
            d = {}
            for k, v in zip(n.keys, n.values):
                v = self.ev(v, fr)
                if k is not None:
                    d[k.value] = v
                elif isinstance(v, RecCell):
                    d.update(self.rd(v.key))
                elif not (isinstance(v, MapCell) and self.rd(v.key).k is None):
                    raise Unsupported("dict display")
            c = RecCell(self.alloc(("rec", n.lineno, n.col_offset)))
            self.store[c.key] = d
            return c
        if all(k is not None for k in n.keys):
            c = MapCell(self.alloc(("map", n.lineno, n.col_offset)))
            self.store[c.key] = MapV(lambda k: False, lambda k: None, 0, None, None)
            ks = [self.ev(k, fr) for k in n.keys]
            if all(isinstance(k, (Prim, PyVal, FuncV)) for k in ks):
                c = RecCell(self.alloc(("rec", n.lineno, n.col_offset)))
                if len({objkey(k) for k in ks}) < len(ks):
                    raise Unsupported("dict display: names clash")
                self.store[c.key] = {objkey(k): self.ev(v, fr) for k, v in zip(ks, n.values)}
                return c
            for k, v in zip(ks, n.values):
                self.map_set(c, k, self.ev(v, fr))
            return c
        raise Unsupported("dict display")
    def ex_Set(self, n, fr):
        return tuple(self.ev(e, fr) for e in n.elts)   # only used for membership tests
    def ex_JoinedStr(self, n, fr):
        parts = []
        if "fstring" in self.opts and not self.pure:
            r = self.opts["fstring"](self, [v.value if isinstance(v, ast.Constant) else self.ev(v.value, fr) for v in n.values])
            if r is not None:
                return r
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                try:
                    x = self.ev(v.value, fr)
                except (Unsupported, PyExc):
                    return OpaqueStr()
                if isinstance(x, str) and v.conversion == -1 and v.format_spec is None:
                    parts.append(x)
                else:
                    return OpaqueStr()
        return "".join(parts)
    def ex_Lambda(self, n, fr):
        f = FuncV(n, fr, fr.module, fr.qual + ".<lambda>")
        return f
    def ex_IfExp(self, n, fr):
        c = self.ev_cond(n.test, fr)
        if is_sym(c):
            c = norm(z3.simplify(c))
        if isinstance(c, bool):
            return self.ev(n.body if c else n.orelse, fr)
        if self.pure:
            a = b = None
            try:
                a = self.ev(n.body, fr)
            except Unsupported as e1:
                raise
            b = self.ev(n.orelse, fr)
            return self.merge(c, a, b)
        return self.ev(n.body if self.branch(c) else n.orelse, fr)
    def ex_NamedExpr(self, n, fr):
        v = self.ev(n.value, fr)
        self.setvar(fr, n.target.id, v)
        return v
    def ex_BoolOp(self, n, fr):
        isand = isinstance(n.op, ast.And)
        v = self.ev(n.values[0], fr)
        for k, e in enumerate(n.values[1:]):
            t = norm(self.truth(v))
            if is_sym(t):
                t = norm(z3.simplify(t))
            if isinstance(t, bool):
                if t != isand:
                    return v
                v = self.ev(e, fr)
                continue
            if self.pure or simple_pure(e):
                pure_ok = True
                try:
                    self.pure += 1
                    try:
                        w = self.ev(e, fr)
                    finally:
                        self.pure -= 1
                    if isand:
                        v = AND(t, self.truth_pure(w)) if (is_boollike(v) and is_boollike(w)) or fr.spec is not None else self.merge(t, w, v)
                    else:
                        v = OR(t, self.truth_pure(w)) if (is_boollike(v) and is_boollike(w)) or fr.spec is not None else self.merge(t, v, w)
                    continue
                except Unsupported:
                    if self.pure:
                        raise
            if self.branch(t):
                if not isand:
                    return v if not is_boollike(v) else True
            else:
                if isand:
                    return v if not is_boollike(v) else False
            v = self.ev(e, fr)
        return v
    def ex_UnaryOp(self, n, fr):
        v = self.ev(n.operand, fr)
        if isinstance(n.op, ast.Not):
            return NOT(self.truth(v))
        v = self.force(v)
        if isinstance(n.op, ast.USub):
            if isinstance(v, (int, float)):
                return -v
            if isinstance(v, FloatV):
                r = FloatV(v.bv ^ z3.BitVecVal(1 << 63, 64))
                if self.opts.get("rank_cmp"):
                    self.qdepth_check()
                    self.pc.append(z3.And(self.frank(r) == -1 - self.frank(v), bits_nan(r.bv, True) == bits_nan(v.bv, True)))
                return r
            if isinstance(v, BVI):
                return bvbin("-", 0, v)
            if isinstance(v, RealV):
                return RealV(-v.t)
            return -zint(v)
        if isinstance(n.op, ast.UAdd):
            return v
        if isinstance(n.op, ast.Invert):
            if isinstance(v, int):
                return ~v
            return -zint(v) - 1
        raise Unsupported("unary")
    def ex_BinOp(self, n, fr):
        a = self.ev(n.left, fr)
        b = self.ev(n.right, fr)
        return self.binop(BIN[type(n.op)], a, b)
    def ex_Compare(self, n, fr):
        left = self.ev(n.left, fr)
        res = True
        for op, r in zip(n.ops, n.comparators):
            if res is not True and not self.pure and not simple_pure(r):
                if not self.branch(res):
                    return False
                res = True
            right = self.ev(r, fr)
            res = AND(res, self.cmp1(op, left, right))
            if res is False:
                return False
            left = right
        return res
    def cmp1(self, op, a, b):
        if isinstance(op, ast.Is):
            return self.is_(a, b)
        if isinstance(op, ast.IsNot):
            return NOT(self.is_(a, b))
        if isinstance(op, ast.In):
            return self.contains(a, b)
        if isinstance(op, ast.NotIn):
            return NOT(self.contains(a, b))
        return self.compare(CMP[type(op)], a, b)
    def ex_Attribute(self, n, fr):
        return self.getattr(self.ev(n.value, fr), n.attr)
    def ex_Subscript(self, n, fr):
        base = self.ev(n.value, fr)
        if isinstance(n.slice, ast.Slice):
            if n.slice.step is not None:
                st = self.ev(n.slice.step, fr)
                if st == -1 and n.slice.lower is None and n.slice.upper is None:
                    from . import prims
                    return prims.reverse_seq(self, base)
            lo, hi = self.slice_parts(n.slice, fr)
            return self.getslice(base, lo, hi)
        return self.getitem(base, self.ev(n.slice, fr))
    def ex_Call(self, n, fr):
        # spec forms that need unevaluated arguments
        if isinstance(n.func, ast.Name) and fr.spec is not None:
            from . import prims
            sf = prims.SPECFORMS.get(n.func.id)
            if sf is not None:
                return sf(self, n, fr)
        if isinstance(n.func, ast.Name) and n.func.id == "cast":
            return self.ev(n.args[1], fr)
        if isinstance(n.func, ast.Name) and n.func.id == "next" and n.args and isinstance(n.args[0], ast.GeneratorExp) and not self.pure:
            # the first element of a fresh generator
            g = self.comp(n.args[0], fr)
            if self.branch(zbool(self.compare(">", g.n, 0))):
                return g.get(0)
            if len(n.args) > 1:
                return self.ev(n.args[1], fr)
            self.raise_("StopIteration")
        if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Call) and isinstance(n.func.value.func, ast.Name) and n.func.value.func.id == "super":
            return self.super_call(n, fr)
        if isinstance(n.func, ast.Name) and n.func.id == "hasattr" or (isinstance(n.func, ast.Name) and n.func.id == "getattr"):
            pass
        f = self.ev(n.func, fr)
        args, kwargs = [], {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, fr)
                if isinstance(v, tuple):
                    args.extend(v)
                else:
                    s = self.as_seq(v)
                    if not isinstance(s.n, int):
                        if isinstance(f, Prim) and f.name in ("chain",):
                            args.append(s)
                            continue
                        raise Unsupported("star args")
                    args.extend(s.get(k) for k in range(s.n))
            else:
                args.append(self.ev(a, fr))
        for k in n.keywords:
            if k.arg is None:
                v = self.ev(k.value, fr)
                if isinstance(v, RecCell):
                    kwargs.update(self.rd(v.key))
                elif isinstance(v, MapCell):
                    kwargs["**"] = v        # for the models of callables that take any keywords
                else:
                    raise Unsupported("**args")
            else:
                kwargs[k.arg] = self.ev(k.value, fr)
        return self.call(f, args, kwargs)
    def super_call(self, n, fr):
        selfv = self.lookup("self", fr)
        owner = fr.qual.rsplit(".", 1)[0]
        m = self.prog.module(fr.module)
        real = self.ctx.classes[selfv.cls].real
        cls = getattr(m, owner)
        mro = real.__mro__
        for k in mro[mro.index(cls) + 1:]:
            if n.func.attr in vars(k):
                mod = getattr(vars(k)[n.func.attr], "__module__", None) or k.__module__
                node = self.prog.fn(mod, k.__qualname__ + "." + n.func.attr) if mod.startswith("hypothesis") else None
                if node is None:
                    if n.func.attr == "__init__":
                        return None
                    raise Unsupported("super")
                args = [self.ev(a, fr) for a in n.args]
                kw = {k2.arg: self.ev(k2.value, fr) for k2 in n.keywords}
                return self.call_func(FuncV(node, None, mod, k.__qualname__ + "." + n.func.attr), [selfv] + args, kw)
        raise Unsupported("super")
    def ex_Yield(self, n, fr):
        hook = self.contract.opts.get("on_yield") if self.contract else None
        if hook is not None:
            return hook(self, self.ev(n.value, fr) if n.value else None, fr)
        f = fr
        while f is not None and "$yield" not in f.vars:
            f = f.parent
        if f is None:
            raise Unsupported("yield")
        self.list_append(f.vars["$yield"], self.ev(n.value, fr) if n.value else None)
        return None
    def ex_YieldFrom(self, n, fr):
        f = fr
        while f is not None and "$yield" not in f.vars:
            f = f.parent
        if f is None:
            raise Unsupported("yield")
        self.list_extend(f.vars["$yield"], self.ev(n.value, fr))
        return None

    def ex_ListComp(self, n, fr):
        s = self.comp(n, fr)
        if self.pure:
            return s
        return self.new_list(s, ("comp", n.lineno, n.col_offset))
    def ex_GeneratorExp(self, n, fr):
        return self.comp(n, fr)
    def ex_SetComp(self, n, fr):
        # over a sequence of known length; the elements must be known, and at most one
        g = n.generators[0]
        src = self.as_seq(self.ev(g.iter, fr))
        if len(n.generators) != 1 or self.pure:
            raise Unsupported("set comprehension")
        if not isinstance(norm(src.n), int):
            from . import prims
            return prims.BUILTINS["set"].fn(self, [self.comp(n, fr)], {})
        out = []
        for k in range(norm(src.n)):
            f2 = Frame({}, fr, fr.module, fr.qual)
            f2.spec = fr.spec
            self.assign(g.target, src.get(k), f2)
            if all(self.branch(self.ev_cond(c, f2)) for c in g.ifs):
                v = self.force(self.ev(n.elt, f2))
                if not isinstance(v, (bool, int, str)):
                    raise Unsupported("set comprehension")
                if v not in out:
                    out.append(v)
        if len(out) > 1:
            raise Unsupported("set of several elements")
        return tuple(out)
    def ex_DictComp(self, n, fr):
        # over the items of a record: the keys are known
        g = n.generators[0]
        it = self.force(self.ev(g.iter, fr))
        if len(n.generators) == 1 and not self.pure and isinstance(it, Seq) and not g.ifs:
            # over anything else: some dictionary, once the expressions are known to evaluate for any one element
            if self.branch(self.compare(">", it.n, 0)):
                j = z3.Int(self.fresh("one"))
                self.assume(z3.And(0 <= j, j < zint(it.n)))
                f2 = Frame({}, fr, fr.module, fr.qual)
                f2.spec = fr.spec
                self.assign(g.target, it.get(j), f2)
                kty = self.typeof(self.force(self.ev(n.key, f2)))
                self.ev(n.value, f2)
                c = MapCell(self.alloc(("dictcomp", n.lineno, n.col_offset)))
                self.store[c.key] = self.mk_map(TMap(kty, AnyT), self.fresh("dictcomp"))
                return c
            it = ()
        if len(n.generators) != 1 or self.pure or not (isinstance(it, tuple) and all(isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], str) for x in it)):
            raise Unsupported("dict comprehension")
        out = {}
        for x in it:
            f2 = Frame({}, fr, fr.module, fr.qual)
            f2.spec = fr.spec
            self.assign(g.target, x, f2)
            if all(self.branch(self.ev_cond(c, f2)) for c in g.ifs):
                k = self.force(self.ev(n.key, f2))
                if not isinstance(k, str):
                    raise Unsupported("dict comprehension key")
                out[k] = self.ev(n.value, f2)
        c = RecCell(self.alloc(("dictcomp", n.lineno, n.col_offset)))
        self.store[c.key] = out
        return c

    def comp(self, n, fr):
        if len(n.generators) != 1:
            raise Unsupported("nested comprehension")
        g = n.generators[0]
        src = self.as_seq(self.ev(g.iter, fr))
        snap = Frame(dict(fr.vars), fr.parent, fr.module, fr.qual, fr.node)
        snap.spec = fr.spec
        snap.loops = fr.loops
        sstore = dict(self.store)

        def at(i, node):
            f2 = Frame({}, snap, fr.module, fr.qual)
            f2.spec = fr.spec
            # tuple-unpack the element purely
            self.pure += 1
            saved = self.store
            st = dict(sstore)
            self.store = st
            try:
                self.assign(g.target, src.get(i), f2)
                return self.ev(node, f2)
            finally:
                self.store = saved
                self.pure -= 1
        n0 = norm(src.n)
        if isinstance(n0, int) and n0 <= 12 and not g.ifs and not self.pure:
            vals = []
            for k in range(n0):
                f2 = Frame({}, fr, fr.module, fr.qual)
                f2.spec = fr.spec
                self.assign(g.target, src.get(k), f2)
                vals.append(self.ev(n.elt, f2))
            return self.const_seq(vals)
        if not self.pure:
            # exceptions and obligations inside the element expression, at an arbitrary index
            if not (simple_pure(n.elt) and all(simple_pure(x) for x in g.ifs)):
                j = z3.Int(self.fresh("cj"))
                if self.branch(z3.And(0 <= j, j < zint(src.n), z3.Bool(self.fresh("compcheck")))):
                    f2 = Frame({}, fr, fr.module, fr.qual)
                    f2.spec = fr.spec
                    self.assign(g.target, src.get(j), f2)
                    keep = True
                    for c in g.ifs:
                        if not self.branch(self.ev_cond(c, f2)):
                            raise PathEnd
                    self.ev(n.elt, f2)
                    raise PathEnd
        if not g.ifs:
            try:
                ety = self.typeof(at(z3.Int("_ety"), n.elt))
            except (Unsupported, SpecError):
                ety = None
            return Seq(src.n, lambda i: at(i, n.elt), ety, "list")
        # filtered: an order-preserving selection
        self.qdepth_check()
        nm = self.fresh("filt")
        cnt = z3.Int(nm + ".len")
        sel = z3.Function(nm + ".sel", z3.IntSort(), z3.IntSort())
        inv = z3.Function(nm + ".inv", z3.IntSort(), z3.IntSort())
        cond = lambda i: zbool(AND(*[self.truth_pure(at(i, c)) for c in g.ifs]))
        i, j = z3.Ints(f"{nm}.i {nm}.j")
        sn = zint(src.n)
        facts = [cnt >= 0, cnt <= sn,
                 z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < cnt), z3.And(0 <= sel(i), sel(i) < sn, cond(sel(i)), inv(sel(i)) == i)), patterns=[sel(i)]),
                 z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < sn, cond(i)), z3.And(0 <= inv(i), inv(i) < cnt, sel(inv(i)) == i)), patterns=[inv(i)]),
                 z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < cnt), sel(i) < sel(j)), patterns=[z3.MultiPattern(sel(i), sel(j))])]
        self.pc.extend(facts)
        return Seq(cnt, lambda k: at(sel(zint(k)), n.elt), self.tryty(at(z3.Int("_ety"), n.elt)), "list")

    # ------------------------------------------------------------ arithmetic
    def binop(self, op, a, b):
        a, b = self.force(a), self.force(b)
        a, b = norm(a), norm(b)
        if op == "/" and isinstance(a, (Obj, SymRef)) and self.find_method(a.cls, "__truediv__") is not None:
            return self.call(BoundV(a, self.find_method(a.cls, "__truediv__")), [b], {})
        pc = (bool, int, float, str, bytes)
        if isinstance(a, pc) and isinstance(b, pc):
            if isinstance(a, str) and op == "%":
                return OpaqueStr()
            try:
                return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "//": lambda: a // b, "%": lambda: a % b,
                        "**": lambda: a ** b if abs(b) < 5000 else _uns("pow"), "&": lambda: a & b, "|": lambda: a | b, "^": lambda: a ^ b, "<<": lambda: a << b, ">>": lambda: a >> b,
                        "/": lambda: a / b}[op]()
            except Unsupported:
                raise
            except Exception as e:
                self.raise_(type(e))
        if isinstance(a, OpaqueStr) or isinstance(b, OpaqueStr):
            return OpaqueStr()
        if isinstance(a, str) and op == "%":
            return OpaqueStr()
        if a is None or b is None:
            self.raise_("TypeError")
        if isinstance(a, RealV) or isinstance(b, RealV):
            x, y = self.real(a), self.real(b)
            return RealV({"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y, "/": lambda: x / y}[op]())
        if isinstance(a, (float, FloatV)) or isinstance(b, (float, FloatV)):
            return self.float_op(op, a, b)
        num = lambda x: is_intlike(x) or is_boollike(x)
        if num(a) and num(b):
            return self.int_op(op, a, b)
        if isinstance(a, tuple) and isinstance(b, tuple) and op == "+":
            return a + b
        if isinstance(a, (Obj, SymRef)):
            nm = {"+": "__add__", "-": "__sub__", "|": "__or__", "&": "__and__", "*": "__mul__"}.get(op)
            m = nm and self.find_method(a.cls, nm)
            if m:
                return self.call(BoundV(a, m), [b], {})
        if op in ("|", "&", "-", "^") and isinstance(a, MapCell) and isinstance(b, MapCell) and not self.pure:
            x, y = self.rd(a.key), self.rd(b.key)
            if x.k is None and y.k is None:
                return a
            dom = {"|": lambda k: OR(x.dom(k), y.dom(k)), "&": lambda k: AND(x.dom(k), y.dom(k)), "-": lambda k: AND(x.dom(k), NOT(y.dom(k))), "^": lambda k: zbool(x.dom(k)) != zbool(y.dom(k))}[op]
            return self.new_map(dom, x.k if x.k is not None else y.k, ("setop", op))
        sa = self.const_seq(a, kind="tuple") if isinstance(a, tuple) else self.seq_or_none(a)
        sb = self.const_seq(b, kind="tuple") if isinstance(b, tuple) else self.seq_or_none(b)
        if op == "+" and sa is not None and sb is not None:
            r = self.seq_concat(sa, sb)
            if isinstance(a, Cell):
                return self.new_list(r, ("concat",), a.pykind)
            return r
        if op == "*" and sa is not None and num(b):
            if isinstance(sa.n, int) and sa.n == 1:
                x = sa.get(0)
                r = Seq(norm(z3.simplify(z3.If(zint(b) > 0, zint(b), z3.IntVal(0)))), lambda i: x, sa.ety, sa.kind)
            elif isinstance(sa.n, int) and sa.n == 0:
                r = sa
            else:
                raise Unsupported("sequence repetition")
            return self.new_list(r, ("rep",), a.pykind) if isinstance(a, Cell) else r
        if op == "*" and sb is not None and num(a):
            return self.binop(op, b, a)
        raise Unsupported(f"binop {op} {a!r} {b!r}")

    def bound(self, t):
        "smallest k in a ladder with pc => 0 <= t <= k"
        t = zint(t)
        if self.feas.check(t < 0) != z3.unsat:
            return None
        for k in (1, 2, 4, 8, 11, 16, 32, 52, 64, 128, 1024):
            if self.feas.check(t > k) == z3.unsat:
                return k
        return None

    def bv_bound(self, b):
        if self.feas.check(b.bv < 0) != z3.unsat:
            return None
        for k in (1, 2, 4, 8, 11, 16, 32, 52, 64, 128, 1024):
            if k.bit_length() + 1 > b.w or self.feas.check(b.bv > k) == z3.unsat:
                return k
        return None

    def int_op(self, op, a, b):
        if is_boollike(a) and not isinstance(a, BVI):
            if op in "&|^" and is_boollike(b):
                x, y = zbool(a), zbool(b)
                return {"&": z3.And(x, y), "|": z3.Or(x, y), "^": z3.Xor(x, y)}[op]
        if (isinstance(a, BVI) or isinstance(b, BVI)):
            if op in ("+", "-", "*", "&", "|", "^") and to_bvi(a) is not None and to_bvi(b) is not None:
                return bvbin(op, a, b)
            if op in ("<<", ">>"):
                if isinstance(b, int):
                    if b < 0:
                        self.raise_("ValueError")
                    x = to_bvi(a)
                    if op == "<<":
                        return BVI(z3.Concat(x.bv, z3.BitVecVal(0, b))) if b else x
                    if b >= x.w:
                        return BVI(z3.If(x.bv < 0, z3.BitVecVal(-1, 2), z3.BitVecVal(0, 2)))
                    return BVI(z3.Extract(x.w - 1, b, x.bv)) if b else x
                if isinstance(b, BVI):
                    if self.pure:
                        k = min((1 << (b.w - 1)) - 1, 128)
                    else:
                        k = self.bv_bound(b)
                        if k is None:
                            if self.branch(b.bv < 0):
                                self.raise_("ValueError")
                            k = self.bv_bound(b)
                            if k is None:
                                raise Unsupported("unbounded shift")
                    x = to_bvi(a)
                    w = x.w + (k if op == "<<" else 0)
                    w = max(w, b.w)
                    xb, sb = ext(x.bv, w), ext(b.bv, w)
                    return BVI(xb << sb if op == "<<" else xb >> sb)
            if op == "/" and (isinstance(b, int) and b != 0) and to_bvi(a) is not None:
                # both convert to floats exactly, so the correctly rounded quotient is the float quotient
                x, y = to_bvi(a), to_bvi(b)
                lim = 1 << 53
                if self.opts.get("abstract_fp"):
                    return FloatV(z3.BitVec(self.fresh("anyfp"), 64))
                if abs(b) <= lim and (x.w <= 54 or (not self.pure and self.feas.check(z3.Or(x.bv > lim, x.bv < -lim)) == z3.unsat)):
                    return self.fp_result(z3.fpDiv(RNE, z3.fpSignedToFP(RNE, x.bv, F64), z3.fpSignedToFP(RNE, ext(y.bv, 64), F64)))
            if op in ("//", "%") and isinstance(b, int) and b > 0 and (b & (b - 1)) == 0:
                k = b.bit_length() - 1
                return self.int_op(">>", a, k) if op == "//" else bvbin("&", a, b - 1)
        x, y = zint(a), zint(b)
        if op == "+":
            return norm(x + y)
        if op == "-":
            return norm(x - y)
        if op == "*":
            return norm(x * y)
        if op in ("//", "%"):
            if isinstance(b, int):
                if b == 0:
                    self.raise_("ZeroDivisionError")
                if b > 0:
                    return x / y if op == "//" else x % y
                q = (-x) / z3.IntVal(-b)
                return q if op == "//" else x - q * y
            if not self.pure and self.branch(y == 0):
                self.raise_("ZeroDivisionError")
            if not self.pure and self.feas.check(y < 0) == z3.unsat:
                return x / y if op == "//" else x % y
            q = z3.If(y > 0, x / y, (-x) / (-y))
            return q if op == "//" else x - q * y
        if op == "**":
            if isinstance(b, int) and 0 <= b <= 4:
                r = z3.IntVal(1)
                for _ in range(b):
                    r = r * x
                return r
            if not self.pure and self.feas.check(y < 0) != z3.unsat:
                # a negative exponent would give a float
                self.oblige(f"{self.contract.name}:exponent-nonneg", y >= 0, kind="assert")
            if isinstance(a, int) and a == 2:
                return self.ctx.pow2(self, y)
            return self.ctx.pow(self, x, y)
        if op == "<<":
            if isinstance(b, int):
                return x * (1 << b)
            if not self.pure and self.branch(y < 0):
                self.raise_("ValueError")
            return x * self.ctx.pow2(self, y)
        if op == ">>":
            if isinstance(b, int):
                return x / z3.IntVal(1 << b)
            if not self.pure and self.branch(y < 0):
                self.raise_("ValueError")
            return x / self.ctx.pow2(self, y)
        if op == "&":
            for p, q in ((a, b), (b, a)):
                if isinstance(q, int) and q >= 0 and (q & (q + 1)) == 0:
                    return zint(p) % z3.IntVal(q + 1)
                if isinstance(q, int) and q > 0 and (q & (q - 1)) == 0:
                    return ((zint(p) / z3.IntVal(q)) % 2) * q
                if is_sym(q) and z3.is_app_of(q, z3.Z3_OP_ITE):
                    # a choice among constants (a table lookup)
                    c, u, v = q.children()
                    val = lambda t: t.as_long() if z3.is_int_value(t) else t
                    return z3.If(c, zint(self.int_op("&", p, val(u))), zint(self.int_op("&", p, val(v))))
            r = z3.Function("bitand", z3.IntSort(), z3.IntSort(), z3.IntSort())(x, y)
            self.pc.append(z3.And(z3.Implies(x >= 0, z3.And(0 <= r, r <= x)), z3.Implies(y >= 0, z3.And(0 <= r, r <= y))))
            return r
        if op == "|":
            for p, q in ((a, b), (b, a)):
                if isinstance(q, int) and q > 0 and (q & (q - 1)) == 0:
                    pz = zint(p)
                    return pz + q * (1 - (pz / z3.IntVal(q)) % 2)
            # disjoint union (x * 2**k) | y with 0 <= y < 2**k
            r = self.disjoint_or(x, y)
            if r is not None:
                return r
            for u, v in ((x, y), (y, x)):
                k = power_factor(v)
                if k is not None:
                    # u | n * 2**k is the sum when 0 <= u < 2**k (k >= 0); otherwise left open
                    c = z3.And(u >= 0, u < k)
                    return z3.If(c, u + v, z3.Int(self.fresh("or")))
        raise Unsupported(f"int op {op} on symbolic operands")

    def disjoint_or(self, x, y):
        if self.pure:
            return None
        hook = self.ctx.or_hook
        if hook:
            return hook(self, x, y)
        return None

    def float_op(self, op, a, b):
        if self.opts.get("real_fp"):
            # stated idealisation: float arithmetic as real arithmetic
            r = lambda v: RealV(self.real(v)) if not isinstance(v, RealV) else v
            if op == "/" and not self.pure and self.branch(r(b).t == 0):
                self.raise_("ZeroDivisionError")
            return self.binop(op, r(a), r(b))

        def fp(x):
            f = lift_float(x)
            if f is not None:
                return f.fp
            if isinstance(x, bool):
                x = int(x)
            if isinstance(x, int):
                try:
                    return lift_float(float(x)).fp
                except OverflowError:
                    self.raise_("OverflowError")
            if isinstance(x, BVI):
                return z3.fpSignedToFP(RNE, x.bv, F64)
            raise Unsupported("float op with symbolic int")
        x, y = fp(a), fp(b)
        if op == "/" and not self.pure:
            if self.branch(z3.fpIsZero(y)):
                self.raise_("ZeroDivisionError")
        if op == "*":
            # multiplication by -1.0 / 1.0 is exact and flips the sign
            for p, q in ((a, b), (b, a)):
                if isinstance(q, (int, float)) and q in (1, -1):
                    f = lift_float(p)
                    if f is not None:
                        r = z3.fpMul(RNE, x, y)
                        return self.fp_result(r)
        f = {"+": z3.fpAdd, "-": z3.fpSub, "*": z3.fpMul, "/": z3.fpDiv}.get(op)
        if f is not None and self.opts.get("abstract_fp"):
            # over-approximation: rounded arithmetic yields some float
            return FloatV(z3.BitVec(self.fresh("anyfp"), 64))
        if f is None:
            raise Unsupported(f"float op {op}")
        return self.fp_result(f(RNE, x, y))

    def fp_result(self, r):
        self.qdepth_check()
        b = z3.BitVec(self.fresh("fres"), 64)
        # the bit pattern is determined except for NaN payloads
        fact = z3.fpBVToFP(b, F64) == r
        self.pc.append(fact)
        self.feas.add(fact)
        return FloatV(b, None)


# ---------------------------------------------------------------- helpers
TABLE_OK = {}


def power_factor(t):
    "the factor 2**k of a product"
    for u in (t.children() if z3.is_mul(t) else [t]):
        if z3.is_app(u) and u.decl().name() == "spec.powint" and z3.is_int_value(u.arg(0)) and u.arg(0).as_long() == 2:
            return u
    return None


def _uns(m):
    raise Unsupported(m)


def aslist(x):
    if x is None:
        return []
    return list(x) if isinstance(x, (list, tuple)) else [x]


_qcache = {}
def has_quant(f):
    k = f.get_id()
    stack = [f]
    seen = set()
    while stack:
        t = stack.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(t):
            return True
        stack.extend(t.children())
    return False


def is_neg_syntactic(i):
    return False


def exc_name(e):
    return e.name.__name__ if isinstance(e.name, type) else str(e.name)


def fmt_key(k):
    if isinstance(k, tuple) and len(k) == 2 and isinstance(k[1], str):
        return f"{fmt_key(k[0])}.{k[1]}"
    if isinstance(k, tuple) and k and k[0] == "H":
        return f"heap.{k[1]}.{k[2]}"
    if isinstance(k, tuple):
        return "_".join(fmt_key(x) if isinstance(x, tuple) else str(x) for x in k)
    return str(k)


_pcache = {}
def parse_expr(src):
    if src not in _pcache:
        _pcache[src] = ast.parse("(" + src.strip() + "\n)", mode="eval").body
    return _pcache[src]


def names_in(t):
    return [n.id for n in ast.walk(t) if isinstance(n, ast.Name)]


def walk_fn(node):
    for c in ast.iter_child_nodes(node):
        if isinstance(c, (ast.FunctionDef, ast.Lambda)):
            continue
        yield c
        yield from walk_fn(c)


_SIMPLE = (ast.Name, ast.Constant, ast.Load, ast.Compare, ast.BoolOp, ast.And, ast.Or, ast.UnaryOp, ast.Not, ast.USub, ast.BinOp,
           ast.Add, ast.Sub, ast.Mult, ast.Lt, ast.LtE, ast.Gt, ast.GtE, ast.Eq, ast.NotEq, ast.Is, ast.IsNot, ast.Attribute, ast.Tuple)
def objkey(k):
    "key of a constant function or class in a record"
    return ("obj", k.qual if isinstance(k, FuncV) else getattr(k.o, "__qualname__", id(k.o)) if isinstance(k, PyVal) else k.name)


def simple_pure(e):
    return all(isinstance(n, _SIMPLE) for n in ast.walk(e))
