"""Executing contracts in Python: counterexample replay and bounded search of one contract against the real code."""
import ast
import copy
import importlib
import inspect
import math
import struct
import types
from .values import *
from .program import strip_doc


class Skip(Exception):
    "a clause that has no executable reading"


def safe(x):
    try:
        return repr(x)[:300]
    except Exception as e:
        return f"<{type(x).__name__}>"


def _forall(*a):
    *r, f = a
    lo, hi = r
    return all(f(k) for k in range(lo, hi))


def _exists(*a):
    *r, f = a
    lo, hi = r
    return any(f(k) for k in range(lo, hi))


def _skip(*a, **k):
    raise Skip


SAMPLE = []


def near_floats(vals):
    out = set()
    for v in list(vals) + [x * sg for x in (0.0, 0.5, 1.0, 65504.0, 3.4028234663852886e38, 1.7976931348623157e308, math.inf, 5e-324, 2.2250738585072014e-308, 1.1754943508222875e-38, 6.103515625e-05) for sg in (1.0, -1.0)]:
        if isinstance(v, (list, tuple)):
            out |= near_floats([x for x in v if isinstance(x, float)]) if any(isinstance(x, float) for x in v) else set()
            continue
        if not isinstance(v, float) or v != v:
            continue
        out |= {v, -v, math.nextafter(v, math.inf), math.nextafter(v, -math.inf)}
        for f, i in (("!f", "!i"), ("!e", "!h")):
            try:
                n = struct.unpack(i, struct.pack(f, v))[0]
                out |= {struct.unpack(f, struct.pack(i, n + d))[0] for d in (-1, 0, 1)}
            except (OverflowError, struct.error):
                pass
    return {x for x in out if x == x}


def _forall_t(*a, **k):
    *ts, f = a
    if len(ts) == 1 and isinstance(ts[0], TFloat):
        return all(f(g) for g in SAMPLE)
    raise Skip


def _bits(x):
    return struct.unpack("!Q", struct.pack("!d", x))[0]


def _same(a, b):
    return _bits(float(a)) == _bits(float(b))


def _real(x):
    from fractions import Fraction
    return Fraction(x)


def _fits(x, w):
    if x != x or w == 64:
        return True
    fmt = {32: "!f", 16: "!e"}[w]
    try:
        return struct.unpack(fmt, struct.pack(fmt, x))[0] == x
    except OverflowError:
        return False


NS = dict(fits=_fits, integral=lambda f: f == f and f not in (math.inf, -math.inf) and f == int(f), ipart=int, forall=_forall, exists=_exists, forall_t=_forall_t, Float=Float, Int=Int, Bool=Bool, AnyT=AnyT, Real=Real, BV=TBV, Ref=TRef, exists_t=_skip, bits=_bits, same_float=_same, real=_real, iff=lambda a, b: bool(a) == bool(b),
          isnan=lambda x: isinstance(x, float) and x != x, isinf=lambda x: x in (math.inf, -math.inf), is_int=lambda x: isinstance(x, int) and not isinstance(x, bool),
          is_bool=lambda x: isinstance(x, bool), is_none=lambda x: x is None, seq_eq=lambda a, b: list(a) == list(b), has_key=lambda m, k: k in m, at_key=lambda m, k: m[k])


class Lower(ast.NodeTransformer):
    def __init__(self):
        self.olds = []

    def visit_Call(self, n):
        if isinstance(n.func, ast.Name):
            if n.func.id == "implies":
                a, b = n.args
                return ast.copy_location(ast.BoolOp(ast.Or(), [ast.UnaryOp(ast.Not(), self.visit(a)), self.visit(b)]), n)
            if n.func.id == "old":
                self.olds.append(n.args[0])
                return ast.copy_location(ast.Name(f"__old{len(self.olds) - 1}", ast.Load()), n)
        return self.generic_visit(n)


def compile_clause(src):
    t = ast.parse(src.strip(), mode="eval")
    lo = Lower()
    t = ast.fix_missing_locations(lo.visit(t))
    olds = []
    for o in lo.olds:
        olds.append(compile(ast.fix_missing_locations(ast.Expression(o)), "<old>", "eval"))
    return compile(t, f"<{src[:60]}>", "eval"), olds, {x.id for x in ast.walk(t) if isinstance(x, ast.Name)}


def real_function(c):
    m = importlib.import_module(c.module)
    if c.client:
        # a proof client: straight-line code over the real functions
        ns = dict(vars(m))
        exec(compile(c.client, f"<client {c.qual}>", "exec"), ns)
        return ns[c.qual]
    o = m
    for p in c.qual.split("."):
        if p == "<locals>":
            return None
        o = inspect.getattr_static(o, p) if inspect.isclass(o) else getattr(o, p)
    if isinstance(o, (staticmethod, classmethod)):
        return None
    if isinstance(o, property):
        o = o.fget
    return o if callable(o) else None


def simple_ghost(t):
    return isinstance(t, (TInt, TBool, TFloat, TBV))


class NativeContract:
    def __init__(self, c, ctx):
        self.c = c
        self.f = real_function(c)
        ns = dict(NS)
        m = importlib.import_module(c.module)
        ns.update({k: v for k, v in vars(m).items() if not k.startswith("__")})
        for g in ctx.groups:
            ns.update(g.native_ns)
        ns.update(c.group.native_ns)
        if c.native:
            ns.update(c.native)
        for g in ctx.groups:
            for f in g.native_ns.values():
                if isinstance(f, types.FunctionType):
                    for k, v in ns.items():
                        f.__globals__.setdefault(k, v)
        self.ns = ns
        self.req = [compile_clause(s) for s in c.requires]
        self.ens = [(n, s, compile_clause(s)) for n, s in c.ensures if n not in c.native_skip]
        ghosts = {g for g, t in c.ghost.items() if not simple_ghost(t)} - set(c.native or {})
        self.req = [r for r in self.req if not (r[2] & ghosts)]
        self.ens = [e for e in self.ens if not (e[2][2] & ghosts)]
        sel = []
        for n, s, cl in self.ens:
            sel.append((n, s, cl))
        self.ens = sel

    def usable(self):
        return self.f is not None and bool(self.ens or self.c.raises)

    def ok_input(self, args):
        env = dict(self.ns)
        env.update(args)
        try:
            return all(eval(r[0], env) for r in self.req)
        except Skip:
            return False
        except Exception:
            return False

    def run(self, args):
        "None when the contract holds on these arguments (or they are outside the precondition), else a message"
        if not self.ok_input(args):
            return None
        env = dict(self.ns)
        env.update(args)
        olds = {}
        for n, s, (code, oc, names) in self.ens:
            vs = []
            for o in oc:
                try:
                    v = eval(o, env)
                    vs.append(copy.deepcopy(v) if not callable(v) else v)
                except Exception:
                    vs.append(None)
            olds[n] = vs
        try:
            res = self.f(**{k: v for k, v in args.items() if k not in self.c.ghost})
            if inspect.isgenerator(res):
                res = list(res)
        except Exception as e:
            for k, cond in self.c.raises.items():
                if any(b.__name__ == k for b in type(e).__mro__):
                    if isinstance(cond, str):
                        try:
                            code, oc, names = compile_clause(cond)
                            env2 = dict(env)
                            if not eval(code, env2):
                                return f"raised {type(e).__name__} although not ({cond})"
                        except Exception:
                            pass
                    return None
            return f"raised {type(e).__name__}: {e}"
        if any("Float" in cl[2] for _, _, cl in self.ens):
            SAMPLE[:] = list(near_floats(list(args.values()) + [res]))
        for n, s, (code, oc, names) in self.ens:
            e2 = dict(env)
            e2["result"] = res
            for k, v in enumerate(olds[n]):
                e2[f"__old{k}"] = v
            try:
                ok = eval(code, e2)
            except (Skip, RecursionError, MemoryError, OverflowError):
                continue
            except Exception as e:
                return f"clause {n} ({s}) could not be evaluated on result {safe(res)}: {type(e).__name__}: {e}"
            if not ok:
                return f"clause {n} ({s}) is false; result {safe(res)}"
        return None


INTS = [0, 1, 2, 3, 5, 7, 10, 16, 63, 64, 100, 127, 128, 255, 256, 1000, 1023, 1024, 65535, 2**31, 2**53, 2**63, 2**64 - 1, 2**64, 2**128, 10**30]
FLOATS = [0.0, 0.5, 1.0, 1.5, 2.0, 3.0, 0.1, 1e-5, 1e10, 2.0**53, 2.0**53 + 2, 2.0**56, 2.0**56 - 8, 1e300, 1.7976931348623157e308, math.inf, math.nan, 5e-324, 2.2250738585072014e-308, 1.1, 1 / 3, 65504.0, 3.4028234663852886e38, 1e-45]


def gen_value(t, rng):
    if isinstance(t, TInt):
        k = rng.random()
        if k < 0.5:
            return rng.randint(-6, 12)
        if k < 0.85:
            return rng.choice(INTS) * rng.choice([1, -1]) + rng.randint(-2, 2)
        return rng.getrandbits(rng.randint(1, 100)) * rng.choice([1, -1])
    if isinstance(t, TBool):
        return rng.random() < 0.5
    if isinstance(t, TFloat):
        k = rng.random()
        if k < 0.6:
            return rng.choice(FLOATS) * rng.choice([1.0, -1.0])
        if k < 0.8:
            return struct.unpack("!d", rng.getrandbits(64).to_bytes(8, "big"))[0]
        return rng.uniform(-100, 100)
    if isinstance(t, TBV):
        k = rng.random()
        w = t.width
        if k < 0.3:
            return rng.getrandbits(w)
        if k < 0.6:
            return rng.choice([0, 1, (1 << w) - 1, 1 << (w - 1), (1 << (w - 1)) - 1]) if rng.random() < 0.3 else 1 << rng.randrange(w)
        v = rng.getrandbits(rng.randint(1, w))
        return v << rng.randint(0, w - v.bit_length())
    if isinstance(t, TNone):
        return None
    if isinstance(t, TConst):
        return t.v
    if isinstance(t, TOpt):
        return None if rng.random() < 0.35 else gen_value(t.t, rng)
    if isinstance(t, TTuple):
        return tuple(gen_value(x, rng) for x in t.tys)
    if isinstance(t, (TSeq, TList)):
        n = rng.choice([0, 0, 1, 1, 2, 2, 3, 4, 5, 8, 12])
        kind = t.kind if isinstance(t, TSeq) else t.pykind
        if kind == "bytes":
            return bytes(rng.choice([0, 1, 2, 127, 128, 255, rng.randrange(256)]) for _ in range(n))
        if kind == "bytearray":
            return bytearray(rng.choice([0, 1, 2, 127, 128, 255]) for _ in range(n))
        if kind == "str":
            return "".join(chr(rng.choice([48, 49, 65, 90, 0, 128, 0x10FFFF, rng.randrange(0x110000)])) for _ in range(n))
        xs = [gen_value(t.ety, rng) for _ in range(n)]
        return tuple(xs) if kind == "tuple" else xs
    if isinstance(t, TAny):
        return rng.randint(0, 3)
    if isinstance(t, TDict):
        return {k: gen_value(v, rng) for k, v in t.fields.items()}
    raise Skip


def gen_args(c, rng):
    a = c.gen(rng) if c.gen is not None else {p: gen_value(t, rng) for p, t in c.params.items()}
    if a is not None:
        for g, t in c.ghost.items():
            if g not in a and simple_ghost(t):
                a[g] = gen_value(t, rng)
    return a


class NoModel(Exception):
    pass


def concretize(t, name, m):
    "a Python value of type t from a solver model"
    if isinstance(t, TInt):
        v = m.get(name, 0)
        if not isinstance(v, int):
            raise NoModel
        return v
    if isinstance(t, TBool):
        return bool(m.get(name, False))
    if isinstance(t, TFloat):
        return struct.unpack("!d", int(m.get(name, 0)).to_bytes(8, "big"))[0]
    if isinstance(t, TBV):
        return int(m.get(name, 0))
    if isinstance(t, TNone):
        return None
    if isinstance(t, TConst):
        return t.v
    if isinstance(t, TOpt):
        return None if m.get(name + ".isnone", False) else concretize(t.t, name, m)
    if isinstance(t, TTuple):
        return tuple(concretize(x, f"{name}.{k}", m) for k, x in enumerate(t.tys))
    if isinstance(t, TDict):
        return {k: concretize(x, f"{name}[{k}]", m) for k, x in t.fields.items()}
    if isinstance(t, (TSeq, TList)):
        n = m.get(name + ".len", 0)
        if not isinstance(n, int) or n < 0 or n > 4096 or not isinstance(t.ety, (TInt, TBool)):
            raise NoModel
        f = m.get(name + ".at", {"tab": [], "else": 0})
        tab = {k[0]: v for k, v in f["tab"] if len(k) == 1}
        xs = [tab.get(i, f["else"] or 0) for i in range(n)]
        kind = t.kind if isinstance(t, TSeq) else t.pykind
        if kind == "bytes":
            return bytes(x & 255 for x in xs)
        if kind == "str":
            return "".join(chr(max(0, min(0x10FFFF, x))) for x in xs)
        return tuple(xs) if kind == "tuple" else xs
    raise NoModel


def args_from_model(c, m):
    a = {p: concretize(t, p, m) for p, t in c.params.items()}
    for g, t in c.ghost.items():
        if simple_ghost(t):
            a[g] = concretize(t, g, m)
    return a
