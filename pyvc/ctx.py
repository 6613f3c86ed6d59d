"""Contract registry, class specs, spec functions, baseline mapping."""
import ast
import json
import os
import textwrap
import z3
from .values import *
from .engine import *
from .program import Program, strip_doc, loops_of, bind_order, fn_hash


class Contract:
    def __init__(self, qual, params, *, module=None, requires=(), ensures=(), raises=None, returns=None, loops=(), modifies=(), decreases=None,
                 hints=(), ghost=None, types=None, name=None, lemma=False, src=None, self_invariant=False, establishes_inv=False, noinv=False,
                 yields=None, select=None, mod_types=None, pure_expr=None, inline_pure=False, result_expr=None, exc_ensures=(), trusted=None,
                 recursive_ok=False, no_call=False, gen=None, native=None, native_skip=(), inline=(), opts=None, kwonly=None, timeout=None):
        self.qual, self.params, self.module = qual, dict(params), module
        nm = lambda pre, xs: [(f"{pre}{k}", s) if isinstance(s, str) else tuple(s) for k, s in enumerate(xs)]
        self.requires = list(requires)
        self.ensures = nm("post", ensures)
        self.exc_ensures = nm("excpost", exc_ensures)
        self.raises = dict(raises or {})
        self.returns, self.loops, self.modifies, self.decreases = returns, list(loops), list(modifies), decreases
        self.hints, self.ghost, self.types = list(hints), dict(ghost or {}), dict(types or {})
        self.name = name or qual
        self.lemma, self.src = lemma, src
        self.self_invariant, self.establishes_inv, self.noinv = self_invariant, establishes_inv, noinv
        self.is_generator, self.yields = yields is not None, yields
        self.select, self.mod_types = select, dict(mod_types or {})
        self.pure_expr, self.inline_pure, self.result_expr = pure_expr, inline_pure, result_expr
        self.trusted, self.recursive_ok, self.no_call = trusted, recursive_ok, no_call
        self.gen, self.native, self.native_skip = gen, native, set(native_skip)
        self.opts = dict(opts or {})
        self.timeout = timeout
        self.group = None
        self.client = None


class ClassSpec:
    def __init__(self, name, real=None, fields=None, inv=(), heap=False, methods=None):
        self.name, self.real, self.fields = name, real, dict(fields or {})
        self.inv = [(f"I{k}", s) if isinstance(s, str) else tuple(s) for k, s in enumerate(inv)]
        self.heap, self.methods = heap, dict(methods or {})


class Table:
    def __init__(self, var, expr):
        self.var, self.expr = var, expr


class RecFn:
    "recursive specification function: an uninterpreted symbol, unfolded on request; also executable"
    def __init__(self, group, name, node, argtys, ret):
        self.group, self.name, self.node, self.argtys, self.ret = group, name, node, argtys, ret

    def sorts(self, ex):
        return [s for t in self.argtys for s in ex.key_sorts(t)]

    def apply(self, ex, args):
        ts = [t for a in args for t in ex.key_terms(a)]
        if isinstance(self.ret, TBool):
            return z3.Function("spec." + self.name, *[t.sort() for t in ts], z3.BoolSort())(*ts)
        return z3.Function("spec." + self.name, *[t.sort() for t in ts], z3.IntSort())(*ts)

    def body(self, ex, args):
        fr = Frame(dict(zip([a.arg for a in self.node.args.args], args)), None, self.group.module, "spec." + self.name)
        fr.spec = self.group.ns
        ex.pure += 1
        try:
            return ex.pure_block(strip_doc(self.node), fr)
        finally:
            ex.pure -= 1


class Group:
    """one contract file: contracts for a module of the real code"""
    def __init__(self, module):
        self.module = module
        self.contracts = []
        self.ns = {}
        self.native_ns = {}
        self.lemmas = {}
        self.rec = {}
        self.classes = {}
        self.tables = {}
        self.overrides = {}
        self.trusted = []
        self.opaque_attrs = {}

    def fn(self, qual, params, **kw):
        c = Contract(qual, params, module=kw.pop("module", self.module), **kw)
        c.group = self
        self.contracts.append(c)
        return c

    def spec(self, src):
        "non-recursive specification function, inlined"
        src = textwrap.dedent(src)
        node = ast.parse(src).body[0]
        f = FuncV(node, None, self.module, "spec." + node.name)
        fr = Frame({}, None, self.module, "spec")
        fr.spec = self.ns
        f.env = fr
        self.ns[node.name] = f
        exec(compile(src, f"<spec {node.name}>", "exec"), self.native_ns)

    def recspec(self, src, argtys, ret=None):
        src = textwrap.dedent(src)
        node = ast.parse(src).body[0]
        r = RecFn(self, node.name, node, argtys, ret or Int)
        self.rec[node.name] = r
        self.ns[node.name] = Prim(lambda ex, a, k: r.apply(ex, a), node.name)
        exec(compile(src, f"<spec {node.name}>", "exec"), self.native_ns)

    def lemma(self, src, params, **kw):
        "ghost function: body is the proof (recursion = induction), checked like any other function"
        src = textwrap.dedent(src)
        node = ast.parse(src).body[0]
        c = Contract(node.name, params, module=self.module, lemma=True, src=node, recursive_ok=True, **kw)
        c.group = self
        c.name = "lemma:" + node.name
        c.client = src if node.name.endswith("_client") else None
        self.lemmas[node.name] = c
        self.contracts.append(c)
        def native(ex, a, k):
            raise Unsupported("lemma called outside ghost code")
        fv = FuncV(node, None, self.module, node.name)
        self.ns[node.name] = fv
        return c

    def cls(self, name, **kw):
        self.classes[name] = ClassSpec(name, **kw)

    def table(self, module, name, var, expr):
        self.tables[(module, name)] = Table(var, expr)

    def override(self, module, name, v):
        self.overrides[(module, name)] = v


BASELINE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "contracts", "baseline.json")


class Ctx:
    def __init__(self, groups):
        self.prog = Program()
        self.groups = groups
        self.classes = {"$list2": ClassSpec("$list2", fields={"0": Int, "1": Int}, heap=True)}
        self.tables, self.overrides, self.opaque_attrs = {}, {}, {}
        self.by_fn = {}
        self.or_hook = None
        for g in groups:
            for k, v in g.classes.items():
                self.classes.setdefault(k, v)       # earlier groups win
            self.tables.update(g.tables)
            self.overrides.update(g.overrides)
            self.opaque_attrs.update(g.opaque_attrs)
            for c in g.contracts:
                if not c.lemma and not c.no_call:
                    self.by_fn.setdefault((c.module, c.qual), []).append(c)
        try:
            self.baseline = json.load(open(BASELINE))
        except FileNotFoundError:
            self.baseline = {}
        self._ord = {}

    # -------- functions
    def node_of(self, c):
        if c.lemma:
            return c.src
        n = self.prog.fn(c.module, c.qual)
        if n is None:
            raise Unsupported(f"{c.module}:{c.qual} not found in the source")
        return n

    def spec_ns(self, c):
        return c.group.ns

    def rec_fn(self, c, name):
        for g in [c.group] + self.groups:
            if name in g.rec:
                return g.rec[name]
        raise SpecError(f"no recursive spec {name}")

    def lemma(self, name):
        for g in self.groups:
            if name in g.lemmas:
                return g.lemmas[name]
        raise SpecError(f"no lemma {name}")

    def contract_for(self, module, qual, current, args, kwargs, ex):
        cs = self.by_fn.get((module, qual))
        if not cs:
            if current is not None and current.lemma or True:
                lc = None
                for g in self.groups:
                    if qual in g.lemmas and g.module == module:
                        lc = g.lemmas[qual]
                if lc is not None:
                    return lc
            return None
        if f"{qual}" in current.opts.get("inline", ()):
            return None
        for c in cs:
            if c.select is None or c.select(ex, args, kwargs):
                return c
        return None

    def class_name(self, real):
        for n, cs in self.classes.items():
            if cs.real is real:
                return n
        return None

    def exc_class(self, c, name):
        import builtins
        if hasattr(builtins, name):
            return getattr(builtins, name)
        m = self.prog.module(c.module)
        if hasattr(m, name):
            return getattr(m, name)
        import hypothesis.errors as he
        if hasattr(he, name):
            return getattr(he, name)
        return name

    def named_type(self, node, ex, fr):
        names = {"Int": Int, "Bool": Bool, "Float": Float, "AnyT": AnyT, "Real": Real}
        if isinstance(node, ast.Name) and node.id in names:
            return names[node.id]
        if isinstance(node, ast.Constant):
            return TOpaque(node.value)
        if isinstance(node, ast.Call) and node.func.id == "BV":
            return TBV(node.args[0].value)
        if isinstance(node, ast.Call) and node.func.id == "Ref":
            return TRef(node.args[0].value)
        if isinstance(node, ast.Tuple):
            return TTuple(*[self.named_type(e, ex, fr) for e in node.elts])
        raise SpecError("type in quantifier")

    # -------- loops
    def loop_specs(self, c, node):
        ls = loops_of(node)
        out = {}
        for k, l in enumerate(ls):
            self._ord[id(l)] = k
            if k < len(c.loops) and c.loops[k] is not None:
                out[id(l)] = c.loops[k]
        base = self.baseline.get(f"{c.module}:{c.qual}")
        self.spare_loops = {}
        if base is not None and len(ls) < base["loops"] and len(ls) < len(c.loops):
            # a loop moved out of this function (an extracted helper): let helpers claim the specs in order
            self.spare_loops[c.name] = c.loops[len(ls):] if ls else list(c.loops)
        return out

    def helper_loops(self, c, f):
        ls = loops_of(f.node)
        if not ls:
            return None
        for k, l in enumerate(ls):
            self._ord[id(l)] = k
        sp = self.spare_loops.get(c.name) if hasattr(self, "spare_loops") else None
        if sp:
            return {id(l): s for l, s in zip(ls, sp)}
        ext = c.opts.get("helper_loops", {}).get(f.qual)
        if ext:
            return {id(l): s for l, s in zip(ls, ext)}
        return None

    def loop_ordinal(self, fr, s):
        return self._ord.get(id(s), 0)

    def renames(self, c, node):
        "map baseline local names to the current ones by first-binding position when the old name is gone"
        base = self.baseline.get(f"{c.module}:{c.qual}")
        if base is None or c.lemma:
            return {}
        cur = bind_order(node)
        old = base["locals"]
        if cur == old:
            return {}
        missing = [n for n in old if n not in cur]
        new = [n for n in cur if n not in old]
        if missing and len(missing) == len(new):
            return dict(zip(missing, new))
        return {}

    # -------- powers and bit lengths
    def pow_fn(self):
        return z3.Function("spec.powint", z3.IntSort(), z3.IntSort(), z3.IntSort())

    def pow(self, ex, x, y):
        return self._pow(ex, zint(x), zint(y))

    def pow2(self, ex, y):
        return self._pow(ex, z3.IntVal(2), zint(y))

    def _pow(self, ex, x, y):
        f = self.pow_fn()
        y = z3.simplify(y)
        if z3.is_int_value(y) and 0 <= y.as_long() <= 64:
            r = z3.IntVal(1)
            for _ in range(y.as_long()):
                r = r * x
            return z3.simplify(r)
        if "pow" not in ex.rec_facts:
            ex.rec_facts.add("pow")
            a, k = z3.Ints("_pa _pk")
            ex.pc.append(z3.ForAll([a], f(a, 0) == 1))
            # positivity: proved as lemma_pow_pos (base 1, step a*p) in contracts/c_math.py
            ex.pc.append(z3.ForAll([a, k], z3.Implies(z3.And(a >= 1, k >= 0), f(a, k) >= 1), patterns=[f(a, k)]))
        t = f(x, y)
        if not getattr(ex, "qdepth", 0):
            key = ("powu", t.get_id())
            if key not in ex.rec_facts:
                ex.rec_facts.add(key)
                ex.pc.append(z3.Implies(y >= 1, t == x * f(x, z3.simplify(y - 1))))
                ex.pc.append(z3.Implies(y >= 0, f(x, z3.simplify(y + 1)) == x * t))
        return t

    def bit_length(self, ex, x):
        ex.qdepth_check()
        bl = z3.Function("spec.bitlen", z3.IntSort(), z3.IntSort())
        t = bl(x)
        ax = z3.If(x >= 0, x, -x)
        key = ("bl", t.get_id())
        if key not in ex.rec_facts:
            ex.rec_facts.add(key)
            facts = [t >= 0, (t == 0) == (x == 0), z3.Implies(x != 0, z3.And(self._pow(ex, z3.IntVal(2), t - 1) <= ax)), ax < self._pow(ex, z3.IntVal(2), t)]
            ex.pc.extend(facts)
        return t


def write_baseline(ctx):
    out = {}
    for g in ctx.groups:
        for c in g.contracts:
            if c.lemma:
                continue
            n = ctx.prog.fn(c.module, c.qual)
            out[f"{c.module}:{c.qual}"] = {"locals": bind_order(n), "loops": len(loops_of(n)), "hash": fn_hash(n)}
    json.dump(out, open(BASELINE, "w"), indent=0, sort_keys=True)


def ctx_for(mods):
    "context of the contract modules and the groups to verify (DEPS are assumed here, verified under their own property)"
    own, deps = [], []
    for m in mods:
        own += [g for g in getattr(m, "GROUPS", None) or [m.G] if g not in own]
        deps += [g for g in getattr(m, "DEPS", ())]
    for g in own:
        for g2 in getattr(g, "deps", ()):
            deps.append(g2)
    allg = own + [g for k, g in enumerate(deps) if g not in own and g not in deps[:k]]
    return Ctx(allg), own
