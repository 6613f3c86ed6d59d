"""Contracts for hypothesis.stateful (C18): only legal steps run, in the right order, with every invariant checked after each."""
import z3
from pyvc.values import *
from pyvc.ctx import Group
from pyvc.engine import Loop, Obj, AND, NOT, OR, zbool, zint
from hypothesis.errors import InvalidDefinition, StopTest
from hypothesis import stateful
from contracts import models

NN = dict(opts=dict(no_native=True))
SM = "hypothesis.stateful"
A = AnyT
G = Group(SM)
models.install(G)


# --- bundles
def m_bundle(ex, a, k):
    "the bundle of that name: the one this strategy is about"
    models.pre(ex, "bundle:name", ex.eq(a[1], ex.store[(ex.old_vars["self"].key, "name")]))
    return ex.store[(a[0].key, "the_bundle")]


G.cls("Machine", fields=dict(the_bundle=TList(A), names_to_values=TMap(A, A)), methods=dict(bundle=Prim(m_bundle)))
G.cls("SData", fields=dict(machine=TObj("Machine"), ref=TOpaque("Ref")), methods=dict(models.DATA, draw=Prim(lambda ex, a, k: ex.store[(a[0].key, "machine" if isinstance(a[1], (Prim, PyVal)) else "ref")])))
G.override(SM, "self_strategy", Prim(None, "self_strategy"))
G.cls("BundleReferenceStrategy", real=stateful.BundleReferenceStrategy, fields=dict(name=A, consume=Bool))
B = "data.machine.the_bundle"
G.fn("BundleReferenceStrategy.do_draw", dict(self=TObj("BundleReferenceStrategy"), data=TObj("SData")), no_call=True, raises={"StopTest": f"len({B}) == 0"}, modifies=[B],
     ensures=[("from-bundle", f"exists(0, old(len({B})), lambda i: result == old({B}[i]) and len({B}) == (old(len({B})) - 1 if self.consume else old(len({B}))) and forall(0, len({B}), lambda j: {B}[j] == old({B}[j + 1 if self.consume and j >= i else j])))")], **NN)


# --- which rules may run
V = Group(SM)
full = z3.Function("bundle_has_values", sort_of("Any"), z3.BoolSort())
holds = z3.Function("precondition_holds", z3.IntSort(), z3.BoolSort())
on = z3.Function("rule_is_enabled", sort_of("Any"), z3.BoolSort())
V.ns["full"] = Prim(lambda ex, a, k: full(ex.force(a[0]).t))
V.ns["holds"] = Prim(lambda ex, a, k: holds(zint(a[0].id)))
V.ns["on"] = Prim(lambda ex, a, k: on(ex.force(a[0]).t))


def v_bundle(ex, a, k):
    n = z3.Int(ex.fresh("size"))
    ex.assume(z3.And(n >= 0, full(ex.force(a[1]).t) == (n > 0)))
    return Seq(n, lambda i: ex.mk(A, "bundle_item", (zint(i),)), A, "list")


class Pred(Prim):
    pass


def call_pre(ex, a, k):
    p = a[0]
    if not (isinstance(a[1], Obj) and a[1].cls == "VMachine"):
        raise Unsupported("precondition of something else")
    return holds(zint(p.id))


V.cls("MachineClass", fields={"__qualname__": A, "__name__": A})
V.cls("Counter", methods=dict(__getitem__=Prim(lambda ex, a, k: Obj(("counts",), "Counts"))))
V.cls("Counts", methods=dict(__getitem__=Prim(lambda ex, a, k: 0), __setitem__=Prim(lambda ex, a, k: None)))
V.cls("VMachine", fields={"_observability_predicates": TObj("Counter"), "__class__": TObj("MachineClass")}, methods=dict(bundle=Prim(v_bundle)))
V.cls("RuleBundle", heap=True, fields=dict(name=A))
V.cls("Function", heap=True, fields=dict(__name__=A))
V.cls("Rule", heap=True, fields=dict(bundles=TSeq(TRef("RuleBundle"), "tuple"), preconditions=TSeq(TRef("Pre"), "tuple"), function=TRef("Function"), arguments_strategies=TMap(A, A)))
V.override(SM, "get_pretty_function_description", Prim(lambda ex, a, k: ""))
V.cls("Pre", heap=True, fields=dict(idx=Int), methods=dict(__call__=Prim(call_pre)))
VALID = "(forall(0, len({r}.bundles), lambda i: full({r}.bundles[i].name)) and forall(0, len({r}.preconditions), lambda i: holds({r}.preconditions[i])))"
V.cls("RuleStrategy", real=stateful.RuleStrategy, fields=dict(machine=TObj("VMachine"), rules=TList(TRef("Rule")), enabled_rules_strategy=A))
V.fn("RuleStrategy.is_valid", dict(self=TObj("RuleStrategy"), rule=TRef("Rule")), returns=Bool, ensures=[("exactly", "result == " + VALID.format(r="rule"))],
     loops=[Loop(inv=["forall(0, _i, lambda i: full(rule.bundles[i].name))"]), Loop(inv=["forall(0, _i, lambda i: holds(rule.preconditions[i]))"])], **NN)

# --- choosing the next rule
D = Group(SM)
valid = z3.Function("rule_is_valid", z3.IntSort(), z3.BoolSort())
enabled = z3.Function("rule_is_enabled", sort_of("Any"), z3.BoolSort())
D.ns["valid"] = Prim(lambda ex, a, k: valid(zint(a[0].id)))
D.ns["enabled"] = Prim(lambda ex, a, k: enabled(ex.force(a[0]).t))
drawn_by = z3.Function("drawn_by", sort_of("Any"), sort_of("Any"), z3.BoolSort())
D.ns["drawn_by"] = Prim(lambda ex, a, k: drawn_by(ex.force(a[0]).t, ex.force(a[1]).t))


class Sampled(Prim):
    of = cond = None


def mk_sampled(ex, a, k):
    p = Sampled(None, "sampled_from")
    p.of = a[0]
    models.pre(ex, "sampled_from:nonempty", zint(ex.as_seq(a[0]).n) > 0)
    return keep(ex, p)


def keep(ex, p):
    o = Obj(ex.alloc("sampled"), "Sampled")
    ex.store[(o.key, "p")] = p
    return o


def filt(ex, a, k):
    p = Sampled(None, "filtered")
    p.of, p.cond = ex.store[(a[0].key, "p")].of, a[1]
    return keep(ex, p)


def r_draw(ex, a, k):
    s = a[1]
    if isinstance(s, Obj) and s.cls == "Sampled":
        p = ex.store[(s.key, "p")]
        q = ex.as_seq(p.of)
        j = z3.Int(ex.fresh("picked"))
        ex.assume(z3.And(0 <= j, j < zint(q.n)))
        r = q.get(j)
        if p.cond is not None and not ex.branch(zbool(ex.truth(ex.call(p.cond, [r], {})))):
            ex.raise_(StopTest)
        return r
    s = ex.force(s)
    if not isinstance(s, Opaque):
        raise Unsupported("draw of another strategy")
    if isinstance(ex.store[(ex.old_vars["self"].key, "enabled_rules_strategy")], Opaque) and s.t.eq(ex.store[(ex.old_vars["self"].key, "enabled_rules_strategy")].t):
        return Obj(ex.alloc("flags"), "Flags")
    if ex.branch(ex.mk(Bool, ex.fresh("draw_fails"))):
        ex.raise_("DrawFailed")
    v = ex.mk(A, ex.fresh("argument"))
    ex.assume(drawn_by(v.t, s.t))
    return v


D.cls("Sampled", methods=dict(filter=Prim(filt)))
D.cls("Flags", methods=dict(is_enabled=Prim(lambda ex, a, k: enabled(ex.force(a[1]).t))))
D.cls("RData2", methods=dict(draw=Prim(r_draw)))
D.cls("Chooser", real=stateful.RuleStrategy, fields=dict(machine=TObj("VMachine"), rules=TList(TRef("Rule")), enabled_rules_strategy=A), methods=dict(is_valid=Prim(lambda ex, a, k: valid(zint(a[1].id)))))
for nm_ in ("sampled_from",):
    D.override("hypothesis.strategies", nm_, Prim(mk_sampled, nm_))
D.override(SM, "add_note", Prim(lambda ex, a, k: None))
D.fn("RuleStrategy.do_draw", dict(self=TObj("Chooser"), data=TObj("RData2")), no_call=True,
     raises={"InvalidDefinition": "not exists(0, len(self.rules), lambda i: valid(self.rules[i]))", "StopTest": None, "DrawFailed": None},
     loops=[Loop(types={"$map": TMap(A, A)}, inv=["forall_t(AnyT, lambda k: implies(k in arguments, k in rule.arguments_strategies and drawn_by(arguments[k], rule.arguments_strategies[k])))", "forall(0, _i, lambda j: _seq[j][0] in arguments)"])],
     ensures=[("legal", "exists(0, len(self.rules), lambda i: result[0] is self.rules[i]) and valid(result[0])"), ("enabled", "enabled(result[0].function.__name__)"),
              ("arguments", "forall_t(AnyT, lambda k: (k in result[1]) == (k in result[0].arguments_strategies) and implies(k in result[1], drawn_by(result[1][k], result[0].arguments_strategies[k])))")], **NN)

# --- invariants
I = Group(SM)
broken = z3.Function("invariant_broken", z3.IntSort(), z3.BoolSort())


def call_invariant(ex, a, k):
    if not (isinstance(a[1], Obj) and a[1].cls == "Checked"):
        raise Unsupported("invariant of something else")
    if ex.branch(broken(zint(a[0].id))):
        ex.raise_("InvariantBroken")
    return None if ex.branch(ex.mk(Bool, ex.fresh("returns_none"))) else ex.mk(A, ex.fresh("returned"))


NUM = Prim(lambda ex, a, k: ex.mk(Real, ex.fresh("time")))
NOOP = Prim(lambda ex, a, k: None)
I.ns["holds"] = V.ns["holds"]
I.ns["broken"] = Prim(lambda ex, a, k: broken(zint(a[0].id)))
I.cls("InvFunction", heap=True, fields=dict(__name__=A, __qualname__=A), methods=dict(__call__=Prim(call_invariant)))
I.cls("Invariant", heap=True, fields=dict(function=TRef("InvFunction"), preconditions=TSeq(TRef("IPre"), "tuple"), check_during_init=Bool))
I.cls("IPre", heap=True, fields=dict(idx=Int), methods=dict(__call__=Prim(lambda ex, a, k: holds(zint(a[0].id)))))
I.cls("Times", methods=dict(__getitem__=NUM, __setitem__=NOOP))
I.cls("Checked", fields=dict(_initialize_rules_to_run=TList(A), all_invariants=TSeq(TRef("Invariant"), "list")), real=stateful.RuleBasedStateMachine, methods=dict(invariants=Prim(lambda ex, a, k: ex.store[(a[0].key, "all_invariants")])))
I.cls("BuildContext", fields=dict(is_final=Bool))
I.cls("SSettings", fields=dict(verbosity=Int, stateful_step_count=Int))
I.override(SM, "current_build_context", Prim(lambda ex, a, k: ex.mk(TObj("BuildContext"), ex.fresh("context"))))
I.override(SM, "perf_counter", NUM)
I.override(SM, "fail_health_check", Prim(lambda ex, a, k: ex.raise_("HealthCheckFailed")))
I.override(SM, "TESTCASE_CALLBACKS", ())
I.trusted.append("no observability callbacks are registered (they only receive strings)")
APPLIES = "((len(self._initialize_rules_to_run) == 0 or {v}.check_during_init) and forall(0, len({v}.preconditions), lambda j: holds({v}.preconditions[j])))"
ALLI = "self.all_invariants"
I.fn("RuleBasedStateMachine.check_invariants", dict(self=TObj("Checked"), settings=TObj("SSettings"), output=TConst(NOOP), runtimes=TObj("Times")), no_call=True,
     raises={"InvariantBroken": f"exists(0, len({ALLI}), lambda i: {APPLIES.format(v=ALLI + '[i]')} and broken({ALLI}[i].function))", "HealthCheckFailed": None},
     loops=[Loop(inv=[f"forall(0, _i, lambda i: implies({APPLIES.format(v=ALLI + '[i]')}, not broken({ALLI}[i].function)))"])],
     ensures=[("all-checked", f"forall(0, len({ALLI}), lambda i: implies({APPLIES.format(v=ALLI + '[i]')}, not broken({ALLI}[i].function)))")], **NN)

# --- results go into the target bundles under new names
N = Group(SM)
AS = sort_of("Any")
name_of, t_of, n_of = z3.Function("name_of", AS, z3.IntSort(), AS), z3.Function("target_of", AS, AS), z3.Function("number_of", AS, z3.IntSort())


def fstring(ex, parts):
    "the name f'{target}_{number}': the last underscore separates the two, so different pairs have different names"
    if len(parts) != 3 or parts[1] != "_":
        return None
    t, n = ex.force(parts[0]).t, zint(parts[2])
    v = name_of(t, n)
    ex.assume(z3.And(t_of(v) == t, n_of(v) == n))
    return Opaque(v, "Any")


def ctr_get(ex, a, k):
    m = ex.rd(ex.store[(a[0].key, "m")].key)
    if ex.pure:
        return z3.If(zbool(m.dom(a[1])), zint(m.get(a[1])), 0)
    return m.get(a[1]) if ex.branch(zbool(m.dom(a[1]))) else 0


N.cls("NameCounter", fields=dict(m=TMap(A, Int)), methods=dict(__getitem__=Prim(ctr_get), __setitem__=Prim(lambda ex, a, k: ex.map_set(ex.store[(a[0].key, "m")], a[1], a[2]))))
N.ns.update(target_of=Prim(lambda ex, a, k: Opaque(t_of(ex.force(a[0]).t), "Any")), number_of=Prim(lambda ex, a, k: n_of(ex.force(a[0]).t)), name_of=Prim(lambda ex, a, k: Opaque(name_of(ex.force(a[0]).t, zint(a[1])), "Any")))


def bundle_at(ex, a, k):
    o = Obj(ex.alloc("bundle"), "OneBundle")
    ex.store[(o.key, "target")], ex.store[(o.key, "bundles")] = a[1], a[0]
    return o


def b_append(ex, a, k):
    o, ref = a[0], a[1]
    if not (isinstance(ref, Obj) and ref.cls == "VarReference"):
        raise Unsupported("bundle entry of another kind")
    nm = ex.store[(ref.key, "name")]
    cell = ex.store[(ex.store[(o.key, "bundles")].key, "placed")]
    ex.oblige(f"{ex.contract.name}:one-entry-per-name", NOT(ex.rd(cell.key).dom(nm)), kind="post")
    ex.map_set(cell, nm, ex.store[(o.key, "target")])


N.cls("VarReference", real=stateful.VarReference, fields=dict(name=A))
N.cls("OneBundle", methods=dict(append=Prim(b_append)))
N.cls("Bundles", fields=dict(placed=TMap(A, A)), methods=dict(setdefault=Prim(bundle_at)))
N.cls("Printers", methods=dict(setdefault=NOOP))
N.opaque_attrs[("Printer", "singleton_pprinters")] = lambda ex, b: Obj(("printers",), "Printers")
N.override(SM, "_is_singleton", Prim(lambda ex, a, k: ex.mk(Bool, ex.fresh("singleton"))))
N.override(SM, "id", NUM)
N.cls("Named", real=stateful.RuleBasedStateMachine, fields=dict(names_counters=TObj("NameCounter"), names_list=TList(A), names_to_values=TMap(A, A), bundles=TObj("Bundles"), _RuleBasedStateMachine__printer=TOpaque("Printer")))
C_ = "self.names_counters"
N.fn("RuleBasedStateMachine._new_name", dict(self=TObj("Named"), target=A), returns=A, modifies=["self.names_counters.m", "self.names_list"],
     ensures=[("named", f"result == name_of(target, old({C_}[target])) and target_of(result) == target and number_of(result) == old({C_}[target])"), ("counted", f"forall_t(AnyT, lambda t: {C_}[t] == old({C_}[t]) + (1 if t == target else 0))"),
              ("listed", "len(self.names_list) == old(len(self.names_list)) + 1 and self.names_list[len(self.names_list) - 1] == result and forall(0, old(len(self.names_list)), lambda i: self.names_list[i] == old(self.names_list[i]))")],
     opts=dict(no_native=True, fstring=fstring))
PL_, NV_ = "self.bundles.placed", "self.names_to_values"
KNOWN = f"forall_t(AnyT, lambda v: implies(v in {PL_}, number_of(v) < {C_}[target_of(v)] and v in {NV_}))"
KEPT = f"forall_t(AnyT, lambda v: implies(old(v in {PL_}), v in {PL_} and {PL_}[v] == old({PL_}[v]) and {NV_}[v] == old({NV_}[v])))"
NEW = f"forall_t(AnyT, lambda v: implies(v in {PL_} and not old(v in {PL_}), {NV_}[v] == result_))"
ADD = lambda i: f"forall(0, {i}, lambda j: exists_t(AnyT, lambda v: v in {PL_} and not old(v in {PL_}) and {PL_}[v] == targets[j] and number_of(v) >= 0 and {NV_}[v] == result_))"
DOWN = f"forall_t(AnyT, lambda t: {C_}[t] >= old({C_}[t]))"
N.fn("RuleBasedStateMachine._add_result_to_targets", dict(self=TObj("Named"), targets=TSeq(A, "tuple"), result=A), modifies=["self.names_counters.m", "self.names_list", "self.names_to_values", "self.bundles.placed"], ghost=dict(), no_call=True,
     requires=[KNOWN, f"forall_t(AnyT, lambda t: {C_}[t] >= 0)"],
     loops=[Loop(inv=[KNOWN, DOWN, KEPT, NEW.replace("result_", "result"), ADD("_i").replace("result_", "result"), f"forall_t(AnyT, lambda t: {C_}[t] >= 0)"])],
     ensures=[("known", KNOWN), ("kept", KEPT), ("new-are-the-result", NEW.replace("result_", "result")), ("every-target", ADD("len(targets)").replace("result_", "result"))], opts=dict(no_native=True, fstring=fstring))

# --- a value drawn from a bundle is the one its reference names
G.cls("Bundle", real=stateful.Bundle, fields=dict(name=A, _Bundle__reference_strategy=A))
G.opaque_attrs[("Ref", "name")] = lambda ex, b: Opaque(z3.Function("ref_name", b.t.sort(), AS)(b.t), "Any")
G.fn("Bundle.do_draw", dict(self=TObj("Bundle"), data=TObj("SData")), no_call=True, requires=["data.ref.name in data.machine.names_to_values"], ensures=[("the-named-value", "result == data.machine.names_to_values[data.ref.name]")], **NN)

# --- the run of a machine: set up, then steps with the invariants after each, then torn down whatever happened
X = Group(SM)
ARG = sort_of("Arg")
isref, named, anamed = z3.Function("is_reference", ARG, z3.BoolSort()), z3.Function("reference_name", ARG, AS), z3.Function("value_named", AS, ARG)
X.opaque_attrs[("Arg", "isinstance:VarReference")] = lambda ex, b: isref(b.t)
X.opaque_attrs[("Arg", "isinstance:list")] = lambda ex, b: False        # lists of references are left to the bounded check
X.opaque_attrs[("Arg", "name")] = lambda ex, b: Opaque(named(b.t), "Any")
X.opaque_attrs[("Result", "isinstance:MultipleResults")] = lambda ex, b: False
X.cls("NamesToValues", methods=dict(__getitem__=Prim(lambda ex, a, k: Opaque(anamed(ex.force(a[1]).t), "Arg"))))
X.cls("ManyResults", real=stateful.MultipleResults, fields=dict(values=TSeq(TOpaque("Result"), "tuple")))
M_ = lambda ex, f: ex.store[(ex.top_frame.vars["m"].key, f)]


def setm(ex, f, v):
    ex.wr((ex.top_frame.vars["m"].key, f), v)


def ob(ex, what, f):
    ex.oblige(f"{ex.contract.name}:{what}", f, kind="post")


def steps(ex):
    return zint(ex.store[(ex.top_frame.vars["settings"].key, "stateful_step_count")])


def same_machine(ex, o):
    if not (isinstance(o, Obj) and o.key == ex.top_frame.vars["m"].key):
        raise Unsupported("another machine")


def x_check(ex, a, k):
    same_machine(ex, a[0])
    ob(ex, "invariants-once-per-step", zint(M_(ex, "checks")) == zint(M_(ex, "ran")))
    ob(ex, "results-recorded-first", zint(M_(ex, "adds")) == zint(M_(ex, "expected")))
    if ex.branch(ex.mk(Bool, ex.fresh("invariant_fails"))):
        ex.raise_("InvariantBroken")
    setm(ex, "checks", zint(M_(ex, "checks")) + 1)


def x_rule(ex, a, k):
    same_machine(ex, a[1])
    ob(ex, "invariants-before-rule", zint(M_(ex, "checks")) == zint(M_(ex, "ran")) + 1)
    ob(ex, "within-step-count", zint(M_(ex, "ran")) < steps(ex))
    f = M_(ex, "picked")
    ob(ex, "the-drawn-rule", f.id == a[0].id)
    inits = ex.rd(M_(ex, "_initialize_rules_to_run").key)
    ob(ex, "initialize-rules-once", z3.And(zint(inits.n) == zint(M_(ex, "left")), z3.Implies(zbool(M_(ex, "initial")), NOT(zbool(ex.contains(M_(ex, "rule"), inits))))))
    was = ex.rd(M_(ex, "drawn").key)
    got = ex.rd(k["**"].key)
    q = z3.Const("q_arg", AS)
    v = was.get(Opaque(q, "Any")).t
    ob(ex, "arguments", z3.ForAll([q], z3.And(zbool(got.dom(Opaque(q, "Any"))) == zbool(was.dom(Opaque(q, "Any"))),
       z3.Implies(zbool(was.dom(Opaque(q, "Any"))), got.get(Opaque(q, "Any")).t == z3.If(isref(v), anamed(named(v)), v)))))
    setm(ex, "ran", zint(M_(ex, "ran")) + 1)
    setm(ex, "adds", 0)
    setm(ex, "expected", 0)
    if ex.branch(ex.mk(Bool, ex.fresh("rule_fails"))):
        ex.raise_("RuleFailed")
    targets = ex.hget(M_(ex, "rule"), "targets")
    many = ex.branch(ex.mk(Bool, ex.fresh("many_results")))
    r = ex.mk(TObj("ManyResults") if many else TOpt(TOpaque("Result")), ex.fresh("result"))
    if ex.branch(zint(ex.as_seq(targets).n) > 0):
        setm(ex, "expected", ex.store[(r.key, "values")].n if many else 1)
    ex.last = r
    return r


def x_add(ex, a, k):
    same_machine(ex, a[0])
    r, n = ex.last, zint(M_(ex, "adds"))
    many = isinstance(r, Obj) and r.cls == "ManyResults"
    want = ex.store[(r.key, "values")].get(n) if many else r
    ob(ex, "records-results-in-order", z3.And(n < zint(M_(ex, "expected")), zbool(ex.eq(a[2], want))))
    ob(ex, "records-into-targets", zbool(ex.eq(a[1], ex.hget(M_(ex, "rule"), "targets"))))
    setm(ex, "adds", n + 1)


def x_down(ex, a, k):
    same_machine(ex, a[0])
    setm(ex, "torn", zint(M_(ex, "torn")) + 1)


X.cls("RunMachine", fields=dict(_initialize_rules_to_run=TList(TRef("SRule")), _rules_strategy=A, names_to_values=TObj("NamesToValues"), ran=Int, checks=Int, torn=Int, adds=Int, expected=Int, left=Int, initial=Bool, picked=TRef("SFunction"), rule=TRef("SRule"), drawn=TMap(A, TOpaque("Arg"))),
      methods=dict(check_invariants=Prim(x_check), _add_result_to_targets=Prim(x_add), teardown=Prim(x_down), _repr_step=Prim(lambda ex, a, k: ""), _pretty_print=Prim(lambda ex, a, k: "")))
X.cls("SFunction", heap=True, fields=dict(__name__=A, __qualname__=A), methods=dict(__call__=Prim(x_rule)))
X.cls("SRule", heap=True, fields=dict(function=TRef("SFunction"), targets=TSeq(A, "tuple"), arguments=A))


def chosen(ex, rule):
    d = ex.mk(TMap(A, TOpaque("Arg")), ex.fresh("arguments"))
    setm(ex, "rule", rule)
    setm(ex, "picked", ex.hget(rule, "function"))
    ex.wr(M_(ex, "drawn").key, ex.rd(d.key))
    return (rule, d)


def x_draw(ex, a, k):
    if ex.branch(ex.mk(Bool, ex.fresh("draw_stops"))):
        ex.raise_(StopTest)
    inits = ex.rd(M_(ex, "_initialize_rules_to_run").key)
    if isinstance(a[1], Obj) and a[1].cls == "OneOf":
        s = ex.as_seq(ex.store[(a[1].key, "of")])
        models.pre(ex, "one_of:nonempty", zint(s.n) > 0)
        j = z3.Int(ex.fresh("picked"))
        ex.assume(z3.And(0 <= j, j < zint(s.n)))
        (tag, rule), (ftag, args) = s.get(j)
        ob(ex, "an-initialize-rule-still-to-run", zbool(ex.contains(rule, inits)))
        ob(ex, "its-own-arguments", zbool(ex.eq(args, ex.hget(rule, "arguments"))))
        setm(ex, "left", zint(inits.n) - 1)
        setm(ex, "initial", True)
        return chosen(ex, rule)
    ob(ex, "initialize-rules-first", zint(inits.n) == 0)
    ob(ex, "from-the-rules", zbool(ex.eq(a[1], M_(ex, "_rules_strategy"))))
    setm(ex, "left", 0)
    setm(ex, "initial", False)
    return chosen(ex, ex.mk(TRef("SRule"), ex.fresh("rule")))


def one_of_(ex, a, k):
    o = Obj(ex.alloc("one_of"), "OneOf")
    ex.store[(o.key, "of")] = a[0]
    return o


X.cls("OneOf")
X.override("hypothesis.strategies", "just", Prim(lambda ex, a, k: ("just", a[0])))
X.override("hypothesis.strategies", "fixed_dictionaries", Prim(lambda ex, a, k: ("fixed", a[0])))
X.override("hypothesis.strategies", "tuples", Prim(lambda ex, a, k: tuple(a)))
X.override("hypothesis.strategies", "one_of", Prim(one_of_))
X.cls("RunTimes", methods=dict(__getitem__=NUM, __setitem__=NOOP, setdefault=NOOP))
X.cls("RunCD", fields=dict(length=Int, draw_times=TObj("RunTimes"), _stateful_run_times=TObj("RunTimes"), _observability_predicates=A, hypothesis_runner=A, _stateful_repr_parts=TList(A)),
      methods=dict(start_span=NOOP, stop_span=NOOP, draw=Prim(x_draw), draw_boolean=models.DATA["draw_boolean"]))
X.cls("RunData", fields=dict(conjecture_data=TObj("RunCD")))
for nm_, v_ in (("check_type", NOOP), ("report", NOOP), ("gc_cumulative_time", NUM), ("current_verbosity", Prim(lambda ex, a, k: 1))):
    X.override(SM, nm_, v_)
X.ns["resolved"] = Prim(lambda ex, a, k: Opaque(z3.If(isref(a[0].t), anamed(named(a[0].t)), a[0].t), "Arg"))
X.override(SM, "current_build_context", Prim(lambda ex, a, k: ex.mk(TObj("BuildContext"), ex.fresh("context"))))
DISTINCT = "forall(0, len(m._initialize_rules_to_run), lambda j: forall(0, j, lambda i: m._initialize_rules_to_run[i] is not m._initialize_rules_to_run[j]))"
DONE = [("torn-down-once", "m.torn == 1")]
X.fn("get_state_machine_test.<locals>.run_state_machine", dict(factory=TConst(Prim(lambda ex, a, k: ex.top_frame.vars["m"])), data=TObj("RunData")), ghost=dict(m=TObj("RunMachine"), settings=TObj("SSettings"), _min_steps=Int), name="run_state_machine", no_call=True, modifies=["*"],
     requires=[DISTINCT, "m.ran == 0 and m.checks == 0 and m.torn == 0 and m.adds == 0 and m.expected == 0", "_min_steps >= 0", "settings.stateful_step_count >= 1"],
     raises={"StopTest": None, "RuleFailed": None, "InvariantBroken": None, "HealthCheckFailed": None},
     loops=[Loop(types={"data": A, "$list": TList(A)}, inv=["m.ran == steps_run", "m.checks == steps_run + 1", "0 <= steps_run and steps_run <= settings.stateful_step_count", "m.torn == 0", "m.adds == m.expected", DISTINCT], decreases="settings.stateful_step_count - steps_run"),
            Loop(inv=["forall_t(AnyT, lambda k: (k in data) == (k in m.drawn))", "forall(0, _i, lambda j: data[_seq[j][0]] == resolved(_seq[j][1]))", "forall(_i, len(_seq), lambda j: data[_seq[j][0]] == _seq[j][1])"]), Loop(inv=["m.adds == _i"])],
     ensures=DONE + [("invariants-after-every-step", "m.checks == m.ran + 1"), ("within-step-count", "m.ran <= settings.stateful_step_count"), ("enough-steps", "m.ran == settings.stateful_step_count or m.ran > _min_steps")], exc_ensures=DONE, opts=dict(no_native=True))
GROUPS = [G, V, D, I, N, X]
