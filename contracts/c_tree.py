"""Contracts for hypothesis.internal.conjecture.datatree (C13): how many values a choice can take, and when part of the tree is done."""
import z3
from pyvc.values import *
from pyvc.ctx import Group
from pyvc.engine import Loop, Obj, zint, zbool, lift_float, bits_nan
from contracts import c_floats, models

DM = "hypothesis.internal.conjecture.datatree"
G = Group(DM)
for k_, v_ in c_floats.F.ns.items():
    G.ns.setdefault(k_, v_)
for k_, v_ in c_floats.F.native_ns.items():
    G.native_ns.setdefault(k_, v_)
# here floats stand at unbounded integer positions in their order (exactly the rank of c_floats), and the helpers act on those
G.ns["rank"] = Prim(lambda ex, a, k: ex.frank(lift_float(ex.force(a[0]))))
del G.ns["sle"]
G.spec("""
def sle(x, y):
    return rank(x) <= rank(y)
""")


def p_count(ex, a, k):
    models.pre(ex, "count_between_floats:order", z3.And(*[z3.Not(bits_nan(lift_float(x).bv, True)) for x in a], ex.frank(lift_float(a[0])) <= ex.frank(lift_float(a[1]))))
    return ex.frank(lift_float(a[1])) - ex.frank(lift_float(a[0])) + 1


def p_next_down(ex, a, k):
    v = lift_float(a[0])
    models.pre(ex, "next_down:number", z3.And(z3.Not(bits_nan(v.bv, True)), ex.frank(v) > -9218868437227405313))
    r = ex.mk(Float, ex.fresh("down"))
    ex.pc.append(z3.And(ex.frank(r) == ex.frank(v) - 1, z3.Not(bits_nan(r.bv, True))))
    return r


G.override(DM, "count_between_floats", Prim(p_count))
G.override(DM, "sign_aware_lte", Prim(lambda ex, a, k: ex.frank(lift_float(a[0])) <= ex.frank(lift_float(a[1]))))
G.override("hypothesis.internal.floats", "is_negative", Prim(lambda ex, a, k: ex.frank(lift_float(a[0])) < 0))
G.override("hypothesis.internal.floats", "next_down", Prim(p_next_down))
G.trusted.append("count_between_floats, next_down, is_negative and sign_aware_lte (proved in c_floats, C16)")
OI = TOpt(Int)
CM = lambda t, name, **kw: dict(choice_type=TConst(t), constraints=TDict(**kw))
G.fn("compute_max_children", CM("integer", "", min_value=OI, max_value=OI, weights=NoneT, shrink_towards=Int), name="compute_max_children[integer]", select=lambda ex, a, k: False, returns=Int,
     requires=["constraints['min_value'] is None or constraints['max_value'] is None or constraints['min_value'] <= constraints['max_value']"],
     ensures=[("count", "implies(constraints['min_value'] is not None and constraints['max_value'] is not None, result == constraints['max_value'] - constraints['min_value'] + 1)"),
              ("unbounded-many", "implies(constraints['min_value'] is None or constraints['max_value'] is None, result >= 2 ** 64)")])
G.fn("compute_max_children", CM("boolean", "", p=Float), name="compute_max_children[boolean]", select=lambda ex, a, k: False, returns=Int,
     requires=["0.0 <= constraints['p'] and constraints['p'] <= 1.0"],
     ensures=[("certain", "implies(constraints['p'] == 0.0 or constraints['p'] == 1.0, result == 1)"), ("two", "implies(constraints['p'] > 2.0 ** -64 and constraints['p'] < 1.0, result == 2)"), ("range", "result == 1 or result == 2")])
FC = dict(min_value=Float, max_value=Float, allow_nan=Bool, smallest_nonzero_magnitude=Float)
FREQ = ["not isnan(constraints['min_value']) and not isnan(constraints['max_value']) and sle(constraints['min_value'], constraints['max_value'])",
        "constraints['smallest_nonzero_magnitude'] > 0.0 and not isinf(constraints['smallest_nonzero_magnitude'])"]
ARGS = "constraints['min_value'], constraints['max_value']"
LO, HI, SM = "rank(constraints['min_value'])", "rank(constraints['max_value'])", "rank(constraints['smallest_nonzero_magnitude'])"
# how many permitted values, by where the bounds lie (-0.0 has rank -1, 0.0 has rank 0)
BELOW, ABOVE, WHOLE = f"(-{SM} - {LO})", f"({HI} - {SM} + 1)", f"{HI} - {LO} + 1"        # from min_value to -smallest, from smallest to max_value
SPLIT = [("none", f"{BELOW} <= 0 and {ABOVE} <= 0", "{z}"), ("below", f"{BELOW} > 0 and {ABOVE} <= 0", BELOW + " + {z}"), ("above", f"{BELOW} <= 0 and {ABOVE} > 0", ABOVE + " + {z}"), ("both", f"{BELOW} > 0 and {ABOVE} > 0", f"{BELOW} + {ABOVE} + {{z}}")]
CASES = [(f"{nm}:{sn}", f"{c} and {sc}", sr.format(z=z)) for nm, c, z in [("across", f"{LO} <= -1 and {HI} >= 0", 2), ("to-minus-zero", f"{HI} == -1", 1), ("from-zero", f"{LO} == 0", 1)] for sn, sc, sr in SPLIT]
CASES += [("negative:whole", f"{HI} < -1 and {HI} <= -1 - {SM}", WHOLE), ("negative:cut", f"{HI} < -1 and {HI} > -1 - {SM} and {BELOW} > 0", BELOW), ("negative:none", f"{HI} < -1 and {BELOW} <= 0", "0"),
          ("positive:whole", f"{LO} > 0 and {LO} >= {SM}", WHOLE), ("positive:cut", f"{LO} > 0 and {LO} < {SM} and {ABOVE} > 0", ABOVE), ("positive:none", f"{LO} > 0 and {ABOVE} <= 0", "0")]
G.fn("compute_max_children", CM("float", "", **FC), name="compute_max_children[float]", select=lambda ex, a, k: False, returns=Int, requires=FREQ,
     ensures=[(nm, f"implies({c}, result == {n})") for nm, c, n in CASES], opts=dict(rank_cmp=True))


def fti(f):
    return z3.If(f >= 0, f, 2**63 - 1 - f)


def p_itf(ex, a, k):
    n = zint(a[0])
    models.pre(ex, "int_to_float:range", z3.And(0 <= n, n < 2**64))
    r = ex.mk(Float, ex.fresh("float"))
    ex.pc.append(ex.frank(r) == z3.If(n < 2**63, n, 2**63 - 1 - n))
    ex.pc.append(bits_nan(r.bv, True) == z3.Or(ex.frank(r) > 9218868437227405312, ex.frank(r) < -9218868437227405313))
    return r


G.override(DM, "float_to_int", Prim(lambda ex, a, k: fti(ex.frank(lift_float(a[0])))))
G.override(DM, "int_to_float", Prim(p_itf))
SIDE = "(rank(a) >= 0) == (rank(b) >= 0)"
RK = dict(rank_cmp=True, no_native=True)
OUT = "rank(a) + {k} if rank(a) >= 0 else rank(a) - {k}"
G.fn("_floats_between", dict(a=Float, b=Float), returns=TSeq(Float, "list"), yields=Float, requires=["not isnan(a) and not isnan(b)", SIDE, "-9218868437227405313 <= rank(a) and rank(a) <= 9218868437227405312 and -9218868437227405313 <= rank(b) and rank(b) <= 9218868437227405312"],
     ensures=[("all", f"len(result) == max(0, (rank(b) - rank(a) + 1) if rank(a) >= 0 else (rank(a) - rank(b) + 1))"),
              ("in-order", f"forall(0, len(result), lambda k: not isnan(result[k]) and rank(result[k]) == ({OUT.format(k='k')}))")],
     loops=[Loop(inv=["len(_yielded) == _i", f"forall(0, _i, lambda k: not isnan(_yielded[k]) and rank(_yielded[k]) == ({OUT.format(k='k')}))"])], opts=RK)
RNG = lambda e: f"-9218868437227405313 <= {e} and {e} <= 9218868437227405312"
G.fn("all_children", CM("float", "", **FC), name="all_children[float]", returns=TSeq(Float, "list"), yields=Float, requires=FREQ + [RNG(LO), RNG(HI), RNG(SM)],
     ensures=[("permitted", f"forall(0, len(result), lambda k: not isnan(result[k]) and {LO} <= rank(result[k]) and rank(result[k]) <= {HI} and (rank(result[k]) == -1 or rank(result[k]) == 0 or rank(result[k]) >= {SM} or rank(result[k]) <= -1 - {SM}))"),
              ("distinct", "forall(0, len(result), lambda j: forall(0, j, lambda i: rank(result[i]) != rank(result[j])))")] + [("complete-" + nm, f"implies({c}, len(result) == {n})") for nm, c, n in CASES], opts=RK)

# --- one node of the tree: when it counts as explored, and splitting it where runs part
A = AnyT
T = Group(DM)
from hypothesis.internal.conjecture.datatree import Branch, Conclusion, Killed, TreeNode
T.cls("Conclusion", real=Conclusion, fields=dict(status=Int, interesting_origin=A), methods=dict(__eq__=Prim(lambda ex, a, k: ex.truth_pure(ex.eval_spec("x.status == y.status and x.interesting_origin == y.interesting_origin", ex.top_frame, dict(x=a[0], y=a[1]))))))
T.cls("Killed", real=Killed, fields=dict(next_node=TRef("Child")))
T.cls("Child", heap=True, fields=dict(is_exhausted=Bool))
T.cls("Branch", real=Branch, fields=dict(constraints=A, choice_type=A, children=TMap(A, TRef("Child"))))
most = z3.Function("most_children", sort_of("Any"), sort_of("Any"), z3.IntSort())


def p_most(ex, a, k):
    n = most(a[0].t, a[1].t)
    ex.assume(n > 0)
    return n


T.override(DM, "compute_max_children", Prim(p_most))
T.ns["most"] = Prim(lambda ex, a, k: most(a[0].t, a[1].t))
FORCED = "(0 if self._TreeNode__forced is None else len(self._TreeNode__forced))"
NODE = dict(constraints=TList(A), values=TList(A), choice_types=TList(A), is_exhausted=Bool)
for fn_, ft in (("free", NoneT), ("forced", TMap(Int, NoneT))):
    for tn, tt in (("unknown", NoneT), ("concluded", TObj("Conclusion")), ("killed", TObj("Killed")), ("branch", TObj("Branch"))):
        cn = f"TreeNode[{fn_},{tn}]"
        T.cls(cn, real=TreeNode, fields=dict(NODE, _TreeNode__forced=ft, transition=tt))
        DONE = dict(unknown="False", concluded="True", killed="True", branch="len(self.transition.children) == most(self.transition.choice_type, self.transition.constraints) and forall_t(AnyT, lambda k: implies(k in self.transition.children, self.transition.children[k].is_exhausted))")[tn]
        T.fn("TreeNode.check_exhausted", dict(self=TObj(cn)), name=f"TreeNode.check_exhausted[{fn_},{tn}]", returns=Bool, modifies=["self.is_exhausted"], no_call=True,
             ensures=[("answer", "result == self.is_exhausted"), ("exactly", f"self.is_exhausted == (old(self.is_exhausted) or ({FORCED} == len(self.values) and ({DONE})))")], opts=dict(no_native=True))

U = Group(DM)
U.cls("TreeNode", real=TreeNode, fields=dict(NODE, _TreeNode__forced=TOpt(TMap(Int, NoneT)), transition=A),
      methods=dict(check_exhausted=Prim(lambda ex, a, k: ex.mk(Bool, ex.fresh("done")))))


U.fn("TreeNode.split_at", dict(self=TObj("TreeNode"), i=Int), requires=["0 <= i and i < len(self.values)", "len(self.values) == len(self.constraints) and len(self.values) == len(self.choice_types)", "not self.is_exhausted",
     "self._TreeNode__forced is None or forall_t(Int, lambda j: implies(j in self._TreeNode__forced, 0 <= j and j < len(self.values)))"], no_call=True,
     raises={"FlakyStrategyDefinition": "self._TreeNode__forced is not None and i in self._TreeNode__forced"}, modifies=["self.constraints", "self.values", "self.choice_types", "self._TreeNode__forced", "self.transition"],
     ensures=[("head-" + f, f"len(self.{f}) == i and forall(0, i, lambda k: self.{f}[k] == old(self.{f}[k]))") for f in ("values", "constraints", "choice_types")] +
             [("tail-" + f, f"len(child.{f}) == old(len(self.{f})) - i - 1 and forall(0, len(child.{f}), lambda k: child.{f}[k] == old(self.{f}[k + i + 1]))") for f in ("values", "constraints", "choice_types")] +
             [("tail-transition", "child.transition == old(self.transition)"), ("branch", "self.transition.constraints == old(self.constraints[i]) and self.transition.choice_type == old(self.choice_types[i])"),
              ("child", "only_child(self.transition, old(self.values[i]), child)"),
              ("forced-head", "forall(0, i, lambda j: (self._TreeNode__forced is not None and j in self._TreeNode__forced) == old(self._TreeNode__forced is not None and j in self._TreeNode__forced))"),
              ("forced-tail", "forall(0, len(child.values), lambda j: (child._TreeNode__forced is not None and j in child._TreeNode__forced) == old(self._TreeNode__forced is not None and j + i + 1 in self._TreeNode__forced))"),
              ("forced-only", "self._TreeNode__forced is None or forall_t(Int, lambda j: implies(j in self._TreeNode__forced, 0 <= j and j < i))")], opts=dict(no_native=True))


def only_child(ex, a, k):
    "the branch leads to that node for that value, and nowhere else"
    c = ex.store[(a[0].key, "children")]
    if not isinstance(c, MapCell):
        return False
    v = ex.rd(c.key)
    got = v.get(a[1])
    if not (isinstance(got, Obj) and got.key == a[2].key):
        return False
    return z3.And(zbool(v.dom(a[1])), zint(v.size) == 1)


U.ns["only_child"] = Prim(only_child)

# --- what one draw does to the tree: new behaviour is recorded, known behaviour followed, anything else reported as flaky
from hypothesis.internal.conjecture.datatree import TreeRecordingObserver
O = Group(DM)
O.ns.update(U.ns, most=T.ns["most"])
# the trail ends in the node the observer stood at; what is appended is remembered
O.cls("Trail", methods=dict(__getitem__=Prim(lambda ex, a, k: ex.old_store[(ex.top_frame.vars["self"].key, CUR)]), append=Prim(lambda ex, a, k: ex.store.__setitem__((a[0].key, "added"), a[1]))))


def same_node(x, y):
    if isinstance(x, SymRef) and isinstance(y, SymRef):
        return x.id == y.id
    return isinstance(x, Obj) and isinstance(y, Obj) and x.key == y.key


def trail_ok(ex, a, k):
    me = a[0]
    cur, was = ex.store[(me.key, CUR)], ex.old_store[(me.key, CUR)]
    added = ex.store.get((ex.store[(me.key, TRAIL)].key, "added"))
    return added is None if same_node(cur, was) is True else added is not None and same_node(added, cur)


def kids(ex, node):
    t = ex.store[(node.key, "transition")]
    return ex.rd(ex.store[(t.key, "children")].key)


def child_is(ex, a, k):
    "the branch at that node leads to this node for that value"
    m = kids(ex, a[0])
    got = m.get(a[1])
    return z3.And(zbool(m.dom(a[1])), zbool(same_node(got, a[2])))


def child_has(ex, a, k):
    "the branch at that node has a child for that value (the second argument limits how many there are)"
    m = kids(ex, a[0])
    return z3.And(zbool(m.dom(a[1])), zint(m.size) == a[2]) if len(a) > 2 else zbool(m.dom(a[1]))


def was_told(ex, a, k):
    "whether the rest of the trail was asked if it is done now"
    return ex.store.get((a[0].key, "told")) is True


def kills(ex, a, k):
    t = ex.store[(a[0].key, "transition")]
    return isinstance(t, Obj) and t.cls == "Killed" and same_node(ex.store[(t.key, "next_node")], a[1])


def concluded(ex, a, k):
    t = ex.store[(a[0].key, "transition")]
    if not (isinstance(t, Obj) and t.cls == "Conclusion"):
        return False
    return ex.truth_pure(ex.eval_spec("t.status == status and t.interesting_origin == origin", ex.top_frame, dict(t=t, status=a[1], origin=a[2])))


def fresh_node(ex, a, k):
    n = a[0]
    if isinstance(n, SymRef):
        return False
    emp = [ex.store[(n.key, f)] for f in ("values", "constraints", "choice_types")]
    return z3.And(*[zint(ex.rd(c.key).n) == 0 for c in emp]) if ex.store[(n.key, "transition")] is None and (n.key, "values") not in ex.old_store else False


O.ns.update(concluded=Prim(concluded), was_told=Prim(was_told), kills=Prim(kills), trail_ok=Prim(trail_ok), child_is=Prim(child_is), child_has=Prim(child_has), fresh_node=Prim(fresh_node))
O.cls("KnownBranch", real=Branch, fields=dict(constraints=A, choice_type=A, children=TMap(Int, TRef("Child"))))
CUR, IDX, TRAIL = ("_TreeRecordingObserver__" + x for x in ("current_node", "index_in_current_node", "trail"))
n_, i_ = f"self.{CUR}", f"self.{IDX}"
WF = [f"len({n_}.values) == len({n_}.constraints) and len({n_}.values) == len({n_}.choice_types)", f"0 <= {i_} and {i_} <= len({n_}.values)", f"not {n_}.is_exhausted",
      f"{n_}._TreeNode__forced is None or forall_t(Int, lambda j: implies(j in {n_}._TreeNode__forced, 0 <= j and j < len({n_}.values)))"]
isf = lambda e: f"({n_}._TreeNode__forced is not None and {e} in {n_}._TreeNode__forced)"
SAMETYPE = f"choice_type == {n_}.choice_types[{i_}] and constraints == {n_}.constraints[{i_}]"
NV = dict(NODE, values=TList(Int), _TreeNode__forced=TOpt(TMap(Int, NoneT)))
for tn, tt in (("unknown", NoneT), ("concluded", TObj("Conclusion")), ("branch", TObj("KnownBranch")), ("killed", TObj("Killed"))):
    cn = f"ObsNode[{tn}]"
    O.cls(cn, real=TreeNode, fields=dict(NV, transition=tt))
    ob = f"Observer[{tn}]"
    O.cls(ob, real=TreeRecordingObserver, fields={CUR: TObj(cn), IDX: Int, TRAIL: TObj("Trail"), "killed": Bool})
    METH = {"_TreeRecordingObserver__update_exhausted": Prim(lambda ex, a, k: ex.store.__setitem__((a[0].key, "told"), True))}
    O.cls(ob + "~", real=TreeRecordingObserver, fields={CUR: TObj(cn), IDX: Int, TRAIL: TObj("Trail"), "killed": Bool}, methods=METH)
    O.fn("TreeRecordingObserver.kill_branch", dict(self=TObj(ob + "~")), name=f"kill_branch[{tn}]", requires=WF, no_call=True, modifies=["*"],
         raises={"FlakyStrategyDefinition": f"not self.killed and ({i_} < len({n_}.values)" + (")" if tn in ("unknown", "killed") else " or True)")},
         ensures=[("killed", "self.killed"), ("once", f"implies(old(self.killed), self.{CUR} is old(self.{CUR}) and {i_} == old({i_}))")] +
                 ([("follows", f"old(self.killed) or (self.{CUR} is old({n_}.transition.next_node) and {i_} == 0)")] if tn == "killed" else []) +
                 ([("marked", f"old(self.killed) or (fresh_node(self.{CUR}) and {i_} == 0 and was_told(self) and kills(old(self.{CUR}), self.{CUR}))")] if tn == "unknown" else []) + [("trail", "trail_ok(self)")], opts=dict(no_native=True))
    CN = f"old(self.{CUR})"
    O.fn("TreeRecordingObserver.conclude_test", dict(self=TObj(ob + "~"), status=Int, interesting_origin=A), name=f"conclude_test[{tn}]", requires=WF + [f"{i_} == len({n_}.values) or {tn == 'branch'} or {i_} < len({n_}.values)", "0 <= status and status <= 3", f"{n_}._TreeNode__forced is None or len({n_}._TreeNode__forced) <= len({n_}.values)"], no_call=True, modifies=["*"],
         raises={"FlakyStrategyDefinition": f"status != 0 and ({i_} < len({n_}.values) or {tn == 'branch'})",
                 "FlakyReplay": "False" if tn != "concluded" else f"status != 0 and not (status == {n_}.transition.status and interesting_origin == {n_}.transition.interesting_origin) and not ({n_}.transition.status == 3 and status == 2)"},
         ensures=[("overrun", f"implies(status == 0, {n_}.transition is old({n_}.transition))")] +
                 ([("recorded", f"status == 0 or concluded({n_}, status, interesting_origin)")] if tn == "unknown" else []) +
                 [("told", "status == 0 or self.killed or was_told(self)")], opts=dict(no_native=True))
    ARGS_ = dict(self=TObj(ob), choice_type=A, value=Int, was_forced=Bool, constraints=A)
    old = lambda e: f"old({e})"
    O.fn("TreeRecordingObserver.draw_value", ARGS_, name=f"draw_value[inside,{tn}]", requires=WF + [f"{i_} < len({n_}.values)"], no_call=True,
         raises={"FlakyStrategyDefinition": f"not ({SAMETYPE}) or (was_forced and not {isf(i_)}) or (value != {n_}.values[{i_}] and {isf(i_)})"}, modifies=["*"],
         ensures=[("followed", f"implies(value == {old(f'{n_}.values[{i_}]')}, self.{CUR} is old(self.{CUR}) and {i_} == old({i_}) + 1 and len({n_}.values) == old(len({n_}.values)))"),
                  ("split", f"self.{CUR} is old(self.{CUR}) or ({i_} == 0 and fresh_node(self.{CUR}) and child_is(old(self.{CUR}), value, self.{CUR}) and child_has(old(self.{CUR}), {old(f'{n_}.values[{i_}]')}, 2))"),
                  ("new-only-if-different", f"implies(value != {old(f'{n_}.values[{i_}]')}, self.{CUR} is not old(self.{CUR}))"), ("trail", "trail_ok(self)")], opts=dict(no_native=True))
    END = WF + [f"{i_} == len({n_}.values)"]
    if tn == "concluded":
        O.fn("TreeRecordingObserver.draw_value", ARGS_, name=f"draw_value[end,{tn}]", requires=END + [f"{n_}.transition.status != 0"], no_call=True, raises={"FlakyStrategyDefinition": None}, ensures=[("never", "False")], modifies=["*"], opts=dict(no_native=True))
    if tn == "branch":
        O.fn("TreeRecordingObserver.draw_value", ARGS_, name=f"draw_value[end,{tn}]", requires=END, no_call=True, modifies=["*"],
             raises={"FlakyStrategyDefinition": f"choice_type != {n_}.transition.choice_type or constraints != {n_}.transition.constraints"},
             ensures=[("moved", f"{i_} == 0 and child_is(old(self.{CUR}), value, self.{CUR})"), ("known-child", f"implies(old(value in {n_}.transition.children), self.{CUR} is old({n_}.transition.children[value]))"),
                      ("new-child", f"implies(not old(value in {n_}.transition.children), fresh_node(self.{CUR}))"), ("trail", "trail_ok(self)")], opts=dict(no_native=True))
    if tn == "unknown":
        O.fn("TreeRecordingObserver.draw_value", ARGS_, name=f"draw_value[end,{tn}]", requires=END, no_call=True, modifies=["*"],
             ensures=[("recorded", f"implies(self.{CUR} is old(self.{CUR}), {i_} == old({i_}) + 1 and len({n_}.values) == old(len({n_}.values)) + 1 and {n_}.values[old({i_})] == value and {n_}.constraints[old({i_})] == constraints and {n_}.choice_types[old({i_})] == choice_type and {isf(f'old({i_})')} == was_forced)"),
                      ("single", f"(self.{CUR} is not old(self.{CUR})) == (most(choice_type, constraints) == 1 and not was_forced)"),
                      ("single-child", f"self.{CUR} is old(self.{CUR}) or ({i_} == 0 and fresh_node(self.{CUR}) and child_is(old(self.{CUR}), value, self.{CUR}) and child_has(old(self.{CUR}), value, 1))"), ("trail", "trail_ok(self)")], opts=dict(no_native=True))
GROUPS = [G, U, T, O]
