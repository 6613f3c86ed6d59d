"""C18: state machines run only legal steps. Random machine definitions, run by the library; each run's log is replayed on a small model."""
from random import Random
from pyvc.runtime import RT
from hypothesis import HealthCheck, Phase, assume, seed as seed_, settings, strategies as st
from hypothesis.errors import InvalidDefinition, Unsatisfiable
from hypothesis.stateful import Bundle, RuleBasedStateMachine, consumes, initialize, invariant, multiple, precondition, rule, run_state_machine_as_test

BUNDLES = ["a", "b", "a_1", "c"]


class Boom(Exception):
    pass


class V:
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return f"V{self.n}"


def g(rng):
    nb = rng.randint(1, 3)
    bs = rng.sample(BUNDLES, nb)

    def args(init):
        out = []
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            out.append([rng.choice(["plain", "plain", "consume", "consume", "flag", "map", "flatmap", "lists", "clists", "int", "or"]), rng.choice(bs)])
        return out
    rules = []
    for i in range(rng.randint(1, 4)):
        rules.append({"name": f"r{i}", "args": args(False), "targets": rng.sample(bs, rng.choice([0, 0, 1, 1, min(2, nb)])), "ret": rng.choice(["one", "one", "multi0", "multi2", "multi1", "small", "same"]),
                      "pre": [[rng.choice([1, 2, 3]), rng.randint(0, 2)] for _ in range(rng.choice([0, 0, 0, 1, 2]))], "act": rng.choice(["ok", "ok", "ok", "ok", "assume", "boom"])})
    if not any(not any(a[0] != "int" for a in r["args"]) for r in rules):
        rules.append({"name": "r9", "args": [], "targets": [rng.choice(bs)], "ret": "one", "pre": [], "act": "ok"})
    inits = [{"name": f"i{i}", "args": args(True)[:1] if rng.random() < .3 else [], "targets": rng.sample(bs, rng.choice([0, 1])), "ret": rng.choice(["one", "multi2"]), "pre": [], "act": "ok"} for i in range(rng.choice([0, 0, 1, 2, 3]))]
    invs = [{"name": f"v{i}", "init": rng.random() < .5, "pre": [[rng.choice([1, 2, 3]), rng.randint(0, 2)] for _ in range(rng.choice([0, 0, 1, 2, 2]))], "act": rng.choice(["ok", "ok", "ok", "boom"])} for i in range(rng.choice([0, 1, 2]))]
    return {"bs": bs, "rules": rules, "inits": inits, "invs": invs, "steps": rng.choice([1, 2, 5, 10, 30]), "when": rng.randint(1, 8), "shrink": rng.random() < .3, "seed": rng.getrandbits(32), "low": rng.random() < .5,
            "sub": rng.random() < .2}


def make(d, logs):
    B = {b: Bundle(b) for b in d["bs"]}
    C = {b: Bundle(b, consume=True) for b in d["bs"]}

    def strat(a):
        k, b = a
        return {"plain": lambda: B[b], "consume": lambda: consumes(B[b]), "flag": lambda: C[b], "map": lambda: consumes(B[b]).map(lambda v: v), "flatmap": lambda: consumes(B[b]).flatmap(lambda v: st.just(v)),
                "lists": lambda: st.lists(B[b], max_size=3), "clists": lambda: st.lists(consumes(B[b]), max_size=3), "int": lambda: st.integers(0, 3), "or": lambda: B[b] | st.just(None)}[k]()

    def pre(m, r):
        def f(self):
            return (self.count + r) % m == 0 if m > 1 else True
        return f

    def act(self, kind):
        if kind == "boom" and self.count >= d["when"]:
            raise Boom
        if kind == "assume" and self.count % 5 == 4:
            assume(False)

    def body(r, isrule):
        def f(self, **kw):
            self.log.append(("rule" if isrule else "init", r["name"], dict(kw), self.count))
            self.count += 1
            act(self, r["act"])
            if not r["targets"]:
                self.log.append(("end", r["name"], []))
                return None
            vs = {"one": 1, "multi0": 0, "multi2": 2, "multi1": 1, "small": 1, "same": 1}[r["ret"]]
            out = []
            for _ in range(vs):
                self.n += 1
                out.append(self.n % 3 if r["ret"] == "small" else (self.same if r["ret"] == "same" else V(self.n)))
            self.log.append(("end", r["name"], out))
            return multiple(*out) if r["ret"].startswith("multi") else out[0]
        f.__name__ = r["name"]
        kw = {f"x{i}": strat(a) for i, a in enumerate(r["args"])}
        if r["targets"]:
            if len(r["targets"]) == 1 and d["low"]:
                kw["target"] = B[r["targets"][0]]
            else:
                kw["targets"] = tuple(B[t] for t in r["targets"])
        ps = [precondition(pre(*p)) for p in r["pre"]]
        for p in ps[:1] if d["low"] else ps:
            f = p(f)
        f = (rule if isrule else initialize)(**kw)(f)
        for p in ps[1:] if d["low"] else []:
            f = p(f)
        return f

    def inv(v):
        def f(self):
            self.log.append(("inv", v["name"], self.count))
            if v["act"] == "boom" and self.count >= d["when"] + 2:
                raise Boom
        f.__name__ = v["name"]
        if d["low"]:
            for p in v["pre"]:
                f = precondition(pre(*p))(f)
        f = invariant(check_during_init=v["init"])(f)
        if not d["low"]:
            for p in v["pre"]:
                f = precondition(pre(*p))(f)
        return f

    def __init__(self):
        super(base, self).__init__()
        self.count = self.n = 0
        self.same = V("same")
        self.log = []
        logs.append(self.log)

    def teardown(self):
        self.log.append(("teardown",))
    ns = {"__init__": __init__, "teardown": teardown}
    ns.update({r["name"]: body(r, True) for r in d["rules"]})
    ns.update({r["name"]: body(r, False) for r in d["inits"]})
    ns.update({v["name"]: inv(v) for v in d["invs"]})
    base = type("M", (RuleBasedStateMachine,), ns)
    if d["sub"]:
        return type("Sub", (base,), {})
    return base


def holds(pres, count):
    return all(m <= 1 or (count + r) % m == 0 for m, r in pres)


def check(d, log, final):
    rules, inits = {r["name"]: r for r in d["rules"]}, {r["name"]: r for r in d["inits"]}
    content = {b: [] for b in d["bs"]}
    todo = set(inits)
    steps = 0
    if not log or log[-1] != ("teardown",) or log.count(("teardown",)) != 1:
        return "teardown did not run once at the end of " + short(log)
    pos = 0

    def invariants(count, pos):
        want = sorted(v["name"] for v in d["invs"] if (v["init"] or not todo) and holds(v["pre"], count))
        got = []
        while pos < len(log) and log[pos][0] == "inv":
            got.append(log[pos][1])
            pos += 1
        last = log[pos][0] == "teardown"
        if sorted(got) != want and not (last and set(got) <= set(want) and len(set(got)) == len(got) and boomed(got)):
            return pos, f"invariants checked: {got}, should be {want}, at step {steps} of {short(log)}"
        return pos, None

    def boomed(got):
        return got and next(v for v in d["invs"] if v["name"] == got[-1])["act"] == "boom"
    pos, m = invariants(0, 0)
    if m:
        return m
    while log[pos][0] != "teardown":
        k, name, args, count = log[pos]
        pos += 1
        steps += 1
        if k == "init":
            if name not in todo:
                return f"initialize rule {name} ran twice: {short(log)}"
            todo.discard(name)
            r = inits[name]
        else:
            if todo:
                return f"rule {name} ran before initialize rules {sorted(todo)}: {short(log)}"
            r = rules[name]
            if not holds(r["pre"], count):
                return f"rule {name} ran though its precondition does not hold: {short(log)}"
        used = []
        if len(args) != len(r["args"]):
            return f"rule {name} was given {args}"
        for i, (how, b) in enumerate(r["args"]):
            v = args[f"x{i}"]
            if how == "int":
                if v not in (0, 1, 2, 3):
                    return f"argument {v!r} from integers(0, 3)"
                continue
            if how == "or" and v is None:
                continue
            for x in v if how in ("lists", "clists") else [v]:
                if not any(x is y for y in content[b]):
                    return f"rule {name} got {x!r} from bundle {b}, which holds {content[b]} (argument {i}: {how}): {short(log)}"
                if how in ("consume", "flag", "map", "flatmap", "clists"):
                    used.append((b, x))
        for b, x in used:
            for j, y in enumerate(content[b]):
                if x is y:
                    del content[b][j]
                    break
            else:
                return f"rule {name} consumed {x!r} more often than bundle {b} held it: {short(log)}"
        if log[pos][0] == "teardown":
            if r["act"] not in ("boom", "assume"):
                return f"rule {name} did not finish: {short(log)}"
            break
        if log[pos][0] != "end":
            return f"after an unfinished rule {name} came {log[pos]}: {short(log)}"
        for x in log[pos][2]:
            for t in r["targets"]:
                content[t].append(x)
        pos += 1
        pos, m = invariants(count + 1, pos)
        if m:
            return m
    if steps > d["steps"]:
        return f"{steps} steps, stateful_step_count={d['steps']}"
    if final is not None:
        cnt = steps
        can = [r["name"] for r in d["rules"] if holds(r["pre"], cnt) and all(how in ("int", "map", "flatmap", "lists", "clists", "or") or content[b] for how, b in r["args"])]
        if can or todo:
            return f"{final}, though rules {can or sorted(todo)} can run after {short(log)}"
    return None


def short(log):
    return str([(e[1], e[2]) if e[0] in ("rule", "init") else (e[0] + " " + str(e[1]) if e[0] == "inv" else (e[0],) + tuple(e[2:])) for e in log])[-700:]


def p(d):
    logs = []
    M = make(d, logs)
    s = settings(max_examples=12, stateful_step_count=d["steps"], database=None, deadline=None, suppress_health_check=list(HealthCheck), verbosity=settings.get_profile("default").verbosity,
                 phases=[Phase.generate] + ([Phase.shrink] if d["shrink"] else []), print_blob=False)
    final = None
    import contextlib
    import io
    from hypothesis.reporting import with_reporter
    with with_reporter(lambda *_: None):
        try:
            run_state_machine_as_test(seed_(d["seed"])(M), settings=s)
        except Boom:
            if not any(r["act"] == "boom" for r in d["rules"] + d["invs"]):
                raise
        except Unsatisfiable:
            pass
        except InvalidDefinition as e:
            if "No progress" not in str(e):
                raise
            final = f"InvalidDefinition ({e!s:.60})"
        except BaseExceptionGroup as e:
            if e.split((Boom, InvalidDefinition))[1] is not None:
                raise
    for i, log in enumerate(logs):
        m = check(d, log, final if i == len(logs) - 1 else None)
        if m:
            return m
    return None


def variant(kind):
    def gen(rng):
        d = g(rng)
        d["shrink"] = kind == "failing"
        if kind == "failing":
            d["steps"] = min(d["steps"], 5)
            rng.choice(d["rules"])["act"] = "boom"
        elif kind == "short":
            d["steps"] = min(d["steps"], 5)
        return d
    return gen


CHECKS = [RT(f"machines-{kind}", variant(kind), p, n=n, budget=40, rule="rules, bundles, initialize rules, invariants, step count and teardown of random machines against a model of their log")
          for kind, n in (("long", 250), ("short", 500), ("short2", 500), ("failing", 250))]
