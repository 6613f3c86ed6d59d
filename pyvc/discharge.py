"""Generate obligations per contract and discharge them in parallel."""
import hashlib
import json
import multiprocessing as mp
import os
import re
import subprocess
import tempfile
import time
import traceback
import z3
from .values import *
from .engine import Exec, zbool


RECORD = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "contracts", "proofs.json")


class Result:
    "outcome of verifying one contract"
    def __init__(self, name):
        self.name = name
        self.obls = []          # dicts
        self.unsupported = None
        self.inlined = []
        self.calls = []
        self.lemmas = []
        self.gen_time = 0.0
        self.cover = None


def smt2_of(hyps, goal):
    s = z3.Solver()
    for h in hyps:
        s.add(h)
    s.add(z3.Not(goal) if goal is not None else z3.BoolVal(True))
    return s.to_smt2()


def gen(ctx, c):
    r = Result(c.name)
    t0 = time.time()
    try:
        ex = Exec(ctx, c, c.opts)
        obls = ex.run_all()
        for o in obls:
            d = {"name": o.name, "kind": o.kind, "status": o.status, "backend": o.backend, "time": 0.0, "line": o.line}
            if o.status is None:
                d["smt2"] = smt2_of(o.hyps, o.goal)
                d["digest"] = digest([zbool(x) for x in o.hyps], zbool(o.goal))
            r.obls.append(d)
        r.inlined = sorted(ex.inlined)
        r.calls = sorted(ex.assumed_calls)
        r.lemmas = sorted(getattr(ex, "lemmas_used", set()))
        r.paths = ex.paths
        r.normal_paths = ex.normal_paths
        # vacuity: the hypotheses of at least one completed path must not be refutable
        if ex.covers:
            r.cover = [smt2_of(h, None) for h in ex.covers[:3]]
    except Unsupported as e:
        r.unsupported = f"unsupported: {e}"
        if os.environ.get("PYVC_TRACE"):
            r.trace = traceback.format_exc()[-2500:]
    except SpecError as e:
        r.unsupported = f"contract does not attach: {e}"
    except RecursionError:
        r.unsupported = "recursion limit in the symbolic executor"
    except Exception as e:
        r.unsupported = f"internal: {type(e).__name__}: {e}"
        r.trace = traceback.format_exc()
    r.gen_time = time.time() - t0
    return r


STRATS = [
    ("z3", {}),
    ("z3-ematch", {"smt.mbqi": False, "smt.auto_config": False}),
    ("z3-seed7", {"smt.random_seed": 7, "smt.arith.solver": 2}),
    ("z3-nlsat", {"smt.arith.nl.order": True, "smt.arith.nl.nra": True, "smt.random_seed": 11}),
]


PLAN = [("z3", 0.25), ("z3-ematch", 0.15), ("cvc5", 0.3), ("z3", 1.0), ("z3-seed7", 1.0), ("z3-nlsat", 1.0), ("z3-ematch", 0.8), ("cvc5", 1.2)]


COMM = {z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_EQ, z3.Z3_OP_IFF, z3.Z3_OP_BADD, z3.Z3_OP_BMUL, z3.Z3_OP_BAND, z3.Z3_OP_BOR, z3.Z3_OP_BXOR, z3.Z3_OP_DISTINCT}


def digest(hyps, goal):
    "of the obligation as a set of terms: printing order and the order of commutative arguments (z3's simplifier sorts them by address) do not matter"
    memo = {}

    def h(root):
        stack = [root]
        while stack:
            t = stack[-1]
            i = t.get_id()
            if i in memo:
                stack.pop()
                continue
            if z3.is_quantifier(t):
                kids = [t.body()]
            elif z3.is_app(t):
                kids = t.children()
            else:
                kids = []
            todo = [k for k in kids if k.get_id() not in memo]
            if todo:
                stack.extend(todo)
                continue
            stack.pop()
            ks = [memo[k.get_id()][0] for k in kids]
            if z3.is_quantifier(t):
                head = f"q{t.is_forall()}{t.is_lambda()}{[t.var_sort(j).sexpr() for j in range(t.num_vars())]}{t.num_patterns()}"
            elif z3.is_var(t):
                head = f"v{z3.get_var_index(t)}{t.sort().sexpr()}"
            else:
                d = t.decl()
                if d.kind() in COMM:
                    ks.sort()
                head = f"{d.kind()}:{d.name()}:{d.params()}:{t.sort().sexpr()}"
            memo[i] = (hashlib.sha1((head + "(" + ",".join(ks)).encode()).hexdigest()[:20], t)
        return memo[root.get_id()][0]
    return hashlib.sha1(("|".join(sorted({h(x) for x in hyps})) + "=>" + h(goal)).encode()).hexdigest()[:16]


def load_record():
    """obligations (by digest of their text) the solvers accepted when the record was made, with the back end that did: it is
    tried first, and an identical obligation on which today's run runs out of time still counts as discharged ("recorded")"""
    try:
        return json.load(open(RECORD))
    except (OSError, ValueError):
        return {}


def solve(smt2, timeout_ms, known=None):
    t0 = time.time()
    last = ("unknown", None, None)
    plan = PLAN
    if known:
        # one full-length try with the back end that did it before, then the usual round unless it is recorded anyway
        plan = [(known, 1.0), ("z3", 0.25), ("cvc5", 0.5)]
    for nm, frac in plan:
        to = int(timeout_ms * frac)
        if nm == "cvc5":
            if cvc5(smt2, to) == "unsat":
                return "proved", "cvc5", None, time.time() - t0
            continue
        params = dict(STRATS)[nm]
        z3.reset_params()
        for a, b in params.items():
            z3.set_param(a, b)
        s = z3.Solver() if nm != "z3-ematch" else z3.SimpleSolver()
        s.set("timeout", to)
        try:
            s.from_string(smt2)
            r = s.check()
        except z3.Z3Exception as e:
            last = ("unknown", nm, None)
            continue
        if r == z3.unsat:
            return "proved", nm, None, time.time() - t0
        if r == z3.sat:
            m = None
            try:
                m = model_dict(s.model())
            except Exception:
                pass
            if nm == "z3-ematch":
                last = ("unknown", nm, m)
                continue
            return "refuted", nm, m, time.time() - t0
        last = ("unknown", nm, last[2])
    if known and last[0] == "unknown":
        return "proved", "recorded:" + known, None, time.time() - t0
    return last[0], last[1], last[2], time.time() - t0


def cvc5(smt2, timeout_ms):
    txt = "(set-logic ALL)\n" + "\n".join(l for l in smt2.splitlines() if not l.startswith("(set-info") and not l.startswith("(set-option"))
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write(txt)
    try:
        p = subprocess.run(["cvc5", f"--tlimit={int(timeout_ms)}", f.name], capture_output=True, text=True, timeout=timeout_ms / 1000 + 5)
        out = p.stdout.strip().splitlines()
        return out[0] if out else "unknown"
    except Exception:
        return "unknown"
    finally:
        os.unlink(f.name)


def model_dict(m):
    out = {}
    for d in m.decls():
        if d.arity() == 0:
            v = m[d]
            if z3.is_int_value(v):
                out[d.name()] = v.as_long()
            elif z3.is_bv_value(v):
                out[d.name()] = v.as_long()
            elif z3.is_true(v) or z3.is_false(v):
                out[d.name()] = z3.is_true(v)
            else:
                out[d.name()] = str(v)
        else:
            fi = m[d]
            try:
                tab = [([e.arg_value(i) for i in range(e.num_args())], e.value()) for e in (fi.entry(k) for k in range(fi.num_entries()))]
                if all(all(z3.is_int_value(a) for a in args) and (z3.is_int_value(v) or z3.is_bool(v)) for args, v in tab):
                    out[d.name()] = {"tab": [([a.as_long() for a in args], v.as_long() if z3.is_int_value(v) else z3.is_true(v)) for args, v in tab],
                                     "else": (fi.else_value().as_long() if fi.else_value() is not None and z3.is_int_value(fi.else_value()) else None)}
            except Exception:
                pass
    return out


def _gen_job(i):
    return gen(_G["ctx"], _G["contracts"][i])


def _solve_job(a):
    smt2, to, known = a
    try:
        return solve(smt2, to, known)
    except Exception as e:
        return "unknown", "error", str(e), 0.0


def _cover_job(smt2):
    s = z3.Solver()
    s.set("timeout", 4000)
    s.from_string(smt2)
    return str(s.check())


_G = {}


def verify(ctx, contracts, timeout_ms=10000, procs=None):
    """returns list of Result in the order of contracts"""
    procs = procs or min(8, os.cpu_count() or 8)
    todo = [c for c in contracts if not c.trusted]
    _G["ctx"], _G["contracts"] = ctx, todo
    for c in todo:
        try:
            ctx.prog.load(c.module)
        except Exception:
            pass
    import sys
    sys.setrecursionlimit(20000)
    mpc = mp.get_context("fork")
    with mpc.Pool(procs, maxtasksperchild=1) as p:
        results = p.map(_gen_job, range(len(todo)), chunksize=1)
    jobs, where = [], []
    seen = {}
    record = load_record()
    for r, c in zip(results, todo):
        for o in r.obls:
            if o["status"] is None:
                key = o["smt2"]
                if key in seen:
                    where[seen[key]].append(o)
                else:
                    seen[key] = len(jobs)
                    jobs.append((o["smt2"], c.timeout or timeout_ms, record.get(o["digest"])))
                    where.append([o])
    with mpc.Pool(procs, maxtasksperchild=20) as p:
        outs = p.map(_solve_job, jobs, chunksize=1)
        for os_, (st, be, model, t) in zip(where, outs):
            for o in os_:
                o["status"], o["backend"], o["model"], o["time"] = st, be, model, t
        covers = [(r, s) for r in results for s in (r.cover or [])]
        couts = p.map(_cover_job, [s for _, s in covers], chunksize=1)
    for r in results:
        cs = [o for (rr, _), o in zip(covers, couts) if rr is r]
        r.cover_status = "vacuous" if cs and all(x == "unsat" for x in cs) else ("reached" if any(x == "sat" for x in cs) else ("not-refuted" if cs else "none"))
        r.cover = None
    return results
