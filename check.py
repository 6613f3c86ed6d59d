#!/opt/venv/bin/python
"""Decide one property: discharge its contracts from /repo's current source, then run its bounded checks.
usage: check.py <property id> [--replay FILE]"""
import os
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
if __name__ == "__main__" and os.environ.get("VERIF_CHILD") != "1":
    env = dict(os.environ, VERIF_CHILD="1", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    env.pop("CI", None)
    d = tempfile.mkdtemp(prefix="verif-")
    env["HYPOTHESIS_STORAGE_DIRECTORY"] = os.path.join(d, "hyp")
    env["VERIF_SCRATCH"] = d
    import shutil
    import subprocess
    try:
        rc = subprocess.call([sys.executable, "-X", "faulthandler"] + sys.argv, env=env, cwd=HERE)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    sys.exit(rc)

sys.path.insert(0, HERE)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import hashlib
import importlib
import json
import random
import time
import warnings

warnings.simplefilter("ignore")


def load(pid):
    import props
    return props.PROPS[pid]


def main():
    pid = sys.argv[1]
    seed = int(os.environ.get("VERIF_SEED") or 1)
    tier = os.environ.get("VERIF_TIER") or "quick"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t0 = time.time()
    import z3
    from pyvc import discharge, native, runtime
    from pyvc.ctx import Ctx, ctx_for
    P = load(pid)
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        return replay(pid, P, sys.argv[3])
    mods = [importlib.import_module("contracts." + m) for m in P.contracts]
    ctx, own = ctx_for(mods)
    contracts = [c for g in own for c in g.contracts if P.select(c)]
    results = discharge.verify(ctx, contracts, timeout_ms=30000 if tier == "thorough" else 12000) if contracts else []
    byname = {r.name: (r, c) for r, c in zip(results, [c for c in contracts if not c.trusted])}
    base = {}
    bp = os.path.join(HERE, "contracts", "proved.json")
    if os.path.exists(bp):
        base = json.load(open(bp))
    notes, violations, standins = [], [], []
    # ---- obligations
    obls = disch = 0
    backends, kinds = {}, {}
    stime = 0.0
    failed = {}
    for r, c in byname.values():
        if r.unsupported:
            standins.append((c, r.unsupported))
            continue
        if not r.obls or r.cover_status == "vacuous":
            standins.append((c, "vacuous: no path of the function reaches its postcondition" if r.obls else "no obligations generated"))
            continue
        for o in r.obls:
            obls += 1
            stime += o["time"]
            kinds[o["kind"]] = kinds.get(o["kind"], 0) + 1
            if o["status"] == "proved":
                disch += 1
                backends[o["backend"]] = backends.get(o["backend"], 0) + 1
            else:
                failed.setdefault(r.name, []).append(o)
    # ---- failed obligations: replay the solver's model, then search
    for name, os_ in failed.items():
        r, c = byname[name]
        hit = None
        nc = try_native(c, ctx, native)
        if nc is not None:
            for o in os_:
                if o.get("model"):
                    try:
                        args = native.args_from_model(c, o["model"])
                    except Exception:
                        continue
                    msg = run_native(nc, args, runtime)
                    if msg and msg[0] != "__unreachable__":
                        hit = (args, msg[1], o)
                        break
            if hit is None:
                hit = search_native(nc, c, seed, 20000 if tier == "quick" else 200000, native, runtime, 25)
                if hit:
                    hit = (hit[0], hit[1], os_[0])
        o = hit[2] if hit else os_[0]
        violations.append(dict(kind="obligation", contract=name, function=f"{c.module}:{c.qual}", obligation=o["name"], line=o["line"], status=o["status"], backend=o["backend"],
                               model={k: v for k, v in (o.get("model") or {}).items()}, failed=[x["name"] for x in os_][:50], smt2=o.get("smt2", "")[:20000],
                               input=runtime.encode(hit[0]) if hit else None, input_repr=repr(hit[0])[:2000] if hit else None, message=hit[1] if hit else "the verifier does not accept the obligation"))
    # ---- native bounded checks of contracts + stand-ins
    checks = []
    standin_names = {c.name for c, _ in standins}
    for c in contracts:
        if c.trusted or (c.lemma and not c.client) or c.opts.get("no_native"):
            continue
        nc = try_native(c, ctx, native)
        if nc is None:
            continue
        if c.name in failed:
            continue
        big = 5 if c.name in standin_names else 1
        checks.append(native_check(c, nc, native, runtime, int(c.opts.get("native_n", 400)) * big))
    checks += P.runtime_checks()
    outs = runtime.run_all(checks, seed, tier)
    for o in outs:
        if o.get("unreachable"):
            notes.append(f"bounded check {o['name']} could not reach the code: {o['unreachable']}")
        if o.get("error"):
            if o.get("hang"):
                violations.append(dict(kind="bounded", check=o["name"], key="hang", message="the check's input did not finish: " + o["error"], input=None, input_repr="(see check name and seed)", noinput=True))
            else:
                notes.append(f"bounded check {o['name']} gave no verdict: {o['error']} {o.get('trace', '')[-600:]}")
        for v in o["violations"]:
            violations.append(dict(v, kind="bounded"))
    for v in violations:
        if v["kind"] == "bounded" and v["check"].startswith("native:"):
            v["contract"] = v["check"][7:]
    # a failed obligation whose replay found nothing, explained by an input another check found
    any_input = [v for v in violations if v.get("input")]
    # ---- known findings
    kf = [k for k in json.load(open(os.path.join(HERE, "known_findings.json")))["findings"] if k["property"] == pid]
    real, known_hit = [], set()
    for v in violations:
        k = next((k for k in kf if k["check"] == v.get("check", v.get("contract")) and k["key"] == v.get("key", v.get("obligation"))), None)
        if k:
            known_hit.add(k["check"] + k["key"])
        else:
            real.append(v)
    for k in kf:
        print(f"KNOWN-FINDING: property={pid} {k['text']}")
    # ---- evidence
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    trusted = sorted({t for g in ctx.groups for t in g.trusted} | {f"trusted contract: {c.module}:{c.qual} ({c.trusted})" for c in contracts if c.trusted})
    cov = dict(
        obligations=obls, discharged=disch,
        checker_cmd=f"python check.py {pid}  (pyvc obligations from /repo's current source -> SMT-LIB -> z3 {z3.get_version_string()} / cvc5 1.1.2)",
        trusted_base=["pyvc symbolic executor (Python semantics subset) and its models of builtins", "z3", "cvc5", "CPython"] + trusted + list(P.trusted),
        functions_under_contract=[dict(name=r.name, function=f"{c.module}:{c.qual}", obligations=len(r.obls), paths=getattr(r, "paths", 0), discharged=sum(o["status"] == "proved" for o in r.obls),
                                       status="out of reach: " + r.unsupported if r.unsupported else ("proved" if all(o["status"] == "proved" for o in r.obls) else "failed"),
                                       solver_s=round(sum(o["time"] for o in r.obls), 2), inlined=r.inlined, cover=getattr(r, "cover_status", None), lemma=c.lemma) for r, c in byname.values()],
        by_backend=backends, by_kind=kinds, solver_s=round(stime, 1),
        assumed_contracts_at_calls=sorted({x for r, c in byname.values() for x in r.calls if x not in byname}),
        bounded=[dict(name=o["name"], label="bounded stand-in" if o["name"][7:] in standin_names else "bounded", evaluations=o["evaluations"], distinct_nontrivial=o["distinct"],
                      rule=o.get("rule", ""), samples=o["samples"], error=o.get("error") or o.get("unreachable")) for o in outs],
        evaluations=sum(o["evaluations"] for o in outs), distinct_nontrivial=sum(o["distinct"] for o in outs),
        rule="bounded checks: seeded random and enumerated inputs; non-trivial = distinct inputs inside the check's domain",
        samples=[s for o in outs for s in o["samples"][:1]][:6],
        out_of_reach=[f"{c.name}: {w}" for c, w in standins], notes=notes)
    level = P.level
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, assumptions=list(P.assumptions) + trusted, wall_s=round(time.time() - t0, 1), violations=len(real))
    if level == "other":
        cov["explanation"] = P.explanation
    json.dump(ev, open(os.path.join(HERE, "evidence", f"{pid}.json"), "w"), indent=1, default=str)
    print(f"{pid} [{tier}] {P.title}: {disch}/{obls} obligations discharged over {len(byname)} contracts, {cov['evaluations']} bounded evaluations in {len(outs)} checks, {len(standins)} stand-ins, {time.time() - t0:.0f}s")
    for n in notes:
        print("note:", n)
    for c, w in standins:
        print(f"note: {c.name} decided by a bounded stand-in only: {w}")
    if not real:
        return 0
    real.sort(key=lambda v: not v.get("input"))
    rd = os.path.join(HERE, "replays")
    os.makedirs(rd, exist_ok=True)
    # with an input in hand, the obligations without one are reported inside its replay file
    v = real[0]
    h = hashlib.sha1(json.dumps([v.get("check"), v.get("obligation"), v.get("input")], default=str).encode()).hexdigest()[:10]
    path = os.path.join(rd, f"{pid}-{h}.json")
    json.dump(dict(property=pid, violation=v, others=real[1:30], replay_cmd=f"cd /verif && ./check.py {pid} --replay {path}"), open(path, "w"), indent=1, default=str)
    for w in real[:10]:
        print("violation:", w.get("contract") or w.get("check"), "|", w.get("obligation", w.get("key", "")), "|", w["message"][:400], "| input:", (w.get("input_repr") or "-")[:300])
    print(f"VIOLATION property={pid} replay={path}" + ("" if v.get("input") else " no-failing-input-found"))
    return 1


def try_native(c, ctx, native):
    if (c.lemma and not c.client) or c.opts.get("no_native"):
        return None
    try:
        nc = native.NativeContract(c, ctx)
        if not nc.usable():
            return None
        native.gen_args(c, random.Random(0))
        return nc
    except native.Skip:
        return None
    except Exception:
        return None


def run_native(nc, args, runtime):
    import copy

    class C:
        @staticmethod
        def pred(a):
            return nc.run(copy.deepcopy(a))
    r = runtime.run_pred(C, args)
    if r is None:
        return None
    return r if isinstance(r, tuple) else ("", r)


def search_native(nc, c, seed, n, native, runtime, budget):
    rng = random.Random(f"{seed}:search:{c.name}")
    t0 = time.time()
    for _ in range(n):
        if time.time() - t0 > budget:
            break
        try:
            args = native.gen_args(c, rng)
        except native.Skip:
            return None
        r = run_native(nc, args, runtime)
        if r and r[0] == "__unreachable__":
            return None
        if r:
            return args, r[1]
    return None


def native_check(c, nc, native, runtime, n):
    import copy
    return runtime.RT("native:" + c.name, lambda rng: native.gen_args(c, rng), lambda a: nc.run(copy.deepcopy(a)), n=n, budget=15,
                      rule="arguments from the contract's parameter types; non-trivial = distinct and inside the precondition", trivial=lambda a: not nc.ok_input(a))


def replay(pid, P, path):
    from pyvc import native, runtime
    from pyvc.ctx import Ctx, ctx_for
    d = json.load(open(path))
    v = d["violation"]
    if not v.get("input"):
        print("no input recorded: the replay file carries the obligation and the verifier's output;", v.get("obligation"))
        return 1
    inp = runtime.decode(v["input"])
    if v.get("contract"):
        mods = [importlib.import_module("contracts." + m) for m in P.contracts]
        ctx, own = ctx_for(mods)
        c = next(c for g in ctx.groups for c in g.contracts if c.name == v["contract"])
        r = run_native(native.NativeContract(c, ctx), inp, runtime)
    else:
        chk = next(k for k in P.runtime_checks() if k.name == v["check"])
        r = runtime.run_pred(chk, inp)
    print("input:", repr(inp)[:3000])
    print("outcome:", r if r else "holds")
    if r:
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    return 0


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
