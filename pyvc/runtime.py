"""Bounded runtime checks: seeded inputs, a predicate evaluated on the real code, each check in its own process."""
import base64
import hashlib
import json
import multiprocessing as mp
import os
import pickle
import random
import signal
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HANG = 40          # seconds of processor time one case may take; baseline cases take milliseconds, the longest few seconds


class RT:
    """gen(rng) -> input; pred(input) -> None | message | (key, message). cases: explicit inputs tried first.
    n: cases in the quick tier."""
    def __init__(self, name, gen, pred, n=2000, thorough=15, cases=(), budget=40, rule="", trivial=None, expect=None):
        self.name, self.gen, self.pred, self.n, self.thorough, self.cases = name, gen, pred, n, thorough, cases
        self.budget, self.rule, self.trivial = budget, rule, trivial


class Hang(BaseException):
    pass


FIRED = []


def _alarm(s, f):
    FIRED.append(s)
    raise Hang


def _start_clock():
    FIRED.clear()
    signal.signal(signal.SIGPROF, _alarm)
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_PROF, HANG)
    signal.alarm(6 * HANG)


def _stop_clock():
    signal.setitimer(signal.ITIMER_PROF, 0)
    signal.alarm(0)


def _r(x):
    try:
        return repr(x)
    except Exception:
        return f"<{type(x).__name__}>"


def encode(x):
    return base64.b64encode(pickle.dumps(x)).decode()


def decode(s):
    return pickle.loads(base64.b64decode(s))


def run_pred(chk, inp):
    _start_clock()
    try:
        r = chk.pred(inp)
        _stop_clock()
        return r if not FIRED else f"did not return within {HANG}s"
    except Hang:
        return f"did not return within {HANG}s"
    except Exception as e:
        _stop_clock()
        if FIRED:
            return f"did not return within {HANG}s"
        tb = traceback.extract_tb(e.__traceback__)
        if tb and os.path.dirname(os.path.abspath(tb[-1].filename)).startswith(VERIF) and (
                isinstance(e, (AttributeError, ImportError, NameError)) or (isinstance(e, TypeError) and "argument" in str(e))):
            # the check could not reach the code under the names it knows (renamed or moved): no verdict
            return ("__unreachable__", f"{type(e).__name__}: {e}")
        where = " <- ".join(f"{os.path.basename(f.filename)}:{f.lineno}:{f.name}" for f in reversed(tb[-4:]))
        return f"unexpected {type(e).__name__}: {e!s:.300} at {where}"
    finally:
        _stop_clock()


def run_check(chk, seed, tier, scale=1.0):
    rng = random.Random(f"{seed}:{chk.name}")
    t0 = time.time()
    n = int(chk.n * (chk.thorough if tier == "thorough" else 1) * scale) or 1
    budget = chk.budget * (10 if tier == "thorough" else 1)
    out = {"name": chk.name, "evaluations": 0, "distinct": 0, "violations": [], "samples": [], "rule": chk.rule}
    seen, keys = set(), set()
    explicit = list(chk.cases() if callable(chk.cases) else chk.cases)
    k = 0
    while k < n + len(explicit):
        if time.time() - t0 > budget and k >= len(explicit):
            break
        inp = explicit[k] if k < len(explicit) else chk.gen(rng)
        k += 1
        if inp is None and chk.gen is not None:
            continue
        blob = None
        try:
            blob = pickle.dumps(inp)
        except Exception:
            pass
        r = run_pred(chk, inp)
        out["evaluations"] += 1
        triv = chk.trivial(inp) if chk.trivial else False
        if not triv:
            seen.add(hashlib.sha1(blob if blob is not None else _r(inp).encode()).digest()[:8])
        if len(out["samples"]) < 2 and not triv:
            out["samples"].append(_r(inp)[:200])
        if r is not None:
            key, msg = r if isinstance(r, tuple) else ("", r)
            if key == "__unreachable__":
                out["unreachable"] = msg
                break
            if key in keys:
                continue
            keys.add(key)
            out["violations"].append({"check": chk.name, "key": key, "message": msg, "input": encode(pickle.loads(blob)) if blob else None, "input_repr": _r(pickle.loads(blob) if blob else inp)[:2000]})
            if len(keys) >= 4 or key == "":
                break
    out["distinct"] = len(seen)
    out["wall"] = time.time() - t0
    return out


def _worker(chk, seed, tier, conn):
    try:
        os.setpgid(0, 0)
        r = run_check(chk, seed, tier)
    except BaseException as e:
        r = {"name": chk.name, "error": f"{type(e).__name__}: {e}", "trace": traceback.format_exc(), "evaluations": 0, "distinct": 0, "violations": [], "samples": []}
    try:
        conn.send(r)
    except Exception as e:
        conn.send({"name": chk.name, "error": f"send: {e}", "evaluations": 0, "distinct": 0, "violations": [], "samples": []})
    conn.close()
    os._exit(0)


def run_all(checks, seed, tier, procs=8):
    ctx = mp.get_context("fork")
    pending = list(checks)
    live, outs = [], {}
    while pending or live:
        while pending and len(live) < procs:
            c = pending.pop(0)
            a, b = ctx.Pipe(duplex=False)
            p = ctx.Process(target=_worker, args=(c, seed, tier, b))
            p.start()
            b.close()
            lim = c.budget * (10 if tier == "thorough" else 1) + 6 * HANG + 20
            live.append((c, p, a, time.time() + lim))
        for item in list(live):
            c, p, a, dl = item
            if a.poll(0.02):
                try:
                    outs[c.name] = a.recv()
                except EOFError:
                    outs[c.name] = {"name": c.name, "error": "worker died", "evaluations": 0, "distinct": 0, "violations": [], "samples": []}
                p.join(5)
                live.remove(item)
            elif not p.is_alive() and not a.poll(0.1):
                outs[c.name] = {"name": c.name, "error": f"worker died ({p.exitcode})", "evaluations": 0, "distinct": 0, "violations": [], "samples": []}
                live.remove(item)
            elif time.time() > dl:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except Exception:
                    p.kill()
                outs[c.name] = {"name": c.name, "error": "hung (uninterruptible)", "hang": True, "evaluations": 0, "distinct": 0, "violations": [], "samples": []}
                live.remove(item)
    return [outs[c.name] for c in checks]
