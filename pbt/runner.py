"""Runs one check: sharded Hypothesis search, shrinking, replay files, evidence.

Every check module gives ID, RULE, cases(tier) (a Hypothesis strategy of JSON-able dicts), check(case) (returns a
dict of facts about the case, raises Violation) and BUDGET (cases per shard and tier). All randomness is drawn by
Hypothesis (seeded from VERIF_SEED and the shard number); a case is a pure value, so a replay needs only the case.
"""
import collections
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import random
import signal
import sys
import time
import traceback

from hypothesis import HealthCheck, Phase, given, seed as hseed, settings
from hypothesis.errors import HypothesisException

from . import lib
from .lib import Violation, np

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.environ.get("PBT_EVIDENCE", os.path.join(HERE, "evidence"))
REPLAYS = os.environ.get("PBT_REPLAYS", os.path.join(HERE, "replays"))
SHARDS = 8
SOFT_S = {"quick": 200, "thorough": 3000}      # a shard starts no new case after this
HARD_S = {"quick": 600, "thorough": 4200}      # the run is given up (inconclusive) after this
SHRINK_S = 25
CASE_S = 100        # a case takes seconds of processor time at most: one that takes this long hangs


class Hang(Violation):
    pass


_began = [0.0, 0.0]


def _hangs(*_):
    # on a busy machine a case may take long without using the processor
    if time.process_time() - _began[0] < 0.9 * CASE_S and time.time() - _began[1] < 2.9 * CASE_S:
        signal.alarm(10)
        return
    raise Hang("the calls of this case do not come to an end (stopped after %d s)" % CASE_S)


class Stop(KeyboardInterrupt):
    """Leaves Hypothesis at once (budget used, or shrinking took long enough)."""


def jdump(case):
    return json.dumps(case, sort_keys=True, default=_plain)


def _plain(o):
    if isinstance(o, np.generic):
        return o.item()
    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, (set, frozenset)):
        return sorted(o)
    raise TypeError("not JSON-able: %r" % (o,))


def digest(case):
    return hashlib.sha1(jdump(case).encode()).hexdigest()[:12]


def known_findings():
    with open(os.path.join(HERE, "known_findings.json")) as f:
        return json.load(f)["known"]


def load(pid):
    return importlib.import_module("pbt.props." + pid.lower())


def misshapen(exc):
    """Whether our own code failed on something that the library returned (None, another shape, another type). A missing
    attribute of an object of the library is none of that: it may have been renamed."""
    if isinstance(exc, HypothesisException):
        return False
    if isinstance(exc, AttributeError):
        kind = type(getattr(exc, "obj", None))
        return not kind.__module__.startswith(("padasip", "pbt", "builtins.module")) and kind is not type(os)
    return isinstance(exc, (TypeError, ValueError, IndexError, AssertionError))


def evaluate(mod, case):
    """check(case); an exception that the library raised by itself is a violation, one of ours is not."""
    random.seed(12345)
    np.random.seed(987654321)
    signal.signal(signal.SIGALRM, _hangs)
    _began[:] = time.process_time(), time.time()
    signal.alarm(CASE_S)
    try:
        return mod.check(case) or {}
    except Violation:
        raise
    except MemoryError:
        raise
    except Exception as exc:
        tb = traceback.extract_tb(exc.__traceback__)
        lib_root = os.path.join(lib.REPO, "padasip") + os.sep
        at = [f for f in tb if os.path.abspath(f.filename).startswith(lib_root)]
        if at:
            raise Violation("%s raised by the library at %s:%d (%s): %s" % (
                type(exc).__name__, os.path.relpath(at[-1].filename, lib.REPO), at[-1].lineno,
                at[-1].line, exc)) from exc
        if misshapen(exc):
            raise Violation("a result of the library does not have the documented form: %s (%s) at %s:%d (%s)" % (
                type(exc).__name__, exc, os.path.relpath(tb[-1].filename, HERE), tb[-1].lineno, tb[-1].line)) from exc
        raise
    finally:
        signal.alarm(0)


def derive(seed, pid, shard):
    h = hashlib.sha256(("%d/%s/%d" % (seed, pid, shard)).encode()).digest()
    return int.from_bytes(h[:8], "big")


def shard_run(pid, shard, seed, tier, budget, conn):
    """One process: searches with its own seed and reports statistics and the smallest failure."""
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    mod = load(pid)
    t0 = time.time()
    st = {"shard": shard, "evals": 0, "labels": collections.Counter(), "nontrivial": 0, "samples": [],
          "fail": None, "error": None, "known": collections.Counter(), "hashes": [], "capped": False, "slowest": [0, None]}
    hist = []
    seen = set()
    state = {"fail_t": None, "best": None, "n_before": 0}

    def one(case):
        now = time.time()
        if state["best"] is not None:
            if now - state["fail_t"] > SHRINK_S:
                raise Stop()
        elif now - t0 > SOFT_S[tier]:
            st["capped"] = True
            raise Stop()
        if state["best"] is None:
            hist.append(case)
        try:
            t1 = time.process_time()
            info = evaluate(mod, case)
            t1 = time.process_time() - t1
            if t1 > st["slowest"][0]:
                st["slowest"] = [t1, case]
        except Violation as v:
            size = len(jdump(case))
            if state["best"] is None:
                state["fail_t"] = now
                state["first"] = case
                state["n_before"] = len(hist)
                conn.send(("failing", shard))
            if state["best"] is None or size <= state["best"][0]:
                state["best"] = (size, case, str(v))
            if isinstance(v, Hang):
                raise Stop()
            raise
        if state["best"] is not None:
            return
        st["evals"] += 1
        for lab in info.get("labels", ()):
            st["labels"][lab] += 1
        for lab in info.get("known", ()):
            st["known"][lab] += 1
        if info.get("nontrivial", True):
            h = digest(case)
            if h not in seen:
                seen.add(h)
                st["nontrivial"] += 1
                if len(st["samples"]) < 2 and len(jdump(case)) < 3000:
                    st["samples"].append(case)

    # cases that are always tried, before the search
    fixed = getattr(mod, "fixed_cases", lambda tier: [])(tier)
    try:
        for i, case in enumerate(fixed):
            if i % SHARDS == shard:
                try:
                    one(case)
                except Violation:
                    raise Stop()
        test = given(mod.cases(tier))(lambda case: one(case))
        test = settings(max_examples=budget, database=None, deadline=None, derandomize=False,
                        suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
                        phases=[Phase.generate, Phase.shrink], print_blob=False)(test)
        test = hseed(derive(seed, pid, shard))(test)
        test()
    except Stop:
        pass
    except Violation:
        pass
    except HypothesisException as exc:
        if state["best"] is None:
            st["error"] = "hypothesis: %r\n%s" % (exc, traceback.format_exc())
    except BaseException as exc:
        if state["best"] is None:
            st["error"] = "harness: %r\n%s" % (exc, traceback.format_exc())
    if state["best"] is not None:
        st["fail"] = {"case": state["best"][1], "message": state["best"][2], "first": state["first"],
                      "history": hist[:state["n_before"]][-3000:]}
    st["hashes"] = sorted(seen)
    st["wall"] = time.time() - t0
    conn.send(("done", st))
    conn.close()


def write_replay(pid, case, message, history=None):
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, "%s-%s.json" % (pid, digest(case)))
    out = {"property": pid, "message": message, "case": case}
    if history is not None:
        out["history"] = history
    with open(path, "w") as f:
        json.dump(out, f, default=_plain, indent=1)
    return path


def replay(path, quiet=False):
    with open(path) as f:
        r = json.load(f)
    mod = load(r["property"])
    for case in r.get("history", []):
        try:
            evaluate(mod, case)
        except Violation as v:
            if not quiet:
                print("VIOLATION property=%s replay=%s" % (r["property"], path))
                print("  (in the recorded history) %s" % v)
            return 1
    try:
        evaluate(mod, r["case"])
    except Violation as v:
        if not quiet:
            print("VIOLATION property=%s replay=%s" % (r["property"], path))
            print("  %s" % v)
        return 1
    if not quiet:
        print("the case passes")
    return 0


def _replay_child(path, conn):
    try:
        conn.send(replay(path, quiet=True))
    except BaseException as exc:  # noqa
        conn.send("error %r" % (exc,))


def fresh_replay(path, ctx, timeout=120):
    a, b = ctx.Pipe(False)
    p = ctx.Process(target=_replay_child, args=(path, b))
    p.start()
    b.close()
    got = a.recv() if a.poll(timeout) else "timeout"
    p.kill()
    p.join()
    return got


def run_check(pid, seed, tier):
    t0 = time.time()
    mod = load(pid)
    ctx = mp.get_context("fork")
    known = [k for k in known_findings() if k["property"] == pid]
    shown = []
    for k in known:
        if mod.reproduces(k["id"]):
            shown.append(k)
            print("KNOWN-FINDING: property=%s %s: %s" % (pid, k["id"], k["what"]))
    sys.stdout.flush()

    budget = mod.BUDGET[tier]
    procs, conns = [], []
    for s in range(SHARDS):
        a, b = ctx.Pipe(False)
        p = ctx.Process(target=shard_run, args=(pid, s, seed, tier, budget, b))
        p.start()
        b.close()
        procs.append(p)
        conns.append(a)
    results = {}
    failing_since = None
    dead = {}
    while len(results) + len(dead) < SHARDS:
        ready = mp.connection.wait([c for i, c in enumerate(conns) if i not in results and i not in dead], timeout=1)
        for c in ready:
            i = conns.index(c)
            try:
                kind, val = c.recv()
            except (EOFError, OSError):
                dead[i] = "shard %d ended without a result (exit code %s)" % (i, procs[i].exitcode)
                continue
            if kind == "failing":
                failing_since = failing_since or time.time()
            else:
                results[i] = val
                if val["fail"]:
                    failing_since = failing_since or time.time()
        now = time.time()
        if any(r["fail"] for r in results.values()):
            break                                    # a shrunk failure is there: enough
        if failing_since and now - failing_since > SHRINK_S + 120:
            break
        if now - t0 > HARD_S[tier]:
            break
    for p in procs:
        if p.is_alive():
            p.kill()
    for p in procs:
        p.join()
    res = [results[i] for i in sorted(results)]
    fails = [r for r in res if r["fail"]]
    errors = [r["error"] for r in res if r["error"]] + list(dead.values())
    timeouts = SHARDS - len(results) - len(dead)

    labels, knowns, hashes = collections.Counter(), collections.Counter(), set()
    samples = []
    for r in res:
        labels.update(r["labels"])
        knowns.update(r["known"])
        hashes.update(r["hashes"])
        samples += r["samples"]
    code = 0
    n_viol = 0
    if fails:
        fails.sort(key=lambda r: len(jdump(r["fail"]["case"])))
        f = fails[0]["fail"]
        path = write_replay(pid, f["case"], f["message"])
        if fresh_replay(path, ctx, CASE_S + 50) != 1:
            # fails only after other calls in the same process: keep the whole history
            path2 = write_replay(pid, f["first"], f["message"], history=f["history"])
            if fresh_replay(path2, ctx, 300) == 1 and path2 != path:
                os.remove(path)
            path = path2
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print("  " + f["message"])
        n_viol = len(fails)
        code = 1
    elif errors:
        print("ERROR in the check of %s:\n%s" % (pid, errors[0]))
        code = 2
    elif timeouts:
        print("INCONCLUSIVE: %d of %d shards of %s did not finish in time" % (timeouts, SHARDS, pid))
        code = 2
    evals = sum(r["evals"] for r in res)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": len(hashes),
            "rule": mod.RULE,
            "samples": samples[:6],
            "classes": dict(sorted(labels.items())),
            "known_finding_cases": dict(knowns),
            "shards": len(res),
            "shards_stopped_by_time": sum(1 for r in res if r["capped"]),
            "slowest_case_cpu_s": round(max([r["slowest"][0] for r in res] or [0]), 2),
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": n_viol,
    }
    os.makedirs(EVIDENCE, exist_ok=True)
    tmp = os.path.join(EVIDENCE, ".%s.%d" % (pid, os.getpid()))
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, default=_plain)
    os.replace(tmp, os.path.join(EVIDENCE, pid + ".json"))
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %d violations, %.1f s"
          % (pid, tier, seed, evals, len(hashes), n_viol, time.time() - t0))
    return code
