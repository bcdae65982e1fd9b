"""
Exhaustive exploration of a finite space of executions of the real code.

A check module provides
    groups(tier)        names of the parts of the space
    cases(group, tier)  every element of that part (JSON-able)
    check(case, ctx)    executes the real code on it; None or a description of the violation
Nothing is sampled: every case of every group is executed.
"""
import concurrent.futures as cf
import ctypes
import hashlib
import json
import multiprocessing as mp
import os
import resource
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
CPU_SECONDS = float(os.environ.get("MC_CPU_SECONDS", "90"))  # per case; a busy machine must not look like a hanging library
CASE_SECONDS = float(os.environ.get("MC_CASE_SECONDS", "420"))
SLOW = float(os.environ.get("MC_SLOW", "0"))
WORKERS = int(os.environ.get("MC_WORKERS", "8"))


class Timeout(BaseException):
    pass


def _alarm(_sig, _frame):
    raise Timeout()


class Ctx:
    """Counters of one task; checks call op() once per operation of the real code."""

    def __init__(self):
        self.ops = 0
        self.extra_states = 0
        self.outcomes = set()

    def op(self, n=1):
        self.ops += n

    def states(self, n):
        self.extra_states += n

    def outcome(self, o):
        if len(self.outcomes) < 5000:
            self.outcomes.add(o)


def dumps(case):
    return json.dumps(case, sort_keys=True, ensure_ascii=True, default=repr)


def run_case(mod, case, ctx):
    """None or a violation description; every exception of the code is a violation."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_REAL, CASE_SECONDS)
    signal.setitimer(signal.ITIMER_PROF, CPU_SECONDS)
    t0 = time.process_time()
    try:
        return mod.check(case, ctx)
    except Timeout:
        return "did not finish within %g s of work or %g s altogether" % (CPU_SECONDS, CASE_SECONDS)
    except RecursionError:
        return "RecursionError\n" + traceback.format_exc()[-1500:]
    except Exception as e:  # noqa: BLE001
        return "%s: %s\n%s" % (type(e).__name__, str(e)[:600], traceback.format_exc()[-2500:])
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.setitimer(signal.ITIMER_PROF, 0)
        if SLOW and time.process_time() - t0 > SLOW:
            print("slow: %.1f s %s" % (time.process_time() - t0, dumps(case)[:150]), file=sys.stderr)


MOD = None
TIER = "quick"


def _task(args):
    group, shard, nshards = args
    ctx = Ctx()
    seen = set()
    n = 0
    sample = None
    violation = None
    t0 = time.time()
    try:
        for i, case in enumerate(MOD.cases(group, TIER)):
            if i % nshards != shard:
                continue
            text = dumps(case)
            seen.add(int.from_bytes(hashlib.blake2b(text.encode(), digest_size=8).digest(), "big"))
            n += 1
            msg = run_case(MOD, case, ctx)
            if sample is None or (len(sample) > 1500 and len(text) < len(sample)):
                sample = text
            if msg is not None:
                violation = (case, msg)
                break
    except Exception:  # noqa: BLE001
        violation = ({"group": group, "generator": True}, traceback.format_exc()[-3000:])
    return {
        "group": group,
        "shard": shard,
        "nshards": nshards,
        "cases": n,
        "seen": seen,
        "ops": ctx.ops,
        "extra": ctx.extra_states,
        "outcomes": ctx.outcomes,
        "sample": sample,
        "violation": violation,
        "secs": time.time() - t0,
    }


def _init():
    try:
        ctypes.CDLL(None).prctl(1, signal.SIGKILL)  # die with the parent
    except (OSError, AttributeError):
        pass
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    sys.setrecursionlimit(3000)


def known_findings():
    out = {}
    path = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path, encoding="utf-8"):
            if line.startswith("known:"):
                w = dict(p.split("=", 1) for p in line.split()[1:3])
                out[(w["property"], w["key"])] = line.split(None, 3)[3].strip()
    return out


def write_replay(prop, case, msg, group=None, shard=None, nshards=None):
    d = os.path.join(ROOT, "replays")
    os.makedirs(d, exist_ok=True)
    text = dumps(case)
    path = os.path.join(d, "%s-%s.json" % (prop, hashlib.sha1(text.encode()).hexdigest()[:10]))
    with open(path, "w", encoding="utf-8") as f:
        json.dump(
            {"property": prop, "case": case, "message": msg, "group": group, "shard": shard, "nshards": nshards, "tier": TIER},
            f, indent=1, default=repr,
        )
    return path


def explore(mod, prop, tier, seed):
    global MOD, TIER
    MOD, TIER = mod, tier
    t0 = time.time()
    tasks = []
    for g in mod.groups(tier):
        n = mod.shards(g, tier) if hasattr(mod, "shards") else 1
        tasks += [(g, s, n) for s in range(n)]
    total = {"cases": 0, "ops": 0, "extra": 0}
    seen, outcomes, samples, violations = set(), set(), [], []
    per_group = {}
    ctx = mp.get_context("fork")
    workers = min(WORKERS, getattr(mod, "WORKERS", WORKERS), max(1, len(tasks)))
    with cf.ProcessPoolExecutor(workers, mp_context=ctx, initializer=_init) as ex:
        futs = [ex.submit(_task, t) for t in tasks]
        for fu in cf.as_completed(futs):
            try:
                r = fu.result()
            except (cf.process.BrokenProcessPool, cf.CancelledError) as e:
                violations.append(({"pool": str(e)}, "a worker process died (crash or memory exhaustion)", None))
                break
            total["cases"] += r["cases"]
            total["ops"] += r["ops"]
            total["extra"] += r["extra"]
            seen |= r["seen"]
            outcomes |= r["outcomes"]
            pg = per_group.setdefault(str(r["group"]), [0, 0.0])
            pg[0] += r["cases"]
            pg[1] += r["secs"]
            if r["sample"] and len(samples) < 6:
                samples.append(r["sample"][:1200])
            if r["violation"]:
                violations.append((r["violation"][0], r["violation"][1], r))
                for f2 in futs:
                    f2.cancel()
                break
        if violations:
            procs = list((ex._processes or {}).values())
            for p in procs:  # before the pool forgets them: no worker may outlive the check
                p.kill()
            ex.shutdown(wait=False, cancel_futures=True)
    known = known_findings()
    nknown = 0
    for fd in getattr(mod, "FINDINGS", ()):
        msg = run_case(mod, fd["case"], Ctx())
        total["cases"] += 1
        if msg is None:
            continue
        if (prop, fd["key"]) in known:
            nknown += 1
            print("KNOWN-FINDING: property=%s %s" % (prop, known[(prop, fd["key"])]))
        else:
            violations.append((fd["case"], msg, None))
    rc = 0
    for case, msg, r in violations[:1]:
        rc = 1
        path = write_replay(prop, case, msg, *( (r["group"], r["shard"], r["nshards"]) if r else ()))
        print("violated: %s" % msg[:1500])
        print("VIOLATION property=%s replay=%s" % (prop, path))
    wall = time.time() - t0
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": len(seen) + total["extra"],
            "transitions": total["ops"],
            "traces_validated_against_impl": total["cases"],
            "distinct_outcomes": len(outcomes),
            "samples": samples or ["(none: stopped at a violation)"],
            "exhaustive": rc == 0,
            "bound": getattr(mod, "BOUNDS", {}).get(tier, ""),
            "groups": {k: v[0] for k, v in sorted(per_group.items())},
            "known_findings": nknown,
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", ())),
        "wall_s": round(wall, 2),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w", encoding="utf-8") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d states, %d transitions, %d executions against /repo, %d outcomes, %.1f s, %s" % (
        prop, tier, ev["coverage"]["states"], total["ops"], total["cases"], len(outcomes), wall,
        "violated" if rc else "held"))
    if os.environ.get("MC_PROFILE"):
        for k, v in sorted(per_group.items(), key=lambda x: -x[1][1])[:25]:
            print("   %-40s %6d cases %.1f s" % (k, v[0], v[1]))
    return rc
