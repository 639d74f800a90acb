"""Runs one property: generate cases with Hypothesis, judge them, shrink, report.

Exit 0: held on everything explored. Exit 1 + VIOLATION line: broken. Exit 2: the harness itself failed.
Every random choice derives from VERIF_SEED.
"""
from __future__ import annotations

import hashlib
import importlib
import json
import multiprocessing as mp
import os
import random
import signal
import sys
import time
import traceback

from harness.core import Ctx, Sub, Violation

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))
CASE_LIMIT_S = 90
SHRINK_LIMIT_S = 20
TOTAL_CAP_S = {"quick": 600, "thorough": 3600}


class CaseHang(BaseException):
    pass


def _alarm(signum, frame):
    raise CaseHang()


def derive_seed(*parts) -> int:
    return int.from_bytes(hashlib.sha256("|".join(map(str, parts)).encode()).digest()[:8], "big")


def dumps(case) -> str:
    return json.dumps(case, sort_keys=True)


def from_repo(tb) -> bool:
    """Did the exception pass through code of the repository?"""
    src = os.path.join(REPO, "src") + os.sep
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(src):
            return True
        tb = tb.tb_next
    return False


def judge(sub: Sub, case, ctx: Ctx) -> None:
    """Run one case; raise Violation if the property is broken."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, CASE_LIMIT_S)
    try:
        sub.fn(case, ctx)
    except Violation:
        raise
    except CaseHang as e:
        raise Violation(f"no answer within {CASE_LIMIT_S} s") from e
    except RecursionError as e:
        raise Violation(f"RecursionError: {e}") from e
    except Exception as e:
        if type(e).__module__.startswith("hypothesis"):
            raise
        if from_repo(e.__traceback__):
            last = traceback.extract_tb(e.__traceback__)[-1]
            raise Violation(
                f"unexpected {type(e).__name__}: {str(e)[:500]} (at {last.filename}:{last.lineno})"
            ) from e
        if isinstance(e, (KeyError, IndexError, StopIteration, ValueError, ZeroDivisionError, OverflowError)):
            # the output lacks something the property promises (a component, a time step, a number)
            last = traceback.extract_tb(e.__traceback__)[-1]
            raise Violation(f"expected output is missing: {type(e).__name__}: {e} ({last.line})") from e
        raise
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def run_task(task):
    folder = os.environ.get("VERIF_COV")
    if not folder:
        return _run_task(task)
    from harness import cov

    if not cov.HIT:
        cov.start(os.path.join(REPO, "src"))
    try:
        return _run_task(task)
    finally:
        cov.dump(folder)


def _run_task(task):
    prop, sub_index, shard, n, seed = task
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis.internal.conjecture import engine

    engine.MAX_SHRINKING_SECONDS = SHRINK_LIMIT_S
    module = importlib.import_module(f"harness.props.{prop.lower()}")
    sub: Sub = module.SUBCHECKS[sub_index]
    out = {
        "sub": sub.name,
        "evaluations": 0,
        "hashes": set(),
        "samples": [],
        "labels": {},
        "known": set(),
        "violation": None,
        "error": None,
    }
    failing = {}
    random.seed(seed)

    def one(case):
        ctx = Ctx()
        text = dumps(case)
        case = json.loads(text)
        if not failing:
            out["evaluations"] += 1
        try:
            judge(sub, case, ctx)
        except Violation as v:
            failing["case"], failing["msg"] = json.loads(text), str(v)
            raise
        finally:
            if not failing:
                for k in ctx.labels:
                    out["labels"][k] = out["labels"].get(k, 0) + 1
                out["known"].update(ctx.known)
                if ctx.is_nontrivial:
                    h = hashlib.sha256(text.encode()).hexdigest()[:16]
                    if h not in out["hashes"]:
                        out["hashes"].add(h)
                        if len(out["samples"]) < 2 and len(text) < 3000:
                            out["samples"].append(json.loads(text))

    try:
        if shard == -1:
            for case in sub.corpus:
                one(case)
            return out
        strategy = sub.strategy() if callable(sub.strategy) and not hasattr(sub.strategy, "example") else sub.strategy

        @hypothesis.seed(derive_seed(seed, prop, sub.name, shard))
        @settings(
            max_examples=n,
            database=None,
            deadline=None,
            derandomize=False,
            report_multiple_bugs=False,
            print_blob=False,
            phases=(Phase.generate, Phase.shrink),
            suppress_health_check=list(HealthCheck),
        )
        @given(strategy)
        def test(case):
            one(case)

        test()
    except Violation:
        pass
    except BaseException as e:  # noqa: BLE001
        if not failing:
            out["error"] = f"{sub.name}: " + "".join(traceback.format_exception(e))[-6000:]
    if failing:
        out["violation"] = {"sub": sub.name, "case": failing["case"], "msg": failing["msg"]}
    return out


def load_known(prop: str) -> dict:
    path = os.path.join(HERE, "known_findings.txt")
    known = {}
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line.startswith(f"known: property={prop} "):
                    rest = line[len(f"known: property={prop} "):]
                    key, _, what = rest.partition(" ")
                    known[key.removeprefix("id=")] = what
    return known


def replay(prop: str, path: str) -> int:
    with open(path) as f:
        data = json.load(f)
    module = importlib.import_module(f"harness.props.{prop.lower()}")
    sub = next(s for s in module.SUBCHECKS if s.name == data["subcheck"])
    try:
        judge(sub, data["case"], Ctx())
    except Violation as v:
        print(f"{data['subcheck']}: {v}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    print("replay: property held on this case")
    return 0


def main(argv):
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    replay_file = None
    only = None
    i = 1
    while i < len(argv):
        if argv[i] == "--replay":
            replay_file = argv[i + 1]
            i += 1
        elif argv[i] == "--sub":
            only = argv[i + 1]
            i += 1
        elif argv[i] in ("quick", "thorough"):
            tier = argv[i]
        i += 1
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    start = time.time()
    if replay_file:
        sys.exit(replay(prop, replay_file))
    try:
        module = importlib.import_module(f"harness.props.{prop.lower()}")
    except Exception:
        traceback.print_exc()
        sys.exit(2)

    tasks = []
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    for index, sub in enumerate(module.SUBCHECKS):
        if only and sub.name != only:
            continue
        n = sub.quick if tier == "quick" else (sub.thorough or sub.quick * 15)
        n = max(1, int(n * scale))
        if sub.corpus:
            tasks.append((prop, index, -1, 0, seed))
        chunk = sub.chunk or max(10, min(400, -(-n // WORKERS)))
        if tier == "thorough":
            chunk *= 4
        shard = 0
        while n > 0:
            tasks.append((prop, index, shard, min(n, chunk), seed))
            n -= chunk
            shard += 1

    results = []
    truncated = False
    ctx = mp.get_context("fork")
    with ctx.Pool(min(WORKERS, len(tasks)), maxtasksperchild=None) as pool:
        it = pool.imap_unordered(run_task, tasks, chunksize=1)
        done = 0
        deadline = start + TOTAL_CAP_S[tier]
        while done < len(tasks):
            try:
                results.append(it.next(timeout=max(0.1, deadline - time.time())))
                done += 1
            except mp.TimeoutError:
                truncated = True
                break
            except StopIteration:
                break
            if results[-1]["violation"]:
                # a violation is decided; give the others a little time to find a smaller one, then stop
                deadline = min(deadline, time.time() + 20)
        pool.terminate()

    evaluations = sum(r["evaluations"] for r in results)
    hashes, samples, labels, per_sub, known_seen = set(), [], {}, {}, set()
    for r in sorted(results, key=lambda r: r["sub"]):
        hashes |= {(r["sub"], h) for h in r["hashes"]}
        p = per_sub.setdefault(r["sub"], {"evaluations": 0, "distinct_nontrivial": set(), "labels": {}})
        p["evaluations"] += r["evaluations"]
        p["distinct_nontrivial"] |= r["hashes"]
        known_seen |= r["known"]
        for k, v in r["labels"].items():
            p["labels"][k] = p["labels"].get(k, 0) + v
        if r["samples"] and not any(s["subcheck"] == r["sub"] for s in samples):
            samples.append({"subcheck": r["sub"], "case": r["samples"][0]})
    for p in per_sub.values():
        p["distinct_nontrivial"] = len(p["distinct_nontrivial"])

    violations = [r["violation"] for r in results if r["violation"]]
    errors = [r["error"] for r in results if r["error"]]
    rules = "; ".join(f"[{s.name}] {s.rule}" for s in module.SUBCHECKS if s.rule)
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(hashes),
            "rule": rules or "see DESIGN.md",
            "samples": samples,
            "per_subcheck": per_sub,
            "truncated": truncated,
        },
        "assumptions": list(getattr(module, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - start, 2),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as f:
        json.dump(evidence, f, indent=1, default=str)

    for key, what in sorted(load_known(prop).items()):
        if key in known_seen:
            print(f"KNOWN-FINDING: property={prop} {key} {what}")
    for name, p in per_sub.items():
        print(f"{prop} {name}: {p['evaluations']} cases, {p['distinct_nontrivial']} distinct non-trivial {p['labels'] or ''}")
    print(f"{prop}: {evaluations} cases in {evidence['wall_s']} s" + (" (truncated)" if truncated else ""))
    if violations:
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        v = min(violations, key=lambda v: len(dumps(v["case"])))
        path = os.path.join(HERE, "replays", f"{prop}-{v['sub']}.json")
        with open(path, "w") as f:
            json.dump({"property": prop, "subcheck": v["sub"], "case": v["case"], "message": v["msg"]}, f, indent=1)
        print(f"{v['sub']}: {v['msg']}")
        print(f"case: {dumps(v['case'])[:3000]}")
        print(f"VIOLATION property={prop} replay={path}")
        sys.exit(1)
    if errors:
        print("HARNESS ERROR\n" + errors[0], file=sys.stderr)
        sys.exit(2)
    sys.exit(0)
