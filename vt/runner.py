"""Runs the checks of one property and writes its evidence file.

Exit 0: held on everything explored.  Exit 1 with a VIOLATION line: broken.
Exit 2: the check itself could not do its work.
"""
import argparse
import importlib
import io
import json
import multiprocessing
import os
import signal
import sys
import time
import traceback

from . import bootstrap
from .bootstrap import VERIF

QUICK_BUDGET_S = 240.0
THOROUGH_BUDGET_S = 780.0


def load_property(pid):
    bootstrap.boot()
    return importlib.import_module("vt.props." + pid.lower())


def known_entries(pid):
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known: property=%s " % pid):
                rest = line.split(" ", 2)[2]
                key, _, what = rest.partition(" ")
                assert key.startswith("key="), line
                out.append((key[4:], what))
    return out


class _Silence:
    """Swallow what the code under test prints to stdout (and count nothing)."""

    def __enter__(self):
        self.old = sys.stdout
        sys.stdout = io.StringIO()
        return self

    def __exit__(self, *a):
        sys.stdout = self.old


NO_CASE = {"no case": "cases are made from what the code under test describes"}


def generator_message(e):
    last = traceback.extract_tb(e.__traceback__)[-1]
    return "no cases can be made: %s: %s (at %s:%s)" % (
        type(e).__name__,
        str(e)[:300],
        os.path.basename(last.filename),
        last.name,
    )


def run_generator(check):
    """Whether cases can be made at all."""
    import hypothesis

    from .core import environmental

    def test(case):
        pass

    try:
        hypothesis.settings(max_examples=300, database=None, deadline=None, suppress_health_check=list(hypothesis.HealthCheck))(
            hypothesis.given(check.strategy())(test)
        )()
    except Exception as e:
        if environmental(e):
            raise
        return generator_message(e), None
    return None


def run_shard(pid, check_names, tier, seed, shard, nshards, outfile):
    from .core import Ctx, HarnessError, Violation, case_hash, environmental, run_case

    mod = load_property(pid)
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis.errors import Flaky

    known = {k for k, _ in known_entries(pid)}
    result = {
        "evaluations": 0,
        "hashes": [],
        "classes": {},
        "per_check": {},
        "samples": [],
        "violations": [],
        "known_hits": {},
        "errors": [],
        "budget_hit": False,
    }
    hashes = set()
    deadline = time.monotonic() + (QUICK_BUDGET_S if tier == "quick" else THOROUGH_BUDGET_S)

    def dump():
        result["hashes"] = sorted(hashes)
        tmp = outfile + ".tmp"
        with open(tmp, "w") as f:
            json.dump(result, f, default=repr)
        os.replace(tmp, outfile)

    current = {"check": None, "case": None}

    def on_alarm(signum, frame):
        result["violations"].append(
            {
                "check": current["check"],
                "case": current["case"],
                "message": "did not finish: the operation is still running after its limit",
            }
        )
        dump()
        os._exit(0)

    signal.signal(signal.SIGVTALRM, on_alarm)
    signal.signal(signal.SIGALRM, on_alarm)

    for index, check in enumerate(mod.CHECKS):
        if check_names and check.name not in check_names:
            continue
        total = check.quick if tier == "quick" else check.thorough
        n = total // nshards + (1 if shard < total % nshards else 0)
        state = {"fail": None, "samples": 0, "ran": 0}

        def execute(case, check=check, state=state):
            if time.monotonic() > deadline:
                result["budget_hit"] = True
                return
            ctx = Ctx()
            current["check"], current["case"] = check.name, case
            signal.setitimer(signal.ITIMER_VIRTUAL, check.cpu_limit)
            signal.setitimer(signal.ITIMER_REAL, check.cpu_limit * 6)
            try:
                with _Silence():
                    run_case(check, case, ctx)
            except Violation as v:
                if v.key is not None and v.key in known:
                    result["known_hits"][v.key] = result["known_hits"].get(v.key, 0) + 1
                    return
                state["fail"] = (case, str(v))
                raise
            finally:
                signal.setitimer(signal.ITIMER_VIRTUAL, 0)
                signal.setitimer(signal.ITIMER_REAL, 0)
                result["evaluations"] += 1
                state["ran"] += 1
                for t in ctx.tags:
                    k = check.name + ":" + t
                    result["classes"][k] = result["classes"].get(k, 0) + 1
                if ctx.is_nontrivial:
                    h = check.name + case_hash(case)
                    if h not in hashes:
                        hashes.add(h)
                        state["samples"] += 1
                        if shard == 0 and state["samples"] in (3, 17):
                            text = json.dumps(case, default=repr)
                            result["samples"].append(
                                {"check": check.name, "case": text[:600]}
                            )

        try:
            if shard == 0:
                for case in check.corpus:
                    execute(case)
            if n > 0:

                def test(case):
                    execute(case)

                wrapped = settings(
                    max_examples=n,
                    database=None,
                    deadline=None,
                    derandomize=False,
                    print_blob=False,
                    report_multiple_bugs=False,
                    phases=(Phase.generate,)
                    if os.environ.get("VERIF_NO_SHRINK")
                    else (Phase.generate, Phase.shrink),
                    suppress_health_check=(
                        HealthCheck.too_slow,
                        HealthCheck.data_too_large,
                        HealthCheck.large_base_example,
                    ),
                )(given(check.strategy())(test))
                wrapped = hypothesis.seed(
                    (seed * 1000003 + index * 1009 + shard) & 0x7FFFFFFF
                )(wrapped)
                wrapped()
        except Violation:
            pass
        except HarnessError as e:
            result["errors"].append("%s: %s" % (check.name, e))
        except Flaky as e:
            if state["fail"] is None:
                result["errors"].append("%s: flaky: %s" % (check.name, e))
        except Exception as e:
            if state["fail"] is None:
                if environmental(e):
                    result["errors"].append(
                        "%s: %s" % (check.name, traceback.format_exc()[-3000:])
                    )
                else:
                    state["fail"] = (NO_CASE, generator_message(e))
        if state["fail"] is not None:
            result["violations"].append(
                {
                    "check": check.name,
                    "case": state["fail"][0],
                    "message": state["fail"][1],
                }
            )
        result["per_check"][check.name] = state["ran"]
        if result["violations"]:
            break
    dump()


def _shard_main(*args):
    try:
        devnull = open(os.devnull, "w")
        os.dup2(devnull.fileno(), 2) if not os.environ.get("VERIF_STDERR") else None
        run_shard(*args)
    except BaseException:
        with open(args[-1] + ".err", "w") as f:
            f.write(traceback.format_exc())
        os._exit(3)
    os._exit(0)


def run_property(pid, tier, seed, only=None, nshards=None):
    t0 = time.time()
    mod = load_property(pid)
    if nshards is None:
        nshards = int(os.environ.get("VERIF_SHARDS", "8"))
    tmp = os.environ.get("VERIF_TMP", "/tmp")
    procs = []
    for s in range(nshards):
        out = os.path.join(tmp, "shard-%s-%d-%d.json" % (pid, os.getpid(), s))
        p = multiprocessing.get_context("fork").Process(
            target=_shard_main, args=(pid, only, tier, seed, s, nshards, out)
        )
        p.start()
        procs.append((p, out))
    errors, violations = [], []
    agg = {"evaluations": 0, "classes": {}, "per_check": {}, "samples": [], "known": {}}
    hashes = set()
    budget_hit = False
    for p, out in procs:
        p.join()
        if not os.path.exists(out):
            msg = "shard ended with %s" % p.exitcode
            if os.path.exists(out + ".err"):
                msg += ": " + open(out + ".err").read()[-3000:]
            errors.append(msg)
            continue
        r = json.load(open(out))
        os.unlink(out)
        agg["evaluations"] += r["evaluations"]
        hashes.update(r["hashes"])
        for k, v in r["classes"].items():
            agg["classes"][k] = agg["classes"].get(k, 0) + v
        for k, v in r["per_check"].items():
            agg["per_check"][k] = agg["per_check"].get(k, 0) + v
        for k, v in r["known_hits"].items():
            agg["known"][k] = agg["known"].get(k, 0) + v
        agg["samples"] += r["samples"]
        violations += r["violations"]
        errors += r["errors"]
        budget_hit = budget_hit or r["budget_hit"]
    known_lines = []
    for key, what in known_entries(pid):
        f = os.path.join(VERIF, "known", key + ".json")
        rec = json.load(open(f))
        v = replay_case(pid, rec["check"], rec["case"])
        if v is not None and v[1] == key:
            known_lines.append("KNOWN-FINDING: property=%s %s" % (pid, what))
        elif v is not None:
            violations.append({"check": rec["check"], "case": rec["case"], "message": v[0]})
    evidence = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": agg["evaluations"],
            "distinct_nontrivial": len(hashes),
            "rule": mod.RULE,
            "samples": agg["samples"][:12],
            "classes": dict(sorted(agg["classes"].items())),
            "evaluations_per_check": agg["per_check"],
            "known_finding_hits": agg["known"],
            "budget_hit": budget_hit,
            "shards": nshards,
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", pid + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(evidence, f, indent=1)
    os.replace(path + ".tmp", path)
    for line in known_lines:
        print(line)
    if violations:
        from .core import case_hash

        violations.sort(key=lambda v: len(json.dumps(v["case"], default=repr)))
        seen = set()
        for v in violations:
            if v["check"] in seen:
                continue
            seen.add(v["check"])
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            rp = os.path.join(
                VERIF,
                "replays",
                "%s-%s-%s.json" % (pid, v["check"], case_hash(v["case"])),
            )
            with open(rp, "w") as f:
                json.dump(
                    {
                        "property": pid,
                        "check": v["check"],
                        "case": v["case"],
                        "message": v["message"],
                    },
                    f,
                    indent=1,
                )
            print("  %s/%s: %s" % (pid, v["check"], v["message"][:1500]))
            print("  case: %s" % json.dumps(v["case"], default=repr)[:1500])
            print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if errors:
        for e in errors[:3]:
            print("ERROR %s: %s" % (pid, e), file=sys.stderr)
        return 2
    print(
        "OK property=%s tier=%s seed=%d evaluations=%d distinct_nontrivial=%d wall=%.1fs%s"
        % (
            pid,
            tier,
            seed,
            agg["evaluations"],
            len(hashes),
            time.time() - t0,
            " (time budget reached)" if budget_hit else "",
        )
    )
    return 0


def replay_case(pid, check_name, case):
    """Run one saved case without the library. Returns None or (message, key)."""
    from .core import Ctx, Violation, run_case

    mod = load_property(pid)
    check = next(c for c in mod.CHECKS if c.name == check_name)
    if case == NO_CASE:
        return run_generator(check)
    try:
        with _Silence():
            run_case(check, case, Ctx())
    except Violation as v:
        return str(v), v.key
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only", action="append")
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.replay:
        rec = json.load(open(a.replay))
        v = replay_case(rec["property"], rec["check"], rec["case"])
        if v is None:
            print("replay: holds")
            return 0
        print("replay: %s" % v[0])
        print("VIOLATION property=%s replay=%s" % (rec["property"], a.replay))
        return 1
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    return run_property(a.property, a.tier, seed, only=a.only)


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
