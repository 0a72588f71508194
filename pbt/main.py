import importlib
import json
import logging
import os
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, "/repo")

import deps  # noqa: E402

deps.ensure()

import harness  # noqa: E402
from harness import HarnessError, Stats, eprint  # noqa: E402

VERIF = harness.VERIF
QUICK_BUDGET = float(os.environ.get("VERIF_BUDGET", "150"))
THOROUGH_BUDGET = float(os.environ.get("VERIF_BUDGET", "700"))
LEVEL = "exploration"


def parse(argv):
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    only = None
    rest = list(argv[1:])
    while rest:
        item = rest.pop(0)
        if item in ("quick", "thorough"):
            tier = item
        elif item == "--replay":
            replay = rest.pop(0)
        elif item == "--only":
            only = rest.pop(0)
        else:
            raise SystemExit(f"unknown argument {item}")
    return prop, tier, replay, only


def load(prop):
    import kmcpy

    where = os.path.realpath(kmcpy.__file__)
    if not where.startswith("/repo/"):
        raise HarnessError(f"kmcpy imported from {where}, not /repo")
    logging.disable(logging.CRITICAL)
    return importlib.import_module("props." + prop.lower())


def known_findings(prop):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as fh:
        data = json.load(fh)
    return [f for f in data.get("findings", []) if f["property"] == prop]


def run_worker(module, tier, seed, worker, scratch, only=None):
    """Returns (stats, failure or None)."""
    stats = Stats()
    start = time.time()
    budget = QUICK_BUDGET if tier == "quick" else THOROUGH_BUDGET
    subs = [s for s in module.SUBS if only is None or s.name == only]
    weights = [max(1, s.quick) for s in subs]
    for index, sub in enumerate(subs):
        n = sub.quick if tier == "quick" else sub.thorough
        # leave every later sub-check its share of what is left of the time budget
        left = budget - (time.time() - start)
        share = left if index == len(subs) - 1 else left / max(1, min(3, len(subs) - index))
        del weights[:1]
        t0 = time.time()
        failure = harness.explore(
            sub, n, harness.sub_seed(sub.name, seed, worker), stats, scratch, time.time() + max(5.0, share)
        )
        row = stats.per_sub.setdefault(sub.name, {"evaluations": 0, "nontrivial": 0})
        row["wall_s"] = round(time.time() - t0, 2)
        if failure is not None:
            return stats, (sub.name,) + failure
    return stats, None


def finish(prop, tier, seed, module, stats, failure, wall, findings_seen):
    violations = 1 if failure else 0
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": LEVEL,
        "coverage": {
            "evaluations": stats.evaluations,
            "distinct_nontrivial": len(stats.nontrivial_hashes),
            "rule": module.RULE,
            "samples": stats.samples[:8],
            "distinct_cases": len(stats.hashes),
            "per_check": stats.per_sub,
            "labels": dict(sorted(stats.labels.items())),
            "skipped_over_time_budget": stats.skipped,
            "known_findings_reproduced": findings_seen,
        },
        "assumptions": getattr(module, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2),
        "violations": violations,
    }
    folder = os.path.join(VERIF, "evidence")
    os.makedirs(folder, exist_ok=True)
    with open(os.path.join(folder, f"{prop}.json"), "w") as fh:
        json.dump(evidence, fh, indent=1, default=str)
        fh.write("\n")


CRASHES = {-signal.SIGSEGV, -signal.SIGBUS, -signal.SIGABRT, -signal.SIGFPE, -signal.SIGILL}
HANG = "hang"
MEMORY_LIMIT = 12 << 30  # address space of one worker; cases need well under one GB
CASE_CPU_LIMIT = 300.0  # seconds of processor time; cases take well under ten


def cpu_seconds(pid):
    with open(f"/proc/{pid}/stat") as fh:
        fields = fh.read().rsplit(")", 1)[1].split()
    return (int(fields[11]) + int(fields[12])) / os.sysconf("SC_CLK_TCK")


def watch(proc, current):
    """Wait for a worker; returns its exit code, or HANG when one case uses far too much processor time."""
    while True:
        try:
            return proc.wait(timeout=2)
        except subprocess.TimeoutExpired:
            pass
        try:
            with open(current) as fh:
                began = json.load(fh)["cpu"]
            if cpu_seconds(proc.pid) - began > CASE_CPU_LIMIT:
                proc.kill()
                proc.wait()
                return HANG
        except (OSError, ValueError, KeyError, IndexError):
            continue


def crashed(current, code):
    with open(current) as fh:
        data = json.load(fh)
    what = "does not finish" if code == HANG else f"the interpreter died with signal {-code}"
    return data["check"], data["spec"], f"{what} on a valid input"


def supervise():
    """Run the check in a child process, so that a crash inside compiled code becomes a reported violation."""
    prop, tier, replay, only = parse(sys.argv[1:])
    folder = tempfile.mkdtemp(prefix=f"kmcpy-pbt-sup-{prop}-")
    current = os.path.join(folder, "current.json")
    start = time.time()
    try:
        proc = subprocess.Popen([sys.executable, "-W", "ignore", os.path.join(HERE, "main.py")] + sys.argv[1:],
                                env=dict(os.environ, VERIF_SUPERVISED="1", VERIF_CURRENT=current))
        code = watch(proc, current)
        if code not in CRASHES and code != HANG:
            return code if code >= 0 else 3
        try:
            name, spec, message = crashed(current, code)
        except (OSError, ValueError, KeyError):
            eprint(f"HARNESS ERROR ({prop}): died with {code} before the first case")
            return 3
        if replay:
            path = os.path.abspath(replay)
        else:
            module = load(prop)
            stats = Stats()
            stats.evaluations = 1
            finish(prop, tier, int(os.environ.get("VERIF_SEED", "1")), module, stats, (name, spec, message),
                   time.time() - start, [])
            path = harness.write_replay(prop, name, spec, message)
        print(f"{prop}/{name}: {message}")
        print(f"VIOLATION property={prop} replay={path}", flush=True)
        return 1
    finally:
        shutil.rmtree(folder, ignore_errors=True)


def main():
    prop, tier, replay, only = parse(sys.argv[1:])
    seed = int(os.environ.get("VERIF_SEED", "1"))
    worker = int(os.environ.get("VERIF_WORKER", "0"))
    worker_out = os.environ.get("VERIF_WORKER_OUT")
    start = time.time()
    scratch = tempfile.mkdtemp(prefix=f"kmcpy-pbt-{prop}-")
    procs = []
    try:
        # a case that asks for absurd amounts of memory fails as a case, not by ending the whole check
        resource.setrlimit(resource.RLIMIT_AS, (MEMORY_LIMIT, MEMORY_LIMIT))
        module = load(prop)
        subs = {s.name: s for s in module.SUBS}

        if replay:
            with open(replay) as fh:
                data = json.load(fh)
            _, message = harness.run_case(subs[data["check"]], data["spec"], scratch)
            if message is None:
                print(f"replay {replay}: property {prop} holds on this case")
                return 0
            print(f"replay {replay}: {message}")
            print(f"VIOLATION property={prop} replay={os.path.abspath(replay)}")
            return 1

        findings_seen = []
        if worker == 0:
            for finding in known_findings(prop):
                sub = subs.get(finding["check"]) or {s.name: s for s in getattr(module, "FINDING_SUBS", [])}[
                    finding["check"]]
                _, message = harness.run_case(sub, finding["spec"], scratch)
                if message is not None:
                    findings_seen.append(finding["id"])
                    print(f"KNOWN-FINDING: property={prop} {finding['id']}: {finding['text']}", flush=True)

        if tier == "thorough" and worker == 0 and worker_out is None:
            for k in range(1, int(os.environ.get("VERIF_JOBS", "7")) + 1):
                out = os.path.join(scratch, f"worker-{k}.json")
                env = dict(os.environ, VERIF_WORKER=str(k), VERIF_WORKER_OUT=out, VERIF_TIER=tier,
                           VERIF_SEED=str(seed), VERIF_CURRENT=out + ".current")
                args = [sys.executable, "-W", "ignore", os.path.join(HERE, "main.py"), prop, tier]
                if only:
                    args += ["--only", only]
                procs.append((out, subprocess.Popen(args, env=env, cwd=VERIF)))

        stats, failure = run_worker(module, tier, seed, worker, scratch, only)

        if worker_out:
            with open(worker_out, "w") as fh:
                json.dump({
                    "evaluations": stats.evaluations, "hashes": sorted(stats.hashes),
                    "nontrivial": sorted(stats.nontrivial_hashes), "labels": stats.labels,
                    "samples": stats.samples[:2], "skipped": stats.skipped, "per_sub": stats.per_sub,
                    "failure": failure,
                }, fh, default=str)
            return 0

        for out, proc in procs:
            code = watch(proc, out + ".current")
            if code in CRASHES or code == HANG:
                if failure is None:
                    failure = crashed(out + ".current", code)
                continue
            if code != 0:
                raise HarnessError(f"worker exited with {code}")
            with open(out) as fh:
                part = json.load(fh)
            stats.evaluations += part["evaluations"]
            stats.hashes.update(part["hashes"])
            stats.nontrivial_hashes.update(part["nontrivial"])
            stats.skipped += part["skipped"]
            for key, value in part["labels"].items():
                stats.labels[key] = stats.labels.get(key, 0) + value
            for name, row in part["per_sub"].items():
                mine = stats.per_sub.setdefault(name, {"evaluations": 0, "nontrivial": 0, "wall_s": 0})
                for key in ("evaluations", "nontrivial"):
                    mine[key] += row[key]
            if failure is None and part["failure"]:
                failure = tuple(part["failure"])

        wall = time.time() - start
        finish(prop, tier, seed, module, stats, failure, wall, findings_seen)
        if failure:
            name, spec, message = failure
            path = harness.write_replay(prop, name, spec, message)
            print(f"{prop}/{name}: {message}")
            print(f"minimal case: {json.dumps(spec, default=str)[:2000]}")
            print(f"VIOLATION property={prop} replay={path}", flush=True)
            return 1
        print(
            f"{prop}: held on {stats.evaluations} cases ({len(stats.nontrivial_hashes)} distinct non-trivial) "
            f"in {wall:.1f}s [seed {seed}, {tier}]"
        )
        return 0
    except HarnessError as exc:
        eprint(f"HARNESS ERROR ({prop}): {exc}")
        return 3
    except Exception:  # noqa: BLE001
        eprint(f"HARNESS ERROR ({prop}):\n{traceback.format_exc()}")
        return 3
    finally:
        for _, proc in procs:
            if proc.poll() is None:
                proc.kill()
        os.chdir(VERIF)
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    code = main() if os.environ.get("VERIF_SUPERVISED") else supervise()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
