"""Property-based-testing runner: generation, oracle evaluation, shrinking, replay files, evidence.

A property module (pbt/props/cNN.py) exposes

    ID     -- property id
    RULE   -- how cases are made and what makes one non-trivial
    SUBS   -- list of Sub(name, strategy_factory, check, quick, thorough)

Every strategy yields a plain JSON value ("spec"); `check(spec, case)` builds real kMCpy objects from
it, drives them and compares with an oracle written here.  An oracle disagreement raises Violation
(via `require`).  An exception escaping from kMCpy code on an input the property says is valid is a
violation too; an exception that never passed through kMCpy is an error of the harness (exit 3).
"""
import copy
import hashlib
import json
import os
import sys
import tempfile
import time
import traceback
import zlib

REPO = "/repo"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MUTATED_SHARE = 0.05
SHRINK_SECONDS = 45


class Violation(AssertionError):
    """The code under test disagreed with the oracle."""


UNREADABLE = (LookupError, ValueError, TypeError, AttributeError, ArithmeticError, EOFError, FileNotFoundError)


class HarnessError(Exception):
    """Something is wrong with the check itself."""


def require(cond, msg, **details):
    if not cond:
        if details:
            msg = msg + " | " + ", ".join(f"{k}={v!r}" for k, v in details.items())
        raise Violation(msg)


class Case:
    """Per-case bookkeeping handed to check functions."""

    def __init__(self, scratch):
        self.is_nontrivial = False
        self.labels = []
        self._scratch = scratch
        self._n = 0

    def nontrivial(self, flag=True):
        if flag:
            self.is_nontrivial = True

    def label(self, name, flag=True):
        if flag:
            self.labels.append(name)

    def tmp(self):
        """A fresh directory inside this run's scratch folder."""
        self._n += 1
        return tempfile.mkdtemp(prefix="case-", dir=self._scratch)


class Sub:
    def __init__(self, name, strategy, check, quick, thorough=None, budget=None, shrink=True):
        self.name = name
        self.strategy = strategy
        self.check = check
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 10
        self.budget = budget
        self.shrink = shrink


class Stats:
    def __init__(self):
        self.evaluations = 0
        self.hashes = set()
        self.nontrivial_hashes = set()
        self.labels = {}
        self.samples = []
        self.skipped = 0
        self.per_sub = {}

    def add(self, sub, spec, case):
        self.evaluations += 1
        row = self.per_sub.setdefault(sub, {"evaluations": 0, "nontrivial": 0})
        row["evaluations"] += 1
        text = json.dumps(spec, sort_keys=True, default=str)
        digest = hashlib.sha1((sub + text).encode()).hexdigest()[:16]
        self.hashes.add(digest)
        if case.is_nontrivial:
            row["nontrivial"] += 1
            if digest not in self.nontrivial_hashes:
                self.nontrivial_hashes.add(digest)
                have = sum(1 for s in self.samples if s["check"] == sub)
                if have < 2 and len(text) < 6000:
                    self.samples.append({"check": sub, "case": spec})
        for label in case.labels:
            key = f"{sub}:{label}"
            self.labels[key] = self.labels.get(key, 0) + 1


def from_kmcpy(exc):
    tb = exc.__traceback__
    while tb is not None:
        if os.path.abspath(tb.tb_frame.f_code.co_filename).startswith(REPO + "/kmcpy"):
            return True
        tb = tb.tb_next
    for nested in (exc.__cause__, exc.__context__):
        if nested is not None and nested is not exc and not isinstance(nested, Violation):
            if from_kmcpy(nested):
                return True
    return False


def note_current(sub, spec):
    """Tell the supervising process which case is about to run, in case the interpreter dies in it."""
    path = os.environ.get("VERIF_CURRENT")
    if path:
        with open(path + ".new", "w") as fh:
            json.dump({"check": sub.name, "spec": spec, "cpu": time.process_time()}, fh, default=str)
        os.replace(path + ".new", path)


def run_case(sub, spec, scratch):
    """Run one case; returns (case, violation message or None).  Raises HarnessError."""
    case = Case(scratch)
    before = os.getcwd()
    note_current(sub, spec)
    try:
        os.chdir(scratch)
        sub.check(copy.deepcopy(spec), case)
        return case, None
    except Violation as exc:
        return case, str(exc)
    except Exception as exc:  # noqa: BLE001
        name = type(exc).__name__
        if name in ("UnsatisfiedAssumption", "StopTest", "Frozen"):
            raise
        if from_kmcpy(exc):
            last = traceback.format_exception_only(type(exc), exc)[-1].strip()
            return case, f"unexpected exception on a valid input: {last}"
        if isinstance(exc, UNREADABLE):
            # What the code returned or wrote does not have the documented shape: the oracle could not read it.
            last = traceback.format_exception_only(type(exc), exc)[-1].strip()
            where = traceback.extract_tb(exc.__traceback__)[-1]
            return case, f"a result the check cannot read ({os.path.basename(where.filename)}:{where.lineno}): {last}"
        raise HarnessError(
            f"{sub.name}: " + "".join(traceback.format_exception(type(exc), exc, exc.__traceback__))
        ) from exc
    finally:
        os.chdir(before)


def independent_cases(engine):
    """By default most hypothesis cases are mutations of the previous one; keep those to a minority."""
    runner = engine.ConjectureRunner
    if hasattr(runner, "pbt_mutate") or not hasattr(runner, "generate_mutations_from"):
        return
    runner.pbt_mutate = runner.generate_mutations_from

    def sometimes(self, data):
        if self.random.random() < MUTATED_SHARE:
            self.pbt_mutate(data)

    runner.generate_mutations_from = sometimes


def explore(sub, n, seed, stats, scratch, deadline):
    """Search `sub` for a counterexample. Returns (spec, message) or None."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    import hypothesis.internal.conjecture.engine as engine

    engine.MAX_SHRINKING_SECONDS = SHRINK_SECONDS
    independent_cases(engine)
    found = {}

    phases = [Phase.generate] + ([Phase.shrink] if sub.shrink else [])

    @hypothesis.seed(seed)
    @settings(
        max_examples=n,
        database=None,
        deadline=None,
        derandomize=False,
        report_multiple_bugs=False,
        suppress_health_check=list(HealthCheck),
        phases=phases,
        print_blob=False,
    )
    @given(sub.strategy())
    def test(spec):
        if not found and time.time() > deadline:
            stats.skipped += 1
            return
        case, message = run_case(sub, spec, scratch)
        if not found:
            stats.add(sub.name, spec, case)
        if message is not None:
            found["spec"] = copy.deepcopy(spec)
            found["message"] = message
            # Constant text: hypothesis must see one bug while it shrinks.
            raise Violation("violation")

    try:
        test()
    except HarnessError:
        raise
    except BaseException as exc:  # noqa: BLE001
        if isinstance(exc, (KeyboardInterrupt, SystemExit)):
            raise
        if not found:
            cause = exc
            raise HarnessError(
                f"{sub.name}: "
                + "".join(traceback.format_exception(type(cause), cause, cause.__traceback__))
            ) from exc
    if found:
        return found["spec"], found["message"]
    return None


def sub_seed(name, seed, worker):
    return zlib.crc32(f"{name}|{seed}|{worker}".encode())


def write_replay(prop, sub, spec, message):
    folder = os.path.join(VERIF, "replays")
    os.makedirs(folder, exist_ok=True)
    path = os.path.join(folder, f"{prop}-{sub}.json")
    with open(path, "w") as fh:
        json.dump({"property": prop, "check": sub, "spec": spec, "message": message}, fh, indent=1,
                  default=str)
        fh.write("\n")
    return path


def eprint(*args):
    print(*args, file=sys.stderr, flush=True)
