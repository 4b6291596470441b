"""Generated-input search engine shared by all properties.

A property module (props/cXX.py) registers *tests*.  A test is a pair (strategy, check):
- the strategy (Hypothesis) generates a JSON-serialisable case, holding every random choice, and
- the check runs the code under test on the case and compares what it observes to an oracle.

The runner shards tests over forked workers, seeds every shard from VERIF_SEED, lets Hypothesis
shrink any failure, and saves the shrunk case as a plain JSON replay file.
"""

from __future__ import annotations

import argparse
import collections
import hashlib
import importlib
import json
import os
import random
import signal
import sys
import time
import traceback
from typing import Any, Callable

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.realpath(os.environ.get("VERIF_REPO", "/repo"))
VT_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
SCRATCH = os.environ.get("VLIB_SCRATCH", "/tmp")
CPU_LIMIT_PER_CASE = float(os.environ.get("VLIB_CASE_CPU", "150"))  # seconds of CPU time
NUM_WORKERS = int(os.environ.get("VLIB_WORKERS", "8"))

sys.path.insert(0, REPO)
if VT_SITE not in sys.path:
    sys.path.append(VT_SITE)


class Violation(AssertionError):
    """The code under test broke the property."""


class CaseHang(BaseException):
    """A case used far more CPU time than any case on a tree where the property holds."""


class Context:
    """What a check reports about one case."""

    def __init__(self) -> None:
        self.labels: set[str] = set()
        self.is_nontrivial = False
        self.steps = 0

    def label(self, *names: str) -> None:
        self.labels.update(names)

    def nontrivial(self, condition: Any = True) -> None:
        self.is_nontrivial = self.is_nontrivial or bool(condition)

    def require(self, condition: Any, message: str, *details: Any) -> None:
        if not condition:
            raise Violation(message + "".join(f" | {_short(d)}" for d in details))

    def equal(self, got: Any, expected: Any, message: str) -> None:
        import numpy as np

        if isinstance(got, np.ndarray) or isinstance(expected, np.ndarray):
            got_a, exp_a = np.asarray(got), np.asarray(expected)
            same = got_a.shape == exp_a.shape and bool(np.all(got_a == exp_a))
        else:
            same = got == expected
        if not same:
            raise Violation(f"{message} | got {_short(got)} | expected {_short(expected)}")

    def raises(self, kinds: Any, func: Callable[[], Any], message: str) -> None:
        """Require an error of the documented kind."""
        try:
            value = func()
        except kinds:
            return
        raise Violation(f"{message} | returned {_short(value)} instead of raising")


def _short(obj: Any, limit: int = 600) -> str:
    try:
        text = repr(obj)
    except Exception as error:  # pragma: no cover
        text = f"<unprintable: {error}>"
    return text if len(text) <= limit else text[:limit] + "..."


class Test:
    def __init__(
        self,
        name: str,
        check: Callable[[Any, Context], None],
        strategy: Callable[[], Any] | None,
        cases: Callable[[str], list[Any]] | None,
        quick: int,
        thorough: int,
        shards: int,
    ) -> None:
        self.name = name
        self.check = check
        self.strategy = strategy
        self.cases = cases
        self.quick = quick
        self.thorough = thorough
        self.shards = shards


class Property:
    def __init__(self, pid: str, rule: str, assumptions: list[str] | None = None) -> None:
        self.pid = pid
        self.rule = rule
        self.assumptions = assumptions or []
        self.tests: dict[str, Test] = {}
        self.warmup: Callable[[], None] | None = None

    def test(
        self,
        strategy: Callable[[], Any] | None = None,
        *,
        cases: Callable[[str], list[Any]] | None = None,
        quick: int = 400,
        thorough: int | None = None,
        shards: int = 2,
    ) -> Callable[[Callable[[Any, Context], None]], Callable[[Any, Context], None]]:
        """Register a check with generated cases (strategy) or an enumerated space (cases(tier))."""

        def register(check: Callable[[Any, Context], None]) -> Callable[[Any, Context], None]:
            name = check.__name__
            assert name not in self.tests
            self.tests[name] = Test(
                name, check, strategy, cases, quick, thorough or 12 * quick, shards
            )
            return check

        return register


####################################################################################################
# running single cases


def canonical(case: Any) -> str:
    return json.dumps(case, sort_keys=True, separators=(",", ":"))


def in_code_under_test(error: BaseException) -> bool:
    """Did the exception pass through the code under test?"""
    tb = error.__traceback__
    prefix = REPO + os.sep
    while tb is not None:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(prefix):
            return True
        tb = tb.tb_next
    return False


def reset_state(text: str) -> None:
    """Make the outcome of a case a function of the case alone."""
    import numpy as np

    seed = int.from_bytes(hashlib.sha256(text.encode()).digest()[:4], "big")
    random.seed(seed)
    np.random.seed(seed)


def _patch_default_rng() -> None:
    """Route entropy-seeded generators through numpy's global state, which reset_state controls."""
    import numpy as np

    original = np.random.default_rng

    def default_rng(seed: Any = None) -> Any:
        if seed is None:
            seed = np.random.randint(2**31)
        return original(seed)

    np.random.default_rng = default_rng


def _on_timer(signum: int, frame: Any) -> None:
    raise CaseHang()


def run_case(test: Test, case: Any) -> tuple[Context, str | None]:
    """Run one case.  Returns the context, and the description of the violation (if any).

    Exceptions raised by harness code alone propagate: they are errors of the harness.
    """
    context = Context()
    text = canonical(case)
    case = json.loads(text)  # checks only ever see plain, private data
    reset_state(text)
    signal.signal(signal.SIGVTALRM, _on_timer)
    signal.setitimer(signal.ITIMER_VIRTUAL, CPU_LIMIT_PER_CASE)
    try:
        test.check(case, context)
    except Violation as violation:
        return context, str(violation)
    except CaseHang:
        return context, f"HANG: no result within {CPU_LIMIT_PER_CASE:.0f} s of CPU time"
    except Exception as error:
        if in_code_under_test(error):
            where = traceback.extract_tb(error.__traceback__)
            last = [f for f in where if os.path.realpath(f.filename).startswith(REPO + os.sep)][-1]
            return context, (
                f"unexpected {type(error).__name__} in the code under test: {_short(str(error))}"
                f" (at {os.path.relpath(last.filename, REPO)}, in {last.name})"
            )
        raise
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    return context, None


####################################################################################################
# workers


class _Failed(Exception):
    """Tells Hypothesis that a case failed."""


def _worker(prop: Property, test: Test, shard: int, num_shards: int, seed: int, tier: str) -> dict:
    import hypothesis
    from hypothesis import HealthCheck, Phase

    stats: dict[str, Any] = {
        "test": test.name,
        "evaluations": 0,
        "nontrivial": [],
        "labels": collections.Counter(),
        "samples": [],
        "failure": None,
        "error": None,
    }
    nontrivial: set[str] = set()
    result_path = os.path.join(SCRATCH, f"fail-{test.name}-{shard}.json")
    searching = True

    def evaluate(case: Any) -> None:
        nonlocal searching
        context, message = run_case(test, case)
        if searching:
            stats["evaluations"] += 1
            stats["labels"].update(context.labels)
            if context.is_nontrivial:
                text = canonical(case)
                digest = hashlib.sha256(text.encode()).hexdigest()[:16]
                if digest not in nontrivial:
                    nontrivial.add(digest)
                    if len(stats["samples"]) < 3 and len(text) < 1500:
                        stats["samples"].append({"test": test.name, "case": case})
        if message is not None:
            searching = False
            stats["failure"] = {"test": test.name, "case": case, "message": message}
            with open(result_path, "w") as file:
                json.dump(stats["failure"], file)
            if message.startswith("HANG"):
                # shrinking a hang would take forever
                stats["nontrivial"] = sorted(nontrivial)
                raise CaseHang()
            raise _Failed(message)

    try:
        if test.cases is not None:
            all_cases = test.cases(tier)
            for case in all_cases[shard::num_shards]:
                evaluate(case)
        else:
            assert test.strategy is not None
            budget = test.quick if tier == "quick" else test.thorough
            budget = max(1, budget // num_shards)
            digest = hashlib.sha256(f"{seed}/{prop.pid}/{test.name}/{shard}".encode()).digest()

            @hypothesis.seed(int.from_bytes(digest[:8], "big"))
            @hypothesis.settings(
                max_examples=budget,
                database=None,
                deadline=None,
                phases=(Phase.generate, Phase.shrink),
                report_multiple_bugs=False,
                suppress_health_check=list(HealthCheck),
                print_blob=False,
                verbosity=hypothesis.Verbosity.quiet,
            )
            @hypothesis.given(test.strategy())
            def search(case: Any) -> None:
                evaluate(case)

            search()
    except (_Failed, CaseHang):
        pass
    except Exception as error:
        if stats["failure"] is None:
            stats["error"] = "".join(traceback.format_exception(error))
        # else: the shrinker stumbled (e.g. flaky outcome), but a violation was observed
    stats["nontrivial"] = sorted(nontrivial)
    stats["labels"] = dict(stats["labels"])
    return stats


def _run_tasks(
    prop: Property, tasks: list[tuple[Test, int, int]], seed: int, tier: str, budget: float
) -> tuple[list[dict], bool]:
    """Run all tasks in forked workers.  Returns results, and whether everything completed."""
    pending = list(enumerate(tasks))
    running: dict[int, tuple[int, float]] = {}
    results: dict[int, dict] = {}
    start = time.time()
    complete = True
    stop = False
    sys.stdout.flush()
    sys.stderr.flush()
    while running or (pending and not stop):
        while pending and not stop and len(running) < NUM_WORKERS:
            index, (test, shard, num_shards) = pending.pop(0)
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    out = _worker(prop, test, shard, num_shards, seed, tier)
                    path = os.path.join(SCRATCH, f"result-{index}.json")
                    with open(path + ".tmp", "w") as file:
                        json.dump(out, file)
                    os.rename(path + ".tmp", path)
                except BaseException:
                    traceback.print_exc()
                    code = 1
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(code)
            running[pid] = (index, time.time())
        done = []
        while True:
            try:
                pid, status = os.waitpid(-1, os.WNOHANG)
            except ChildProcessError:
                break
            if pid == 0:
                break
            if pid in running:
                done.append((pid, status))
        for pid, status in done:
            index, _ = running.pop(pid)
            path = os.path.join(SCRATCH, f"result-{index}.json")
            if os.path.exists(path):
                with open(path) as file:
                    results[index] = json.load(file)
                if os.environ.get("VLIB_VERBOSE"):
                    test, shard, num_shards = tasks[index]
                    res = results[index]
                    print(
                        f"  [{time.time() - start:6.1f}s] {test.name}#{shard}"
                        f" took {time.time() - _:.1f}s n={res['evaluations']}"
                        f" nontrivial={len(res['nontrivial'])} labels={res['labels']}",
                        flush=True,
                    )
            else:
                test, shard, _n = tasks[index]
                fail_path = os.path.join(SCRATCH, f"fail-{test.name}-{shard}.json")
                failure = None
                if os.path.exists(fail_path):
                    with open(fail_path) as file:
                        failure = json.load(file)
                results[index] = {
                    "test": test.name,
                    "evaluations": 0,
                    "nontrivial": [],
                    "labels": {},
                    "samples": [],
                    "failure": failure,
                    "error": None if failure else f"worker ended with status {status}",
                }
            if results[index]["failure"] and not results[index]["error"]:
                stop = True  # one violation decides the check
        if stop and running:
            # give the other workers no more time than needed to read their state
            for pid in list(running):
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                running.pop(pid)
            break
        if time.time() - start > budget:
            complete = False
            for pid, (index, _t) in list(running.items()):
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                running.pop(pid)
                test, shard, _n = tasks[index]
                fail_path = os.path.join(SCRATCH, f"fail-{test.name}-{shard}.json")
                if os.path.exists(fail_path):
                    with open(fail_path) as file:
                        failure = json.load(file)
                    results[index] = {
                        "test": test.name,
                        "evaluations": 0,
                        "nontrivial": [],
                        "labels": {},
                        "samples": [],
                        "failure": failure,
                        "error": None,
                    }
            break
        time.sleep(0.02)
    return [results[index] for index in sorted(results)], complete


####################################################################################################
# known findings


def load_known(pid: str) -> list[dict]:
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as file:
        entries = json.load(file)["findings"]
    return [entry for entry in entries if entry["property"] == pid]


####################################################################################################
# main


def main(argv: list[str]) -> int:
    try:
        return _main(argv)
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        print("HARNESS-ERROR")
        return 2


def _main(argv: list[str]) -> int:
    parser = argparse.ArgumentParser()
    parser.add_argument("property")
    parser.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    parser.add_argument("--replay", default=None)
    parser.add_argument("--only", default=None, help="comma-separated test names (development)")
    parser.add_argument("--budget", type=float, default=None)
    args = parser.parse_args(argv)
    tier = args.tier if args.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    start = time.time()

    import warnings

    warnings.simplefilter("ignore")
    _patch_default_rng()
    try:
        import qldpc
    except Exception as error:
        if not in_code_under_test(error):
            raise
        # every property needs an importable package, but a broken build is not for us to judge
        traceback.print_exc()
        print("HARNESS-ERROR: the package cannot be imported")
        return 2
    assert os.path.realpath(qldpc.__file__).startswith(REPO + os.sep), qldpc.__file__
    module = importlib.import_module(f"props.{args.property.lower()}")
    prop: Property = module.PROP

    if args.replay:
        with open(args.replay) as file:
            replay = json.load(file)
        if replay["property"] != prop.pid:
            raise ValueError("this replay file belongs to another property")
        _, message = run_case(prop.tests[replay["test"]], replay["case"])
        if message is None:
            print(f"replay passes: {replay['test']}")
            return 0
        print(message)
        print(f"VIOLATION property={prop.pid} replay={args.replay}")
        return 1

    # known findings: run each recorded reproduction
    known_failing = 0
    for entry in load_known(prop.pid):
        _, message = run_case(prop.tests[entry["test"]], entry["case"])
        if message is not None:
            known_failing += 1
            print(f"KNOWN-FINDING: property={prop.pid} {entry['what']}")

    if prop.warmup is not None:
        prop.warmup()

    only = args.only.split(",") if args.only else None
    tasks: list[tuple[Test, int, int]] = []
    for test in prop.tests.values():
        if only and test.name not in only:
            continue
        if (
            test.cases is None
            and (test.quick if tier == "quick" else test.thorough) <= 0
        ):
            continue  # a test that only serves recorded reproductions
        num_shards = test.shards if tier == "quick" else max(8, test.shards)
        tasks += [(test, shard, num_shards) for shard in range(num_shards)]
    # interleave shards of different tests, first shards first
    tasks.sort(key=lambda task: task[1])
    budget = args.budget or (780.0 if tier == "quick" else 6 * 3600.0)
    results, complete = _run_tasks(prop, tasks, seed, tier, budget)

    evaluations = sum(r["evaluations"] for r in results)
    per_test: dict[str, dict] = {}
    distinct: set[str] = set()
    labels: dict[str, collections.Counter] = {}
    samples: list[Any] = []
    failures, errors = [], []
    for res in results:
        entry = per_test.setdefault(res["test"], {"evaluations": 0, "distinct_nontrivial": 0})
        entry["evaluations"] += res["evaluations"]
        new = {res["test"] + ":" + digest for digest in res["nontrivial"]}
        entry["distinct_nontrivial"] += len(new - distinct)
        distinct |= new
        labels.setdefault(res["test"], collections.Counter()).update(res["labels"])
        if sum(s["test"] == res["test"] for s in samples) < 2:
            samples += res["samples"][:1]
        if res["failure"]:
            failures.append(res["failure"])
        if res["error"]:
            errors.append((res["test"], res["error"]))

    evidence = {
        "property": prop.pid,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(distinct),
            "rule": prop.rule,
            "samples": samples[:24],
            "per_test": per_test,
            "labels": {name: dict(counter) for name, counter in labels.items()},
            "known_findings_reproduced": known_failing,
            "search_completed": complete,
        },
        "assumptions": prop.assumptions,
        "wall_s": round(time.time() - start, 2),
        "violations": len(failures),
    }
    if not only:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        path = os.path.join(VERIF, "evidence", f"{prop.pid}.json")
        with open(path + ".tmp", "w") as file:
            json.dump(evidence, file, indent=1)
        os.rename(path + ".tmp", path)

    for name, text in errors:
        print(f"HARNESS-ERROR in {name}:\n{text}")
    if failures:
        failure = min(failures, key=lambda f: len(canonical(f["case"])))
        digest = hashlib.sha256(canonical(failure["case"]).encode()).hexdigest()[:10]
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        path = os.path.join(VERIF, "replays", f"{prop.pid}-{failure['test']}-{digest}.json")
        with open(path, "w") as file:
            json.dump({"property": prop.pid, **failure}, file, indent=1)
        print(f"{failure['test']}: {failure['message']}")
        print(f"case: {_short(canonical(failure['case']), 1200)}")
        print(f"VIOLATION property={prop.pid} replay={path}")
        return 1
    if errors:
        return 2
    if not complete:
        print(f"INCONCLUSIVE: the budget of {budget:.0f} s ran out")
        return 3
    print(
        f"{prop.pid}: held on {evaluations} cases"
        f" ({len(distinct)} distinct non-trivial) in {time.time() - start:.1f} s"
    )
    return 0
