"""Common runner for the property checks.

A check module (checks/pNN_*.py) defines PROPERTY, RULE and SUBS. Each sub-check is a
Hypothesis strategy producing one *case* (plain data and/or moz.l10n model objects) and a
function `check(case, ctx)` that raises when the property is violated by that case.

Cases are spread over worker processes. Everything is a function of VERIF_SEED and of the
code under test. Failing cases are shrunk by Hypothesis and written to a replay file, which
`verify.py <ID> --replay FILE` runs again without Hypothesis.
"""

from __future__ import annotations

import base64
import collections
import hashlib
import importlib
import json
import os
import pickle
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings
from concurrent.futures import ProcessPoolExecutor, as_completed
from concurrent.futures.process import BrokenProcessPool
from dataclasses import dataclass, field
from pathlib import Path
from typing import Any, Callable

VERIF = Path(__file__).resolve().parent.parent
REPO = os.environ.get("VERIF_REPO", "/repo")
SHARDS = 8
CASE_CPU_LIMIT = 40.0  # seconds of CPU for one (tiny) case: beyond that it does not terminate


class Violation(AssertionError):
    """The property does not hold for the case at hand."""


class _Hang(BaseException):
    """One case used up its CPU allowance; not an Exception, so that neither the check
    nor the code under test handles it."""


class _Stop(BaseException):
    """Another shard has found a violation, or the time budget is used up."""


class HarnessError(Exception):
    """Something is wrong with the machinery, not with the code under test."""


@dataclass
class Sub:
    name: str
    strategy: Any  # a Hypothesis strategy, or a callable returning one
    check: Callable[[Any, "Ctx"], None]
    quick: int
    thorough: int = 0
    rule: str = ""
    cpu_limit: float = CASE_CPU_LIMIT

    def count(self, tier: str) -> int:
        if tier == "thorough":
            return self.thorough or self.quick * 20
        return self.quick


class Ctx:
    """Per-shard statistics, and a scratch directory."""

    def __init__(self, scratch: str = "") -> None:
        self.evaluations = 0
        self.keys: set[bytes] = set()
        self.labels: collections.Counter[str] = collections.Counter()
        self.samples: list[str] = []
        self.scratch = scratch
        self.skipped = 0
        self._n = 0
        self._case: Any = None

    def label(self, *names: str) -> None:
        for name in names:
            self.labels[name] += 1

    def nontrivial(self, key: Any = None) -> None:
        """Count the current case as non-trivial, once per distinct key."""
        src = repr(self._case if key is None else key)
        h = hashlib.blake2b(src.encode("utf8", "surrogatepass"), digest_size=8).digest()
        if h not in self.keys:
            self.keys.add(h)
            n = len(self.keys)
            if len(self.samples) < 3 and n in (5, 25, 125):
                self.samples.append(src[:1500])

    def fresh_dir(self) -> str:
        """An empty directory, private to the current case."""
        self._n += 1
        path = os.path.join(self.scratch, f"case-{os.getpid()}")
        if os.path.isdir(path):
            shutil.rmtree(path)
        os.makedirs(path)
        return path


_hung = [False]


def _alarm(_sig: int, _frame: Any) -> None:
    _hung[0] = True
    raise _Hang


def _run_case(sub: Sub, case: Any, ctx: Ctx) -> None:
    ctx._case = case
    limit = sub.cpu_limit
    _hung[0] = False
    # Repeated, in case it does get handled
    signal.setitimer(signal.ITIMER_PROF, limit, 5)
    try:
        sub.check(case, ctx)
    except _Hang:
        pass
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        if _hung[0]:
            raise Violation(f"no result after {limit:.0f} s of CPU time")


def _seed_for(*parts: Any) -> int:
    return int.from_bytes(
        hashlib.sha256(":".join(map(str, parts)).encode()).digest()[:8], "big"
    )


def load_module(prop: str) -> Any:
    hits = sorted((VERIF / "checks").glob(f"{prop.lower()}_*.py"))
    if len(hits) != 1:
        raise HarnessError(f"no single check module for {prop}: {hits}")
    return importlib.import_module(f"checks.{hits[0].stem}")


def _worker(
    prop: str,
    sub_name: str,
    shard: int,
    count: int,
    seed: int,
    stop_at: float,
    scratch: str,
    stop_file: str,
) -> dict[str, Any]:
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis.internal.conjecture import engine

    if hasattr(engine, "MAX_SHRINKING_SECONDS"):
        engine.MAX_SHRINKING_SECONDS = 30
    signal.signal(signal.SIGPROF, _alarm)
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))
    # keep chatter of the code under test off our stdout/stderr
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    import logging

    warnings.simplefilter("ignore")
    logging.disable(logging.NOTSET)
    logging.getLogger().handlers[:] = [logging.NullHandler()]

    mod = load_module(prop)
    sub = next(s for s in mod.SUBS if s.name == sub_name)
    shard_dir = os.path.join(scratch, f"{sub_name}-{shard}")
    os.makedirs(shard_dir, exist_ok=True)
    ctx = Ctx(shard_dir)
    failure: list[Any] = []
    n_after = [0]

    strategy = sub.strategy() if callable(sub.strategy) else sub.strategy

    @hypothesis.seed(_seed_for(seed, prop, sub_name, shard))
    @settings(
        max_examples=count,
        database=None,
        deadline=None,
        derandomize=False,
        phases=[Phase.generate, Phase.shrink],
        suppress_health_check=list(HealthCheck),
        report_multiple_bugs=False,
        print_blob=False,
    )
    @given(strategy)
    def run(case: Any) -> None:
        if not failure and (time.monotonic() > stop_at or os.path.exists(stop_file)):
            ctx.skipped += max(0, count - ctx.evaluations)
            raise _Stop
        try:
            if failure:
                _run_case(sub, case, Ctx(shard_dir))  # shrinking: not counted
            else:
                ctx.evaluations += 1
                _run_case(sub, case, ctx)
        except HarnessError:
            raise
        except hypothesis.errors.HypothesisException:
            raise
        except (Exception, RecursionError) as err:
            failure.append((case, f"{type(err).__name__}: {err}", traceback.format_exc()))
            if len(failure) > 3:
                del failure[1:-1]
            if _hung[0]:
                raise _Stop  # shrinking would take the time limit for each attempt
            raise

    out: dict[str, Any] = {"sub": sub_name, "shard": shard, "failure": None, "error": None}
    try:
        run()
    except _Stop:
        pass
    except HarnessError:
        out["error"] = traceback.format_exc()
    except BaseException:
        if not failure:
            out["error"] = traceback.format_exc()
    if failure and not out["error"]:
        Path(stop_file).touch()
        case, err, tb = failure[-1]
        repro = "standalone"
        try:
            _run_case(sub, case, Ctx(shard_dir))
            # Not reproducible on its own: fall back to the first failing case
            case, err, tb = failure[0]
            try:
                _run_case(sub, case, Ctx(shard_dir))
                repro = "history-dependent"
            except Exception as err0:
                err, tb = f"{type(err0).__name__}: {err0}", traceback.format_exc()
        except Exception as err0:
            err, tb = f"{type(err0).__name__}: {err0}", traceback.format_exc()
        try:
            blob = base64.b64encode(pickle.dumps(case)).decode()
        except Exception:
            blob = ""
        out["failure"] = {
            "property": prop,
            "sub": sub_name,
            "shard": shard,
            "seed": seed,
            "count": count,
            "reproduces": repro,
            "case": repr(case),
            "error": err[:8000],
            "traceback": tb[-8000:],
            "pickle": blob,
        }
    shutil.rmtree(shard_dir, ignore_errors=True)
    out.update(
        evaluations=ctx.evaluations,
        keys=ctx.keys,
        labels=ctx.labels,
        samples=ctx.samples,
        skipped=ctx.skipped,
    )
    return out


def _load_saved(path: Path) -> dict[str, Any]:
    return json.loads(path.read_text("utf8"))


def _case_of(saved: dict[str, Any]) -> Any:
    if saved.get("pickle"):
        return pickle.loads(base64.b64decode(saved["pickle"]))
    import moz.l10n.model as model

    return eval(saved["case"], dict(vars(model)))


def replay(prop: str, path: str) -> int:
    """Run one saved case, without Hypothesis."""
    mod = load_module(prop)
    saved = _load_saved(Path(path))
    sub = next(s for s in mod.SUBS if s.name == saved["sub"])
    signal.signal(signal.SIGPROF, _alarm)
    scratch = tempfile.mkdtemp(prefix="verif-")
    try:
        if saved.get("reproduces") == "history-dependent":
            out = _worker(
                prop, saved["sub"], saved["shard"], saved["count"], saved["seed"],
                time.monotonic() + 600, scratch, os.path.join(scratch, "stop"),
            )  # fmt: skip
            failed = out["failure"]
            if failed:
                sys.stderr.write(failed["traceback"] + "\n")
        else:
            failed = None
            try:
                _run_case(sub, _case_of(saved), Ctx(scratch))
            except Exception:
                failed = True
                traceback.print_exc()
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    if failed:
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    print("no violation")
    return 0


def _known_findings() -> list[dict[str, Any]]:
    path = VERIF / "known-findings.json"
    return json.loads(path.read_text("utf8"))["findings"] if path.exists() else []


def main(prop: str, tier: str, only: str | None = None, scale: float = 1.0) -> int:
    t0 = time.monotonic()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    mod = load_module(prop)
    scratch = tempfile.mkdtemp(prefix=f"verif-{prop}-")
    try:
        return _main(mod, prop, tier, seed, t0, scratch, only, scale)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _main(
    mod: Any, prop: str, tier: str, seed: int, t0: float, scratch: str, only: str | None, scale: float
) -> int:
    budget = float(os.environ.get("VERIF_BUDGET", "240" if tier == "quick" else "3000"))
    stop_at = time.monotonic() + budget
    stop_file = os.path.join(scratch, "stop")
    signal.signal(signal.SIGPROF, _alarm)
    failures: list[dict[str, Any]] = []
    errors: list[str] = []
    total = Ctx(scratch)
    regress_count = 0

    # 1. saved regression cases, in this process
    subs = {s.name: s for s in mod.SUBS}
    for path in sorted((VERIF / "regress").glob(f"{prop}-*.json")):
        saved = _load_saved(path)
        if saved["sub"] not in subs:
            errors.append(f"{path}: unknown sub-check {saved['sub']}")
            continue
        regress_count += 1
        try:
            case = _case_of(saved)
        except Exception:
            errors.append(f"{path}: " + traceback.format_exc())
            continue
        try:
            _run_case(subs[saved["sub"]], case, Ctx(scratch))
        except HarnessError:
            errors.append(traceback.format_exc())
        except Exception as err:
            failures.append(
                {**saved, "error": f"{type(err).__name__}: {err}", "traceback": traceback.format_exc()}
            )

    # 2. known findings of this property: still failing as described?
    known_lines = []
    for known in _known_findings():
        if known.get("property") != prop or known.get("status") != "open":
            continue
        fn = getattr(mod, "KNOWN", {}).get(known["id"])
        if fn is None:
            errors.append(f"known finding {known['id']} has no reproducer in the check")
        elif fn():
            known_lines.append(f"KNOWN-FINDING: property={prop} {known['what']}")

    # 3. generated cases
    per_sub: dict[str, dict[str, Any]] = {}
    tasks = []
    for sub in mod.SUBS:
        if only and sub.name != only:
            continue
        n = max(SHARDS, int(sub.count(tier) * scale))
        per_sub[sub.name] = {"evaluations": 0, "keys": set(), "labels": collections.Counter()}
        shards = min(SHARDS, n) if tier == "quick" else SHARDS * max(1, n // (SHARDS * 5000))
        for shard in range(shards):
            tasks.append((prop, sub.name, shard, max(1, n // shards), seed, stop_at, scratch, stop_file))
    if not failures:
        try:
            with ProcessPoolExecutor(max_workers=SHARDS) as pool:
                futures = [pool.submit(_worker, *t) for t in tasks]
                for fut in as_completed(futures):
                    res = fut.result()
                    if res["error"]:
                        errors.append(f"{res['sub']}[{res['shard']}]: {res['error']}")
                    if res["failure"]:
                        failures.append(res["failure"])
                    ps = per_sub[res["sub"]]
                    ps["evaluations"] += res["evaluations"]
                    ps["keys"] |= res["keys"]
                    ps["labels"].update(res["labels"])
                    total.skipped += res["skipped"]
                    if res["shard"] < 2 and len(res["samples"]):
                        ps.setdefault("samples", []).extend(res["samples"][:2])
        except BrokenProcessPool:
            errors.append("a worker process died (out of memory?)")

    # 4. evidence
    wall = time.monotonic() - t0
    evaluations = sum(p["evaluations"] for p in per_sub.values()) + regress_count
    nontrivial = sum(len(p["keys"]) for p in per_sub.values())
    samples = [
        {"sub": name, "case": s} for name, p in per_sub.items() for s in p.get("samples", [])[:2]
    ]
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": nontrivial,
            "rule": mod.RULE,
            "samples": samples,
            "regression_cases": regress_count,
            "skipped_over_budget": total.skipped,
            "subchecks": {
                name: {
                    "evaluations": p["evaluations"],
                    "distinct_nontrivial": len(p["keys"]),
                    "classes": dict(sorted(p["labels"].items())),
                }
                for name, p in per_sub.items()
            },
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2),
        "violations": len(failures),
    }
    evdir = VERIF / "evidence"
    evdir.mkdir(exist_ok=True)
    (evdir / f"{prop}.json").write_text(json.dumps(evidence, indent=1, ensure_ascii=True) + "\n")

    # 5. verdict
    for line in known_lines:
        print(line)
    print(
        f"{prop} tier={tier} seed={seed}: {evaluations} cases, {nontrivial} non-trivial,"
        f" {total.skipped} skipped, {wall:.1f} s"
    )
    if failures:
        seen = set()
        rdir = evdir / "replay"
        rdir.mkdir(exist_ok=True)
        failures.sort(key=lambda f: (f["sub"], len(f["case"])))
        for f in failures:
            if f["sub"] in seen:
                continue
            seen.add(f["sub"])
            path = rdir / f"{prop}-{f['sub']}.json"
            path.write_text(json.dumps(f, indent=1) + "\n")
            print(f"--- {f['sub']}: {f['error']}\n    case: {f['case'][:3000]}")
            if os.environ.get("VERIF_TRACE"):
                print(f["traceback"])
            print(f"VIOLATION property={prop} replay={path}")
        for e in errors:
            sys.stderr.write(e + "\n")
        return 1
    if errors:
        for e in errors:
            sys.stderr.write(e + "\n")
        print(f"ERROR of the check {prop}: {len(errors)} error(s)")
        return 2
    return 0
