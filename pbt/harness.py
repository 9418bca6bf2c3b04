"""Runs the tasks of one check over generated cases, in parallel, and reports.

A check module provides ID, RULE, LEVEL_NOTE..., and tasks(tier) -> list of Task. A task draws cases
(JSON values) from a Hypothesis strategy, or enumerates them, and hands each to its property function:

    prop(case) -> label     a short string when the case was non-trivial, None when it was not
    prop(case) raises Violation(message)

Every case is plain JSON, so a failing one (shrunk by Hypothesis within a fixed number of evaluations)
is written to a replay file that bypasses Hypothesis.
"""
from __future__ import annotations
import collections
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import resource
import signal
import sys
import time
import traceback
import zlib
from dataclasses import dataclass
from typing import Any, Callable

from . import env
from hypothesis import HealthCheck, Phase, given, seed as hseed, settings
from hypothesis import strategies as st

WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))      # development aid
CASE_CPU_S = 30          # CPU seconds one case may use before it counts as never ending (normal: milliseconds)
SHRINK_EVALS = 600
MEM = 6 << 30


class Violation(Exception):
    pass


class CaseTimeout(BaseException):
    pass


class HardStop(BaseException):
    pass


@dataclass
class Task:
    name: str
    prop: Callable[[Any], Any]
    strategy: Any = None          # Hypothesis strategy of cases (or a callable returning one)
    n: int = 0
    cases: Any = None             # or: a callable returning a list of cases to enumerate
    weight: float = 1.0


def foreach(name, prop, items, make, per, chunk=None):
    """Tasks that together draw `per` cases for each item (complete coverage of items)."""
    items = list(items)
    chunk = chunk or max(1, (len(items) + 15) // 16)
    return [Task(f"{name}[{i // chunk}]", prop, strategy=("each", items[i:i + chunk], make), n=per)
            for i in range(0, len(items), chunk)]


def lib_frame(tb):
    for fr in traceback.extract_tb(tb):
        f = fr.filename
        if f.startswith(env.REPO + os.sep) or "/pydantic" in f:
            return True
    return False


def dumps(case):
    return json.dumps(case, ensure_ascii=True, sort_keys=False, default=repr)


class Runner:
    def __init__(self, check, task, seed):
        self.check, self.task, self.seed = check, task, seed
        self.evals = 0
        self.seen = set()
        self.labels = collections.Counter()
        self.samples = {}
        self.fail = None            # (size, case_json, message)
        self.after_fail = 0
        self.slowest = 0.0
        self.known = {}
        self.error = None

    def run_case(self, case):
        """None or the message of the violation this case shows."""
        signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_S)
        try:
            label = self.task.prop(case)
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            return label, None
        except Violation as e:
            return None, str(e)
        except CaseTimeout:
            return None, f"no result after {CASE_CPU_S} s of CPU time"
        except (RecursionError, MemoryError) as e:
            return None, f"{type(e).__name__} on a small case"
        except Exception as e:
            # cases are plain data and properties are pure Python: what fails here is the library, or its answer made no sense
            what = "unexpected" if lib_frame(e.__traceback__) else "the library's answer could not be interpreted:"
            where = traceback.extract_tb(e.__traceback__)[-1]
            return None, f"{what} {type(e).__name__}: {str(e)[:400]} ({os.path.basename(where.filename)}:{where.lineno})"
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)

    def evaluate(self, case):
        js = dumps(case)
        self.evals += 1
        t0 = time.process_time()
        label, msg = self.run_case(case)
        self.slowest = max(self.slowest, time.process_time() - t0)
        if msg is None:
            if label is not None:
                h = hashlib.blake2b(js.encode(), digest_size=8).digest()
                if h not in self.seen:
                    self.seen.add(h)
                    self.labels[label] += 1
                    if label not in self.samples or 40 < len(js) < 700 and self.labels[label] % 37 == 0:
                        if len(js) < 3000:
                            self.samples[label] = js
            if self.fail:
                self.after_fail += 1
                if self.after_fail > SHRINK_EVALS:
                    raise HardStop
            return
        k = known_match(self.check, js, msg)
        if k:
            self.known[k] = self.known.get(k, 0) + 1
            return
        size = len(js)
        if self.fail is None or size < self.fail[0]:
            self.fail = (size, js, msg)
        self.after_fail += 1
        if self.after_fail > SHRINK_EVALS:
            raise HardStop
        raise Violation(msg)

    def run(self):
        t = self.task
        if t.cases is not None:
            for case in t.cases():
                try:
                    self.evaluate(case)
                except Violation:
                    if self.after_fail > 20:
                        return
            return
        strat = t.strategy
        if isinstance(strat, tuple) and strat[0] == "each":
            for i, item in enumerate(strat[1]):
                s = strat[2](item)
                self.drive(s, t.n, f"{t.name}/{i}")
                if self.fail:
                    return
            return
        if callable(strat) and not isinstance(strat, st.SearchStrategy):
            strat = strat()
        self.drive(strat, t.n, t.name)

    def drive(self, strategy, n, name):
        def test(case):
            self.evaluate(case)

        test.__name__ = "case"
        wrapped = given(strategy)(test)
        wrapped = settings(max_examples=n, database=None, deadline=None, derandomize=False,
                           phases=[Phase.generate, Phase.shrink], suppress_health_check=list(HealthCheck),
                           report_multiple_bugs=False, print_blob=False)(wrapped)
        wrapped = hseed(self.seed * 1000003 + zlib.crc32(f"{self.check.ID}/{name}".encode()))(wrapped)
        try:
            wrapped()
        except HardStop:
            if not self.fail:
                raise
        except BaseException:
            if not self.fail:
                raise


def known_match(check, js, msg):
    for k in KNOWN:
        if k["property"] == check.ID and k.get("case") == js:
            return k["text"]
    return None


KNOWN: list = []


def load_known():
    path = os.path.join(env.VERIF, "known_findings.txt")
    KNOWN.clear()
    if os.path.exists(path):
        for line in open(path, encoding="utf-8"):
            line = line.strip()
            if line.startswith("{"):
                KNOWN.append(json.loads(line))


def _alarm(*_):
    raise CaseTimeout


def _worker_init():
    signal.signal(signal.SIGVTALRM, _alarm)
    resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
    try:
        os.environ["HOME"] = "/tmp"
    except OSError:
        pass


_CHECK = None
_TASKS = None
_SEED = 1


def _run_task(i):
    t0 = time.process_time()
    r = Runner(_CHECK, _TASKS[i], _SEED)
    err = None
    try:
        r.run()
    except BaseException as e:      # harness trouble: reported, never turned into a verdict
        err = "".join(traceback.format_exception(e))[-3000:]
    return dict(i=i, evals=r.evals, seen=r.seen, labels=dict(r.labels), samples=r.samples, fail=r.fail,
                known=r.known, err=err, cpu=time.process_time() - t0, slowest=r.slowest)


def main(check_id, argv):
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    if "--thorough" in argv:
        tier = "thorough"
    mod = importlib.import_module(f"pbt.checks.{check_id.lower()}")
    load_known()
    if "--replay" in argv:
        return replay(mod, argv[argv.index("--replay") + 1], tier)
    t0 = time.time()
    global _CHECK, _TASKS, _SEED
    _CHECK, _SEED = mod, seed
    _TASKS = mod.tasks(tier)
    if tier == "quick":
        for t in _TASKS:
            t.n = round(t.n * getattr(mod, "QUICK", 4))
    only = os.environ.get("VERIF_TASK")
    if only:                    # development aid
        _TASKS = [t for t in _TASKS if t.name.startswith(only)]
    names = [t.name for t in _TASKS]
    assert len(set(names)) == len(names), "duplicate task names"
    with mp.get_context("fork").Pool(WORKERS, initializer=_worker_init) as pool:
        results = []
        for r in pool.imap_unordered(_run_task, sorted(range(len(_TASKS)), key=lambda i: -_TASKS[i].weight * max(1, _TASKS[i].n)), chunksize=1):
            results.append(r)
            if r["fail"] and os.environ.get("VERIF_FIRST"):      # development aid: stop at the first failure
                pool.terminate()
                break
    results.sort(key=lambda r: r["i"])
    if "--profile" in argv:
        for r in results:
            print(f"{_TASKS[r['i']].name:40s} evals={r['evals']:6d} nontrivial={len(r['seen']):6d} cpu={r['cpu']:.1f}s slowest={r['slowest']:.2f}s", file=sys.stderr)
    seen = set()
    labels = collections.Counter()
    samples = {}
    known = collections.Counter()
    for r in results:
        seen |= r["seen"]
        labels.update(r["labels"])
        for k, v in r["samples"].items():
            samples.setdefault(k, v)
        known.update(r["known"])
    fails = [r for r in results if r["fail"]]
    errs = [r for r in results if r["err"]]
    ev = {
        "property": mod.ID, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(r["evals"] for r in results),
            "distinct_nontrivial": len(seen),
            "rule": mod.RULE,
            "samples": [{"class": k, "case": json.loads(v)} for k, v in sorted(samples.items())[:12]],
            "classes": dict(labels.most_common(60)),
            "classes_total": len(labels),
            "tasks": len(_TASKS),
        },
        "assumptions": getattr(mod, "ASSUMES", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(fails),
    }
    os.makedirs(os.path.join(env.VERIF, "evidence"), exist_ok=True)
    out = os.path.join(env.VERIF, "evidence", f"{mod.ID}.json")
    with open(out + ".tmp", "w", encoding="utf-8") as f:
        json.dump(ev, f, indent=1, ensure_ascii=True)
        f.write("\n")
    os.replace(out + ".tmp", out)
    for k, n in sorted(known.items()):
        print(f"KNOWN-FINDING: property={mod.ID} {k} ({n} cases)")
    if fails:
        os.makedirs(os.path.join(env.VERIF, "evidence", "replay"), exist_ok=True)
        for r in fails[:5]:
            t = _TASKS[r["i"]]
            size, js, msg = r["fail"]
            safe = "".join(c if c.isalnum() else "_" for c in t.name)
            path = os.path.join(env.VERIF, "evidence", "replay", f"{mod.ID}-{safe}.json")
            with open(path, "w", encoding="utf-8") as f:
                json.dump({"property": mod.ID, "task": t.name, "message": msg, "case": json.loads(js)}, f, indent=1)
                f.write("\n")
            print(f"VIOLATION property={mod.ID} replay={path}")
            print(f"  task {t.name}: {msg[:600]}")
            print(f"  case {js[:600]}")
        return 1
    if errs:
        for r in errs[:3]:
            print(f"harness error in task {_TASKS[r['i']].name}:\n{r['err']}", file=sys.stderr)
        return 2
    print(f"{mod.ID} ok: {ev['coverage']['evaluations']} cases, {len(seen)} distinct non-trivial, {ev['wall_s']} s")
    return 0


def replay(mod, path, tier):
    data = json.load(open(path, encoding="utf-8"))
    _worker_init()
    task = next((t for t in mod.tasks(tier) if t.name == data["task"]), None)
    if task is None:
        task = next(t for t in mod.tasks(tier) if t.name.split("[")[0] == data["task"].split("[")[0])
    r = Runner(mod, task, 1)
    label, msg = r.run_case(data["case"])
    if msg:
        print(f"VIOLATION property={mod.ID} replay={os.path.abspath(path)}\n  {msg}")
        return 1
    print(f"{mod.ID} replay: holds ({label})")
    return 0
