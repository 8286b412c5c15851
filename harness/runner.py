"""Runs the cases of one check in parallel, judges, writes evidence and replay files.

Verdicts:   exit 0  every explored case satisfied the property (and enough was explored)
            exit 1  "VIOLATION property=<id> replay=<path>"
            exit 2  the machinery failed or observed too little (inconclusive)
"""

from __future__ import annotations

import collections
import hashlib
import importlib
import json
import multiprocessing
import os
import queue as queue_mod
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback
from typing import Any, Callable, Dict, List, Optional

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)

os.environ.setdefault("TZ", "UTC")
for _name in list(os.environ):
    # the sandbox's own settings must not leak into connection settings
    if _name.startswith(("SUBSET_SOURCE_", "SUBSET_DESTINATION_")):
        del os.environ[_name]


class CaseTimeout(BaseException):
    pass


class Violation(Exception):
    """Raised by a property's oracle: the subject broke the property."""

    def __init__(self, what: str, **detail: Any) -> None:
        super().__init__(what)
        self.what = what
        self.detail = detail


class Skip(Exception):
    """The generated case is outside the property's domain (counted, not judged)."""


class Known(Exception):
    """The case hit a finding listed in known_findings.json."""

    def __init__(self, finding: str) -> None:
        super().__init__(finding)
        self.finding = finding


class Ctx:
    """What a case function gets: randomness, endpoints and counters."""

    def __init__(self, rng: random.Random, bench, index: int, tier: str) -> None:
        self.rng = rng
        self.bench = bench
        self.index = index
        self.tier = tier
        self.counts: collections.Counter = collections.Counter()
        self.signature: Optional[str] = None
        self.nontrivial = False
        self.sample: Any = None
        self.info: Dict[str, Any] = {}
        self.stage = "setup"
        self.seed = 0

    def judging(self) -> None:
        """From here on the subject runs and is judged: surprises are its fault."""
        self.stage = "judge"

    def count(self, name: str, num: int = 1) -> None:
        self.counts[name] += num

    def sign(self, *parts: Any) -> None:
        """Record what makes this case distinct."""
        self.signature = hashlib.sha1(
            json.dumps(parts, sort_keys=True, default=str).encode()
        ).hexdigest()[:16]


def case_rng(prop: str, seed: int, index: int) -> random.Random:
    return random.Random(f"{prop}/{seed}/{index}")


def _load(prop: str):
    return importlib.import_module(f"props.{prop.lower()}")


def _on_alarm(_sig, _frame):
    raise CaseTimeout()


INFRA_MARKERS = (
    "server closed the connection unexpectedly",
    "Lost connection to MySQL server",
    "MySQL server has gone away",
    "Can't connect to MySQL server",
    "Connection refused",
    "the database system is",
    "No space left on device",
    "disk is full",
    "Too many connections",
    "too many clients",
    "out of shared memory",
    "Cannot allocate memory",
)


def _is_infra(exc: BaseException) -> bool:
    if isinstance(exc, (MemoryError,)):
        return True
    text = str(exc)
    return any(marker in text for marker in INFRA_MARKERS)


def _flat_detail(detail: Dict[str, Any]) -> Dict[str, Any]:
    return json.loads(json.dumps(detail, default=repr)[:200000]) if len(
        json.dumps(detail, default=repr)) < 200000 else {"truncated": repr(detail)[:20000]}


def run_case(module, prop, seed, index, tier, bench, limit) -> Dict[str, Any]:
    """Run one case; never raises."""
    import subj  # pylint: disable=import-outside-toplevel

    ctx = Ctx(case_rng(prop, seed, index), bench, index, tier)
    ctx.seed = seed
    random.seed(f"{prop}/{seed}/{index}/global")
    result: Dict[str, Any] = {"index": index, "outcome": "ok"}
    began = time.monotonic()
    signal.signal(signal.SIGALRM, _on_alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        try:
            module.case(ctx)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
    except CaseTimeout:
        result.update(outcome="timeout", what=f"no answer within {limit}s")
    except Skip as exc:
        result.update(outcome="skip", what=str(exc))
    except Known as exc:
        result.update(outcome="known", what=exc.finding)
    except Violation as exc:
        result.update(
            outcome="violation", what=exc.what, detail=_flat_detail(exc.detail),
            trace=traceback.format_exc()[-6000:],
        )
        cause = exc.__cause__
        if cause is not None and _is_infra(cause):
            result["outcome"] = "infra"
    except BaseException as exc:  # pylint: disable=broad-exception-caught
        if isinstance(exc, (KeyboardInterrupt, SystemExit)):
            result.update(outcome="harness", what=repr(exc), trace=traceback.format_exc()[-6000:])
        else:
            result.update(
                outcome=(
                    "infra" if _is_infra(exc)
                    else "violation" if ctx.stage == "judge" else "harness"
                ),
                what=f"{type(exc).__name__}: {exc}"[:2000],
                trace=traceback.format_exc()[-6000:],
            )
    finally:
        if os.environ.get("VERIF_TIMES"):
            print(f"took {time.monotonic() - began:.2f} case {index}", file=sys.stderr, flush=True)
        try:
            subj.close_all()
        except BaseException:  # pylint: disable=broad-exception-caught
            pass
    result["counts"] = dict(ctx.counts)
    result["signature"] = ctx.signature
    result["nontrivial"] = ctx.nontrivial
    if ctx.sample is not None:
        result["sample"] = ctx.sample
    if result["outcome"] != "ok":
        result["info"] = _flat_detail(ctx.info)
    return result


def _worker(worker, prop, seed, tier, base, servers, tasks, results, limit):
    # die with the parent, whatever happens to it
    import ctypes  # pylint: disable=import-outside-toplevel

    ctypes.CDLL("libc.so.6").prctl(1, signal.SIGKILL, 0, 0, 0)
    signal.signal(signal.SIGTERM, signal.SIG_DFL)
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    devnull = os.open(os.devnull, os.O_RDWR)
    os.dup2(devnull, 0)
    import dbio  # pylint: disable=import-outside-toplevel

    bench = None
    try:
        module = _load(prop)
        bench = dbio.Bench(base, worker, servers)
        while True:
            try:
                index = tasks.get_nowait()
            except queue_mod.Empty:
                # Queue.get_nowait can be early by a feeder thread's latency
                try:
                    index = tasks.get(timeout=0.5)
                except queue_mod.Empty:
                    break
            if index is None:
                break
            results.put(("start", worker, index))
            started = time.monotonic()
            result = run_case(module, prop, seed, index, tier, bench, limit)
            if result["outcome"] in ("infra", "timeout"):
                # A second look with a fresh bench and more time.
                bench.close()
                time.sleep(0.5)
                bench = dbio.Bench(base, worker, servers)
                first = result
                result = run_case(module, prop, seed, index, tier, bench, limit * 3)
                if result["outcome"] == "timeout" and first["outcome"] == "timeout":
                    result["outcome"] = "violation"
                    result["what"] = f"the run did not end within {limit * 3}s (twice)"
            result["secs"] = round(time.monotonic() - started, 3)
            results.put(("done", worker, result))
        results.put(("exit", worker, None))
    except BaseException:  # pylint: disable=broad-exception-caught
        results.put(("crash", worker, traceback.format_exc()[-4000:]))
    finally:
        if bench is not None:
            bench.close()
        results.close()
        results.join_thread()
        os._exit(0)


def scratch_base() -> str:
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
    try:
        if base and shutil.disk_usage(base).free < 2 << 30:
            base = None
    except OSError:
        base = None
    return tempfile.mkdtemp(prefix="sbst-chk.", dir=base)


def _listed(prop: str) -> set:
    with open(os.path.join(VERIF, "known_findings.json"), encoding="utf-8") as fh:
        return {entry["what"] for entry in json.load(fh)["known"] if entry["property"] == prop}


class Check:
    """Driver for one property."""

    def __init__(self, prop: str, tier: str, seed: int) -> None:
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.module = _load(prop)
        self.conf = dict(self.module.CONF)

    def _conf(self, name: str, default: Any) -> Any:
        value = self.conf.get(name, default)
        if isinstance(value, dict) and self.tier in value:
            return value[self.tier]
        return value

    def run(self, only: Optional[List[int]] = None) -> int:
        import servers as servers_mod  # pylint: disable=import-outside-toplevel

        started = time.monotonic()
        cases = self._conf("cases", {"quick": 300, "thorough": 3000})
        cap = float(os.environ.get("VERIF_CAP", self._conf("cap", {"quick": 45, "thorough": 600})))
        limit = self._conf("case_limit", 60)
        procs_n = int(os.environ.get("VERIF_WORKERS", "0")) or min(8, (os.cpu_count() or 4))
        procs_n = min(procs_n, self._conf("workers", procs_n))
        needs = self._conf("servers", ["postgres", "mysql"])
        base = scratch_base()
        srv = None
        indices = list(range(cases)) if only is None else list(only)
        state: Dict[str, Any] = {"results": [], "crash": []}

        def _term(_sig, _frame):
            raise KeyboardInterrupt

        signal.signal(signal.SIGTERM, _term)
        procs: Dict[int, Any] = {}
        try:
            info: Dict[str, Any] = {}
            if needs:
                srv = servers_mod.Servers(tls=bool(self._conf("tls", False)))
                srv.start(needs)
                info = dict(srv.info)
                if srv.errors:
                    print(f"note: could not start {srv.errors}", file=sys.stderr)
            mp = multiprocessing.get_context("fork")
            tasks: Any = mp.Queue()
            results: Any = mp.Queue()
            for index in indices:
                tasks.put(index)
            for _ in range(procs_n * 2):
                tasks.put(None)
            current: Dict[int, Any] = {}
            next_worker = [0]

            def spawn():
                worker = next_worker[0]
                next_worker[0] += 1
                proc = mp.Process(
                    target=_worker,
                    args=(worker, self.prop, self.seed, self.tier, base, info,
                          tasks, results, limit),
                    daemon=True,
                )
                proc.start()
                procs[worker] = proc

            for _ in range(procs_n):
                spawn()
            t_cases = time.monotonic()
            done = 0
            abrupt: collections.Counter = collections.Counter()
            while procs:
                now = time.monotonic()
                if now - t_cases > cap:
                    # (a queue others are reading may seem empty: try every time)
                    try:
                        while True:
                            tasks.get_nowait()
                    except queue_mod.Empty:
                        pass
                if now - t_cases > cap + limit * 5:
                    break
                try:
                    kind, worker, payload = results.get(timeout=0.2)
                except queue_mod.Empty:
                    for worker, proc in list(procs.items()):
                        if not proc.is_alive():
                            # ended without a word: crashed hard (or out of memory)
                            proc.join()
                            del procs[worker]
                            index = current.pop(worker, None)
                            if index is not None:
                                abrupt[index] += 1
                                if abrupt[index] >= 2:
                                    state["results"].append({
                                        "index": index, "outcome": "harness",
                                        "what": f"worker died (exit {proc.exitcode})",
                                        "counts": {}})
                                else:
                                    tasks.put(index)
                                    tasks.put(None)
                                spawn()
                    continue
                if kind == "start":
                    current[worker] = payload
                elif kind == "done":
                    current.pop(worker, None)
                    state["results"].append(payload)
                    done += 1
                    if (
                        payload["outcome"] == "violation"
                        and sum(r["outcome"] == "violation" for r in state["results"]) >= 3
                        and only is None
                    ):
                        # enough witnesses
                        cap = 0
                elif kind in ("exit", "crash"):
                    if kind == "crash":
                        state["crash"].append(payload)
                    proc = procs.pop(worker, None)
                    if proc is not None:
                        proc.join(timeout=10)
        finally:
            for proc in procs.values():
                if proc.is_alive():
                    proc.kill()
            if srv is not None:
                srv.stop()
            shutil.rmtree(base, ignore_errors=True)
        return self._finish(state, started, info, needs, len(indices), only)

    # -- verdict ---------------------------------------------------------------------
    def _finish(self, state, started, info, needs, planned, only) -> int:
        results = state["results"]
        listed = _listed(self.prop)
        for res in results:
            if res["outcome"] == "known" and res["what"] not in listed:
                res["outcome"] = "violation"
        by = collections.Counter(r["outcome"] for r in results)
        counts: collections.Counter = collections.Counter()
        sigs = set()
        for res in results:
            counts.update(res.get("counts") or {})
            if res["outcome"] in ("ok", "violation", "known") and res.get("nontrivial") and res.get("signature"):
                sigs.add(res["signature"])
        evaluated = by["ok"] + by["violation"] + by["known"]
        violations = [r for r in results if r["outcome"] == "violation"]
        trouble = [r for r in results if r["outcome"] in ("harness", "infra", "timeout")]
        wall = round(time.monotonic() - started, 2)

        samples = [r["sample"] for r in results if r.get("sample") is not None][:3]
        known = sorted({r["what"] for r in results if r["outcome"] == "known"} & _listed(self.prop))
        evidence = {
            "property": self.prop,
            "tier": self.tier,
            "seed": self.seed,
            "level": self.conf.get("level", "exploration"),
            "coverage": {
                "evaluations": evaluated,
                "distinct_nontrivial": len(sigs),
                "rule": self.conf["rule"],
                "samples": samples or ["(none)"],
                "observed": dict(sorted(counts.items())),
                "planned_cases": planned,
                "skipped_outside_domain": by["skip"],
                "inconclusive_cases": len(trouble),
                "known_finding_cases": by["known"],
                "servers": sorted(info),
            },
            "assumptions": self.conf.get("assumptions", []),
            "wall_s": wall,
            "violations": len(violations),
        }
        if only is None:
            os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
            path = os.path.join(VERIF, "evidence", f"{self.prop}.json")
            with open(path + ".tmp", "w", encoding="utf-8") as fh:
                json.dump(evidence, fh, indent=1, default=repr)
                fh.write("\n")
            os.replace(path + ".tmp", path)

        print(
            f"{self.prop} {self.tier} seed={self.seed}: {evaluated} cases judged "
            f"({len(sigs)} distinct non-trivial), {by['skip']} skipped, "
            f"{len(trouble)} inconclusive, {len(violations)} violations, {wall}s"
        )
        for name, num in sorted(counts.items()):
            print(f"  {name}: {num}")
        for finding in known:
            print(f"KNOWN-FINDING: property={self.prop} {finding}")
        if violations:
            violations.sort(key=lambda r: r["index"])
            replay_dir = os.path.join(VERIF, "replays")
            os.makedirs(replay_dir, exist_ok=True)
            first = violations[0]
            path = os.path.join(replay_dir, f"{self.prop}-{self.seed}-{first['index']}.json")
            with open(path, "w", encoding="utf-8") as fh:
                json.dump(
                    {
                        "property": self.prop,
                        "seed": self.seed,
                        "tier": self.tier,
                        "index": first["index"],
                        "replay": f"./check {self.prop} {self.tier} --seed {self.seed} --case {first['index']}",
                        "violations": violations[:5],
                    },
                    fh, indent=1, default=repr,
                )
            for res in violations[:3]:
                print(f"  case {res['index']}: {res['what'][:600]}")
                if only is not None:
                    print(json.dumps(res, indent=1, default=repr)[:12000])
            print(f"VIOLATION property={self.prop} replay={path}")
            return 1
        for crash in state["crash"]:
            print(f"worker crashed: {crash}", file=sys.stderr)
        for res in trouble[:5]:
            print(f"inconclusive case {res['index']} ({res['outcome']}): {res['what']}\n{res.get('trace', '')}",
                  file=sys.stderr)
        if only is not None:
            for res in results:
                print(json.dumps(res, indent=1, default=repr)[:12000])
            return 2 if trouble else 0
        minimum = self._conf("min", {"quick": 20, "thorough": 20})
        if len(trouble) > max(2, evaluated // 50):
            print("INCONCLUSIVE: too many cases the machinery could not judge")
            return 2
        if len(sigs) < minimum:
            print(f"INCONCLUSIVE: only {len(sigs)} distinct non-trivial cases (need {minimum})")
            return 2
        for name, need in self._conf("need", {}).items():
            if counts[name] < need:
                if name.startswith(("postgres", "mysql")) and name.split(".")[0] not in info:
                    continue
                print(f"INCONCLUSIVE: observed {name} {counts[name]} times (need {need})")
                return 2
        return 0


def main(argv: List[str]) -> int:
    import argparse  # pylint: disable=import-outside-toplevel

    parser = argparse.ArgumentParser()
    parser.add_argument("property")
    parser.add_argument("tier", nargs="?", default=os.environ.get("VERIF_TIER", "quick"))
    parser.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    parser.add_argument("--case", type=int, action="append")
    args = parser.parse_args(argv)
    return Check(args.property, args.tier, args.seed).run(args.case)


if __name__ == "__main__":
    # one copy of this module, so that its exception classes are the ones raised
    import runner

    sys.exit(runner.main(sys.argv[1:]))
