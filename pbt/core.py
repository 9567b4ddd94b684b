"""Shared driver of all checks: generation, search, shrinking, evidence, replay.

One property = one subclass of :class:`Prop`.  A *case* is a plain JSON value
drawn by Hypothesis; ``Prop.check(case, ctx)`` runs the code under test on it
and raises :class:`Violation` if the property does not hold.  Everything that
is random is inside the case, so a case replays on its own, without Hypothesis.
"""

from __future__ import annotations

import contextlib
import hashlib
import io
import json
import os
import signal
import sys
import tempfile
import time
import traceback
import warnings
from collections import Counter

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PTWT_REPO", "/repo")
WORKERS = int(os.environ.get("PBT_WORKERS", "8"))
SHRINK_SECONDS = 40.0
CASE_SECONDS = 240
# a run that is still generating after this long stops early (exit 0 with fewer
# cases; the evidence file says so)
SOFT_SECONDS = {"quick": 420.0, "thorough": 3000.0}


class Violation(Exception):
    """The code under test broke the property on this case."""


class HarnessError(Exception):
    """The check itself is broken: never reported as a violation."""


class _StopSearch(BaseException):
    """Leave Hypothesis (shrinking took long enough)."""


class Ctx:
    """Per-worker recorder handed to ``check``."""

    def __init__(self, known):
        self.known_keys = known
        self.labels = Counter()
        self.known_seen = {}
        self.nontrivial = False

    def label(self, *names):
        for n in names:
            self.labels[str(n)] += 1

    def interesting(self, cond=True):
        if cond:
            self.nontrivial = True

    def known(self, key, message):
        """A violation that may be listed in known_findings.txt."""
        if key in self.known_keys:
            self.known_seen[key] = self.known_keys[key]
        else:
            raise Violation(message)


class Prop:
    id = "?"
    title = ""
    rule = ""
    assumptions = []
    quick = 100  # cases per worker
    thorough_factor = 12
    corpus = []  # explicit cases, run first

    def strategy(self):
        raise NotImplementedError

    def check(self, case, ctx):
        raise NotImplementedError


def load_known(pid):
    """``known: property=<id> key=<key> <text>`` lines of known_findings.txt."""
    out = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path, encoding="utf-8"):
            if not line.startswith("known: "):
                continue
            parts = line.strip().split(" ", 3)
            if parts[1] == f"property={pid}" and parts[2].startswith("key="):
                out[parts[2][4:]] = parts[3] if len(parts) > 3 else ""
    return out


@contextlib.contextmanager
def quiet():
    """Silence warnings and prints of the code under test."""
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(
            io.StringIO()
        ):
            yield


@contextlib.contextmanager
def oracle():
    """Mark reference computations: an exception here is a harness error."""
    try:
        yield
    except (HarnessError, Violation):
        raise
    except Exception as e:
        raise HarnessError(f"oracle failed: {type(e).__name__}: {e}") from e


def _where(e):
    tb = traceback.extract_tb(e.__traceback__)
    frames = [f"{os.path.basename(f.filename)}:{f.lineno}({f.name})" for f in tb[-4:]]
    return " < ".join(reversed(frames))


def run_case(prop, case, ctx):
    """Run one case; Violation for any failure that the code under test causes."""
    ctx.nontrivial = False
    try:
        with quiet():
            prop.check(case, ctx)
    except (Violation, HarnessError):
        raise
    except MemoryError as e:
        raise HarnessError("out of memory") from e
    except Exception as e:
        if type(e).__module__.startswith("hypothesis"):
            raise
        raise Violation(
            f"unexpected {type(e).__name__}: {str(e)[:300]} at {_where(e)}"
        ) from e


def canon(case):
    return json.dumps(case, sort_keys=True)


def _seed(seed, pid, worker):
    h = hashlib.sha256(f"{seed}/{pid}/{worker}".encode()).digest()
    return int.from_bytes(h[:8], "big")


def worker_main(prop, tier, seed, worker, nworkers, n_examples, outpath, casepath, t_end):
    import hypothesis
    from hypothesis import HealthCheck, Phase, settings
    from hypothesis import given

    ctx = Ctx(load_known(prop.id))
    res = {
        "evaluations": 0,
        "nontrivial": set(),
        "samples": [],
        "violation": None,
        "harness": None,
        "early_stop": False,
    }
    state = {"first_fail": None, "best": None}
    casefile = open(casepath, "w", encoding="utf-8")

    def on_alarm(signum, frame):
        raise HarnessError(f"one case took more than {CASE_SECONDS} s")

    signal.signal(signal.SIGALRM, on_alarm)

    def one(case):
        now = time.monotonic()
        if state["first_fail"] is None and now > t_end:
            res["early_stop"] = True
            raise _StopSearch()
        if state["first_fail"] is not None:
            if now - state["first_fail"] > SHRINK_SECONDS:
                raise _StopSearch()
        text = canon(case)
        casefile.seek(0)
        casefile.truncate()
        casefile.write(text)
        casefile.flush()
        signal.alarm(CASE_SECONDS)
        try:
            run_case(prop, case, ctx)
        except Violation as v:
            if state["first_fail"] is None:
                state["first_fail"] = time.monotonic()
            if state["best"] is None or len(text) <= len(state["best"][0]):
                state["best"] = (text, str(v))
            raise
        finally:
            signal.alarm(0)
        if state["first_fail"] is None:
            res["evaluations"] += 1
            if ctx.nontrivial:
                key = hashlib.sha1(text.encode()).hexdigest()[:16]
                if key not in res["nontrivial"]:
                    res["nontrivial"].add(key)
                    if len(res["samples"]) < 4 or (
                        len(res["nontrivial"]) % 97 == 0 and len(res["samples"]) < 10
                    ):
                        res["samples"].append(case)

    try:
        for i, case in enumerate(prop.corpus):
            if i % nworkers == worker:
                one(case)
        strat = prop.strategy()

        @hypothesis.seed(_seed(seed, prop.id, worker))
        @settings(
            max_examples=n_examples,
            database=None,
            deadline=None,
            derandomize=False,
            phases=(Phase.generate, Phase.shrink),
            report_multiple_bugs=False,
            print_blob=False,
            suppress_health_check=[
                HealthCheck.too_slow,
                HealthCheck.large_base_example,
                HealthCheck.data_too_large,
            ],
        )
        @given(strat)
        def test(case):
            one(case)

        test()
    except _StopSearch:
        pass
    except Violation:
        pass
    except HarnessError as e:
        res["harness"] = f"{e} (case {open(casepath).read()[:600]})\n" + traceback.format_exc()[-3000:]
    except BaseException as e:  # Hypothesis' own errors, Flaky, health checks
        if state["best"] is None:
            res["harness"] = f"{type(e).__name__}: {e}\n" + traceback.format_exc()[-3000:]
    if state["best"] is not None and res["harness"] is None:
        res["violation"] = {"case": json.loads(state["best"][0]), "message": state["best"][1]}
    res["labels"] = dict(ctx.labels)
    res["known_seen"] = ctx.known_seen
    res["nontrivial"] = sorted(res["nontrivial"])
    with open(outpath, "w", encoding="utf-8") as f:
        json.dump(res, f)


def write_replay(prop, case, message, seed):
    d = os.environ.get("PBT_REPLAY_DIR", os.path.join(VERIF, "evidence", "replay"))
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha1(canon(case).encode()).hexdigest()[:10]
    path = os.path.join(d, f"{prop.id}-{h}.json")
    with open(path, "w", encoding="utf-8") as f:
        json.dump({"property": prop.id, "seed": seed, "message": message, "case": case}, f, indent=1)
    return path


def run_prop(prop, tier, seed):
    t0 = time.monotonic()
    n = int(prop.quick)
    if tier == "thorough":
        n = int(n * prop.thorough_factor)
    n = max(1, int(n * float(os.environ.get("PBT_SCALE", "1"))))
    t_end = t0 + SOFT_SECONDS[tier]
    results, harness, violations = [], [], []
    with tempfile.TemporaryDirectory(prefix="ptwtpbt-") as tmp:
        pids = {}
        sys.stdout.flush()
        sys.stderr.flush()
        for w in range(WORKERS):
            pid = os.fork()
            if pid == 0:
                code = 3
                try:
                    worker_main(
                        prop, tier, seed, w, WORKERS, n,
                        f"{tmp}/{w}.json", f"{tmp}/{w}.case", t_end,
                    )
                    code = 0
                except BaseException:
                    traceback.print_exc()
                finally:
                    sys.stdout.flush()
                    sys.stderr.flush()
                    os._exit(code)
            pids[pid] = w
        while pids:
            pid, status = os.wait()
            w = pids.pop(pid, None)
            if w is None:
                continue
            if os.WIFSIGNALED(status):
                sig = os.WTERMSIG(status)
                try:
                    case = json.load(open(f"{tmp}/{w}.case"))
                except Exception:
                    case = None
                if case is not None and sig in (signal.SIGSEGV, signal.SIGFPE, signal.SIGABRT, signal.SIGBUS):
                    violations.append({"case": case, "message": f"process died with signal {sig}"})
                else:
                    harness.append(f"worker {w} died with signal {sig}")
            elif os.WEXITSTATUS(status) != 0:
                harness.append(f"worker {w} exited with {os.WEXITSTATUS(status)}")
            else:
                results.append(json.load(open(f"{tmp}/{w}.json")))
    labels, nontrivial, samples, known = Counter(), set(), [], {}
    evaluations, early = 0, False
    for r in results:
        evaluations += r["evaluations"]
        nontrivial.update(r["nontrivial"])
        labels.update(r["labels"])
        known.update(r["known_seen"])
        early = early or r["early_stop"]
        samples.extend(r["samples"][:2])
        if r["violation"]:
            violations.append(r["violation"])
        if r["harness"]:
            harness.append(r["harness"])
    wall = time.monotonic() - t0
    violations.sort(key=lambda v: len(canon(v["case"])))
    evidence = {
        "property": prop.id,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(nontrivial),
            "rule": prop.rule,
            "samples": samples[:12],
            "labels": dict(sorted(labels.items(), key=lambda kv: -kv[1])[:80]),
            "explicit_cases": len(prop.corpus),
            "workers": WORKERS,
            "stopped_early": early,
            "known_findings_seen": sorted(known),
            "harness_errors": len(harness),
        },
        "assumptions": list(prop.assumptions),
        "wall_s": round(wall, 2),
        "violations": len(violations),
    }
    ed = os.path.join(VERIF, "evidence")
    os.makedirs(ed, exist_ok=True)
    with open(os.path.join(ed, f"{prop.id}.json"), "w", encoding="utf-8") as f:
        json.dump(evidence, f, indent=1)
    for key in sorted(known):
        print(f"KNOWN-FINDING: property={prop.id} {known[key]}")
    if violations:
        v = violations[0]
        path = write_replay(prop, v["case"], v["message"], seed)
        print(f"  case: {canon(v['case'])}")
        print(f"  {v['message']}")
        print(f"VIOLATION property={prop.id} replay={path}")
        return 1
    if harness:
        print(f"HARNESS ERROR property={prop.id} ({len(harness)} workers): {harness[0]}", file=sys.stderr)
        return 2
    print(
        f"OK property={prop.id} evaluations={evaluations} "
        f"nontrivial={len(nontrivial)} wall={wall:.1f}s"
    )
    return 0


def replay(prop, path):
    data = json.load(open(path, encoding="utf-8"))
    ctx = Ctx(load_known(prop.id))
    try:
        run_case(prop, data["case"], ctx)
    except Violation as v:
        print(f"  {v}")
        print(f"VIOLATION property={prop.id} replay={path}")
        return 1
    print(f"OK property={prop.id}: the case of {path} passes")
    return 0
