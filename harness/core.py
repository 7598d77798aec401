"""Bookkeeping shared by all checks: verdicts, replays, evidence."""
import hashlib
import json
import os
import random
import signal
import sys
import threading
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Hang(BaseException):
    """A call into the code under test did not return in time"""


class StopCheck(Exception):
    """Enough violations have been collected"""


def _alarm(_sig, _frame):
    raise Hang()


def observe(fn, *args, limit=60, **kwargs):
    """
    Call the code under test; return ("ok", value) or ("err", exception name)

    A call that does not return within `limit` seconds is ("hang", ...).
    """
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        return ("ok", fn(*args, **kwargs))
    except Hang:
        return ("hang", f"no answer in {limit} s")
    except Exception as exc:          # any exception is a rejection
        return ("err", f"{type(exc).__name__}: {str(exc)[:200]}")
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def parallel(fn, items, workers=8, chunksize=1):
    """Results of a module-level function over items, from several processes"""
    import concurrent.futures
    import multiprocessing
    for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
        os.environ[k] = "1"
    os.environ["XLA_FLAGS"] = (os.environ.get("XLA_FLAGS", "")
                               + " --xla_cpu_multi_thread_eigen=false").strip()
    items = list(items)
    if not items:
        return []
    with concurrent.futures.ProcessPoolExecutor(
            min(workers, len(items)),
            mp_context=multiprocessing.get_context("spawn")) as pool:
        return list(pool.map(fn, items, chunksize=chunksize))


def jsonable(x):
    import numpy as np
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, (set, frozenset)):
        return sorted((jsonable(v) for v in x), key=str)
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    if isinstance(x, np.generic):
        return x.item()
    try:
        array = np.asarray(x)
        return array.tolist() if array.dtype.kind in "biufUS" else repr(x)
    except Exception:
        return repr(x)


class Check:
    MAX_REPORTED = 5

    def __init__(self, pid, tier=None, seed=None):
        self.pid = pid
        self.tier = tier or os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(seed if seed is not None else os.environ.get("VERIF_SEED", "1"))
        self.rng = random.Random(f"{pid}-{self.seed}")
        self.start = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.calls = 0
        self.samples = []
        self.parts = {}
        self.assumptions = []
        self.violations = []
        self.exhaustive = []
        self.known = self._load_known()
        self.known_hit = set()

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def _load_known(self):
        path = os.path.join(ROOT, "known_findings.json")
        if not os.path.exists(path):
            return []
        return [k for k in json.load(open(path))["open"] if k["property"] == self.pid]

    # -- coverage ---------------------------------------------------------
    def tlc(self, name, res):
        """Account for a TLC run"""
        self.states += res.distinct
        self.transitions += res.generated
        self.parts.setdefault(name, {}).update(
            {"tlc_states": res.distinct, "tlc_transitions": res.generated})
        if res.coverage:
            self.parts[name]["actions"] = res.coverage

    def count(self, name, **kw):
        part = self.parts.setdefault(name, {})
        for k, v in kw.items():
            part[k] = part.get(k, 0) + v

    def sample(self, x, limit=6):
        if len(self.samples) < limit:
            self.samples.append(jsonable(x))

    # -- verdicts ---------------------------------------------------------
    def violation(self, clause, case, expected=None, observed=None):
        """The implementation does not do what the specification says"""
        rec = jsonable({
            "property": self.pid, "clause": clause, "case": case,
            "expected": expected, "observed": observed,
            "tier": self.tier, "seed": self.seed,
        })
        for k in self.known:
            if k["clause"] == clause and all(
                rec["case"].get(f) == v for f, v in k.get("case", {}).items()
            ):
                if k["id"] not in self.known_hit:
                    self.known_hit.add(k["id"])
                    print(f"KNOWN-FINDING: property={self.pid} {k['what']}")
                return
        self.violations.append(rec)
        if len(self.violations) <= self.MAX_REPORTED:
            text = json.dumps(rec, indent=1, sort_keys=True)
            name = f"{self.pid}-{hashlib.sha1(text.encode()).hexdigest()[:12]}.json"
            os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
            with open(os.path.join(ROOT, "replays", name), "w") as f:
                f.write(text + "\n")
            print(f"  {clause}: case={json.dumps(rec['case'])[:600]}")
            print(f"  expected={json.dumps(rec['expected'])[:400]}"
                  f" observed={json.dumps(rec['observed'])[:400]}")
            print(f"VIOLATION property={self.pid} replay=replays/{name}", flush=True)
        # a call without an answer costs a minute: a few of them are enough
        slow = time.time() - self.start > 240
        if len(self.violations) >= 25 or slow or (
                isinstance(observed, (tuple, list)) and tuple(observed[:1]) == ("hang",)):
            raise StopCheck()

    def expect(self, clause, ok, case, expected=None, observed=None):
        self.calls += 1
        if not ok:
            self.violation(clause, case, expected, observed)
        return ok

    def finish(self):
        coverage = {
            "states": self.states,
            "transitions": self.transitions,
            "traces_validated_against_impl": self.traces,
            "comparisons_with_implementation": self.calls,
            "samples": self.samples,
            "parts": self.parts,
        }
        if self.exhaustive:
            coverage["exhaustive_parts"] = self.exhaustive
        evidence = {
            "property": self.pid, "tier": self.tier, "seed": self.seed,
            "level": "model_checking", "coverage": coverage,
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.start, 2),
            "violations": len(self.violations),
        }
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", f"{self.pid}.json"), "w") as f:
            json.dump(evidence, f, indent=1)
            f.write("\n")
        n = len(self.violations)
        print(f"{self.pid} {self.tier}: states={self.states} transitions={self.transitions}"
              f" traces={self.traces} comparisons={self.calls} violations={n}"
              f" wall={evidence['wall_s']}s")
        return 1 if n else 0


def watchdog(check, limit=700):
    """End a check that has found violations but does not come to an end"""
    def wait():
        while True:
            time.sleep(max(1, limit - (time.time() - check.start)))
            if check.violations:
                check.finish()
                sys.stdout.flush()
                os._exit(1)
    threading.Thread(target=wait, daemon=True).start()


def main(pid, run):
    check = Check(pid)
    watchdog(check)
    try:
        try:
            run(check)
        except StopCheck:
            pass
        if not check.violations and (not check.states or not check.traces):
            print(f"{pid}: nothing was explored", file=sys.stderr)
            check.finish()
            return 2
        return check.finish()
    except Exception as exc:
        traceback.print_exc()
        frames = [f.filename for f in traceback.extract_tb(exc.__traceback__)]
        if frames and any("/mpllayout/" in f for f in frames):
            # an unexpected error out of the code under test
            try:
                check.violation("unexpected-error", {"traceback": traceback.format_exc()[-1500:]})
            except StopCheck:
                pass
        if check.violations:
            return check.finish() or 1
        return 2
