# -*- coding: utf-8 -*-
"""
Shared machinery of the checks: an explicit enumerator of cases (inputs,
operation histories, schedules, fault points) which runs the real code of
/repo for each of them, compares with a reference model, writes evidence and a
replay artefact for each violation.
"""
import argparse
import contextlib
import hashlib
import io
import itertools
import json
import multiprocessing
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
EVIDENCE = VERIF / "evidence"
KNOWN = VERIF / "known_findings.txt"
REPLAYS = EVIDENCE / "replay"

NWORKERS = max(1, min(8, os.cpu_count() or 1))


class Violation(Exception):
    """The property does not hold for the case being evaluated"""
    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key


class HarnessError(Exception):
    """Something is wrong with the harness, not with the code"""


def known_findings(prop):
    """Entries of the known findings file for a property: key -> text"""
    found = {}
    if not KNOWN.exists():
        return found
    for line in KNOWN.read_text(encoding="utf8").splitlines():
        line = line.strip()
        if not line.startswith("finding:"):
            continue
        words = line[len("finding:"):].split()
        fields = dict(w.split("=", 1) for w in words[:2])
        if fields.get("property") == prop:
            found[fields["key"]] = " ".join(words[2:])
    return found


def require(cond, msg, key=None):
    """Raise a violation unless cond"""
    if not cond:
        raise Violation(msg if isinstance(msg, str) else msg(), key=key)


@contextlib.contextmanager
def scratch(prefix="dsv"):
    """A scratch folder which is removed at the end"""
    base = os.environ.get("DSV_SCRATCH") or tempfile.gettempdir()
    path = tempfile.mkdtemp(prefix=prefix, dir=base)
    old = os.getcwd()
    try:
        yield Path(path)
    finally:
        os.chdir(old)
        shutil.rmtree(path, ignore_errors=True)


@contextlib.contextmanager
def in_dir(path):
    """Change the working directory"""
    old = os.getcwd()
    os.chdir(path)
    try:
        yield
    finally:
        os.chdir(old)


@contextlib.contextmanager
def quiet():
    """Capture python level stdout and stderr"""
    out, err = io.StringIO(), io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
        yield out, err


def code_modules():
    """All loaded modules of the code being checked"""
    return [
        mod for name, mod in list(sys.modules.items())
        if (name == "disc_solver" or name.startswith("disc_solver."))
        and mod is not None
    ]


@contextlib.contextmanager
def patched(*pairs):
    """
    Replace objects of the environment wherever the code holds them.

    Each pair is (original, replacement): every module attribute (and item of
    a module level dict) of the code under test which is the original object
    is replaced, so it does not matter in which module or by which name the
    code refers to it.
    """
    undo = []
    try:
        for orig, repl in pairs:
            for mod in code_modules():
                for name, val in list(vars(mod).items()):
                    if val is orig:
                        undo.append((vars(mod), name, val))
                        setattr(mod, name, repl)
                    elif isinstance(val, dict) and not name.startswith("__"):
                        for key, item in list(val.items()):
                            if item is orig:
                                undo.append((val, key, item))
                                val[key] = repl
        yield
    finally:
        for container, name, val in reversed(undo):
            container[name] = val


class Check:
    """
    A check: subclass, define id, level, rule, `cases` and `evaluate`.

    `cases(tier)` yields JSON-able case descriptors, exhausting the stated
    space.  `evaluate(case)` runs the real code for the case, and raises
    Violation, or returns a dict with any of
      outcome: hashable description used to count distinct outcomes
      nontrivial: whether the case exercised the property (default True)
      states, transitions, traces: counts to add up
      seen: list of hashables, unioned over all the cases (distinct states)
      points: new cases to explore (schedule/fault exploration)
    """
    id = None
    level = "exploration"
    rule = ""
    exhaustive = True
    assumptions = ()
    parallel = True
    chunk = 8
    max_violations = 10
    #: seconds of processor time, and in all, after which a single case counts
    #: as not terminating, and those after another one did not
    case_timeout = 90, 300
    late_timeout = 5, 20

    def setup(self, tier):
        """Called once, before cases"""

    def cases(self, tier):
        """Yield cases"""
        raise NotImplementedError

    def evaluate(self, case):
        """Evaluate a case"""
        raise NotImplementedError

    def describe(self):
        """More entries for the coverage"""
        return {}

    # -- running ----------------------------------------------------------
    def _one(self, case):
        def on_alarm(signum, frame):
            self.case_timeout = self.late_timeout
            raise Violation("no result in time: does not end")
        old = [
            (sig, signal.signal(sig, on_alarm))
            for sig in (signal.SIGPROF, signal.SIGALRM)
        ]
        busy, wall = self.case_timeout
        # again if what runs takes it for an error of its own
        signal.setitimer(signal.ITIMER_PROF, busy, 20)
        signal.setitimer(signal.ITIMER_REAL, wall, 40)
        try:
            with quiet() as (out, err), warnings.catch_warnings():
                warnings.simplefilter("ignore")
                res = self.evaluate(case) or {}
            return ("ok", case, res)
        except Violation as e:
            return ("bad", case, str(e), e.key)
        except HarnessError:
            raise
        except (Exception, SystemExit) as e:  # pylint: disable=broad-except
            tb = traceback.format_exc()
            return (
                "bad", case,
                "unexpected {}: {}\n{}".format(type(e).__name__, e, tb), None
            )
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
            signal.setitimer(signal.ITIMER_REAL, 0)
            for sig, handler in old:
                signal.signal(sig, handler)

    def _chunk(self, cases):
        return [self._one(case) for case in cases]

    def _results(self, cases):
        if not self.parallel or NWORKERS == 1:
            for case in cases:
                yield self._one(case)
            return
        ctx = multiprocessing.get_context("fork")
        global _ACTIVE
        _ACTIVE = self
        with ctx.Pool(NWORKERS) as pool:
            def chunks():
                it = iter(cases)
                while True:
                    block = list(itertools.islice(it, self.chunk))
                    if not block:
                        return
                    yield block
            for block in pool.imap(_run_chunk, chunks()):
                yield from block

    def run(self, tier, seed):
        """Run the check, returning the exit code"""
        start = time.time()
        known = known_findings(self.id)
        self.setup(tier)
        evaluations = 0
        nontrivial = set()
        outcomes = {}
        totals = {"states": 0, "transitions": 0, "traces": 0}
        seen = set()
        samples = []
        bad = []
        known_hit = {}
        pending = self.cases(tier)
        while True:
            more = []
            for res in self._results(pending):
                evaluations += 1
                case = res[1]
                if res[0] == "ok":
                    info = res[2]
                    if info.get("known"):
                        for key in info["known"]:
                            if key in known:
                                known_hit.setdefault(key, case)
                            else:
                                bad.append((case, "unlisted: " + key, key))
                    if info.get("nontrivial", True):
                        nontrivial.add(json.dumps(
                            case, sort_keys=True, ensure_ascii=False,
                            default=str,
                        ))
                    out = info.get("outcome", "ok")
                    outcomes[str(out)] = outcomes.get(str(out), 0) + 1
                    for key in totals:
                        totals[key] += info.get(key, 0)
                    seen.update(map(_hash, info.get("seen", ())))
                    more.extend(info.get("points", ()))
                    if len(samples) < 5 and (
                        evaluations in (1, 2, 10, 100, 500)
                    ):
                        samples.append({"case": case, "outcome": str(out)})
                else:
                    _, case, msg, key = res
                    if key is not None and key in known:
                        known_hit.setdefault(key, case)
                    else:
                        bad.append((case, msg, key))
                if len(bad) >= self.max_violations:
                    break
            if not more or bad:
                break
            pending = more
        wall = time.time() - start

        for key in sorted(known_hit):
            print("KNOWN-FINDING: property={} key={} {}".format(
                self.id, key, known[key]
            ))
        REPLAYS.mkdir(parents=True, exist_ok=True)
        for number, (case, msg, key) in enumerate(bad):
            art = {
                "property": self.id, "case": case, "message": msg,
                "key": key, "replay_cmd":
                "/verif/run_check.sh {} --replay <this file>".format(self.id),
            }
            text = json.dumps(art, ensure_ascii=False, indent=1, default=str)
            name = "{}-{}.json".format(
                self.id, hashlib.sha1(text.encode("utf8")).hexdigest()[:10]
            )
            (REPLAYS / name).write_text(text, encoding="utf8")
            print("VIOLATION property={} replay={}".format(
                self.id, REPLAYS / name
            ))
            if number >= 3:
                continue
            print("  case: {}".format(json.dumps(
                case, ensure_ascii=False, default=str
            )[:600]))
            print("  " + msg.strip().replace("\n", "\n  ")[-700:])

        coverage = {
            "evaluations": evaluations,
            "distinct_nontrivial": len(nontrivial),
            "rule": self.rule,
            "samples": samples or [{"case": "none"}],
            "distinct_outcomes": len(outcomes),
            "exhaustive": bool(self.exhaustive) and not bad,
            "known_findings_seen": sorted(known_hit),
        }
        if self.level == "model_checking":
            coverage["states"] = len(seen) or totals["states"]
            coverage["transitions"] = totals["transitions"]
            coverage["traces_validated_against_impl"] = totals["traces"]
        coverage.update(self.describe())
        evidence = {
            "property": self.id, "tier": tier, "seed": seed,
            "level": self.level, "coverage": coverage,
            "assumptions": list(self.assumptions),
            "wall_s": round(wall, 3), "violations": len(bad),
        }
        EVIDENCE.mkdir(parents=True, exist_ok=True)
        (EVIDENCE / (self.id + ".json")).write_text(
            json.dumps(evidence, ensure_ascii=False, indent=1, default=str),
            encoding="utf8"
        )
        print("{}: {} cases, {} distinct, {} outcomes, {} violations, "
              "{:.1f} s".format(
                  self.id, evaluations, len(nontrivial), len(outcomes),
                  len(bad), wall
              ))
        if not bad and evaluations == 0:
            raise HarnessError("nothing was explored")
        return 1 if bad else 0


_ACTIVE = None


def _hash(obj):
    return hashlib.sha1(repr(obj).encode("utf8")).digest()[:12]


def _run_chunk(block):
    return _ACTIVE._chunk(block)  # pylint: disable=protected-access


def main(check):
    """Entry point of a check"""
    parser = argparse.ArgumentParser()
    parser.add_argument("--tier", choices=("quick", "thorough"),
                        default=os.environ.get("VERIF_TIER") or "quick")
    parser.add_argument("--replay")
    parser.add_argument("--serial", action="store_true")
    args = parser.parse_args()
    seed = int(os.environ.get("VERIF_SEED") or 1)
    if args.serial:
        check.parallel = False
    if args.replay:
        art = json.loads(Path(args.replay).read_text(encoding="utf8"))
        check.setup(args.tier)
        res = check._one(art["case"])
        if res[0] == "bad":
            print("VIOLATION property={} replay={}".format(
                check.id, args.replay
            ))
            print(res[2])
            sys.exit(1)
        print("case passes")
        sys.exit(0)
    sys.stdout.reconfigure(encoding="utf8")
    sys.exit(check.run(args.tier, seed))
