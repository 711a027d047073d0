# -*- coding: utf-8 -*-
"""
C28: options and exit status of the solver commands
"""
import itertools
import os
import sys
from pathlib import Path

import numpy as np
from h5preserve import open as h5open

from mc.core import Check, main, require, scratch, in_dir
from mc.runs import (
    methods, METHODS, ControlledPool, clock, captured_stdout, write_config,
    subsets,
)
from mc.standin import outcome_solution
from mc.util import make_run, make_solution, solution_input, difference

from disc_solver.file_format import registries, ConfigInput
from disc_solver.solve import main as solve_main
from disc_solver.solve.csvrunner import main as csv_main
from disc_solver.solve.hdf5runner import main as hdf5_main
from disc_solver.solve.resolve import main as resolve_main
from disc_solver.solve.utils import SolverError

NOW = "2020-01-02T03:04:05.678901+11:00"
COMMANDS = {
    "solve": (solve_main, ["in.conf"]),
    "resolve": (resolve_main, ["old.hdf5", "1"]),
    "hdf5": (hdf5_main, ["in.csv"]),
    "csv": (csv_main, ["in.csv"]),
}
OVERRIDES = {
    "stop": "7.25", "γ": "0.0625", "η_derivs": "False",
    "interp_slice": "1,9", "label": "other",
}
RESULTS = {
    "true": True, "false": False, "np-true": np.bool_(True),
    "np-false": np.bool_(False), "none": None,
}
SEPARATE = ("--store-internal", "--no-store-internal")


class Method:
    """Records what it is called with"""
    def __init__(self, name, calls, outcome):
        self.name = name
        self.calls = calls
        self.outcome = outcome

    def __call__(self, inp, run, **kwargs):
        self.calls.append((self.name, inp.asdict(), run, dict(kwargs)))
        if self.outcome == "solver error":
            raise SolverError("scripted")
        if self.outcome == "error":
            raise ZeroDivisionError("scripted")
        run.solutions.add_solution(outcome_solution(inp, "flip", 3))
        run.final_solution = run.solutions["0"]
        return RESULTS[self.outcome]


class C28(Check):
    id = "C28"
    level = "exploration"
    rule = (
        "A case is a command, a combination of its options (all choices of "
        "method, storage, output, overrides, workers and labels, valid or "
        "not) and the outcome of the method, which is a stand-in recording "
        "what it gets; what it gets, the files written, what is printed and "
        "the exit status are compared with the options."
    )
    assumptions = (
        "an exception leaving the entry point is a failing exit status, as "
        "for any python program",
    )
    chunk = 16

    def cases(self, tier):
        deep = tier == "thorough"
        for command in COMMANDS:
            for method in [None] + sorted(METHODS):
                for store in (None,) + SEPARATE:
                    for out in ("none", "rel", "abs", "dir", "dir-abs"):
                        for over in subsets(("stop", "γ")):
                            yield [command, {
                                "method": method, "store": store,
                                "out": out, "over": list(over),
                            }, "true"]
            for outcome in list(RESULTS) + ["solver error", "error"]:
                for method in [None] + sorted(METHODS):
                    for store in (None,) + SEPARATE:
                        for out in ("none", "rel"):
                            yield [command, {
                                "method": method, "out": out, "store": store,
                            }, outcome]
            for over in subsets(OVERRIDES):
                for perm in itertools.permutations(over) if deep else (
                    over, over[::-1]
                ):
                    yield [command, {"over": list(perm), "out": "rel"},
                           "true"]
            for log in (
                ["-q"], ["--quiet"], ["-v"], ["--verbose"],
                ["--stderr-level", "debug"], ["--log-file", "log"],
                ["--log-file", "log", "--log-file-level", "error", "-q"],
            ):
                for outcome in ("true", "false", "solver error"):
                    yield [command, {"log": log, "out": "rel"}, outcome]
            for workers in ("1", "3", "16"):
                for label in (None, "a", "long label"):
                    for short in (True, False):
                        if command in ("hdf5", "csv"):
                            yield [command, {
                                "workers": workers, "short": short,
                                "label": label if command == "hdf5" else None,
                            }, "true"]
            for bad in (
                ["--sonic-method", "nope"], ["--sonic-method"],
                ["--store-internal", "--no-store-internal"],
                ["--no-store-internal", "--store-internal"],
                ["-q", "-v"], ["-v", "--stderr-level", "info"],
                ["--quiet", "--stderr-level", "info"],
                ["--stderr-level", "loud"], ["--log-file-level", "loud"],
                ["--override", "nope", "1"], ["--override", "stop"],
                ["--override"], ["--unknown-option"], ["too", "many", "args"],
                ["--override", "stop", "7", "--override", "B_r", "3"],
                ["--override", "solution_input", "7"],
            ):
                yield [command, {"bad": bad}, "true"]
            for args in (
                [], ["missing"], ["-q"], ["in.broken"],
            ):
                yield [command, {"args": args}, "true"]
        for args in (["old.hdf5"], ["old.hdf5", "2"], ["old.hdf5", "x"],
                     ["in.conf", "1"], ["missing", "1"], ["1", "old.hdf5"]):
            yield ["resolve", {"args": args}, "true"]

    def evaluate(self, case):
        command, options, outcome = case
        with scratch() as path, in_dir(path), clock(NOW):
            self.prepare()
            return self.command(command, options, outcome)

    def prepare(self):
        """Make the inputs"""
        write_config(
            "in.conf", label="lbl", num_angles=77, γ="0.0123", stop=6,
        )
        Path("in.broken").write_text("neither\nthis\x00nor that")
        with h5open("old.hdf5", registries, mode="x") as f:
            run = make_run()
            f["run"] = run
            for tag in range(2):
                run.solutions.add_solution(make_solution(
                    tag, inp=solution_input(v_rin_on_c_s=np.float64(tag + 2))
                ))
            run.final_solution = run.solutions["1"]
        Path("in.csv").write_text(
            "start,stop,taylor_stop_angle,max_steps,num_angles,"
            "relative_tolerance,absolute_tolerance,γ,nwalkers,iterations,"
            "threads,target_velocity,split_method,v_rin_on_c_s,v_a_on_c_s,"
            "c_s_on_v_k,η_O,η_H,η_A\n"
            "0,6,0.001,1000,77,1e-6,1e-10,0.0123,8,3,1,0.9,v_θ_deriv,1,1,"
            "0.03,0.1,0.2,0.3\n", "utf8"
        )
        os.mkdir("sub")

    def command(self, command, options, outcome):
        """Run a command"""
        # pylint: disable=too-many-branches,too-many-statements
        entry, args = COMMANDS[command]
        args = options.get("args", args)
        argv = list(options.get("log", []))
        if options.get("method"):
            argv += ["--sonic-method", options["method"]]
        if options.get("store"):
            argv.append(options["store"])
        out = options.get("out", "none")
        if out in ("rel", "dir"):
            argv += ["--output-file", "out"]
        elif out == "abs":
            argv += ["--output-file", os.path.abspath("out")]
        elif out == "dir-abs":
            argv += ["--output-file", os.path.abspath("sub/out")]
        if out.startswith("dir"):
            argv += ["--output-dir", "sub"]
        for name in options.get("over", []):
            argv += ["--override", name, OVERRIDES[name]]
        if options.get("workers"):
            argv += [
                "-n" if options["short"] else "--nworkers",
                options["workers"],
            ]
        if options.get("label"):
            argv += ["-l" if options["short"] else "--label",
                     options["label"]]
        argv += options.get("bad", [])
        before = set(os.listdir("."))
        calls = []
        log = []
        status, error = None, None
        old_argv = list(sys.argv)
        with methods(lambda name: Method(name, calls, outcome)), \
                captured_stdout() as text, \
                ControlledPool([0], log).installed():
            try:
                if len(argv) % 2:
                    # as a program
                    sys.argv[1:] = argv + args
                    status = entry()
                else:
                    status = entry(argv + args)
            except SystemExit as e:
                status = e.code
            except Exception as e:  # pylint: disable=broad-except
                error = e
            finally:
                sys.argv[1:] = old_argv[1:]
        failed = error is not None or bool(status)
        text = text.getvalue()
        if "bad" in options or "args" in options:
            require(failed, "accepted {}".format(argv + args))
            require(not calls, "solved with {}".format(argv + args))
            return {"outcome": "refused", "seen": [str(argv)]}
        if command in ("solve", "resolve"):
            good = outcome in ("true", "np-true")
            require(failed != good, "{} reported as {} {!r}".format(
                outcome, status, error
            ))
        else:
            require(
                failed == (outcome == "error"), "{}: {} {!r}".format(
                    outcome, status, error
                )
            )
        require(len(calls) == 1, "method called {} times".format(len(calls)))
        name, inp, run, kwargs = calls[0]
        default = "step" if command == "csv" else "single"
        wanted = options.get("method") or default
        require(name == wanted, "method {}, not {}".format(name, wanted))
        store = {
            "--store-internal": True, "--no-store-internal": False,
            None: command != "csv",
        }[options.get("store")]
        require(
            kwargs == {"store_internal": store}, "options {}".format(kwargs)
        )
        require(run.sonic_method == wanted, "run says " + run.sonic_method)
        over = {k: OVERRIDES[k] for k in options.get("over", [])}
        base = ConfigInput(**dict(
            start="0", stop="6", taylor_stop_angle="0.001",
            max_steps="10000", num_angles="77", label="lbl",
            relative_tolerance="1e-6", absolute_tolerance="1e-10",
            γ="0.0123", nwalkers="8", iterations="3", threads="1",
            target_velocity="0.9", split_method="v_θ_deriv",
            v_rin_on_c_s="1", v_a_on_c_s="1", c_s_on_v_k="0.03",
            η_O="0.001", η_H="0.0001", η_A="0.0005",
            mcmc_vars="v_r,v_a,v_k", jump_before_sonic="None",
            v_θ_sonic_crit="None", after_sonic="None",
            sonic_interp_size="None",
        ))
        if command in ("hdf5", "csv"):
            base = ConfigInput(**dict(
                base.asdict(), max_steps="1000", η_O="0.1", η_H="0.2",
                η_A="0.3", label=options.get("label") or "", mcmc_vars=None,
                jump_before_sonic=None, v_θ_sonic_crit=None,
                after_sonic=None, sonic_interp_size=None,
            ))
        if command == "resolve":
            # that of the solution
            want = solution_input(v_rin_on_c_s=np.float64(3)).asdict()
            new = ConfigInput(**dict(
                base.asdict(), **over
            )).to_soln_input().asdict()
            want.update({k: new[k] for k in over if k != "label"})
        else:
            config = ConfigInput(**dict(base.asdict(), **over))
            want = config.to_soln_input().asdict()
            diff = difference(config, run.config_input)
            require(diff is None, lambda: "configuration: {}".format(diff))
        for key, val in want.items():
            if key == "mcmc_vars":
                continue
            diff = difference(val, inp[key], key)
            require(diff is None, lambda: "input {}".format(diff))
        if options.get("workers"):
            require(
                ("workers", int(options["workers"])) in log,
                "workers {}".format(log)
            )
        known = []
        if "--log-file" in options.get("log", []) and (
            not os.path.exists("log")
        ):
            require(command in ("hdf5", "csv"), "no log file")
            known = ["batch-logging"]
        known += self.files(
            command, out, options, over, before, text, outcome
        ) or []
        return {
            "outcome": (command, outcome, status), "seen": [str(argv)],
            "known": known,
        }

    def files(self, command, out, options, over, before, text, outcome):
        """The files written, and what is printed"""
        new = sorted(set(os.listdir(".")) - before - {"log"})
        sub = sorted(os.listdir("sub"))
        if command == "csv":
            known = []
            if out == "dir" and new == ["out"]:
                known = ["csv-output-dir"]
            elif outcome != "error":
                require(
                    new == (["out"] if out in ("rel", "abs") else []) and
                    sub == (["out"] if "dir" in out else []),
                    "wrote {} and {}".format(new, sub)
                )
            if out == "none" and outcome != "error":
                require("start" in text, "printed {!r}".format(text))
            return known
        if command == "hdf5":
            # one file for each row, which needs its own name
            where = sub if out.startswith("dir") else new
            require(len(new + sub) == 1, "{} {}".format(new, sub))
            if out != "none" and (new + sub) != ["out"]:
                known = ["hdf5-output-file"]
            else:
                known = []
            require(len(where) == 1 or known and out == "dir-abs",
                    "{} {}".format(new, sub))
            where = where or sub
            label = over.get("label", options.get("label") or "")
            require(
                where == ["out"] or
                where[0].startswith(label) and where[0].endswith(".hdf5"),
                "wrote {}".format(where)
            )
            return known
        require(len(new + sub) == 1, "wrote {} and {}".format(new, sub))
        if out in ("rel", "abs"):
            wanted = "out"
        elif out in ("dir", "dir-abs"):
            wanted = "sub/out"
        else:
            wanted = new[0] if new else "-"
            label = "lbl" if command == "resolve" else over.get(
                "label", "lbl"
            )
            require(
                wanted.startswith(label) and wanted.endswith(".hdf5"),
                "wrote {}".format(wanted)
            )
        require(os.path.exists(wanted), "did not write {}".format(wanted))
        if outcome in RESULTS:
            lines = text.strip().splitlines()
            require(
                lines and os.path.exists(lines[-1]) and
                os.path.samefile(lines[-1], wanted),
                "printed {!r}, not {}".format(text, wanted)
            )


if __name__ == "__main__":
    main(C28())
