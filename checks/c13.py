# -*- coding: utf-8 -*-
"""
C13: the batch runners under all schedules of their workers
"""
import csv
import io
import itertools
import os
import time
from pathlib import Path

import numpy as np
from h5preserve import open as h5open

from mc.core import Check, main, require, scratch, in_dir
from mc.runs import (
    methods, ControlledPool, orders, captured_stdout, allow_workers,
)
from mc.standin import outcome_solution
from mc.util import difference, config_input, SolutionInput

from disc_solver.file_format import (
    registries, CONFIG_FIELDS, SOLUTION_INPUT_FIELDS, ConfigInput,
)
from disc_solver.solve.csvrunner import csvrunner, main as csv_main
from disc_solver.solve.hdf5runner import hdf5runner, main as hdf5_main
from disc_solver.solve.utils import SolverError, get_csv_inputs

OUTCOMES = ("good", "none", "false", "error", "early")
#: not successful, but with several solutions and no final one chosen
MORE = ("unfinished",)
KINDS = ("csv", "csv-main", "hdf5", "hdf5-main")


def row_config(i):
    """The settings of a row"""
    return {
        **{k: str(v) for k, v in vars(config_input()).items()},
        "γ": repr(0.001 * (i + 1)), "v_rin_on_c_s": repr(0.5 + i / 64),
        "stop": str(5 + i), "label": "row",
        "η_H": repr(0.1 + 1e-17 * i + i / 3),
        "interp_slice": "-{},-1".format(i + 2),
        "split_method": "v_θ_deriv" if i % 2 else "human",
    }


def row_of(soln_input):
    """Which row an input comes from"""
    return int(round((float(soln_input.v_rin_on_c_s) - 0.5) * 64))


class Method:
    """Stand-in method with scripted outcomes"""
    def __init__(self, name, outcomes, barrier=None):
        self.name = name
        self.outcomes = outcomes
        self.barrier = barrier

    def __call__(self, inp, run, *, store_internal=True, **kwargs):
        row = row_of(inp)
        with open("calls", "a", encoding="utf8") as f:
            f.write("{} {} {} {}\n".format(
                self.name, row, store_internal, sorted(kwargs.items())
            ))
        outcome = self.outcomes[row]
        used = SolutionInput(**vars(inp))
        try:
            if outcome == "early":
                raise SolverError("nothing")
            run.solutions.add_solution(outcome_solution(used, "flip", row))
            if outcome == "error":
                raise SolverError("scripted")
            if outcome == "good":
                better = SolutionInput(**vars(inp))
                better.γ = np.float64(inp.γ * (1 + 1 / 3))
                run.solutions.add_solution(
                    outcome_solution(better, "best", row)
                )
                run.final_solution = run.solutions.get_last_solution()
                # the method goes on with its own input
                inp.γ = np.float64(99)
                return True
            if outcome in MORE:
                run.solutions.add_solution(
                    outcome_solution(used, "best", row + 10)
                )
                run.solutions.add_solution(
                    outcome_solution(used, "best", row + 20)
                )
                return False
            run.final_solution = None
            return outcome == "none"
        finally:
            if self.barrier is not None:
                self.barrier(row)


class C13(Check):
    id = "C13"
    level = "model_checking"
    rule = (
        "A case is a batch runner, an outcome for each row, a number of "
        "workers and an order in which the workers finish: all orders that "
        "number of workers allows, on a controlled pool which copies tasks "
        "and results as processes do, and again on real worker processes "
        "forced into an order. All runs started, files written, rows "
        "written and what they contain are compared with the rows."
    )
    assumptions = (
        "the methods are stand-ins with scripted outcomes; only solver "
        "errors count as a failing row",
    )
    chunk = 8

    def cases(self, tier):
        deep = tier == "thorough"
        for kind in KINDS:
            for n in range(4):
                for seq in itertools.product(OUTCOMES, repeat=n):
                    for workers in (1, 2, 3):
                        if n == 3 and workers != 2 and not deep:
                            continue
                        for order in orders(n, workers):
                            if workers > 1 and order == sorted(order) and (
                                n < 3 or deep
                            ):
                                continue
                            yield ["fake", kind, list(seq), workers, order]
            for seq in itertools.product(MORE + ("good",), repeat=2):
                yield ["fake", kind, list(seq), 1, [0, 1]]
                yield ["fake", kind, list(seq), 2, [1, 0]]
            some = ("good", "error", "none") if deep else ("good", "error")
            for seq in itertools.product(some, repeat=4):
                for order in orders(4, 3):
                    yield ["fake", kind, list(seq), 3, order]
            for order in orders(3, 3):
                for seq in (
                    ("good", "good", "good"), ("error", "good", "good"),
                    ("good", "early", "none"),
                ):
                    yield ["real", kind, list(seq), 3, order]
            for order in orders(4, 2):
                if deep:
                    yield ["real", kind, ["good", "error", "good", "good"],
                           2, order]

    def evaluate(self, case):
        real, kind, outcomes, workers, order = case
        n = len(outcomes)
        with scratch() as path, in_dir(path):
            infile = Path("in.csv")
            with infile.open("w", encoding="utf8") as f:
                f.write("# a comment\n")
                fields = list(CONFIG_FIELDS) + [
                    "filename", "solution_name"
                ]
                fields.remove("label")
                writer = csv.DictWriter(f, fieldnames=fields, dialect="unix")
                writer.writeheader()
                for i in range(n):
                    row = row_config(i)
                    del row["label"]
                    writer.writerow(dict(
                        row, filename="file{}".format(i),
                        solution_name=str(i),
                    ))
            barrier = None
            log = []
            if real == "real":
                allow_workers()
                barrier = Barrier(order)
                pool = None
            else:
                pool = ControlledPool(order, log)
            label = "batch" if kind == "hdf5" else ""
            with methods(lambda name: Method(name, outcomes, barrier)):
                if pool is None:
                    table = self.start(kind, infile, workers, label)
                else:
                    with pool.installed():
                        table = self.start(kind, infile, workers, label)
            calls = Path("calls").read_text("utf8").splitlines() if n else []
            store = kind != "csv-main"
            wanted = sorted("{} {} {} []".format(
                "mcmc" if "main" in kind else "step", i, store
            ) for i in range(n))
            require(
                sorted(calls) == wanted, "solver calls {}, not {}".format(
                    calls, wanted
                )
            )
            if pool is not None:
                require(
                    ("workers", workers) in log, "workers {}".format(log)
                )
            if kind.startswith("csv"):
                self.table(table, outcomes)
                require(not list(Path(".").glob("*.hdf5")), "wrote a file")
            else:
                self.files(outcomes, label)
        return {
            "transitions": n, "traces": 1, "seen": [
                (kind, workers, str(order[:i])) for i in range(n + 1)
            ], "outcome": (kind, n, outcomes.count("good")),
            "nontrivial": n > 0,
        }

    def start(self, kind, infile, workers, label):
        """Start the batch runner"""
        overrides = {"c_s_on_v_k": "0.0625"}
        if kind == "csv":
            out = io.StringIO()
            csvrunner(
                output_file=out, input_file=infile, nworkers=workers,
                store_internal=True, sonic_method="step",
                overrides=overrides,
            )
            return out.getvalue()
        if kind == "csv-main":
            with captured_stdout():
                csv_main([
                    "--sonic-method", "mcmc", "-n", str(workers),
                    "--output-file", "out.csv", "--override", "c_s_on_v_k",
                    "0.0625", str(infile),
                ])
            return Path("out.csv").read_text("utf8")
        if kind == "hdf5":
            hdf5runner(
                input_file=infile, nworkers=workers, output_dir=Path("."),
                store_internal=True, sonic_method="step",
                overrides=overrides, label=label,
            )
        else:
            hdf5_main([
                "--sonic-method", "mcmc", "--nworkers", str(workers),
                "--output-dir", ".", "--override", "c_s_on_v_k", "0.0625",
                str(infile),
            ])
        return None

    def wanted_input(self, row):
        """The input of the final solution of a row"""
        inp = ConfigInput(**dict(
            row_config(row), c_s_on_v_k="0.0625"
        )).to_soln_input()
        inp.γ = np.float64(inp.γ * (1 + 1 / 3))
        return inp

    def table(self, table, outcomes):
        """The table written"""
        Path("table.csv").write_text(table, "utf8")
        good = [i for i, o in enumerate(outcomes) if o == "good"]
        lines = [
            line for line in table.splitlines() if not line.startswith("#")
        ]
        require(len(lines) == len(good) + 1, "table of {} lines for {}".format(
            len(lines), good
        ))
        rows = list(csv.DictReader(lines, dialect="unix"))
        again = get_csv_inputs(Path("table.csv"))
        require(len(rows) == len(good), "rows of the table")
        require(len(again) == len(good), "rows read back")
        for i, row, back in zip(good, rows, again):
            require(
                sorted(row) == sorted(SOLUTION_INPUT_FIELDS) and
                None not in row.values(), "fields {}".format(row)
            )
            want = self.wanted_input(i)
            have = ConfigInput(**dict(row, label="")).to_soln_input()
            diff = difference(want, have)
            require(diff is None, lambda: "table, row {}: {}".format(i, diff))
            have = ConfigInput(**back).to_soln_input()
            diff = difference(want, have)
            require(diff is None, lambda: "read back, row {}: {}".format(
                i, diff
            ))

    def files(self, outcomes, label):
        """The files written"""
        files = list(Path(".").glob("*.hdf5"))
        require(
            len(files) == len(outcomes), "{} files for {} rows".format(
                len(files), len(outcomes)
            )
        )
        seen = []
        for file in files:
            require(file.name.startswith(label), "name " + file.name)
            with h5open(file, registries, mode="r") as f:
                run = f["run"]
                row = int(run.based_on_solution_solution_name)
                seen.append(row)
                require(
                    run.based_on_solution_filename == "file{}".format(row),
                    "based on {}".format(run.based_on_solution_filename)
                )
                want = ConfigInput(**dict(
                    row_config(row), c_s_on_v_k="0.0625", label=label,
                ))
                diff = difference(want, run.config_input)
                require(diff is None, lambda: "row {}: {}".format(row, diff))
                outcome = outcomes[row]
                n = {
                    "good": 2, "early": 0, "unfinished": 3,
                }.get(outcome, 1)
                require(len(run.solutions) == n, "{} solutions for {}".format(
                    len(run.solutions), outcome
                ))
                if n:
                    diff = difference(
                        want.to_soln_input(),
                        run.solutions["0"].solution_input
                    )
                    require(diff is None, lambda: "row {} {}".format(
                        row, diff
                    ))
                    require(
                        run.solutions["0"].solution[0, 0] == row,
                        "solution of another row"
                    )
                if outcome in MORE:
                    # the last one is what counts then
                    require(
                        run.final_solution.solution[0, 0] == row + 20,
                        "row {} without its final solution".format(row)
                    )
                if outcome == "good":
                    diff = difference(
                        self.wanted_input(row),
                        run.final_solution.solution_input
                    )
                    require(diff is None, lambda: "row {} {}".format(
                        row, diff
                    ))
        require(
            sorted(seen) == list(range(len(outcomes))), "rows {}".format(seen)
        )


class Barrier:
    """Lets real workers finish in an order"""
    def __init__(self, order):
        self.order = order

    def __call__(self, row):
        index = self.order.index(row)
        if index:
            before = "finished{}".format(self.order[index - 1])
            end = time.time() + 30
            while not os.path.exists(before):
                if time.time() > end:
                    raise AssertionError("order not reached")
                time.sleep(0.001)
            # the previous one is on the way to the parent
            time.sleep(0.01)
        Path("finished{}".format(row)).write_text("x")


if __name__ == "__main__":
    main(C13())
