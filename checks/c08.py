# -*- coding: utf-8 -*-
"""
C08: selection of solutions
"""
import csv
import io
import itertools
from pathlib import Path

import h5py
import numpy as np
from h5preserve import open as h5open

import matplotlib.pyplot as plt

from mc.core import Check, main, require, scratch, in_dir, patched
from mc.util import (
    make_run, make_solution, solution_input, internal_data,
)

from disc_solver.file_format import registries, SolutionInput
from disc_solver.utils import get_solutions
from disc_solver.analyse.dump_csv import dump_csv, dump_main as dump_csv_main
from disc_solver.analyse.dump_config import dump_cfg
from disc_solver.analyse.params_plot import params_plot
from disc_solver.analyse.compare_plot import compare_plot
from disc_solver.analyse.info import info
from disc_solver.solve import SONIC_METHOD_MAP
from disc_solver.solve.resolve import resolve
from disc_solver.solve.single import solver as single_solver

MISSING = "missing"
SELECTIONS = [None] + [str(i) for i in range(14)] + [
    "latest", "final", "-1", "01", "x", "", " 1",
]


def value(tag):
    """The inflow speed of solution tag, which identifies it"""
    return np.float64(1 + tag / 64)


def soln(tag):
    """Solution with that tag"""
    internal = internal_data(tag, n=2, jac=False)
    internal.angles = [0.01, 0.02]
    return make_solution(
        tag, n=2, inp=solution_input(v_rin_on_c_s=value(tag)),
        internal_data=internal,
    )


def expected(size, final, sel, removed=()):
    """The tag of the solution expected"""
    if sel is None:
        sel = "0"
    if removed:
        left = [i for i in range(size) if i not in removed]
        if sel in [str(i) for i in removed]:
            return MISSING
        if sel == "latest" and final is None:
            return left[-1] if left else MISSING
    if sel == "final":
        return final
    if sel == "latest":
        if final is not None:
            return final
        return size - 1 if size else MISSING
    if sel in [str(i) for i in range(size)]:
        return int(sel)
    return MISSING


def build(size, final, path=None):
    """Run with solutions"""
    run = make_run()
    file = None
    if path is not None:
        file = h5open(path, registries, mode="x")
        file["run"] = run
    for i in range(size):
        run.solutions.add_solution(soln(i))
    if final is None:
        run.final_solution = None
    elif final < size:
        run.final_solution = run.solutions[str(final)]
    else:
        run.final_solution = soln(final)
    if file is not None:
        file.close()
    return run


def via_get(run, path, sel):
    """Direct selection"""
    res = get_solutions(run, sel)
    return None if res is None else res.solution_input.v_rin_on_c_s


def via_file(run, path, sel):
    """Direct selection from a file"""
    with h5open(path, registries, mode="r") as f:
        res = get_solutions(f["run"], sel)
    return None if res is None else res.solution_input.v_rin_on_c_s


def via_dump_csv(run, path, sel):
    """The batch table command"""
    out = io.StringIO()
    dump_csv(path, soln_range=sel, output_file=out, with_header=True)
    rows = list(csv.DictReader(io.StringIO(out.getvalue()), dialect="unix"))
    require(len(rows) == 1, "dumped {} rows".format(len(rows)))
    return float(rows[0]["v_rin_on_c_s"])


def via_dump_csv_main(run, path, sel):
    """The batch table command line"""
    target = Path(path).with_name("out.csv")
    if target.exists():
        target.unlink()
    dump_csv_main([
        str(path), sel, "--with-header", "--file", str(target)
    ])
    with target.open() as f:
        rows = list(csv.DictReader(f, dialect="unix"))
    require(len(rows) == 1, "dumped {} rows".format(len(rows)))
    return float(rows[0]["v_rin_on_c_s"])


def via_dump_cfg(run, path, sel):
    """The configuration command"""
    out = io.StringIO()
    dump_cfg(path, soln_range=sel, output_file=out)
    for line in out.getvalue().splitlines():
        if line.startswith("v_rin_on_c_s"):
            return float(line.split("=")[1])
    return None


def via_info(run, path, sel):
    """The info command"""
    out = io.StringIO()
    info(str(path), group="input", soln_range=sel, output_file=out)
    for line in out.getvalue().splitlines():
        if "v_rin_on_c_s" in line and ":" in line:
            return float(line.split(":")[1])
    return None


def via_params_plot(run, path, sel):
    """A plot of a single solution"""
    fig = params_plot(str(path), soln_range=sel, close=False)
    try:
        # first value of the parameters is the tag
        return value(fig.axes[0].lines[0].get_ydata()[0])
    finally:
        plt.close(fig)


def via_compare_plot(run, path, sel):
    """A plot of multiple solutions"""
    fig = compare_plot([(str(path), sel)], close=False)
    try:
        if not fig.axes[0].lines:
            return None
        return value(fig.axes[0].lines[0].get_ydata()[0])
    finally:
        plt.close(fig)


def via_resolve(run, path, sel):
    """Solving again"""
    used = []

    def fake(inp, run, **kwargs):
        used.append(SolutionInput(**vars(inp)))
        run.solutions.add_solution(soln(50))
        run.final_solution = run.solutions["0"]
        return True

    out = Path(path).with_name("new.hdf5")
    if out.exists():
        out.unlink()
    with patched((single_solver, fake)):
        require(SONIC_METHOD_MAP["single"] is fake, "method not replaced")
        resolve(
            output_file="new.hdf5", sonic_method="single",
            soln_filename=path, soln_range=sel, output_dir=out.parent,
            store_internal=False,
        )
    with h5open(out, registries, mode="r") as f:
        new = f["run"]
        require(
            new.based_on_solution_solution_name == sel,
            "recorded as based on {!r}, not {!r}".format(
                new.based_on_solution_solution_name, sel
            )
        )
    return used[0].v_rin_on_c_s


WAYS = {
    "get": via_get, "file": via_file, "dump_csv": via_dump_csv,
    "dump_csv_main": via_dump_csv_main, "dump_cfg": via_dump_cfg,
    "info": via_info, "params_plot": via_params_plot,
    "compare_plot": via_compare_plot, "resolve": via_resolve,
}


class C08(Check):
    id = "C08"
    level = "exploration"
    rule = (
        "A case is a number of solutions, which of them (or another one) is "
        "final or none, which were removed, and a way of selecting; in it, every selection is "
        "made and the solution found compared with the rule. Non trivial if "
        "some selections exist and others do not."
    )
    assumptions = ("solutions are identified by their inflow speed",)
    chunk = 2

    def cases(self, tier):
        sizes = range(13) if tier == "quick" else list(range(22)) + [101]
        for size in sizes:
            for final in [None] + list(range(size)) + [40]:
                yield ["get", size, final]
        for size in (0, 1, 2, 11) if tier == "quick" else range(13):
            finals = {None, 40} | ({0, size - 1} if size else set())
            for final in sorted(finals, key=str):
                if size == 0 and final is not None:
                    continue
                for way in WAYS:
                    if way == "get":
                        continue
                    yield [way, size, final]
        # some of the solutions were removed from the file
        for removed in itertools.chain(
            ([i] for i in range(11)), itertools.combinations(range(4), 2),
            itertools.combinations(range(7, 11), 2), ([9, 10], range(10)),
            itertools.combinations(range(11), 3) if tier != "quick" else (),
        ):
            for final in (None, 40):
                yield ["file", 11, final, list(removed)]

    def evaluate(self, case):
        way, size, final = case[:3]
        removed = case[3] if len(case) > 3 else ()
        found = 0
        count = 0
        with scratch() as path, in_dir(path):
            file = path / "x.hdf5"
            run = build(size, final, None if way == "get" else file)
            if removed:
                with h5py.File(file, "r+") as f:
                    for i in removed:
                        del f["run"]["solutions"][str(i)]
            selections = SELECTIONS
            if way not in ("get", "file"):
                selections = [None, "0", "1", "9", "10", "11", "latest",
                              "final", "x"]
            for sel in selections:
                if sel is None and way == "dump_csv_main":
                    continue
                want = expected(size, final, sel, removed)
                count += 1
                try:
                    got = WAYS[way](run, file, sel)
                except Exception as e:  # pylint: disable=broad-except
                    require(
                        want == MISSING or want is None,
                        "{!r} failed with {!r}".format(sel, e)
                    )
                    continue
                require(
                    want != MISSING,
                    "{!r} does not exist but gave {}".format(sel, got)
                )
                require(
                    (got is None) if want is None else got == value(want),
                    "{!r} gave {}, not {}".format(
                        sel, got, None if want is None else value(want)
                    )
                )
                found += 1
        return {
            "outcome": (way, found), "nontrivial": 0 < found < count,
            "transitions": count,
        }


if __name__ == "__main__":
    main(C08())
