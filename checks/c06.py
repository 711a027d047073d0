# -*- coding: utf-8 -*-
"""
C06: reading of batch files
"""
import itertools
from pathlib import Path

from h5preserve import open as h5open
from pympler.asizeof import asizeof

from mc.core import Check, in_dir, main, patched, require, scratch
from mc.runs import ControlledPool, clock, methods
from mc.util import config_input, make_solution

from disc_solver.file_format import (
    CONFIG_FIELDS, SOLUTION_INPUT_FIELDS, ConfigInput, registries,
)
from disc_solver.solve.csvrunner import csvrunner
from disc_solver.solve.hdf5runner import hdf5runner
from disc_solver.solve.utils import get_csv_inputs

FIELDS = list(SOLUTION_INPUT_FIELDS)
IDS = ["filename", "solution_name"]
NEEDED = [
    n for n in FIELDS if n not in (
        "η_derivs", "jump_before_sonic", "use_taylor_jump", "mcmc_vars",
        "v_θ_sonic_crit", "after_sonic", "sonic_interp_size",
        "interp_range", "interp_slice", "use_E_r",
    )
]
LAYOUTS = {
    "none": None,
    "all": FIELDS,
    "reversed": FIELDS[::-1],
    "rotated": FIELDS[7:] + FIELDS[:7],
    "needed": NEEDED,
    "first": ["start"] + NEEDED[1:][::-1],
    "ids": IDS + FIELDS,
    "ids-last": NEEDED + IDS[::-1],
    "ids-mixed": FIELDS[:3] + IDS[:1] + FIELDS[3:] + IDS[1:],
    "unknown": ["foo"] + FIELDS + ["bar baz", "Start"],
    "unknown-first": ["x", "y", "z"] + NEEDED[::-1] + ["f"],
    "label": ["label"] + FIELDS,
    "few": ["γ", "start"],
    "one": ["η_O"],
    "only-ids": IDS,
}
KEEP = set(CONFIG_FIELDS) | set(IDS)
COMMENTS = ("#note", "# a,b,c", "  # indented", '#"quoted","x"', "#",
            "#" + ",".join(FIELDS))
#: what a row may look like
SHAPES = ("full", "short", "shorter", "long", "empty-cell")
QUOTING = ("all", "none", "some")


def value(name, row):
    """Contents of a cell"""
    base = {
        "split_method": "v_θ_deriv", "η_derivs": "False",
        "use_taylor_jump": "True", "use_E_r": "False",
        "mcmc_vars": "v_r,v_k", "filename": "some, file.hdf5",
        "interp_slice": "-{},-2".format(row + 10), "interp_range": "5",
        "foo": "start", "label": "from file", "max_steps": "100",
        "num_angles": "20", "x": "# not a comment",
    }.get(name)
    if name in ("split_method", "filename", "foo", "label"):
        return base + str(row)
    if base is not None:
        return base
    if name in ("solution_name", "nwalkers", "iterations", "threads"):
        return str(row + 3)
    return "0.{}{}".format(row + 1, (FIELDS + ["z"] * 9).index(name) + 10
                           if name in FIELDS else 7)


def text_of(cell, quoting, index):
    """How the cell is written"""
    needed = "," in cell or '"' in cell or cell.startswith("#")
    if quoting == "all" or needed or (quoting == "some" and index % 2):
        return '"{}"'.format(cell)
    return cell


class C06(Check):
    id = "C06"
    level = "exploration"
    rule = (
        "A case is a batch file: a layout of columns (with or without a "
        "header, in several orders, with missing and unknown columns), a "
        "number of rows, the shape of each, quoting, line ends, and "
        "comments and empty lines at each subset of positions; the inputs "
        "read are compared cell by cell with those written. For each "
        "layout, the batch runners are run on such files and what they "
        "solve is compared too."
    )
    assumptions = (
        "no cell of a first row without header is the name of a setting",
        "the label of all rows is the one asked for (a column of labels in "
        "the file is not used)",
    )
    chunk = 64

    def cases(self, tier):
        deep = tier == "thorough"
        for layout in LAYOUTS:
            for n in range(4):
                places = n + 2
                for quoting in QUOTING:
                    for mask in range(2 ** places):
                        if n == 3 and not deep and (
                            mask.bit_count() not in (0, 1, 2, places)
                        ):
                            continue
                        for blank in (False, True):
                            yield ["read", layout, ["full"] * n, quoting,
                                   mask, blank, "\n"]
                for shapes in itertools.product(SHAPES, repeat=n):
                    for quoting in QUOTING if deep or n < 3 else ("some",):
                        yield ["read", layout, list(shapes), quoting, 0,
                               False, "\n"]
                        if n < 3:
                            yield ["read", layout, list(shapes), quoting,
                                   2 ** places - 1, False, "\n"]
                for end in ("\r\n", "none"):
                    for mask in range(2 ** places):
                        yield ["read", layout, ["full"] * n, "all", mask,
                               False, end]
            for n in (4, 5, 9, 30):
                yield ["read", layout, ["full"] * n, "some", 5, False, "\n"]
            # the same row many times
            yield ["repeated", layout, 4]
        for layout, columns in LAYOUTS.items():
            if columns is not None and not set(NEEDED) <= set(columns):
                continue
            for n in range(4):
                for shape in ("full", "long"):
                    for runner in ("csv", "hdf5"):
                        yield ["runner", runner, layout, [shape] * n]

    def evaluate(self, case):
        getattr(self, case[0])(*case[1:])
        return {"outcome": (case[0], case[1])}

    def contents(self, layout, shapes, quoting, mask, blank, end, row=None):
        """Text of the file and the rows expected"""
        columns = LAYOUTS[layout] or FIELDS
        lines, want = [], []

        def gap(position):
            if mask & (1 << position):
                lines.append(COMMENTS[(position + mask) % len(COMMENTS)])
                if blank:
                    lines.append("")
                    lines.append(COMMENTS[0])
            elif blank:
                lines.append("")
        gap(0)
        if LAYOUTS[layout] is not None:
            lines.append(",".join(
                text_of(c, quoting, i) for i, c in enumerate(columns)
            ))
        gap(1)
        for number, shape in enumerate(shapes):
            cells = [
                value(c, number if row is None else row) for c in columns
            ]
            expected = dict(zip(columns, cells))
            keep = {"short": -1, "shorter": 1}.get(shape)
            if keep is not None and len(cells) > 1:
                for name in columns[keep:]:
                    del expected[name]
                cells = cells[:keep]
            elif shape == "long":
                cells += ["extra", "more"]
            elif shape == "empty-cell" and len(cells) > 1:
                cells[-1] = expected[columns[-1]] = ""
            lines.append(",".join(
                text_of(c, quoting, i) for i, c in enumerate(cells)
            ))
            want.append({k: v for k, v in expected.items() if k in KEEP})
            gap(2 + number)
        if end == "none":
            return "\n".join(lines), want
        return "".join(line + end for line in lines), want

    def read(self, layout, shapes, quoting, mask, blank, end):
        """Read a file"""
        text, want = self.contents(
            layout, shapes, quoting, mask, blank, end
        )
        self.compare(text, want)

    def compare(self, text, want):
        """Compare what is read"""
        with scratch() as path:
            with open(path / "a", "w", encoding="utf8", newline="") as f:
                f.write(text)
            for kwargs in ({}, {"label": "asked"}):
                label = kwargs.get("label", "")
                have = get_csv_inputs(str(path / "a"), **kwargs)
                require(
                    len(have) == len(want), "{} rows, not {}".format(
                        len(have), len(want)
                    )
                )
                for number, (got, expect) in enumerate(zip(have, want)):
                    expect = dict(expect, label=label)
                    require(
                        dict(got) == expect,
                        lambda: "row {}: {}".format(number, {
                            k: (got.get(k), expect.get(k))
                            for k in set(got) | set(expect)
                            if got.get(k) != expect.get(k)
                        })
                    )

    def repeated(self, layout, n):
        """Rows which are the same"""
        text, want = self.contents(
            layout, ["full"] * n, "all", 0, False, "\n", row=1
        )
        self.compare(text, want)

    def runner(self, kind, layout, shapes):
        """What the runners solve"""
        text, want = self.contents(layout, shapes, "some", 3, False, "\n")
        seen = []

        def method(name):
            def solver(inp, run, **kwargs):
                seen.append((name, inp, run))
                soln = make_solution(
                    0, n=1, inp=inp, initial_conditions=None
                )
                run.solutions.add_solution(soln)
                run.final_solution = soln
                return True
            return solver
        times = [
            "2020-01-02T03:04:{:02d}+00:00".format(i) for i in range(60)
        ]
        with scratch() as path, in_dir(path):
            Path("in.csv").write_text(text, "utf8")
            pool = ControlledPool([])
            with methods(method), pool.installed(), clock(*times), patched(
                (asizeof, lambda *args: 0)
            ):
                kwargs = {
                    "input_file": "in.csv", "nworkers": 2,
                    "store_internal": False, "sonic_method": "step",
                    "overrides": {"absolute_tolerance": "1e-7"},
                    "label": "asked",
                }
                # tasks are copied, but not the runs
                if kind == "csv":
                    csvrunner(output_file="out.csv", **kwargs)
                else:
                    hdf5runner(output_dir=path, **kwargs)
            files = sorted(path.glob("*.hdf5"))
            runs = []
            if kind == "hdf5":
                require(len(files) == len(want), "files")
                for name in files:
                    with h5open(name, registries, mode="r") as f:
                        runs.append(f["run"])
                require(
                    all(f.name.startswith("asked") for f in files), "names"
                )
            else:
                require(not files, "files")
                have = get_csv_inputs("out.csv")
                require(len(have) == len(want), "rows of output")
            runs.append(None)
        require(len(seen) == len(want), "rows solved")
        for number, (name, inp, run) in enumerate(seen):
            expect = dict(want[number])
            filename = expect.pop("filename", None)
            soln_name = expect.pop("solution_name", None)
            expect.update(label="asked", absolute_tolerance="1e-7")
            conf = ConfigInput(**expect)
            require(name == "step", "method")
            for got in (run, runs[number] if kind == "hdf5" else run):
                require(
                    got.config_input == conf, "configuration of row"
                )
                require(
                    got.based_on_solution_filename == filename,
                    "file of row"
                )
                require(
                    got.based_on_solution_solution_name == soln_name,
                    "solution of row"
                )
            for key, val in vars(conf.to_soln_input()).items():
                require(
                    str(getattr(inp, key)) == str(val),
                    "{} solved".format(key)
                )


assert set(config_input().asdict()) == set(CONFIG_FIELDS)

if __name__ == "__main__":
    main(C06())
