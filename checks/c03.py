# -*- coding: utf-8 -*-
"""
C03: conversions of configurations
"""
import io
import itertools
from fractions import Fraction
from pathlib import Path

import attr
import numpy as np
from h5preserve import open as h5open
from pympler.asizeof import asizeof

from mc.core import Check, main, patched, require, scratch
from mc.runs import ControlledPool, methods
from mc.util import (
    config_input, solution_input, make_solution, make_run, difference,
    snapshot, MCMCVars, ConfigInput, SolutionInput,
)

from disc_solver.analyse.dump_config import dump_cfg
from disc_solver.file_format import (
    CONFIG_FIELDS, SOLUTION_INPUT_FIELDS, registries,
)
from disc_solver.solve.config import get_input_from_conffile
from disc_solver.solve.csvrunner import csvrunner
from disc_solver.solve.utils import get_csv_inputs

f8 = np.float64
NUMBERS = [
    f8(0.1), f8(1) / 3, f8(-0.0), f8(5e-324), f8(1.7976931348623157e308),
    np.nextafter(f8(1), f8(2)), f8(-1e-17), f8(123456789.123456789),
    f8(2) ** 60, f8(1e22), f8(1e23), f8(2.5e-5), f8(1e16), f8(0.0001),
    f8(0), f8(7),
]
INTS = [0, 1, 7, 10000, 2 ** 53 + 1, 10 ** 16, 123456789012345678]
FLOAT_FIELDS = (
    "start", "stop", "taylor_stop_angle", "relative_tolerance",
    "absolute_tolerance", "γ", "target_velocity", "v_rin_on_c_s",
    "v_a_on_c_s", "c_s_on_v_k", "η_O", "η_H", "η_A",
)
INT_FIELDS = ("max_steps", "num_angles", "nwalkers", "iterations", "threads")
BOOL_FIELDS = ("η_derivs", "use_taylor_jump", "use_E_r")
OPTIONS = {
    "jump_before_sonic": (None, f8(0.1), f8(0)),
    "v_θ_sonic_crit": (None, f8(1) / 3, f8(0)),
    "after_sonic": (None, f8(1e-300), f8(0)),
    "sonic_interp_size": (None, f8(7), f8(0)),
    "interp_range": (None, 10, 0),
    "interp_slice": (
        None, slice(-1000, -100), slice(4, None), slice(None, -3),
        slice(None, None, 2), slice(-7, -2, 3), slice(0, 0),
    ),
    "mcmc_vars": (None,) + tuple(range(8)),
    "η_derivs": (True, False), "use_taylor_jump": (True, False),
    "use_E_r": (True, False),
}
LABELS = ("lbl", "", "%", "100%(x)s", "a = b", "#x", "τ [y]", "x;y", "default")
# strings a user may give, and their meaning
FLOAT_STRINGS = {
    "1": 1.0, "1.": 1.0, ".5": 0.5, "1e-3": 0.001, "1E+3": 1000.0,
    "1/3": 1 / 3, "-5/4": -1.25, " 2 ": 2.0, "+3": 3.0, "-0": 0.0, "0": 0.0, "0.0": 0.0,
    "0.1": 0.1, "1e-300": 1e-300, "0.30000000000000004": 0.1 + 0.2,
}
INT_STRINGS = {
    "1": 1, "10": 10, "1e3": 1000, "6/2": 3, " 5 ": 5, "2.0": 2, "-4": -4,
}
BOOL_STRINGS = {
    "True": True, "true": True, "yes": True, "on": True, "1": True,
    "YES": True, " True ": True, "False": False, "false": False, "no": False,
    "off": False, "0": False, "No": False,
}
SLICE_STRINGS = {
    "-1000,-100": slice(-1000, -100), "None": None, "": None,
    "3,None": slice(3, None), "None,-4": slice(None, -4), "5": slice(5),
    "1,9,2": slice(1, 9, 2), "None,None,-1": slice(None, None, -1),
    " 1,2 ": slice(1, 2), "1, 2": slice(1, 2),
}
MCMC_STRINGS = {
    "None": None, "": None, "v_r": (1, 0, 0), "v_a": (0, 1, 0),
    "v_k": (0, 0, 1), "v_r,v_k": (1, 0, 1), "v_k,v_r": (1, 0, 1),
    "v_r,v_a,v_k": (1, 1, 1), ",": (0, 0, 0), " v_a": (0, 1, 0),
    "v_r, v_k": (1, 0, 1), " v_a , v_r ": (1, 1, 0), "v_rr,v_k": (0, 0, 1),
}
OPTIONAL_FIELDS = (
    "jump_before_sonic", "v_θ_sonic_crit", "after_sonic",
    "sonic_interp_size",
)
BATCH = 32


def build(indices, shift):
    """Input with the chosen options and numbers"""
    opts = {
        k: v[i] for (k, v), i in zip(OPTIONS.items(), indices)
    }
    if opts["mcmc_vars"] is not None:
        bits = opts["mcmc_vars"]
        opts["mcmc_vars"] = MCMCVars(
            bool(bits & 1), bool(bits & 2), bool(bits & 4)
        )
    for i, name in enumerate(FLOAT_FIELDS):
        opts[name] = NUMBERS[(i + shift) % len(NUMBERS)]
    for i, name in enumerate(INT_FIELDS):
        opts[name] = INTS[(i + shift) % len(INTS)]
    opts["split_method"] = ("v_θ_deriv", "other one")[shift % 2]
    return solution_input(**opts)


def same(want, have, what):
    """Compare, with the types that the solver gets"""
    diff = difference(want, have)
    require(diff is None, lambda: "{}: {}".format(what, diff))
    for name in FLOAT_FIELDS + INT_FIELDS + BOOL_FIELDS + OPTIONAL_FIELDS:
        a, b = getattr(want, name), getattr(have, name)
        require(
            isinstance(b, type(a)) or isinstance(a, type(b)),
            "{}: {} is a {}".format(what, name, type(b))
        )


def through_file(conf, path):
    """Write as configuration file and read"""
    with open(path, "w", encoding="utf8") as f:
        conf.to_conf_file(f)
    return get_input_from_conffile(config_file=Path(path))


class C03(Check):
    id = "C03"
    level = "exploration"
    rule = (
        "A case is 32 solver inputs out of all combinations of values of "
        "the optional settings, each with another choice of extreme "
        "numbers, taken through configuration, configuration file, dumped "
        "configuration and batch file; or all strings of a set in each "
        "setting which takes them."
    )
    assumptions = (
        "numbers in settings are finite",
        "the default double precision is used",
        "variables to be sampled left unset (not none) in a configuration "
        "take the default of the reader of the file",
    )
    chunk = 1

    def cases(self, tier):
        inputs = list(itertools.product(*[
            range(len(v)) for v in OPTIONS.values()
        ]))
        if tier != "thorough":
            inputs = [
                i for i in inputs if sum(map(bool, i[:7])) <= 3 or
                sum(map(bool, i[:7])) == 7
            ]
        for n in range(0, len(inputs), BATCH):
            yield ["inputs", n // BATCH, inputs[n:n + BATCH]]
        for shift in range(len(NUMBERS) * 7):
            yield ["inputs", shift, [[1] * 7 + [0] * 3]]
        for name in FLOAT_FIELDS + OPTIONAL_FIELDS:
            yield ["strings", name, "float"]
        for name in INT_FIELDS + ("interp_range",):
            yield ["strings", name, "int"]
        for name in BOOL_FIELDS:
            yield ["strings", name, "bool"]
        yield ["strings", "interp_slice", "slice"]
        yield ["strings", "mcmc_vars", "mcmc"]
        for label in LABELS:
            yield ["labels", label]
        for bits in range(2 ** len(OPTIONAL_FIELDS)):
            for value in ("None", "0.25"):
                yield ["unset", bits, value]
        yield ["reduced", 0]

    def evaluate(self, case):
        return getattr(self, case[0])(*case[1:])

    def inputs(self, number, options):
        """Inputs through everything"""
        inps = [
            build(o, number + i) for i, o in enumerate(options)
        ]
        origs = [snapshot(i) for i in inps]
        with scratch() as path:
            with h5open(path / "run.hdf5", registries, mode="x") as f:
                run = make_run(config_input=config_input(label="from run"))
                dumped = range(number % 7, len(inps), 7)
                for i in dumped:
                    inp = inps[i]
                    run.solutions.add_solution(make_solution(
                        0, n=1, inp=inp, initial_conditions=None
                    ))
                run.final_solution = None
                f["run"] = run
            for i, inp in enumerate(inps):
                conf = inp.to_config_input("label {}".format(i))
                for name in CONFIG_FIELDS:
                    require(
                        isinstance(getattr(conf, name), (str, type(None))),
                        "configuration holds {!r} for {}".format(
                            getattr(conf, name), name
                        )
                    )
                conf_orig = snapshot(conf)
                same(origs[i], conf.to_soln_input(), "configuration")
                have = through_file(conf, path / "a.conf")
                same(origs[i], have.to_soln_input(), "file")
                require(
                    have.label == "label {}".format(i), "label of the file"
                )
                again = through_file(have, path / "b.conf")
                same(origs[i], again.to_soln_input(), "file again")
                require(
                    (path / "a.conf").read_text("utf8") ==
                    (path / "b.conf").read_text("utf8"), "file again"
                )
                require(
                    difference(conf_orig, conf) is None,
                    "configuration was changed"
                )
                rebuilt = ConfigInput(**conf.asdict())
                require(difference(conf, rebuilt) is None, "configuration")
                same(
                    origs[i], SolutionInput(**inp.asdict()), "from a mapping"
                )
                if i not in dumped:
                    continue
                dump_cfg(
                    str(path / "run.hdf5"), soln_range=str(dumped.index(i)),
                    output_file=str(path / "c.conf"),
                )
                have = get_input_from_conffile(config_file=path / "c.conf")
                same(origs[i], have.to_soln_input(), "dumped file")
                require(have.label == "from run", "label of dumped file")
            self.batch(path, inps, origs)
        for inp, orig in zip(inps, origs):
            require(difference(orig, inp) is None, "input was changed")
        return {"outcome": "inputs", "transitions": 7 * len(inps)}

    def batch(self, path, inps, origs):
        """Write as rows of a batch file, and read"""
        def method(name):
            def solve(soln_input, run, **kwargs):
                inp = inps[int(soln_input.max_steps)]
                run.final_solution = make_solution(0, n=1, inp=inp)
                return True
            return solve
        with open(path / "in.csv", "w", encoding="utf8") as f:
            # the row has the number of the input to give as the result
            row = vars(config_input())
            del row["label"]
            names = [n for n in SOLUTION_INPUT_FIELDS if row.get(n)]
            f.write(",".join(names) + "\n")
            for i in range(len(inps)):
                row["max_steps"] = str(i)
                f.write(",".join(
                    '"{}"'.format(row[n]) for n in names
                ) + "\n")
        with methods(method), ControlledPool([]).installed(), patched(
            (asizeof, lambda *args: 0)
        ):
            csvrunner(
                output_file=str(path / "out.csv"),
                input_file=str(path / "in.csv"), nworkers=1,
                store_internal=False, sonic_method="single", overrides={},
            )
        rows = get_csv_inputs(str(path / "out.csv"), label="new")
        require(len(rows) == len(inps), "rows of batch file")
        for row, orig in zip(rows, origs):
            conf = ConfigInput(**row)
            require(conf.label == "new", "label of row")
            same(orig, conf.to_soln_input(), "row of batch file")

    def strings(self, name, kind):
        """Strings in configurations"""
        table = dict({
            "float": FLOAT_STRINGS, "int": INT_STRINGS, "bool": BOOL_STRINGS,
            "slice": SLICE_STRINGS, "mcmc": MCMC_STRINGS,
        }[kind])
        if name in OPTIONAL_FIELDS + ("interp_range",):
            table.update({"None": None, "": None})
        base = config_input().to_soln_input()
        with scratch() as path:
            for text, value in table.items():
                conf = config_input(**{name: text})
                want = value
                if kind == "mcmc" and value is not None:
                    want = MCMCVars(*map(bool, value))
                if kind == "float" and value is not None:
                    want = f8(value)
                want = attr.evolve(base, **{name: want})
                orig = snapshot(conf)
                same(want, conf.to_soln_input(), repr(text))
                same(
                    want, conf.to_soln_input().to_config_input("")
                    .to_soln_input(), repr(text) + " back"
                )
                require(difference(orig, conf) is None, "changed")
                for index, have in enumerate((
                    through_file(conf, path / "a.conf"),
                    through_file(
                        want.to_config_input("x"), path / "b.conf"
                    ),
                )):
                    if name != "mcmc_vars" and not index:
                        # unset, it takes the default
                        have = attr.evolve(have, mcmc_vars="None")
                    same(want, have.to_soln_input(), repr(text) + " file")
        return {"outcome": ("strings", kind), "transitions": len(table)}

    def labels(self, label):
        """Labels are kept"""
        with scratch() as path:
            conf = config_input(label=label, mcmc_vars="v_r")
            have = through_file(conf, path / "a.conf")
            require(
                have.label == label, "label {!r} became {!r}".format(
                    label, have.label
                )
            )
            same(conf.to_soln_input(), have.to_soln_input(), "label")
            conf = solution_input().to_config_input(label)
            require(conf.label == label, "label")
        return {"outcome": "labels"}

    def unset(self, bits, value):
        """Settings which are not set at all"""
        names = [
            n for i, n in enumerate(OPTIONAL_FIELDS) if bits & (1 << i)
        ]
        conf = config_input(mcmc_vars="v_k", **{n: value for n in names})
        want = conf.to_soln_input()
        number = None if value == "None" else f8(value)
        for name in OPTIONAL_FIELDS:
            require(
                getattr(want, name) == (number if name in names else None),
                name
            )
        out = io.StringIO()
        conf.to_conf_file(out)
        with scratch() as path:
            (path / "a.conf").write_text(out.getvalue(), "utf8")
            have = get_input_from_conffile(config_file=path / "a.conf")
        same(want, have.to_soln_input(), "unset")
        return {"outcome": "unset"}

    def reduced(self, _):
        """Input for other parts of the solution"""
        for options in itertools.product(*[
            range(min(2, len(v))) for v in OPTIONS.values()
        ]):
            inp = build([len(v) - 1 if o else 0 for v, o in zip(
                OPTIONS.values(), options
            )], sum(options))
            orig = snapshot(inp)
            have = inp.new_without_sonic_taylor()
            want = snapshot(orig)
            want.use_taylor_jump = False
            for name in OPTIONAL_FIELDS + ("interp_range", "interp_slice"):
                setattr(want, name, None)
            same(want, have, "reduced")
            require(difference(orig, inp) is None, "changed")
        return {"outcome": "reduced"}


assert all(Fraction(s.strip()) is not None for s in INT_STRINGS)

if __name__ == "__main__":
    main(C03())
