# -*- coding: utf-8 -*-
"""
C01: what is written to a file is what is read from it
"""
import itertools
import pickle
import subprocess
import sys

import numpy as np
from h5preserve import open as h5open

from mc.core import Check, main, require, scratch
from mc.runs import digest
from mc.util import (
    config_input, solution_input, make_run, make_solution, internal_data,
    difference, snapshot, MCMCVars, InternalData, Problems, StatusEnum,
    InitialConditions, NVARS,
)

from disc_solver.file_format import registries

f8 = np.float64
# floats with all the bits, and the special ones
EXTREME = [
    f8(0.1), f8(1) / 3, f8(-0.0), f8(5e-324), f8(1.7976931348623157e308),
    np.nextafter(f8(1), f8(2)), f8(-1e-17), f8(123456789.123456789),
    f8("inf"), f8("-inf"), f8("nan"), f8(2) ** 60,
]
SOLN_OPTIONS = {
    "internal_data": ("none", "empty", "nojac", "full", "problems"),
    "initial_conditions": (False, True),
    "t_roots": (False, True), "y_roots": (False, True),
    "sonic_point": (False, True), "sonic_point_values": (False, True),
    "derivatives": (False, True), "is_post_shock_only": (False, True),
}
INPUT_OPTIONS = {
    "jump_before_sonic": (None, f8(0.1)),
    "v_θ_sonic_crit": (None, f8(1) / 3),
    "after_sonic": (None, f8(1e-300)),
    "sonic_interp_size": (None, f8(7)),
    "interp_range": (None, 10, 0),
    "interp_slice": ("none", "default", "start", "stop", "step", "all",
                     "zero"),
    "mcmc_vars": (None, 0, 3, 5, 7),
    "η_derivs": (True, False), "use_taylor_jump": (True, False),
    "use_E_r": (True, False),
}
SLICES = {
    "none": None, "default": slice(-1000, -100), "start": slice(4, None),
    "stop": slice(None, -3), "step": slice(None, None, 2),
    "all": slice(-7, -2, 3), "zero": slice(0, 0),
}
CONFIG_OPTIONS = {
    "jump_before_sonic": (None, "None", "0.1"),
    "v_θ_sonic_crit": (None, "None", "1/3"),
    "after_sonic": (None, "None", "1e-300"),
    "sonic_interp_size": (None, "None", "7"),
    "mcmc_vars": (None, "None", "v_r,v_k"),
    "interp_range": ("10", "None", None),
    "interp_slice": ("-1000,-100", "None", None),
    "label": ("lbl", "", "a %(b)s\nτ"),
    "use_E_r": ("False", "True"),
}
RUN_OPTIONS = {
    "config_filename": (None, "a/β.conf"), "time": (None, "1.5 h"),
    "use_E_r": (False, True), "is_post_shock_only": (False, True),
    "based_on_solution_filename": (None, "x.hdf5"),
    "based_on_solution_solution_name": (None, "12"),
    "final": ("unset", "none", "first", "last", "other"),
    "size": (0, 1, 2),
}


def product(options):
    """All combinations, as indices"""
    return itertools.product(*[range(len(v)) for v in options.values()])


def chosen(options, indices):
    """The combination of those indices"""
    return {k: v[i] for (k, v), i in zip(options.items(), indices)}


def build_internal(kind, tag):
    """Internal data of some kind"""
    if kind == "none":
        return None
    if kind == "empty":
        return InternalData()
    if kind == "nojac":
        return internal_data(tag, 3, problems=False, jac=False)
    if kind == "problems":
        p = Problems()
        p["0.1"] = ["one", "two", "one"]
        p[1e-20 + tag] = "with τ"
        return InternalData(problems=p)
    return internal_data(tag, 3)


def build_soln(opts, tag, inp):
    """Solution with the options"""
    n = 1 + tag % 3
    values = np.arange(n * NVARS, dtype=float).reshape(n, NVARS) / 3 + tag
    values.flat[:len(EXTREME)] = EXTREME[:n * NVARS]
    return make_solution(
        tag, n=n, inp=inp, solution=values,
        angles=np.arange(n) / 7 + tag,
        flag=list(StatusEnum)[tag % len(StatusEnum)],
        coordinate_system="system {}".format(tag),
        internal_data=build_internal(opts["internal_data"], tag),
        initial_conditions=None if not opts["initial_conditions"] else
        InitialConditions(
            norm_kepler_sq=f8(1) / 7 + tag, a_0=f8(1) / 9 + tag,
            γ=f8(1) / 11 + tag, init_con=np.arange(NVARS) / 3 + tag,
            angles=np.arange(4) / 13 + tag,
        ),
        t_roots=np.array([0.1, 0.2]) + tag if opts["t_roots"] else None,
        y_roots=np.arange(2 * NVARS).reshape(2, NVARS) / 5 + tag if
        opts["y_roots"] else None,
        sonic_point=f8(1) / 17 + tag if opts["sonic_point"] else None,
        sonic_point_values=np.arange(NVARS) / 19 + tag if
        opts["sonic_point_values"] else None,
        derivatives=values[:, ::-1] / 23 if opts["derivatives"] else None,
        is_post_shock_only=opts["is_post_shock_only"],
    )


def build_input(opts, numbers):
    """Input with the options"""
    opts = dict(opts)
    opts["interp_slice"] = SLICES[opts["interp_slice"]]
    if opts["mcmc_vars"] is not None:
        bits = opts["mcmc_vars"]
        opts["mcmc_vars"] = MCMCVars(
            bool(bits & 1), bool(bits & 2), bool(bits & 4)
        )
    it = itertools.cycle(EXTREME[numbers:] + EXTREME[:numbers])
    for name in (
        "start", "stop", "taylor_stop_angle", "relative_tolerance",
        "absolute_tolerance", "γ", "target_velocity", "v_rin_on_c_s",
        "v_a_on_c_s", "c_s_on_v_k", "η_O", "η_H", "η_A",
    ):
        opts[name] = next(it)
    for i, name in enumerate((
        "max_steps", "num_angles", "nwalkers", "iterations", "threads",
    )):
        opts[name] = 10 ** i + numbers
    opts["split_method"] = "method {}".format(numbers)
    return solution_input(**opts)


DEFAULT_SOLN = {k: v[-1] for k, v in SOLN_OPTIONS.items()}
READER = """
import pickle, sys
from h5preserve import open as h5open
from disc_solver.file_format import registries
with h5open(sys.argv[1], registries, mode="r") as f:
    run = f["run"]
    with open(sys.argv[2], "wb") as out:
        pickle.dump((
            vars(run.config_input), dict(run.solutions.items()),
            run.final_solution,
        ), out)
"""


class C01(Check):
    id = "C01"
    level = "exploration"
    rule = (
        "A case is a combination of present, absent and boundary values of "
        "all optional fields of a run, of a configuration, of eight inputs "
        "of solutions or of eight solutions (all combinations of each); the "
        "object is written, read (some in another process), written again "
        "and read again, and compared with the original in every field."
    )
    assumptions = ("numbers are compared bit by bit, except for the sign of "
                   "zero and the payload of NaN",)
    chunk = 8

    def cases(self, tier):
        deep = tier == "thorough"
        solns = list(product(SOLN_OPTIONS))
        for i in range(0, len(solns), 8):
            yield ["solutions", i, [list(s) for s in solns[i:i + 8]]]
        inputs = list(product(INPUT_OPTIONS))
        if not deep:
            # all combinations with at most one of the flags changed
            inputs = [i for i in inputs if sum(i[-3:]) in (0, 3)]
        for i in range(0, len(inputs), 8):
            yield ["inputs", i, [list(s) for s in inputs[i:i + 8]]]
        configs = list(product(CONFIG_OPTIONS))
        for i, conf in enumerate(configs):
            # all pairs of values, or all combinations
            changed = sum(1 for c in conf if c)
            if deep or changed <= 2 or changed >= len(conf) - 1:
                yield ["config", list(conf)]
        for run in product(RUN_OPTIONS):
            yield ["of_run", list(run)]
        for n in (9, 10, 11, 12, 101):
            yield ["many", n]
        for i in range(0, len(solns), len(solns) // 7):
            yield ["process", [list(solns[i])]]

    def evaluate(self, case):
        return getattr(self, case[0])(*case[1:])

    def solutions(self, tag, options):
        """Solutions with options"""
        solns = [
            build_soln(chosen(SOLN_OPTIONS, o), tag + i, solution_input())
            for i, o in enumerate(options)
        ]
        return self.trip(make_run(), solns, solns[-1])

    def inputs(self, tag, options):
        """Inputs with options"""
        solns = [
            make_solution(tag + i, n=1, inp=build_input(
                chosen(INPUT_OPTIONS, o), (tag + i) % len(EXTREME)
            ), initial_conditions=None) for i, o in enumerate(options)
        ]
        return self.trip(make_run(), solns, solns[0])

    def config(self, options):
        """Configuration with options"""
        values = {
            name: "{}/{}".format(i, name) for i, name in enumerate(
                k for k in vars(config_input()) if k not in CONFIG_OPTIONS
            )
        }
        conf = config_input(**dict(values, **chosen(CONFIG_OPTIONS, options)))
        return self.trip(make_run(config_input=conf), [], "unset")

    def of_run(self, options):
        """Run with options"""
        opts = chosen(RUN_OPTIONS, options)
        final, size = opts.pop("final"), opts.pop("size")
        solns = [make_solution(i, n=2) for i in range(size)]
        final = {
            "unset": "unset", "none": None, "other": make_solution(77, n=3),
            "first": solns[0] if solns else None,
            "last": solns[-1] if solns else None,
        }[final]
        return self.trip(make_run(
            disc_solver_version="1.2+τ", float_type="f16", **opts
        ), solns, final)

    def many(self, n):
        """Many solutions"""
        solns = [make_solution(
            i, n=1, initial_conditions=None
        ) for i in range(n)]
        return self.trip(make_run(), solns, solns[-1])

    def process(self, options):
        """Read in another process"""
        soln = build_soln(
            chosen(SOLN_OPTIONS, options[0]), 5, solution_input()
        )
        with scratch() as path:
            run = make_run()
            with h5open(path / "a.hdf5", registries, mode="x") as f:
                f["run"] = run
                run.solutions.add_solution(snapshot(soln))
                run.final_solution = run.solutions["0"]
            subprocess.run(
                [sys.executable, "-c", READER, str(path / "a.hdf5"),
                 str(path / "out")], check=True,
            )
            with (path / "out").open("rb") as f:
                conf, solns, final = pickle.load(f)
        for have in (solns["0"], final):
            diff = difference(final_form(soln), have)
            require(diff is None, lambda: "other process: {}".format(diff))
        diff = difference(vars(make_run().config_input), conf)
        require(diff is None, lambda: "other process: {}".format(diff))
        return {"outcome": "process"}

    def compare(self, run, have, solns, final, what):
        """Compare runs"""
        for name in (
            "config_filename", "disc_solver_version", "float_type",
            "sonic_method", "time", "use_E_r", "is_post_shock_only",
            "based_on_solution_filename", "based_on_solution_solution_name",
            "config_input",
        ):
            diff = difference(getattr(run, name), getattr(have, name), name)
            require(diff is None, lambda: "{}: {}".format(what, diff))
        want = {str(i): s for i, s in enumerate(solns)}
        require(
            set(have.solutions) == set(want), "{}: solutions {}".format(
                what, list(have.solutions)
            )
        )
        for key, soln in want.items():
            diff = difference(
                final_form(soln), have.solutions[key], "solution " + key
            )
            require(diff is None, lambda: "{}: {}".format(what, diff))
        if final == "unset":
            require(
                not hasattr(have.final_solution, "angles"),
                what + ": final solution"
            )
        else:
            diff = difference(
                final_form(final), have.final_solution, "final"
            )
            require(diff is None, lambda: "{}: {}".format(what, diff))

    def trip(self, run, solns, final):
        """Write, read, write, read"""
        same = snapshot(run)
        originals = [snapshot(s) for s in solns]
        final_orig = snapshot(final)
        with scratch() as path:
            with h5open(path / "a.hdf5", registries, mode="x") as f:
                f["run"] = run
                for soln in solns:
                    run.solutions.add_solution(soln)
                if final != "unset":
                    run.final_solution = final
            before = digest(path / "a.hdf5")
            with h5open(path / "a.hdf5", registries, mode="r") as f:
                have = f["run"]
                self.compare(same, have, originals, final_orig, "read")
                with h5open(path / "b.hdf5", registries, mode="x") as g:
                    if final == "unset":
                        # as it was before
                        del have._final_solution
                        have._final_solution = type(run)(
                            **{k: None for k in (
                                "config_input", "config_filename",
                                "disc_solver_version", "float_type",
                                "sonic_method",
                            )}
                        ).final_solution
                    g["run"] = have
            require(digest(path / "a.hdf5") == before, "reading changed it")
            with h5open(path / "b.hdf5", registries, mode="r") as f:
                self.compare(
                    same, f["run"], originals, final_orig, "read again"
                )
        return {"outcome": ("same", len(solns), final == "unset")}


def final_form(soln):
    """How internal data is stored: as arrays"""
    if soln is None or soln.internal_data is None:
        return soln
    soln = snapshot(soln)
    data = soln.internal_data
    for obj, names in (
        (data, ("derivs", "params")),
        (data.jacobian_data, ("derivs", "params", "jacobians")),
    ):
        for name in names:
            if not len(getattr(obj, name)):
                shape = (0, NVARS, NVARS) if name == "jacobians" else (
                    0, NVARS
                )
                setattr(obj, name, np.zeros(shape))
    return soln


if __name__ == "__main__":
    main(C01())
