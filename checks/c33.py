# -*- coding: utf-8 -*-
"""
C33: whole runs of the real methods: every entry point, and the settings which
reach the integrator
"""
import itertools
import os
from pathlib import Path

import numpy as np
import scikits.odes
from h5preserve import open as h5open
from pympler.asizeof import asizeof

from mc.core import Check, main, require, scratch, in_dir, patched
from mc.runs import METHODS, ControlledPool, captured_stdout, write_config
from mc.util import (
    ODEIndex, solution_input, config_input, make_run, make_solution,
    difference, StatusEnum,
)

from disc_solver.file_format import registries, ConfigInput, Solution
from disc_solver.solve import solve, main as solve_main
from disc_solver.solve import csvrunner as csv_module
from disc_solver.solve import hdf5runner as hdf5_module
from disc_solver.solve import resolve as resolve_module
from disc_solver.solve import hydrostatic, mod_hydro
from disc_solver.solve.config import define_conditions
from disc_solver.solve.solution import solution, ode_system
from disc_solver.solve.utils import SolverError, velocity_stop_generator

F = np.float64
# settings of the run, as texts; what is left out is as in config_input
BASE = dict(
    stop="0.6", taylor_stop_angle="0.1", num_angles="20", γ="0.01",
    mcmc_vars="v_r,v_k",
)
VARIANTS = {
    "base": {},
    "electric": dict(use_E_r="True"),
    "jump": dict(use_taylor_jump="True", stop="0.45"),
    "series": dict(use_taylor_jump="False", taylor_stop_angle="0.0125"),
    "constant": dict(η_derivs="False"),
    "coarse": dict(relative_tolerance="1e-4", absolute_tolerance="1e-7"),
    "steps": dict(max_steps="60"),
    "thick": dict(η_O="1", η_A="1", η_H="0.1", stop="1"),
    "brief": dict(stop="0.2", num_angles="5", max_steps="60"),
    "one": dict(num_angles="1"),
    "long": dict(
        jump_before_sonic="0.95", after_sonic="-0.93", target_velocity="0.05",
    ),
    "interp": dict(
        sonic_interp_size="0.95", after_sonic="-0.91",
        interp_slice="-40,None",
    ),
}
ENTRIES = ("solve", "resolve", "csv", "hdf5")
ALL = ("single", "hydrostatic", "mod_hydro")
OVERRIDES = {"stop": "0.3", "γ": "0.02", "num_angles": "7"}
REAL_ODE = scikits.odes.ode


class Integrator:
    """The library, with the settings it is given"""
    def __init__(self):
        self.calls = []

    def __call__(self, name, rhs, *args, **options):
        self.calls.append((name, options))
        return REAL_ODE(name, rhs, *args, **options)


def text_settings(variant, overrides=()):
    """All settings, as texts"""
    values = dict(BASE, **VARIANTS[variant])
    values.update({k: OVERRIDES[k] for k in overrides})
    return values


def compare_solutions(want, have, what):
    """Solutions, with everything in them"""
    diff = difference(want, have)
    require(diff is None, lambda: "{}: {}".format(what, diff))


class C33(Check):
    id = "C33"
    level = "exploration"
    rule = (
        "A case is a method, an entry point (as a function or as a command), "
        "settings, overrides, and whether internal data is kept: the real "
        "method runs from there, and the file has to have what the method "
        "gives when it is called with these settings itself.  Other cases "
        "are settings: the integrator is called directly with them, and all "
        "calls of it are watched."
    )
    assumptions = (
        "the integrator is deterministic",
        "equations, conditions and joints are C19, C20 and C21",
    )
    chunk = 2

    def cases(self, tier):
        deep = tier == "thorough"
        for method, entry, command, variant, store in itertools.product(
            ALL, ENTRIES, (False, True), VARIANTS, (True, False),
        ):
            if method != "single" and variant in (
                "jump", "long", "interp", "one"
            ):
                continue
            if not deep and method == "mod_hydro" and variant not in (
                "thick", "steps", "brief", "electric"
            ):
                continue
            for over in ((), ("stop",), ("γ", "num_angles")):
                if not deep and over and variant not in ("base", "electric"):
                    continue
                yield ["whole", method, entry, command, variant, store, over]
        for entry, command, store in itertools.product(
            ENTRIES, (False, True), (True, False),
        ):
            if deep or not store:
                yield ["whole", "step", entry, command, "brief", store, ()]
                yield ["whole", "step", entry, command, "brief", store,
                       ("γ", "num_angles")]
        for entry, command in itertools.product(ENTRIES, (False, True)):
            for variant in ("base", "electric"):
                yield ["methods", entry, command, variant]
        tolerances = ("1e-3", "1e-6", "1e-9")
        for which, rtol, atol, steps in itertools.product(
            ("direct", "jump", "series", "sonic-jump", "interp", "root",
             "tstop", "hydrostatic", "mod_hydro"),
            tolerances, ("1e-4", "1e-8", "1e-12"),
            ((10000, 25) if deep else (10000,)),
        ):
            for use_E_r, η_derivs in itertools.product(
                (False, True), (True, False)
            ):
                if which == "mod_hydro" and not use_E_r:
                    # goes on for all of its steps
                    steps = min(steps, 400)
                yield ["settings", which, rtol, atol, steps, use_E_r,
                       η_derivs]
        for which, after, use_E_r in itertools.product(
            ("sonic-jump", "interp"), (None, 0, 0.02, -0.93, -0.91),
            (False, True),
        ):
            yield ["crossing", which, after, use_E_r]
        for which, steps in itertools.product(
            ("direct", "jump", "series", "hydrostatic", "mod_hydro"),
            (1, 7, 25, 60, 200),
        ):
            yield ["settings", which, "1e-6", "1e-10", steps, False, True]

    def evaluate(self, case):
        kind, *args = case
        return getattr(self, kind)(*args)

    # whole runs

    def whole(self, method, entry, command, variant, store, over):
        """A method from an entry point"""
        with scratch() as path, in_dir(path):
            values = text_settings(variant)
            config = ConfigInput(**vars(config_input(**values)))
            for name in over:
                setattr(config, name, OVERRIDES[name])
            inp = config.to_soln_input()
            want_error, want_status, final = None, None, None
            with captured_stdout(), h5open(
                "in.want", registries, mode="x"
            ) as f:
                want = make_run(sonic_method=method)
                f["run"] = want
                try:
                    want_status = METHODS[method](
                        inp, want, store_internal=store
                    )
                    if isinstance(want.final_solution, Solution):
                        final = want.final_solution.solution_input
                    want.finalise()
                except SolverError as e:
                    want_error = str(e)
            status, error, printed = self.start(
                entry, command, method, values, store, over
            )
            files = sorted(
                x for x in os.listdir() if not x.startswith("in.")
            )
            if entry == "csv":
                return self.table(
                    files, final if want_status else None, method, variant,
                    store
                )
            if entry == "hdf5" or want_error is None:
                require(error is None, "raised {!r}".format(error))
            else:
                require(
                    error is not None and want_error in str(error),
                    lambda: "raised {!r}, not {}".format(error, want_error)
                )
            if entry == "hdf5" and command:
                # which ignores the name, see C28
                require(len(files) == 1, "files {}".format(files))
            else:
                require(files == ["out.hdf5"], "files {}".format(files))
            if entry in ("solve", "resolve") and error is None:
                require(
                    bool(status) == bool(want_status),
                    "gave {}".format(status)
                )
                require(
                    not command or "out.hdf5" in printed, "name not printed"
                )
            with h5open(files[0], registries, mode="r") as f, h5open(
                "in.want", registries, mode="r"
            ) as f2:
                have, want = f["run"], f2["run"]
                names = sorted(want.solutions, key=int)
                require(
                    sorted(have.solutions, key=int) == names,
                    lambda: "solutions {}, not {}".format(
                        list(have.solutions), names
                    )
                )
                flags = []
                for name in names:
                    soln = want.solutions[name]
                    compare_solutions(
                        soln, have.solutions[name], "solution " + name
                    )
                    flags.append(str(soln.flag))
                if want_error is None:
                    compare_solutions(
                        want.final_solution, have.final_solution,
                        "final solution"
                    )
                require(have.sonic_method == method, "method")
                diff = difference(
                    inp, have.config_input.to_soln_input()
                )
                require(
                    diff is None, lambda: "configuration {}".format(diff)
                )
                require(
                    bool(have.use_E_r) == (inp.use_E_r is True), "use_E_r"
                )
            return {
                "outcome": (method, entry, want_status, flags[-1:], store),
                "states": len(names),
                "nontrivial": bool(names),
            }

    @staticmethod
    def table(files, final, method, variant, store):
        """The table of a batch"""
        require(files == ["out.hdf5"], "files {}".format(files))
        lines = [
            x for x in Path("out.hdf5").read_text("utf8").splitlines()
            if not x.startswith("#")
        ]
        good = final is not None
        require(len(lines) == 1 + good, "{} lines".format(len(lines)))
        if good:
            rows = csv_module.get_csv_inputs("out.hdf5", label="lbl")
            require(len(rows) == 1, "rows")
            diff = difference(final, ConfigInput(**rows[0]).to_soln_input())
            require(diff is None, lambda: "row {}".format(diff))
        return {"outcome": (method, "csv", good, variant, store)}

    @staticmethod
    def start(entry, command, method, values, store, over):
        """Run it, giving whether it succeeded, what it raised and printed"""
        overrides = {k: OVERRIDES[k] for k in over}
        if entry == "solve":
            write_config("in.conf", **{
                k: v for k, v in vars(config_input(**values)).items()
                if v is not None
            })
        elif entry == "resolve":
            conf = config_input(**values)
            inp = conf.to_soln_input()
            with h5open("in.hdf5", registries, mode="x") as f:
                run = make_run(
                    config_input=conf, sonic_method="step",
                    use_E_r=inp.use_E_r,
                )
                f["run"] = run
                for tag in range(2):
                    run.solutions.add_solution(make_solution(
                        tag, inp=inp if tag else solution_input(),
                    ))
                run.final_solution = run.solutions["1"]
        else:
            row = {
                k: str(v) for k, v in vars(config_input(**values)).items()
                if v is not None and k != "label"
            }
            with open("in.csv", "w", encoding="utf8") as f:
                f.write(",".join(row) + "\n")
                f.write(",".join(
                    '"{}"'.format(x) for x in row.values()
                ) + "\n")
        status, error = None, None
        with captured_stdout() as out, ControlledPool([]).installed(), patched(
            (asizeof, lambda *args: 0)
        ):
            try:
                if command:
                    argv = ["-q", "--sonic-method", method]
                    argv += [
                        "--store-internal" if store else "--no-store-internal"
                    ]
                    argv += ["--output-file", os.path.abspath("out.hdf5")]
                    for name, value in overrides.items():
                        argv += ["--override", name, value]
                    module, args = {
                        "solve": (solve_main, ["in.conf"]),
                        "resolve": (
                            resolve_module.main, ["in.hdf5", "1"]
                        ),
                        "csv": (csv_module.main, ["in.csv"]),
                        "hdf5": (hdf5_module.main, ["in.csv"]),
                    }[entry]
                    status = not module(argv + args)
                else:
                    common = dict(
                        output_file="out.hdf5", sonic_method=method,
                        store_internal=store, overrides=overrides,
                    )
                    here = Path(".").resolve()
                    if entry == "solve":
                        _, status = solve(
                            config_file=Path("in.conf"), output_dir=here,
                            **common
                        )
                    elif entry == "resolve":
                        _, status = resolve_module.resolve(
                            soln_filename=Path("in.hdf5"), soln_range="1",
                            output_dir=here, **common
                        )
                    elif entry == "csv":
                        csv_module.csvrunner(
                            input_file="in.csv", nworkers=1, **common
                        )
                    else:
                        hdf5_module.hdf5runner(
                            input_file="in.csv", nworkers=1, output_dir=here,
                            **common
                        )
            except SystemExit as e:
                status = not e.code
            except Exception as e:  # pylint: disable=broad-except
                error = e
        return status, error, out.getvalue()

    def methods(self, entry, command, variant):
        """Methods one after another do not influence each other"""
        seen = []
        for order in itertools.permutations(("single", "hydrostatic")):
            for method in order + order:
                seen.append(
                    self.whole(method, entry, command, variant, True, ())
                )
        return {
            "outcome": ("methods", entry, command), "traces": len(seen),
        }

    # settings

    def settings(self, which, rtol, atol, steps, use_E_r, η_derivs):
        """What the integrator is told to do"""
        options = dict(
            stop=F(0.6), num_angles=12, γ=F(0.01), η_derivs=η_derivs,
            taylor_stop_angle=F(0.1), relative_tolerance=F(rtol),
            absolute_tolerance=F(atol), max_steps=steps, use_E_r=use_E_r,
            use_taylor_jump=which != "series",
        )
        kwargs = {}
        if which == "sonic-jump":
            options.update(
                jump_before_sonic=F(0.95), after_sonic=F(-0.93)
            )
        elif which == "interp":
            options.update(
                sonic_interp_size=F(0.95), after_sonic=F(-0.91),
                interp_slice=slice(-40, None),
            )
        elif which == "root":
            kwargs.update(
                root_func=velocity_stop_generator(0.05), root_func_args=1
            )
        elif which == "tstop":
            kwargs.update(tstop=np.radians(0.433))
        elif which == "direct":
            kwargs.update(with_taylor=False)
        hydro = {"hydrostatic": hydrostatic, "mod_hydro": mod_hydro}.get(which)
        inp = solution_input(**options)
        watch = Integrator()
        with patched((REAL_ODE, watch)), np.errstate(all="ignore"):
            try:
                if hydro is None:
                    cons = define_conditions(inp)
                    soln = solution(inp, cons, **kwargs)
                elif hydro is hydrostatic:
                    cons = hydro.hydrostatic_define_conditions(inp)
                    soln = hydro.solution(inp, cons)
                else:
                    cons = hydro.mod_hydro_define_conditions(inp)
                    soln = hydro.solution(inp, cons)
            except SolverError as e:
                soln = None
                outcome = str(e)[:20]
        for name, given in watch.calls:
            require(name == "cvode", "integrator " + str(name))
            for key, value in (
                ("rtol", inp.relative_tolerance),
                ("atol", inp.absolute_tolerance), ("max_steps", steps),
            ):
                require(
                    given.get(key) == value, lambda: "{} of {} is {}".format(
                        key, which, given.get(key)
                    )
                )
        states = 0
        if soln is not None:
            outcome = soln.flag.name
            angles = np.linspace(np.radians(0), np.radians(0.6), 12)
            require(
                np.allclose(
                    soln.initial_conditions.angles, angles, rtol=1e-14,
                    atol=0
                ), "angles"
            )
            if which in ("direct", "hydrostatic", "mod_hydro"):
                self.direct(soln, inp, cons, hydro)
            states = len(soln.angles)
        return {
            "outcome": (which, outcome), "states": states,
            "transitions": len(watch.calls), "nontrivial": states > 2,
        }

    @staticmethod
    def crossing(which, after, use_E_r):
        """Where the integrator is to stop around the sonic point"""
        size = F(0.95)
        options = dict(
            stop=F(8), num_angles=161, γ=F(0.01), use_E_r=use_E_r,
            after_sonic=None if after is None else F(after),
            max_steps=100 if which == "interp" else 2000,
        )
        if which == "interp":
            options.update(
                sonic_interp_size=size, interp_slice=slice(-40, None),
            )
        else:
            options.update(jump_before_sonic=size)
        inp = solution_input(**options)
        watch = Integrator()
        soln = None
        with patched((REAL_ODE, watch)), np.errstate(all="ignore"):
            try:
                soln = solution(inp, define_conditions(inp))
            except SolverError as e:
                # the end may be beyond the last angle
                require("angles" in str(e), lambda: str(e))
        after = size if after is None else F(after)
        roots = [1 - size]
        if which == "interp":
            roots.append(1 + after)
        # any parts after these are not stopped
        require(len(watch.calls) >= len(roots), "too few parts")
        roots += [None] * (len(watch.calls) - len(roots))
        out = np.empty(1)
        for (_, given), root in zip(watch.calls, roots):
            func = given.get("rootfn")
            require((func is None) == (root is None), "stopped elsewhere")
            if root is None:
                continue
            signs = []
            for v in (root - 1e-9, root + 1e-9):
                state = np.ones(len(ODEIndex))
                state[ODEIndex.v_θ] = v
                func(0.1, state, out)
                signs.append(np.sign(out[0]))
            require(
                signs[0] * signs[1] == -1, lambda: "stops elsewhere than at "
                "{}".format(root)
            )
        if which != "interp" and soln is not None:
            v = soln.solution[:, ODEIndex.v_θ]
            steps = np.abs(np.diff(v) - (size + after))
            require(
                np.any(steps < 1e-9 * max(1, size + after)),
                lambda: "no jump by {}".format(size + after)
            )
        return {
            "outcome": (which, soln is None or soln.flag.name),
            "states": len(watch.calls), "transitions": len(roots),
        }

    @staticmethod
    def direct(soln, inp, cons, hydro):
        """The integrator itself"""
        if hydro is None:
            kwargs = dict(
                γ=cons.γ, with_taylor=False, use_E_r=inp.use_E_r,
                v_θ_sonic_crit=None, after_sonic=None,
            )
        elif hydro is mod_hydro:
            if inp.use_E_r:
                return
            kwargs = dict(use_E_r=False)
        else:
            kwargs = dict(no_v_deriv=False)
        system, _ = (ode_system if hydro is None else hydro.ode_system)(
            a_0=cons.a_0, norm_kepler_sq=cons.norm_kepler_sq,
            init_con=cons.init_con, η_derivs=inp.η_derivs,
            store_internal=False, **kwargs
        )
        angles, state = cons.angles, np.copy(cons.init_con)
        res = REAL_ODE(
            "cvode", system, linsolver="dense", rtol=inp.relative_tolerance,
            atol=inp.absolute_tolerance, max_steps=inp.max_steps,
            old_api=False, err_handler=lambda *args: None,
            bdf_stability_detection=True,
        ).solve(angles, state)
        require(
            len(res.values.t) == len(soln.angles) or
            res.flag < 0, lambda: "{} angles, not {}".format(
                len(soln.angles), len(res.values.t)
            )
        )
        require(
            StatusEnum(res.flag) == soln.flag or res.flag < 0 > soln.flag,
            lambda: "flag {}, not {}".format(soln.flag, res.flag)
        )
        if res.flag >= 0:
            require(
                np.allclose(
                    res.values.y, soln.solution, rtol=1e-9, atol=1e-12
                ), "differs from the integrator"
            )


if __name__ == "__main__":
    main(C33())
