# -*- coding: utf-8 -*-
"""
C18: shocks, over velocity profiles, states and outcomes of the points tried
"""
import functools
import itertools
import math
import re

import numpy as np
from h5preserve import open as h5open

from mc.core import Check, main, require, scratch, in_dir, patched, quiet
from mc.runs import clock, ControlledPool, captured_stdout, digest
from mc.standin import real_solution, profile
from mc.util import (
    make_run, make_solution, solution_input, difference, snapshot,
    InitialConditions, ODEIndex, NVARS, StatusEnum,
)

from disc_solver.analyse.plot import plot as real_plot
from disc_solver.file_format import registries
from disc_solver.solve.config import define_conditions
from disc_solver.solve.shock import (
    find_shock_test_values, get_shock_modified_initial_conditions,
    compute_shock, shock_from_file,
)
from disc_solver.solve.utils import SolverError

NAN = float("nan")
V = (NAN, 0.0, 0.5, 1.0, 1.5, 4.0, 10.0, 12.0)
LIMITS = (
    dict(), dict(min_v_θ_pre=1.5), dict(max_v_θ_pre=4), dict(min_angle=0),
    dict(min_angle=50), dict(post_max=False),
    dict(min_v_θ_pre=0, max_v_θ_pre=100, min_angle=0, post_max=False),
)
OUTCOMES = (
    "good", "below", "init", "solve", "bug", "short", "save", "plot",
)


class TouchyConditions(InitialConditions):
    """Initial conditions which cannot be changed at some angles"""
    bad = ()

    def create_modified(self, *, init_con, angles):
        if any(abs(angles[0] - b) < 1e-12 for b in self.bad):
            raise ValueError("scripted: no initial conditions")
        return InitialConditions.create_modified(
            self, init_con=init_con, angles=angles
        )


def ref_selected(v, degrees, min_v_θ_pre=1, max_v_θ_pre=10, min_angle=40,
                 post_max=True):
    """Indices of the points at which to try a shock"""
    after = min_angle
    if post_max:
        best = max(x for x in v if not math.isnan(x))
        after = max(after, degrees[list(v).index(best)])
    return [
        i for i, (x, d) in enumerate(zip(v, degrees))
        if min_v_θ_pre < x < max_v_θ_pre and d > after
    ]


class C18(Check):
    id = "C18"
    level = "exploration"
    rule = (
        "A case is a velocity profile and limits (points tried), a state "
        "(conditions after the shock), the outcome of every stage for every "
        "point tried and the order the workers finish in (what is solved, "
        "stored and reported), or a real solution with the inverse of a "
        "shock applied, which the shock has to undo."
    )
    assumptions = (
        "at least one velocity of a solution is defined",
        "the folder for the results exists",
    )

    def cases(self, tier):
        deep = tier == "thorough"
        for n in range(1, 5 if deep else 4):
            for v in itertools.product(range(len(V)), repeat=n):
                yield ["select", list(v), 0]
        for v in itertools.product(range(len(V)), repeat=3):
            yield ["select", list(v), 1]
        for v in itertools.product(
            (1.0000001, 1.5, 3.0, 9.75), (1e-12, 0.25, 3.0), (-1, 1), (0, 1, 2)
        ):
            yield ["jump", *v]
        for seq in itertools.product(OUTCOMES, repeat=2):
            yield ["points", list(seq), 0, "memory"]
        for seq in itertools.product(OUTCOMES, repeat=3):
            for order in range(6 if deep else 1):
                yield ["points", list(seq), order, "memory"]
        for order in range(24):
            yield ["points", ["good", "solve", "below", "good"], order,
                   "memory"]
            yield ["points", ["plot", "good", "save", "below"], order,
                   "memory"]
        for seq in itertools.product(("good", "bug", "save"), repeat=2):
            for which in ("0", "final", "1"):
                yield ["points", list(seq), 0, which]
        for use_E_r in (False, True):
            for k in (3, 10, 30, 50, 58):
                for store in (False, True):
                    yield ["real", use_E_r, k, store]
        yield ["plots", ["good", "below"]]

    def evaluate(self, case):
        return getattr(self, "on_" + case[0])(*case[1:])

    @staticmethod
    def on_select(begin, more):
        """Which points are tried"""
        seen = set()
        for rest in itertools.product(range(len(V)), repeat=more):
            v = [V[i] for i in list(begin) + list(rest)]
            if all(math.isnan(x) for x in v):
                continue
            values = np.arange(len(v) * NVARS, dtype=float).reshape(
                len(v), NVARS
            )
            values[:, ODEIndex.v_θ] = v
            for degrees in ([30, 45, 55, 60], [41, 42, 43, 51], [0, 1, 2, 3]):
                degrees = degrees[:len(v)]
                soln = make_solution(
                    n=len(v), solution=values, angles=np.radians(degrees)
                )
                for limits in LIMITS:
                    angles, got = find_shock_test_values(soln, **limits)
                    want = ref_selected(v, degrees, **limits)
                    require(
                        np.array_equal(angles, soln.angles[want]) and
                        np.array_equal(got, values[want]),
                        lambda: "{} at {} with {}: {}, not {}".format(
                            v, degrees, limits, np.degrees(angles),
                            np.array(degrees)[want]
                        )
                    )
                    seen.add(str(want))
        return {"outcome": sorted(seen)}

    @staticmethod
    def on_jump(v, ρ, sign, index):
        """The state after a shock"""
        before = (np.arange(NVARS) + 2.0) / 7 * sign
        before[ODEIndex.v_θ] = v
        before[ODEIndex.ρ] = ρ
        keep = before.copy()
        angles = np.radians([10.0, 20.0, 30.0, 35.0])
        con = InitialConditions(
            norm_kepler_sq=900.0, a_0=0.75, γ=0.125,
            init_con=np.arange(NVARS) + 0.5, angles=angles,
        )
        con_keep = snapshot(con)
        new = get_shock_modified_initial_conditions(
            initial_conditions=con, angles=angles, jump_θ=angles[index],
            pre_jump_values=before,
        )
        after = new.init_con
        v2, ρ2 = after[ODEIndex.v_θ], after[ODEIndex.ρ]
        ε = 1e-13
        require(abs(v * v2 - 1) <= ε, "product of velocities {}".format(
            v * v2
        ))
        require(abs(ρ * v - ρ2 * v2) <= ε * ρ * v, "mass flux")
        require(
            abs(ρ * (v**2 + 1) - ρ2 * (v2**2 + 1)) <= ε * ρ * (v**2 + 1),
            "momentum flux"
        )
        for i in range(NVARS):
            if i not in (ODEIndex.v_θ, ODEIndex.ρ):
                require(
                    after[i] == keep[i],
                    "{} is not continuous".format(ODEIndex(i).name)
                )
        require(
            np.array_equal(new.angles, angles[index:]), "remaining angles"
        )
        require(
            (new.norm_kepler_sq, new.a_0, new.γ) == (900.0, 0.75, 0.125),
            "conditions changed"
        )
        require(np.array_equal(keep, before), "state was modified")
        diff = difference(con_keep, con)
        require(diff is None, lambda: "conditions were modified " + diff)
        return {"outcome": (v, ρ)}

    def on_points(self, seq, order, where, plots=False):
        """Outcomes of the points"""
        n = len(seq)
        total = n + 3
        angles = np.radians(np.linspace(30, 60, total))
        # the last ones can be tried
        v = [0.5, 20.0, 15.0] + [2.0 + i for i in range(n)]
        values = profile(v)
        values[:, ODEIndex.B_r] = np.arange(total)
        TouchyConditions.bad = tuple(
            angles[3 + i] for i, o in enumerate(seq) if o == "init"
        )
        con = TouchyConditions(
            norm_kepler_sq=900.0, a_0=0.75, γ=0.125,
            init_con=np.arange(NVARS) + 0.5, angles=angles,
        )
        inp = solution_input(
            jump_before_sonic=np.float64(0.25), γ=np.float64(0.125),
            max_steps=777, η_derivs=False, use_taylor_jump=True,
            v_θ_sonic_crit=np.float64(0.5), after_sonic=np.float64(0.125),
            interp_range=7, interp_slice=slice(-7, -2),
            sonic_interp_size=np.float64(0.375),
        )
        # what belongs to the midplane or the sonic point is not used again
        without = solution_input(**dict(
            inp.asdict(), use_taylor_jump=False, jump_before_sonic=None,
            v_θ_sonic_crit=None, after_sonic=None, interp_range=None,
            interp_slice=None, sonic_interp_size=None,
        ))
        soln = make_solution(
            5, n=total, inp=inp, solution=values, angles=angles,
            initial_conditions=con,
        )
        calls = []

        def which(values_):
            return int(round(values_[ODEIndex.B_r])) - 3

        def solve(soln_input, conditions, *, modified_initial_conditions,
                  with_taylor=True, is_post_shock_only=False,
                  store_internal=True, **kwargs):
            index = which(modified_initial_conditions.init_con)
            calls.append(index)
            require(not kwargs, "other options {}".format(kwargs))
            diff = difference(without, soln_input)
            require(diff is None, lambda: "input {}".format(diff))
            require(with_taylor is False, "series used after the shock")
            require(is_post_shock_only is True, "not marked")
            require(
                np.array_equal(conditions.init_con, con.init_con),
                "conditions of the midplane"
            )
            require(np.array_equal(
                modified_initial_conditions.angles, angles[3 + index:]
            ), "angles after the shock")
            require(
                abs(modified_initial_conditions.init_con[ODEIndex.v_θ] -
                    1 / v[3 + index]) < 1e-12,
                "velocity after the shock"
            )
            outcome = seq[index]
            if outcome == "solve":
                raise SolverError("scripted failure")
            if outcome == "bug":
                raise RuntimeError("scripted failure")
            m = 4 if outcome == "short" else 5 + index
            states = profile(
                [0.25 if outcome == "below" else 1.5] * m
            )
            return make_solution(
                index, n=m, inp=soln_input, solution=states,
                angles=np.linspace(0.5, 0.6, m), is_post_shock_only=True,
                flag=object() if outcome == "save" else StatusEnum.SUCCESS,
            )

        def plot(run, **kwargs):
            index = which_file(run)
            if seq[index] == "plot":
                raise RuntimeError("scripted failure")
            with open(kwargs["plot_filename"], "w", encoding="utf8") as f:
                f.write(str(index))

        def which_file(run):
            return len(run.final_solution.angles) - 5

        fake = functools.wraps(real_plot)(lambda *a, **k: None)
        fake.__wrapped__ = plot
        orders = list(itertools.permutations(range(n)))
        pool = ControlledPool(orders[order % len(orders)])
        times = [
            "2020-01-01T00:00:{:02d}".format(i) for i in range(n + 2)
        ]
        # the run itself may come from a shock of another
        older = {
            "based_on_solution_filename": "older.hdf5",
            "based_on_solution_solution_name": "4",
        }
        run = make_run(sonic_method="step", **older)
        run.solutions.add_solution(make_solution(
            3, n=total, inp=inp, angles=angles, solution=profile(v[::-1]),
            initial_conditions=InitialConditions(**vars_of(con)),
        ))
        with scratch() as path, in_dir(path):
            (path / "shock_tests").mkdir()
            patches = [(real_solution, solve)]
            if not plots:
                patches.append((real_plot, fake))
            if where == "memory":
                keep_run, keep_soln = snapshot(run), snapshot(soln)
                based = (None, None)

                def go():
                    compute_shock(
                        soln, store_internal=False, nworkers=2,
                        run=run.create_shock_run(
                            filename=None, solution_name=None
                        ),
                    )
            else:
                soln.initial_conditions = InitialConditions(**vars_of(con))
                source = path / "source.hdf5"
                run.solutions.add_solution(soln)
                stored = make_run(sonic_method="step", **older)
                target = {"0": 0, "1": 1, "final": 1}[where]
                with h5open(source, registries, mode="x") as f:
                    f["run"] = stored
                    other = run.solutions["0"]
                    for i in (0, 1):
                        stored.solutions.add_solution(
                            soln if i == target else other
                        )
                    stored.final_solution = stored.solutions["1"]
                before = digest(source)
                based = (str(source), where)
                # the conditions come from the file
                seq = ["solve" if o == "init" else o for o in seq]

                def go():
                    shock_from_file(
                        str(source), soln_range=where, nworkers=2
                    )
            with patched(*patches), clock(*times), pool.installed(), \
                    quiet(), captured_stdout() as out:
                go()
            if where == "memory":
                for a, b in ((keep_run, run), (keep_soln, soln)):
                    diff = compare_loose(a, b)
                    require(diff is None, lambda: "modified: " + diff)
            else:
                require(before == digest(source), "file was modified")
            want_calls = [
                i for i in pool.order if seq[i] != "init"
            ]
            require(
                calls == want_calls, lambda: "solved {}, not {}".format(
                    calls, want_calls
                )
            )
            text = out.getvalue()
            reported = re.findall(r"New plot (.*) for (.*)", text)
            good = [i for i in range(n) if seq[i] in ("good", "below")]
            require(
                len(reported) == len(good), lambda: "{} reported: {}".format(
                    len(reported), text
                )
            )
            names = set()
            for index, (plot_name, soln_name) in zip(good, reported):
                if not plots:
                    with open(plot_name, encoding="utf8") as f:
                        require(f.read() == str(index), "wrong plot")
                require(soln_name not in names, "file used twice")
                names.add(soln_name)
                with h5open(soln_name, registries, mode="r") as f:
                    self.stored(f["run"], index, based, run)
            kept = [i for i in range(n) if seq[i] == "plot"]
            complete = 0
            for file in sorted((path / "shock_tests").glob("*.hdf5")):
                try:
                    with h5open(file, registries, mode="r") as f:
                        found = f["run"]
                        index = len(found.final_solution.angles) - 5
                        self.stored(found, index, based, run)
                        require(index in good + kept, "point stored")
                        complete += 1
                except Exception:  # pylint: disable=broad-except
                    # what a save which failed leaves
                    if str(file) in names:
                        raise
            require(
                complete == len(good) + len(kept), "{} stored".format(complete)
            )
            require(
                text.count("SEE GOOD FILE") ==
                sum(seq[i] == "below" for i in range(n)),
                "good files pointed out"
            )
            workers = [x for x in pool.log if x[0] == "workers"]
            require(workers == [("workers", 2)], "number of workers")
        return {"outcome": (len(good), len(kept)), "transitions": n}

    @staticmethod
    def stored(run, index, based, source):
        """What is stored for a point"""
        require(list(run.solutions) == ["0"], "one solution for each file")
        for soln in (run.solutions["0"], run.final_solution):
            require(len(soln.angles) == 5 + index, "other solution stored")
            require(soln.is_post_shock_only, "solution not marked")
        require(run.is_post_shock_only, "run not marked")
        require(
            (run.based_on_solution_filename,
             run.based_on_solution_solution_name) == based,
            "based on {}".format(run.based_on_solution_filename)
        )
        diff = difference(source.config_input, run.config_input)
        require(diff is None, lambda: "configuration {}".format(diff))
        require(run.sonic_method == source.sonic_method, "method")

    def on_plots(self, seq):
        """With the real plots"""
        return self.on_points(seq, 0, "memory", plots=True)

    @staticmethod
    def on_real(use_E_r, k, store):
        """A shock undoes its inverse"""
        inp = solution_input(
            num_angles=60, stop=np.float64(0.6), γ=np.float64(0.01),
            use_E_r=use_E_r,
        )
        con = define_conditions(inp)
        soln = real_solution(inp, con, store_internal=False)
        require(
            soln.flag == StatusEnum.SUCCESS and len(soln.angles) == 61,
            "no solution to use"
        )
        before = snapshot(soln)
        made = make_solution(
            inp=inp, angles=soln.angles.copy(), solution=soln.solution.copy(),
            initial_conditions=con,
        )
        v = soln.solution[k, ODEIndex.v_θ]
        made.solution[k, ODEIndex.v_θ] = 1 / v
        made.solution[k, ODEIndex.ρ] *= v**2
        after = []

        def spy(*args, **kwargs):
            after.append(real_solution(*args, **kwargs))
            raise SolverError("seen")
        with scratch() as path, in_dir(path), patched(
            (real_solution, spy)
        ), ControlledPool([0]).installed(), quiet(), captured_stdout():
            # the only point which is supersonic and past the maximum
            compute_shock(
                with_maximum(made, k), min_angle=0, nworkers=1,
                max_v_θ_pre=1e30, store_internal=store,
                run=make_run().create_shock_run(
                    filename="a", solution_name="0"
                ),
            )
        require(len(after) == 1, "{} points tried".format(len(after)))
        got = after[0]
        require(
            np.array_equal(got.angles, soln.angles[k:]), lambda:
            "angles {} after the shock".format(got.angles[:3])
        )
        scale = np.abs(soln.solution).max(axis=0)
        err = np.abs(got.solution - soln.solution[k:]).max(axis=0) / scale
        require(
            np.allclose(got.solution[0], soln.solution[k], rtol=1e-12),
            "state after the shock"
        )
        # the density is known relative to its size in the midplane
        require(err.max() < 2e-3, lambda: "differs by {}".format(err))
        require(
            (got.internal_data is not None) == store, "internal data"
        )
        require(got.is_post_shock_only is True, "not marked")
        diff = difference(before.initial_conditions, con)
        require(diff is None, lambda: "conditions were modified " + diff)
        return {"outcome": (use_E_r, k)}


def with_maximum(soln, k):
    """So that only the point k is tried, as the maximum is before it"""
    soln.solution[k - 1, ODEIndex.v_θ] = 1e30
    return soln


def vars_of(con):
    """Arguments to make initial conditions"""
    return dict(
        norm_kepler_sq=con.norm_kepler_sq, a_0=con.a_0, γ=con.γ,
        init_con=con.init_con, angles=con.angles,
    )


def compare_loose(a, b):
    """Compare runs or solutions, whose parts may be special"""
    if hasattr(a, "solutions"):
        if list(a.solutions) != list(b.solutions):
            return "solutions {}".format(list(b.solutions))
        for key in a.solutions:
            diff = difference(a.solutions[key], b.solutions[key])
            if diff:
                return diff
        for name in ("config_input", "config_filename", "sonic_method",
                     "is_post_shock_only", "based_on_solution_filename"):
            diff = difference(getattr(a, name), getattr(b, name))
            if diff:
                return name + diff
        return None
    return difference(a, b)


if __name__ == "__main__":
    main(C18())
