# -*- coding: utf-8 -*-
"""
C25: matching both sides of the sonic point, over all histories of guesses
"""
import itertools
from types import SimpleNamespace

import numpy as np
import scipy.optimize

from mc.core import Check, main, require, patched
from mc.standin import real_solution
from mc.util import (
    make_run, make_solution, solution_input, difference, internal_data,
    snapshot, InitialConditions, SolutionInput, ODEIndex, NVARS, StatusEnum,
)

from disc_solver.solve.sonic_root import solver
from disc_solver.solve.utils import SolverError

# the meaning of the entries of a guess
GUESS = ("θ_sonic", "v_φ", "v_r", "B_θ", "B_r", "B_φ", "log_ρ", "B_φ_prime")
COMPARED = ("v_r", "v_θ", "v_φ", "B_r", "B_θ", "B_φ")
# number of points of the sonic side, or the way to fail
OUTCOMES = ("one", "two", "three", "badflag", "nointernal", "fail", "nan")
POINTS = {"one": 1, "two": 2, "three": 3, "badflag": 2, "nointernal": 2}


def states(n, tag):
    """Distinct states, from a solution or from the other side"""
    rng = np.arange(n * NVARS, dtype=float).reshape(n, NVARS)
    values = 1 + rng / 32 + tag / 7
    values[:, ODEIndex.v_θ] = np.linspace(0.25, 0.75, n) + tag / 64
    values[:, ODEIndex.ρ] = np.linspace(2, 1, n) + tag / 16
    return values


class C25(Check):
    id = "C25"
    level = "model_checking"
    rule = (
        "A case is the complete history of the outcomes of the guesses of a "
        "scripted root finder, the size of the midplane side, whether "
        "internal data is kept and what the root finder reports; the "
        "conditions solved from, what is stored, what the root finder is "
        "given and the status of the real method are compared with a "
        "reference."
    )
    chunk = 16

    def cases(self, tier):
        deep = tier == "thorough"
        for n in range(6 if deep else 5):
            for seq in itertools.product(OUTCOMES, repeat=n):
                if n > 3 and not deep and seq[0] in ("one", "three"):
                    continue
                yield [list(seq), 3, True, True]
        for n in range(4):
            for seq in itertools.product(OUTCOMES, repeat=n):
                for size, store, success in itertools.product(
                    (2, 4), (True, False), (True, False)
                ):
                    yield [list(seq), size, store, success]

    def evaluate(self, case):
        # pylint: disable=too-many-locals,too-many-statements
        seq, size, store, success = case
        inp = solution_input(
            target_velocity=np.float64(0.875), iterations=17,
            v_rin_on_c_s=np.float64(0.875),
        )
        before = SolutionInput(**vars(inp))
        run = make_run()
        # guesses[i] has the result and the sonic side
        calls = []
        results = []
        guesses = []
        midplane = []
        asked = {}

        def solution(soln_input, initial_conditions, **kwargs):
            mod = kwargs.get("modified_initial_conditions")
            calls.append((
                SolutionInput(**vars(soln_input)),
                snapshot(initial_conditions), kwargs, snapshot(mod),
            ))
            if mod is None:
                require(not midplane, "midplane side solved again")
                soln = make_solution(
                    0, inp=soln_input, solution=states(size, 0),
                    angles=np.linspace(0, 0.1, size),
                    initial_conditions=initial_conditions,
                    flag=StatusEnum.ROOT_RETURN,
                    internal_data=internal_data(0, size) if store else None,
                    t_roots=np.array([0.1]),
                    y_roots=np.ones((1, NVARS)),
                )
                midplane.append((soln, snapshot(soln), initial_conditions))
                return soln
            outcome = seq[len(results)]
            if outcome == "fail":
                raise SolverError("scripted failure")
            tag = len(results) + 1
            n = POINTS[outcome]
            soln = make_solution(
                tag, inp=soln_input, solution=states(n, tag),
                angles=np.linspace(0.3, 0.11, n),
                initial_conditions=initial_conditions,
                flag=StatusEnum.CONV_FAILURE if outcome == "badflag" else
                StatusEnum.SUCCESS,
                internal_data=internal_data(tag, n) if
                store and outcome != "nointernal" else None,
            )
            calls[-1] += (snapshot(soln),)
            return soln

        def root(fun, x0, *args, **kwargs):
            asked["x0"] = np.array(x0)
            asked["kwargs"] = kwargs
            for i, outcome in enumerate(seq):
                guess = np.array(x0) * (1 + (i + 1) / 32) + 0.001 * (
                    np.arange(len(x0))
                )
                if outcome == "nan":
                    guess[1 + i % (len(x0) - 1)] = np.nan
                given = guess.copy()
                guesses.append(given)
                results.append(np.array(fun(guess)))
                require(
                    np.array_equal(guess, given, equal_nan=True),
                    "guess was modified"
                )
            return SimpleNamespace(
                success=success, message="scripted", x=x0,
            )

        orig = scipy.optimize.root
        scipy.optimize.root = root
        try:
            with patched((real_solution, solution), (orig, root)):
                ok = solver(inp, run, store_internal=store)
        finally:
            scipy.optimize.root = orig

        require(difference(before, inp) is None, "input was modified")
        require(bool(ok) is success, "{} reported as {}".format(success, ok))
        require(len(midplane) == 1, "no midplane side")
        mid, mid_before, cons = midplane[0]
        require(
            difference(mid, mid_before) is None, "midplane side was modified"
        )
        require(
            difference(cons, calls[0][1]) is None,
            "initial conditions were modified"
        )
        for used, given, kwargs, *_ in calls:
            require(difference(used, before) is None, "input changed")
            require(
                difference(given, calls[0][1]) is None,
                "initial conditions changed"
            )
            require(kwargs["store_internal"] is store, "internal data")
        # stops at the target velocity
        stop = calls[0][2]["root_func"]
        for v, sign in ((0.75, 1), (0.875, 0), (1.0, -1)):
            out = np.zeros(calls[0][2]["root_func_args"])
            params = np.full(NVARS, 77.0)
            params[ODEIndex.v_θ] = v
            stop(0.05, params, out)
            require(np.sign(out[0]) == sign, "stops elsewhere")
        self.first_guess(asked["x0"], mid)

        sonic_calls = iter(calls[1:])
        stored = list(run.solutions.values())
        expected = [mid_before]
        flags = [None]
        for i, outcome in enumerate(seq):
            if outcome == "nan":
                require(all(results[i] < -1e100), "NaN guess is accepted")
                continue
            call = next(sonic_calls)
            self.conditions(call, guesses[i], calls[0][1], mid_before)
            if outcome == "fail":
                require(
                    len(results[i]) == len(GUESS) and
                    all(results[i] < -1e100), "failing guess is accepted"
                )
                continue
            sonic = call[4]
            wanted = sorted([
                sonic.solution[-1, ODEIndex[v]] -
                mid_before.solution[-1, ODEIndex[v]] for v in COMPARED
            ] + [
                np.log(sonic.solution[-1, ODEIndex.ρ]) -
                np.log(mid_before.solution[-1, ODEIndex.ρ]),
                sonic.angles[-1] - mid_before.angles[-1],
            ])
            require(
                np.allclose(sorted(results[i]), wanted, rtol=1e-9, atol=1e-12),
                "root finder gets {}, not {}".format(results[i], wanted)
            )
            flags.append(sonic.flag)
            expected.append((mid_before, sonic))
        require(next(sonic_calls, None) is None, "solved too often")
        require(
            len(stored) == len(expected), "stored {} of {}".format(
                len(stored), len(expected)
            )
        )
        for i, (soln, want) in enumerate(zip(stored[1:], expected[1:])):
            self.joined(soln, *want)
            require(soln.flag == flags[i + 1], "flag")
        diff = difference(stored[0], mid_before)
        require(diff is None, lambda: "stored midplane side: {}".format(diff))
        diff = difference(run.final_solution, stored[-1])
        require(diff is None, lambda: "final solution: {}".format(diff))
        return {
            "seen": [str(seq[:i]) for i in range(len(seq) + 1)],
            "transitions": len(seq) + 1, "traces": 1,
            "outcome": (len(stored), ok),
        }

    def first_guess(self, x0, mid):
        """The first guess goes along the line to the sound speed"""
        require(len(x0) == len(GUESS), "guess of {}".format(len(x0)))
        last, prev = mid.solution[-1], mid.solution[-2]
        part = (1 - last[ODEIndex.v_θ]) / (
            last[ODEIndex.v_θ] - prev[ODEIndex.v_θ]
        )
        for name, value in zip(GUESS, x0):
            if name == "θ_sonic":
                require(value > mid.angles[-1], "sonic point at {}".format(
                    value
                ))
                continue
            if name == "log_ρ":
                a, b = np.log(last[ODEIndex.ρ]), np.log(prev[ODEIndex.ρ])
            else:
                a, b = last[ODEIndex[name]], prev[ODEIndex[name]]
            require(
                np.isclose(value, a + (a - b) * part, rtol=1e-9),
                "first guess of {} is {}, not {}".format(
                    name, value, a + (a - b) * part
                )
            )

    def conditions(self, call, guess, cons, mid):
        """What the sonic side starts with"""
        mod = call[3]
        require(isinstance(mod, InitialConditions), "conditions")
        require(not call[2].get("with_taylor"), "series at the sonic point")
        require(
            mod.angles[0] == guess[0] and
            np.isclose(mod.angles[-1], mid.angles[-1], rtol=1e-14) and
            len(mod.angles) == len(cons.angles) and
            len(set(np.sign(np.diff(mod.angles)))) == 1,
            "angles from {} to {}".format(mod.angles[0], mod.angles[-1])
        )
        wanted = np.array(cons.init_con)
        wanted[ODEIndex.v_θ] = 1
        for name, value in zip(GUESS[1:], guess[1:]):
            if name == "log_ρ":
                wanted[ODEIndex.ρ] = np.exp(value)
            else:
                wanted[ODEIndex[name]] = value
        require(
            np.array_equal(mod.init_con, wanted),
            "starts at {}, not {}".format(mod.init_con, wanted)
        )
        for name in ("norm_kepler_sq", "a_0", "γ"):
            require(getattr(mod, name) == getattr(cons, name), name)

    def joined(self, soln, mid, sonic):
        """The joined solution"""
        diff = difference(
            soln.angles, np.concatenate([mid.angles, sonic.angles[::-1]])
        ) or difference(
            soln.solution,
            np.concatenate([mid.solution, sonic.solution[::-1]])
        ) or difference(soln.solution_input, mid.solution_input) or difference(
            soln.initial_conditions, mid.initial_conditions
        )
        require(diff is None, lambda: "joined: {}".format(diff))
        require(all(np.diff(soln.angles) > 0), "order of angles")
        parts = [p for p in (
            mid.internal_data, sonic.internal_data
        ) if p is not None]
        if not parts:
            require(soln.internal_data is None, "internal data out of nowhere")
            return
        data = soln.internal_data
        for group, names in (
            ("", ("derivs", "params", "angles", "v_r_normal", "v_φ_normal",
                  "ρ_normal", "v_r_taylor", "v_φ_taylor", "ρ_taylor")),
            ("jacobian_data", ("derivs", "params", "angles", "jacobians")),
        ):
            for name in names:
                wanted = []
                for part, source in (
                    (mid.internal_data, mid), (sonic.internal_data, sonic)
                ):
                    if part is None:
                        continue
                    obj = getattr(part, group) if group else part
                    values = list(getattr(obj, name))
                    wanted += values if source is mid else values[::-1]
                obj = getattr(data, group) if group else data
                diff = difference(
                    np.array(list(getattr(obj, name))), np.array(wanted)
                )
                require(diff is None, lambda: "internal data {} {}: {}".format(
                    group, name, diff
                ))
        problems = {}
        for part in parts:
            for key, value in part.problems.items():
                problems.setdefault(float(key), []).extend(value)
        require(
            {float(k): list(v) for k, v in data.problems.items()} == problems,
            "problems"
        )


if __name__ == "__main__":
    main(C25())
