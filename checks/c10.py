# -*- coding: utf-8 -*-
"""
C10: the search on γ of the step method, over all histories of outcomes
"""
import builtins
import itertools

import numpy as np

from mc.core import Check, main, require, patched
from mc.standin import Script
from mc.util import (
    make_run, solution_input, difference, MCMCVars, SolutionInput,
)

from disc_solver.analyse.diverge_plot import diverge_plot
from disc_solver.solve.stepper import solver
from disc_solver.solve.utils import SolverError

DIRECTION = {
    "flip": 1, "flip2": 1, "diverge": -1, "diverge2": -1,
}


def start_input(γ, **kwargs):
    """An input with no default in it"""
    return solution_input(
        γ=np.float64(γ), stop=np.float64(7.5), num_angles=33,
        v_rin_on_c_s=np.float64(0.875), η_H=np.float64(0.25),
        mcmc_vars=MCMCVars(True, False, True),
        jump_before_sonic=np.float64(0.125), interp_range=3,
        interp_slice=slice(-5, None), use_taylor_jump=False, η_derivs=False,
        **kwargs
    )


class Model:
    """What the statement says about a history"""
    def __init__(self, γ, num_attempts, max_search):
        self.γ = γ
        self.step = 0.1 * γ
        self.num_attempts = num_attempts
        self.max_search = max_search
        self.first = None
        self.changed = False
        self.searched = 0
        self.done = 0

    def feed(self, outcome):
        """
        An attempt ended: returns how the search ends, or the set of values
        for γ in the next attempt
        """
        self.done += 1
        if outcome == "best":
            return "accepted"
        if outcome == "fail":
            return "raised"
        direction = DIRECTION.get(outcome)
        if self.changed:
            self.step /= 2
        else:
            self.searched += 1
            if self.searched > self.max_search:
                return "gave up"
            if outcome != "stop":
                if self.first is None:
                    self.first = direction
                elif direction != self.first:
                    self.changed = True
                    self.step /= 2
        if outcome == "stop":
            return "stopped"
        new = self.γ + direction * self.step
        if new == self.γ:
            if direction < 0:
                return "stopped"
            # the least that changes anything, or some steps
            low, high = np.nextafter(new, np.inf), new + 8 * np.spacing(new)
        else:
            low = high = new
        if self.done >= self.num_attempts:
            return "gave up"
        return low, high


class C10(Check):
    id = "C10"
    level = "model_checking"
    rule = (
        "A case is a starting γ, limits, and a complete history of outcomes "
        "of attempts given to the real search by a scripted solver (or a "
        "threshold in γ deciding all outcomes, run to the numerical limit); "
        "the inputs of all attempts, what is stored and the result are "
        "compared with a reference search."
    )
    assumptions = (
        "outcomes are given by representative velocity profiles; C14 covers "
        "the classification of all profiles",
    )
    chunk = 32

    def cases(self, tier):
        deep = tier == "thorough"
        depth = 11 if deep else 8
        two = ("flip", "diverge")
        for n in range(depth + 1):
            for seq in itertools.product(two, repeat=n):
                for end in ("best", "fail", None):
                    yield ["seq", list(seq) + ([end] if end else []), 100,
                           20, False, "v_θ_deriv"]
        all_ = ("flip", "flip2", "diverge", "diverge2")
        for n in range(1, 5 if deep else 4):
            for seq in itertools.product(all_, repeat=n):
                for end in ("best", "fail", None):
                    for no_final in (False, True):
                        yield ["seq", list(seq) + ([end] if end else []),
                               100, 20, no_final, "v_θ_deriv"]
        for attempts, search in itertools.product(
            (1, 2, 3, 5), (0, 1, 2, 3)
        ):
            for n in range(6):
                for seq in itertools.product(two, repeat=n):
                    for no_final in (False, True):
                        yield ["seq", list(seq) + ["best"], attempts, search,
                               no_final, "v_θ_deriv"]
        for n in range(1, 6 if deep else 5):
            for seq in itertools.product(two, repeat=n):
                for no_final in (False, True):
                    yield ["seq", list(seq) + ["stop"], 100, 20, no_final,
                           "human"]
                    yield ["seq", list(seq) + ["best"], 100, 20, no_final,
                           "human"]
        # long searches until the outcome changes, also past γ = 0
        for lead, search in itertools.product(range(9, 25), (12, 20, 40)):
            for first in two:
                for n in range(4 if deep else 3):
                    for seq in itertools.product(two, repeat=n):
                        for end in ("best", "fail"):
                            yield ["seq", [first] * lead + list(seq) + [end],
                                   100, search, lead % 2 == 0, "v_θ_deriv"]
        for num in range(0, 81 if deep else 41):
            for γ in (0.001, 0.01, 0.37):
                for no_final in (False, True):
                    # thresholds from far below to far above the start
                    yield ["threshold", γ, γ * (0.1 + num / 16), no_final]
                    yield ["threshold", γ, γ * (1 + (num - 20) * 2.0**-50),
                           no_final]

    def evaluate(self, case):
        if case[0] == "seq":
            return self.sequence(*case[1:])
        return self.threshold(*case[1:])

    def sequence(self, seq, attempts, search, no_final, method):
        """A history of outcomes"""
        inp = start_input(0.01, split_method=method)
        model = Model(inp.γ, attempts, search)

        def decide(index, _):
            if index >= len(seq):
                raise EndOfHistory()
            out = seq[index]
            return "flip" if out == "stop" else out

        answers = []
        asked = []

        def human(prompt=""):
            asked.append(prompt)
            if len(asked) % 2:
                return "nonsense"
            return answers_for(seq, len(asked) // 2 - 1)

        script = Script(decide)
        return self.drive(
            inp, model, script, attempts, search, no_final,
            lambda i: seq[i], human if method == "human" else None,
        )

    def threshold(self, γ, limit, no_final):
        """Outcomes decided by a threshold"""
        inp = start_input(γ)
        model = Model(inp.γ, 100, 20)
        script = Script(
            lambda _, i: "diverge" if i.γ >= limit else "flip"
        )
        res = self.drive(
            inp, model, script, 100, 20, no_final,
            lambda i: "diverge" if script.inputs[i].γ >= limit else "flip",
            None,
        )
        last = script.inputs[-1].γ
        if res["outcome"][0] == "stopped":
            require(
                abs(last - limit) <= 16 * np.spacing(limit),
                "converged to {!r}, not {!r}".format(last, limit)
            )
        else:
            require(
                not abs(limit - γ) < 1.5 * γ,
                "did not find {!r} from {!r}".format(limit, γ)
            )
        return res

    def drive(
        self, inp, model, script, attempts, search, no_final, outcome, human
    ):
        """Run the search against the model"""
        run = make_run()
        before = SolutionInput(**vars(inp))
        raised = None
        succeeded = None
        old_input = builtins.input
        if human is not None:
            builtins.input = human
        try:
            with script.installed(), patched(
                (diverge_plot, lambda *args, **kwargs: None)
            ):
                succeeded = solver(
                    inp, run, store_internal=True, num_attempts=attempts,
                    max_search_steps=search, no_final_solution=no_final,
                )
        except EndOfHistory:
            raised = "end"
        except SolverError as e:
            raised = e
        finally:
            builtins.input = old_input
        require(difference(before, inp) is None, "input was modified")
        made = script.inputs
        want = (model.γ, model.γ)
        states = set()
        ended = None
        for i, used in enumerate(made):
            require(
                want[0] <= used.γ <= want[1],
                "attempt {} used γ {!r}, not {!r}".format(i, used.γ, want)
            )
            same = SolutionInput(**vars(used))
            same.γ = before.γ
            diff = difference(before, same)
            require(diff is None, lambda: "attempt {}: {}".format(i, diff))
            if raised == "end" and i == len(made) - 1:
                break
            model.γ = used.γ
            want = model.feed(outcome(i))
            states.add((
                model.changed, model.searched, model.first, str(want)[:7]
            ))
            if isinstance(want, str):
                ended = want
                require(
                    i == len(made) - 1,
                    "attempt after the search ended ({})".format(ended)
                )
        require(
            raised == "end" or ended is not None,
            "search ended after attempt {} with {!r}".format(
                len(made), raised
            )
        )
        stored = list(run.solutions.values())
        expect = script.made
        require(
            len(stored) == len(expect), "stored {} of {} attempts".format(
                len(stored), len(expect)
            )
        )
        for i, (a, b) in enumerate(zip(stored, expect)):
            require(a.solution[0, 0] == b.solution[0, 0],
                    "attempt {} stored as {}".format(b.solution[0, 0], i))
            diff = difference(made[i], a.solution_input)
            require(diff is None, lambda: "stored input {}".format(diff))
        final = run.final_solution
        if raised == "end":
            pass
        elif ended == "raised":
            require(
                isinstance(raised, SolverError),
                "error in the solver was lost"
            )
        else:
            require(raised is None, "search raised {!r}".format(raised))
            good = ended in ("accepted", "stopped")
            require(
                succeeded is (True if no_final else good),
                "{} reported as {}".format(ended, succeeded)
            )
            if no_final:
                require(
                    not hasattr(final, "solution"),
                    "final solution chosen when asked not to"
                )
            elif good:
                require(
                    final is not None and
                    final.solution[0, 0] == expect[-1].solution[0, 0],
                    "wrong final solution"
                )
            else:
                require(final is None, "unsatisfactory final solution")
        return {
            "seen": sorted(states, key=str), "transitions": len(made),
            "traces": 1, "outcome": (ended, len(made)),
        }


def answers_for(seq, index):
    """What a human would say"""
    if index >= len(seq):
        raise EndOfHistory()
    return {
        "flip": "sign flip", "diverge": "diverge", "stop": "STOP",
    }[seq[index]]


class EndOfHistory(Exception):
    """The history to explore has ended"""


if __name__ == "__main__":
    main(C10())
