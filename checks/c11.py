# -*- coding: utf-8 -*-
"""
C11: the fast crosser, over all histories of qualities of attempts
"""
import itertools

import numpy as np

from mc.core import Check, main, require
from mc.standin import Script, outcome_solution
from mc.util import (
    make_run, solution_input, difference, MCMCVars, SolutionInput,
)

from disc_solver.solve.fast_crosser import solver
from disc_solver.solve.utils import SolverError

FINAL_STOP = 77.5
FINAL_STEPS = 4321
V_0 = 0.875
STEP = 0.01 * V_0
GOLDEN = (np.sqrt(5) - 1) / 2


def start_input(v):
    """An input with no default in it"""
    return solution_input(
        γ=np.float64(0.01), stop=np.float64(7.5), num_angles=33,
        v_rin_on_c_s=np.float64(v), η_H=np.float64(0.25),
        mcmc_vars=MCMCVars(True, False, True),
        jump_before_sonic=np.float64(0.125), interp_range=3,
        interp_slice=slice(-5, None), use_taylor_jump=False, η_derivs=False,
    )


def near(a, b):
    """Whether equal up to roundoff"""
    return abs(a - b) <= 8 * np.spacing(max(abs(a), abs(b)))


class Model:
    """The search for the best inflow speed"""
    def __init__(self, v):
        self.v_0 = v
        self.step = 0.01 * v
        self.phase = "start"
        self.min = self.max = self.mid = None

    def feed(self, v, quality):
        """The next speed after trying v, or why the search ends"""
        # pylint: disable=too-many-return-statements
        point = (v, quality)
        if self.phase == "start":
            self.min = self.max = point
            self.phase = "up"
            return v + self.step
        if self.phase == "up":
            if quality > self.max[1]:
                self.max = point
                return v + self.step
            self.phase = "down"
            return self.min[0] - self.step
        if self.phase == "down":
            if quality > self.min[1]:
                self.min = point
                return v - self.step
            if self.min[0] == self.max[0]:
                return "stuck"
            self.phase = "narrow"
            return self.min[0] + (self.max[0] - self.min[0]) * GOLDEN
        if self.mid is None:
            self.mid = point
        else:
            low, high = sorted((self.mid, point), key=lambda p: p[0])
            if low[1] > high[1]:
                self.mid, self.max = low, high
            else:
                self.min, self.mid = low, high
        new = self.min[0] + (self.max[0] - self.mid[0])
        if new == v:
            return "limit"
        return new

    def state(self):
        """The relation of the qualities and the phase"""
        points = [p[1] for p in (self.min, self.mid, self.max) if p]
        return self.phase, tuple(points)


class C11(Check):
    id = "C11"
    level = "model_checking"
    rule = (
        "A case is the complete history of the qualities (or failures) of "
        "the attempts of the real fast crosser, given by a scripted solver "
        "with several histories of the inner search on γ, or a function of "
        "the inflow speed run to the end; all inputs of all solves, all "
        "stored solutions and the status are compared with a reference "
        "search, and for functions with one maximum its convergence."
    )
    assumptions = (
        "the inner search on γ is the one checked by C10; how far a solution "
        "gets is the largest angle in it which is a number",
    )
    chunk = 16

    def cases(self, tier):
        deep = tier == "thorough"
        for n in range(1, 9 if deep else 7):
            for seq in itertools.product((1, 2, 3), repeat=n):
                yield ["seq", list(seq), len(seq) % 4, True]
        for n in range(1, 7 if deep else 6):
            for seq in itertools.product((0, 1, 2, 3), repeat=n):
                if 0 in seq:
                    yield ["seq", list(seq), 1, False]
        # all orders of qualities while narrowing
        for head in (
            [1, 2, 1, 0.5], [1, 2, 3, 1, 0.5], [2, 1, 3, 1], [1, 0, 2, 0],
        ):
            for n in range(1, 8 if deep else 6):
                for seq in itertools.product((0, 2.5, 4), repeat=n):
                    yield ["seq", head + list(seq), 2, True]
        for inner in range(5):
            for n in range(1, 5):
                for seq in itertools.product((0, 1, 2), repeat=n):
                    yield ["seq", list(seq), inner, bool(n % 2)]
        for num in range(-60, 61):
            for shape in ("abs", "square", "skew"):
                yield ["function", shape, num / 10 + 0.037]
        for fail in range(4):
            yield ["final-fails", fail]

    def evaluate(self, case):
        kind = case[0]
        if kind == "seq":
            return self.sequence(*case[1:])
        if kind == "final-fails":
            return self.final_fails(case[1])
        return self.function(*case[1:])

    def sequence(self, seq, inner, store):
        """A history of qualities, 0 is a failure"""
        return self.drive(
            lambda v, i: seq[i] if i < len(seq) else 1, inner, store,
            len(seq),
        )[0]

    def function(self, shape, best):
        """A function of the inflow speed"""
        best = V_0 + best * STEP

        def quality(v, _):
            x = (v - best) / STEP
            if shape == "abs":
                return 50 - abs(x)
            if shape == "square":
                return 80 - x ** 2
            return 60 - (3 * x if x > 0 else -x)
        res, model, used = self.drive(quality, 0, True, 300)
        if model.phase == "narrow" and model.min[0] <= best and (
            used["limits"][0] <= best <= used["limits"][1]
        ):
            require(
                abs(model.mid[0] - best) < 1e-4 * STEP,
                "converged to {!r}, not {!r}".format(model.mid[0], best)
            )
            require(
                min(abs(np.array(used["v"]) - best)) < 1e-4 * STEP,
                "never got near {!r}".format(best)
            )
            res["outcome"] = "converged"
        return res

    def final_fails(self, index):
        """The solve to the final angle fails"""
        inp = start_input(V_0)
        run = make_run()
        finals = []

        def decide(_, i):
            if i.stop != FINAL_STOP:
                return "best"
            finals.append(1)
            if len(finals) > index:
                return "fail"
            return lambda i, t: outcome_solution(i, "flip", t, len(finals))
        script = Script(decide)
        ok = None
        with script.installed():
            try:
                ok = solver(
                    inp, run, final_stop=FINAL_STOP, final_steps=FINAL_STEPS,
                    num_attempts=index + 1,
                )
            except SolverError:
                pass
        # all that was solved before is still there
        kept = [s.solution[0, 0] for s in run.solutions.values()]
        for made in script.made:
            require(made.solution[0, 0] in kept, "solution lost")
        return {"outcome": ("final fails", ok)}

    def drive(self, quality, inner, store, attempts):
        """Run the search against the model"""
        # pylint: disable=too-many-locals,too-many-statements
        inp = start_input(V_0)
        before = SolutionInput(**vars(inp))
        run = make_run()
        progress = {"attempt": 0, "inner": 0}
        log = []

        def final(i, tag):
            q = quality(i.v_rin_on_c_s, progress["attempt"])
            soln = outcome_solution(i, "diverge", tag, q)
            if tag % 2:
                soln.angles[1] = np.nan
            log.append(("final", i, tag, q))
            progress["attempt"] += 1
            progress["inner"] = 0
            return soln

        def decide(_, i):
            i = SolutionInput(**vars(i))
            if i.stop == FINAL_STOP:
                return lambda _, tag: final(i, tag)
            attempt = progress["attempt"]
            progress["inner"] += 1
            wanted = (attempt * inner) % 3
            out = "flip" if progress["inner"] <= wanted else "best"
            if out == "best" and quality(i.v_rin_on_c_s, attempt) == 0:
                out = "fail"
                progress["attempt"] += 1
                progress["inner"] = 0
            log.append((out, i))
            return out

        script = Script(decide)
        with script.installed():
            ok = solver(
                inp, run, store_internal=store, final_stop=FINAL_STOP,
                final_steps=FINAL_STEPS, num_attempts=attempts,
            )
        require(difference(before, inp) is None, "input was modified")
        require(
            all(k == {"store_internal": store} for k in script.kwargs),
            "internal data option not passed on"
        )

        model = Model(before.v_rin_on_c_s)
        want = before.v_rin_on_c_s
        γ = before.γ
        fresh = True
        done = 0
        used_v = []
        limits = None
        limited = 0
        states = set()
        last = None
        for i, entry in enumerate(log):
            used = entry[1]
            require(
                not isinstance(want, str),
                "attempt after the search ended ({})".format(want)
            )
            same = SolutionInput(**vars(used))
            if entry[0] == "final":
                require(last == "best", "solved a search which did not end")
                require(
                    used.num_angles == FINAL_STEPS, "final number of steps"
                )
                same.stop, same.num_angles = before.stop, before.num_angles
            else:
                require(
                    last in (None, "final", "fail") if fresh else
                    last == "flip", "no final solve after a search"
                )
            if fresh or entry[0] == "final":
                require(
                    used.γ == γ, "γ is {!r}, not {!r}".format(used.γ, γ)
                )
            γ = used.γ
            require(
                near(used.v_rin_on_c_s, want),
                "tried {!r}, not {!r}, in attempt {}".format(
                    used.v_rin_on_c_s, want, done
                )
            )
            same.γ, same.v_rin_on_c_s = before.γ, before.v_rin_on_c_s
            diff = difference(before, same)
            require(diff is None, lambda: "{} in solve {}".format(diff, i))
            if fresh:
                start_γ = γ
            last = entry[0]
            fresh = last in ("final", "fail")
            want = used.v_rin_on_c_s
            if fresh:
                done += 1
                if last == "fail":
                    # nothing comes from it
                    γ = start_γ
                used_v.append(used.v_rin_on_c_s)
                want = model.feed(
                    used.v_rin_on_c_s, 0 if last == "fail" else entry[3]
                )
                if limits is None and model.phase == "narrow":
                    limits = (model.min[0], model.max[0])
                    limited = done
                states.add(model.state())
        require(last in ("final", "fail"), "ended within an attempt")
        require(
            done == attempts or isinstance(want, str) or
            near(want, used_v[-1]),
            "ended after {} attempts of {}".format(done, attempts)
        )
        require(done <= attempts, "too many attempts")
        if limits is not None:
            tol = 1e-6 * (limits[1] - limits[0])
            require(
                all(limits[0] - tol <= v <= limits[1] + tol
                    for v in used_v[limited:]), "outside of limits"
            )
        # stored
        stored = [s.solution[0, 0] for s in run.solutions.values()]
        made = [s.solution[0, 0] for s in script.made]
        order = list(dict.fromkeys(stored))
        require(order == made, "stored {} of {}".format(order, made))
        for soln in run.solutions.values():
            require(soln.flag is not None, "stored a failure")
        require(ok is bool(made), "{} solutions reported as {}".format(
            len(made), ok
        ))
        final_soln = run.final_solution
        if made:
            require(
                final_soln is not None and
                final_soln.solution[0, 0] in made, "no final solution"
            )
        else:
            require(final_soln is None, "final solution out of nowhere")
        return {
            "seen": sorted(states, key=str), "transitions": done,
            "traces": 1, "outcome": (model.phase, ok, isinstance(want, str)),
        }, model, {"v": used_v, "limits": limits}


if __name__ == "__main__":
    main(C11())
