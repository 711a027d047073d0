# -*- coding: utf-8 -*-
"""
C12: the MCMC method, over all histories of proposals
"""
import itertools

import emcee
import numpy as np

from mc.core import Check, main, require, patched
from mc.standin import Script, profile
from mc.util import (
    make_run, make_solution, solution_input, difference, MCMCVars,
    SolutionInput, ODEIndex, StatusEnum,
)

from disc_solver.solve.config import define_conditions
from disc_solver.solve.mcmc import solver
from disc_solver.solve.utils import SolverError

BASE = {
    "γ": 0.001, "v_rin_on_c_s": 40.0, "v_a_on_c_s": 0.75,
    "c_s_on_v_k": 0.03,
}
VARS = tuple(BASE)
PROFILES = {
    "low": [0, 0.25, 0.5, 0.5],
    "high": [0, 0.25, 0.5, 0.75],
    # the same probability as high
    "tie": [0, 0.25, 0.5, 0.75],
    "higher": [0, 0.5, 1, 1.5],
    # not the highest at the end
    "peak": [0, 0.5, 1.25, 1],
    # hardly possible, but not rejected
    "unlikely": [0, 60, 60, 60],
    "nan": [0, np.nan, 0.5, 0.75],
    "inf": [0, 0.25, 0.5, np.inf],
}
REJECTED = ("negative", "zero", "nocond", "fail", "nan", "inf")
OUTCOMES = ("low", "high", "tie", "higher", "peak", "unlikely") + REJECTED


def logprob(v):
    """The probability of a profile"""
    v = np.asarray(v)
    change = np.diff(v) ** 2
    return -10 * np.exp(-np.max(v)) - sum(np.diff(change) ** 2)


def choices():
    """All choices of variables"""
    yield None
    yield from (list(c) for c in itertools.product((True, False), repeat=3))


class Sampler:
    """Stand-in for the sampler, with scripted proposals"""
    def __init__(self, case):
        self.case = case
        self.columns = None
        self.proposals = []
        self.results = []
        self.current = None
        self.args = None

    def __call__(self, nwalkers, ndim, log_prob_fn, *args, **kwargs):
        self.args = (nwalkers, ndim)
        self.func = log_prob_fn
        return self

    def run_mcmc(self, initial_state, nsteps, **kwargs):
        """Go through the proposals"""
        initial = np.asarray(initial_state)
        require(
            initial.shape == self.args and self.args[0] == 64,
            "{} positions for {}".format(initial.shape, self.args)
        )
        require(nsteps == 3, "steps {}".format(nsteps))
        mean = initial.mean(axis=0)
        self.columns = []
        for m in mean:
            close = [v for v in VARS if abs(m / BASE[v] - 1) < 0.15]
            require(len(close) == 1, "start at {}".format(mean))
            self.columns.append(close[0])
        spread = (initial / mean).std(axis=0)
        require(all((spread > 0.03) & (spread < 0.3)), "spread of walkers")
        for i, outcome in enumerate(self.case):
            values = {
                v: BASE[v] * (1 + (i + 1) / 64 + j / 1024)
                for j, v in enumerate(self.columns)
            }
            if outcome[0] in ("negative", "zero"):
                var = self.columns[outcome[1] % len(self.columns)]
                values[var] = -values[var] if outcome[0] == "negative" else 0
            self.current = outcome[0]
            self.proposals.append(dict(values))
            with np.errstate(all="ignore"):
                self.results.append(self.func(
                    np.array([values[v] for v in self.columns])
                ))


class C12(Check):
    id = "C12"
    level = "model_checking"
    rule = (
        "A case is a choice of variables and the complete history of "
        "outcomes of the proposals made by a scripted sampler; the inputs "
        "solved, the probabilities returned, what is stored and the final "
        "solution of the real method are compared with a reference."
    )
    assumptions = (
        "the sampler calls the probability function with one proposal at a "
        "time, as emcee does without a pool",
    )
    chunk = 32

    def cases(self, tier):
        deep = tier == "thorough"
        some = [[o, 0] for o in OUTCOMES]
        for n in range(5 if deep else 4):
            for seq in itertools.product(some, repeat=n):
                yield [None, list(seq), True]
        small = [[o, 0] for o in ("low", "high", "tie", "fail", "nan")]
        for seq in itertools.product(small, repeat=6 if deep else 5):
            yield [[False, False, False], list(seq), False]
        # many solutions, the best at any position
        for n in (11, 12, 25) + ((101, 102) if deep else ()):
            for best in range(n):
                for rest in ("low", "unlikely", "fail"):
                    yield [None, [
                        ["higher" if i == best else rest, 0]
                        for i in range(n)
                    ], True]
        full = [[o, 0] for o in OUTCOMES] + [
            [o, j] for o in ("negative", "zero") for j in (1, 2, 3)
        ]
        for choice in choices():
            for n in range(1, 4 if deep else 3):
                for seq in itertools.product(full, repeat=n):
                    yield [choice, list(seq), bool(n % 2)]

    def evaluate(self, case):
        choice, seq, store = case
        np.random.seed(7)
        chosen = (True,) * 3 if choice is None else tuple(choice)
        names = ["γ"] + [v for v, c in zip(VARS[1:], chosen) if c]
        inp = solution_input(
            nwalkers=64, iterations=3, stop=np.float64(7.5), num_angles=33,
            η_H=np.float64(0.25), η_derivs=False, use_taylor_jump=False,
            mcmc_vars=None if choice is None else MCMCVars(*choice),
            **{k: np.float64(v) for k, v in BASE.items()}
        )
        before = SolutionInput(**vars(inp))
        run = make_run()
        sampler = Sampler(seq)

        def conditions(i, **kwargs):
            if sampler.current == "nocond":
                raise SolverError("no initial conditions")
            return define_conditions(i, **kwargs)

        def make(i, tag):
            values = profile(PROFILES[sampler.current])
            values[:, ODEIndex.B_r] = tag
            return make_solution(
                tag, n=4, inp=i, solution=values, flag=StatusEnum.SUCCESS,
                initial_conditions=None,
            )

        script = Script(lambda _, __: (
            "fail" if sampler.current == "fail" else make
        ))
        orig = emcee.EnsembleSampler
        emcee.EnsembleSampler = sampler
        try:
            with script.installed(), patched(
                (define_conditions, conditions), (orig, sampler)
            ):
                ok = solver(inp, run, store_internal=store)
        finally:
            emcee.EnsembleSampler = orig

        require(difference(before, inp) is None, "input was modified")
        require(
            sorted(sampler.columns) == sorted(names),
            "sampled {}, not {}".format(sampler.columns, names)
        )
        require(
            all(k.get("store_internal") is store for k in script.kwargs),
            "internal data option not passed on"
        )
        solved = [i for i, (o, _) in enumerate(seq)
                  if o not in ("negative", "zero", "nocond")]
        require(
            len(script.inputs) == len(solved), "solved {} of {}".format(
                len(script.inputs), solved
            )
        )
        for used, i in zip(script.inputs, solved):
            wanted = SolutionInput(**vars(before))
            for name, value in sampler.proposals[i].items():
                setattr(wanted, name, np.float64(value))
            diff = difference(wanted, used)
            require(diff is None, lambda: "proposal {}: {}".format(i, diff))
        best = None
        wanted = []
        made = iter(script.made)
        for i, (outcome, _) in enumerate(seq):
            got = sampler.results[i]
            soln = next(made) if outcome in PROFILES else None
            if outcome in REJECTED:
                require(got == -np.inf, "{} has probability {}".format(
                    outcome, got
                ))
                continue
            value = logprob(PROFILES[outcome])
            require(
                np.isclose(got, value, rtol=1e-12),
                "probability {} is not {}".format(got, value)
            )
            wanted.append(soln.solution[0, 0])
            if best is None or got > best[0]:
                best = (got, soln.solution[0, 0])
        stored = [s.solution[0, 0] for s in run.solutions.values()]
        require(stored == wanted, "stored {}, not {}".format(stored, wanted))
        final = run.final_solution
        if best is None:
            require(final is None, "final solution out of nowhere")
        else:
            require(
                final is not None and final.solution[0, 0] == best[1],
                "best is {}".format(best)
            )
        require(ok is True, "not successful")
        return {
            "seen": [str([o for o, _ in seq[:i]]) for i in range(len(seq))],
            "transitions": len(seq), "traces": 1,
            "outcome": (len(wanted), best is None),
        }


if __name__ == "__main__":
    main(C12())
