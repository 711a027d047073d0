# -*- coding: utf-8 -*-
"""
Controlled stand-ins for the environment: the solver of one set of inputs
"""
import numpy as np

from mc.core import patched
from mc.util import make_solution, StatusEnum, ODEIndex, NVARS

from disc_solver.file_format import SolutionInput
from disc_solver.solve.solution import solution as real_solution
from disc_solver.solve.utils import SolverError


def profile(v_θ, ρ=None):
    """States with the given velocities"""
    v_θ = np.asarray(v_θ, dtype=float)
    values = np.ones((len(v_θ), NVARS))
    values[:, ODEIndex.v_θ] = v_θ
    if ρ is not None:
        values[:, ODEIndex.ρ] = ρ
    return values


PROFILES = {
    # accepted: near sonic, not accelerating there
    "best": ([0, 0.5, 0.91, 0.94, 0.96], StatusEnum.SUCCESS),
    # passes the sonic point
    "diverge": ([0, 0.5, 0.91, 0.96, 1.25], StatusEnum.TOO_MUCH_WORK),
    # accepted by the solver, but accelerating near the sonic point
    "diverge2": ([0, 0.5, 0.91, 0.92, 0.95, 1.5], StatusEnum.SUCCESS),
    # never gets near
    "flip": ([0, 0.25, 0.5, 0.375], StatusEnum.CONV_FAILURE),
    # turns around with success of the solver
    "flip2": ([0, 0.25, 0.5, 0.375], StatusEnum.SUCCESS),
}


def outcome_solution(inp, outcome, tag, n_quality=None):
    """A solution for the input with the outcome"""
    v, flag = PROFILES[outcome]
    values = profile(v)
    values[:, ODEIndex.B_r] = tag
    angles = np.linspace(0, 0.1, len(v))
    if n_quality is not None:
        angles = np.linspace(0, n_quality, len(v))
    return make_solution(
        tag, inp=inp, solution=values, angles=angles, flag=flag,
        initial_conditions=None,
    )


class Script:
    """Solves inputs with scripted outcomes, recording the inputs"""
    def __init__(self, decide):
        self.decide = decide
        self.inputs = []
        self.kwargs = []
        self.made = []

    def __call__(self, soln_input, initial_conditions, **kwargs):
        index = len(self.inputs)
        self.inputs.append(SolutionInput(**vars(soln_input)))
        self.kwargs.append(kwargs)
        outcome = self.decide(index, soln_input)
        if outcome == "fail":
            raise SolverError("scripted failure")
        if isinstance(outcome, str):
            soln = outcome_solution(soln_input, outcome, index)
        else:
            soln = outcome(soln_input, index)
        self.made.append(soln)
        return soln

    def installed(self):
        """Context in which the code uses this"""
        return patched((real_solution, self))
