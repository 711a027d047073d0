# -*- coding: utf-8 -*-
"""
Builders of inputs and solutions, and comparison of objects, for the checks
"""
import math
from enum import Enum

import attr
import numpy as np

from disc_solver.file_format import (
    Solution, SolutionInput, ConfigInput, Problems, InternalData, Run,
    InitialConditions, MCMCVars,
)
from disc_solver.utils import ODEIndex

from scikits.odes.sundials.cvode import StatusEnum

NVARS = len(ODEIndex)


def config_input(**kwargs):
    """A configuration, as strings, with the given changes"""
    base = dict(
        start="0", stop="5", taylor_stop_angle="0.001", max_steps="10000",
        num_angles="50", label="lbl", relative_tolerance="1e-6",
        absolute_tolerance="1e-10", γ="0.001", nwalkers="8", iterations="3",
        threads="1", target_velocity="0.9", split_method="v_θ_deriv",
        v_rin_on_c_s="1", v_a_on_c_s="1", c_s_on_v_k="0.03", η_O="0.001",
        η_H="0.0001", η_A="0.0005",
    )
    base.update(kwargs)
    return ConfigInput(**base)


def solution_input(**kwargs):
    """An input of the solver with the given changes"""
    f = np.float64
    base = dict(
        start=f(0), stop=f(5), taylor_stop_angle=f(0.001), max_steps=10000,
        num_angles=50, relative_tolerance=f(1e-6),
        absolute_tolerance=f(1e-10), γ=f(0.001), nwalkers=8, iterations=3,
        threads=1, target_velocity=f(0.9), split_method="v_θ_deriv",
        v_rin_on_c_s=f(1), v_a_on_c_s=f(1), c_s_on_v_k=f(0.03), η_O=f(0.001),
        η_H=f(0.0001), η_A=f(0.0005),
    )
    base.update(kwargs)
    return SolutionInput(**base)


def make_run(**kwargs):
    """A run with the given changes"""
    base = dict(
        config_input=config_input(), config_filename="x.conf",
        disc_solver_version="v", float_type="f8", sonic_method="single",
    )
    base.update(kwargs)
    return Run(**base)


def initial_conditions(tag=0, n=3):
    """Initial conditions made of distinct numbers"""
    init_con = np.arange(1, NVARS + 1) / 8 + tag
    return InitialConditions(
        norm_kepler_sq=1000.0 + tag, a_0=1.5 + tag, γ=0.001 * (tag + 1),
        init_con=init_con, angles=np.linspace(0, 0.1, n),
    )


def internal_data(tag=0, n=3, problems=True, jac=True):
    """Internal data made of distinct numbers"""
    p = Problems()
    if problems:
        p[0.25 + tag].append("negative density")
        p[0.5 + tag].append("negative velocity")
        p[0.5 + tag].append("second")
    d = InternalData(problems=p)
    for i in range(n):
        d.derivs.append(np.arange(NVARS) + 100.0 * i + tag)
        d.params.append(np.arange(NVARS) + 1000.0 * i + tag)
        d.angles.append(0.01 * i + tag)
        d.v_r_normal.append(1.0 + i + tag)
        d.v_φ_normal.append(2.0 + i + tag)
        d.ρ_normal.append(3.0 + i + tag)
        d.v_r_taylor.append(4.0 + i + tag)
        d.v_φ_taylor.append(5.0 + i + tag)
        d.ρ_taylor.append(6.0 + i + tag)
        if jac:
            j = d.jacobian_data
            j.angles.append(0.02 * i + tag)
            j.params.append(np.arange(NVARS) + 2000.0 * i + tag)
            j.derivs.append(np.arange(NVARS) + 3000.0 * i + tag)
            j.jacobians.append(
                np.arange(NVARS * NVARS).reshape(NVARS, NVARS) + 0.5 * i + tag
            )
    return d


def make_solution(tag=0, n=3, inp=None, **kwargs):
    """A solution made of distinct numbers"""
    base = dict(
        solution_input=solution_input() if inp is None else inp,
        angles=np.linspace(0, 0.1, n) + tag / 1024,
        solution=np.arange(n * NVARS, dtype=float).reshape(n, NVARS) / 16
        + tag,
        flag=StatusEnum.SUCCESS, coordinate_system="spherical midplane 0",
        internal_data=None, initial_conditions=initial_conditions(tag, n),
        t_roots=None, y_roots=None, sonic_point=None, sonic_point_values=None,
    )
    base.update(kwargs)
    return Solution(**base)


def difference(a, b, path=""):
    """
    Where a and b differ in content, or None.  Numpy and python numbers of the
    same kind and value are the same.
    """
    # pylint: disable=too-many-return-statements,too-many-branches
    if a is None or b is None:
        return None if a is b else "{}: {!r} is not {!r}".format(path, a, b)
    if isinstance(a, Enum) or isinstance(b, Enum):
        # the solver flags come back from a file as numbers
        if a == b:
            return None
        return "{}: {!r} is not {!r}".format(path, a, b)
    if isinstance(a, Problems) and isinstance(b, Problems):
        da = {str(k): list(v) for k, v in a.items()}
        db = {str(k): list(v) for k, v in b.items()}
        return None if da == db else "{}: {} is not {}".format(path, da, db)
    if attr.has(type(a)) or attr.has(type(b)):
        if type(a) is not type(b):
            return "{}: {} is not {}".format(path, type(a), type(b))
        for field in attr.fields(type(a)):
            name = field.name
            d = difference(
                getattr(a, name), getattr(b, name), path + "." + name
            )
            if d:
                return d
        return None
    if isinstance(a, dict) and isinstance(b, dict):
        if list(map(str, a)) != list(map(str, b)):
            return "{}: keys {} are not {}".format(path, list(a), list(b))
        for key in a:
            d = difference(a[key], b[key], "{}[{!r}]".format(path, key))
            if d:
                return d
        return None
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray) or (
        isinstance(a, (list, tuple)) and isinstance(b, (list, tuple))
    ):
        try:
            x, y = np.asarray(a), np.asarray(b)
        except ValueError:
            return None if a == b else "{}: {!r} {!r}".format(path, a, b)
        if x.shape != y.shape:
            if x.size == 0 and y.size == 0 and x.ndim == y.ndim:
                return None
            return "{}: shape {} is not {}".format(path, x.shape, y.shape)
        if x.dtype.kind in "fc" and y.dtype.kind in "fciu":
            ok = np.array_equal(x, y, equal_nan=True)
        else:
            ok = np.array_equal(x, y)
        return None if ok else "{}: {!r} is not {!r}".format(path, x, y)
    if isinstance(a, (bool, np.bool_)) or isinstance(b, (bool, np.bool_)):
        if isinstance(a, (bool, np.bool_)) and isinstance(
            b, (bool, np.bool_)
        ) and bool(a) == bool(b):
            return None
        return "{}: {!r} is not {!r}".format(path, a, b)
    if isinstance(a, (float, np.floating)) and isinstance(
        b, (float, np.floating)
    ):
        if a == b or (math.isnan(a) and math.isnan(b)):
            return None
        return "{}: {!r} is not {!r}".format(path, a, b)
    if isinstance(a, (int, np.integer)) and isinstance(b, (int, np.integer)):
        return None if a == b else "{}: {!r} is not {!r}".format(path, a, b)
    if isinstance(a, str) and isinstance(b, str):
        return None if a == b else "{}: {!r} is not {!r}".format(path, a, b)
    if isinstance(a, slice) and isinstance(b, slice):
        return None if a == b else "{}: {!r} is not {!r}".format(path, a, b)
    if type(a) is type(b):
        return None if a == b else "{}: {!r} is not {!r}".format(path, a, b)
    return "{}: {!r} ({}) is not {!r} ({})".format(
        path, a, type(a).__name__, b, type(b).__name__
    )


def snapshot(obj):
    """A deep copy, for checks that something was not modified"""
    import copy
    return copy.deepcopy(obj)


__all__ = [
    "config_input", "solution_input", "make_run", "make_solution",
    "internal_data", "initial_conditions", "difference", "snapshot",
    "Solution", "SolutionInput", "ConfigInput", "Problems", "InternalData",
    "Run", "InitialConditions", "MCMCVars", "StatusEnum", "ODEIndex", "NVARS",
]
