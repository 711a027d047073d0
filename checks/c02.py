# -*- coding: utf-8 -*-
"""
C02: files of older versions of the format
"""
import itertools
from fractions import Fraction

import numpy as np
from h5preserve import (
    open as h5open, Registry, GroupContainer, new_registry_list,
)

from mc.core import Check, main, require, scratch
from mc.util import NVARS, MCMCVars, Problems, difference

from disc_solver.file_format import registries
from disc_solver.utils import str_to_float

f8 = np.float64

# What each version of the inputs stored: the version which introduced each
COMMON = (
    "start", "stop", "taylor_stop_angle", "max_steps", "num_angles",
    "relative_tolerance", "absolute_tolerance", "v_rin_on_c_s",
    "v_a_on_c_s", "c_s_on_v_k", "η_O", "η_H", "η_A",
)
INTRODUCED = {
    "η_derivs": 3, "nwalkers": 5, "iterations": 5, "threads": 5,
    "target_velocity": 6, "split_method": 7, "use_taylor_jump": 8,
    "use_E_r": 14,
}
OPTIONAL = {
    "jump_before_sonic": 2, "mcmc_vars": 9, "v_θ_sonic_crit": 10,
    "after_sonic": 11, "sonic_interp_size": 12, "interp_range": 12,
    "interp_slice": 13,
}
INPUT_VERSIONS = range(1, 15)
# What is allowed for those which were not stored: absent or the default
ABSENT = {
    "η_derivs": ("True", True), "nwalkers": (None, "8", 8),
    "iterations": (None, "3", 3), "threads": (None, "1", 1),
    "target_velocity": (None, "0.9", 0.9),
    "split_method": (None, "v_θ_deriv"),
    "use_taylor_jump": ("True", True),
    "jump_before_sonic": (None,), "mcmc_vars": (None,),
    "v_θ_sonic_crit": (None,), "after_sonic": (None,),
    "sonic_interp_size": (None,), "interp_range": ("10", 10),
    "interp_slice": ("-1000,-100", slice(-1000, -100)),
}
BETAS = ("1.249", "5/4", "1.25", "1.0", "2", "1.2490000001", "125e-2", "0")
RUN_VERSIONS = range(1, 7)


class Old:
    """Something to be stored in an old version"""
    def __init__(self, attrs=None, **items):
        self.attrs = attrs or {}
        self.items = items


def old(label, version, attrs=None, **items):
    """Something which is stored in that version"""
    cls = type("Old{}{}".format(label, version), (Old,), {})
    obj = cls(attrs, **items)
    obj.key = (label, version)
    return obj


def writer(objects):
    """Registries which store those"""
    reg = Registry("disc_solver")
    for obj in objects:
        label, version = obj.key

        def dump(obj):
            return GroupContainer(attrs=obj.attrs, **obj.items)
        reg.dumper(type(obj), label, version)(dump)
    return new_registry_list(reg)


def parts(obj):
    """All the old objects inside"""
    if isinstance(obj, Old):
        yield obj
        for item in obj.items.values():
            yield from parts(item)


def load(obj):
    """Store it and load it"""
    with scratch() as path:
        with h5open(path / "a", writer(list(parts(obj))), mode="x") as f:
            f["x"] = obj
        with h5open(path / "a", registries, mode="r") as f:
            have = f["x"]
            if obj.key[0] == "Run":
                # the solutions are only loaded when needed
                have.loaded = dict(have.solutions.items())
    return have


# -- the stored objects and what is expected of them --------------------------

def stored_mcmc(bits):
    """Variables for mcmc"""
    return old(
        "MCMCVars", 1, with_v_r=bool(bits & 1), with_v_a=bool(bits & 2),
        with_v_k=bool(bits & 4),
    )


def config_input(version, present=(), beta="1.249", tag=0):
    """Configuration, which has strings, and what is expected"""
    attrs = {
        name: "{}.{}e-3".format(i + 1, tag) for i, name in enumerate(COMMON)
    }
    attrs["label"] = "a label {}".format(tag)
    want = dict(attrs)
    if version < 4:
        attrs["β"] = beta
        want["γ"] = ("γ", Fraction("5/4") - Fraction(beta))
    else:
        attrs["γ"] = want["γ"] = "0.01{}".format(tag)
    values = {
        "η_derivs": "False", "nwalkers": "17", "iterations": "18",
        "threads": "19", "target_velocity": "0.75",
        "split_method": "other", "use_taylor_jump": "False",
        "use_E_r": "True",
    }
    for name, val in values.items():
        if version >= INTRODUCED[name]:
            attrs[name] = want[name] = val
        elif name != "use_E_r":
            want[name] = ABSENT[name]
    items = {}
    values = {
        "jump_before_sonic": "0.11", "mcmc_vars": "v_r,v_k",
        "v_θ_sonic_crit": "0.12", "after_sonic": "0.13",
        "sonic_interp_size": "14", "interp_range": "15",
        "interp_slice": "-8,-3",
    }
    for name, val in values.items():
        if version < OPTIONAL[name]:
            want[name] = ABSENT[name]
            continue
        if name not in present:
            val = None
        if name == "interp_range" and version == 12:
            attrs[name] = want[name] = val or "15"
            continue
        items[name] = want[name] = val
    return old("ConfigInput", version, attrs, **items), want


def solution_input(version, present=(), beta="1.249", tag=0, zero=()):
    """Input, which has numbers, and what is expected"""
    attrs = {
        name: f8(i + 1 + tag) / 7 for i, name in enumerate(COMMON)
    }
    attrs["max_steps"] = 100 + tag
    attrs["num_angles"] = 200 + tag
    want = dict(attrs)
    if version < 4:
        attrs["β"] = f8(float(Fraction(beta)))
        want["γ"] = ("γ", Fraction("5/4") - Fraction(float(Fraction(beta))))
    else:
        attrs["γ"] = want["γ"] = f8(1) / (90 + tag)
    values = {
        "η_derivs": False, "nwalkers": 17, "iterations": 18,
        "threads": 19, "target_velocity": f8(1) / 3,
        "split_method": "other", "use_taylor_jump": False,
        "use_E_r": True,
    }
    for name, val in values.items():
        if version >= INTRODUCED[name]:
            attrs[name] = want[name] = val
        elif name != "use_E_r":
            want[name] = ABSENT[name]
    items = {}
    values = {
        "jump_before_sonic": f8(1) / 11, "mcmc_vars": stored_mcmc(5),
        "v_θ_sonic_crit": f8(1) / 12, "after_sonic": f8(1) / 13,
        "sonic_interp_size": f8(14), "interp_range": 15,
        "interp_slice": old("slice", 1, start=-8, stop=None, step=2),
    }
    for name in zero:
        # which is not the same as absent
        values[name] = 0 if name == "interp_range" else f8(0)
    objs = {
        "mcmc_vars": MCMCVars(True, False, True),
        "interp_slice": slice(-8, None, 2),
    }
    for name, val in values.items():
        if version < OPTIONAL[name]:
            want[name] = ABSENT[name]
            continue
        if name not in present:
            val = None
        if name == "interp_range" and version == 12:
            attrs[name] = want[name] = 15 if val is None else val
            continue
        items[name] = val
        want[name] = objs[name] if val is not None and name in objs else val
    return old("SolutionInput", version, attrs, **items), want


def check_input(have, want, what):
    """Compare"""
    for name, val in want.items():
        got = getattr(have, name)
        if isinstance(val, tuple) and val and val[0] == "γ":
            number = Fraction(got) if isinstance(got, str) and (
                "n" not in got
            ) else Fraction(float(got))
            require(
                abs(number - val[1]) <= Fraction(1, 10 ** 15),
                "{}: γ is {!r}, not {}".format(what, got, float(val[1]))
            )
            if isinstance(got, str):
                # has to be usable
                require(
                    abs(str_to_float(got) - float(val[1])) < 1e-15,
                    what + ": γ"
                )
        elif isinstance(val, tuple):
            require(
                any(got is v or got == v for v in val),
                "{}: {} is {!r}".format(what, name, got)
            )
        else:
            diff = difference(val, got, name)
            require(diff is None, lambda: "{}: {}".format(what, diff))


def initial(version, n, tag=0):
    """Initial conditions, with 8 or 11 values"""
    values = np.arange(1, NVARS + 1) / 8 + tag
    attrs = {
        "norm_kepler_sq": f8(1000.5) + tag, "η_O": values[8],
        "η_A": values[9], "η_H": values[10], "init_con": values[:n],
    }
    want = {
        "norm_kepler_sq": f8(1000.5) + tag, "init_con": values,
        "η_O": values[8], "η_A": values[9], "η_H": values[10],
        "angles": np.arange(3) / 7 + tag,
    }
    if version == 3:
        attrs["γ"] = want["γ"] = f8(1) / (3 + tag)
    else:
        attrs["β"] = f8(1.125)
        want["γ"] = f8(0.125)
    if version > 1:
        attrs["a_0"] = want["a_0"] = f8(1) / (5 + tag)
    else:
        want["a_0"] = f8("nan")
    return old(
        "InitialConditions", version, attrs, angles=want["angles"]
    ), want


LISTS = ("angles", "v_r_normal", "v_φ_normal", "ρ_normal", "v_r_taylor",
         "v_φ_taylor", "ρ_taylor")


def internal(version, n, tag=0):
    """Internal data"""
    want = {
        name: np.arange(n) / 3 + i + tag for i, name in enumerate(LISTS)
    }
    want["derivs"] = np.arange(n * NVARS).reshape(n, NVARS) / 5 + tag
    want["params"] = np.arange(n * NVARS).reshape(n, NVARS) / 7 - tag
    items = dict(want)
    problems = Problems()
    if version > 1:
        stored = {}
        for i in range(n):
            key = "0.{}".format(i + 1)
            problems[key] = ["one", "two τ"][:i + 1]
            stored[key] = np.array([
                s.encode("utf8") for s in problems[key]
            ])
        items["problems"] = old("Problems", 1, **stored)
    jac = {
        name: np.zeros((0,) + (NVARS,) * dim) for name, dim in (
            ("derivs", 1), ("params", 1), ("angles", 0), ("jacobians", 2)
        )
    }
    if version > 2:
        for i, (name, dim) in enumerate((
            ("derivs", 1), ("params", 1), ("angles", 0), ("jacobians", 2)
        )):
            jac[name] = np.arange(n * NVARS ** dim).reshape(
                (n,) + (NVARS,) * dim
            ) / 11 + i + tag
        items["jacobian_data"] = old("JacobianData", 1, **jac)
    return old("InternalData", version, **items), want, problems, jac


def check_internal(have, want, problems, jac, what):
    """Compare"""
    for name, val in want.items():
        diff = difference(val, np.asarray(getattr(have, name)), name)
        require(diff is None, lambda: "{}: {}".format(what, diff))
    diff = difference(problems, have.problems, "problems")
    require(diff is None, lambda: "{}: {}".format(what, diff))
    for name, val in jac.items():
        got = np.asarray(getattr(have.jacobian_data, name))
        diff = difference(val, got, "jacobian " + name)
        require(diff is None or (
            not val.size and not got.size
        ), lambda: "{}: {}".format(what, diff))


SOLN_ARRAYS = {
    "t_roots": 1, "y_roots": 1, "derivatives": 2, "sonic_point": 3,
    "sonic_point_values": 3,
}


def solution(
    version, present, inp, init=None, data=None, tag=0, post_shock=True
):
    """Solution, of given parts"""
    n = 3
    want = {
        "angles": np.arange(n) / 3 + tag,
        "solution": np.arange(n * NVARS).reshape(n, NVARS) / 9 + tag,
        "flag": tag, "coordinate_system": "coords {}".format(tag),
    }
    attrs = {k: want[k] for k in ("flag", "coordinate_system")}
    items = {k: want[k] for k in ("angles", "solution")}
    values = {
        "t_roots": np.arange(2) / 13 + tag,
        "y_roots": np.arange(2 * NVARS).reshape(2, NVARS) / 17 + tag,
        "derivatives": want["solution"] / 3,
        "sonic_point": f8(1) / (19 + tag),
        "sonic_point_values": np.arange(NVARS) / 23 + tag,
    }
    for name, first in SOLN_ARRAYS.items():
        want[name] = None
        if version >= first:
            items[name] = want[name] = (
                values[name] if name in present else None
            )
    want["is_post_shock_only"] = False
    if version >= 4:
        attrs["is_post_shock_only"] = want["is_post_shock_only"] = post_shock
    return old(
        "Solution", version, attrs, solution_input=inp,
        initial_conditions=init, internal_data=data, **items
    ), want


def check_fields(have, want, what):
    """Compare"""
    for name, val in want.items():
        diff = difference(val, getattr(have, name), name)
        require(diff is None, lambda: "{}: {}".format(what, diff))


def subsets(names):
    """All subsets"""
    names = list(names)
    for n in range(len(names) + 1):
        yield from (list(c) for c in itertools.combinations(names, n))


class C02(Check):
    id = "C02"
    level = "exploration"
    rule = (
        "A case is a stored object in a version of the format, with a subset "
        "of the optional values that version allowed, or a run made of such "
        "objects in a combination of versions; it is stored as that version "
        "did, by dumpers of the harness, loaded with the present code, and "
        "each field is compared with what was stored under its name then."
    )
    assumptions = (
        "older versions stored what the loaders kept for them say they did; "
        "no code which writes them exists any more",
        "settings not stored may come back as absent or as the default",
    )
    chunk = 16

    def cases(self, tier):
        deep = tier == "thorough"
        for version in INPUT_VERSIONS:
            names = [n for n, v in OPTIONAL.items() if v <= version]
            for present in subsets(names):
                if not deep and 2 < len(present) < len(names) - 1:
                    continue
                for kind in ("config", "input"):
                    for beta in BETAS if version < 4 else ("1.249",):
                        yield [kind, version, present, beta]
            for name in names:
                if name not in ("mcmc_vars", "interp_slice"):
                    yield ["zero", version, name]
        for version in (1, 2, 3):
            for n in (8, NVARS):
                yield ["initial", version, n]
            for n in (0, 1, 2):
                yield ["internal", version, n]
        for version in (1, 2, 3, 4):
            names = [n for n, v in SOLN_ARRAYS.items() if v <= version]
            for present in subsets(names):
                for init in (None, 1, 2, 3):
                    for data in (None, 1, 2, 3):
                        for post in (True, False):
                            if version == 4 or post:
                                yield ["solution", version, present, init,
                                       data, post]
        for version in RUN_VERSIONS:
            for conf in INPUT_VERSIONS:
                for inp in INPUT_VERSIONS:
                    if deep or conf in (1, 4, 13, 14) or inp == conf:
                        for use_E_r in (False, True):
                            yield ["of_run", version, conf, inp, use_E_r]
            for size in (0, 1, 2, 11):
                for final in (None, "own", "absent"):
                    for optional in (False, True):
                        yield ["layout", version, size, final, optional]

    def evaluate(self, case):
        getattr(self, case[0])(*case[1:])
        return {"outcome": case[0]}

    def config(self, version, present, beta):
        """Configuration"""
        obj, want = config_input(version, present, beta)
        check_input(load(obj), want, "config {}".format(version))

    def input(self, version, present, beta):
        """Input"""
        obj, want = solution_input(version, present, beta)
        check_input(load(obj), want, "input {}".format(version))

    def zero(self, version, name):
        """A number which is 0"""
        obj, want = solution_input(version, [name], zero=[name])
        check_input(load(obj), want, "input {}".format(version))

    def initial(self, version, n):
        """Initial conditions"""
        obj, want = initial(version, n)
        check_fields(load(obj), want, "initial {}".format(version))

    def internal(self, version, n):
        """Internal data"""
        obj, *want = internal(version, n)
        check_internal(load(obj), *want, "internal {}".format(version))

    def solution(self, version, present, init, data, post):
        """Solution"""
        inp, inp_want = solution_input(14, ["after_sonic"])
        init_obj, init_want = initial(init, NVARS) if init else (None, None)
        data_obj, *data_want = internal(data, 2) if data else (None,)
        obj, want = solution(
            version, present, inp, init_obj, data_obj, post_shock=post
        )
        have = load(obj)
        what = "solution {}".format(version)
        check_fields(have, want, what)
        check_input(have.solution_input, inp_want, what)
        if init:
            check_fields(have.initial_conditions, init_want, what)
        else:
            require(have.initial_conditions is None, what)
        if data:
            check_internal(have.internal_data, *data_want, what)
        else:
            require(have.internal_data is None, what)

    def make_run(self, version, conf, solns, final, use_E_r, optional=True):
        """Stored run and what is expected"""
        items = {
            "config_filename": "a.conf" if optional else None,
            "time": "2 h" if optional else None,
            "disc_solver_version": "1.β" if optional else None,
            "float_type": "f16" if optional else None,
            "sonic_method": "step", "use_E_r": use_E_r,
            "based_on_solution_filename": "b.hdf5" if optional else None,
            "based_on_solution_solution_name": "7" if optional else None,
        }
        first = {
            "disc_solver_version": 2, "float_type": 3, "sonic_method": 4,
            "use_E_r": 5, "based_on_solution_filename": 6,
            "based_on_solution_solution_name": 6,
        }
        absent = {"sonic_method": "unknown", "use_E_r": False}
        want = {
            k: v if version >= first.get(k, 1) else absent.get(k)
            for k, v in items.items()
        }
        items = {k: v for k, v in items.items() if version >= first.get(k, 1)}
        attrs = {}
        want["is_post_shock_only"] = False
        if version >= 6:
            attrs["is_post_shock_only"] = optional
            want["is_post_shock_only"] = optional
        if final != "absent":
            items["final_solution"] = final
        return old(
            "Run", version, attrs, config_input=conf,
            solutions=old("Solutions", 1, **{
                str(i): s for i, s in enumerate(solns)
            }), **items
        ), want

    def of_run(self, version, conf_version, inp_version, use_E_r):
        """Run with inputs of versions"""
        conf, conf_want = config_input(conf_version, ["after_sonic"])
        inps = [
            solution_input(inp_version, ["interp_range"], tag=i)
            for i in range(3)
        ]
        solns = [
            solution(min(4, version), ["t_roots"], inp, tag=i)
            for i, (inp, _) in enumerate(inps)
        ]
        obj, want = self.make_run(
            version, conf, [s for s, _ in solns[:2]], solns[2][0], use_E_r
        )
        have = load(obj)
        what = "run {}".format(version)
        check_fields(have, want, what)
        check_input(have.config_input, conf_want, what)
        for i, got in enumerate((
            have.loaded["0"], have.loaded["1"], have.final_solution
        )):
            check_fields(got, solns[i][1], what)
            check_input(got.solution_input, inps[i][1], what)
            if inp_version < 14:
                require(
                    bool(got.solution_input.use_E_r) is bool(
                        use_E_r if version >= 5 else False
                    ), what + ": use_E_r of solution"
                )
        if conf_version < 14:
            require(
                str(have.config_input.use_E_r) in (
                    (str(use_E_r),) if version >= 5 else ("None", "False")
                ), what + ": use_E_r of configuration"
            )

    def layout(self, version, size, final, optional):
        """Run with some solutions"""
        conf, _ = config_input(14)
        solns = [
            solution(4, [], solution_input(14)[0], tag=i)
            for i in range(size + 1)
        ]
        obj, want = self.make_run(
            version, conf, [s for s, _ in solns[:-1]],
            solns[-1][0] if final == "own" else final, True, optional
        )
        have = load(obj)
        what = "run {}".format(version)
        check_fields(have, want, what)
        require(
            sorted(have.loaded, key=int) == [str(i) for i in range(size)],
            what + ": names of solutions"
        )
        for i in range(size):
            check_fields(have.loaded[str(i)], solns[i][1], what)
        if final == "own":
            check_fields(have.final_solution, solns[-1][1], what)
        else:
            require(have.final_solution is None, what + ": final")


if __name__ == "__main__":
    main(C02())
