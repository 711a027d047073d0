# -*- coding: utf-8 -*-
"""
C05: what is used when solving a stored solution again
"""
import itertools

import attr
from h5preserve import open as h5open

from mc.core import Check, main, require, scratch
from mc.runs import digest, methods, subsets
from mc.util import (
    config_input, make_run, make_solution, difference, snapshot,
)

from disc_solver.file_format import (
    CONFIG_FIELDS, SOLUTION_INPUT_FIELDS, registries,
)
from disc_solver.solve.config import new_inputs_with_overrides
from disc_solver.solve.resolve import resolve

# Three values of each setting, as in a configuration
VALUES = {
    "start": ("0", "0.5", "0.25"), "stop": ("5", "4", "4.5"),
    "taylor_stop_angle": ("0.001", "0.002", "1/3"),
    "max_steps": ("10000", "11", "12"), "num_angles": ("50", "51", "52"),
    "relative_tolerance": ("1e-6", "1e-7", "1e-5"),
    "absolute_tolerance": ("1e-10", "1e-11", "1e-9"),
    "γ": ("0.001", "0.0015", "0.002"), "nwalkers": ("8", "9", "10"),
    "iterations": ("3", "4", "5"), "threads": ("1", "2", "3"),
    "target_velocity": ("0.9", "0.8", "0.7"),
    "split_method": ("v_θ_deriv", "b", "c"),
    "v_rin_on_c_s": ("1", "1.5", "2"), "v_a_on_c_s": ("1", "2", "3"),
    "c_s_on_v_k": ("0.03", "0.04", "0.05"),
    "η_O": ("0.001", "0.002", "0.003"), "η_H": ("0.0001", "-1", "0"),
    "η_A": ("0.0005", "0", "1e-9"), "η_derivs": ("True", "False", "no"),
    "jump_before_sonic": ("None", "0.1", "0.2"),
    "use_taylor_jump": ("True", "False", "off"),
    "mcmc_vars": ("None", "v_r", "v_r,v_k"),
    "v_θ_sonic_crit": ("None", "0.3", "0.4"),
    "after_sonic": ("None", "0.5", "0.6"),
    "sonic_interp_size": ("None", "7", "8"),
    "interp_range": ("10", "None", "5"),
    "interp_slice": ("-1000,-100", "None", "2,3"),
    "use_E_r": ("False", "True", "yes"),
}
KEYS = list(VALUES)
# for these, an empty override means none
OPTIONAL = (
    "jump_before_sonic", "mcmc_vars", "v_θ_sonic_crit", "after_sonic",
    "sonic_interp_size", "interp_range", "interp_slice",
)
for _key in OPTIONAL:
    VALUES[_key] += ("",)
#: stored configuration, stored solution, override (index of value, or None)
STATES = [
    s for s in itertools.product((0, 1), (0, 1, 2), (None, 0, 1, 2))
]
SELECTIONS = (None, "0", "1", "2", "final", "latest")


def parsed(key, text):
    """Value the solver uses for the text"""
    return getattr(config_input(**{key: text}).to_soln_input(), key)


def same(have, want, what):
    """Compare"""
    diff = difference(want, have)
    require(diff is None, lambda: "{}: {}".format(what, diff))


class C05(Check):
    id = "C05"
    level = "exploration"
    rule = (
        "A case is a choice for each of one or two settings of its value in "
        "the stored configuration, in the stored solution and in the "
        "overrides, out of three values each or absent (all pairs of "
        "settings), for the merging; or a stored file with three solutions "
        "and a selection, for the whole of solving again."
    )
    chunk = 32

    def cases(self, tier):
        deep = tier == "thorough"
        for key in KEYS:
            for state in STATES:
                yield ["merge", {key: state}]
        for key in OPTIONAL:
            for state in itertools.product((0, 1, 3), (0, 1, 2), (3,)):
                yield ["merge", {key: state}]
        interesting = [
            (0, 0, None), (0, 1, None), (0, 0, 1), (0, 1, 0), (0, 1, 2),
            (1, 0, None), (1, 0, 0),
        ]
        for a, b in itertools.combinations(KEYS, 2):
            for states in itertools.product(
                STATES if deep else interesting, interesting
            ):
                yield ["merge", dict(zip((a, b), states))]
        for n in range(8):
            # everything at once, in different ways
            yield ["merge", {
                k: STATES[(5 * i + n) % len(STATES)]
                for i, k in enumerate(KEYS)
            }]
        for state in ((None, None, None), (None, None, "new")):
            yield ["label", state[2]]
        for key in KEYS:
            for selection in SELECTIONS:
                for override in (None, 0, 2, 3)[:4 if key in OPTIONAL else 3]:
                    yield ["whole", key, selection, override]
        for names in subsets(["label", "γ", "η_derivs", "mcmc_vars"]):
            yield ["whole", "stop", "1", dict.fromkeys(names, 2)]

    def evaluate(self, case):
        getattr(self, case[0])(*case[1:])
        return {"outcome": case[0]}

    def merge(self, states):
        """Merge the inputs"""
        conf = config_input(**{
            k: VALUES[k][states.get(k, (0,))[0]] for k in KEYS
        })
        soln = config_input(**{
            k: VALUES[k][states.get(k, (0, 0))[1]] for k in KEYS
        }).to_soln_input()
        overrides = {
            k: VALUES[k][s[2]] for k, s in states.items() if s[2] is not None
        }
        originals = [snapshot(x) for x in (conf, soln, overrides)]
        want_conf = attr.evolve(conf, **overrides)
        want_soln = attr.evolve(soln, **{
            k: parsed(k, v) for k, v in overrides.items()
        })
        for given in (overrides, None) if not overrides else (overrides,):
            new_conf, new_soln = new_inputs_with_overrides(
                config_input=conf, solution_input=soln, overrides=given,
            )
            same(new_conf, want_conf, "configuration")
            same(new_soln, want_soln, "input")
        for orig, obj in zip(originals, (conf, soln, overrides)):
            same(obj, orig, "was changed")

    def label(self, new):
        """The label is only in the configuration"""
        conf = config_input(label="old")
        soln = config_input(stop="3").to_soln_input()
        new_conf, new_soln = new_inputs_with_overrides(
            config_input=conf, solution_input=soln,
            overrides={} if new is None else {"label": new},
        )
        require(new_conf.label == (new or "old"), "label")
        same(new_soln, soln, "input")
        require(conf.label == "old", "label changed")

    def whole(self, key, selection, override):
        """Solve again from a file"""
        conf = config_input(**{k: VALUES[k][0] for k in KEYS})
        inps = [
            config_input(**{
                k: VALUES[k][n if k in (key, "γ") else 0] for k in KEYS
            }).to_soln_input() for n in (0, 1, 2, 1)
        ]
        inps[3].nwalkers = 77
        solns = [
            make_solution(i, n=1, inp=inp, initial_conditions=None)
            for i, inp in enumerate(inps)
        ]
        if override is None:
            overrides = None
        elif isinstance(override, dict):
            overrides = {
                k: "new" if k == "label" else VALUES[k][v]
                for k, v in override.items()
            }
        else:
            overrides = {key: VALUES[key][override]}
        chosen = {
            None: 0, "0": 0, "1": 1, "2": 2, "final": 3, "latest": 3,
        }[selection]
        seen = []

        def method(name):
            def solver(inp, run, **kwargs):
                seen.append((name, snapshot(inp), kwargs))
                run.solutions.add_solution(make_solution(
                    9, n=1, inp=inp, initial_conditions=None
                ))
                return True
            return solver
        with scratch() as path, methods(method):
            with h5open(path / "a.hdf5", registries, mode="x") as f:
                run = make_run(config_input=conf)
                f["run"] = run
                for soln in solns[:3]:
                    run.solutions.add_solution(soln)
                run.final_solution = solns[3]
            before = digest(path / "a.hdf5")
            name, good = resolve(
                output_file="b.hdf5", sonic_method="step",
                soln_filename=path / "a.hdf5", soln_range=selection,
                output_dir=path, store_internal=False, overrides=overrides,
            )
            require(digest(path / "a.hdf5") == before, "original file")
            require(good is True and name == path / "b.hdf5", "result")
            with h5open(path / "b.hdf5", registries, mode="r") as f:
                have = f["run"]
                stored = have.solutions["0"].solution_input
        require(len(seen) == 1 and seen[0][0] == "step", "methods called")
        changes = {
            k: parsed(k, v) for k, v in (overrides or {}).items()
            if k != "label"
        }
        want = attr.evolve(inps[chosen], **changes)
        same(seen[0][1], want, "input")
        same(stored, want, "input in the new file")
        same(
            have.config_input, attr.evolve(conf, **(overrides or {})),
            "configuration"
        )
        require(
            have.based_on_solution_filename == str(path / "a.hdf5"),
            "based on file"
        )
        require(
            have.based_on_solution_solution_name == selection,
            "based on solution"
        )
        require(have.use_E_r == want.use_E_r, "use_E_r")
        require(have.sonic_method == "step", "method")
        require(have.config_filename == run.config_filename, "file name")
        require(not have.is_post_shock_only, "is_post_shock_only")


assert set(KEYS) == set(SOLUTION_INPUT_FIELDS)
assert set(KEYS) | {"label"} == set(CONFIG_FIELDS)

if __name__ == "__main__":
    main(C05())
