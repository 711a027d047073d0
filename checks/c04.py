# -*- coding: utf-8 -*-
"""
C04: reading of configuration files and overrides
"""
import itertools
import unicodedata

from mc.core import Check, in_dir, main, require, scratch
from mc.runs import methods, subsets
from mc.util import make_solution

from disc_solver.file_format import CONFIG_FIELDS
from disc_solver.solve import solve, main as soln_main
from disc_solver.solve.config import get_input_from_conffile
from disc_solver.solve.utils import validate_overrides, SolverError

# The settings, with their section and default
DEFAULTS = {
    "config": {
        "start": "0", "stop": "5", "taylor_stop_angle": "0.001",
        "max_steps": "10000", "num_angles": "10000", "label": "default",
        "relative_tolerance": "1e-6", "absolute_tolerance": "1e-10",
        "jump_before_sonic": "None", "v_θ_sonic_crit": "None",
        "after_sonic": "None", "interp_range": "10",
        "sonic_interp_size": "None", "interp_slice": "-1000,-100",
        "η_derivs": "True", "nwalkers": "8", "iterations": "3",
        "threads": "1", "mcmc_vars": "v_r,v_a,v_k",
        "target_velocity": "0.9", "split_method": "v_θ_deriv",
        "use_taylor_jump": "True", "use_E_r": "False",
    },
    "initial": {
        "γ": "0.001", "v_rin_on_c_s": "1", "v_a_on_c_s": "1",
        "c_s_on_v_k": "0.03", "η_O": "0.001", "η_H": "0.0001",
        "η_A": "0.0005",
    },
}
SECTION = {k: s for s, keys in DEFAULTS.items() for k in keys}
ALL = {k: v for keys in DEFAULTS.values() for k, v in keys.items()}
KEYS = list(ALL)
OTHER = {"config": "initial", "initial": "config"}
VALUES = {k: "{}7e-2".format(i + 11) for i, k in enumerate(KEYS)}
VALUES.update({
    "η_derivs": "False", "use_taylor_jump": "no", "use_E_r": "True",
    "mcmc_vars": "v_k", "interp_slice": "-3,-2", "label": "a b",
    "split_method": "another", "max_steps": "11", "num_angles": "12",
    "nwalkers": "13", "iterations": "14", "threads": "15",
    "interp_range": "16",
})


def variants(key):
    """Other keys, which are similar"""
    found = {
        key.upper(), key.lower(), key.title(), key.swapcase(), key + "s",
        key[:-1], "_" + key, key.replace("_", " "), key.replace("_", "-"),
        key.replace("η", "eta"), unicodedata.normalize("NFD", key + "é"),
    }
    return sorted(v for v in found if v and v not in ALL)


def as_file(path, entries, sections=None, style="{} = {}"):
    """File with entries: section, key, value"""
    names = sections or ["config", "initial"]
    text = ["# comment", "; another"]
    for name in names:
        text.append("[{}]".format(name))
        text += [style.format(k, v) for s, k, v in entries if s == name]
    path.write_text("\n".join(text) + "\n", "utf8")


class C04(Check):
    id = "C04"
    level = "exploration"
    rule = (
        "A case is a configuration file: with each single setting, each "
        "pair of settings in both orders, all but one, in the right or "
        "wrong section, with similar keys of other case, in several styles "
        "of writing; or such a file with overrides, single or pairs, in "
        "each order; each field of the result is compared."
    )
    assumptions = (
        "the defaults are those in the documented configuration of the "
        "pinned version", "no section named DEFAULT, which configparser "
        "merges into the others, and no interpolation",
    )
    chunk = 16

    def cases(self, tier):
        yield ["nofile"]
        for sections in ([], ["config"], ["initial"], ["other"],
                         ["initial", "config"], ["Config", "INITIAL"]):
            yield ["of_file", [], sections, "{} = {}"]
        for key in KEYS:
            entry = [SECTION[key], key, VALUES[key]]
            for style in ("{} = {}", "{}={}", "{}: {}", "{}   =   {}  "):
                yield ["of_file", [entry], None, style]
            yield ["of_file", [entry], [SECTION[key]], "{} = {}"]
            yield ["of_file", [entry], ["initial", "config"], "{} = {}"]
            yield ["of_file", [entry, ["other", key, "5"]],
                   ["config", "other", "initial"], "{} = {}"]
            yield ["of_file", [[OTHER[SECTION[key]], key, "5"]], None,
                   "{} = {}"]
            yield ["of_file", [[OTHER[SECTION[key]], key, "5"], entry], None,
                   "{} = {}"]
            yield ["of_file", [
                [SECTION[k], k, VALUES[k]] for k in KEYS if k != key
            ], None, "{} = {}"]
            for other in variants(key):
                for found in (
                    [[SECTION[key], other, "5"]],
                    [[SECTION[key], other, "5"], entry],
                    [entry, [SECTION[key], other, "5"]],
                ):
                    yield ["of_file", found, None, "{} = {}"]
            for value in ("", "None", "0", "x=y", "x:y", "x # y", "τ"):
                yield ["of_file", [[SECTION[key], key, value]], None,
                       "{} = {}"]
        yield ["of_file", [[SECTION[k], k, VALUES[k]] for k in KEYS], None,
               "{} = {}"]
        for a, b in itertools.permutations(KEYS, 2):
            yield ["of_file", [[SECTION[a], a, VALUES[a]],
                            [SECTION[b], b, VALUES[b]]], None, "{} = {}"]
        for key in KEYS:
            for given in ((), (key,), tuple(KEYS)):
                yield ["override", given, [[key, "123"]]]
                yield ["override", given, [[key, "123"], [key, "456"]]]
                yield ["override", given, [[key, VALUES[key]]]]
        for a, b in itertools.permutations(KEYS, 2):
            yield ["override", (a,), [[a, "123"], [b, "456"]]]
            if tier == "thorough":
                yield ["override", (), [[a, "123"], [b, "456"]]]
                yield ["override", (a, b), [[b, "123"], [a, "456"],
                                            [b, "7"]]]
        for bad in ["β", "", "Start", "filename", "config.start", "γ ",
                    "solution_name"] + [
                        v for k in KEYS for v in variants(k)]:
            for extra in subsets(["start", "γ"]):
                yield ["refused", bad, extra]
        for key in KEYS:
            yield ["solved", key]
        yield ["missing"]
        # one file, read again after it was written anew
        for a, b in itertools.product((None,) + tuple(KEYS), repeat=2):
            yield ["again", a, b]

    def evaluate(self, case):
        getattr(self, case[0])(*case[1:])
        return {"outcome": case[0]}

    def compare(self, conf, want):
        """Compare all the fields"""
        require(set(want) == set(CONFIG_FIELDS), "fields {}".format(
            set(want) ^ set(CONFIG_FIELDS)
        ))
        for key, val in want.items():
            have = getattr(conf, key)
            require(
                have == val, "{} is {!r}, not {!r}".format(key, have, val)
            )

    def nofile(self):
        """All defaults"""
        for kwargs in ({}, {"overrides": None}, {"overrides": {}}):
            self.compare(
                get_input_from_conffile(config_file=None, **kwargs), ALL
            )

    def expected(self, entries):
        """What the entries mean"""
        want = dict(ALL)
        for section, key, value in entries:
            if SECTION.get(key) == section:
                want[key] = value.strip()
        for key in ("jump_before_sonic", "mcmc_vars", "v_θ_sonic_crit",
                    "after_sonic", "sonic_interp_size", "interp_range",
                    "interp_slice"):
            # an empty value means none
            want[key] = want[key] or "None"
        return want

    def of_file(self, entries, sections, style):
        """A file"""
        if sections is not None:
            entries = [e for e in entries if e[0] in sections]
        with scratch() as path:
            as_file(path / "a.conf", entries, sections, style)
            before = (path / "a.conf").read_bytes()
            conf = get_input_from_conffile(config_file=path / "a.conf")
            require((path / "a.conf").read_bytes() == before, "file changed")
        self.compare(conf, self.expected(entries))

    def override(self, given, overrides):
        """A file and overrides"""
        entries = [[SECTION[k], k, VALUES[k]] for k in given]
        want = self.expected(entries)
        want.update(overrides)
        with scratch() as path:
            as_file(path / "a.conf", entries)
            valid = validate_overrides(overrides)
            require(dict(valid) == dict(overrides), "overrides")
            conf = get_input_from_conffile(
                config_file=path / "a.conf", overrides=valid,
            )
        self.compare(conf, want)
        require(valid == dict(overrides), "overrides were changed")

    def refused(self, bad, extra):
        """Overrides of no setting"""
        found = [(k, "1") for k in extra]
        called = []

        def method(name):
            return lambda *args, **kwargs: called.append(name)
        for position in range(len(found) + 1):
            overrides = found[:position] + [(bad, "1")] + found[position:]
            try:
                validate_overrides(overrides)
            except SolverError:
                pass
            else:
                require(False, "accepted {!r}".format(bad))
        with scratch() as path, in_dir(path), methods(method):
            as_file(path / "a.conf", [])
            args = ["--output-file", "out.hdf5"]
            for name, value in found + [(bad, "1")]:
                args += ["--override", name, value]
            try:
                res = soln_main(args + ["a.conf"])
            except (SolverError, SystemExit) as e:
                res = getattr(e, "code", 1)
            require(res not in (0, None), "succeeded")
            require(
                [p.name for p in path.iterdir()] == ["a.conf"],
                "something was written"
            )
        require(not called, "something was solved")

    def solved(self, key):
        """What is solved is what was read"""
        seen = []

        def method(name):
            def solver(inp, run, **kwargs):
                seen.append((name, inp, run))
                run.solutions.add_solution(make_solution(
                    0, n=1, inp=inp, initial_conditions=None
                ))
                return True
            return solver
        number = {
            "η_derivs": "False", "use_taylor_jump": "False",
            "use_E_r": "True", "mcmc_vars": "v_k", "interp_slice": "-3,-2",
        }.get(key, "3")
        with scratch() as path, methods(method):
            for given, overrides in (
                ({key: number}, {}), ({}, {key: number}),
                ({key: "9"}, {key: number}),
            ):
                as_file(path / "a.conf", [
                    [SECTION[k], k, v] for k, v in given.items()
                ])
                want = dict(ALL, **given)
                want.update(overrides)
                solve(
                    output_file="out{}.hdf5".format(len(seen)),
                    sonic_method="step", config_file=path / "a.conf",
                    output_dir=path, store_internal=False,
                    overrides=overrides,
                )
                name, inp, run = seen[-1]
                require(name == "step", "method")
                self.compare(run.config_input, want)
                for field, value in vars(
                    run.config_input.to_soln_input()
                ).items():
                    have = getattr(inp, field)
                    require(
                        str(have) == str(value), "{} is {!r}".format(
                            field, have
                        )
                    )

    def again(self, *keys):
        """The same name with other contents"""
        with scratch() as path:
            for key in keys + keys[:1]:
                entries = [[SECTION[k], k, VALUES[k]] for k in KEYS
                           if k == key]
                as_file(path / "a.conf", entries)
                conf = get_input_from_conffile(config_file=path / "a.conf")
                self.compare(conf, self.expected(entries))
                conf = get_input_from_conffile(
                    config_file=path / "a.conf", overrides={"stop": "77"},
                )
                self.compare(conf, dict(self.expected(entries), stop="77"))
                conf = get_input_from_conffile(config_file=path / "a.conf")
                self.compare(conf, self.expected(entries))

    def missing(self):
        """File which does not exist"""
        with scratch() as path:
            try:
                get_input_from_conffile(config_file=path / "a.conf")
            except OSError:
                return
            require(False, "read a missing file")


if __name__ == "__main__":
    main(C04())
