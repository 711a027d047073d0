# -*- coding: utf-8 -*-
"""
C22: reports and dumps of all lists of up to three good, failing and unreadable
files, all groups of information and all selections, against what was stored
"""
import csv
import functools
import io
import itertools
import math
import os
import re
import sys
import tempfile
import shutil
from pathlib import Path

import attr
import numpy as np
from h5preserve import open as h5open
import h5py
from scipy.integrate import simpson

from mc.core import Check, main, require, scratch, in_dir, patched
from mc.runs import captured_stdout
from mc.util import (
    make_run, make_solution, solution_input, internal_data, config_input,
    initial_conditions, ODEIndex, NVARS, ConfigInput, MCMCVars,
)
from mc.physics import speeds, cylindrical_up, residuals, slopes
from checks.c15 import ref_point

from disc_solver.file_format import registries
from disc_solver.file_format import SOLUTION_INPUT_FIELDS as _FIELDS
from disc_solver.analyse.info import info_main
from disc_solver.analyse.stats import stats_main, dump_csv_inputs_main
from disc_solver.analyse.dump_csv import dump_main as csv_main
from disc_solver.analyse.dump_config import dump_main as cfg_main
from disc_solver.solve.utils import get_csv_inputs
from disc_solver.solve.config import get_input_from_conffile

f8 = np.float64
STDIN = sys.stdin
INPUT_FIELDS = (
    "start", "stop", "taylor_stop_angle", "max_steps", "num_angles",
    "relative_tolerance", "absolute_tolerance", "γ", "nwalkers", "iterations",
    "threads", "target_velocity", "split_method", "v_rin_on_c_s",
    "v_a_on_c_s", "c_s_on_v_k", "η_O", "η_H", "η_A", "η_derivs",
    "jump_before_sonic", "use_taylor_jump", "mcmc_vars", "v_θ_sonic_crit",
    "after_sonic", "sonic_interp_size", "interp_range", "interp_slice",
    "use_E_r",
)
STATS_FIELDS = (
    "max_slow_mach", "max_slow_mach_angle_degrees", "max_sonic_mach",
    "max_sonic_mach_angle_degrees", "max_alfven_mach",
    "max_alfven_mach_angle_degrees", "max_fast_mach",
    "max_fast_mach_angle_degrees", "slow_sonic_point", "sonic_sonic_point",
    "alfven_sonic_point", "fast_sonic_point", "M_dot_out_on_M_dot_in", "Σ",
    "max_B_p_on_B_t", "max_jet_v_z", "max_jet_v_z_height",
    "max_diff_continuity", "max_diff_solenoid", "max_diff_radial_momentum",
    "max_diff_azimuthal_momentum", "max_diff_polar_momentum",
    "max_diff_polar_induction", "max_diff_E_φ", "filename", "solution_name",
    "max_angle_reached_degrees", "v_θ_starts_monotonic", "v_θ_ends_low",
)
INPUTS = (
    {},
    {"jump_before_sonic": f8(0.125), "γ": f8(0.25), "stop": f8(11.5),
     "interp_slice": slice(-50, None), "η_H": f8(-1e-7),
     "c_s_on_v_k": f8(0.1), "split_method": "v_θ_deriv"},
    {"mcmc_vars": MCMCVars(True, False, True), "v_θ_sonic_crit": f8(0.9),
     "after_sonic": f8(1.25), "sonic_interp_size": f8(7), "interp_range": 3,
     "η_derivs": False, "use_taylor_jump": False, "γ": f8(1) / 3,
     "interp_slice": slice(1, 9, 2)},
    {"use_E_r": True, "relative_tolerance": f8(1e-12),
     "absolute_tolerance": f8(3e-17), "γ": f8(0.4)},
)


def shape(kind, n=9):
    """Angles and values of a solution"""
    reach = {"wide": 0.6, "narrow": 0.04}.get(kind, 0.2)
    angles = reach * np.linspace(0, 1, n)**1.25
    if kind in ("late", "early"):
        # falls just after or before 20 degrees
        angles = np.radians([0, 5, 10, 15, 19, 20, 20.25, 21, 22])
        reach = angles[-1]
    x = angles / reach
    s = np.zeros((n, NVARS))
    s[:, ODEIndex.B_r] = 0.75 * x
    s[:, ODEIndex.B_φ] = -1.5 * x + 0.25
    s[:, ODEIndex.B_θ] = 1 - 0.125 * x**2
    s[:, ODEIndex.v_r] = -1 + 0.25 * x
    s[:, ODEIndex.v_φ] = 33 - x**2
    top = {
        "still": 0.25, "sonic": 1.5, "wide": 30.0, "narrow": 3.0, "fall": 4.0,
        "wiggle": 3.0, "slow": 0.9, "alfven": 9.0, "late": 30.0,
        "early": 10.0, "part": 3.0, "ends low": 12.0, "ends high": 12.0,
        "slow only": 0.9, "sonic only": 1.5, "radial": 4.0,
    }[kind]
    s[:, ODEIndex.v_θ] = top * x**2
    if kind == "wiggle":
        s[n // 2, ODEIndex.v_θ] *= 0.25
    if kind == "late":
        s[6:, ODEIndex.v_θ] = 10
    if kind == "early":
        s[4, ODEIndex.v_θ] += 5
    if kind in ("ends low", "ends high"):
        s[-2:, ODEIndex.v_θ] = (10.25, 9.75)[::1 if kind == "ends low" else -1]
    if kind in ("late", "early", "wiggle"):
        s[:, ODEIndex.B_φ] = 2 * x
    if kind == "radial":
        # going up fastest where the polar velocity is not largest
        s[:, ODEIndex.v_r] = 60 * x
    if kind in ("fall", "radial"):
        s[-2:, ODEIndex.v_θ] = top / 3
    if kind == "alfven":
        # over the Alfvén speed and not the fast one
        s[:, ODEIndex.B_φ] = -150 * x
        s[:, ODEIndex.B_r] = 0.5 * x
        s[:, ODEIndex.ρ] = 1.0
    if kind in ("slow only", "sonic only"):
        # below the Alfvén speed
        s[:, :3] *= 10
    s[:, ODEIndex.ρ] = np.exp(-x * (5 if kind == "wide" else 2))
    if kind == "part":
        s[:, ODEIndex.B_φ] = np.nan
    s[:, ODEIndex.B_φ_prime] = 0.5 - x
    s[:, ODEIndex.η_O] = 0.5 + x
    s[:, ODEIndex.η_A] = 0.25 * s[:, ODEIndex.η_O]
    s[:, ODEIndex.η_H] = -0.125 * s[:, ODEIndex.η_O]
    return angles, s


@functools.lru_cache(None)
def content(kind, number):
    """A solution of a kind, and input number"""
    inp = solution_input(**INPUTS[number % len(INPUTS)])
    inp = attr.evolve(inp, v_rin_on_c_s=f8(1 + number / 8))
    base = kind.split("+")[0]
    ic = initial_conditions(number)
    ic.γ = inp.γ
    ic.norm_kepler_sq = 1 / inp.c_s_on_v_k**2
    if base in ("nan", "single", "empty"):
        angles, s = shape("sonic")
        if base == "nan":
            s = s * np.nan
        n = {"nan": 9, "single": 1, "empty": 0}[base]
        angles, s = angles[:n], s[:n]
    else:
        angles, s = shape(base)
    internal = None
    if kind.endswith("+internal"):
        internal = internal_data(number, n=5, jac=False)
        t, p = shape("still", 5)
        wave = np.sin(np.arange(5 * NVARS).reshape(5, NVARS) + number)
        for lst, vals in (
            (internal.angles, t), (internal.params, p),
            (internal.derivs, wave * (1 if number % 2 else -1) -
             (0.9 if number % 3 else -0.9)),
        ):
            lst[:] = list(vals)
    return make_solution(
        number, n=len(angles), inp=inp, angles=angles, solution=s,
        initial_conditions=ic, internal_data=internal,
        t_roots=np.array([0.125]) if kind in ("wide", "slow") else None,
        y_roots=np.ones((1, NVARS)) if kind in ("wide", "fall") else None,
        derivatives=s * 2 if kind == "sonic" else None,
    )


# which solutions are in the files, and which is the final one
FILES = {
    "one": (("sonic",), 0),
    "two": (("still+internal", "wide"), 1),
    "no final": (("fall", "narrow+internal"), None),
    "failing": (("slow", "single", "nan", "wiggle+internal"), 3),
    "20 degrees": (("early", "late", "ends low", "ends high"), 1),
    "failing final": (("alfven", "single"), 1),
    "part": (("part",), 0),
    "strong": (("slow only", "sonic only"), 0),
    "radial": (("radial",), 0),
    "alike": (("fall", "sonic", "fall"), 2),
}
BAD = ("no run", "missing", "text", "cut", "folder")
KINDS = tuple(FILES) + BAD
FIRST = {
    "one": 0, "two": 1, "no final": 3, "failing": 5, "failing final": 9,
    "20 degrees": 11, "part": 15, "strong": 16, "radial": 18,
    "alike": 20,
}
FAILS = ("single", "nan")


def label(kind):
    """Label of the run of a file"""
    return "lbl %s" % kind


def solutions(kind):
    """What the file holds: name, kind, number"""
    kinds, final = FILES[kind]
    out = [(str(i), k, FIRST[kind] + i) for i, k in enumerate(kinds)]
    if final is not None:
        out.append(("final", kinds[final], FIRST[kind] + final))
    return out


def write_files(path):
    """Write all the kinds of files"""
    for i, kind in enumerate(FILES):
        with h5open(path / (kind + ".hdf5"), registries, mode="x") as f:
            run = make_run(
                config_input=config_input(
                    label=label(kind), stop=str(5 + i), γ="0.00%d" % i
                ), config_filename="cfg%d.conf" % i,
                disc_solver_version="v%d" % i,
                sonic_method=("single", "jump", "step", "mod_hydro", "mcmc", "dae",
                               "single", "single")[i % 8], use_E_r=bool(i % 2),
            )
            f["run"] = run
            kinds, final = FILES[kind]
            for j, k in enumerate(kinds):
                run.solutions.add_solution(content(k, FIRST[kind] + j))
            if final is not None:
                run.final_solution = run.solutions[str(final)]
    with h5py.File(path / "no run.hdf5", "x") as f:
        f["other"] = 1
    (path / "text.hdf5").write_text("not what it should be\n" * 99)
    data = (path / "two.hdf5").read_bytes()
    (path / "cut.hdf5").write_bytes(data[:len(data) // 2])
    (path / "folder.hdf5").mkdir()


@functools.lru_cache(None)
def ref_stats(kind, number):
    """The statistics of a solution, by their definition"""
    soln = content(kind, number)
    p, θ = soln.solution, soln.angles
    v = p[:, ODEIndex.v_θ]
    slow, alfven, fast = speeds(p)
    out = {}
    for name, mach in (
        ("slow", np.abs(v) / slow), ("sonic", v),
        ("alfven", np.abs(v) / alfven), ("fast", np.abs(v) / fast),
    ):
        out["max_%s_mach" % name] = mach.max()
        out["max_%s_mach_angle_degrees" % name] = (
            np.nan if np.isnan(mach).all() else
            θ[list(mach).index(mach.max())] * 180 / np.pi
        )
        out[name + "_sonic_point"] = (
            ref_point(θ, mach) if (mach > 1).any() else None
        )
    ρ, v_r = p[:, ODEIndex.ρ], p[:, ODEIndex.v_r]
    γ = soln.initial_conditions.γ
    leaving = (100**(2 * γ) - 0.1**(2 * γ)) / (2 * γ) * ρ[-1] * v[-1]
    coming = -simpson(y=ρ * v_r, x=θ) * (
        0.1**(2 * γ - 1) - 100**(2 * γ - 1)
    )
    out["M_dot_out_on_M_dot_in"] = leaving / coming
    out["Σ"] = math.fsum(ρ)
    out["max_B_p_on_B_t"] = (
        p[:, ODEIndex.B_φ] /
        np.hypot(p[:, ODEIndex.B_r], p[:, ODEIndex.B_θ])
    ).max()
    out["max_angle_reached_degrees"] = θ.max() * 180 / np.pi
    low = v[θ * 180 / np.pi <= 20]
    out["v_θ_starts_monotonic"] = list(low) == sorted(low)
    out["v_θ_ends_low"] = v[-1] <= 10
    up = cylindrical_up(p, θ)
    out["max_jet_v_z"] = up.max()
    at = list(up).index(up.max())
    out["max_jet_v_z_height"] = (
        np.tan(θ[at]) / soln.solution_input.c_s_on_v_k
    )
    d, q = slopes(p, θ), θ
    if soln.internal_data is not None:
        p = np.array(soln.internal_data.params)
        d = np.array(soln.internal_data.derivs)
        q = np.array(soln.internal_data.angles)
    left, size = residuals(
        p, d, q, γ, soln.initial_conditions.a_0,
        soln.initial_conditions.norm_kepler_sq,
    )
    tol = {}
    for name, vals in left.items():
        out["max_diff_" + name] = np.abs(vals).max()
        tol["max_diff_" + name] = 1e-12 * size[name].max()
    # the difference of nearly equal numbers
    tol["max_slow_mach"] = 1e-6 * out["max_slow_mach"]
    tol["slow_sonic_point"] = 1e-6
    return out, tol


def check_number(have, want, what, tol=0.0):
    """A number in a table"""
    if want is None:
        require(have == "", lambda: "{}: {!r} is not empty".format(what, have))
        return
    if isinstance(want, (bool, np.bool_)):
        require(have == str(bool(want)), lambda: "{}: {!r} is not {}".format(
            what, have, want
        ))
        return
    try:
        val = float(have)
    except ValueError:
        require(False, "{}: {!r} is no number".format(what, have))
    require(
        (np.isnan(val) and np.isnan(want)) or abs(val - want) <= 1e-9 * abs(want) + tol + 1e-300,
        lambda: "{}: {!r} is not {!r}".format(what, have, want)
    )


def check_input(row, inp, what):
    """The fields of the input in a table are exact"""
    full = dict(row)
    config = ConfigInput(label="a", **{k: full[k] for k in INPUT_FIELDS})
    have = config.to_soln_input()
    for name in INPUT_FIELDS:
        a, b = getattr(have, name), getattr(inp, name)
        require(
            a == b or (name == "mcmc_vars" and (
                (a is None and b is None) or attr.astuple(a) == attr.astuple(b)
            )),
            lambda: "{}: {} read back is {!r}, not {!r}".format(
                what, name, a, b
            )
        )


def call(main_, args, stdin=None):
    """Call a command, returning its standard output"""
    with captured_stdout() as out, patched(
        (STDIN, io.StringIO(stdin or ""))
    ):
        main_(args)
    return out.getvalue()


class C22(Check):
    id = "C22"
    level = "exploration"
    rule = (
        "A case is a list of up to two (thorough: three) files out of good, "
        "failing and unreadable ones, given as arguments or on standard "
        "input to the commands collecting statistics and inputs; or a group "
        "of information, or a dump with its options, of all selections of a "
        "file. The tables and texts are compared with recomputed ones."
    )
    assumptions = (
        "solutions of one point or without defined values are those which "
        "cannot be analysed",
        "a solution which cannot be loaded makes its file unreadable from "
        "there on",
    )
    chunk = 4
    base = None

    def setup(self, tier):
        require(tuple(_FIELDS) == INPUT_FIELDS, "names of the inputs")
        self.base = Path(tempfile.mkdtemp(
            prefix="c22", dir=os.environ.get("DSV_SCRATCH")
        ))
        (self.base / "files").mkdir()
        write_files(self.base / "files")
        os.environ["DISC_SOLVER_DISABLE_THREADING"] = "true"

    def cases(self, tier):
        deep = tier == "thorough"
        for n in range(0, 4 if deep else 3):
            for kinds in itertools.product(KINDS, repeat=n):
                # standard input closes up only after the arguments
                for split in range(n + 1):
                    for command in ("stats", "inputs"):
                        if command == "inputs" and split not in (0, n):
                            continue
                        out = ("-", "new", "old")[
                            (sum(map(len, kinds)) + split) % 3
                        ]
                        yield [command, list(kinds), split, out]
        if not deep:
            for kinds in itertools.permutations(
                ("two", "failing", "missing", "one", "no run"), 3
            ):
                for split in (0, 2, 3):
                    yield ["stats", list(kinds), split, "new"]
        for out in ("-", "new", "old"):
            for kind in KINDS:
                yield ["stats", [kind], 1, out]
                yield ["inputs", [kind], 1, out]
        for kind in KINDS:
            for group in (
                "run", "status", "input", "initial-conditions",
                "sonic-points", "crosses-points", "sonic-on-scale",
                "solutions",
            ):
                yield ["info", kind, group]
            for header in (False, True):
                for out in ("-", "new", "old"):
                    yield ["tocsv", kind, header, out]
            for out in ("-", "new", "old"):
                yield ["tocfg", kind, out]

    def evaluate(self, case):
        with scratch() as path, in_dir(path):
            for f in (self.base / "files").iterdir():
                if f.is_dir():
                    (path / f.name).mkdir()
                else:
                    os.link(f, path / f.name)
            res = getattr(self, "on_" + {
                "inputs": "tables", "stats": "tables"
            }.get(case[0], case[0]))(path, *(
                case if case[0] in ("inputs", "stats") else case[1:]
            ))
            left = {f.name for f in path.iterdir()} - {"out", "log"}
            require(left == {k + ".hdf5" for k in KINDS if k != "missing"},
                    lambda: "files changed: {}".format(left))
        return res

    @staticmethod
    def output(out):
        """Prepare where to write"""
        if out == "old":
            Path("out").write_text("before\n")
        return [] if out == "-" else ["--file", "out"]

    @staticmethod
    def written(out, printed, append=True):
        """What was written to where"""
        if out == "-":
            require(not Path("out").exists(), "a file was written as well")
            return printed
        require(printed == "", lambda: "printed as well: " + printed[:200])
        text = Path("out").read_text()
        if out == "old" and append:
            require(text.startswith("before\n"), "what was there was lost")
            text = text[len("before\n"):]
        return text

    def on_tables(self, path, command, kinds, split, out):
        """ds-stats, ds-dumpcsv"""
        names = [k + ".hdf5" for k in kinds]
        args = self.output(out) + ["-q", "--log-file", "log"]
        stdin = None
        if split < len(names):
            args.append("--with-stdin")
            stdin = "".join(n + "\n" for n in names[split:])
        else:
            # nobody asked for it
            stdin = "one.hdf5\n"
        main_ = {"stats": stats_main, "inputs": dump_csv_inputs_main}[command]
        text = self.written(out, call(main_, args + names[:split], stdin))
        reader = csv.DictReader(io.StringIO(text), dialect="unix")
        rows = list(reader)
        fields = INPUT_FIELDS + (STATS_FIELDS if command == "stats" else ())
        require(
            sorted(reader.fieldnames or ()) == sorted(fields),
            lambda: "columns {}".format(reader.fieldnames)
        )
        want, notes = [], []
        for kind, name in zip(kinds, names):
            if kind in BAD:
                notes.append(name)
                continue
            for sname, skind, number in solutions(kind):
                if command == "stats" and skind in FAILS:
                    notes.append((name, sname))
                    continue
                want.append((name, sname, skind, number))
        require(len(rows) == len(want), lambda: "{} rows for {}".format(
            len(rows), want
        ))
        for row, (name, sname, skind, number) in zip(rows, want):
            what = "{} of {}".format(sname, name)
            soln = content(skind, number)
            check_input(row, soln.solution_input, what)
            if command == "inputs":
                continue
            require(
                (row["filename"], row["solution_name"]) == (name, sname),
                lambda: "row of {} {} is for {} {}".format(
                    row["filename"], row["solution_name"], name, sname
                )
            )
            stats, tol = ref_stats(skind, number)
            for key in STATS_FIELDS:
                if key in ("filename", "solution_name"):
                    continue
                if skind == "part" and "alfven" in key:
                    # may or may not be found without all of the field
                    continue
                check_number(
                    row[key], stats[key], key + " of " + what,
                    tol.get(key, 0.0)
                )
        log = Path("log").read_text()
        heads = [
            line for line in log.splitlines()
            if re.search(r"\] (NOTICE|WARNING|ERROR|CRITICAL)\b", line)
        ]
        for note in set(notes):
            asked = notes.count(note)
            if isinstance(note, tuple):
                found = [h for h in heads if note[0] in h and re.search(
                    r"\b%s\b" % note[1], h.split(note[0], 1)[1]
                )]
            else:
                found = [h for h in heads if note in h]
            require(len(found) == asked, lambda: "{} notes about {}: {}".format(
                len(found), note, heads
            ))
        for kind, name in zip(kinds, names):
            if kind in ("one", "two", "no final", "20 degrees"):
                require(
                    not any(name in h for h in heads),
                    lambda: "a note about {}: {}".format(name, heads)
                )
        return {"outcome": [command, len(rows), len(notes)], "traces": 1}

    @staticmethod
    def selections(kind):
        """Selections of solutions of a file: what is given, what is meant"""
        stored = solutions(kind)
        by_name = {name: (k, number) for name, k, number in stored}
        last = str(max(int(s[0]) for s in stored if s[0] != "final"))
        by_name["latest"] = by_name.get("final", by_name[last])
        return by_name

    def on_info(self, path, kind, group):
        """ds-info"""
        name = kind + ".hdf5"
        if kind in BAD:
            with patched():
                try:
                    text = call(info_main, [name, "0", group])
                except Exception:  # pylint: disable=broad-except
                    return {"outcome": "refused"}
            require(False, "no error: " + text[:200])
        selections = self.selections(kind)
        count = 0
        for selection, (skind, number) in selections.items():
            if skind in FAILS + ("part",) and group in (
                "sonic-points", "crosses-points", "sonic-on-scale",
            ):
                continue
            if group == "solutions" and "failing" in kind:
                continue
            text = call(info_main, [name, selection, group])
            what = "{} of {} of {}".format(group, selection, name)
            self.check_info(text, kind, group, content(skind, number), what)
            count += 1
        for bad in ("17", "nonsense"):
            try:
                text = call(info_main, [name, bad, group])
            except Exception:  # pylint: disable=broad-except
                continue
            require(False, lambda: "no error for missing {}: {}".format(
                bad, text
            ))
        return {"outcome": [group, count], "traces": count}

    @staticmethod
    def check_info(text, kind, group, soln, what):
        """The text is that for the solution"""
        items = []
        for line in text.splitlines():
            m = re.match(r"^ ?([^:\[]*?) *:(?: (.*))?$", line)
            if m:
                items.append([m.group(1), (m.group(2) or "").split()])
            else:
                require(items or group == "solutions",
                        lambda: "{}: {}".format(what, text))
                if items:
                    items[-1][1] += line.split()
        if group == "solutions":
            have = text.split()
            names = {
                name: content(k, number)
                for name, k, number in solutions(kind) if name != "final"
            }

            def prob(name):
                v = names[name].solution[:, ODEIndex.v_θ]
                change = np.diff(v)**2
                return -10 * math.exp(-v.max()) - (np.diff(change)**2).sum()
            # those as likely as each other in any order
            require(sorted(have) == sorted(names) and [
                prob(n) for n in have
            ] == sorted(map(prob, names)), lambda: "{}: {}".format(
                what, text
            ))
            return
        number = list(FILES).index(kind)
        θs = {}
        if group in ("sonic-points", "crosses-points", "sonic-on-scale"):
            slow, alfven, fast = speeds(soln.solution)
            v = soln.solution[:, ODEIndex.v_θ]
            for key, mach in (
                ("slow", v / slow), ("sonic", v), ("alfven", v / alfven),
                ("fast", v / fast),
            ):
                θs[key] = ref_point(soln.angles, mach) if (
                    mach > 1
                ).any() else None

        def number_or_none(have, want):
            if want is None:
                return have == ["None"]
            return len(have) == 1 and abs(float(have[0]) - want) <= (
                1e-9 * abs(want)
            )
        if group == "crosses-points":
            order = [k for k in ("fast", "alfven", "sonic", "slow")
                     if θs[k] is not None] + ["none"]
            require(items == [[label(kind), [order[0]]]],
                    lambda: "{}: {} {}".format(what, text, θs))
        elif group == "sonic-on-scale":
            want = θs["sonic"]
            if want is not None:
                want = want / soln.solution_input.c_s_on_v_k
            require(
                len(items) == 1 and items[0][0] == label(kind) and
                number_or_none(items[0][1], want),
                lambda: "{}: {} {}".format(what, text, want)
            )
        elif group == "sonic-points":
            require([i[0] for i in items] == [
                "slow sonic point", "sonic point", "alfven sonic point",
                "fast sonic point",
            ], lambda: "{}: {}".format(what, text))
            for (_, have), want in zip(items, θs.values()):
                require(number_or_none(have, want), lambda: "{}: {} {}".format(
                    what, text, θs
                ))
        elif group == "status":
            flags = {
                "internal data": soln.internal_data,
                "derivatives": soln.derivatives, "t_roots": soln.t_roots,
                "y_roots": soln.y_roots,
            }
            require(
                len(items) == 6 and items[0][0] == "ODE return flag" and
                items[0][1] in (["0"], ["StatusEnum.SUCCESS"]) and
                items[1:] == [
                    ["Coordinate System", soln.coordinate_system.split()]
                ] + [
                    ["Has " + key, [str(val is not None)]]
                    for key, val in flags.items()
                ], lambda: "{}: {}".format(what, text)
            )
        elif group == "input":
            want = [["input settings", []]]
            want += [
                [key, str(getattr(soln.solution_input, key)).split()]
                for key in INPUT_FIELDS
            ]
            require(items == want, lambda: "{}: {} {}".format(
                what, text, [w for w in want if w not in items]
            ))
        elif group == "initial-conditions":
            require(items[0] == ["initial conditions", []], text)
            ic = soln.initial_conditions
            have = {key: " ".join(val) for key, val in items[1:]}
            require(len(have) == len(items) - 1, "repeated: " + text)
            for key in ("norm_kepler_sq", "a_0", "γ", "init_con", "angles",
                        "η_O", "η_A", "η_H"):
                val = getattr(ic, key)
                got = np.array([
                    float(x) for x in have[key].strip("[]").split()
                ])
                require(
                    np.allclose(got, np.atleast_1d(val), rtol=1e-6, atol=0),
                    lambda: "{}: {} is {}".format(what, key, have[key])
                )
        else:
            config = config_input(
                label=label(kind), stop=str(5 + number), γ="0.00%d" % number
            )
            method = ("single", "jump", "step", "mod_hydro", "mcmc", "dae",
                  "single", "single")[number % 8]
            want = [
                ["run properties", []],
                ["filename", (kind + ".hdf5").split()],
                ["label", label(kind).split()],
                ["config filename", ["cfg%d.conf" % number]],
                ["sonic method", [method]],
                ["DiscSolver version", ["v%d" % number]],
                ["using E_r", [str(bool(number % 2))]],
                ["number of solutions", [str(len(FILES[kind][0]))]],
                ["config", []],
            ] + [
                [key, str(val).split()] for key, val in
                attr.asdict(config, recurse=False).items()
            ]
            require(items == want, lambda: "{}: {} {}".format(
                what, text, [w for w in want if w not in items]
            ))

    def on_tocsv(self, path, kind, header, out):
        """ds-tocsv"""
        name = kind + ".hdf5"
        base = self.output(out) + (["--with-header"] if header else [])
        if kind in BAD:
            try:
                call(csv_main, base + [name, "0"])
            except Exception:  # pylint: disable=broad-except
                text = self.written(out, "") if out == "old" else ""
                require(text == "", "something written")
                return {"outcome": "refused"}
            require(False, "no error")
        selections = self.selections(kind)
        text = ""
        for selection in selections:
            text += call(csv_main, base + [name, selection])
        text = self.written(out, text)
        lines = list(csv.reader(io.StringIO(text), dialect="unix"))
        want = []
        for skind, number in selections.values():
            if header:
                want.append(None)
            want.append(content(skind, number).solution_input)
        require(len(lines) == len(want), lambda: "{} lines, not {}".format(
            len(lines), len(want)
        ))
        for i, (line, inp) in enumerate(zip(lines, want)):
            if inp is None:
                require(tuple(line) == INPUT_FIELDS, "wrong header")
                continue
            require(len(line) == len(INPUT_FIELDS), "wrong number of fields")
            check_input(zip(INPUT_FIELDS, line), inp, "line {}".format(i))
        # the batch command can read it
        Path("out").write_text(
            "\n".join(text.splitlines()[:2 if header else 1]) + "\n"
        )
        first = next(iter(get_csv_inputs("out", label="x")))
        first = {k: v for k, v in first.items() if k not in (
            "label", "filename", "solution_name"
        )}
        check_input(first, [w for w in want if w is not None][0], "read back")
        return {"outcome": [header, len(lines)], "traces": len(lines)}

    def on_tocfg(self, path, kind, out):
        """ds-tocfg"""
        name = kind + ".hdf5"
        if kind in BAD:
            try:
                call(cfg_main, self.output(out) + [name, "0"])
            except Exception:  # pylint: disable=broad-except
                if out == "old":
                    require(Path("out").read_text() == "before\n", "written")
                return {"outcome": "refused"}
            require(False, "no error")
        selections = self.selections(kind)
        for selection, (skind, number) in selections.items():
            text = call(cfg_main, self.output(out) + [name, selection])
            text = self.written(out, text, append=False)
            Path("out").write_text(text)
            config = get_input_from_conffile(config_file=Path("out"))
            inp = content(skind, number).solution_input
            require(config.label == label(kind), lambda: "label {!r}".format(
                config.label
            ))
            check_input(
                [(k, getattr(config, k)) for k in INPUT_FIELDS], inp,
                "configuration of " + selection
            )
            Path("out").unlink()
        return {"outcome": len(selections), "traces": len(selections)}


if __name__ == "__main__":
    check = C22()
    try:
        main(check)
    finally:
        if check.base is not None:
            shutil.rmtree(check.base, ignore_errors=True)
