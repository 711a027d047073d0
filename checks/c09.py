# -*- coding: utf-8 -*-
"""
C09: existing files and failures at every point of a run
"""
import itertools
import os
from pathlib import Path

import h5py
import numpy as np
from h5preserve import open as h5open

from mc.core import Check, Violation, main, require, scratch, in_dir
from mc.runs import (
    methods, ControlledPool, clock, captured_stdout, digest, write_config,
)
from mc.util import (
    make_run, make_solution, solution_input, difference, internal_data,
)

from disc_solver import __version__
from disc_solver.file_format import registries
from disc_solver.solve import solve, main as solve_main
from disc_solver.solve.hdf5runner import hdf5runner
from disc_solver.solve.resolve import resolve, main as resolve_main
from disc_solver.solve.utils import SolverError

NOW = "2020-01-02T03:04:05.678901+11:00"
ERRORS = {
    "SolverError": SolverError, "ValueError": ValueError,
    "KeyboardInterrupt": KeyboardInterrupt, "OSError": OSError,
    "MemoryError": MemoryError, "SystemExit": SystemExit,
    "FloatingPointError": FloatingPointError,
}
COMMANDS = ("solve", "resolve", "hdf5", "solve-main", "resolve-main")
METHOD = "step"


class Fault(Exception):
    """Writing fails"""


def content(tag):
    """Solution with that tag"""
    return make_solution(
        tag, n=2 + tag % 2, inp=solution_input(γ=np.float64(tag + 0.5)),
        internal_data=internal_data(tag, 2) if tag % 2 else None,
        t_roots=np.array([0.1 * tag]) if tag else None,
    )


class History:
    """A method which goes through a history"""
    def __init__(self, ops):
        self.ops = ops
        self.run = None
        self.called = 0
        self.started = False
        # what was done without an error, which way it ended
        self.added = []
        self.final = "unset"
        self.ended = None

    def __call__(self, inp, run, *, store_internal=True, **kwargs):
        self.run = run
        self.called += 1
        for op in self.ops:
            if op == "add":
                tag = len(self.added)
                run.solutions.add_solution(content(tag))
                self.added.append(tag)
            elif op == "final":
                run.final_solution = run.solutions.get_last_solution()
                self.final = self.added[-1]
            elif op == "final0":
                run.final_solution = run.solutions["0"]
                self.final = 0
            elif op == "nofinal":
                run.final_solution = None
                self.final = None
            elif op in ("good", "bad"):
                self.ended = op
                return op == "good"
            else:
                self.ended = op
                raise ERRORS[op]("scripted failure")
        raise AssertionError("history does not end")


class Faults:
    """Makes an operation on a HDF5 file fail"""
    def __init__(self, point):
        self.point = point
        self.count = 0
        self.depth = 0
        self.undo = []

    def wrap(self, cls, name):
        """Wrap a method"""
        orig = getattr(cls, name)

        def wrapped(*args, **kwargs):
            if not self.depth:
                self.count += 1
                if self.count == self.point:
                    raise Fault("writing failed")
            self.depth += 1
            try:
                return orig(*args, **kwargs)
            finally:
                self.depth -= 1
        self.undo.append((cls, name, cls.__dict__[name]))
        setattr(cls, name, wrapped)

    def __enter__(self):
        for name in ("create_dataset", "create_group", "__setitem__"):
            self.wrap(h5py.Group, name)
        self.wrap(h5py.AttributeManager, "__setitem__")
        return self

    def __exit__(self, *args):
        for cls, name, orig in reversed(self.undo):
            setattr(cls, name, orig)


class C09(Check):
    id = "C09"
    level = "fault_enumeration"
    rule = (
        "A case is a command, an output name and either an existing file of "
        "some kind, or a history of what the method does (adding solutions, "
        "choosing a final one) with the point and kind of its failure, or "
        "the number of the low level write on which writing fails (all of "
        "them, counted first). The files are compared before and after, and "
        "what is read back with what was done."
    )
    assumptions = (
        "failures are exceptions; a process which is killed, or a machine "
        "which stops, is not covered, as HDF5 has no journal",
        "with a failing write, only what was added before is checked",
    )
    chunk = 8

    def cases(self, tier):
        deep = tier == "thorough"
        for command in COMMANDS:
            for kind in ("hdf5", "text", "empty", "folder", "run", "link"):
                for name in ("given", "auto", "absolute"):
                    if name == "auto" or command != "hdf5":
                        yield ["exists", command, kind, name]
        ends = ["good", "bad"] + list(ERRORS)
        for command in COMMANDS:
            for n in range(4 if deep else 3):
                middle = [["add"] * n]
                if n:
                    for i in range(1, n + 1):
                        for what in ("final", "final0", "nofinal"):
                            ops = ["add"] * n
                            ops.insert(i, what)
                            middle.append(ops)
                else:
                    middle.append(["nofinal"])
                for ops in middle:
                    for end in ends:
                        if end in ("good", "bad") and not n and not (
                            ops
                        ):
                            # no method ends like this
                            continue
                        for name in ("given", "auto"):
                            if command == "hdf5" and name == "given":
                                continue
                            yield ["history", command, name, ops + [end]]
        for command in ("solve", "resolve", "hdf5"):
            for ops in (
                ["add", "add", "final", "good"], ["add", "add", "good"],
                ["add", "final0", "add", "add", "bad"],
            )[0 if deep or command == "solve" else 1:][:3 if deep else 1]:
                yield ["count", command, ops]
        yield ["unknown", "solve"]
        yield ["unknown", "resolve"]
        for n in range(3):
            for command in ("solve", "resolve"):
                yield ["input", command, n]

    def evaluate(self, case):
        with scratch() as path, in_dir(path), clock(NOW):
            self.prepare()
            return getattr(self, case[0])(*case[1:])

    def prepare(self):
        """Make the inputs"""
        write_config("in.conf", label="lbl", num_angles=77, γ="0.0123")
        with h5open("old.hdf5", registries, mode="x") as f:
            run = make_run()
            f["run"] = run
            for tag in range(2):
                run.solutions.add_solution(content(tag))
            run.final_solution = run.solutions["1"]
        Path("in.csv").write_text(
            "start,stop,taylor_stop_angle,max_steps,num_angles,"
            "relative_tolerance,absolute_tolerance,γ,nwalkers,iterations,"
            "threads,target_velocity,split_method,v_rin_on_c_s,v_a_on_c_s,"
            "c_s_on_v_k,η_O,η_H,η_A\n"
            "0,5,0.001,1000,77,1e-6,1e-10,0.0123,8,3,1,0.9,v_θ_deriv,1,1,"
            "0.03,0.1,0.2,0.3\n", "utf8"
        )

    def start(self, command, method, name, faults=None, sonic=METHOD):
        """Start a command: (result, exception)"""
        self.inputs = {f: digest(f) for f in os.listdir(".")
                       if f in ("in.conf", "old.hdf5", "in.csv")}
        out = {
            "given": "out.hdf5", "auto": None,
            "absolute": os.path.abspath("out.hdf5"),
        }.get(name, name)
        with methods(lambda _: method), captured_stdout() as text:
            try:
                with faults or Nothing():
                    res = self.call(command, out, sonic)
            except BaseException as e:  # pylint: disable=broad-except
                return None, e, text.getvalue()
        return res, None, text.getvalue()

    def call(self, command, out, sonic):
        """Call a command"""
        common = dict(
            output_file=out, sonic_method=sonic, output_dir=Path("."),
            store_internal=True,
        )
        if command == "solve":
            return solve(config_file=Path("in.conf"), **common)
        if command == "resolve":
            return resolve(
                soln_filename=Path("old.hdf5"), soln_range="1", **common
            )
        options = ["--sonic-method", sonic, "--quiet"]
        if out is not None:
            options += ["--output-file", out]
        if command == "solve-main":
            return solve_main(options + ["in.conf"])
        if command == "resolve-main":
            return resolve_main(options + ["old.hdf5", "1"])
        with ControlledPool([0]).installed():
            return hdf5runner(
                input_file=Path("in.csv"), overrides={},
                nworkers=1, label="lbl", **common
            )

    def untouched(self):
        """The inputs were not touched"""
        for name, before in self.inputs.items():
            require(digest(name) == before, name + " was changed")

    def target(self, command, name):
        """The file written"""
        found = [f for f in os.listdir(".") if f not in (
            "in.conf", "in.csv", "old.hdf5"
        )]
        require(len(found) == 1, "files written: {}".format(found))
        if name == "auto":
            require(found[0].startswith("lbl"), "name {}".format(found))
        else:
            require(found == ["out.hdf5"], "name {}".format(found))
        return found[0]

    def exists(self, command, kind, name):
        """The output file exists"""
        if name == "auto":
            # find out which name it is
            with scratch() as other, in_dir(other):
                self.prepare()
                self.start(command, History(["add", "good"]), name)
                target = self.target(command, name)
        else:
            target = "out.hdf5"
        real = target
        if kind == "hdf5":
            with h5py.File(target, "x") as f:
                f["precious"] = np.arange(5)
        elif kind == "run":
            with h5open(target, registries, mode="x") as f:
                run = make_run()
                f["run"] = run
                run.solutions.add_solution(content(5))
        elif kind == "text":
            Path(target).write_text("precious")
        elif kind == "empty":
            Path(target).write_text("")
        elif kind == "folder":
            Path(target).mkdir()
        else:
            real = "precious"
            with h5py.File(real, "x") as f:
                f["precious"] = np.arange(5)
            os.symlink(real, target)
        before = None if kind == "folder" else digest(real)
        listing = sorted(os.listdir("."))
        method = History(["add", "good"])
        res, error, _ = self.start(command, method, name)
        require(error is not None, "wrote to an existing file: {}".format(res))
        require(
            not isinstance(error, (AssertionError, TypeError)),
            "unexpected {!r}".format(error)
        )
        require(sorted(os.listdir(".")) == listing, "files {}".format(
            os.listdir(".")
        ))
        if before is not None:
            require(digest(real) == before, "existing file was changed")
        require(
            os.path.islink(target) == (kind == "link"), "link was replaced"
        )
        self.untouched()
        return {"outcome": type(error).__name__}

    def history(self, command, name, ops):
        """A history ending in success or failure"""
        method = History(ops)
        res, error, text = self.start(command, method, name)
        require(method.called == 1, "method called {}".format(method.called))
        end = ops[-1]
        file = self.target(command, name)
        if end in ERRORS:
            if command == "hdf5" and end == "SolverError":
                require(error is None, "solver error ended the batch")
            else:
                require(
                    type(error) is ERRORS[end],
                    "{} became {!r}".format(end, error)
                )
        else:
            require(error is None, "raised {!r}".format(error))
            if command in ("solve", "resolve"):
                require(
                    Path(res[0]).resolve() == Path(file).resolve(),
                    "returned the wrong file {}".format(res)
                )
                require(res[1] is (end == "good"), "status {}".format(res[1]))
            elif "main" in command:
                require(
                    bool(res) == (end != "good"), "exit {} for {}".format(
                        res, end
                    )
                )
                require(
                    text.strip().endswith(file), "printed {!r}".format(text)
                )
        final = method.final
        if final == "unset" and end not in ERRORS:
            final = method.added[-1]
        self.audit(file, command, method, final)
        self.untouched()
        return {"outcome": (end, final, len(method.added))}

    def count(self, command, ops):
        """Counts the writes"""
        faults = Faults(-1)
        method = History(ops)
        _, error, _ = self.start(command, method, "auto", faults)
        require(error is None, "raised {!r}".format(error))
        return {
            "outcome": ("writes", faults.count > 50), "nontrivial": False,
            "points": [
                ["fault", command, ops, i]
                for i in range(1, faults.count + 1)
            ],
        }

    def fault(self, command, ops, point):
        """A write fails"""
        faults = Faults(point)
        method = History(ops)
        _, error, _ = self.start(command, method, "auto", faults)
        require(error is not None, "failing write was lost")
        file = self.target(command, "auto")
        if not method.called:
            # the run details were being written
            with h5py.File(file, "r"):
                pass
        else:
            self.torn(file, command, method)
            try:
                self.audit(file, command, method, "any")
            except Violation:
                raise
            except Exception as e:  # pylint: disable=broad-except
                raise Violation(
                    "run cannot be loaded: {!r}".format(e),
                    key="torn-run" if self.has_torn(file) else None
                ) from e
        self.untouched()
        return {"outcome": (method.called, len(method.added), method.final)}

    def has_torn(self, file):
        """Whether there is a group without its type"""
        with h5py.File(file, "r") as f:
            groups = list(f["run"].get("solutions", {}).values())
            if "final_solution" in f["run"]:
                groups.append(f["run/final_solution"])
            found = []

            def visit(_, obj):
                if isinstance(obj, h5py.Group) and not any(
                    "version" in a for a in obj.attrs
                ):
                    found.append(obj.name)
            for group in groups:
                visit(None, group)
                if isinstance(group, h5py.Group):
                    group.visititems(visit)
            return bool(found)

    def torn(self, file, command, method):
        """Everything is in the file, whether or not the run can be loaded"""
        with h5py.File(file, "r+"):
            pass
        with h5open(file, registries, mode="r") as f:
            config = f["run/config_input"]
            require(config.num_angles == (
                "50" if command == "resolve" else "77"
            ), "configuration stored")
            for tag in method.added:
                diff = difference(
                    content(tag), f["run/solutions/{}".format(tag)]
                )
                require(diff is None, lambda: "solution {}: {}".format(
                    tag, diff
                ))

    def unknown(self, command):
        """A method which does not exist"""
        method = History(["add", "good"])
        _, error, _ = self.start(command, method, "given", sonic="nope")
        require(isinstance(error, SolverError), "unknown method accepted")
        require(not method.called, "called another method")
        self.untouched()
        return {"outcome": "unknown"}

    def input(self, command, n):
        """The output file is one of the inputs"""
        name = ("old.hdf5", "in.conf", "./old.hdf5")[n]
        method = History(["add", "good"])
        _, error, _ = self.start(command, method, name)
        require(error is not None, "wrote to the input")
        self.untouched()
        return {"outcome": "input"}

    def audit(self, file, command, method, final):
        """What is in the file"""
        # nobody has it open for writing
        with h5py.File(file, "r+"):
            pass
        with h5open(file, registries, mode="r") as f:
            run = f["run"]
            require(run.sonic_method == METHOD, "method stored")
            require(run.disc_solver_version == __version__, "version stored")
            require(
                run.config_input.num_angles == ("77" if "resolve" not in (
                    command
                ) else "50"), "configuration stored {}".format(
                    run.config_input
                )
            )
            if "resolve" in command:
                require(
                    run.based_on_solution_filename.endswith("old.hdf5") and
                    run.based_on_solution_solution_name == "1",
                    "what it is based on"
                )
            for tag in method.added:
                require(str(tag) in run.solutions, "solution {} lost".format(
                    tag
                ))
                diff = difference(content(tag), run.solutions[str(tag)])
                require(diff is None, lambda: "solution {}: {}".format(
                    tag, diff
                ))
            if final == "any":
                return
            require(
                len(run.solutions) == len(method.added),
                "{} solutions".format(len(run.solutions))
            )
            if final == "unset":
                require(
                    not hasattr(run.final_solution, "solution"),
                    "final solution of a failing run"
                )
            elif final is None:
                require(run.final_solution is None, "final solution")
            else:
                diff = difference(content(final), run.final_solution)
                require(diff is None, lambda: "final solution: " + diff)


class Nothing:
    """No faults"""
    def __enter__(self):
        return self

    def __exit__(self, *args):
        pass


if __name__ == "__main__":
    main(C09())
