# -*- coding: utf-8 -*-
"""
C24: output targets, worker pools and log handlers for all kinds of targets,
points of failure, options and levels of messages, and all depths of the queue
of messages when a command ends
"""
import builtins
import contextlib
import csv
import gc
import io
import itertools
import logging
import multiprocessing
import os
import re
import sys
import threading
import time
import warnings
from pathlib import Path

import h5py
import logbook
import numpy as np
from h5preserve import open as h5open

from mc.core import Check, main, require, scratch, in_dir, patched
from mc.runs import (
    captured_stdout, ControlledPool, methods, allow_workers, write_config,
)
from mc.util import make_run, make_solution, solution_input, internal_data

import disc_solver.utils as ds_utils
from disc_solver.file_format import registries
from disc_solver.logging import log_handler, logging_options
from disc_solver.utils import open_or_stream, nicer_mp_pool
from disc_solver.analyse.utils import (
    analyse_main_wrapper, analyse_main_wrapper_multisolution,
    analyse_multisolution_wrapper,
)
from disc_solver.analyse.dump_csv import dump_csv
from disc_solver.analyse.dump_config import dump_cfg
from disc_solver.analyse.info import info
from disc_solver.analyse.plot import plot
from disc_solver.analyse.params_plot import params_plot
from disc_solver.analyse.combine_plot import combine_plot
from disc_solver.analyse.compare_plot import compare_plot
from disc_solver.analyse.stats import (
    write_stats, write_inputs, many_file_wrapper, get_all_solutions,
)
from disc_solver.solve import main as solve_main
from disc_solver.solve.resolve import main as resolve_main
from disc_solver.solve.csvrunner import csvrunner

OPEN = builtins.open
OSFAIL = OSError(28, "No space left on device")
LEVELS = ("debug", "info", "notice", "warning", "error", "critical")
ENV = "DISC_SOLVER_DISABLE_THREADING"
ERRORS = {
    "ValueError": ValueError, "KeyboardInterrupt": KeyboardInterrupt,
    "OSError": OSError, "SystemExit": SystemExit,
    "StopIteration": StopIteration, "GeneratorExit": GeneratorExit,
}


class Opened:
    """Record of the files the code opens"""
    def __init__(self, folder):
        self.folder = str(folder)
        self.files = []

    def __call__(self, file, *args, **kwargs):
        res = OPEN(file, *args, **kwargs)
        if isinstance(file, (str, os.PathLike)) and os.path.abspath(
            os.fspath(file)
        ).startswith(self.folder):
            self.files.append(res)
        return res

    @contextlib.contextmanager
    def installed(self):
        """Use this"""
        builtins.open = io.open = self
        try:
            yield self
        finally:
            builtins.open = io.open = OPEN

    def all_closed(self):
        """Whether all of them are closed"""
        return all(f.closed for f in self.files)


class FailingStream(io.StringIO):
    """Fails from the given write on"""
    def __init__(self, fail_at=None):
        super().__init__()
        self.fail_at = fail_at
        self.writes = 0

    def write(self, text):
        self.writes += 1
        if self.fail_at is not None and self.writes > self.fail_at:
            raise OSFAIL
        return super().write(text)


class Log:
    """Where messages go to"""
    def __init__(self, err, path):
        self.err = err
        self.path = path

    def found(self):
        """The numbered messages of standard error and the file"""
        text = Path(self.path).read_text(encoding="utf8") if (
            os.path.exists(self.path)
        ) else ""
        return [
            [int(n) for n in re.findall(r"msg<(\d+)>", t)]
            for t in (self.err.getvalue(), text)
        ]


def option_sets():
    """All combinations of options, with the levels they ask for"""
    err = [({}, "notice"), ({"quiet": True}, "error"),
           ({"verbose": True}, "debug")]
    err += [({"stderr_level": l}, l) for l in LEVELS]
    files = [({}, None), ({"log_file": "a.log"}, "debug")]
    files += [
        ({"log_file": "a.log", "log_file_level": l}, l) for l in LEVELS
    ]
    for (o1, l1), (o2, l2) in itertools.product(err, files):
        yield dict(o1, **o2), l1, l2


def argv(options):
    """On the command line"""
    res = []
    for key, val in options.items():
        res.append("--" + key.replace("_", "-"))
        if val is not True:
            res.append(val)
    return res


def at_least(level, among):
    """Indices of the messages which have at least that level"""
    if level is None:
        return []
    limit = LEVELS.index(level)
    return [i for i, l in enumerate(among) if LEVELS.index(l) >= limit]


def make_file(path, n=2):
    """A file with solutions"""
    run = make_run()
    for i in range(n):
        soln = make_solution(i, n=8, internal_data=internal_data(i))
        run.solutions.add_solution(soln)
    run.final_solution = soln
    with h5open(path, registries, mode="w") as f:
        f["run"] = run


class C24(Check):
    id = "C24"
    level = "fault_enumeration"
    rule = (
        "A case is a target and a point at which writing to it fails, the "
        "work given to a pool of workers and where it fails, or a set of "
        "logging options with messages of all levels and the number of "
        "messages still waiting to be written when the logging ends."
    )
    assumptions = (
        "the process itself is not killed",
        "a disk which is full is stood in for by streams whose writes fail",
    )
    chunk = 4

    def cases(self, tier):
        deep = tier == "thorough"
        for kind, mode, exists in itertools.product(
            ("dash", "string", "bytes", "file", "custom", "path", "name"),
            ("w", "a", "x", "r"), (False, True)
        ):
            if kind not in ("path", "name", "file") and (
                exists or mode != "w"
            ):
                continue
            if kind == "file" and ((mode == "x") == exists or (
                mode == "r" and not exists
            )):
                continue
            for error in (None,) + tuple(ERRORS):
                for point in range(4) if error else (3,):
                    yield ["target", kind, mode, exists, error, point]
        for command in ("stats", "inputs", "csv", "csv header", "cfg",
                        "runner"):
            yield ["command", command, "stream"]
            yield ["command", command, "file"]
        for stage, error in itertools.product(
            ("none", "before", "middle", "after"), (None,) + tuple(ERRORS)
        ):
            if (stage == "none") != (error is None):
                continue
            for how, n, fail in itertools.product(
                ("imap", "imap_unordered", "map_async", "apply_async"),
                range(4 if deep else 3), (None, 0, 1)
            ):
                if fail is not None and fail >= n:
                    continue
                yield ["pool", stage, error, how, n, fail]
        for how, workers, stage in itertools.product(
            ("imap", "apply_async"), (1, 3), ("none", "middle")
        ):
            yield ["real pool", how, workers, stage]
        yield ["no pool"]
        for number in range(len(list(option_sets()))):
            for threads in ((True, None), (True, "true"), (True, "false"),
                            (False, None), (True, "1"), (True, "no")):
                yield ["levels", number, threads]
        depth = 6 if deep else 4
        for number in range(depth + 1):
            for served in itertools.combinations(range(depth), number):
                for n in (1, 2):
                    yield ["queue", depth, served, n]
        yield ["queue", 200, [], 1]
        yield ["options"]
        for wrapper in ("single", "pairs", "all", "many", "solve",
                        "resolve"):
            for number in range(0, len(list(option_sets())), 1 if deep else 5):
                for error in (None, "ValueError"):
                    yield ["main", wrapper, number, error]
        for command in ("info", "plot", "params", "combine", "compare", "csv", "cfg",
                        "stats", "info bad", "pairs"):
            for fail in (False, True):
                yield ["read", command, fail]

    def evaluate(self, case):
        return getattr(self, "case_" + case[0].replace(" ", "_"))(*case[1:])

    def case_target(self, kind, mode, exists, error, point):
        """Use a target, with an error at the point of writing"""
        with scratch() as folder, captured_stdout() as stdout:
            path = folder / "out"
            if exists:
                path.write_text("before\n", encoding="utf8")
            mine = None
            target = {
                "dash": "-", "path": path, "name": str(path),
                "string": io.StringIO(), "bytes": io.BytesIO(),
                "custom": FailingStream(), "file": None,
            }[kind]
            if kind == "file":
                target = mine = OPEN(path, mode, encoding="utf8")
            raised = ERRORS[error]("of the body") if error else None
            files = Opened(folder)
            own = kind in ("path", "name")
            fails = own and (
                (mode == "x" and exists) or (mode == "r" and not exists)
            )
            write = not (mode == "r" and kind in ("path", "name", "file"))
            seen, caught, read = None, None, []
            try:
                with files.installed():
                    with open_or_stream(target, mode=mode) as out:
                        seen = out
                        for i in range(3):
                            if i == point and raised:
                                raise raised
                            text = "line {}\n".format(i)
                            if kind == "bytes":
                                out.write(text.encode("utf8"))
                            elif write:
                                out.write(text)
                            else:
                                read.append(out.readline())
                        if point == 3 and raised:
                            raise raised
            except BaseException as e:  # pylint: disable=broad-except
                caught = e
            if fails:
                require(isinstance(caught, OSError) and caught is not raised,
                        "no error for a file which cannot be opened")
                require(seen is None, "used a file which was not opened")
                if exists:
                    require(path.read_text(encoding="utf8") == "before\n",
                            "changed the file it refused")
                return {"outcome": "refused"}
            if error == "StopIteration" and isinstance(caught, RuntimeError):
                caught = caught.__cause__ or caught.__context__
            require(caught is raised, lambda: "the error became {!r}".format(
                caught
            ))
            expected = "".join("line {}\n".format(i) for i in range(point))
            if kind == "dash":
                require(not stdout.closed, "closed standard output")
                stdout.write("more")
                require(stdout.getvalue() == expected + "more",
                        "standard output has {!r}".format(stdout.getvalue()))
            elif own:
                require(seen.closed and files.all_closed(),
                        "the file was left open")
                require(len(files.files) <= 1, "opened more than once")
            else:
                require(seen is target, "not the stream passed in")
                require(not target.closed, "closed the stream passed in")
                require(not files.files, "opened a file")
                if kind == "bytes":
                    require(target.getvalue() == expected.encode("utf8"),
                            "stream content")
                elif kind != "file":
                    require(target.getvalue() == expected, "stream content")
            if mine is not None:
                mine.close()
            if own or kind == "file":
                have = path.read_text(encoding="utf8")
                if not write:
                    require(have == "before\n", "reading changed the file")
                    require(read[:1] in ([], ["before\n"]), "not read")
                else:
                    start = "before\n" if mode == "a" and exists else ""
                    require(have == start + expected,
                            "the file has {!r}".format(have))
        return {"outcome": (kind, mode, error)}

    def writer(self, command, folder):
        """Function of the target which runs a command on good input"""
        path = folder / "in.h5"
        make_file(path)
        solns = list(
            (str(path), str(i), make_solution(i, n=8)) for i in range(3)
        )
        if command == "stats":
            return lambda out, items=None: write_stats(
                solns if items is None else items(solns), output_file=out
            )
        if command == "inputs":
            return lambda out, items=None: write_inputs(
                solns if items is None else items(solns), output_file=out
            )
        if command.startswith("csv"):
            return lambda out, items=None: dump_csv(
                path, soln_range="1", output_file=out,
                with_header=command.endswith("header"),
            )
        if command == "cfg":
            return lambda out, items=None: dump_cfg(
                path, soln_range="0", output_file=out
            )
        table = folder / "in.csv"
        with OPEN(table, "w", encoding="utf8") as f:
            write = csv.writer(f)
            inp = solution_input().asdict()
            write.writerow(inp)
            for _ in range(3):
                write.writerow(inp.values())

        def solver(soln_input, run, store_internal, **kwargs):
            soln = make_solution(0, n=8, inp=soln_input)
            run.solutions.add_solution(soln)
            run.final_solution = soln
            return True

        def run(out, items=None):
            log = []
            failing = []
            if items is not None:
                failing = [1]

            def solve(*args, **kwargs):
                if failing:
                    failing[0] += 1
                    if failing[0] == 3:
                        raise OSFAIL
                return solver(*args, **kwargs)
            with methods(lambda name: solve), ControlledPool(
                [], log
            ).installed():
                try:
                    csvrunner(
                        output_file=out, input_file=table, nworkers=2,
                        store_internal=False, sonic_method="step",
                        overrides=None,
                    )
                finally:
                    require(not log or log[-2:] == ["close", "join"] or (
                        "terminate" not in log and "join" in log
                    ), "the pool was left: {}".format(log))
        return run

    def case_command(self, command, target):
        """Fail at each write of a command"""
        with scratch() as folder, in_dir(folder):
            run = self.writer(command, folder)
            path = folder / "out"
            if target == "file":
                files = Opened(path)
                with files.installed():
                    run(path)
                require(files.all_closed(), "left open")
                require(path.stat().st_size > 0, "nothing written")
                first = path.read_text(encoding="utf8")
                stream = io.StringIO()
                run(stream)
                require(not stream.closed, "closed the stream")
                require(stream.getvalue() == first,
                        "a stream gets another text than a file")
                with captured_stdout() as stdout:
                    run("-")
                require(not stdout.closed, "closed standard output")
                require(first in stdout.getvalue() or all(
                    l in stdout.getvalue() for l in first.splitlines()
                ), "standard output gets another text than a file")
                if command in ("stats", "inputs", "runner"):
                    def broken(solns):
                        for i, soln in enumerate(solns):
                            if i == 1:
                                raise OSFAIL
                            yield soln
                    for _ in range(2):
                        files = Opened(path)
                        before = path.read_text(encoding="utf8")
                        try:
                            with files.installed():
                                run(path, broken)
                        except OSError as e:
                            require(e is OSFAIL or e.args == OSFAIL.args,
                                    "another error")
                        else:
                            require(False, "the error was swallowed")
                        require(files.all_closed(), "left open by the error")
                        now = path.read_text(encoding="utf8")
                        require(now.startswith(before), "lost rows")
                return {"outcome": "files"}
            good = io.StringIO()
            run(good)
            point = 0
            while True:
                out = FailingStream(point)
                try:
                    run(out)
                except OSError as e:
                    require(e is OSFAIL, "another error: {!r}".format(e))
                    failed = True
                else:
                    failed = False
                require(not out.closed, "closed the stream")
                require(out.writes <= point or failed,
                        "the failure of writing was swallowed")
                require(good.getvalue().startswith(out.getvalue()),
                        "wrote something else before failing")
                if not failed:
                    require(out.getvalue() == good.getvalue(), "not all")
                    return {"outcome": point, "transitions": point}
                point += 1
                require(point < 1000, "too many writes")

    def case_pool(self, stage, error, how, n, fail):
        """Use a pool which is left in different ways"""
        raised = ERRORS[error]("of the body") if error else None
        log = []
        pool = ControlledPool([], log)
        done, caught = [], None
        task = Task(fail)
        made = []

        def body(p):
            made.append(p)
            if stage == "before":
                raise raised
            if how.startswith("imap"):
                for res in getattr(p, how)(task, range(n)):
                    done.append(res)
                    if stage == "middle":
                        raise raised
            elif how == "map_async":
                later = p.map_async(task, range(n))
                if stage == "middle":
                    raise raised
                done.extend(later.get())
            else:
                later = [p.apply_async(task, (i,)) for i in range(n)]
                if stage == "middle":
                    raise raised
                done.extend(l.get() for l in later)
            if stage == "after":
                raise raised
        try:
            with pool.installed(), nicer_mp_pool(5) as p:
                body(p)
        except BaseException as e:  # pylint: disable=broad-except
            caught = e
        if error == "StopIteration" and isinstance(caught, RuntimeError):
            caught = caught.__cause__ or caught.__context__
        require(log and log[0] == ("workers", 5), "not the number of workers")
        require("close" in log and "join" in log, "the pool was not shut down")
        require("terminate" not in log, "the work was cut short")
        require(log.index("close") < len(log) - 1, "close after join")
        if isinstance(caught, TaskError):
            require(fail is not None, "a failure from nowhere")
            require(caught.args == (fail,), "another failure")
        else:
            started = stage != "middle" or n > 0 or not how.startswith("imap")
            wanted = raised if started else None
            require(caught is wanted,
                    lambda: "the error became {!r}".format(caught))
            if stage in ("none", "after"):
                require(fail is None, "the failure of a task is lost")
                require(done == [10 * i for i in range(n)], "results")
        return {"outcome": (stage, error)}

    def case_no_pool(self):
        """The workers cannot be started"""
        def failing(*args, **kwargs):
            raise OSFAIL
        orig = multiprocessing.Pool
        multiprocessing.Pool = failing
        used = []
        try:
            with patched((orig, failing)), patched(
                (ds_utils.__dict__.get("Pool", orig), failing)
            ):
                with nicer_mp_pool(2) as pool:
                    used.append(pool)
        except OSError as e:
            require(e is OSFAIL, "another error")
        else:
            require(False, "no error")
        finally:
            multiprocessing.Pool = orig
        require(not used, "used something else")

    def case_real_pool(self, how, workers, stage):
        """Real workers do all the work given to them"""
        allow_workers()
        raised = KeyError("of the body")
        with scratch() as folder:
            tasks = [(str(folder), i) for i in range(5)]
            caught, done = None, []
            before = set(multiprocessing.active_children())
            try:
                with nicer_mp_pool(workers) as pool:
                    if how == "imap":
                        later = pool.imap(slow_task, tasks)
                        for res in later:
                            done.append(res)
                            if stage == "middle":
                                raise raised
                    else:
                        later = [
                            pool.apply_async(slow_task, (t,)) for t in tasks
                        ]
                        if stage == "middle":
                            raise raised
                        done = [l.get() for l in later]
            except KeyError as e:
                caught = e
            require(caught is (raised if stage == "middle" else None),
                    "the error became {!r}".format(caught))
            require(not set(multiprocessing.active_children()) - before,
                    "workers are left")
            have = sorted(p.name for p in folder.iterdir())
            require(have == [str(i) for i in range(5)],
                    "not all of the work was done: {}".format(have))
            if stage == "none":
                require(done == [0, 1, 4, 9, 16], "results")
            try:
                pool.apply_async(slow_task, (tasks[0],))
            except ValueError:
                pass
            else:
                require(False, "the pool still takes work")

    def case_levels(self, number, threads):
        """All levels of messages with some options"""
        options, err_level, file_level = list(option_sets())[number]
        wrapping, env = threads
        old = os.environ.pop(ENV, None)
        if env is not None:
            os.environ[ENV] = env
        try:
            with scratch() as folder, in_dir(folder), logged(folder) as log:
                among = LEVELS + LEVELS[::-1] + ("exception",)
                kinds = LEVELS + LEVELS[::-1] + ("error",)
                logger = logbook.Logger("check")
                outer = logbook.TestHandler(bubble=True)
                with outer.applicationbound():
                    with log_handler(
                        dict(options), thread_wrapping=wrapping
                    ):
                        for i, level in enumerate(among):
                            try:
                                raise KeyError("inner")
                            except KeyError:
                                getattr(logger, level)("msg<{}>", i)
                        if not wrapping or env in ("true", "1"):
                            # written at once
                            self.compare(log, kinds, err_level, file_level)
                    logger.critical("msg<99>")
                self.compare(log, kinds, err_level, file_level)
                for text in (log.err.getvalue(),):
                    require("msg<99>" not in text, "still shown afterwards")
                require(outer.records[-1].message == "msg<99>",
                        "still caught afterwards")
                require(not any(
                    "msg<0>" in r.message for r in outer.records
                ), "messages reach what was set up before")
        finally:
            os.environ.pop(ENV, None)
            if old is not None:
                os.environ[ENV] = old
        return {"outcome": (err_level, file_level), "transitions": len(among)}

    @staticmethod
    def compare(log, kinds, err_level, file_level):
        """Compare what was logged where"""
        err, file = log.found()
        for name, have, level in (
            ("standard error", err, err_level), ("the file", file, file_level)
        ):
            want = at_least(level, kinds)
            require(have == want, lambda: (
                "{} got messages {} instead of {}".format(
                    name, [(i, kinds[i]) for i in have if i < len(kinds)],
                    [(i, kinds[i]) for i in want]
                )
            ))

    def case_queue(self, depth, served, n):
        """Messages wait to be written until given points"""
        served = set(served)
        old = os.environ.pop(ENV, None)
        try:
            with scratch() as folder, in_dir(folder), logged(folder) as log:
                logger = logbook.Logger("check")
                gate = Gate()
                with gate.installed():
                    for round_ in range(n):
                        with log_handler(
                            {"verbose": True, "log_file": "a.log"}
                        ):
                            for i in range(depth):
                                logger.info("msg<{}>", round_ * depth + i)
                                if i in served:
                                    gate.serve()
                            gate.open_soon()
                        total = list(range((round_ + 1) * depth))
                        err, file = log.found()
                        require(err == total, lambda: (
                            "standard error has {} of {} messages".format(
                                len(err), len(total))))
                        require(file == total, lambda: (
                            "the file has {} of {} messages".format(
                                len(file), len(total))))
                        gate.close()
        finally:
            if old is not None:
                os.environ[ENV] = old
        return {"outcome": depth - len(served), "transitions": n * depth,
                "seen": [(depth, len(served))]}

    def case_options(self):
        """The options parsed are those of log_handler"""
        import argparse
        for options, _, _ in option_sets():
            parser = argparse.ArgumentParser(
                argument_default=argparse.SUPPRESS
            )
            logging_options(parser)
            args = vars(parser.parse_args(argv(options)))
            for key, val in options.items():
                require(args[key] == val, "option {}".format(key))
        for both in itertools.permutations(
            (["--quiet"], ["--verbose"], ["--stderr-level", "info"]), 2
        ):
            parser = argparse.ArgumentParser()
            logging_options(parser)
            try:
                parser.parse_args(both[0] + both[1])
            except SystemExit:
                continue
            require(False, "took both {} and {}".format(*both))

    def case_main(self, wrapper, number, error):
        """Messages, warnings and other logging of a command"""
        options, err_level, file_level = list(option_sets())[number]
        old = os.environ.pop(ENV, None)
        raised = ERRORS[error]("of the body") if error else None

        def work(*args, **kwargs):
            logger = logbook.Logger("check")
            for i, level in enumerate(LEVELS):
                getattr(logger, level)("msg<{}>", i)
            warnings.warn("msg<6>")
            logging.getLogger("other").info("msg<7>")
            logging.getLogger("other").error("msg<8>")
            if raised:
                raise raised
            return 7
        kinds = LEVELS + ("warning", "info", "error")
        try:
            with scratch() as folder, in_dir(folder), logged(folder) as log:
                make_file("in.h5")
                opts = argv(options)
                filters = list(warnings.filters)
                show = warnings.showwarning
                root = list(logging.root.handlers)
                level = logging.root.level
                with warnings.catch_warnings(), logbook.TestHandler(
                    bubble=True
                ).applicationbound() as outer:
                    warnings.simplefilter("always")
                    caught, res = None, None
                    try:
                        res = self.command(wrapper, work, opts)
                    except ValueError as e:
                        caught = e
                    finally:
                        logbook.Logger("check").critical("msg<99>")
                    require(outer.records
                            and outer.records[-1].message == "msg<99>",
                            "what is logged afterwards is still caught")
                    require("msg<99>" not in log.err.getvalue(),
                            "what is logged afterwards is still shown")
                    require(not any(
                        "msg<0>" in r.message for r in outer.records
                    ), "messages reach what was set up before")
                require(caught is raised, "the error became {!r}".format(
                    caught
                ))
                if not error:
                    want = {"solve": 0, "resolve": 0}.get(wrapper, 7)
                    require(res == want, "returned {!r}".format(res))
                require(warnings.showwarning is show, "warnings redirected")
                require(list(warnings.filters) == filters, "filters")
                require(logging.root.handlers == root
                        and logging.root.level == level, "logging redirected")
                self.compare(log, kinds, err_level, file_level)
        finally:
            if old is not None:
                os.environ[ENV] = old
        return {"outcome": (wrapper, error)}

    @staticmethod
    def command(wrapper, work, opts):
        """Run work as a command"""
        def parser_func(parser):
            return parser
        if wrapper == "single":
            main_ = analyse_main_wrapper("x", parser_func)(work)
            return main_(opts + ["in.h5", "0"])
        if wrapper == "pairs":
            main_ = analyse_main_wrapper_multisolution(
                "x", parser_func
            )(work)
            return main_(opts + ["-r", "in.h5", "0"])
        if wrapper == "all":
            main_ = analyse_multisolution_wrapper(
                "x", parser_func, cmd_parser_splitters={}
            )(work)
            return main_(opts + ["in.h5"])
        if wrapper == "many":
            main_ = many_file_wrapper(description="x")(work)
            return main_(opts + ["in.h5"])

        def solver(soln_input, run, store_internal, **kwargs):
            soln = make_solution(0, n=8, inp=soln_input)
            run.solutions.add_solution(soln)
            run.final_solution = soln
            return work()
        with methods(lambda name: solver):
            if wrapper == "solve":
                write_config(
                    "in.conf", start=0, stop=5, taylor_stop_angle=0.001,
                    max_steps=100, num_angles=8, label="x", γ=0.001,
                    v_rin_on_c_s=1, v_a_on_c_s=1, c_s_on_v_k=0.03,
                    η_O=0.001, η_H=0.0001, η_A=0.0005,
                    relative_tolerance=1e-6, absolute_tolerance=1e-10,
                    nwalkers=8, iterations=3, threads=1,
                    target_velocity=0.9,
                )
                return solve_main(
                    opts + ["--output-file", "out.h5", "in.conf"]
                )
            return resolve_main(
                opts + ["--output-file", "out.h5", "in.h5", "0"]
            )

    def case_read(self, command, fail):
        """The files read are closed again"""
        with scratch() as folder, in_dir(folder):
            make_file("in.h5")
            before = Path("in.h5").read_bytes()
            start = open_files()
            caught = None
            try:
                self.reader(command, fail)
            except Exception as e:  # pylint: disable=broad-except
                caught = type(e)
            gc.collect()
            require(not fail or caught or command == "stats",
                    "the failure was swallowed")
            require(fail or not caught, "failed with {}".format(caught))
            require(open_files() <= start, "solution files are left open")
            require(Path("in.h5").read_bytes() == before,
                    "the file was modified")
            with h5open("in.h5", registries, mode="r+"):
                pass
        return {"outcome": (command, caught and caught.__name__)}

    @staticmethod
    def reader(command, fail):
        """Read a file"""
        name = "7" if fail else "1"
        out = FailingStream()
        if command == "info":
            info("in.h5", group="input", soln_range=name, output_file=out)
        elif command == "info bad":
            info("in.h5", group="status", soln_range=None,
                 output_file=FailingStream(0 if fail else None))
        elif command == "plot":
            plot("in.h5", soln_range=name, plot_filename="x.png")
        elif command == "params":
            params_plot("in.h5", soln_range=name, plot_filename="x.png")
        elif command == "combine":
            combine_plot("in.h5", soln_range=name, plot_filename="x.png")
        elif command == "compare":
            compare_plot([("in.h5", "0"), (
                "none.h5" if fail else "in.h5", "1"
            )], plot_filename="x.png")
        elif command == "csv":
            dump_csv("in.h5", soln_range=name, output_file=out,
                     with_header=True)
        elif command == "cfg":
            dump_cfg("in.h5", soln_range=name, output_file=out)
        elif command == "stats":
            solns = get_all_solutions(["in.h5"])
            if fail:
                next(solns)
                solns.close()
            else:
                require(len(list(solns)) >= 2, "solutions are missing")
        elif command == "pairs":
            main_ = analyse_multisolution_wrapper(
                "x", lambda p: p, cmd_parser_splitters={}
            )(
                lambda solutions, filename: 1 / (not fail)
            )
            main_(["in.h5"])


class TaskError(Exception):
    """A task failed"""


class Task:
    """A task of a pool"""
    def __init__(self, fail):
        self.fail = fail

    def __call__(self, i):
        if i == self.fail:
            raise TaskError(i)
        return 10 * i


def slow_task(arg):
    """Leave a file behind"""
    folder, i = arg
    time.sleep(0.02)
    (Path(folder) / str(i)).write_text("x", encoding="utf8")
    return i**2


def open_files():
    """How many HDF5 files are open"""
    return h5py.h5f.get_obj_count(h5py.h5f.OBJ_ALL, h5py.h5f.OBJ_FILE)


@contextlib.contextmanager
def logged(folder):
    """Collect what is logged"""
    err = io.StringIO()
    with contextlib.redirect_stderr(err):
        yield Log(err, folder / "a.log")


class Gate:
    """Lets the messages through to where they are written"""
    def __init__(self):
        self.cond = threading.Condition()
        self.free = False
        self.waiting = 0
        self.tickets = 0
        self.main = threading.current_thread()

    def wait(self):
        """Wait for being served"""
        if threading.current_thread() is self.main:
            return
        with self.cond:
            self.waiting += 1
            self.cond.notify_all()
            self.cond.wait_for(lambda: self.free or self.tickets > 0, 20)
            self.waiting -= 1
            self.tickets -= 1

    def serve(self):
        """Let a message through for each destination which has one"""
        with self.cond:
            # nothing waits if messages are written directly
            self.cond.wait_for(lambda: self.waiting == 2, 0.2)
            self.tickets += self.waiting
            self.cond.notify_all()
            self.cond.wait_for(lambda: self.tickets <= 0, 0.2)
            self.tickets = 0

    def open_soon(self):
        """Let everything through, a little later"""
        def later():
            time.sleep(0.02)
            with self.cond:
                self.free = True
                self.cond.notify_all()
        threading.Thread(target=later, daemon=True).start()

    def close(self):
        """Hold messages again"""
        with self.cond:
            self.free = False

    @contextlib.contextmanager
    def installed(self):
        """Use this"""
        orig = logbook.StreamHandler.emit

        def emit(handler, record):
            self.wait()
            return orig(handler, record)
        logbook.StreamHandler.emit = emit
        try:
            yield
        finally:
            logbook.StreamHandler.emit = orig


if __name__ == "__main__":
    main(C24())
