# -*- coding: utf-8 -*-
"""
C07: histories of operations on the solutions of a run, against a plain list
"""
import functools
import gc
import itertools
import os

import numpy as np
from h5preserve import open as h5open

from mc.core import Check, main, require, scratch
from mc.util import make_run, make_solution, difference

from disc_solver.file_format import registries

UNSET = "unset"
# collecting garbage has no effect on a history, but takes most of the time
gc.collect = lambda *args: 0
OPS = (
    "add", "read_first", "read_last_key", "read_missing", "values", "last",
    "free", "final_first", "final_last", "final_none", "final_new",
    "finalise",
)
SHORT = ("add", "last", "final_first", "final_last", "final_none", "finalise")


def content(i):
    """Solution number i, which differs from all the others"""
    return make_solution(i, n=2, initial_conditions=None)


expected = functools.lru_cache(None)(content)


class System:
    """The real run and the reference model side by side"""
    def __init__(self, size, path=None):
        self.run = make_run()
        self.model = []
        self.final = UNSET
        self.path = path
        self.file = None
        self.states = set()
        self.transitions = 0
        if path is not None:
            self.file = h5open(path, registries, mode="x")
            self.file["run"] = self.run
        for _ in range(size):
            self.apply("add")

    def close(self):
        """Close the file"""
        if self.file is not None:
            self.file.close()
            self.file = None

    def reopen(self):
        """Close and open for reading"""
        self.close()
        self.file = h5open(self.path, registries, mode="r")
        self.run = self.file["run"]

    def expect(self, soln, tag, what, full=False):
        """soln is the solution with that tag"""
        want = expected(tag)
        if not full:
            diff = None if (
                soln is not None and
                np.array_equal(soln.solution, want.solution) and
                np.array_equal(soln.angles, want.angles)
            ) else "of solution {}".format(tag)
        else:
            diff = difference(want, soln)
        require(diff is None, lambda: "{}: wrong content {}".format(
            what, diff
        ))

    def set_final(self, tag, soln):
        """Try to set the final solution"""
        try:
            self.run.final_solution = soln
            done = True
        except RuntimeError:
            done = False
        require(
            done == (self.final is UNSET),
            "setting the final solution was {} when it was {}".format(
                "accepted" if done else "refused", self.final
            )
        )
        if done:
            self.final = tag

    def apply(self, op):
        """Apply an operation to both"""
        self.transitions += 1
        sols = self.run.solutions
        model = self.model
        if op == "add":
            index = sols.add_solution(content(len(model)))
            require(
                index == str(len(model)),
                "added solution {} as {}".format(len(model), index)
            )
            model.append(len(model))
        elif op == "read_first":
            if model:
                self.expect(sols["0"], 0, "reading 0")
        elif op == "read_last_key":
            if model:
                key = str(len(model) - 1)
                self.expect(sols[key], model[-1], "reading " + key)
        elif op == "read_missing":
            for key in (str(len(model)), "-1", "nope"):
                try:
                    found = sols[key]
                except KeyError:
                    found = None
                require(found is None, "found a solution under " + key)
        elif op == "values":
            for (key, val), tag in zip(list(sols.items()), model):
                self.expect(val, int(key), "iterating " + key)
        elif op == "last":
            try:
                val = sols.get_last_solution()
            except (IndexError, KeyError, ValueError):
                require(not model, "no last solution of {}".format(model))
            else:
                require(bool(model), "last solution of none")
                self.expect(val, model[-1], "last")
        elif op == "free":
            if model:
                sols.free("0")
        elif op == "final_first":
            if model:
                self.set_final(0, sols["0"])
        elif op == "final_last":
            if model:
                self.set_final(model[-1], sols.get_last_solution())
        elif op == "final_none":
            self.set_final(None, None)
        elif op == "final_new":
            self.set_final(77, content(77))
        elif op == "finalise":
            if model or self.final is not UNSET:
                self.run.finalise()
                if self.final is UNSET:
                    self.final = model[-1]
        else:
            raise AssertionError(op)
        self.invariant()

    def invariant(self):
        """Holds in every state"""
        sols = self.run.solutions
        keys = list(sols)
        want = [str(i) for i in range(len(self.model))]
        require(
            sorted(keys, key=int) == want and len(sols) == len(want),
            "solutions are {}, not {}".format(keys, want)
        )
        for key in want[-1:] + want[:1]:
            require(key in sols, key + " not in solutions")
        if self.final is not UNSET:
            if self.final is None:
                require(
                    self.run.final_solution is None,
                    "final solution is not none"
                )
            else:
                self.expect(
                    self.run.final_solution, self.final, "final solution"
                )
        self.states.add((len(self.model), self.final))

    def audit(self):
        """Everything is as recorded"""
        self.invariant()
        for tag in self.model:
            self.expect(
                self.run.solutions[str(tag)], tag, "reading {}".format(tag),
                full=self.path is not None,
            )


class C07(Check):
    id = "C07"
    level = "model_checking"
    rule = (
        "A case is a start size, caching on or off, and a sequence of "
        "operations (on the real containers, in memory or on a file, "
        "followed by closing, reopening for reading and reading everything, "
        "twice); all sequences up to the depth are run. After every "
        "operation the containers are compared with a plain list."
    )
    assumptions = (
        "files are appended to only while they are open for the run being "
        "solved; reopened files are only read",
        "solutions are distinguished by their numbers; two states each",
    )
    chunk = 16

    def cases(self, tier):
        deep = tier == "thorough"
        for cache in (True, False):
            for size, depth in (
                (0, 5 if deep else 3), (1, 4 if deep else 3),
                (9, 4 if deep else 3), (10, 4 if deep else 2),
                (99, 3 if deep else 1),
            ):
                for seq in itertools.product(OPS, repeat=depth):
                    yield [False, cache, size, list(seq)]
            for seq in itertools.product(SHORT, repeat=4):
                yield [False, cache, 0, list(seq)]
            for size, depth in (
                (0, 4 if deep else 2), (2, 3 if deep else 2),
                (10, 2 if deep else 1),
            ):
                for seq in itertools.product(OPS, repeat=depth):
                    yield [True, cache, size, list(seq)]
            for seq in itertools.product(
                ("add", "last", "values", "final_first", "finalise"),
                repeat=4 if deep else 3,
            ):
                yield [True, cache, 1, list(seq)]

        # collections of which some numbers are missing
        for n in range(5):
            for keys in itertools.combinations(("0", "1", "2", "3", "10"), n):
                yield ["gaps", list(keys)]

    @staticmethod
    def gaps(keys):
        """Nothing is displaced by additions"""
        run = make_run()
        want = {}
        for i, key in enumerate(keys):
            run.solutions[key] = make_solution(
                i, n=1, initial_conditions=None
            )
            want[key] = i
        for i in range(10, 14):
            try:
                key = run.solutions.add_solution(
                    make_solution(i, n=1, initial_conditions=None)
                )
            except RuntimeError:
                pass
            else:
                require(key not in want, "{} was there".format(key))
                want[key] = i
            have = list(run.solutions)
            require(sorted(have) == sorted(want), "numbers {}".format(have))
            for key, tag in want.items():
                diff = difference(
                    run.solutions[key],
                    make_solution(tag, n=1, initial_conditions=None)
                )
                require(diff is None, "{} is another one".format(key))
        return {"outcome": "gaps", "transitions": 4, "traces": 1}

    def evaluate(self, case):
        if case[0] == "gaps":
            return self.gaps(case[1])
        on_file, cache, size, seq = case
        os.environ.pop("NO_CACHE", None)
        if not cache:
            os.environ["NO_CACHE"] = "1"
        with scratch() as path:
            system = System(size, path / "x.hdf5" if on_file else None)
            try:
                for op in seq:
                    system.apply(op)
                system.audit()
                if on_file:
                    # whatever was on file, was written when it was added
                    for _ in range(2):
                        system.reopen()
                        system.audit()
                        if system.model:
                            system.apply("last")
                            system.apply("values")
            finally:
                system.close()
                os.environ.pop("NO_CACHE", None)
        return {
            "seen": [(on_file, cache, *s) for s in system.states],
            "transitions": system.transitions, "traces": 1,
            "outcome": (on_file, size, len(system.model), system.final),
            "nontrivial": any(op != "free" for op in seq),
        }


if __name__ == "__main__":
    main(C07())
