# -*- coding: utf-8 -*-
"""
C14: accepting and classifying solutions, over all short velocity profiles
"""
import itertools

import numpy as np

from mc.core import Check, main, require
from mc.standin import profile
from mc.util import (
    make_solution, difference, snapshot, InternalData, Problems, StatusEnum,
    ODEIndex, NVARS,
)

from disc_solver.solve.stepper import (
    is_solution_best, v_θ_deriv_splitter, create_soln_splitter,
    SplitterStatus,
)
from disc_solver.solve.utils import validate_solution

# all the thresholds, the neighbourhood of the sonic point with different
# accelerations, values near the thresholds
VALUES = (
    -0.25, 0.0, 0.5, 0.9, 0.90625, 0.9375, 0.96875, 1.0, 1.25,
)
MORE = (
    -1e-300, -0.0, 0.0, 5e-324, np.nextafter(0.9, 0), 0.9,
    np.nextafter(0.9, 1), 0.95, np.nextafter(1.0, 0), 1.0,
    np.nextafter(1.0, 2), 2.0,
)
# what is reported at one angle
REPORTS = tuple(
    m for n in range(3) for m in itertools.product(
        ("negative density", "negative velocity", "other"), repeat=n
    )
)


def ref_valid(flag, v, ρ):
    """The statement"""
    return (
        flag == StatusEnum.SUCCESS and all(x >= 0 for x in v) and
        all(b >= a for a, b in zip(v, v[1:])) and all(x >= 0 for x in ρ)
    )


def ref_best(flag, v, ρ):
    """The statement"""
    if not ref_valid(flag, v, ρ):
        return False
    near = [x for x in v if 0.9 < x < 1]
    if not near:
        return False
    return not any(
        (c - b) - (b - a) > 0 for a, b, c in zip(near, near[1:], near[2:])
    )


def ref_split(v, negative=False, cutoff=0.9):
    """The statement"""
    if negative:
        return SplitterStatus.SIGN_FLIP
    near = [x for x in v if cutoff < x < 1]
    if not near:
        return SplitterStatus.SIGN_FLIP
    if any(x > 1 for x in v):
        return SplitterStatus.DIVERGE
    if all(b >= a for a, b in zip(near, near[1:])):
        return SplitterStatus.DIVERGE
    return SplitterStatus.SIGN_FLIP


def outcome(soln):
    """What the code says"""
    same, valid = validate_solution(soln)
    require(same is soln, "other solution returned")
    same, best = is_solution_best(soln)
    require(same is soln, "other solution returned")
    return bool(valid), bool(best), v_θ_deriv_splitter(soln)


class C14(Check):
    id = "C14"
    level = "exploration"
    rule = (
        "A case is a set of velocity profiles (all those over the grid with "
        "a given beginning), a flag and densities, or a kept internal data; "
        "validity, acceptance and classification by the real functions are "
        "compared with the statement for each, and the solution with a copy."
    )
    assumptions = (
        "velocities and densities are numbers",
        "coming near means having a point between 0.9 and the sonic point",
    )

    def cases(self, tier):
        deep = tier == "thorough"
        for n in range(1, 4):
            for v in itertools.product(range(len(VALUES)), repeat=n):
                yield ["v", list(v), 0]
        for v in itertools.product(range(len(VALUES)), repeat=2):
            yield ["v", list(v), 2]
            yield ["v", list(v), 3]
        if deep:
            for v in itertools.product(range(len(VALUES)), repeat=3):
                yield ["v", list(v), 3]
        for n in range(1, 4):
            for v in itertools.product(range(len(MORE)), repeat=n):
                yield ["more", list(v)]
        for flag in StatusEnum:
            for v in (
                (0, 0.5, 0.91, 0.95), (0, 0.5, 0.25), (0, 0.5), (0, 0.91, 2),
            ):
                yield ["flag", flag.name, list(v)]
        for ρ in itertools.product(
            (1.0, 0.0, -0.0, 5e-324, -5e-324, -1.0), repeat=4
        ):
            yield ["ρ", list(ρ)]
        for v in itertools.product(range(len(VALUES)), repeat=3):
            for problems in range(6):
                yield ["problems", list(v), problems]
        for first in REPORTS:
            yield ["reports", list(first)]
        for rows in range(0, 9):
            for pattern in range(5):
                for v in itertools.product((0.5, 0.91, 0.95, 1.5), repeat=2):
                    for problems in (0, 1):
                        yield ["internal", rows, pattern, list(v), problems]
        for v in itertools.product(range(len(VALUES)), repeat=3):
            for cutoff in (0.0, 0.5, 0.9375, 0.99):
                yield ["cutoff", list(v), cutoff]

    def evaluate(self, case):
        return getattr(self, "on_" + {
            "v": "v", "more": "more", "flag": "flag", "ρ": "density",
            "problems": "problems", "internal": "internal",
            "reports": "reports",
            "cutoff": "cutoff",
        }[case[0]])(*case[1:])

    @staticmethod
    def compare(soln, flag, v, ρ):
        """Against the statement"""
        before = snapshot(soln)
        got = outcome(soln)
        want = (
            ref_valid(flag, v, ρ), ref_best(flag, v, ρ), ref_split(v)
        )
        require(got == want, lambda: "{} {}: {} is not {}".format(
            flag, list(v), got, want
        ))
        require(
            create_soln_splitter("v_θ_deriv")(soln) == want[2],
            "classified differently by the search"
        )
        diff = difference(before, soln)
        require(diff is None, lambda: "solution was modified " + diff)
        return got

    def on_v(self, begin, more):
        """All profiles beginning with these"""
        seen = set()
        for rest in itertools.product(VALUES, repeat=more):
            v = [VALUES[i] for i in begin] + list(rest)
            soln = make_solution(
                solution=profile(v), angles=np.arange(len(v)) / 8.0,
                initial_conditions=None,
            )
            seen.add(self.compare(soln, StatusEnum.SUCCESS, v, [1]))
        return {"outcome": sorted(map(str, seen))}

    def on_more(self, begin):
        """Values next to the thresholds"""
        v = [MORE[i] for i in begin]
        soln = make_solution(
            solution=profile(v), angles=np.arange(len(v)) / 8.0,
        )
        return {"outcome": self.compare(soln, StatusEnum.SUCCESS, v, [1])}

    def on_flag(self, name, v):
        """Flags of the solver"""
        flag = StatusEnum[name]
        soln = make_solution(
            solution=profile(v), angles=np.arange(len(v)) / 8.0, flag=flag,
        )
        return {"outcome": self.compare(soln, flag, v, [1])}

    def on_density(self, ρ):
        """Densities"""
        v = [0, 0.5, 0.91, 0.95]
        soln = make_solution(
            solution=profile(v, ρ), angles=np.arange(len(v)) / 8.0,
        )
        return {"outcome": self.compare(soln, StatusEnum.SUCCESS, v, ρ)}

    def on_problems(self, begin, number):
        """Problems which were reported"""
        v = [VALUES[i] for i in begin]
        problems = Problems()
        negative = False
        if number & 1:
            problems[0.25].append("negative density")
        if number // 2 == 1:
            problems[0.5].append("negative velocity")
            negative = True
        if number // 2 == 2:
            problems[0.25].append("something else")
            problems[0.75].append("other")
            problems[0.75].append("negative velocity")
            negative = True
        data = InternalData(problems=problems)
        data.derivs = np.zeros((12, NVARS))
        soln = make_solution(
            solution=profile(v), angles=np.arange(len(v)) / 8.0,
            internal_data=data,
        )
        before = snapshot(soln)
        got = v_θ_deriv_splitter(soln)
        want = ref_split(v, negative)
        require(got == want, lambda: "{} {}: {}, not {}".format(
            v, problems, got, want
        ))
        diff = difference(before, soln)
        require(diff is None, lambda: "solution was modified " + diff)
        return {"outcome": got}

    @staticmethod
    def on_reports(first):
        """Everything which can be reported at up to three angles"""
        count = 0
        for rest in itertools.product(REPORTS, repeat=2):
            reports = [tuple(first)] + list(rest)
            for angles in ((0.25, 0.5, 0.75), (0.75, 0.25, 0.5)):
                problems = Problems()
                for angle, messages in zip(angles, reports):
                    for message in messages:
                        problems[angle].append(message)
                data = InternalData(problems=problems)
                data.derivs = np.zeros((12, NVARS))
                negative = any("negative velocity" in m for m in reports)
                for v in ((0, 0.5, 0.95), (0, 0.91, 2)):
                    soln = make_solution(
                        solution=profile(v), angles=np.arange(len(v)) / 8.0,
                        internal_data=data,
                    )
                    got = v_θ_deriv_splitter(soln)
                    want = ref_split(v, negative)
                    require(got == want, lambda: "{} {}: {}, not {}".format(
                        v, problems, got, want
                    ))
                    count += 1
        return {"outcome": "reports", "transitions": count}

    def on_internal(self, rows, pattern, v, problem):
        """Other contents of the internal data do not matter"""
        derivs = np.zeros((rows, NVARS))
        index = np.arange(NVARS)
        row = [
            0.0 * index, index * 1.0, index**2.0, -1.0 * index,
            -1.0 * index**2
        ][pattern]
        # the derivative of v_θ is the same at all points
        derivs[:] = row - row[ODEIndex.v_θ]
        data = InternalData(problems=Problems())
        data.derivs = derivs
        if problem:
            data.problems[0.5].append("negative velocity")
        soln = make_solution(
            solution=profile(v), angles=np.arange(len(v)) / 8.0,
            internal_data=data,
        )
        want = ref_split(v, bool(problem))
        # what taking the sixth evaluation for the velocity gives
        wrong = want
        if not problem:
            if rows <= ODEIndex.v_θ:
                wrong = IndexError
            elif np.any(np.diff(derivs[ODEIndex.v_θ], 2) > 0):
                wrong = SplitterStatus.DIVERGE
            elif np.any(np.diff(derivs[ODEIndex.v_θ]) < 0):
                wrong = SplitterStatus.SIGN_FLIP
        try:
            got = v_θ_deriv_splitter(soln)
        except IndexError:
            got = IndexError
        if got == want:
            return {"outcome": got}
        require(got == wrong, lambda: "{} {}: {}, not {}".format(
            case_text(rows, pattern), v, got, want
        ))
        return {"outcome": ("row", got), "known": ["splitter-derivs-row"]}

    def on_cutoff(self, begin, cutoff):
        """Another cutoff"""
        v = [VALUES[i] for i in begin]
        soln = make_solution(
            solution=profile(v), angles=np.arange(len(v)) / 8.0,
        )
        got = v_θ_deriv_splitter(soln, cutoff=cutoff)
        want = ref_split(v, cutoff=cutoff)
        require(got == want, lambda: "{} {}: {}, not {}".format(
            v, cutoff, got, want
        ))
        return {"outcome": got}


def case_text(rows, pattern):
    """Description of internal data"""
    return "{} derivatives, pattern {}".format(rows, pattern)


if __name__ == "__main__":
    main(C14())
