# -*- coding: utf-8 -*-
"""
C15: wave speeds and critical points, over states and over velocity profiles
"""
import decimal
import itertools
import math

import numpy as np

from mc.core import Check, main, require
from mc.util import make_solution, difference, snapshot, ODEIndex, NVARS

from disc_solver.critical_points import (
    mhd_wave_speeds, get_mach_numbers, get_critical_point_indices,
    get_all_sonic_points,
)
from disc_solver.utils import (
    first_closest_index, interp_for_value, MHD_Wave_Index,
)

NAN = float("nan")
FIELD = (-3.0, -0.5, 0.0, 1.0, 2.5)
DENSITY = (1e-6, 0.01, 0.25, 1.0, 40.0)
SOUND = (1, 0.5, 2.0)


def ref_speeds(B_r, B_φ, B_θ, ρ, c):
    """Squares of slow, Alfvén and fast speed, to 60 digits"""
    with decimal.localcontext() as ctx:
        ctx.prec = 60
        D = decimal.Decimal
        π = D("3.14159265358979323846264338327950288419716939937510582097494")
        a = (D(B_r)**2 + D(B_φ)**2 + D(B_θ)**2) / (4 * π * D(ρ))
        b = D(B_θ)**2 / (4 * π * D(ρ))
        c = D(c)**2
        root = max((a + c)**2 - 4 * b * c, D(0)).sqrt()
        return (a + c - root) / 2, b, (a + c + root) / 2


def eigen_speeds(B_r, B_φ, B_θ, ρ, c):
    """Speeds of the waves of the linear equations of ideal MHD along θ"""
    # density, velocity along θ, r, φ, field along r, φ
    k = 1 / (4 * np.pi * ρ)
    A = np.zeros((6, 6))
    A[0, 1] = ρ
    A[1, 0] = c**2 / ρ
    A[1, 4] = k * B_r
    A[1, 5] = k * B_φ
    A[2, 4] = -k * B_θ
    A[3, 5] = -k * B_θ
    A[4, 1] = B_r
    A[4, 2] = -B_θ
    A[5, 1] = B_φ
    A[5, 3] = -B_θ
    return np.sort(np.abs(np.linalg.eigvals(A)))[::2]


def ref_crossing(m, val=1.0):
    """Index of the first value at or beyond the crossing and the one before"""
    before = None
    first = None
    for i, x in enumerate(m):
        if math.isnan(x):
            continue
        if first is None:
            first = x
            if x == val:
                return i, None
        elif (x >= val) if first < val else (x <= val):
            return i, before
        before = i
    return None, None


def ref_point(xs, m, val=1.0):
    """Where the first crossing is"""
    i, before = ref_crossing(m, val)
    if i is None:
        return None
    if m[i] == val or before is None:
        return xs[i]
    return xs[before] + (xs[i] - xs[before]) * (
        (val - m[before]) / (m[i] - m[before])
    )


def close(a, b):
    """Whether two results are the same up to rounding"""
    if a is None or b is None:
        return a is None and b is None
    return abs(float(a) - float(b)) <= 1e-12 * (1 + abs(float(b)))


class C15(Check):
    id = "C15"
    level = "exploration"
    rule = (
        "A case is a grid of states (wave speeds against the exact roots and "
        "against the eigenvalues of the linear equations), or all profiles "
        "of velocity or values over a grid with undefined values and a given "
        "beginning (critical points against a reference search)."
    )
    assumptions = (
        "densities are positive and the field is not zero",
        "the first value which is defined is on the side the flow starts on",
    )

    def cases(self, tier):
        deep = tier == "thorough"
        for B_r, B_φ, B_θ in itertools.product(FIELD, repeat=3):
            if B_r or B_φ or B_θ:
                for ρ in DENSITY:
                    yield ["state", B_r, B_φ, B_θ, ρ]
        vals = (-2.0, 0.0, 0.25, 0.5, 1.0, 1.5, NAN)
        for n in range(1, 4):
            for v in itertools.product(range(len(vals)), repeat=n):
                yield ["values", [vals[i] for i in v], 0]
        for v in itertools.product(range(len(vals)), repeat=2):
            for more in (2, 3) + ((4,) if deep else ()):
                yield ["values", [vals[i] for i in v], more]
        grid = (0.0, 0.25, 0.75, 1.0, 1.5, 4.0, NAN)
        for n in range(1, 4):
            for v in itertools.product(range(len(grid)), repeat=n):
                for kind in range(4):
                    yield ["profile", [grid[i] for i in v], 0, kind]
        for v in itertools.product(range(len(grid)), repeat=2):
            for kind in range(4):
                yield ["profile", [grid[i] for i in v], 2, kind]
                if deep:
                    yield ["profile", [grid[i] for i in v], 3, kind]

    def evaluate(self, case):
        return {
            "state": self.state, "values": self.values,
            "profile": self.profiles,
        }[case[0]](*case[1:])

    @staticmethod
    def state(B_r, B_φ, B_θ, ρ):
        """Wave speeds of a state"""
        values = np.arange(NVARS) + 0.5
        values[ODEIndex.B_r] = B_r
        values[ODEIndex.B_φ] = B_φ
        values[ODEIndex.B_θ] = B_θ
        values[ODEIndex.ρ] = ρ
        other = np.arange(NVARS) + 1.5
        many = np.array([other, values, other])
        before = values.copy()
        for c in SOUND:
            slow, alfven, fast = map(
                float, ref_speeds(B_r, B_φ, B_θ, ρ, c)
            )
            eigen = eigen_speeds(B_r, B_φ, B_θ, ρ, c)**2
            require(
                np.allclose(
                    eigen, (slow, alfven, fast), rtol=1e-5,
                    atol=1e-6 * fast
                ), "reference is wrong"
            )
            for got in (
                mhd_wave_speeds(values=values, sound_speed=c),
                [x[1] for x in mhd_wave_speeds(values=many, sound_speed=c)],
                [x[2, 1] for x in mhd_wave_speeds(
                    values=np.array([many, many, many]), sound_speed=c
                )],
            ):
                for x, y in (
                    (got[MHD_Wave_Index.slow], slow),
                    (got[MHD_Wave_Index.alfven], alfven),
                    (got[MHD_Wave_Index.fast], fast),
                ):
                    require(
                        abs(x - y) <= 1e-13 * fast, "{} is not {}".format(x, y)
                    )
                ε = 1e-13 * fast
                require(
                    got[0] <= min(c**2, got[1]) + ε and
                    got[2] >= max(c**2, got[1]) - ε, "wrong order"
                )
        require(np.array_equal(before, values), "values were modified")
        # Mach numbers are with respect to a sound speed of 1
        slow, alfven, fast = map(float, ref_speeds(B_r, B_φ, B_θ, ρ, 1))
        for v in (0.0, 0.5, 1.0, 3.0):
            many[:, ODEIndex.v_θ] = v
            got = get_mach_numbers(make_solution(
                n=3, solution=many.copy(), angles=np.arange(3) / 8.0
            ))
            require(len(got) == 4, "four Mach numbers")
            for x, y in zip(got, (slow, 1, alfven, fast)):
                require(np.shape(x) == (3,), "a Mach number for each point")
                if y > 1e-10 * fast:
                    require(
                        abs(x[1]**2 * y - v**2) <= v**2 * (
                            1e-13 * fast / y + 1e-13
                        ), "Mach number {} is wrong".format(x[1])
                    )
        return {"outcome": (slow < 1, alfven < 1, fast < 1.1)}

    @staticmethod
    def values(begin, more):
        """The first crossing in values"""
        vals = (-2.0, 0.0, 0.25, 0.5, 1.0, 1.5, NAN)
        seen = set()
        for rest in itertools.product(vals, repeat=more):
            ys = np.array(list(begin) + list(rest))
            xs = np.cumsum(np.arange(1.0, len(ys) + 1))
            for val in (0.25, 0.3, 1.0, 2.0):
                i, _ = ref_crossing(ys, val)
                keep = ys.copy()
                got = first_closest_index(ys, val)
                require(
                    (got is None) == (i is None) and
                    (i is None or got == i),
                    lambda: "{} in {}: index {}, not {}".format(
                        val, keep, got, i
                    )
                )
                point = ref_point(xs, ys, val)
                at = interp_for_value(xs=xs, ys=ys, y=val)
                require(
                    close(at, point), lambda: "{} in {}: {}, not {}".format(
                        val, keep, at, point
                    )
                )
                require(
                    np.array_equal(keep, ys, equal_nan=True), "modified"
                )
                seen.add(i)
        return {"outcome": sorted(map(str, seen))}

    @staticmethod
    def profiles(begin, more, kind):
        """The critical points of a solution"""
        grid = (0.0, 0.25, 0.75, 1.0, 1.5, 4.0, NAN)
        seen = set()
        for rest in itertools.product(grid, repeat=more):
            v = np.array(list(begin) + list(rest))
            n = len(v)
            values = np.ones((n, NVARS))
            values[:, ODEIndex.v_θ] = v
            # speeds below, about and above the velocities, and which vary
            values[:, ODEIndex.ρ] = (
                0.25 / np.pi, 16 / (4 * np.pi), 1e-2, 0.25 / np.pi
            )[kind]
            values[:, ODEIndex.B_r] = (0.0, 0.5, 3.0, 0.5)[kind]
            values[:, ODEIndex.B_φ] = 0
            if kind == 3:
                values[:, ODEIndex.ρ] *= 2.0**(-np.arange(n) * 2)
                values[:, ODEIndex.B_φ] = np.arange(n)
            angles = np.cumsum(np.arange(1.0, n + 1)) / 64
            soln = make_solution(n=n, solution=values, angles=angles)
            before = snapshot(soln)
            machs = get_mach_numbers(soln)
            # up to rounding, which matters for those next to one
            ref = np.empty((4, n))
            for j in range(n):
                sq = ref_speeds(
                    values[j, ODEIndex.B_r], values[j, ODEIndex.B_φ],
                    values[j, ODEIndex.B_θ], values[j, ODEIndex.ρ], 1
                )
                for i, s in enumerate((sq[0], 1, sq[1], sq[2])):
                    ref[i, j] = abs(v[j]) / math.sqrt(s)
            require(
                np.allclose(ref, machs, rtol=1e-9, equal_nan=True),
                "Mach numbers are wrong"
            )
            indices = get_critical_point_indices(soln)
            points = get_all_sonic_points(soln)
            require(
                len(indices) == 4 and len(points) == 4, "four critical points"
            )
            for m, index, point in zip(machs, indices, points):
                i, _ = ref_crossing(m)
                require(
                    (index is None) == (i is None) and
                    (i is None or index == i),
                    lambda: "{}: index {}, not {}".format(m, index, i)
                )
                want = ref_point(angles, m) if any(m > 1) else None
                require(
                    close(point, want), lambda: "{}: {}, not {}".format(
                        m, point, want
                    )
                )
                seen.add((i, want is None))
            diff = difference(before, soln)
            require(diff is None, lambda: "solution was modified " + diff)
        return {"outcome": sorted(map(str, seen))}


if __name__ == "__main__":
    main(C15())
