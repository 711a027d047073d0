# -*- coding: utf-8 -*-
"""
C16: moving solutions to constant cylindrical radius, over a grid of states
"""
import itertools
import math

import numpy as np

from mc.core import Check, main, require
from mc.util import solution_input, ODEIndex, NVARS

from disc_solver.constants import G, AU, M_SUN
from disc_solver.utils import (
    scale_solution_to_radii, get_heights, get_vertical_scaling,
    convert_solution_to_vertical, convert_spherical_to_cylindrical,
    spherical_r_θ_to_cylindrical_R_z, get_normalisation, cot, sec, cosec,
    CylindricalODEIndex, DiscSolverError,
)

# powers of the radius of the variables, as a function of γ
POWERS = {
    "B_r": lambda γ: γ - 1.25, "B_φ": lambda γ: γ - 1.25,
    "B_θ": lambda γ: γ - 1.25, "B_φ_prime": lambda γ: γ - 1.25,
    "v_r": lambda γ: -0.5, "v_φ": lambda γ: -0.5, "v_θ": lambda γ: -0.5,
    "ρ": lambda γ: 2 * γ - 1.5, "η_O": lambda γ: 0.5, "η_A": lambda γ: 0.5,
    "η_H": lambda γ: 0.5,
}
ANGLES = (0.0, 1e-9, 0.001, 0.03, 0.1, 0.5, 1.0, 1.3, 1.5)
GAMMAS = (-0.1, 0.0, 0.001, 0.25, 0.5, 0.75)
RATIOS = (0.01, 0.03, 0.1, 1.0)


def ref_scaled(state, r, γ):
    """A state at another radius"""
    out = np.full(NVARS, np.nan)
    for name, power in POWERS.items():
        i = int(ODEIndex[name])
        out[i] = state[i] * r**power(γ)
    return out


def ref_cylindrical(state, θ, γ):
    """The state at an angle in cylindrical components at radius 1"""
    s = ref_scaled(state, 1 / math.cos(θ), γ)
    out = s.copy()
    for new_R, new_z, old_r, old_θ in (
        (CylindricalODEIndex.v_r, CylindricalODEIndex.v_z,
         ODEIndex.v_r, ODEIndex.v_θ),
        (CylindricalODEIndex.B_r, CylindricalODEIndex.B_z,
         ODEIndex.B_r, ODEIndex.B_θ),
    ):
        # unit vectors: r is outward, θ is away from the midplane
        e_r = np.array([math.cos(θ), math.sin(θ)])
        e_θ = np.array([-math.sin(θ), math.cos(θ)])
        out[new_R], out[new_z] = s[old_r] * e_r + s[old_θ] * e_θ
    return out


def states(kind):
    """States to convert"""
    if kind == "unit":
        return np.eye(NVARS)
    if kind == "signs":
        base = np.array([3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37]) / 16.0
        return np.array([
            base * np.where((m >> (np.arange(NVARS) % 5)) & 1, -1, 1)
            for m in range(32)
        ])
    return np.array([
        np.zeros(NVARS), np.full(NVARS, 1e-200), np.full(NVARS, 1e150),
    ])


def same(a, b):
    """The same up to rounding, with undefined values in the same places"""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    size = np.nanmax(np.abs(b), axis=-1, keepdims=True) if b.size else 0
    bad = ~np.isclose(a, b, rtol=1e-12, atol=0, equal_nan=True) & ~(
        np.abs(a - b) <= 1e-14 * size
    )
    return not bad.any()


class C16(Check):
    id = "C16"
    level = "exploration"
    rule = (
        "A case is a set of states (each component alone, all combinations "
        "of signs, extremes), γ, a ratio of sound and Keplerian speed and a "
        "selection of angles; the conversions of each state alone and as "
        "part of arrays of every arrangement are compared with vectors "
        "rotated and scaled independently."
    )
    assumptions = (
        "solutions which keep E_r may be refused instead of converted",
        "angles are below π/2, states agree to 1e-12",
    )

    def cases(self, tier):
        deep = tier == "thorough"
        for γ, ratio, kind in itertools.product(
            GAMMAS, RATIOS, ("unit", "signs", "extreme")
        ):
            for θ in ANGLES:
                yield ["point", γ, ratio, kind, θ]
        for γ, ratio in itertools.product(GAMMAS, RATIOS):
            for n in range(1, 5 if deep else 4):
                for pick in itertools.permutations(range(6), n):
                    yield ["whole", γ, ratio, list(pick)]
        for γ in GAMMAS:
            for r in (0.01, 0.5, 1.0, 2.0, 30.0):
                yield ["radius", γ, r]
        for radius, mass, density, c, a in itertools.product(
            (0.1, 1, 5), (0.5, 1, 3), (1e-12, 1.5e-9), (0.01, 0.1),
            (0.5, 1, 2)
        ):
            yield ["norm", radius, mass, density, c, a]
        yield ["trig"]

    def evaluate(self, case):
        return getattr(self, "on_" + case[0])(*case[1:])

    @staticmethod
    def on_point(γ, ratio, kind, θ):
        """Single states"""
        r = 1 / math.cos(θ)
        require(
            same([get_heights(θ, c_s_on_v_k=ratio)], [math.tan(θ) / ratio]),
            "height is wrong"
        )
        require(
            same([get_vertical_scaling(θ, c_s_on_v_k=ratio)], [r]),
            "radius is wrong"
        )
        for state in states(kind):
            keep = state.copy()
            height, vert = convert_solution_to_vertical(
                θ, state, γ=γ, c_s_on_v_k=ratio, use_E_r=False,
            )
            require(same([height], [math.tan(θ) / ratio]), "wrong height")
            require(
                same(vert, ref_scaled(state, r, γ)),
                lambda: "{} became {}".format(keep, vert)
            )
            height, cyl = convert_spherical_to_cylindrical(
                θ, state, γ=γ, c_s_on_v_k=ratio, use_E_r=False,
            )
            require(same([height], [math.tan(θ) / ratio]), "wrong height")
            require(
                same(cyl, ref_cylindrical(state, θ, γ)),
                lambda: "{} became {}, not {}".format(
                    keep, cyl, ref_cylindrical(state, θ, γ)
                )
            )
            for a, b in ((3, 5), (0, 2)):
                with np.errstate(all="ignore"):
                    require(
                        math.isclose(
                            math.hypot(cyl[a], cyl[b]),
                            math.hypot(vert[a], vert[b]), rel_tol=1e-12
                        ), "size changed"
                    )
            require(cyl[4] == vert[4] and cyl[1] == vert[1], "azimuthal")
            if θ == 0:
                require(
                    np.array_equal(cyl, state) and
                    np.array_equal(vert, state) and height == 0,
                    "midplane changed"
                )
            require(np.array_equal(keep, state), "state was modified")
            for func in (
                convert_solution_to_vertical, convert_spherical_to_cylindrical
            ):
                try:
                    _, out = func(
                        θ, state, γ=γ, c_s_on_v_k=ratio, use_E_r=True,
                    )
                except DiscSolverError:
                    continue
                require(same(
                    out[ODEIndex.E_r], state[ODEIndex.E_r] * r**(γ - 1.75)
                ), "E_r is wrong")
        return {"outcome": (γ, kind), "states": 1}

    @staticmethod
    def on_whole(γ, ratio, pick):
        """Whole solutions"""
        angles = np.array([ANGLES[i + 1] for i in pick])
        pool = states("signs")
        soln = np.array([pool[(5 * i + 3) % len(pool)] * (i + 1) for i in pick])
        soln[0, ODEIndex.v_r] = np.nan
        keep = soln.copy(), angles.copy()
        heights, cyl = convert_spherical_to_cylindrical(
            angles, soln, γ=γ, c_s_on_v_k=ratio, use_E_r=False,
        )
        heights2, vert = convert_solution_to_vertical(
            angles, soln, γ=γ, c_s_on_v_k=ratio, use_E_r=False,
        )
        require(
            same(heights, np.tan(angles) / ratio) and
            same(heights2, heights), "wrong heights"
        )
        require(cyl.shape == vert.shape == soln.shape, "wrong shape")
        for i, θ in enumerate(angles):
            require(
                same(cyl[i], ref_cylindrical(soln[i], θ, γ)),
                lambda: "point {}: {} is not {}".format(
                    i, cyl[i], ref_cylindrical(soln[i], θ, γ)
                )
            )
            require(
                same(vert[i], ref_scaled(soln[i], 1 / math.cos(θ), γ)),
                lambda: "point {}: {}".format(i, vert[i])
            )
        require(
            np.array_equal(keep[0], soln, equal_nan=True) and
            np.array_equal(keep[1], angles), "solution was modified"
        )
        return {"outcome": (γ, len(pick))}

    @staticmethod
    def on_radius(γ, r):
        """Other radii, for one and for many"""
        for kind in ("unit", "signs", "extreme"):
            many = states(kind)
            keep = many.copy()
            radii = r * (1 + np.arange(len(many)))
            out = scale_solution_to_radii(many, radii, γ=γ, use_E_r=False)
            const = scale_solution_to_radii(many, r, γ=γ, use_E_r=False)
            for i, state in enumerate(many):
                one = scale_solution_to_radii(
                    state, radii[i], γ=γ, use_E_r=False
                )
                want = ref_scaled(state, radii[i], γ)
                require(
                    same(one, want) and same(out[i], want) and
                    same(const[i], ref_scaled(state, r, γ)),
                    lambda: "{} became {} and {}".format(state, one, out[i])
                )
                # there and back
                back = scale_solution_to_radii(
                    one, 1 / radii[i], γ=γ, use_E_r=False
                )
                require(same(back, state), "not the same coming back")
            require(np.array_equal(keep, many), "states were modified")
        return {"outcome": (γ, r)}

    @staticmethod
    def on_norm(radius, mass, density, c, a):
        """Physical units"""
        inp = solution_input(
            c_s_on_v_k=np.float64(c), v_a_on_c_s=np.float64(a)
        )
        norms = get_normalisation(
            inp, radius=radius * AU, mass=mass * M_SUN, density=density
        )
        # the speed of the Earth in cm/s
        kepler = 2.978e6 * math.sqrt(mass / radius)
        require(
            math.isclose(norms["v_norm"], c * kepler, rel_tol=1e-2),
            "sound speed is {}".format(norms["v_norm"])
        )
        require(
            math.isclose(
                norms["v_norm"]**2,
                c**2 * G * mass * M_SUN / (radius * AU), rel_tol=1e-12
            ), "sound speed"
        )
        v_a = norms["B_norm"] / math.sqrt(4 * math.pi * norms["ρ_norm"])
        require(
            math.isclose(v_a, a * norms["v_norm"], rel_tol=1e-12),
            "Alfvén speed is {}".format(v_a)
        )
        require(norms["ρ_norm"] == density, "density")
        require(
            math.isclose(
                norms["η_norm"], radius * AU * norms["v_norm"],
                rel_tol=1e-12
            ), "diffusivity"
        )
        default = get_normalisation(inp)
        first = get_normalisation(
            inp, radius=AU, mass=M_SUN, density=default["ρ_norm"]
        )
        require(default == first, "defaults")
        return {"outcome": round(norms["v_norm"])}

    @staticmethod
    def on_trig():
        """Other functions of angles, and constants"""
        for got, want, ε in (
            (AU, 1.495978707e13, 1e-6), (G, 6.6743e-8, 1e-4),
            (M_SUN, 1.98841e33, 1e-2),
        ):
            require(
                math.isclose(got, want, rel_tol=ε),
                "{} is not {}".format(got, want)
            )
        for i in range(1, 64):
            θ = i * math.pi / 64
            for got, want in (
                (cot(θ), math.cos(θ) / math.sin(θ)),
                (sec(θ), 1 / math.cos(θ)), (cosec(θ), 1 / math.sin(θ)),
            ):
                require(
                    math.isclose(got, want, rel_tol=1e-12) or i == 32,
                    "at {}: {} {}".format(θ, got, want)
                )
            R, z = spherical_r_θ_to_cylindrical_R_z(2.0, 3.0, θ)
            require(
                math.isclose(
                    R, 2 * math.cos(θ) - 3 * math.sin(θ), rel_tol=1e-12
                ) and math.isclose(
                    z, 2 * math.sin(θ) + 3 * math.cos(θ), rel_tol=1e-12
                ), "rotation"
            )
        require(
            cot(0) == math.inf and cot(math.pi) == -math.inf and
            cot(math.pi / 2) == 0, "cot at the axes"
        )


if __name__ == "__main__":
    main(C16())
