# -*- coding: utf-8 -*-
"""
C19: the system of equations, at all states of a grid, against the vector
equations of the model
"""
import itertools

import numpy as np

from mc.core import Check, main, require
from mc.util import ODEIndex, NVARS

from disc_solver.solve.solution import ode_system

# all vectors are in the right handed order (r, φ, θ), θ being the angle from
# the midplane, and everything is at the radius 1, where it goes with these
# powers of the radius: B: γ - 5/4, v: -1/2, ρ: 2γ - 3/2, E: γ - 7/4
B = [ODEIndex.B_r, ODEIndex.B_φ, ODEIndex.B_θ]
V = [ODEIndex.v_r, ODEIndex.v_φ, ODEIndex.v_θ]
ETA = [ODEIndex.η_O, ODEIndex.η_A, ODEIndex.η_H]
LAST = ODEIndex.B_φ_prime

GAMMAS = (0.0, 0.001, 0.125, 0.5)
DIFFUSIVITIES = (
    (1.0, 0.0, 0.0), (1.0, 0.5, 0.0), (1.0, 0.0, 0.25), (0.75, 0.5, 0.25),
    (0.5, 0.25, -0.375), (0.0, 1.0, 0.5), (0.001, 0.0005, 0.0001),
)
THETAS = (0.0, 0.05, 0.6)
# a_0, square of the Keplerian speed
CONSTANTS = ((1.0, 1100.0), (0.25, 4.0))
STATES = np.array([
    list(s) for s in itertools.product(
        (-0.5, 0.0, 0.75),      # B_r
        (-1.25, 0.0, 0.375),    # B_φ
        (0.25, 1.0),            # B_θ
        (-0.875, 0.5),          # v_r
        (1.5, 33.0),            # v_φ
        (0.0625, 0.75, 1.5),    # v_θ
        (0.03125, 1.0),         # ρ
        (-0.75, 2.0),           # the derivative of B_φ, or E_r
    )
])
H = 1e-30


def cross(a, b):
    """Cross product of vectors in columns"""
    return np.array([
        a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2],
        a[0] * b[1] - a[1] * b[0],
    ])


def curl(b, dB_r, dB_φ, θ, γ):
    """Curl of the field"""
    return np.array([
        np.tan(θ) * b[1] - dB_φ,
        (γ - 0.25) * b[0] * 0 + dB_r - (γ - 0.25) * b[2],
        (γ - 0.25) * b[1],
    ])


def electric(b, v, η, j):
    """Ohm's law with all the diffusivities"""
    unit = b / np.sqrt(b[0]**2 + b[1]**2 + b[2]**2)
    along = j[0] * unit[0] + j[1] * unit[1] + j[2] * unit[2]
    return (
        -cross(v, b) + η[0] * j + η[1] * (j - along * unit) +
        η[2] * cross(j, unit)
    )


def radial_derivative(b, v, η, dB_φ, θ, γ):
    """The derivative of B_r for which E_φ vanishes (which is linear in it)"""
    zero = electric(b, v, η, curl(b, 0 * dB_φ, dB_φ, θ, γ))[1]
    one = electric(b, v, η, curl(b, 0 * dB_φ + 1, dB_φ, θ, γ))[1]
    return -zero / (one - zero)


def split(p):
    """Fields of states given in rows"""
    return p[:, B].T, p[:, V].T, p[:, ODEIndex.ρ], p[:, ETA].T


def ref_dderiv(p, d, θ, γ):
    """
    The second derivative of B_φ with which curl E vanishes, and what the
    known wrong signs make of it
    """
    def e_r(θ, p):
        b, v, _, η = split(p)
        dB_φ = p[:, LAST]
        dB_r = radial_derivative(b, v, η, dB_φ, θ, γ)
        return electric(b, v, η, curl(b, dB_r, dB_φ, θ, γ))
    now = e_r(θ, p)
    along = d.copy()
    along[:, LAST] = 0
    rest = np.imag(e_r(θ + 1j * H, p + 1j * H * along)[0]) / H
    last = np.zeros_like(d)
    last[:, LAST] = 1
    slope = np.imag(e_r(θ + 0j, p + 1j * H * last)[0]) / H
    right = ((γ - 0.75) * now[2] - rest) / slope

    b, _, _, η = split(p)
    b_r, b_φ, b_θ = unit = b / np.sqrt((b**2).sum(axis=0))
    db = d[:, B].T
    size = np.sqrt((b**2).sum(axis=0))
    db_r, _, db_θ = db_u = (db - unit * (unit * db).sum(axis=0)) / size
    O, A, Hall = η
    dO, dA, dHall = d[:, ETA].T
    t, q = np.tan(θ), 0.25 - γ
    s = 1 + t**2
    first = O * t + A * ((1 - b_r**2) * t + b_r * b_θ * q) + q * Hall * b_φ
    second = (
        dO * t + O * s + dA * ((1 - b_r**2) * t + b_r * b_θ * q) +
        q * dHall * b_φ - A * (
            2 * b_r * db_r * t - (1 - b_r**2) * s - db_r * b_θ * q -
            b_r * db_θ * q
        ) + q * Hall * db_u[1]
    )
    # first and second are to be added, not subtracted
    wrong = right + 2 * (p[:, LAST] * first + b[1] * second) / slope
    terms = (np.abs(now[2]) + np.abs(rest)) / np.abs(slope)
    return right, wrong, terms


def ref_deriv_B_φ(p, θ, γ):
    """
    The derivative of B_φ giving the electric field, and what the known wrong
    sign makes of it
    """
    b, v, _, η = split(p)
    zero = np.zeros(len(p))

    def e_r(dB_φ):
        return electric(b, v, η, curl(
            b, radial_derivative(b, v, η, dB_φ, θ, γ), dB_φ, θ, γ
        ))[0]
    at0, at1 = e_r(zero), e_r(zero + 1)
    right = (p[:, LAST] - at0) / (at1 - at0)
    b_r, b_φ, b_θ = b / np.sqrt((b**2).sum(axis=0))
    O, A, Hall = η
    C = (Hall * b_θ - A * b_r * b_φ) / (O + A * (1 - b_φ**2))
    good = O + A * (1 - b_r**2) + C * (Hall * b_θ + A * b_r * b_φ)
    bad = O + A * (1 - b_r**2) + C * (Hall * b_θ - A * b_r * b_φ)
    terms = (np.abs(p[:, LAST]) + np.abs(at0)) / np.abs(at1 - at0)
    return right, right * good / bad, terms


def small(value, *terms):
    """Whether a sum is small compared to its terms"""
    size = sum(np.abs(t) for t in terms)
    return bool(np.all(np.abs(value) <= 1e-10 * size))


class C19(Check):
    id = "C19"
    level = "exploration"
    rule = (
        "A case is a choice of formulation, diffusivities, γ, angle and "
        "constants; at each of {} states the derivatives given by the real "
        "function are put into the vector form of the equations, and "
        "evaluated again with internal data, as arrays, after other "
        "evaluations and with the wrong signs of density and velocity."
    ).format(len(STATES))
    assumptions = (
        "the angle is not scaled (no command scales it)",
        "residuals are small against the sum of their terms, 1e-10",
    )
    chunk = 2

    def cases(self, tier):
        deep = tier == "thorough"
        gammas = GAMMAS + ((-0.1, 0.25, 0.7) if deep else ())
        thetas = THETAS + ((-0.1, 1e-6, 0.2, 1.2) if deep else ())
        for use_E_r, η_derivs, γ, η, θ, c in itertools.product(
            (False, True), (False, True), gammas,
            range(len(DIFFUSIVITIES)), thetas, range(len(CONSTANTS)),
        ):
            if c and not deep and (not η_derivs or γ == 0.5):
                continue
            yield [use_E_r, η_derivs, γ, η, θ, c]

    def evaluate(self, case):
        use_E_r, η_derivs, γ, which, θ, c = case
        a_0, kepler = CONSTANTS[c]
        # the local diffusivities are not those of the midplane
        η_0 = np.array(DIFFUSIVITIES[which])
        init = np.array([0, 0, 1, -0.875, 30, 0, 1, 0.5, *η_0])
        p = np.empty((len(STATES), NVARS))
        p[:, :8] = STATES
        factors = 1 + np.arange(len(STATES)) % 3 / 4
        p[:, ETA] = η_0 * factors[:, np.newaxis]
        keep = p.copy()
        system = dict(
            γ=γ, a_0=a_0, norm_kepler_sq=kepler, init_con=init,
            η_derivs=η_derivs, use_E_r=use_E_r,
        )
        rhs, data = ode_system(store_internal=False, **system)
        require(data is None, "internal data which was not asked for")
        d = np.full(p.shape, np.nan)
        for i, state in enumerate(p):
            require(rhs(θ, state, d[i]) == 0, "state not evaluated")
        require(np.array_equal(p, keep), "states were modified")
        known = set()
        self.residuals(
            p, d, θ, γ, a_0, kepler, η_0, η_derivs, use_E_r, known
        )
        self.variants(system, p, d, θ)
        self.refused(system, p, θ)
        self.given_velocity(system, p, θ, γ, kepler, a_0)
        return {"outcome": (use_E_r, sorted(known)), "known": sorted(known)}

    @staticmethod
    def residuals(p, d, θ, γ, a_0, kepler, η_0, η_derivs, use_E_r, known,
                  polar=True):
        """The equations"""
        b, v, ρ, η = split(p)
        db, dv, dρ, dη = split(d)
        t = np.tan(θ)
        j = curl(b, db[0], db[1], θ, γ)
        force = a_0 / ρ * cross(j, b)
        e = electric(b, v, η, j)
        require(small(
            (γ + 0.75) * b[0] + db[2] - t * b[2], b[0], db[2], t * b[2], 1e-5
        ), "divergence of the field")
        require(small(
            2 * γ * ρ * v[0] + dρ * v[2] + ρ * dv[2] - t * ρ * v[2],
            2 * γ * ρ * v[0], dρ * v[2], ρ * dv[2], t * ρ * v[2]
        ), "mass")
        require(small(
            -v[0]**2 / 2 + v[2] * dv[0] - v[2]**2 - v[1]**2 +
            (2 * γ - 2.5) + kepler - force[0],
            v[0]**2, v[2] * dv[0], v[1]**2, kepler, force[0]
        ), "radial momentum")
        require(small(
            v[0] * v[1] / 2 + v[2] * dv[1] - t * v[2] * v[1] - force[1],
            v[0] * v[1], v[2] * dv[1], t * v[2] * v[1], force[1]
        ), "azimuthal momentum")
        require(not polar or small(
            v[0] * v[2] / 2 + v[2] * dv[2] + t * v[1]**2 + dρ / ρ - force[2],
            v[0] * v[2], v[2] * dv[2], t * v[1]**2, dρ / ρ, force[2],
            2 * γ * v[0] / v[2]
        ), "vertical momentum")
        terms = [np.abs(x) for x in cross(v, b)] + [
            np.abs(η[0] * j[1]) + np.abs(η[1] * np.abs(j).sum(axis=0)) +
            np.abs(η[2] * np.abs(j).sum(axis=0))
        ]
        require(small(e[1], *terms), "azimuthal electric field")
        if η_derivs:
            want = 2 * (b * db).sum(axis=0) / ρ - (
                b**2
            ).sum(axis=0) * dρ / ρ**2
            for i in range(3):
                require(small(
                    dη[i] - η_0[i] * want, η_0[i] * (
                        np.abs(b * db).sum(axis=0) / ρ +
                        np.abs((b**2).sum(axis=0) * dρ / ρ**2)
                    ), 1e-14
                ), "diffusivity does not follow field and density")
        else:
            require(not np.any(dη), "diffusivity is not constant")
        if use_E_r:
            require(small(
                d[:, LAST] - (γ - 0.75) * e[2], e[2], *terms
            ), "induction")
            right, wrong, size = ref_deriv_B_φ(p, θ, γ)
            got = db[1]
            key = "Z_5-sign"
        else:
            require(np.array_equal(db[1], p[:, LAST]), "derivative of B_φ")
            right, wrong, size = ref_dderiv(p, d, θ, γ)
            got = d[:, LAST]
            key = "dderiv_B_φ-signs"
        ok = np.abs(got - right) <= 1e-9 * size
        bad = np.abs(got - wrong) <= 1e-9 * (size + np.abs(wrong - right))
        require(
            np.all(ok | bad), lambda: "induction: {} is not {} at {}".format(
                got[~(ok | bad)][0], right[~(ok | bad)][0],
                p[~(ok | bad)][0]
            )
        )
        if not np.all(ok):
            known.add(key)

    @staticmethod
    def variants(system, p, d, θ):
        """Other ways to evaluate give the same"""
        rhs, data = ode_system(store_internal=True, **system)
        out = np.empty(NVARS)
        pick = list(range(0, len(p), 7))
        # in another order, over and over into the same place
        for i in reversed(pick):
            require(rhs(θ, p[i], out) == 0, "state not evaluated")
            require(
                np.array_equal(out, d[i]),
                "other result with internal data kept"
            )
        want = pick[::-1]
        require(
            np.array_equal(np.array(data.params), p[want]) and
            np.array_equal(np.array(data.derivs), d[want]) and
            list(data.angles) == [θ] * len(want), "internal data"
        )
        require(len(data.problems) == 0, "problems")
        again, _ = ode_system(store_internal=False, **system)
        for i in pick:
            again(θ, p[i], out)
            require(np.array_equal(out, d[i]), "depends on the history")
        many, _ = ode_system(
            store_internal=False, derivs_post_solution=True, **system
        )
        for angle in (θ, np.full(len(p), θ)):
            outs = np.full(p.shape, np.nan)
            require(many(angle, p, outs) == 0, "states not evaluated")
            require(
                np.allclose(outs, d, rtol=1e-9, atol=1e-12),
                "many at once differ"
            )

    @staticmethod
    def refused(system, p, θ):
        """States with wrong signs"""
        for store in (False, True):
            for i in range(0, len(p), 60):
                for index, code, text in (
                    (ODEIndex.ρ, 1, "negative density"),
                    (ODEIndex.v_θ, -1, "negative velocity"),
                ):
                    for value in (-1.0, -1e-300):
                        rhs, data = ode_system(store_internal=store, **system)
                        state = p[i].copy()
                        state[index] = value
                        out = np.full(NVARS, 3.25)
                        with np.errstate(all="ignore"):
                            res = rhs(θ, state, out)
                        require(res == code, lambda: "{} is {}".format(
                            text, res
                        ))
                        require(np.all(out == 3.25), "was evaluated")
                        if store:
                            require(
                                len(data.angles) == len(data.params) ==
                                len(data.derivs) == 0, "was stored"
                            )
                            require(
                                {k: list(v) for k, v in data.problems.items()}
                                == {str(θ): [text]}, "not reported"
                            )

    def given_velocity(self, system, p, θ, γ, kepler, a_0):
        """With a given derivative of the velocity the others still hold"""
        rhs, _ = ode_system(
            store_internal=False, deriv_v_θ_func=lambda x: 3.5 + x, **system
        )
        p = p[::11]
        d = np.full(p.shape, np.nan)
        for i, state in enumerate(p):
            require(rhs(θ, state, d[i]) == 0, "state not evaluated")
        require(np.all(d[:, ODEIndex.v_θ] == 3.5 + θ), "given derivative")
        self.residuals(
            p, d, θ, γ, a_0, kepler, system["init_con"][ETA],
            system["η_derivs"], system["use_E_r"], set(), polar=False,
        )


if __name__ == "__main__":
    main(C19())
