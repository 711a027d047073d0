# -*- coding: utf-8 -*-
"""
C31: the hydrostatic methods: their systems at all states of a grid and at all
short histories of them, their conditions at the midplane, and whole runs
"""
import itertools

import numpy as np
from scikits.odes import ode as REAL_ODE

from mc.core import Check, main, require, patched, scratch
from mc.physics import B, ETA, fields, electromagnetic, residuals
from mc.runs import write_config
from mc.util import (
    ODEIndex, NVARS, solution_input, make_run, difference, snapshot,
)

from disc_solver.file_format import registries
from disc_solver.float_handling import float_type
from disc_solver.solve import solve
from disc_solver.solve import hydrostatic, mod_hydro
from disc_solver.solve.utils import (
    SolverError, onroot_continue, onroot_stop, ontstop_continue, ontstop_stop,
)
from h5preserve import open as h5open

LAST = ODEIndex.B_φ_prime
V_R, V_PHI, V_THETA = ODEIndex.v_r, ODEIndex.v_φ, ODEIndex.v_θ
RHO = ODEIndex.ρ

DIFFUSIVITIES = (
    (1.0, 0.0, 0.0), (1.0, 0.5, 0.0), (1.0, 0.0, 0.25), (0.75, 0.5, 0.25),
    (0.5, 0.25, -0.375), (0.0, 1.0, 0.5), (0.001, 0.0005, 0.0001),
)
THETAS = (0.0, 0.05, 0.6)
# a_0, square of the Keplerian speed
CONSTANTS = ((1.0, 1100.0), (0.25, 4.0))
STATES = np.array([
    list(s) for s in itertools.product(
        (-0.5, 0.0, 0.75),      # B_r
        (-1.25, 0.0, 0.375),    # B_φ
        (0.25, 1.0),            # B_θ
        (-0.875, 0.5),          # v_r
        (1.5, 33.0),            # v_φ
        (0.0,),                 # v_θ
        (0.03125, 1.0),         # ρ
        (-33.0, -0.75, 2.0),    # the derivative of B_φ, or E_r
    )
])
SYSTEMS = ("hydrostatic", "still", "modified", "electric")
METHODS = {
    "hydrostatic": hydrostatic.solver, "modified": mod_hydro.solver,
    "electric": mod_hydro.solver,
}
START_V_R = -0.875


def make_system(name, store, a_0, kepler, init, η_derivs):
    """One of the systems, and its internal data"""
    args = dict(
        a_0=a_0, norm_kepler_sq=kepler, init_con=init, η_derivs=η_derivs,
        store_internal=store,
    )
    if name in ("hydrostatic", "still"):
        return hydrostatic.ode_system(no_v_deriv=name == "still", **args)
    return mod_hydro.ode_system(use_E_r=name == "electric", **args)


def small(value, size, tol=1e-10):
    """Whether a sum is small compared to its terms"""
    return bool(np.all(np.abs(value) <= tol * size))


def slope_factor(p):
    """What the known wrong sign makes of the derivative of B_φ"""
    b, _, _, η = fields(p)
    b_r, b_φ, b_θ = b / np.sqrt((b**2).sum(axis=0))
    O, A, H = η
    C = (H * b_θ - A * b_r * b_φ) / (O + A * (1 - b_φ**2))
    first = O + A * (1 - b_r**2)
    return (first + C * (H * b_θ + A * b_r * b_φ)) / (
        first + C * (H * b_θ - A * b_r * b_φ)
    )


def with_no_azimuthal_field(p, d, θ):
    """Set the derivative of B_r so that E_φ vanishes"""
    d[:, ODEIndex.B_r] = 0
    zero = electromagnetic(p, d, θ, 0.0)[1][1]
    d[:, ODEIndex.B_r] = 1
    one = electromagnetic(p, d, θ, 0.0)[1][1]
    d[:, ODEIndex.B_r] = -zero / (one - zero)


def radial_field(p, slope, θ):
    """E_r, given the derivative of B_φ"""
    d = np.zeros_like(p)
    d[:, ODEIndex.B_φ] = slope
    with_no_azimuthal_field(p, d, θ)
    return electromagnetic(p, d, θ, 0.0)[1][0]


def slope_of_field(p, θ):
    """
    The derivative of B_φ giving the electric field, what the known wrong sign
    makes of it, and the size of its terms
    """
    # the change with the derivative is that of a fluid which is at rest
    rest = p.copy()
    rest[:, [V_R, V_PHI]] = 0
    at0 = radial_field(p, 0.0, θ)
    change = radial_field(rest, 1.0, θ) - radial_field(rest, 0.0, θ)
    right = (p[:, LAST] - at0) / change
    b, v, _, η = fields(p)
    O, A, H = np.abs(η)
    mix = (H + A) / np.abs(η[0] + η[1] * (1 - b[1]**2 / (b**2).sum(axis=0)))
    size = (
        np.abs(p[:, LAST]) + np.abs(at0) + (1 + mix) *
        np.abs(v).sum(axis=0) * np.abs(b).sum(axis=0)
    ) / np.abs(change)
    return right, right * slope_factor(p), size


def momentum(p, slope, θ, a_0, kepler):
    """
    What is left of the radial momentum as such and to first order in
    v_φ - v_K, and of the azimuthal momentum
    """
    d = np.zeros_like(p)
    d[:, ODEIndex.B_φ] = slope
    with_no_azimuthal_field(p, d, θ)
    left, _ = residuals(p, d, θ, 0.0, a_0, kepler)
    v = p[:, V_PHI]
    radial = left["radial_momentum"]
    return (
        radial, radial + v**2 - (2 * np.sqrt(kepler) * v - kepler),
        left["azimuthal_momentum"]
    )


def solvable(p, θ, a_0, kepler):
    """
    Discriminant of the radial momentum, for the derivative of B_φ which the
    azimuthal momentum gives, as an equation for v_φ
    """
    def left(v):
        q = p.copy()
        q[:, V_PHI] = v
        at0 = momentum(q, 0.0, θ, a_0, kepler)[2]
        at1 = momentum(q, 1.0, θ, a_0, kepler)[2]
        return momentum(q, -at0 / (at1 - at0), θ, a_0, kepler)[0]
    zero, one, other = left(0.0), left(1.0), left(-1.0)
    first, second = (one - other) / 2, (one + other) / 2 - zero
    return first**2 - 4 * second * zero, (
        first**2 + 4 * np.abs(second * zero)
    )


def radial_velocities(p, θ, a_0, kepler, wrong):
    """
    All v_r for which both momenta hold, to first order in v_φ - v_K, given
    the electric field of a single state
    """
    q = np.repeat(p[np.newaxis], 2, axis=0)
    factor = slope_factor(q) if wrong else 1.0

    def left(v_r):
        def at(v_φ):
            q[:, V_R], q[:, V_PHI] = v_r, v_φ
            slope = slope_of_field(q, θ)[0] * factor
            _, radial, azimuthal = momentum(q, slope, θ, a_0, kepler)
            return radial[0], azimuthal[0]
        (r0, a0), (r1, a1) = at(0.0), at(1.0)
        # both are linear in v_φ
        return r0 * (a1 - a0) - a0 * (r1 - r0)
    scale = 8.0
    points = scale * np.array([-1.5, -0.5, 0.5, 1.5])
    return scale * np.roots(np.linalg.solve(
        np.vander(points / scale, 4), [left(x) for x in points]
    ))


def real_part(roots):
    """Those certainly real, and those which may be"""
    size = np.abs(roots) + 1e-300
    certain = np.abs(roots.imag) <= 1e-12 * size
    maybe = np.abs(roots.imag) <= 1e-5 * size
    return roots[certain].real, roots[maybe].real


class C31(Check):
    id = "C31"
    level = "exploration"
    rule = (
        "A case is a system with diffusivities, angle, constants and a rule "
        "for the diffusivities, evaluated at {} states whose derivatives are "
        "put into the vector equations; or an input of a grid whose "
        "conditions at the midplane are; or a whole run, whose solution is "
        "compared with a fourth order integration of the system."
    ).format(len(STATES))
    assumptions = (
        "the angle is not scaled (no command scales it)",
        "residuals are small against the sum of their terms, 1e-10 (1e-7 "
        "where the radial velocity is the root of a cubic)",
        "derivatives of v_r, v_φ and of the derivative of B_φ are not judged",
    )
    chunk = 1

    def cases(self, tier):
        deep = tier == "thorough"
        thetas = THETAS + ((1e-6, 0.2, 1.2) if deep else ())
        for name, η_derivs, η, θ, c in itertools.product(
            SYSTEMS, (True, False), range(len(DIFFUSIVITIES)), thetas,
            range(len(CONSTANTS)),
        ):
            if name == "still" and not deep and (c or not η_derivs):
                continue
            yield ["states", name, η_derivs, η, θ, c]
        for η, c in itertools.product(
            range(len(DIFFUSIVITIES)), range(len(CONSTANTS))
        ):
            yield ["history", η, c, 3 if deep else 2]
        for name in METHODS:
            for η in range(len(DIFFUSIVITIES)):
                yield ["conditions", name, η]
            yield ["nan", name]
        for name, η, η_derivs, store in itertools.product(
            METHODS, range(6 if deep else 5), (True, False), (True, False)
        ):
            if deep or store or η in (0, 3):
                yield ["run", name, η, η_derivs, store]
        for name, η_derivs in itertools.product(METHODS, (True, False)):
            yield ["file", name, η_derivs]
            yield ["limit", name, η_derivs]
        for name, kind, store in itertools.product(
            METHODS, ("root", "root-stop", "root-continue", "tstop",
                      "tstop-stop", "tstop-continue", "unsized"),
            (True, False),
        ):
            yield ["stops", name, kind, store]
        yield ["refused"]

    def evaluate(self, case):
        return getattr(self, "on_" + case[0])(*case[1:])

    # -- systems ----------------------------------------------------------
    def on_states(self, name, η_derivs, which, θ, c):
        """The equations at all states"""
        a_0, kepler = CONSTANTS[c]
        # the local diffusivities are not those of the midplane
        η_0 = np.array(DIFFUSIVITIES[which])
        init = np.array([0, 0, 1, START_V_R, 30, 0, 1, 0.5, *η_0])
        p = np.empty((len(STATES), NVARS))
        p[:, :8] = STATES
        p[:, ETA] = η_0 * (1 + np.arange(len(STATES)) % 3 / 4)[:, np.newaxis]
        keep = p.copy()
        system = (a_0, kepler, init, η_derivs)
        d = np.full(p.shape, np.nan)
        codes = np.empty(len(p))
        for i, state in enumerate(p):
            # each is the first of its history
            rhs, data = make_system(name, False, *system)
            require(data is None, "internal data which was not asked for")
            codes[i] = rhs(θ, state, d[i])
        known = set()
        if name == "electric":
            require(not codes.any(), "state not evaluated")
            keep[:, [V_R, V_PHI]] = p[:, [V_R, V_PHI]]
            self.velocities(p, d, θ, a_0, kepler, known)
        elif name == "modified":
            require(not codes.any(), "state not evaluated")
        else:
            disc, size = solvable(p, θ, a_0, kepler)
            sure = np.abs(disc) > 1e-9 * size
            require(
                np.array_equal(codes[sure] > 0, disc[sure] < 0) and
                np.all(codes >= 0),
                lambda: "{} states refused, {} have no v_φ".format(
                    int((codes != 0).sum()), int((disc < 0).sum())
                )
            )
        require(np.array_equal(p, keep), "states were modified")
        ok = codes == 0
        self.equations(
            name, p[ok], d[ok], θ, a_0, kepler, η_0, η_derivs
        )
        self.data(name, system, keep[~ok], p[ok], d[ok], θ)
        self.density(name, system, p[ok], θ)
        return {
            "outcome": (name, int(ok.sum()), sorted(known)),
            "known": sorted(known),
        }

    @staticmethod
    def equations(name, p, d, θ, a_0, kepler, η_0, η_derivs):
        """The equations which all the systems solve"""
        require(not np.isnan(d).any(), "derivative missing")
        left, size = residuals(p, d, θ, 0.0, a_0, kepler)
        tol = 1e-10
        require(small(left["solenoid"], size["solenoid"] + 1e-5),
                "divergence of the field")
        require(small(left["polar_momentum"], size["polar_momentum"], tol),
                "hydrostatic equilibrium")
        require(small(left["E_φ"], size["E_φ"], tol),
                "azimuthal electric field")
        require(not d[:, V_THETA].any(), "derivative of v_θ")
        b, _, ρ, _ = fields(p)
        db, dρ, dη = d[:, B].T, d[:, RHO], d[:, ETA].T
        if η_derivs:
            want = 2 * (b * db).sum(axis=0) / ρ - (
                b**2
            ).sum(axis=0) * dρ / ρ**2
            for i in range(3):
                require(small(dη[i] - η_0[i] * want, np.abs(η_0[i]) * (
                    np.abs(b * db).sum(axis=0) / ρ +
                    np.abs((b**2).sum(axis=0) * dρ / ρ**2)
                ) + 1e-14), "diffusivity does not follow field and density")
        else:
            require(not np.any(dη), "diffusivity is not constant")
        if name in ("still", "electric"):
            require(not d[:, [V_R, V_PHI]].any(), "derivative of velocity")
        if name != "electric":
            require(np.array_equal(db[1], p[:, LAST]), "derivative of B_φ")
        else:
            e = electromagnetic(p, d, θ, 0.0)[1]
            require(small(
                d[:, LAST] + 0.75 * e[2], np.abs(e[2]) + size["E_φ"]
            ), "induction")

    @staticmethod
    def velocities(p, d, θ, a_0, kepler, known):
        """The velocity which is put into the states"""
        slope = d[:, ODEIndex.B_φ]
        right, wrong, size = slope_of_field(p, θ)
        ok = np.abs(slope - right) <= 1e-9 * size
        bad = np.abs(slope - wrong) <= 1e-9 * (size + np.abs(wrong - right))
        require(np.all(ok | bad), "derivative of B_φ is not that of the field")
        if not np.all(ok):
            known.add("Z_5-sign")
        left, sizes = residuals(p, d, θ, 0.0, a_0, kepler)
        require(small(
            left["azimuthal_momentum"], sizes["azimuthal_momentum"], 1e-9
        ), "azimuthal momentum")
        v = p[:, V_PHI]
        require(small(
            left["radial_momentum"] + v**2 -
            (2 * np.sqrt(kepler) * v - kepler),
            sizes["radial_momentum"] + 2 * kepler + v**2, 1e-7
        ), "radial momentum")

    @staticmethod
    def data(name, system, refused, p, d, θ):
        """What is kept, and whether the history matters"""
        if not len(p):
            return
        pick = list(range(0, len(p), 7))
        rhs, data = make_system(name, True, *system)
        again, _ = make_system(name, False, *system)
        out, other = np.empty(NVARS), np.empty(NVARS)
        want = []
        for number, i in enumerate(reversed(pick)):
            if len(refused):
                # ones which are not evaluated leave nothing
                require(rhs(θ, refused[number % len(refused)].copy(), out) > 0,
                        "evaluated now")
            state, copied = p[i].copy(), p[i].copy()
            require(rhs(θ, state, out) == 0, "state not evaluated")
            want.append((state.copy(), out.copy()))
            require(again(θ, copied, other) == 0, "state not evaluated")
            require(
                np.array_equal(out, other) and np.array_equal(state, copied),
                "other result with internal data kept"
            )
            if name != "electric":
                require(np.array_equal(out, d[i]), "depends on the history")
            # the caller is free to use its arrays again
            state[:] = 0
        require(
            np.array_equal(np.array(data.params), [s for s, _ in want]) and
            np.array_equal(np.array(data.derivs), [o for _, o in want]) and
            list(data.angles) == [θ] * len(want), "internal data"
        )
        require(len(data.problems) == 0, "problems")

    @staticmethod
    def density(name, system, p, θ):
        """States with negative density"""
        for store in (False, True):
            for i in range(0, len(p), 40):
                for value in (-1.0, -1e-300):
                    rhs, data = make_system(name, store, *system)
                    state = p[i].copy()
                    state[RHO] = value
                    keep = state.copy()
                    out = np.full(NVARS, 3.25)
                    require(rhs(θ, state, out) > 0, "negative density")
                    require(np.all(out == 3.25) and
                            np.array_equal(state, keep), "was evaluated")
                    if store:
                        require(
                            len(data.angles) == len(data.params) ==
                            len(data.derivs) == 0, "was stored"
                        )
                        require(
                            {k: list(v) for k, v in data.problems.items()}
                            == {str(θ): ["negative density"]}, "not reported"
                        )

    @staticmethod
    def on_history(which, c, depth):
        """The velocity follows the nearest solution, over all histories"""
        a_0, kepler = CONSTANTS[c]
        η_0 = np.array(DIFFUSIVITIES[which])
        pick = STATES[[
            i for i, s in enumerate(STATES)
            if s[V_R] < 0 and s[V_PHI] == 1.5 and s[LAST] != -0.75 and
            s[ODEIndex.B_θ] == 1 and (s[0], s[1]) in (
                (0, 0), (0.75, -1.25), (-0.5, 0.375)
            )
        ]]
        states = np.empty((len(pick), NVARS))
        states[:, :8] = pick
        states[:, ETA] = η_0
        θ = 0.05
        roots = [[
            real_part(radial_velocities(s, θ, a_0, kepler, wrong))
            for wrong in (False, True)
        ] for s in states]
        count, known, moved = 0, False, 0
        for order in itertools.product(range(len(states)), repeat=depth):
            for start in (START_V_R, 6.0, -40.0):
                init = np.array([0, 0, 1, start, 30, 0, 1, 0.5, *η_0])
                rhs, _ = make_system(
                    "electric", False, a_0, kepler, init, True
                )
                out, at = np.empty(NVARS), start
                for i in order:
                    state = states[i].copy()
                    # what was there before does not matter
                    state[[V_R, V_PHI]] = 7.0 * i, -3.0
                    require(rhs(θ, state, out) == 0, "state not evaluated")
                    v_r = state[V_R]
                    good = [
                        nearest(v_r, at, *r) for r in roots[i]
                    ]
                    require(any(good), lambda: (
                        "{} is not the one of {} nearest to {}".format(
                            v_r, roots[i][0][1], at
                        )
                    ))
                    if abs(v_r - at) > 1e-6:
                        moved += 1
                    at = v_r
                    count += 1
        return {"outcome": (which, c, moved > 0), "transitions": count}

    # -- conditions -------------------------------------------------------
    @staticmethod
    def conditions(name, inp):
        """At the midplane"""
        if name == "hydrostatic":
            return hydrostatic.hydrostatic_define_conditions(inp)
        return mod_hydro.mod_hydro_define_conditions(inp)

    def on_conditions(self, name, which):
        """The conditions at the midplane, for inputs of a grid"""
        f = np.float64
        η_O, η_A, η_H = map(f, DIFFUSIVITIES[which])
        n = refused = 0
        for v_r, v_a, c_s, γ, E_r, (start, stop, num) in itertools.product(
            (f(1), f(0.25), f(-0.5)), (f(1), f(0.5), f(1.5)),
            (f(0.03), f(0.2)), (f(0), f(0.25)), (False, True),
            ((0, 5, 50), (0, 0.5, 7), (0.25, 1, 2)),
        ):
            inp = solution_input(
                v_rin_on_c_s=v_r, v_a_on_c_s=v_a, c_s_on_v_k=c_s, η_O=η_O,
                η_A=η_A, η_H=η_H, γ=γ, use_E_r=E_r, start=f(start),
                stop=f(stop), num_angles=num,
            )
            keep = snapshot(inp)
            try:
                cons = self.conditions(name, inp)
            except SolverError:
                p = np.array([[0, 0, 1, -v_r, 0, 0, 1, 0, η_O, η_A, η_H]])
                disc, _ = solvable(p, 0.0, v_a**2, c_s**-2)
                require(name == "hydrostatic" and disc[0] < 0, "refused")
                refused += 1
                continue
            require(difference(keep, inp) is None, "input was modified")
            require(cons.γ == 0, "γ is {}".format(cons.γ))
            require(np.isclose(cons.a_0, v_a**2, rtol=1e-13), "a_0")
            require(np.isclose(cons.norm_kepler_sq, c_s**-2, rtol=1e-13),
                    "Keplerian speed")
            require(
                len(cons.angles) == num and np.allclose(
                    cons.angles, [
                        np.pi / 180 * (start + (stop - start) * i / (num - 1))
                        for i in range(num)
                    ], rtol=1e-13, atol=1e-16
                ), "angles"
            )
            p = np.array([cons.init_con])
            require(p.shape == (1, NVARS), "shape")
            want = {
                ODEIndex.B_r: 0, ODEIndex.B_φ: 0, ODEIndex.B_θ: 1, V_R: -v_r,
                V_THETA: 0, RHO: 1, ODEIndex.η_O: η_O, ODEIndex.η_A: η_A,
                ODEIndex.η_H: η_H,
            }
            for index, val in want.items():
                require(p[0, index] == val, lambda: "{} is {}".format(
                    ODEIndex(index).name, p[0, index]
                ))
            a_0, kepler = v_a**2, c_s**-2
            at0 = momentum(p, 0.0, 0.0, a_0, kepler)[2]
            at1 = momentum(p, 1.0, 0.0, a_0, kepler)[2]
            slope = -at0 / (at1 - at0)
            exact, linear, _ = momentum(p, slope, 0.0, a_0, kepler)
            left = exact if name == "hydrostatic" else linear
            require(small(left, np.array([2 * kepler])),
                    "radial momentum: {}".format(left))
            if E_r:
                e = radial_field(p, slope, 0.0)
                require(small(p[:, LAST] - e, np.abs(e) + np.abs(slope)),
                        "electric field")
            else:
                require(small(p[:, LAST] - slope, np.abs(slope)),
                        "derivative of B_φ")
            n += 1
        return {"outcome": ("conditions", refused > 0), "transitions": n}

    def on_nan(self, name):
        """Inputs which have no conditions"""
        f = np.float64
        n = 0
        for key in ("v_rin_on_c_s", "v_a_on_c_s", "c_s_on_v_k", "η_O", "η_A",
                    "η_H"):
            for E_r in (False, True):
                inp = solution_input(**{key: f("nan"), "use_E_r": E_r})
                try:
                    self.conditions(name, inp)
                except SolverError:
                    n += 1
                else:
                    require(False, "not refused: {}".format(key))
        return {"outcome": "nan", "transitions": n}

    # -- runs -------------------------------------------------------------
    @staticmethod
    def make_input(name, which, η_derivs, **kwargs):
        """Of runs which end within a second"""
        f = np.float64
        η_O, η_A, η_H = map(f, DIFFUSIVITIES[which])
        base = dict(
            start=f(0), stop=f(1), num_angles=11, γ=f(0.125), η_O=η_O,
            η_A=η_A, η_H=η_H, η_derivs=η_derivs, use_E_r=name == "electric",
            relative_tolerance=f(1e-7), absolute_tolerance=f(1e-11),
            max_steps=777,
        )
        base.update(kwargs)
        return solution_input(**base)

    def on_run(self, name, which, η_derivs, store):
        """A whole run"""
        inp = self.make_input(name, which, η_derivs)
        keep = snapshot(inp)
        asked = []

        class Recorder:
            """The integrator, which notes what it is asked for"""
            def __init__(self, integrator, system, **kwargs):
                asked.append(kwargs)
                self.real = REAL_ODE(integrator, system, **kwargs)

            def __getattr__(self, attr):
                return getattr(self.real, attr)

        run = make_run()
        with patched((REAL_ODE, Recorder)):
            res = METHODS[name](inp, run, store_internal=store)
        require(res is True, "not successful")
        require(difference(keep, inp) is None, "input was modified")
        for kwargs in asked:
            require(
                kwargs["rtol"] == 1e-7 and kwargs["atol"] == 1e-11 and
                kwargs["max_steps"] == 777, "other limits used"
            )
        require(list(run.solutions) == ["0"], "solutions")
        soln = run.final_solution
        require(
            difference(run.solutions["0"], soln) is None, "final solution"
        )
        require(difference(soln.solution_input, keep) is None, "input kept")
        require(soln.flag == 0, "flag {}".format(soln.flag))
        cons = soln.initial_conditions
        ref = self.conditions(name, keep)
        require(
            all(np.allclose(a, b, rtol=1e-9, atol=1e-12) for a, b in (
                (cons.init_con, ref.init_con), (cons.angles, ref.angles),
                (cons.a_0, ref.a_0), (cons.γ, ref.γ),
                (cons.norm_kepler_sq, ref.norm_kepler_sq),
            )), "initial conditions: {}".format(cons)
        )
        require(np.allclose(soln.angles, ref.angles, rtol=1e-12), "angles")
        self.follows(name, ref, soln, η_derivs)
        internal = soln.internal_data
        if not store:
            require(internal is None, "internal data kept")
        else:
            require(len(internal.angles) == len(internal.params) ==
                    len(internal.derivs) > 0, "internal data")
            params = np.array(internal.params)
            for i in range(len(params)):
                self.equations(
                    name, params[i:i + 1], np.array(internal.derivs[i:i + 1]),
                    internal.angles[i], ref.a_0, ref.norm_kepler_sq,
                    ref.init_con[ETA], η_derivs
                )
        return {"outcome": (name, store), "transitions": len(soln.angles)}

    def follows(self, name, ref, soln, η_derivs):
        """The solution is that of the system"""
        system, _ = make_system(
            name, False, ref.a_0, ref.norm_kepler_sq, ref.init_con, η_derivs
        )

        def slope(θ, state):
            out = np.empty(NVARS)
            state = state.copy()
            require(system(θ, state, out) == 0, "refused")
            return out

        x = ref.angles
        state = ref.init_con.copy()
        states = [state]
        for a, b in zip(x, x[1:]):
            n = 8
            h = (b - a) / n
            for i in range(n):
                t = a + i * h
                k1 = slope(t, state)
                k2 = slope(t + h / 2, state + h / 2 * k1)
                k3 = slope(t + h / 2, state + h / 2 * k2)
                k4 = slope(t + h, state + h * k3)
                state = state + h / 6 * (k1 + 2 * k2 + 2 * k3 + k4)
            states.append(state)
        states = np.array(states)
        got = np.array(soln.solution)
        require(got.shape == states.shape, "shape")
        if name == "electric":
            # these follow from the others
            for θ, state in zip(x, states):
                system(θ, state, np.empty(NVARS))
        for i in range(NVARS):
            size = np.abs(states[:, i]).max() + 1e-8
            far = np.abs(got[:, i] - states[:, i]).max() / size
            require(far <= 1e-4, lambda: "{} is off by {}".format(
                ODEIndex(i).name, far
            ))

    def on_limit(self, name, η_derivs):
        """A run which may not take enough steps"""
        full = make_run()
        METHODS[name](self.make_input(name, 3, η_derivs), full)
        whole = full.final_solution
        run = make_run()
        METHODS[name](self.make_input(name, 3, η_derivs, max_steps=3), run)
        soln = run.final_solution
        require(soln.flag != 0, "no error")
        n = len(soln.angles)
        require(0 < n < len(whole.angles), "all angles")
        require(
            np.array_equal(soln.angles, whole.angles[:n]) and
            np.allclose(soln.solution, whole.solution[:n], rtol=1e-9,
                        atol=1e-12), "other solution"
        )
        return {"outcome": "limit"}

    def on_stops(self, name, kind, store):
        """A solution which is to stop somewhere"""
        inp = self.make_input(name, 3, True)
        cons = self.conditions(name, inp)
        solution, kwargs = hydrostatic.solution, {}
        if name != "hydrostatic":
            solution = mod_hydro.solution
            kwargs["use_E_r"] = name == "electric"
        whole = solution(inp, cons, store_internal=False, **kwargs)
        # half of the way which B_φ goes
        goal = whole.solution[-1, ODEIndex.B_φ] / 2
        turn = np.radians(0.55)

        def root(θ, state, out):
            out[0] = state[ODEIndex.B_φ] - goal
            return 0
        if kind.startswith("tstop"):
            kwargs["tstop"] = turn
        else:
            kwargs["root_func"] = root
            if kind != "unsized":
                kwargs["root_func_args"] = 1
        for end, key, func in (
            ("root-stop", "onroot_func", onroot_stop),
            ("root-continue", "onroot_func", onroot_continue),
            ("tstop-stop", "ontstop_func", ontstop_stop),
            ("tstop-continue", "ontstop_func", ontstop_continue),
        ):
            if kind == end:
                kwargs[key] = func
        try:
            soln = solution(inp, cons, store_internal=store, **kwargs)
        except SolverError:
            require(kind == "unsized", "refused")
            return {"outcome": "unsized"}
        require(kind != "unsized", "not refused")
        require((soln.internal_data is not None) == store, "internal data")
        stops = not kind.endswith("continue")
        angles, states = soln.angles, soln.solution
        last = angles[-1]
        if stops:
            flag = 2 if kind.startswith("root") else 1
            # ends there, or with the angle before
            n = int((whole.angles < last - 1e-12).sum())
            require(
                0 < n < len(whole.angles) and len(angles) in (n, n + 1) and
                np.array_equal(angles[:n], whole.angles[:n]), "angles"
            )
            if kind.startswith("tstop"):
                n = int((whole.angles < turn).sum())
                require(
                    np.array_equal(angles[:n], whole.angles[:n]) and
                    len(angles) - n in (0, 1) and last <= turn + 1e-12,
                    "does not stop there"
                )
            else:
                b_φ = np.abs(states[:, ODEIndex.B_φ])
                require(np.all(b_φ <= abs(goal) * (1 + 1e-6)),
                        "does not stop at the root")
        else:
            flag = 0
            n = len(whole.angles)
            require(np.array_equal(
                np.setdiff1d(whole.angles, angles), []
            ) and len(np.unique(angles)) <= n + 1, "angles")
        require(soln.flag == flag, "flag {}".format(soln.flag))
        for θ, state in zip(angles, states):
            i = int(np.argmin(np.abs(whole.angles - θ)))
            if abs(whole.angles[i] - θ) > 1e-12:
                continue
            require(np.allclose(
                state, whole.solution[i], rtol=1e-4, atol=1e-7
            ), "another solution")
        if kind.startswith("root"):
            roots, at = np.ravel(soln.t_roots), np.atleast_2d(soln.y_roots)
            require(len(roots) == len(at) >= 1, "roots")
            require(
                np.all((roots > 0) & (roots < whole.angles[-1])) and
                np.allclose(at[:, ODEIndex.B_φ], goal, rtol=1e-6),
                "roots which are none"
            )
        else:
            require(soln.t_roots is None or not len(soln.t_roots), "roots")
        return {"outcome": ("stops", kind, len(angles))}

    def on_file(self, name, η_derivs):
        """By the command, into a file"""
        method = "hydrostatic" if name == "hydrostatic" else "mod_hydro"
        values = dict(
            start=0, stop=1, num_angles=5, label="lbl", η_derivs=η_derivs,
            use_E_r=name == "electric", γ=0.125, v_rin_on_c_s=1,
            v_a_on_c_s=1, c_s_on_v_k=0.03, η_O=0.75, η_A=0.5, η_H=0.25,
            max_steps=777,
        )
        with scratch() as path:
            config = path / "a.conf"
            write_config(config, **values)
            out, done = solve(
                output_file=path / "out.hdf5", sonic_method=method,
                config_file=config, output_dir=path, store_internal=True,
            )
            require(done is True, "not successful")
            with h5open(out, registries, mode="r") as f:
                run = f["run"]
                require(run.sonic_method == method, "method")
                require(run.use_E_r == (name == "electric"), "use_E_r")
                soln = run.final_solution
                require(
                    difference(soln, run.solutions["0"]) is None, "final"
                )
                inp = soln.solution_input
                require(
                    inp.η_derivs == η_derivs and
                    inp.use_E_r == (name == "electric") and
                    inp.num_angles == 5, "input"
                )
                memory = make_run()
                METHODS[name](inp, memory)
                want, n = memory.final_solution, 0
                for attr in ("solution_input", "initial_conditions", "flag",
                             "coordinate_system", "angles", "solution"):
                    diff = difference(
                        getattr(want, attr), getattr(soln, attr), attr
                    )
                    require(diff is None, "in the file: {}".format(diff))
                for attr in ("angles", "params", "derivs"):
                    a, b = (np.array(getattr(s.internal_data, attr))
                            for s in (want, soln))
                    require(np.array_equal(a, b), "internal data in the file")
                    n += len(a)
                require(n > 0, "no internal data")
        return {"outcome": "file"}

    def on_refused(self):
        """The hydrostatic method has no formulation by the electric field"""
        for which, η_derivs in itertools.product((0, 3), (True, False)):
            run = make_run()
            try:
                hydrostatic.solver(
                    self.make_input("electric", which, η_derivs), run
                )
            except SolverError:
                pass
            else:
                require(False, "not refused")
            require(len(run.solutions) == 0, "solution")
        return {"outcome": "refused"}


def nearest(value, at, certain, maybe):
    """Whether a value is the root next to another value"""
    if not len(maybe):
        return True
    tol = 1e-5 * (1 + np.abs(value) + np.abs(maybe).max())
    if np.abs(maybe - value).min() > tol:
        return False
    if not len(certain):
        return True
    return abs(value - at) <= np.abs(certain - at).min() + tol


assert float_type(1) == 1

if __name__ == "__main__":
    main(C31())
