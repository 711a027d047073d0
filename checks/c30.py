# -*- coding: utf-8 -*-
"""
C30: quantities derived from stored solutions, at all states and derivatives of
a grid and for all solutions of up to four points, against the model
"""
import itertools
import re
import warnings

import matplotlib
matplotlib.use("Agg")
import matplotlib.figure
import numpy as np
from h5preserve import open as h5open
from scipy.integrate import simpson

from mc.core import Check, main, require, scratch, in_dir, patched
from mc.physics import residuals, electromagnetic, slopes
from mc.runs import captured_stdout
from mc.util import (
    make_run, make_solution, solution_input, initial_conditions, snapshot, difference,
    ODEIndex, NVARS,
)

from disc_solver.file_format import registries, InternalData
from disc_solver.solve.solution import ode_system
from disc_solver.analyse.j_e_plot import J_func, E_func
from disc_solver.analyse import validate_plot as vp
from disc_solver.analyse.phys_ratio_plot import (
    compute_Σ, compute_M_dot_out, compute_M_dot_in,
    compute_M_dot_out_on_M_dot_in,
)
from disc_solver.analyse.compute_jacobian import (
    compute_jacobian, compute_jacobian_from_solution,
    compute_jacobian_at_index,
)

f8 = np.float64
O = ODEIndex
NAMES = (
    "B_r", "B_φ", "B_θ", "v_r", "v_φ", "v_θ", "ρ", "η_O", "η_A", "η_H",
)
EQUATIONS = {
    "continuity": vp.validate_continuity,
    "solenoid": vp.validate_solenoid,
    "radial_momentum": vp.validate_radial_momentum,
    "azimuthal_momentum": vp.validate_azimuthal_mometum,
    "polar_momentum": vp.validate_polar_momentum,
    "polar_induction": vp.validate_polar_induction,
    "E_φ": vp.validate_E_φ,
}
# the derivatives each of the equations is about
INVOLVED = {
    "continuity": (O.v_θ, O.ρ),
    "solenoid": (O.B_θ,),
    "radial_momentum": (O.v_r, O.B_r),
    "azimuthal_momentum": (O.v_φ, O.B_φ),
    "polar_momentum": (O.v_θ, O.ρ, O.B_r, O.B_φ),
    "polar_induction": (O.B_r, O.B_φ),
    "E_φ": (O.B_r, O.B_φ),
}
GAMMAS = (0.0, 0.001, 0.125, 0.5)
THETAS = (0.0, 0.05, 0.6)
CONSTANTS = ((1.0, 1100.0), (0.25, 4.0))
DIFFUSIVITIES = np.array([
    (1.0, 0.0, 0.0), (1.0, 0.5, 0.0), (1.0, 0.0, 0.25), (0.75, 0.5, 0.25),
    (0.5, 0.25, -0.375), (0.0, 1.0, 0.5), (0.001, 0.0005, 0.0001),
])
STATES = np.array(list(itertools.product(
    (-0.5, 0.0, 0.75),      # B_r
    (-1.25, 0.0, 0.375),    # B_φ
    (0.25, 1.0),            # B_θ
    (-0.875, 0.5),          # v_r
    (1.5, 33.0),            # v_φ
    (-0.5, 0.0, 0.75, 1.5), # v_θ
    (0.03125, 1.0),         # ρ
)))
FIELD_DERIVS = np.array(list(itertools.product((-1.5, 0, 0.25), repeat=2)))
OTHER_DERIVS = np.array(list(itertools.product((-0.625, 1.75), repeat=5)))
# each pair of the derivatives has all its combinations in these
FEWER = OTHER_DERIVS[[0, 3, 12, 15, 17, 18, 22, 25, 28, 31, 5, 10]]


def rows(tier, use):
    """All combinations of states, diffusivities and derivatives"""
    other = OTHER_DERIVS if tier == "thorough" else FEWER
    i, j, k, m = (a.ravel() for a in np.meshgrid(
        np.arange(len(STATES)), use, np.arange(len(FIELD_DERIVS)),
        np.arange(len(other)), indexing="ij"
    ))
    p = np.zeros((len(i), NVARS))
    p[:, [O.B_r, O.B_φ, O.B_θ, O.v_r, O.v_φ, O.v_θ, O.ρ]] = STATES[i]
    p[:, [O.η_O, O.η_A, O.η_H]] = DIFFUSIVITIES[j]
    d = np.zeros(p.shape)
    d[:, [O.B_r, O.B_φ]] = FIELD_DERIVS[k]
    d[:, [O.B_θ, O.v_r, O.v_φ, O.v_θ, O.ρ]] = other[m]
    d[:, [O.η_O, O.η_A, O.η_H]] = DIFFUSIVITIES[j][:, ::-1] + 0.5
    p[:, O.B_φ_prime] = d[:, O.B_φ]
    d[:, O.B_φ_prime] = 0.375
    return p, d


def with_internal(angles, p, d, γ, a_0, kepler, both=True):
    """Solution with these points in its internal data"""
    ic = initial_conditions(0)
    ic.γ, ic.a_0, ic.norm_kepler_sq = f8(γ), f8(a_0), f8(kepler)
    internal = None
    if both:
        internal = InternalData(derivs=d, params=p, angles=angles)
        # to be told apart from the points of the solution
        p, angles = p[::-1] + 0.5, angles + 0.25
    return make_solution(
        0, n=len(angles), angles=angles, solution=p,
        inp=solution_input(γ=f8(0.3)), initial_conditions=ic,
        internal_data=internal
    )


def same(have, want, size, what):
    """Compare numbers"""
    require(np.shape(have) == np.shape(want), lambda: "{}: shape {}".format(
        what, np.shape(have)))
    bad = ~(np.abs(have - want) <= 1e-12 * size)
    require(not np.any(bad), lambda: "{}: {} instead of {} at {}".format(
        what, np.asarray(have)[bad][:3], np.asarray(want)[bad][:3],
        np.flatnonzero(bad)[:3],
    ))


def compare(values, θ, p, d, γ, a_0, kepler, what, numeric=False):
    """Compare values of a solution with the model"""
    same(values.angles, θ, 0 * θ, what + ": angles")
    for name in NAMES:
        same(getattr(values, name), p[:, O[name]], 0, what + ": " + name)
        same(getattr(values.deriv, name), d[:, O[name]], 100 * np.abs(
            p[:, O[name]]
        ).max() if numeric else 0, what + ": derivative of " + name)
    same(values.deriv.B_φ_prime, d[:, O.B_φ_prime], 100 * np.abs(
        p[:, O.B_φ_prime]
    ).max() if numeric else 0, what + ": second derivative of B_φ")
    if numeric:
        d = d.copy()
        for name in NAMES:
            d[:, O[name]] = getattr(values.deriv, name)
    mag = np.sqrt((p[:, [O.B_r, O.B_φ, O.B_θ]]**2).sum(axis=1))
    for name in NAMES[:3]:
        same(getattr(values, "norm_" + name), p[:, O[name]] / mag, 1,
             what + ": direction of " + name)
    cons = values.initial_conditions
    require((cons.γ, cons.a_0, cons.norm_kepler_sq, cons.β) == (
        γ, a_0, kepler, 1.25 - γ
    ), what + ": constants")
    j, e, dash = electromagnetic(p, d, θ, γ)
    size = (
        np.abs(j).sum(axis=0) + np.abs(np.tan(θ) * p[:, O.B_φ]) +
        np.abs(d[:, O.B_φ]) + np.abs(p[:, O.B_θ])
    )
    size_e = 4 * size * np.abs(p[:, [O.η_O, O.η_A, O.η_H]]).sum(axis=1) + (
        np.abs(p[:, [O.v_r, O.v_φ, O.v_θ]]).sum(axis=1) *
        np.abs(p[:, [O.B_r, O.B_φ, O.B_θ]]).sum(axis=1)
    )
    for i, comp in enumerate("rφθ"):
        for name, want, scale in (
            ("J_" + comp, j, size), ("E_" + comp, e, size_e),
            ("E_{}_dash".format(comp), dash, size_e),
        ):
            same(getattr(values, name), want[i], scale, what + ": " + name)
    left, sizes = residuals(p, d, θ, γ, a_0, kepler)
    for name, func in EQUATIONS.items():
        have = func(values.initial_conditions, values)
        # either side may be subtracted from the other
        if np.all(np.abs(have + left[name]) <= 1e-12 * sizes[name]):
            continue
        same(have, left[name], sizes[name], what + ": what is left of " + name)


class C30(Check):
    id = "C30"
    level = "exploration"
    rule = (
        "A case is a set of constants with all combinations of a grid of "
        "states, diffusivities and derivatives, or a sequence of up to four "
        "points of which a solution is made, or options of the jacobian."
    )
    assumptions = (
        "surface densities and mass flow rates are as the code defines them "
        "(sum of ρ, Simpson's rule over the angles)",
    )
    chunk = 1

    def setup(self, tier):
        self.tier = tier

    def cases(self, tier):
        for γ, θ, (a_0, kepler) in itertools.product(
            GAMMAS, THETAS, CONSTANTS
        ):
            for use in ([0, 1, 2], [3, 4], [5, 6]):
                yield ["states", γ, θ, a_0, kepler, use]
            yield ["fulfilled", γ, θ, a_0, kepler]
        for first in itertools.product(range(3), repeat=2):
            yield ["points", list(first)]
        for γ, E_r, η_derivs, eps in itertools.product(
            (0.001, 0.125), (False, True), (False, True),
            (1e-10, 1e-6, 0.0078125)
        ):
            yield ["jacobian", γ, E_r, η_derivs, eps]
        for start, stop in itertools.product((0, 3, 5), (90, 20, 12)):
            yield ["printed", start, stop]

    def evaluate(self, case):
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            return getattr(self, "case_" + case[0])(*case[1:])

    def case_states(self, γ, θ, a_0, kepler, use):
        """A grid of states and derivatives"""
        p, d = rows(self.tier, use)
        angles = np.full(len(p), θ)
        soln = with_internal(angles, p, d, γ, a_0, kepler)
        what = "γ={} θ={}".format(γ, θ)
        compare(vp.get_values(soln), angles, p, d, f8(γ), a_0, kepler, what)
        j, e, _ = electromagnetic(p, d, angles, γ)
        var = {n: p[:, O[n]] for n in NAMES}
        have = J_func(
            γ=f8(γ), θ=angles, B_θ=var["B_θ"], B_φ=var["B_φ"],
            deriv_B_φ=d[:, O.B_φ], deriv_B_r=d[:, O.B_r],
        )
        # in the order r, θ, φ
        for a, b in zip(have, (j[0], j[2], j[1])):
            same(a, b, 16, "current")
        del var["ρ"]
        have = E_func(J_r=j[0], J_θ=j[2], J_φ=j[1], **var)
        for a, b in zip(have, (e[0], e[2], e[1])):
            same(a, b, 512, "electric field")
        return {
            "outcome": ("states", γ, θ), "states": len(p),
            "transitions": len(p) * len(EQUATIONS),
        }

    @staticmethod
    def case_fulfilled(γ, θ, a_0, kepler):
        """States with the derivatives by the equations, and another one"""
        n = 0
        index = [
            i for i, s in enumerate(STATES) if s[5] not in (0.0, -0.5)
        ]
        p = np.zeros((len(index) * 2, NVARS))
        names = [O.B_r, O.B_φ, O.B_θ, O.v_r, O.v_φ, O.v_θ, O.ρ]
        for half in range(2):
            part = p[half * len(index):(half + 1) * len(index)]
            part[:, names] = STATES[index]
            part[:, O.B_φ_prime] = (-0.75, 2.0)[half]
            part[:, [O.η_O, O.η_A, O.η_H]] = DIFFUSIVITIES[
                np.arange(len(index)) % len(DIFFUSIVITIES)
            ]
        angles = np.full(len(p), θ)
        rhs, _ = ode_system(
            γ=f8(γ), a_0=f8(a_0), norm_kepler_sq=f8(kepler), init_con=p[0],
            θ_scale=f8(1), η_derivs=False, store_internal=False,
            derivs_post_solution=True,
        )
        d = np.zeros(p.shape)
        rhs(angles, p, d)
        good = np.isfinite(d).all(axis=1)
        require(good.sum() * 2 > len(p), "too few states")
        p, d, angles = p[good], d[good], angles[good]
        _, sizes = residuals(p, d, angles, γ, a_0, kepler)
        for other in [None] + names:
            changed = d.copy()
            if other is not None:
                changed[:, other] += 0.375
            values = vp.get_values(
                with_internal(angles, p, changed, γ, a_0, kepler)
            )
            for name, func in EQUATIONS.items():
                left = np.abs(func(values.initial_conditions, values))
                small = left <= 1e-8 * sizes[name] + 1e-12
                if other not in INVOLVED[name]:
                    require(np.all(small), lambda: (
                        "{} seems not to be fulfilled, it leaves {}".format(
                            name, left[~small][:3])))
                elif len(INVOLVED[name]) == 1:
                    require(not np.any(small), lambda: (
                        "{} seems to be fulfilled".format(name)))
                n += len(p)
        return {"outcome": ("fulfilled", γ, θ), "states": n}

    def case_points(self, first):
        """Solutions of few points"""
        full = rows("quick", [3, 4])
        pick = np.array([371, 20011, 77777]) % len(full[0])
        protos = full[0][pick], full[1][pick]
        protos[0][:, O.v_θ] = (0.25, 0.75, 1.5)
        protos[0][:, O.ρ] = (1.0, 0.5, 0.03125)
        n = 0
        for rest in [()] + [
            r for k in (1, 2) for r in itertools.product(range(3), repeat=k)
        ]:
            seq = list(first) + list(rest)
            for length in (1, len(seq)) if not rest else (len(seq),):
                n += self.one_solution(seq[:length], *protos)
        return {"outcome": ("points", *first), "states": n}

    @staticmethod
    def one_solution(seq, p, d):
        """A solution made of some points"""
        θ = np.array([0.0, 0.03, 0.125, 0.5])[:len(seq)]
        p, d = p[seq].copy(), d[seq].copy()
        γ, a_0, kepler = 0.125, 0.75, 1000.0
        what = "points {}".format(seq)
        n = 0
        for both in (True, False):
            if not both and len(seq) == 1:
                continue
            soln = with_internal(θ, p, d, γ, a_0, kepler, both=both)
            before = snapshot(soln)
            if both:
                have = vp.get_values(soln)
                compare(have, θ, p, d, f8(γ), a_0, kepler, what)
            else:
                have = vp.get_values(soln)
                compare(have, θ, p, slopes(p, θ), f8(γ), a_0, kepler,
                        what + " without internal data", numeric=True)
            require(not difference(snapshot(soln), before), what + ": solution changed")
            n += 1
        soln = with_internal(θ, p, d, γ, a_0, kepler, both=False)
        for mask in itertools.product((True, False), repeat=len(seq)):
            if not any(mask):
                continue
            mask = np.array(mask)
            x, q = θ[mask], p[mask]
            same(compute_Σ(soln, mask), q[:, O.ρ].sum(), 4, what + ": Σ")
            for inner, outer in ((None, None), (1, 10), (f8(0.5), f8(2))):
                kwargs = {} if inner is None else {
                    "r_in": inner, "r_out": outer,
                }
                a, b = (0.1, 100.0) if inner is None else (inner, outer)
                a, b = f8(a), f8(b)
                leaving = 4 * np.pi * (b**(2 * γ) - a**(2 * γ)) / (2 * γ) * (
                    q[-1, O.ρ] * q[-1, O.v_θ]
                )
                coming = -4 * np.pi * simpson(
                    y=q[:, O.ρ] * q[:, O.v_r], x=x
                ) * (a**(2 * γ - 1) - b**(2 * γ - 1))
                same(compute_M_dot_out(soln, mask, **kwargs), leaving,
                     abs(leaving), what + ": outflow")
                same(compute_M_dot_in(soln, mask, **kwargs), coming,
                     abs(coming), what + ": inflow")
                if coming:
                    same(compute_M_dot_out_on_M_dot_in(soln, mask, **kwargs),
                         leaving / coming, abs(leaving / coming),
                         what + ": ratio")
                n += 1
        same(compute_Σ(soln), p[:, O.ρ].sum(), 4, what + ": whole Σ")
        return n

    @staticmethod
    def case_jacobian(γ, E_r, η_derivs, eps):
        """The jacobian at all points"""
        index = [i for i, s in enumerate(STATES) if s[5] > 0][::7]
        p = np.zeros((len(index), NVARS))
        p[:, [O.B_r, O.B_φ, O.B_θ, O.v_r, O.v_φ, O.v_θ, O.ρ]] = STATES[index]
        p[:, O.B_φ_prime] = np.where(np.arange(len(p)) % 2, -0.75, 2)
        p[:, [O.η_O, O.η_A, O.η_H]] = DIFFUSIVITIES[3]
        θ = np.array(THETAS)[np.arange(len(p)) % 3]
        ic = initial_conditions(0)
        ic.γ, ic.a_0, ic.norm_kepler_sq = f8(γ), f8(0.75), f8(1000)
        ic.init_con = p[0].copy()
        rhs, _ = ode_system(
            γ=ic.γ, a_0=ic.a_0, norm_kepler_sq=ic.norm_kepler_sq,
            init_con=ic.init_con, θ_scale=f8(1), η_derivs=η_derivs,
            use_E_r=E_r, store_internal=False, derivs_post_solution=True,
        )
        want = np.zeros((len(p), NVARS, NVARS))
        for k in range(NVARS):
            sides = []
            for sign in (1, -1):
                q = p.copy()
                q[:, k] = q[:, k] + sign * eps
                out = np.zeros(p.shape)
                for i in range(len(p)):
                    rhs(θ[i:i + 1], q[i:i + 1], out[i:i + 1])
                sides.append(out)
            want[:, :, k] = (sides[0] - sides[1]) / (2 * eps)
            size = np.abs(sides[0]) + np.abs(sides[1])
            if k == 0:
                sizes = np.zeros(want.shape)
            sizes[:, :, k] = size / eps
        soln = make_solution(
            0, n=len(p), angles=θ, solution=p, initial_conditions=ic,
            inp=solution_input(
                γ=f8(0.3), use_E_r=E_r, η_derivs=η_derivs
            )
        )
        before = snapshot(soln)

        def check(have, want, sizes, what):
            require(np.shape(have) == want.shape, what + ": shape")
            bad = ~(
                (np.abs(have - want) <= 1e-11 * sizes) |
                (~np.isfinite(want) & ~np.isfinite(have))
            )
            require(not bad.any(), lambda: "{}: {} instead of {} at {}".format(
                what, have[bad][:3], want[bad][:3], np.argwhere(bad)[:3]))
        check(compute_jacobian(
            γ=ic.γ, a_0=ic.a_0, norm_kepler_sq=ic.norm_kepler_sq,
            init_con=ic.init_con, θ_scale=f8(1), η_derivs=η_derivs,
            use_E_r=E_r, θ=θ, params=p, eps=eps,
        ), want, sizes, "jacobian")
        check(compute_jacobian_from_solution(soln, eps=eps), want, sizes,
              "jacobian of a solution")
        for i in range(len(p)):
            check(compute_jacobian_at_index(soln, eps=eps, index=i), want[i],
                  sizes[i], "jacobian at a point")
        require(not difference(snapshot(soln), before), "solution changed")
        return {
            "outcome": ("jacobian", E_r, η_derivs), "states": len(p),
            "transitions": len(p) * NVARS,
        }

    @staticmethod
    def case_printed(start, stop):
        """What the command reports"""
        full = rows("quick", [3, 4])
        n = 12
        pick = np.arange(n) * 7919 % len(full[0])
        p, d = full[0][pick], full[1][pick]
        angles = np.radians(np.linspace(0, 30, n))
        γ, a_0, kepler = 0.125, 0.75, 1000.0
        soln = with_internal(angles, p, d, γ, a_0, kepler)
        with scratch() as folder, in_dir(folder):
            with h5open(folder / "s.hdf5", registries, mode="x") as f:
                run = make_run()
                f["run"] = run
                run.solutions.add_solution(soln)
                run.final_solution = run.solutions["0"]
            with patched(
                (matplotlib.figure.Figure.savefig, lambda *a, **k: None)
            ), captured_stdout() as out:
                vp.validate_plot_main([
                    "s.hdf5", "0", "--start", str(start), "--stop", str(stop),
                    "--filename", "x.png",
                ])
            text = out.getvalue()
        inside = (np.degrees(angles) >= start) & (np.degrees(angles) <= stop)
        left, sizes = residuals(p, d, angles, γ, a_0, kepler)
        for name in EQUATIONS:
            found = re.findall(
                "^{}: (\\S+)$".format(name.replace("_m", " m").replace(
                    "_i", " i"
                )), text, re.M
            )
            require(len(found) == 1, lambda: "{} is not told: {}".format(
                name, text))
            same(float(found[0]), np.abs(left[name][inside]).max(),
                 sizes[name][inside].max(), "reported " + name)
        return {"outcome": "printed", "states": int(inside.sum())}


if __name__ == "__main__":
    main(C30())
