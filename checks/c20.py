# -*- coding: utf-8 -*-
"""
C20: the midplane conditions and the series off the midplane, for all inputs
of a grid, against a solution of the vector equations order by order
"""
import itertools

import numpy as np

from mc.core import Check, main, require, patched
from mc.util import ODEIndex, NVARS, solution_input

from disc_solver.solve.config import define_conditions
from disc_solver.solve.deriv_midplane import (
    get_taylor_first_order, get_taylor_second_order, get_taylor_third_order,
    taylor_series,
)
from disc_solver.solve.utils import SolverError
from disc_solver.solve import taylor_space

# see checks/c19.py for the axes and the powers of the radius
B = [ODEIndex.B_r, ODEIndex.B_φ, ODEIndex.B_θ]
V = [ODEIndex.v_r, ODEIndex.v_φ, ODEIndex.v_θ]
ETA = [ODEIndex.η_O, ODEIndex.η_A, ODEIndex.η_H]
LAST = ODEIndex.B_φ_prime

GAMMAS = (0.0, 0.001, 0.125, 0.25, 0.5)
V_RIN = (0.25, 1.0, 2.0)
V_A = (0.25, 1.0, 3.0)
C_S = (0.03, 0.5, 2.0)
DIFFUSIVITIES = (
    (1.0, 0.0, 0.0), (1.0, 0.5, 0.0), (1.0, 0.0, 0.25), (0.75, 0.5, 0.25),
    (0.5, 0.25, -0.375), (0.0, 1.0, 0.5), (0.001, 0.0005, 0.0001),
    (0.01, 0.0, -2.0), (0.0, 0.0, 0.0), (0.0, 0.0, 0.5),
)
ANGLES = (
    (0.0, 5.0, 2), (0.0, 90.0, 7), (0.0, 0.6, 60), (1.0, 3.0, 5),
    (0.0, 5.0, 1),
)
# orders of the power series which are kept
N = 4
TAN = np.array([0, 1, 0, 1 / 3])


# arithmetic of truncated power series in θ -----------------------------------
def mul(a, b):
    """Product"""
    out = np.zeros(N, dtype=np.result_type(a, b))
    for i in range(N):
        out[i:] += a[i] * b[:N - i]
    return out


def inverse(a):
    """One over"""
    out = np.zeros(N, dtype=a.dtype)
    out[0] = 1 / a[0]
    for i in range(1, N):
        out[i] = -sum(a[k] * out[i - k] for k in range(1, i + 1)) / a[0]
    return out


def root(a):
    """Square root"""
    out = np.zeros(N, dtype=a.dtype)
    out[0] = np.sqrt(a[0])
    for i in range(1, N):
        out[i] = (
            a[i] - sum(out[k] * out[i - k] for k in range(1, i))
        ) / 2 / out[0]
    return out


def deriv(a):
    """Derivative: the last order is not known any more"""
    return np.array([(i + 1) * a[i + 1] for i in range(N - 1)] + [np.nan])


def const(x):
    """A constant"""
    return np.array([x] + [0.0] * (N - 1))


def cross(a, b):
    """Cross product"""
    return [
        mul(a[1], b[2]) - mul(a[2], b[1]), mul(a[2], b[0]) - mul(a[0], b[2]),
        mul(a[0], b[1]) - mul(a[1], b[0]),
    ]


def residuals(s, γ, a_0, kepler, η_0, η_derivs):
    """The equations, put into which the series give zero at each order"""
    b, v, ρ = s[:3], s[3:6], s[6]
    db, dv, dρ = [deriv(x) for x in b], [deriv(x) for x in v], deriv(ρ)
    b_sq = sum(mul(x, x) for x in b)
    over_ρ = inverse(ρ)
    follow = mul(b_sq, over_ρ) if η_derivs else const(1.0)
    η = [e * follow for e in η_0]
    unit = [mul(x, inverse(root(b_sq))) for x in b]
    j = [
        mul(TAN, b[1]) - db[1], db[0] + (0.25 - γ) * b[2],
        (γ - 0.25) * b[1],
    ]
    force = [a_0 * mul(over_ρ, x) for x in cross(j, b)]
    along = sum(mul(x, y) for x, y in zip(j, unit))
    e = [
        -flow + mul(η[0], cur) + mul(η[1], cur - mul(along, u)) +
        mul(η[2], hall)
        for flow, cur, u, hall in zip(cross(v, b), j, unit, cross(j, unit))
    ]
    return {
        "divergence": (γ + 0.75) * b[0] + db[2] - mul(TAN, b[2]),
        "mass": 2 * γ * mul(ρ, v[0]) + mul(dρ, v[2]) + mul(ρ, dv[2]) -
        mul(TAN, mul(ρ, v[2])),
        "radial": -mul(v[0], v[0]) / 2 + mul(v[2], dv[0]) -
        mul(v[2], v[2]) - mul(v[1], v[1]) + const(2 * γ - 2.5 + kepler) -
        force[0],
        "azimuthal": mul(v[0], v[1]) / 2 + mul(v[2], dv[1]) -
        mul(TAN, mul(v[2], v[1])) - force[1],
        "vertical": mul(v[0], v[2]) / 2 + mul(v[2], dv[2]) +
        mul(TAN, mul(v[1], v[1])) + mul(dρ, over_ρ) - force[2],
        "field": e[1],
        "induction": deriv(e[0]) - (γ - 0.75) * e[2],
    }, e, η


def determine(s, unknown, equations, args):
    """
    Fill in the unknown (variable, order), which the equations (name, order)
    are linear in
    """
    def put(x):
        q = s.astype(np.asarray(x).dtype)
        for (var, order), val in zip(unknown, x):
            q[var, order] = val
        res = residuals(q, *args)[0]
        return np.array([res[name][order] for name, order in equations]), q
    at0, _ = put(np.zeros(len(unknown)))
    matrix = np.array([
        np.imag(put(x)[0]) for x in 1j * np.eye(len(unknown))
    ]).T
    inv = np.linalg.inv(matrix)
    x = -inv @ at0
    x = x - inv @ put(x)[0]
    filled = put(x)[1]
    # how exact this can be
    size = np.abs(inv) @ (np.abs(matrix) @ np.abs(x) + np.abs(at0))
    return filled, size


UNKNOWN = (
    (ODEIndex.B_θ, 2), (ODEIndex.ρ, 2), (ODEIndex.v_r, 2), (ODEIndex.v_φ, 2),
    (ODEIndex.v_θ, 3), (ODEIndex.B_r, 3), (ODEIndex.B_φ, 3),
)
EQUATIONS = (
    ("divergence", 1), ("vertical", 1), ("radial", 2), ("azimuthal", 2),
    ("mass", 2), ("field", 2), ("induction", 1),
)
FIRST_UNKNOWN = ((ODEIndex.B_φ, 1), (ODEIndex.v_θ, 1))
FIRST_EQUATIONS = (("azimuthal", 0), ("mass", 0))


def first_orders(s, args):
    """The first orders, given the midplane"""
    s, _ = determine(s, FIRST_UNKNOWN, FIRST_EQUATIONS, args)
    return determine(s, ((ODEIndex.B_r, 1),), (("field", 0),), args)[0]


def recorded(s, η, γ, a_0, η_derivs, E2, B_θ2, ρ2):
    """
    The second derivatives of v_r and v_φ, and the third of B_r and B_φ, as
    they are recorded in the known findings
    """
    v_r, v_φ = s[ODEIndex.v_r, 0], s[ODEIndex.v_φ, 0]
    O, A, H = η
    P = O + A
    r, f = s[ODEIndex.B_r, 1], s[ODEIndex.B_φ, 1]
    w = s[ODEIndex.v_θ, 1]
    g = 0.25 - γ
    scale = 2 * (r**2 + f**2 + B_θ2) - ρ2 if η_derivs else 0.0
    H2, P2 = scale * H, scale * P
    n2 = -(r**2 + f**2)
    C = H / P
    dA = (H2 + H * n2 - 2 * A * r * f - C * (P2 - 2 * A * f**2)) / P
    Z = (P**2 + H**2) / P
    Z2 = P2 - 2 * A * f**2 + dA * H + C * (H2 + H * n2 - 2 * A * r * f)
    Y1 = v_φ**2 + a_0 * (r * (g + r) + f**2) - v_r**2 * γ * (1 - 4 * γ)
    Y2 = (
        w * r - v_r * B_θ2 - f * (H2 + H * (r * g + 1 + n2)) -
        (P2 - 2 * A * r**2) * (r + g)
    ) / P - B_θ2 * g
    Y3 = -(
        dA * v_r - C * (w * r - v_r * B_θ2) + E2 + v_φ * B_θ2 - f * (
            w + P + g * (H * f + A * r) + C * (A * f * g - H * (r * g + 1))
        ) + f * Z2
    ) / Z
    Y4 = 2 * a_0 * (Y2 - f * (r * (1 + g) - Y1)) - 4 * γ * v_r * v_φ
    Y5 = v_r * (1 - 8 * γ) + 2 * a_0 / Z
    Y6 = v_φ / Y5 * (2 * a_0 * C / Z + v_φ) - (4 * γ + 1) * v_r / 2 - (
        a_0 / (2 * P)
    ) * (C * H / Z - 1 - H * (2 * a_0 * C / Z + v_φ) / (Z * Y5))
    r2 = (
        a_0 / 2 * (Y3 - Y2 * H / P + H * Y4 / (P * Y5 * Z)) +
        v_φ * Y4 / Y5 + 4 * γ**2 * v_r**2 + a_0 / 2 * (
            B_θ2 * r + 2 * f**2 * g + 2 * B_θ2 * g + Y1 * (r + g)
        )
    ) / Y6
    f2 = Y4 / Y5 - r2 / Y5 * (2 * a_0 * C / Z + v_φ)
    Bf3 = Y2 - (C * r2 + f2) / Z
    Br3 = Y3 - (H * Bf3 + r2) / P
    bad = 1 / min(abs(Y5), abs(Y6), 1)
    return {"v_r": r2, "v_φ": f2, "B_r": Br3, "B_φ": Bf3}, bad


class C20(Check):
    id = "C20"
    level = "exploration"
    rule = (
        "A case is a choice of γ, the three diffusivities, formulation and "
        "their treatment; for each inflow speed, field and aspect ratio the "
        "conditions and all coefficients of the series are compared with a "
        "solution of the equations order by order in the angle."
    )
    assumptions = (
        "inflow and field are not zero",
        "coefficients are compared to 1e-8 of the terms which they are the "
        "sum of",
    )
    chunk = 4

    def cases(self, tier):
        deep = tier == "thorough"
        gammas = GAMMAS + ((-0.1, 0.05, 0.7) if deep else ())
        for use_E_r, η_derivs, γ, η in itertools.product(
            (False, True), (False, True), gammas, range(len(DIFFUSIVITIES)),
        ):
            yield ["grid", use_E_r, η_derivs, γ, η, deep]
        for n in (0, 1, 3):
            yield ["space", n]
        for use_E_r, η_derivs in itertools.product((False, True), repeat=2):
            yield ["still", use_E_r, η_derivs]

    def evaluate(self, case):
        if case[0] == "space":
            return self.space(case[1])
        if case[0] == "still":
            return self.still(*case[1:])
        _, use_E_r, η_derivs, γ, which, deep = case
        η = DIFFUSIVITIES[which]
        known, outcomes = set(), {}
        for i, (v_rin, v_a, c_s) in enumerate(itertools.product(
            V_RIN + ((0.01, 0.6, 5.0) if deep else ()),
            V_A + ((0.01, 0.6, 10.0) if deep else ()),
            C_S + ((0.01, 0.3) if deep else ())
        )):
            start, stop, num = ANGLES[i % len(ANGLES)]
            inp = solution_input(
                use_E_r=use_E_r, η_derivs=η_derivs, γ=np.float64(γ),
                η_O=np.float64(η[0]), η_A=np.float64(η[1]),
                η_H=np.float64(η[2]), v_rin_on_c_s=np.float64(v_rin),
                v_a_on_c_s=np.float64(v_a), c_s_on_v_k=np.float64(c_s),
                start=np.float64(start), stop=np.float64(stop),
                num_angles=num,
            )
            res = self.one(inp, known)
            outcomes[res] = outcomes.get(res, 0) + 1
        return {
            "outcome": (sorted(outcomes), sorted(known)),
            "known": sorted(known), "states": sum(outcomes.values()),
            "nontrivial": "conditions" in outcomes,
        }

    @staticmethod
    def still(use_E_r, η_derivs):
        """Neither inflow nor a field, which leaves the bending undefined"""
        for γ, c_s, η in itertools.product(
            (0.0, 0.001, 0.1), (0.03, 0.3), DIFFUSIVITIES
        ):
            inp = solution_input(
                use_E_r=use_E_r, η_derivs=η_derivs, γ=np.float64(γ),
                η_O=np.float64(η[0]), η_A=np.float64(η[1]),
                η_H=np.float64(η[2]), v_rin_on_c_s=np.float64(0),
                v_a_on_c_s=np.float64(0), c_s_on_v_k=np.float64(c_s),
            )
            try:
                with np.errstate(all="ignore"):
                    cons = define_conditions(inp)
            except SolverError:
                continue
            require(False, "conditions {}".format(cons.init_con))
        return {"outcome": "still"}

    def one(self, inp, known):
        """Conditions and series of a single input"""
        before = inp.asdict()
        args = (
            inp.γ, inp.v_a_on_c_s**2, 1 / inp.c_s_on_v_k**2,
            np.array([inp.η_O, inp.η_A, inp.η_H]), inp.η_derivs,
        )
        # what the radial balance at the midplane is for azimuthal velocities
        s = np.zeros((7, N))
        s[:, 0] = [0, 0, 1, -inp.v_rin_on_c_s, 0, 0, 1]
        possible = inp.η_O + inp.η_A != 0
        top = lowest = None
        if possible:
            def balance(v):
                q = s.copy()
                q[ODEIndex.v_φ, 0] = v
                return residuals(first_orders(q, args), *args)[0]["radial"][0]
            y = [balance(v) for v in (-1.0, 0.0, 1.0)]
            a, b, c = (y[0] + y[2]) / 2 - y[1], (y[2] - y[0]) / 2, y[1]
            disc = b**2 - 4 * a * c
            size = b**2 + abs(4 * a) * (1 + abs(c) + args[2])
            lowest = disc / size
            possible = disc > 0
            if possible:
                top = max(
                    (-b + np.sqrt(disc)) / 2 / a, (-b - np.sqrt(disc)) / 2 / a
                )
        try:
            cons = define_conditions(inp)
        except SolverError as e:
            require(not possible or abs(lowest) < 1e-9, lambda: (
                "refused, though {} is possible".format(top)
            ))
            require("NaN" in str(e) or "complex" in str(e), "refused without "
                    "the reason")
            if "NaN" in str(e):
                require("v_φ" in str(e), "does not name the problem")
            require(inp.asdict() == before, "input was modified")
            return "refused"
        require(possible or (lowest is not None and abs(lowest) < 1e-9),
                lambda: "accepted impossible conditions {}".format(
                    cons.init_con))
        require(inp.asdict() == before, "input was modified")
        self.conditions(inp, cons, top, lowest)
        if min(abs(x) for x in (lowest,)) < 1e-6:
            return "limit"
        s[ODEIndex.v_φ, 0] = cons.init_con[ODEIndex.v_φ]
        s = first_orders(s, args)
        self.midplane(inp, cons, s, args)
        return self.series(inp, cons, s, args, known)

    @staticmethod
    def conditions(inp, cons, top, lowest):
        """What the input says directly"""
        con = cons.init_con
        require(con.shape == (NVARS,), "shape of the conditions")
        for index, want in (
            (ODEIndex.B_r, 0), (ODEIndex.B_φ, 0), (ODEIndex.B_θ, 1),
            (ODEIndex.v_r, -inp.v_rin_on_c_s), (ODEIndex.v_θ, 0),
            (ODEIndex.ρ, 1), (ODEIndex.η_O, inp.η_O),
            (ODEIndex.η_A, inp.η_A), (ODEIndex.η_H, inp.η_H),
        ):
            require(con[index] == want, lambda: "{} is {}, not {}".format(
                ODEIndex(index).name, con[index], want
            ))
        if top is not None and abs(lowest) > 1e-9:
            require(
                np.isclose(con[ODEIndex.v_φ], top, rtol=1e-9, atol=1e-9),
                lambda: "v_φ is {}, not {}".format(con[ODEIndex.v_φ], top)
            )
        require(
            cons.γ == inp.γ and np.isclose(
                cons.a_0, inp.v_a_on_c_s**2, rtol=1e-14
            ) and np.isclose(
                cons.norm_kepler_sq, inp.c_s_on_v_k**-2., rtol=1e-14
            ), "constants"
        )
        require(len(cons.angles) == inp.num_angles, "number of angles")
        for i, angle in enumerate(cons.angles):
            way = i / (inp.num_angles - 1) if inp.num_angles > 1 else 0
            want = inp.start + (inp.stop - inp.start) * way
            require(
                np.isclose(angle, want * np.pi / 180, rtol=1e-13, atol=1e-16),
                "angles"
            )

    @staticmethod
    def midplane(inp, cons, s, args):
        """The last variable at the midplane"""
        e = residuals(s, *args)[1]
        if inp.use_E_r:
            want = e[0][0]
            size = abs(s[ODEIndex.v_φ, 0]) + abs(args[3]).sum() * (
                abs(s[:3, 1]).sum() + 1
            )
        else:
            want = s[ODEIndex.B_φ, 1]
            size = abs(want)
        require(
            abs(cons.init_con[LAST] - want) <= 1e-10 * (size + 1e-6),
            lambda: "{} at the midplane is {}, not {}".format(
                "E_r" if inp.use_E_r else "B_φ'", cons.init_con[LAST], want
            )
        )

    @staticmethod
    def series(inp, cons, s, args, known):
        """The coefficients of the series"""
        kw = dict(
            init_con=cons.init_con.copy(), γ=cons.γ, a_0=cons.a_0,
        )
        opts = dict(η_derivs=inp.η_derivs, use_E_r=inp.use_E_r)
        first = get_taylor_first_order(**kw)
        second = get_taylor_second_order(**kw, **opts)
        third = get_taylor_third_order(**kw, **opts)
        both = taylor_series(**kw, **opts)
        require(
            np.array_equal(kw["init_con"], cons.init_con),
            "initial conditions were modified"
        )
        require(np.array_equal(
            first, get_taylor_first_order(**kw), equal_nan=True
        ) and np.array_equal(
            second, get_taylor_second_order(**kw, **opts), equal_nan=True
        ) and np.array_equal(
            third, get_taylor_third_order(**kw, **opts), equal_nan=True
        ), "series depends on the history")
        # symmetry: even and odd variables
        odd = {ODEIndex.B_r, ODEIndex.B_φ, ODEIndex.v_θ}
        for i in range(NVARS):
            if i in odd:
                ok = second[i] == 0
                same = third[i], both[i]
            else:
                ok = first[i] == third[i] == 0
                same = second[i], both[i]
            require(
                ok and np.array_equal(*same, equal_nan=True),
                "order of " + ODEIndex(i).name
            )
        for i in odd:
            require(
                abs(first[i] - s[i, 1]) <= 1e-9 * (abs(s[i, 1]) + 1 + (
                    abs(s[ODEIndex.v_φ, 0] * s[ODEIndex.v_r, 0])
                ) / cons.a_0 + 1 / (inp.η_O + inp.η_A) * (
                    1 + abs(inp.η_H * s[ODEIndex.B_φ, 1])
                ) if i != ODEIndex.v_θ else 1e-3),
                lambda: "{}' is {}, not {}".format(
                    ODEIndex(i).name, first[i], s[i, 1])
            )
        full, size = determine(s, UNKNOWN, EQUATIONS, args)
        sizes = dict(zip([u[0] for u in UNKNOWN], size))
        _, e, η = residuals(full, *args)

        def right(index, got, want, mag):
            return abs(got - want) <= 1e-8 * (mag + abs(want)) + 1e-12

        B_θ2, ρ2 = 2 * full[ODEIndex.B_θ, 2], 2 * full[ODEIndex.ρ, 2]
        for index, want in ((ODEIndex.B_θ, B_θ2), (ODEIndex.ρ, ρ2)):
            require(
                right(index, second[index], want, sizes[index]),
                lambda: "{}'' is {}, not {}".format(
                    ODEIndex(index).name, second[index], want
                )
            )
        η_size = 2 * (s[:2, 1]**2).sum() + abs(B_θ2) + abs(ρ2)
        for index, series in zip(ETA, η):
            require(
                abs(second[index] - 2 * series[2]) <=
                1e-8 * η_size * abs(series[0]),
                lambda: "{}'' is {}, not {}".format(
                    ODEIndex(index).name, second[index], 2 * series[2]
                )
            )
        # induction gives the second derivative of E_r from the lower orders
        E2 = (cons.γ - 0.75) * e[2][1]
        if inp.use_E_r:
            mag = (abs(s[:2, 1]).sum() + 1)**2 * (
                abs(s[3:5, 0]).sum() + 1 + np.abs(args[3]).sum()
            )
            require(abs(second[LAST] - E2) <= 1e-9 * mag,
                    lambda: "E_r'' is {}, not {}".format(second[LAST], E2))
        else:
            require(np.array_equal(
                second[LAST], third[ODEIndex.B_φ], equal_nan=True
            ), "second derivative of B_φ' and third of B_φ differ")
        if not np.all(np.isfinite(third)):
            Z = ((inp.η_O + inp.η_A)**2 + inp.η_H**2) / (inp.η_O + inp.η_A)
            Y5 = s[ODEIndex.v_r, 0] * (1 - 8 * cons.γ) + 2 * cons.a_0 / Z
            require(abs(Y5) < 1e-12, "no coefficients")
            return "singular"
        code = {
            "v_r": second[ODEIndex.v_r], "v_φ": second[ODEIndex.v_φ],
            "B_r": third[ODEIndex.B_r], "B_φ": third[ODEIndex.B_φ],
        }
        want = {
            "v_r": 2 * full[ODEIndex.v_r, 2], "v_φ": 2 * full[ODEIndex.v_φ, 2],
            "B_r": 6 * full[ODEIndex.B_r, 3], "B_φ": 6 * full[ODEIndex.B_φ, 3],
        }
        wrong, ill = recorded(
            s, args[3], cons.γ, cons.a_0, inp.η_derivs, E2, B_θ2, ρ2
        )
        all_right = all(
            right(ODEIndex[name], code[name], want[name],
                  sizes[ODEIndex[name]])
            for name in code
        )
        if not all_right:
            for name in code:
                require(
                    abs(code[name] - wrong[name]) <= 1e-9 * ill * max(
                        abs(x) for x in wrong.values()
                    ), lambda: "{} of the series is {}, not {}".format(
                        name, code[name], want[name]
                    )
                )
            known.add("series-second-order")
        # and in any case mass is conserved
        w3 = 4 * cons.γ * s[ODEIndex.v_r, 0] * (ρ2 - 1) - (
            2 * cons.γ * code["v_r"]
        )
        require(
            abs(third[ODEIndex.v_θ] - w3) <= 1e-9 * abs(cons.γ) * (
                abs(s[ODEIndex.v_r, 0]) * (abs(ρ2) + 1) + abs(code["v_r"])
            ), lambda: "v_θ''' is {}, not {}".format(
                third[ODEIndex.v_θ], w3
            )
        )
        return "conditions"

    @staticmethod
    def space(num):
        """The scan gives the series of each of its inputs"""
        ranges = {
            "γ": (0.001, 0.1), "v_rin_on_c_s": (0.5, 1.0),
            "v_a_on_c_s": (0.25, 0.75), "c_s_on_v_k": (0.03, 0.05),
        }
        drawn = []

        def draw(low, high, size):
            drawn.append((low, high))
            return low + (high - low) * (np.arange(size) + 0.5) / (
                size * (1 + len(drawn)))
        η = {"η_O": 0.5, "η_A": 0.25, "η_H": 0.125}
        with patched((np.random.uniform, draw)):
            space = taylor_space.compute_taylor_space(
                num_samples=num, **ranges, **η
            )
        require(sorted(drawn) == sorted(ranges.values()), "ranges")
        for i in range(num):
            vals = {}
            for name, (low, high) in ranges.items():
                vals[name] = np.float64(getattr(space, name + "_arr")[i])
                require(low <= vals[name] <= high, "range of " + name)
            inp = solution_input(
                **{k: np.float64(v) for k, v in {**vals, **η}.items()},
                η_derivs=False,
            )
            cons = define_conditions(inp)
            kw = dict(init_con=cons.init_con, γ=cons.γ, a_0=cons.a_0)
            opts = dict(η_derivs=False, use_E_r=False)
            for got, want in zip(space.taylor_orders[i], (
                cons.init_con, get_taylor_first_order(**kw),
                get_taylor_second_order(**kw, **opts),
                get_taylor_third_order(**kw, **opts),
            )):
                require(np.allclose(got, want, rtol=1e-12, atol=0),
                        "orders of sample {}".format(i))
        require(space.taylor_orders.shape == (num, 4, NVARS), "shape")
        return {"outcome": "space {}".format(num)}


if __name__ == "__main__":
    main(C20())
