# -*- coding: utf-8 -*-
"""
C26: what each plot command draws, in all orders of commands, compared with
what is to be drawn for the solution and the options by itself
"""
import functools
import itertools
import os
import warnings
from pathlib import Path

import matplotlib
matplotlib.use("Agg")
import matplotlib.figure
import matplotlib.pyplot as plt
import matplotlib.style
import numpy as np
from h5preserve import open as h5open
from scipy.integrate import simpson

from mc.core import Check, main, require, scratch, in_dir
from mc.physics import (
    residuals, electromagnetic, speeds, cross, curl, fields, slopes,
)
from mc.runs import captured_stdout, digest
from mc.util import (
    make_run, make_solution, solution_input, internal_data, config_input,
    initial_conditions, difference, ODEIndex, NVARS,
)

from disc_solver.file_format import registries
from disc_solver.solve.solution import ode_system
from disc_solver.analyse.utils import distinct_color_map
from disc_solver.analyse.plot import plot_main, plot
from disc_solver.analyse.params_plot import params_main
from disc_solver.analyse.derivs_plot import derivs_main
from disc_solver.analyse.taylor_plot import taylor_main
from disc_solver.analyse.combine_plot import combine_main
from disc_solver.analyse.compare_plot import plot_main as compare_main
from disc_solver.analyse.component_plot import plot_main as component_main
from disc_solver.analyse.vert_plot import plot_main as vert_main
from disc_solver.analyse.sonic_ratio_plot import plot_main as sonic_main
from disc_solver.analyse.phys_ratio_plot import plot_main as phys_main
from disc_solver.analyse.v_deriv_cmp import plot_main as v_deriv_main
from disc_solver.analyse.acc_plot import acc_main
from disc_solver.analyse.diverge_plot import diverge_main
from disc_solver.analyse.conserve_plot import conserve_main
from disc_solver.analyse.j_e_plot import j_e_plot_main
from disc_solver.analyse.surface_density_plot import surface_density_main
from disc_solver.analyse.validate_plot import validate_plot_main
from disc_solver.analyse.hydro_check_plot import hydro_check_plot_main
from disc_solver.analyse.compute_jacobian import (
    jacobian_eigenvalues_main, jacobian_eigenvectors_main,
    jacobian_eigenvector_coef_main, jacobian_eigenvector_norm_main,
    compute_jacobian_from_solution,
)

f8 = np.float64
REAL_SAVEFIG = matplotlib.figure.Figure.savefig
O = ODEIndex
DEG = np.degrees
G, AU, M_SUN, KM, YEAR = 6.6742e-8, 1.49597871e13, 2e33, 1e5, 31557600.0
NAMES = ("B_r", "B_φ", "B_θ", "v_r", "v_φ", "v_θ", "ρ")
VERT = ("B_r", "B_φ", "B_z", "v_r", "v_φ", "v_z", "ρ")


# the solutions ---------------------------------------------------------------
@functools.lru_cache(None)
def content(name, number):
    """Solution with a number in the file of that name"""
    tag = number + {"a": 0, "b": 3, "e": 5, "many": 1}[name]
    γ = f8((0.125, 0.001, 0.4, 0.25, 0.01, 0.2, 0.3)[tag % 7])
    inp = solution_input(
        γ=γ, c_s_on_v_k=f8(0.03 + tag / 64), v_a_on_c_s=f8(0.5 + tag / 4),
        use_E_r=name == "e", η_A=f8(0.25 + tag / 8),
        η_derivs=bool(tag % 2),
    )
    n = 12
    angles = np.radians(
        np.array([0, 0.25, 0.5, 2.5, 5, 6, 7.5, 10, 12.5, 15, 20, 30]) +
        tag / 64 * (np.arange(n) > 0)
    )
    x = angles / angles[-1]
    s = np.zeros((n, NVARS))
    s[:, O.B_r] = (0.75 + tag) * x
    s[:, O.B_φ] = -1.5 * x + 0.25 + tag / 8
    s[:, O.B_θ] = 1 - 0.125 * x**2
    s[:, O.v_r] = -1 - tag % 3 / 8 + (0.25 + tag / 4) * x
    s[:, O.v_φ] = 33 - x**2 - tag / 4
    s[:, O.v_θ] = (2 + tag) * x**1.5 - 0.125 * (tag % 2)
    s[:, O.ρ] = np.exp(-x * (2 + tag / 4))
    s[:, O.B_φ_prime] = 0.5 - x * (1 + tag)
    s[:, O.η_O] = 0.5 + x
    s[:, O.η_A] = (0.25 + tag / 32) * s[:, O.η_O]
    s[:, O.η_H] = -0.125 * s[:, O.η_O]
    ic = initial_conditions(tag)
    ic.γ = γ
    ic.norm_kepler_sq = f8(1 / inp.c_s_on_v_k**2)
    ic.init_con = s[0].copy()
    ic.η_O, ic.η_A, ic.η_H = s[0, O.η_O], s[0, O.η_A], s[0, O.η_H]
    ic.a_0 = f8(1.5 + tag / 2)
    internal = None
    if name != "b":
        internal = internal_data(tag, n=8, jac=False)
        t = np.radians(
            np.array([0, 1, 3, 5, 6.5, 7.5, 12, 25]) + tag / 32
        )
        wave = np.sin(np.arange(8 * NVARS).reshape(8, NVARS) * 0.75 + tag)
        p = s[[0, 1, 3, 4, 5, 6, 8, 10]] * (1 + 0.03 * wave)
        lists = [(internal.angles, t), (internal.params, p),
                 (internal.derivs, np.cos(3 * wave + tag))]
        for i, key in enumerate((
            "v_r_normal", "v_φ_normal", "ρ_normal", "v_r_taylor",
            "v_φ_taylor", "ρ_taylor",
        )):
            lists.append((getattr(internal, key), wave[:, i] + 0.01 * i))
        for lst, vals in lists:
            lst[:] = list(vals)
    marked = {} if number == 0 and name != "e" else dict(
        sonic_point=f8(angles[5] + 0.001 * tag), sonic_point_values=s[5] * 1.01,
    )
    if number == 2 or name == "e":
        marked.update(
            t_roots=np.array([0.1, 0.2, 0.31]) + tag / 256,
            y_roots=s[[2, 4, 7]] * 1.02,
        )
    return make_solution(
        tag, n=n, inp=inp, angles=angles, solution=s, initial_conditions=ic,
        internal_data=internal, **marked
    )


COUNT = {"a": 3, "b": 2, "e": 2, "many": 23}


def write_files(path):
    """Write the files"""
    for name, count in COUNT.items():
        with h5open(path / (name + ".hdf5"), registries, mode="x") as f:
            run = make_run(
                config_input=config_input(label="label " + name),
                config_filename=name + ".conf", use_E_r=name == "e",
            )
            f["run"] = run
            for i in range(count):
                run.solutions.add_solution(content(name, i))
            run.final_solution = run.solutions[str(count - 1)]


# what is to be drawn ---------------------------------------------------------
class Axis:
    """What is to be drawn in some axes"""
    def __init__(self, name, lines, scale=None, superset=False, loose=None):
        self.name = name
        self.lines = lines
        self.scale = scale
        self.superset = superset
        self.loose = loose


class Line:
    """A line, perhaps with a label and such to be drawn with"""
    def __init__(self, x, y, label=None, tol=None, either=False, **style):
        self.x = np.atleast_1d(x)
        self.y = None if y is None else np.atleast_1d(y)
        self.label = label
        self.tol = tol
        self.either = either
        self.style = style


def within(angles, o):
    """Which angles are to be shown"""
    d = DEG(angles)
    return (d >= o.get("start", 0)) & (d <= o.get("stop", 90))


def split(x, y, label=None, **style):
    """Positive and negative values apart"""
    return [
        Line(x[y >= 0], y[y >= 0], label, **style),
        Line(x[~(y >= 0)], -y[~(y >= 0)], label, **style),
    ]


def last(E_r):
    """Name of the last variable"""
    return "E_r" if E_r else "B_φ'"


def m_plot(s, o):
    """ds-plot"""
    i = within(s.angles, o)
    x = DEG(s.angles[i])
    p = s.solution
    kepler = np.sqrt(s.initial_conditions.norm_kepler_sq)
    waves = dict(zip(("slow", "alfven", "fast"), speeds(p)))
    waves["sonic"] = np.ones(len(p))
    out = []
    for k, name in enumerate(NAMES + (last(s.solution_input.use_E_r),)):
        off = kepler if name == "v_φ" else 0
        lines = [Line(x, p[i, k] - off, linestyle=o.get("linestyle", "-"))]
        if name == "v_θ":
            lines += [
                Line(x, waves[w][i], tol=1e-7)
                for w in ("slow", "alfven", "fast", "sonic")
                if o.get("with_" + w)
            ]
        if s.sonic_point is not None and not o.get("hide_sonic_angle"):
            lines.append(Line(
                DEG(s.sonic_point), s.sonic_point_values[k] - off, marker="."
            ))
        if s.t_roots is not None and not o.get("hide_roots"):
            lines.append(Line(
                DEG(s.t_roots), s.y_roots[:, k] - off, marker="."
            ))
        scale = {"ρ": "log", "v_θ": o.get("v_θ", "linear")}.get(name, "linear")
        out.append(Axis(name, lines, scale=scale))
    return out


def m_compare(pairs, o):
    """ds-compare-plot"""
    out = []
    E_r = pairs[0][1].solution_input.use_E_r
    for k, name in enumerate(NAMES + (last(E_r),)):
        lines = []
        for label, s in pairs:
            i = within(s.angles, o)
            off = np.sqrt(s.initial_conditions.norm_kepler_sq) if (
                name == "v_φ"
            ) else 0
            lines.append(Line(
                DEG(s.angles[i]), s.solution[i, k] - off, label,
                linestyle=o.get("linestyle", "-"),
            ))
        scale = {"ρ": "log", "v_θ": o.get("v_θ", "linear")}.get(name, "linear")
        out.append(Axis(name, lines, scale=scale))
    return out


def internal(s):
    """Angles, states and derivatives of the internal data"""
    d = s.internal_data
    return np.array(d.angles), np.array(d.params), np.array(d.derivs)


def m_params(s, o):
    """ds-params-plot"""
    θ, p, _ = internal(s)
    i = within(θ, o)
    return [
        Axis(name, split(DEG(θ[i]), p[i, k], linestyle=o.get("linestyle")),
             scale="log")
        for k, name in enumerate(NAMES + ("B_φ'",))
    ]


def m_derivs(s, o):
    """ds-derivs-plot"""
    θ, _, d = internal(s)
    i = within(θ, o)
    out = []
    for k, name in enumerate(NAMES + (last(s.solution_input.use_E_r),)):
        if o.get("nolog"):
            out.append(Axis(name, [Line(DEG(θ[i]), d[i, k])]))
        else:
            out.append(Axis(name, split(DEG(θ[i]), d[i, k]), scale="log"))
    return out


def m_taylor(s, o):
    """ds-taylor-plot"""
    θ, _, _ = internal(s)
    data = s.internal_data
    out = []
    for name in ("v_r", "v_φ", "ρ"):
        a = np.array(getattr(data, name + "_normal"))
        b = np.array(getattr(data, name + "_taylor"))
        if o.get("show_values"):
            lines = split(DEG(θ), a) + split(DEG(θ), b)
        else:
            lines = [Line(DEG(θ), np.abs(a / b))]
        out.append(Axis(name, lines, scale="log", superset=True))
    return out


def norms(s):
    """Units of velocity and field"""
    v = s.solution_input.c_s_on_v_k * np.sqrt(G * M_SUN / AU)
    return v, s.solution_input.v_a_on_c_s * v * 2 * np.sqrt(np.pi * 1.5e-9)


def m_combine(s, o):
    """ds-combine-plot"""
    i = within(s.angles, o)
    x = DEG(s.angles[i])
    p = s.solution[i]
    v, b = norms(s)
    kepler = np.sqrt(s.initial_conditions.norm_kepler_sq)
    waves = dict(zip(("slow", "alfven", "fast"), speeds(p)))
    waves["sonic"] = np.ones(len(p))
    vel = [
        Line(x, p[:, O.v_r] * v / KM, "v_r"),
        Line(x, (p[:, O.v_φ] - kepler) * v / KM, "v_φ", tol=1e-9),
        Line(x, p[:, O.v_θ] * v / KM, "v_θ"),
    ] + [
        Line(x, waves[w] * v / KM, "c_s" if w == "sonic" else w, tol=1e-7)
        for w in ("slow", "alfven", "fast", "sonic") if o.get("with_" + w)
    ]
    return [
        Axis("elocity", vel),
        Axis("ensity", [Line(x, p[:, O.ρ] * 1.5e-9, "ρ")], scale="log"),
        Axis("Field (G)", [
            Line(x, p[:, k] * b, k.name) for k in (O.B_r, O.B_φ, O.B_θ)
        ]),
    ]


def m_component(s, o):
    """ds-component-plot"""
    i = within(s.angles, o)
    θ = s.angles[i]
    p = s.solution[i]
    γ, a_0 = s.initial_conditions.γ, s.initial_conditions.a_0
    kepler = s.initial_conditions.norm_kepler_sq
    d = np.zeros(p.shape)
    d[:, O.B_φ] = p[:, O.B_φ_prime]

    def solve(name, index):
        zero = residuals(p, d, θ, γ, a_0, kepler)[0][name]
        d[:, index] = 1
        slope = residuals(p, d, θ, γ, a_0, kepler)[0][name] - zero
        d[:, index] = -zero / slope
        return d[:, index]
    t = np.tan(θ)
    v = p[:, O.v_θ]
    all_ = {"polar induction": solve("polar_induction", O.B_r)}
    all_["solenoid"] = solve("solenoid", O.B_θ)
    res = residuals(p, d, θ, γ, a_0, kepler)[0]
    all_["radial momentum"] = -res["radial_momentum"]
    all_["azimuthal momentum"] = -res["azimuthal_momentum"]
    b, vel, ρ, _ = fields(p)
    force = a_0 / ρ * cross(curl(b, d[:, O.B_r], d[:, O.B_φ], θ, γ), b)
    q = (
        -vel[0] * v / 2 + 2 * γ * v * vel[0] - v**2 * t - t * vel[1]**2 +
        force[2]
    ) / (1 - v**2)
    all_["continuity"] = v * q
    all_["polar momentum"] = (1 - v**2) * (-2 * γ * vel[0] - v * q + v * t)
    x = DEG(θ)
    return [
        Axis(name, [Line(x, y, "all terms", tol=1e-8)], loose="sum")
        for name, y in all_.items() if o.get("only") in (None, name)
    ]


def upright(s):
    """Heights and states at constant cylindrical radius"""
    θ, p, γ = s.angles, s.solution, s.solution_input.γ
    r = 1 / np.cos(θ)
    out = p.copy()
    for ks, power in (
        ((O.v_r, O.v_φ, O.v_θ), -0.5), ((O.ρ,), 2 * γ - 1.5),
        ((O.B_r, O.B_φ, O.B_θ, O.B_φ_prime), γ - 1.25),
    ):
        for k in ks:
            out[:, k] = p[:, k] * r**power
    for r_, θ_ in ((O.v_r, O.v_θ), (O.B_r, O.B_θ)):
        a, b = out[:, r_].copy(), out[:, θ_].copy()
        out[:, r_] = a * np.cos(θ) - b * np.sin(θ)
        out[:, θ_] = a * np.sin(θ) + b * np.cos(θ)
    return np.tan(θ) / s.solution_input.c_s_on_v_k, out, r


def m_vert(s, o):
    """ds-vert-plot"""
    z, p, r = upright(s)
    i = (z >= o.get("start", 0)) & (z <= o.get("stop", 90))
    out = []
    kepler = np.sqrt(s.initial_conditions.norm_kepler_sq / r)
    for k, name in enumerate(VERT + ("B_φ'",)):
        off = kepler if name == "v_φ" else 0
        lines = [Line(z[i], (p[:, k] - off)[i], tol=1e-9)]
        if name == "v_z" and o.get("with_sonic"):
            lines.append(Line(z[i], np.ones(i.sum())))
        out.append(Axis(name, lines, scale="log" if name == "ρ" else "linear"))
    return out


def m_sonic(pairs, o):
    """ds-sonic-ratio-plot"""
    out = []
    for name, k in (("v_a", 1), ("v_f", 2)):
        lines = []
        for label, s in pairs:
            i = within(s.angles, o)
            ratio = np.abs(s.solution[:, O.v_θ]) / speeds(s.solution)[k]
            lines.append(Line(DEG(s.angles[i]), ratio[i], label, tol=1e-9))
        out.append(Axis(name, lines))
    return out


def m_phys(pairs, o):
    """ds-phys-ratio-plot"""
    sigma, flow = [], []
    for label, s in pairs:
        i = within(s.angles, o)
        p, θ, γ = s.solution[i], s.angles[i], s.initial_conditions.γ
        x = s.initial_conditions.η_A / s.solution_input.c_s_on_v_k
        sigma.append(Line(
            x, s.initial_conditions.a_0 / p[:, O.ρ].sum(), label
        ))
        leaving = (100**(2 * γ) - 0.1**(2 * γ)) / (2 * γ) * (
            p[-1, O.ρ] * p[-1, O.v_θ]
        )
        coming = -simpson(y=p[:, O.ρ] * p[:, O.v_r], x=θ) * (
            0.1**(2 * γ - 1) - 100**(2 * γ - 1)
        )
        flow.append(Line(x, leaving / coming, label, tol=1e-9))
    return [Axis("B_z^2", sigma), Axis("dot{M}", flow, scale="log")]


def m_v_deriv(pairs, o):
    """ds-v-deriv-plot"""
    lines = []
    for label, s in pairs:
        θ, _, d = internal(s)
        i = within(θ, o)
        lines.append(Line(DEG(θ[i]), d[i, O.v_θ], label,
                          linestyle=o.get("linestyle", "-")))
    return [Axis("v_θ'", lines)]


def m_acc(s, o):
    """ds-acc-plot, of the first degree"""
    v, b = norms(s)
    i = DEG(s.angles) < 1
    x, p = DEG(s.angles[i]), s.solution[i]
    return [
        Axis("", [Line(x, p[:, O.B_θ] * p[:, O.B_φ] * b**2 * (
            AU**2 / (30 * KM) / (M_SUN / YEAR)
        ))]),
        Axis("", [Line(x, p[:, O.v_θ] * v * p[:, O.ρ] * 1.5e-9 * (
            np.pi * AU**2 / (M_SUN / YEAR)
        ))]),
    ]


def m_diverge(pairs, o):
    """ds-diverge-plot"""
    lines = []
    for label, s in pairs:
        i = within(s.angles, o)
        x = DEG(s.angles[i])
        lines.append(Line(x, s.solution[i, O.v_θ], label,
                          linestyle=o.get("linestyle", "-")))
        waves = dict(zip(("slow", "alfven", "fast"), speeds(s.solution)))
        lines += [
            Line(x, waves[w][i], w, tol=1e-7)
            for w in waves if o.get("with_" + w)
        ]
    return [Axis("v_θ", lines)]


def m_conserve(pairs, o):
    """ds-conserve-plot"""
    lines = []
    for label, s in pairs:
        i = within(s.angles, o)
        lines.append(Line(
            DEG(s.angles[i]), s.solution[i, O.ρ] * s.solution[i, O.v_θ],
            label, linestyle=o.get("linestyle", "-"),
        ))
    return [Axis("ρ v_θ", lines)]


def m_j_e(s, o):
    """ds-j-e-plot"""
    i = within(s.angles, o)
    θ, p = s.angles[i], s.solution[i]
    γ = s.initial_conditions.γ
    d = np.zeros(p.shape)
    d[:, O.B_φ] = p[:, O.B_φ_prime]
    zero = residuals(p, d, θ, γ, 1.0, 1.0)[0]["E_φ"]
    d[:, O.B_r] = 1
    slope = residuals(p, d, θ, γ, 1.0, 1.0)[0]["E_φ"] - zero
    d[:, O.B_r] = -zero / slope
    j, e, _ = electromagnetic(p, d, θ, γ)
    size = 1e-11 * (np.abs(j).sum(axis=0) + np.abs(p[:, :6]).sum(axis=1)**2)
    out = []
    for name, vec in (("J", j), ("E", e)):
        for comp, y in zip("rφθ", vec):
            out.append(Axis(
                "$%s_%s$" % (name, comp),
                [Line(DEG(θ), y, tol=size, linestyle=o.get("linestyle", "-"))]
            ))
    return out


def m_surface(s, o):
    """ds-surface-density-plot"""
    i = within(s.angles, o)
    return [Axis("σ", [Line(
        DEG(s.angles[i]), np.cumsum(s.solution[:, O.ρ])[i]
    )])]


def m_validate(s, o):
    """ds-validate-plot"""
    θ, p, d = internal(s)
    i = within(θ, o)
    ic = s.initial_conditions
    left, size = residuals(p, d, θ, ic.γ, ic.a_0, ic.norm_kepler_sq)
    j, e, dash = electromagnetic(p, d, θ, ic.γ)
    x = DEG(θ[i])
    style = {"linestyle": o.get("linestyle", "-")}
    tol = 1e-11 * (
        np.abs(j).sum(axis=0) + np.abs(p[:, :6]).sum(axis=1)**2
    )[i]

    def lines(name, vec, which="rφθ"):
        return [
            Line(x, vec["rφθ".index(c)][i], name.format(c), tol=tol, **style)
            for c in which
        ]
    return [
        Axis(0, [
            Line(x, y[i], name.replace("_m", " m").replace("_i", " i"),
                 tol=1e-12 * size[name][i], either=True, **style)
            for name, y in left.items()
        ]),
        Axis(1, lines("$E_{}$", e, "rθ")),
        Axis(2, lines("$E_{}'$", dash)),
        Axis(3, lines("$J_{}$", j)),
    ]


def m_hydro(s, o):
    """ds-hydro-check-plot, of slow flows and no variation of the inflow"""
    θ, p, d = internal(s)
    i = within(θ, o)
    ic = s.initial_conditions
    b, v, a = p[:, :3], p[:, 3:6], ic.a_0 / p[:, O.ρ]
    style = {"linestyle": o.get("linestyle")}
    still = p.copy()
    still[:, O.v_θ] = 0
    left, size = residuals(still, d, θ, ic.γ, ic.a_0, ic.norm_kepler_sq)
    lines = [
        Line(DEG(θ[i]), left["azimuthal_momentum"][i], "azimuthal",
             tol=1e-12 * size["azimuthal_momentum"][i], either=True, **style),
        Line(DEG(θ[i]), (1 - 2 * a * b[:, 2] * d[:, O.B_φ] / (
            v[:, 0] * v[:, 1]
        ))[i], "approximate", tol=1e-9, either=True, **style),
    ]
    # the slope of the radial field without any electric field around the axis
    q = d.copy()
    q[:, O.B_r] = 0
    zero = residuals(still, q, θ, 0, 1.0, 1.0)[0]["E_φ"]
    q[:, O.B_r] = 1
    slope = residuals(still, q, θ, 0, 1.0, 1.0)[0]["E_φ"] - zero
    kepler = np.sqrt(ic.norm_kepler_sq)
    slower = v[:, 0]**2 / 2 + 2.5 + a * (
        b[:, 2] * -zero / slope + (b[:, 1]**2 + b[:, 2]**2) / 4
    )
    lines.append(Line(
        DEG(θ[i]), (kepler - v[:, 1] - slower / 2 / kepler)[i], "radial",
        tol=1e-9, either=True, **style
    ))
    return [Axis("", lines)]


def jacobians(s, eps):
    """Derivatives of the system, and its eigenvalues"""
    ic = s.initial_conditions
    rhs, _ = ode_system(
        γ=ic.γ, a_0=ic.a_0, norm_kepler_sq=ic.norm_kepler_sq,
        init_con=ic.init_con, θ_scale=f8(1), with_taylor=False,
        η_derivs=s.solution_input.η_derivs, store_internal=False,
        use_E_r=s.solution_input.use_E_r, v_θ_sonic_crit=None,
        after_sonic=None, deriv_v_θ_func=None, derivs_post_solution=True,
    )
    out = []
    for θ, p in zip(s.angles, s.solution):
        jac = np.zeros((NVARS, NVARS))
        for k in range(NVARS):
            d = [np.zeros((1, NVARS)), np.zeros((1, NVARS))]
            for side, res in zip((1, -1), d):
                q = p.copy()
                q[k] += side * eps
                rhs(np.array([θ]), np.array([q]), res)
            jac[:, k] = (d[0] - d[1])[0] / (2 * eps)
        out.append(jac)
    return out


def m_eigenvalues(s, o):
    """ds-jacobian-eigenvalue-plot"""
    out = []
    for θ, jac in zip(s.angles, jacobians(s, o.get("eps", 1e-10))):
        if not within(θ, o):
            continue
        bad = not np.isfinite(jac).all()
        for val in [np.nan] * NVARS if bad else np.linalg.eigvals(jac):
            out.append((DEG(θ), val))
    return out


# the commands: main, options, files to be used with, model -------------------
def edges(s, inner=False):
    """Angles of a solution to be used as limits"""
    θ = internal(s)[0] if inner else s.angles
    return float(DEG(θ[2])), float(DEG(θ[5]))


WAVES = ("slow", "alfven", "fast", "sonic")
LIMITS = ({}, "start", "stop", "both")
SINGLE = {
    "plot": (plot_main, m_plot, ("a", "b", "e"), [
        {"with_" + w: True} for w in WAVES
    ] + [
        {"with_" + w: True for w in WAVES}, {"v_θ": "log"},
        {"portrait": True}, {"hide_roots": True}, {"hide_sonic_angle": True},
        {"linestyle": "--"}, {"title": "my title"},
        {"no_show_version": True}, {"figsize": (5.0, 4.0)},
        {"style": "classic"},
    ]),
    "params": (params_main, m_params, ("a",), []),
    "derivs": (derivs_main, m_derivs, ("a", "e"), [{"nolog": True}]),
    "taylor": (taylor_main, m_taylor, ("a",), [{"show_values": True}]),
    "combine": (combine_main, m_combine, ("a", "b"), [
        {"with_" + w: True} for w in WAVES
    ]),
    "component": (component_main, m_component, ("a", "b"), [
        {"only": n} for n in (
            "radial momentum", "azimuthal momentum", "polar momentum",
            "continuity", "polar induction",
        )
    ]),
    "vert": (vert_main, m_vert, ("a", "b"), [{"with_sonic": True}]),
    "acc": (acc_main, m_acc, ("a", "b"), []),
    "j_e": (j_e_plot_main, m_j_e, ("a", "b"), [{"linestyle": ":"}]),
    "surface": (surface_density_main, m_surface, ("a", "b", "e"), []),
    "validate": (validate_plot_main, m_validate, ("a",), [
        {"linestyle": "-."}
    ]),
    "hydro": (hydro_check_plot_main, m_hydro, ("a",), []),
    "eigenvalues": (jacobian_eigenvalues_main, m_eigenvalues, ("a", "b"), [
        {"eps": 1e-6}
    ]),
    "eigenvectors": (jacobian_eigenvectors_main, None, ("a",), []),
    "coef": (jacobian_eigenvector_coef_main, None, ("a",), [
        {"global_eigvecs": True}, {"critical_point": "alfven"},
        {"critical_point": "slow", "local_eigvecs": True},
        {"critical_point": "fast", "eps": 1e-7},
    ]),
    "norm": (jacobian_eigenvector_norm_main, None, ("a",), []),
}
PAIRS = {
    "compare": (compare_main, m_compare, ("a", "b", "e", "many"), [
        {"v_θ": "log"}, {"linestyle": "--"}, {"title": "my title"},
        {"figsize": (5.0, 4.0)},
    ]),
    "sonic ratio": (sonic_main, m_sonic, ("a", "b", "e", "many"), []),
    "phys ratio": (phys_main, m_phys, ("a", "b", "many"), []),
    "v_deriv": (v_deriv_main, m_v_deriv, ("a", "e", "many"), [{"linestyle": ":"}]),
}
ALL = {
    "diverge": (diverge_main, m_diverge, ("a", "b", "e", "many"), [
        {"with_" + w: True} for w in WAVES[:3]
    ] + [
        {"solutions": "1"}, {"solutions": "0-1"}, {"solutions": "1, 0"},
        {"solutions": "3,9-11,20"}, {"solutions": "0-21"},
        {"linestyle": ":"}, {"hide_legend": True}, {"title": "my title"},
    ]),
    "conserve": (conserve_main, m_conserve, ("a", "b", "many"), [
        {"linestyle": "--"}, {"title": "my title"},
    ]),
}
INNER = ("params", "derivs", "validate", "hydro", "v_deriv", "taylor")
SELECTED = {
    "a": ("0", "1", "2", "final"), "b": ("0", "final"), "e": ("0", "1"),
}
PAIR_LISTS = {
    "a": (("a", "0"), ("a", "2")), "b": (("b", "1"), ("a", "0")),
    "e": (("e", "0"), ("e", "final")),
    "many": tuple(("many", str(i)) for i in range(21)) + (
        ("a", "0"), ("many", "final"),
    ),
}


# which solutions are meant
SOME = {
    "1": [1], "0-1": [0, 1], "1, 0": [1, 0], "3,9-11,20": [3, 9, 10, 11, 20],
    "0-21": range(22),
}


def limits(command, name, which, first):
    """Options of the limits"""
    if not which:
        return {}
    lo, hi = edges(first, command in INNER)
    if command == "vert":
        z = upright(first)[0]
        lo, hi = float(z[2]), float(z[5])
    return {
        k: v for k, v in (("start", lo), ("stop", hi))
        if which in (k, "both")
    }


def variants(tier):
    """All commands with options"""
    for kind, table in (("single", SINGLE), ("pairs", PAIRS), ("all", ALL)):
        for command, (_, _, files, options) in table.items():
            for name in files:
                sel = SELECTED[name] if kind == "single" else ("",)
                for which in sel:
                    for opts in [{}] + options:
                        for limit in LIMITS:
                            if tier != "thorough" and opts and limit and (
                                limit != "both" or which not in ("", "1")
                            ):
                                continue
                            if max(SOME.get(
                                opts.get("solutions"), [0]
                            )) >= COUNT[name]:
                                continue
                            yield [kind, command, name, which, opts, limit]


def representative(command, opts, which, limit):
    """Whether a variant goes into the pairs"""
    return which in ("2", "", "1") and limit in ({}, "both") and (
        not opts or command in ("plot", "diverge")
    ) and not (limit and opts)


def close(a, b, tol):
    """Compare arrays"""
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    scale = np.abs(b[np.isfinite(b)]).max() if np.isfinite(b).any() else 0
    tol = 1e-12 * scale if tol is None else tol
    if np.ndim(tol) == 0 and tol in (1e-7, 1e-8, 1e-9):
        tol = tol * scale
    with np.errstate(invalid="ignore"):
        good = np.abs(a - b) <= tol + 1e-13 * np.abs(b)
    return bool(np.all(good | (np.isnan(a) & np.isnan(b)) | (a == b)))


def order(points):
    """Sort by angle, and then by value with NaN at the end"""
    return sorted(points, key=lambda p: (p[0], np.isnan(p[1]), p[1]))


class Drawn:
    """What a figure showed when it was saved"""
    def __init__(self, fig):
        self.size = tuple(fig.get_size_inches())
        self.title = fig._suptitle.get_text() if fig._suptitle else None
        self.version = fig._supxlabel.get_text() if fig._supxlabel else None
        self.axes = []
        self.grid = None
        for ax in fig.axes:
            if not ax.axison:
                legend = ax.get_legend()
                self.legend = [t.get_text() for t in legend.get_texts()]
                continue
            spec = ax.get_subplotspec()
            self.grid = spec.get_gridspec().get_geometry()
            legend = ax.get_legend()
            self.axes.append({
                "label": ax.get_ylabel() + " " + ax.get_title(),
                "scale": ax.get_yscale(),
                "legend": legend and [t.get_text() for t in legend.get_texts()],
                "face": matplotlib.colors.to_hex(ax.get_facecolor()),
                "lines": [{
                    "label": l.get_label(), "x": np.array(l.get_xdata()),
                    "y": np.array(l.get_ydata()),
                    "linestyle": l.get_linestyle(), "marker": l.get_marker(),
                    "color": matplotlib.colors.to_hex(l.get_color()),
                } for l in ax.get_lines()],
            })


class C26(Check):
    id = "C26"
    level = "exploration"
    rule = (
        "A case is a sequence of plot commands with their options, so that "
        "each ordered pair of representative ones follows each other, and "
        "every command with each option and range alone; the data drawn is "
        "compared with what the options ask for of the solution."
    )
    assumptions = (
        "colours, fonts and wording are not looked at",
        "of the plot of eigenvectors only the range is looked at",
    )
    chunk = 1
    folder = None

    def setup(self, tier):
        self.all = list(variants(tier))

    def cases(self, tier):
        # those next to each other take about as long
        n = len(self.all)
        step = -(-n // 8)
        for start in range(step):
            yield ["each", list(range(start, n, step))]
        chosen = [
            i for i, (_, command, _, which, opts, limit) in enumerate(self.all)
            if representative(command, opts, which, limit)
        ]
        # one of each kind of command and one more of ds-plot
        seen, few = {}, []
        for i in chosen:
            kind, command, name, which, opts, limit = self.all[i]
            count = seen.get(command, 0)
            if count < (3 if tier == "thorough" else 1) or (
                command == "plot" and (name, which) == ("a", "2") and (
                    "with_slow" in opts or limit
                )
            ):
                few.append(i)
                seen[command] = count + 1
        walk = tour(few)
        step = 25
        for start in range(0, len(walk) - 1, step):
            yield ["after each other", walk[start:start + step + 1]]
        yield ["colours"]
        yield ["output"]

    def evaluate(self, case):
        if case[0] == "colours":
            return self.colours()
        if case[0] == "output":
            return self.output()
        seen = []
        with scratch() as folder, in_dir(folder):
            write_files(folder)
            before = {n: digest(n + ".hdf5") for n in COUNT}
            solns = [
                (name, i, content(name, i))
                for name, count in COUNT.items() for i in range(count)
            ]
            for i in case[1]:
                self.one(*self.all[i])
                seen.append(i)
            for name, val in before.items():
                require(digest(name + ".hdf5") == val, "a file was changed")
            left = [p.name for p in folder.iterdir()]
            require(sorted(left) == sorted(
                [n + ".hdf5" for n in COUNT]
            ), "left files: {}".format(left))
        require(not plt.get_fignums(), "figures are left open")
        return {
            "outcome": case[0], "transitions": len(seen),
            "traces": len(seen),
        }

    def one(self, kind, command, name, which, opts, limit):
        """Run a command, and look at what is drawn"""
        main_, model, _, _ = {
            "single": SINGLE, "pairs": PAIRS, "all": ALL
        }[kind][command]
        if kind == "single":
            number = COUNT[name] - 1 if which == "final" else int(which)
            target = content(name, number)
            args = [name + ".hdf5", which]
            first = target
            title = "{}.hdf5:{}".format(name, which)
        elif kind == "pairs":
            args, target = [], []
            for file, sel in PAIR_LISTS[name]:
                number = COUNT[file] - 1 if sel == "final" else int(sel)
                if command in INNER and file == "b":
                    continue
                args += ["-r", file + ".hdf5", sel]
                target.append(
                    ("{}.hdf5:{}".format(file, sel), content(file, number))
                )
            first = target[0][1]
            title = None
        else:
            args = [name + ".hdf5"]
            numbers = range(COUNT[name])
            if opts.get("solutions"):
                numbers = SOME[opts["solutions"]]
            target = [(str(i), content(name, i)) for i in numbers]
            first = target[0][1]
            title = name + ".hdf5"
        o = dict(opts, **limits(command, name, limit, first))
        for key, val in o.items():
            args += ["--" + key.replace("_", "-") if key != "v_θ" else "--v_θ"]
            if isinstance(val, tuple):
                args += [str(v) for v in val]
            elif val is not True:
                args[-1] += "=" + (val if isinstance(val, str) else repr(val))
        what = "{} {}".format(command, " ".join(args))
        drawn = self.draw(main_, args, what)
        if "title" in o:
            require(drawn.title == o["title"], what + ": title")
        elif title is not None:
            require(title in (drawn.title or ""), lambda: (
                "{}: title {!r}".format(what, drawn.title)
            ))
        require(bool(drawn.version) is not bool(o.get("no_show_version")),
                what + ": version")
        if "figsize" in o:
            require(drawn.size == o["figsize"], what + ": size")
        if command == "plot":
            require(drawn.grid == ((4, 2) if o.get("portrait") else (2, 4)),
                    what + ": layout {}".format(drawn.grid))
        if command not in ("phys ratio", "eigenvectors"):
            with matplotlib.style.context(o.get("style", "bmh")):
                face = matplotlib.colors.to_hex(
                    matplotlib.rcParams["axes.facecolor"]
                )
            require(all(ax["face"] == face for ax in drawn.axes),
                    what + ": style")
        if command == "diverge":
            require(bool(drawn.axes[0]["legend"]) is
                    not bool(o.get("hide_legend")), what + ": legend")
        if command == "eigenvalues":
            self.eigenvalues(drawn, model(target, o), what)
        elif model is None:
            self.eigenvectors(drawn, command, target, o, what)
        else:
            self.compare(drawn, model(target, o), what)
        if kind != "single":
            self.distinct(drawn, target, command, what)

    def draw(self, main_, args, what):
        """Run a command which saves a plot, once"""
        saved = []

        def savefig(fig, *args_, **kwargs):
            saved.append((args_, Drawn(fig)))
        matplotlib.figure.Figure.savefig = savefig
        old = dict(matplotlib.rcParams)
        try:
            with captured_stdout():
                main_(args + ["--filename", "out.png"])
        finally:
            matplotlib.figure.Figure.savefig = REAL_SAVEFIG
        require(len(saved) == 1, what + ": saved {} times".format(len(saved)))
        require(str(saved[0][0][0]) == "out.png", what + ": another file")
        require(not plt.get_fignums(), what + ": the figure is left open")
        changed = [
            k for k, v in matplotlib.rcParams.items()
            if old.get(k) != v and k != "backend"
        ]
        require(not changed, "{}: settings {} are left changed".format(
            what, changed
        ))
        return saved[0][1]

    @staticmethod
    def compare(drawn, model, what):
        """Compare what is drawn with what is to be drawn"""
        require(len(drawn.axes) >= len(model), what + ": axes are missing")
        left = list(drawn.axes)
        for axis in model:
            at = [a for a in left if (
                axis.name in a["label"] if isinstance(axis.name, str)
                else a is drawn.axes[axis.name]
            )]
            require(at, lambda: "{}: no axes for {}, only {}".format(
                what, axis.name, [a["label"] for a in drawn.axes]
            ))
            have = at[0]
            left.remove(have)
            if axis.scale:
                require(have["scale"] == axis.scale, lambda: (
                    "{}: scale of {} is {}".format(
                        what, axis.name, have["scale"])))
            lines = list(have["lines"])
            if axis.loose == "sum":
                total = sum(
                    l["y"] for l in lines if l["label"] != "all terms"
                )
                want = axis.lines[0]
                both = [l for l in lines if l["label"] == "all terms"]
                require(len(both) == 1 and len(lines) > 1,
                        what + ": terms of " + axis.name)
                size = sum(np.abs(l["y"]) for l in lines)
                for y, sort in ((total, "the sum of the terms"),
                                (both[0]["y"], "all terms")):
                    require(close(both[0]["x"], want.x, None) and close(
                        y, want.y, 1e-8 * size
                    ), lambda: "{}: {} of {}:\n{}\ninstead of\n{}".format(
                        what, sort, axis.name, y, want.y))
                continue
            for want in axis.lines:
                found = None
                for line in lines:
                    if want.label is not None and (
                        want.label not in line["label"]
                    ):
                        continue
                    if not close(line["x"], want.x, None):
                        continue
                    if want.y is not None and not close(
                        line["y"], want.y, want.tol
                    ) and not (
                        want.either and close(-line["y"], want.y, want.tol)
                    ):
                        continue
                    if any(
                        line[k] != v for k, v in want.style.items()
                        if v is not None
                    ):
                        continue
                    found = line
                    break
                require(found is not None, lambda: (
                    "{}: in {} there is no line {}\n{}\n{}\nonly {}".format(
                        what, axis.name, want.label, want.x, want.y,
                        [(l["label"], l["x"], l["y"], l["linestyle"],
                          l["marker"]) for l in lines]
                    )
                ))
                # not by ==, these hold arrays
                lines = [l for l in lines if l is not found]
            require(not lines, lambda: "{}: more is drawn in {}: {}".format(
                what, axis.name, [(l["label"], l["x"], l["y"]) for l in lines]
            ))

    @staticmethod
    def eigenvalues(drawn, want, what):
        """Compare the real and imaginary parts"""
        have = {"real": [], "imag": []}
        for line in drawn.axes[0]["lines"]:
            sign = {"^": 1, "v": -1, "2": 1, "1": -1}[line["marker"]]
            part = "real" if line["marker"] in "^v" else "imag"
            have[part] += list(zip(line["x"], sign * line["y"]))
        for part in have:
            vals = order((x, getattr(v, part)) for x, v in want)
            got = order(have[part])
            require(len(vals) == len(got), lambda: (
                "{}: {} eigenvalues instead of {}".format(
                    what, len(got), len(vals)
                )
            ))
            size = max(
                1.0, *[abs(v) for _, v in vals if np.isfinite(v)], 1.0
            )
            for (x, y), (a, b) in zip(vals, got):
                require(abs(x - a) < 1e-9 and close(b, y, 1e-4 * size),
                        lambda: "{}: {} at {} instead of {} at {}".format(
                            what, b, a, y, x))

    @staticmethod
    def eigenvectors(drawn, command, s, o, what):
        """The range shown, and the point marked"""
        x = DEG(s.angles[within(s.angles, o)])
        jacs = compute_jacobian_from_solution(s, eps=o.get("eps", 1e-10))
        finite = np.isfinite(jacs).all(axis=(1, 2))
        if command == "norm":
            for line in drawn.axes[0]["lines"]:
                require(close(line["x"], x, None), what + ": angles")
                y = np.real(line["y"])
                bad = ~finite[within(s.angles, o)]
                require(np.array_equal(np.isnan(y), bad) and np.allclose(
                    y[~bad], 1
                ), what + ": norms")
            return
        if command == "eigenvectors":
            for ax in drawn.axes[:NVARS]:
                points = [v for l in ax["lines"] for v in l["x"]]
                require(len(points) == len(x) * 2 * (NVARS + 1) and
                        set(np.round(points, 9)) == set(np.round(x, 9)),
                        what + ": angles")
            return
        p = s.solution
        v = np.abs(p[:, O.v_θ])
        which = o.get("critical_point", "sonic")
        wave = dict(zip(("slow", "alfven", "fast"), speeds(p)))
        # the sign counts for the sonic point
        mach = p[:, O.v_θ] if which == "sonic" else v / wave[which]
        known = np.flatnonzero(~np.isnan(mach))
        side = np.sign(mach[known[0]] - 1)
        there = [i for i in known if np.sign(mach[i] - 1) != side or not side]
        at = int(there[0]) if there else len(mach) - 1
        lines = drawn.axes[0]["lines"]
        marks = [l for l in lines if "point" in l["label"]]
        require(len(marks) == 1 and np.allclose(
            marks[0]["x"], DEG(s.angles[at])
        ), lambda: "{}: the point marked is at {} instead of {}".format(
            what, [m["x"] for m in marks], DEG(s.angles[at])
        ))
        require(which in marks[0]["label"].lower(), what + ": name of point")
        curves = [l for l in lines if "point" not in l["label"]]
        require(len(curves) == NVARS, what + ": curves")
        shift = p - p[at]
        want = np.full(p.shape, np.nan)
        for i in range(len(p)):
            k = at if o.get("global_eigvecs") else i
            if finite[k]:
                want[i] = np.linalg.solve(
                    np.linalg.eig(jacs[k])[1], shift[i]
                ).real
        seen = np.array([l["y"].real for l in curves]).T
        for line in curves:
            require(close(line["x"], x, None), what + ": angles")
        # eigenvectors come in any order and with any sign
        chosen = np.sort(np.abs(want[within(s.angles, o)]), axis=1)
        seen = np.sort(np.abs(seen), axis=1)
        size = np.nanmax(np.abs(chosen), axis=1, keepdims=True)
        require(seen.shape == chosen.shape and np.all(
            (np.abs(seen - chosen) <= 1e-6 * size) |
            (np.isnan(seen) & np.isnan(chosen))
        ), lambda: "{}: coefficients\n{}\ninstead of\n{}".format(
            what, seen, chosen
        ))

    @staticmethod
    def distinct(drawn, target, command, what):
        """Solutions can be told apart"""
        if command == "phys ratio":
            # the same inflow has the same colour, the same field the same
            # marker
            for ax in drawn.axes:
                looks = {line["label"]: line for line in ax["lines"]}
                for look, value, number in (
                    ("color", lambda s: s.solution[0, O.v_r], 10),
                    ("marker", lambda s: s.initial_conditions.a_0, 22),
                ):
                    pairs = {
                        (looks[label][look], float(value(s)))
                        for label, s in target
                    }
                    values = {p[1] for p in pairs}
                    require(
                        len(pairs) == len(values) and len(
                            {p[0] for p in pairs}
                        ) >= min(number, len(values)),
                        lambda: "{}: {} of {}".format(what, look, pairs)
                    )
            return
        for ax in drawn.axes:
            colours = {}
            for line in ax["lines"]:
                if line["label"] in [label for label, _ in target]:
                    colours[line["label"]] = line["color"]
            require(len(set(colours.values())) == len(target),
                    what + ": solutions look the same")

    @staticmethod
    def colours():
        """There are enough colours"""
        for n in range(45):
            have = [
                matplotlib.colors.to_hex(c) for c in distinct_color_map(n)
            ]
            require(len(have) >= n, "not enough colours for {}".format(n))
            require(n > 30 or len(set(have[:n])) == n,
                    "same colours for {}".format(n))

    @staticmethod
    def output():
        """Saving, showing, closing, in all combinations"""
        shown = []
        old = plt.show
        plt.show = lambda *args, **kwargs: shown.append(plt.get_fignums())
        try:
            with scratch() as folder, in_dir(folder):
                write_files(folder)
                for file, show, close_ in itertools.product(
                    (None, "x.png", Path("y.pdf")), (False, True),
                    (False, True)
                ):
                    del shown[:]
                    figargs = {"figsize": (3.0, 3.0)}
                    fig = plot(
                        "a.hdf5", soln_range="0", plot_filename=file,
                        show=show, close=close_, figargs=figargs,
                    )
                    require(figargs == {"figsize": (3.0, 3.0)}, "options")
                    require((fig is None) is close_, "what is returned")
                    require(bool(plt.get_fignums()) is not close_, "closed")
                    require(len(shown) == show and all(shown), "shown")
                    require((file is not None) == any(
                        Path(n).exists() for n in ("x.png", "y.pdf")
                    ), "saved")
                    if file is not None:
                        require(Path(file).stat().st_size > 0, "empty")
                        os.remove(file)
                    plt.close("all")
        finally:
            plt.show = old


def tour(items):
    """A walk in which each ordered pair of the items comes up"""
    rest = {a: list(items) for a in items}
    stack, walk = [items[0]], []
    while stack:
        if rest[stack[-1]]:
            stack.append(rest[stack[-1]].pop())
        else:
            walk.append(stack.pop())
    return walk[::-1]


if __name__ == "__main__":
    main(C26())
