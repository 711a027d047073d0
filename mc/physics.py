# -*- coding: utf-8 -*-
"""
The model by its vector equations, for states given in rows.  Vectors are in
the right handed order (r, φ, θ), θ being the angle from the midplane, at
radius 1, where things go with these powers of the radius: B: γ - 5/4,
v: -1/2, ρ: 2γ - 3/2, η: 1/2, E: γ - 7/4.
"""
import numpy as np

from disc_solver.utils import ODEIndex

B = [ODEIndex.B_r, ODEIndex.B_φ, ODEIndex.B_θ]
V = [ODEIndex.v_r, ODEIndex.v_φ, ODEIndex.v_θ]
ETA = [ODEIndex.η_O, ODEIndex.η_A, ODEIndex.η_H]


def cross(a, b):
    """Cross product of vectors in rows"""
    return np.array([
        a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2],
        a[0] * b[1] - a[1] * b[0],
    ])


def curl(b, dB_r, dB_φ, θ, γ):
    """Curl of the field"""
    return np.array([
        np.tan(θ) * b[1] - dB_φ, dB_r - (γ - 0.25) * b[2], (γ - 0.25) * b[1],
    ])


def comoving(b, η, j):
    """Electric field in the frame of the fluid"""
    unit = b / np.sqrt((b**2).sum(axis=0))
    along = (j * unit).sum(axis=0)
    return η[0] * j + η[1] * (j - along * unit) + η[2] * cross(j, unit)


def fields(p):
    """Vectors of states in rows: B, v, ρ, η"""
    return p[:, B].T, p[:, V].T, p[:, ODEIndex.ρ], p[:, ETA].T


def electromagnetic(p, d, θ, γ):
    """Current, electric field, that in the frame of the fluid"""
    b, v, _, η = fields(p)
    j = curl(b, d[:, ODEIndex.B_r], d[:, ODEIndex.B_φ], θ, γ)
    dash = comoving(b, η, j)
    return j, dash - cross(v, b), dash


def residuals(p, d, θ, γ, a_0, kepler):
    """
    What is left of the equations by states and their derivatives, and how
    large the terms are
    """
    b, v, ρ, η = fields(p)
    db, dv, dρ, _ = fields(d)
    t = np.tan(θ)
    j, e, dash = electromagnetic(p, d, θ, γ)
    force = a_0 / ρ * cross(j, b)
    out = {
        "continuity": [2 * γ * v[0], dv[2], v[2] * dρ / ρ, -v[2] * t],
        "solenoid": [db[2], (γ + 0.75) * b[0], -t * b[2]],
        "radial_momentum": [
            v[2] * dv[0], -v[0]**2 / 2, -v[2]**2, -v[1]**2, kepler + 0 * ρ,
            2 * γ - 2.5 + 0 * ρ, -force[0],
        ],
        "azimuthal_momentum": [
            v[2] * dv[1], v[0] * v[1] / 2, -t * v[2] * v[1], -force[1],
        ],
        "polar_momentum": [
            v[0] * v[2] / 2, v[2] * dv[2], t * v[1]**2, dρ / ρ, -force[2],
        ],
        "polar_induction": [-dash[1], v[2] * b[0], -v[0] * b[2]],
        "E_φ": [dash[1], -v[2] * b[0], v[0] * b[2]],
    }
    size = {
        name: sum(np.abs(t) for t in terms) for name, terms in out.items()
    }
    for name in size:
        if "momentum" in name:
            size[name] = size[name] + np.abs(a_0 / ρ) * (
                (np.abs(j).sum(axis=0)) * np.abs(b).sum(axis=0)
            )
        elif name in ("polar_induction", "E_φ"):
            size[name] = size[name] + np.abs(η).sum(axis=0) * (
                np.abs(j).sum(axis=0) + np.abs(t * b[1]) +
                np.abs(db).sum(axis=0) + np.abs(b).sum(axis=0)
            )
    return {name: sum(terms) for name, terms in out.items()}, size


def speeds(p):
    """Slow, Alfvén and fast speed along θ, the sound speed being 1"""
    b, _, ρ, _ = fields(p)
    total = (b**2).sum(axis=0) / (4 * np.pi * ρ)
    along = b[2]**2 / (4 * np.pi * ρ)
    fast = ((total + 1) + np.sqrt((total + 1)**2 - 4 * along)) / 2
    return np.sqrt(along / fast), np.sqrt(along), np.sqrt(fast)


def cylindrical_up(p, θ):
    """The velocity along the axis, at cylindrical radius 1"""
    v = p[:, V].T * np.sqrt(np.cos(θ))
    return v[0] * np.sin(θ) + v[2] * np.cos(θ)


def slopes(y, x):
    """Derivatives of values given at points, by parabolas"""
    n = len(x)
    out = np.zeros(np.shape(y))
    h = np.diff(x)
    out[0] = (y[1] - y[0]) / h[0]
    out[-1] = (y[-1] - y[-2]) / h[-1]
    for i in range(1, n - 1):
        a, b = h[i - 1], h[i]
        out[i] = (
            a / b * (y[i + 1] - y[i]) + b / a * (y[i] - y[i - 1])
        ) / (a + b)
    return out
