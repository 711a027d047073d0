# -*- coding: utf-8 -*-
"""
C32: the space of series: all draws of the parameters, with a stand-in for the
random numbers which enumerates them
"""
import contextlib
import itertools

import matplotlib.pyplot as plt
import numpy as np
import spaceplot

from mc.core import Check, main, require, patched
from mc.util import ODEIndex, NVARS, solution_input

from disc_solver.solve import taylor_space
from disc_solver.solve.config import define_conditions
from disc_solver.solve.deriv_midplane import (
    get_taylor_first_order, get_taylor_second_order, get_taylor_third_order,
)

NAMES = ("γ", "v_rin_on_c_s", "v_a_on_c_s", "c_s_on_v_k")
RANGES = (
    {"γ": (1e-5, 1e-2), "v_rin_on_c_s": (0.1, 1.0),
     "v_a_on_c_s": (0.25, 1.5), "c_s_on_v_k": (0.05, 0.03)},
    {"γ": (0.0, 0.25), "v_rin_on_c_s": (0.5, 0.125),
     "v_a_on_c_s": (0.1, 1.0), "c_s_on_v_k": (0.01, 0.0625)},
)
# η_O, η_A, η_H
DIFFUSIVITIES = (
    (0.005, 0.001, 0.008), (1.0, 0.0, 0.0), (0.5, 0.25, 0.0),
    (0.75, 0.0, -0.25), (0.0, 1.0, 0.5),
)
# parts of each range which are drawn
PARTS = (0.0, 0.5, 0.9375)
REAL_UNIFORM = np.random.uniform
REAL_SPACEPLOTS = spaceplot.spaceplots


@contextlib.contextmanager
def draws(parts):
    """Let the random numbers be these parts of the ranges, one call each"""
    state = {"n": 0}

    def uniform(low=0.0, high=1.0, size=None):
        values = np.array(parts[state["n"] % len(parts)], dtype=float)
        state["n"] += 1
        if size is None:
            size = ()
        count = int(np.prod(size))
        values = np.resize(values, count).reshape(size)
        return low + (high - low) * values
    np.random.uniform = uniform
    try:
        with patched((REAL_UNIFORM, uniform)):
            yield
    finally:
        np.random.uniform = REAL_UNIFORM


def series(values, η, memory={}):  # pylint: disable=dangerous-default-value
    """The conditions and coefficients for parameters"""
    key = (*values, *η)
    if key not in memory:
        f = np.float64
        inp = solution_input(
            η_O=f(η[0]), η_A=f(η[1]), η_H=f(η[2]),
            **{name: f(val) for name, val in zip(NAMES, values)}
        )
        cons = define_conditions(inp)
        args = dict(init_con=cons.init_con, γ=cons.γ, a_0=cons.a_0)
        memory[key] = np.array([
            cons.init_con, get_taylor_first_order(**args),
            get_taylor_second_order(η_derivs=False, use_E_r=False, **args),
            get_taylor_third_order(η_derivs=False, use_E_r=False, **args),
        ])
    return memory[key]


class C32(Check):
    id = "C32"
    level = "exploration"
    rule = (
        "A case is a choice of ranges and diffusivities with all 81 "
        "combinations of three values of each parameter as draws in some "
        "order, or all sequences of up to three draws; or a plot of them."
    )
    assumptions = ("the coefficients of one input are judged by C20",)
    chunk = 1

    def cases(self, tier):
        deep = tier == "thorough"
        for r, η in itertools.product(
            range(len(RANGES)), range(len(DIFFUSIVITIES))
        ):
            for order in ("up", "down", "mixed"):
                yield ["grid", r, η, order]
            for n in (1, 2, 3) if deep else (1, 2):
                yield ["sequences", r, η, n]
        for r, η, n in itertools.product(
            range(len(RANGES)), range(len(DIFFUSIVITIES)), (3, 81)
        ):
            yield ["plot", r, η, n]
        for missing in range(4):
            yield ["lengths", missing]
        yield ["command"]

    def evaluate(self, case):
        return getattr(self, "on_" + case[0])(*case[1:])

    @staticmethod
    def space(r, η, parts):
        """The space for draws, one row for each sample"""
        parts = np.array(parts)
        with draws(parts.T):
            return taylor_space.compute_taylor_space(
                num_samples=len(parts), η_O=DIFFUSIVITIES[η][0],
                η_A=DIFFUSIVITIES[η][1], η_H=DIFFUSIVITIES[η][2],
                **{name: list(val) for name, val in RANGES[r].items()}
            )

    @staticmethod
    def judge(space, r, η, n):
        """Each sample is in the ranges, and has its own coefficients"""
        arrays = [np.array(getattr(space, name + "_arr")) for name in NAMES]
        orders = np.array(space.taylor_orders)
        require(all(a.shape == (n,) for a in arrays), "samples")
        require(orders.shape == (n, 4, NVARS), "shape")
        for name, values in zip(NAMES, arrays):
            low, high = sorted(RANGES[r][name])
            require(
                np.all((low <= values) & (values <= high)), name + " not in "
                "its range"
            )
        for i, values in enumerate(zip(*arrays)):
            want = series(values, DIFFUSIVITIES[η])
            require(
                np.array_equal(orders[i], want, equal_nan=True),
                lambda: "sample {} differs: {}".format(i, orders[i] - want)
            )
        return set(zip(*arrays))

    def on_grid(self, r, η, order):
        """All combinations"""
        parts = list(itertools.product(PARTS, repeat=4))
        if order == "down":
            parts.reverse()
        elif order == "mixed":
            parts = [parts[i * 32 % 81] for i in range(81)]
        space = self.space(r, η, parts)
        seen = self.judge(space, r, η, len(parts))
        return {"outcome": order, "transitions": len(seen)}

    def on_sequences(self, r, η, n):
        """All sequences of draws of the extremes"""
        points = ((0, 0, 0, 0), (0.5, 0, 0.5, 0), (0, 0.5, 0.25, 0.5),
                  (0.5, 0.5, 0, 0.25))
        count = 0
        for parts in itertools.product(points, repeat=n):
            self.judge(self.space(r, η, parts), r, η, n)
            count += 1
        return {"outcome": "sequences", "transitions": count}

    @staticmethod
    @contextlib.contextmanager
    def plotted():
        """What is plotted, shown and closed"""
        calls, events = [], []

        def spaceplots(inputs, outputs, *args, **kwargs):
            calls.append((np.array(inputs), np.array(outputs), args, kwargs))
            for i in range(np.shape(outputs)[1]):
                events.append(("made", i))
                yield plt.figure()

        show = plt.show
        plt.show = lambda *args, **kwargs: events.append("show")
        before = plt.get_fignums()
        try:
            with patched((REAL_SPACEPLOTS, spaceplots), (show, plt.show)):
                yield calls, events
            require(plt.get_fignums() == before, "figures left open")
        finally:
            plt.show = show
            plt.close("all")

    def check_plot(self, calls, events, space, limits=None):
        """Labels and data"""
        require(len(calls) == 1, "plots")
        inputs, outputs, args, kwargs = calls[0]
        names = dict(zip(("input_names", "output_names", "limits"), args))
        names.update(kwargs)
        in_names, out_names = names["input_names"], names["output_names"]
        require(sorted(in_names) == sorted(NAMES), "parameters")
        require(sorted(out_names) == sorted(i.name for i in ODEIndex),
                "variables")
        orders = np.array(space.taylor_orders)
        for i, name in enumerate(in_names):
            require(
                np.array_equal(inputs[:, i], getattr(space, name + "_arr")),
                "{} is not drawn".format(name)
            )
        for i, name in enumerate(out_names):
            require(np.array_equal(
                outputs[:, i], orders[:, 2, ODEIndex[name]], equal_nan=True
            ), "{} is not drawn".format(name))
            if limits:
                got = list(names["limits"][i])
                require(got == limits.get(name, [0, None]),
                        "limits of {} are {}".format(name, got))
        require(events == [
            e for i in range(len(out_names)) for e in (("made", i), "show")
        ], "not each of them is shown")

    def on_plot(self, r, η, n):
        """What is drawn"""
        parts = list(itertools.product(PARTS, repeat=4))[:n]
        space = self.space(r, η, parts)
        with self.plotted() as (calls, events):
            taylor_space.plot_taylor_space(space)
        self.check_plot(calls, events, space)
        return {"outcome": "plot"}

    @staticmethod
    def on_lengths(missing):
        """Parameters which do not belong together"""
        count = 0
        for n in (1, 2, 3):
            values = {name: np.full(3, 0.25) for name in NAMES}
            values[NAMES[missing]] = values[NAMES[missing]][:n]
            try:
                got = list(taylor_space.solution_input_generator(
                    η_O=0.1, η_A=0.2, η_H=0.3, **values
                ))
            except RuntimeError:
                require(n != 3, "refused")
            else:
                require(n == 3 and len(got) == 3, "not refused")
            count += 1
        return {"outcome": "lengths", "transitions": count}

    def on_command(self):
        """The command"""
        made = []
        real = taylor_space.compute_taylor_space

        def compute(**kwargs):
            made.append((kwargs, real(**dict(kwargs, num_samples=81))))
            return made[-1][1]
        parts = np.array(list(itertools.product(PARTS, repeat=4)))
        with self.plotted() as (calls, events), draws(parts.T), patched(
            (real, compute)
        ):
            taylor_space.main()
        require(len(made) == 1, "computed")
        self.check_plot(calls, events, made[0][1], limits={
            "v_r": [-100, 0], "v_φ": [-100, 0],
        })
        kwargs, space = made[0]
        orders = np.array(space.taylor_orders)
        η = (kwargs["η_O"], kwargs["η_A"], kwargs["η_H"])
        require(len(set(η)) == 3 and min(η) > 0, "diffusivities")
        for i, values in enumerate(zip(*(
            getattr(space, name + "_arr") for name in NAMES
        ))):
            require(np.array_equal(orders[i], series(values, η)),
                    "sample {} differs".format(i))
        return {"outcome": "command", "transitions": len(orders)}


if __name__ == "__main__":
    main(C32())
