# -*- coding: utf-8 -*-
"""
C21: solutions put together from their parts, for every combination of how
they start, cross the sonic point and stop
"""
import itertools

import numpy as np
from scipy.integrate import solve_ivp
from scipy.interpolate import interp1d

from mc.core import Check, main, require, Violation
from mc.util import ODEIndex, NVARS, solution_input, StatusEnum

from disc_solver.file_format import InitialConditions
from disc_solver.solve.config import define_conditions
from disc_solver.solve.deriv_midplane import (
    get_taylor_first_order, get_taylor_second_order, get_taylor_third_order,
)
from disc_solver.solve.solution import solution, ode_system
from disc_solver.solve.utils import (
    SolverError, velocity_stop_generator, onroot_continue, onroot_stop,
    ontstop_continue, ontstop_stop,
)
from disc_solver.utils import deduplicate_and_interpolate

F = np.float64
INPUTS = (
    dict(γ=F(0.01)),
    dict(γ=F(0.01), v_a_on_c_s=F(0.7), η_A=F(0), η_H=F(-0.001)),
)
# angles in degrees
GRIDS = ((0.6, 2), (0.6, 3), (0.6, 31), (0.3, 5))
STARTS = ("jump", "wide-jump", "series", "series-on-grid", "direct")
# the sonic point is put where the flow gets to on these short ways
SONIC = (
    "none", "jump", "jump-after", "interp", "interp-few",
)
STOPS = (
    "none", "root", "root-stop", "root-continue", "tstop", "tstop-stop",
    "tstop-continue", "steps",
)
TARGET = 0.05
TSTOP = np.radians(0.433)
FLAGS = {
    "none": StatusEnum.SUCCESS, "root": StatusEnum.ROOT_RETURN,
    "root-stop": StatusEnum.ROOT_RETURN, "root-continue": StatusEnum.SUCCESS,
    "tstop": StatusEnum.TSTOP_RETURN, "tstop-stop": StatusEnum.TSTOP_RETURN,
    "tstop-continue": StatusEnum.SUCCESS, "steps": StatusEnum.TOO_MUCH_WORK,
}


def same(a, b):
    """Whether arrays are the same bit by bit, or both missing"""
    if a is None or b is None:
        return a is None and b is None
    return np.array_equal(np.asarray(a), np.asarray(b), equal_nan=True)


def flow(system, start, state, end):
    """The state at another angle, found with another integrator"""
    out = np.empty(NVARS)
    count = itertools.count()

    def rhs(θ, y):
        if next(count) > 20000:
            raise ArithmeticError("too hard")
        if system(θ, y, out) != 0:
            return np.full(NVARS, np.nan)
        return out.copy()
    try:
        res = solve_ivp(
            rhs, (start, end), state, method="Radau", rtol=1e-8, atol=1e-13,
        )
    except (ArithmeticError, ValueError):
        return None
    return res.y[:, -1] if res.success else None


def dedup(x, y):
    """Sorted unique angles with their largest value"""
    xs = sorted(set(x))
    return xs, [max(b for a, b in zip(x, y) if a == u) for u in xs]


class C21(Check):
    id = "C21"
    level = "exploration"
    rule = (
        "A case is an input, a grid of angles, a way to start, to cross the "
        "sonic point and to stop, formulation, and treatment of the "
        "diffusivities: the real solver runs with and without internal data, "
        "each row is compared to another integrator started from the row "
        "before, and each joint with where the part before ended.  Conflicts "
        "of options are all enumerated."
    )
    assumptions = (
        "rows agree with the other integrator to 1e-4 of the largest change",
        "midplane conditions, series and equations are C19 and C20",
    )
    chunk = 2

    def cases(self, tier):
        deep = tier == "thorough"
        for parts in itertools.product(
            (False, True), (False, True), (None, "arg", "noarg"),
            (False, True), (False, True),
        ):
            yield ["conflict", *parts]
        for seq in itertools.product((0, 1, 2), repeat=4):
            yield ["dedup", seq]
        for which, grid, start, sonic, stop, use_E_r, η_derivs in (
            itertools.product(
                range(len(INPUTS)), range(len(GRIDS)), STARTS, SONIC, STOPS,
                (False, True), (True, False),
            )
        ):
            if sonic != "none" and "root" in stop:
                # refused, see the conflicts
                continue
            if not deep:
                if which and (grid != 2 or stop not in ("none", "root")):
                    continue
                if grid in (0, 1, 3) and (
                    use_E_r != (grid == 1) or stop in (
                        "tstop-stop", "root-stop"
                    ) or "wide" in start or "on-grid" in start
                ):
                    continue
                if not η_derivs and (grid != 2 or stop != "none" or which):
                    continue
            yield ["solve", which, grid, start, sonic, stop, use_E_r,
                   η_derivs]

    def evaluate(self, case):
        return getattr(self, case[0])(*case[1:])

    # -- conflicting options ----------------------------------------------
    @staticmethod
    def conflict(interp, jump, root, onroot, store):
        """Options which exclude each other"""
        inp = solution_input(
            num_angles=31, stop=F(0.6), γ=F(0.01),
            sonic_interp_size=F(1 - TARGET) if interp else None,
            jump_before_sonic=F(1 - TARGET) if jump else None,
            after_sonic=F(0.09 - 1) if interp or jump else None,
            interp_slice=slice(-20, None),
        )
        kwargs = {"store_internal": store}
        if root is not None:
            kwargs["root_func"] = velocity_stop_generator(TARGET)
        if root == "arg":
            kwargs["root_func_args"] = 1
        if onroot:
            kwargs["onroot_func"] = onroot_stop
        bad = (
            (interp and (root is not None or jump or not store)) or
            (jump and (root is not None or onroot)) or root == "noarg"
        )
        try:
            soln = solution(inp, define_conditions(inp), **kwargs)
        except SolverError as e:
            require(bad, lambda: "refused though there is no conflict: " +
                    str(e))
            return {"outcome": "refused"}
        require(not bad, lambda: "accepted: {}".format(soln.flag))
        return {"outcome": "accepted"}

    @staticmethod
    def dedup(seq):
        """Interpolation of data with duplicates"""
        x = list(seq)
        if len(set(x)) < 2:
            return {"nontrivial": False}
        outs = []
        for y in itertools.product((-1.5, 0.25, 3.0), repeat=len(x)):
            func = deduplicate_and_interpolate(
                x, y, kind="linear", fill_value="extrapolate",
                assume_sorted=False,
            )
            xs, ys = dedup(x, y)
            for u, v in zip(xs, ys):
                require(func(u) == v, lambda: "{} at {}, not {}".format(
                    func(u), u, v
                ))
            outs.append(float(func(0.5)))
        return {"outcome": "dedup {}".format(len(set(x)))}

    # -- solving ----------------------------------------------------------
    def solve(self, which, grid, start, sonic, stop, use_E_r, η_derivs):
        """One combination"""
        stop_at, num = GRIDS[grid]
        options = dict(
            INPUTS[which], stop=F(stop_at), num_angles=num, use_E_r=use_E_r,
            η_derivs=η_derivs, use_taylor_jump="jump" in start,
            relative_tolerance=F(1e-9), absolute_tolerance=F(1e-13),
            taylor_stop_angle={
                "jump": F(0.001), "wide-jump": F(0.03), "series": F(0.0125),
                "series-on-grid": F(0.02), "direct": F(0.001),
            }[start],
        )
        if sonic.startswith("jump"):
            options["jump_before_sonic"] = F(1 - TARGET)
            if sonic == "jump-after":
                options["after_sonic"] = F(0.02 - 1 + TARGET)
        elif sonic.startswith("interp"):
            options["sonic_interp_size"] = F(1 - TARGET)
            options["after_sonic"] = F(0.09 - 1)
            options["interp_slice"] = (
                slice(-40, None) if sonic == "interp" else slice(-2, None)
            )
        if stop == "steps":
            options["max_steps"] = 40
        inp = solution_input(**options)
        cons = define_conditions(inp)
        kwargs = {}
        if stop.startswith("root"):
            kwargs["root_func"] = velocity_stop_generator(TARGET)
            kwargs["root_func_args"] = 1
        if stop.startswith("tstop"):
            kwargs["tstop"] = TSTOP
        for name, key, func in (
            ("root-stop", "onroot_func", onroot_stop),
            ("root-continue", "onroot_func", onroot_continue),
            ("tstop-stop", "ontstop_func", ontstop_stop),
            ("tstop-continue", "ontstop_func", ontstop_continue),
        ):
            if stop == name:
                kwargs[key] = func
        modified = None
        if start == "direct":
            kwargs["with_taylor"] = False
            modified = self.modified(inp, cons, num)
            kwargs["modified_initial_conditions"] = modified
        before = (
            inp.asdict(), {k: np.copy(v) for k, v in vars(cons).items()},
            modified and {k: np.copy(v) for k, v in vars(modified).items()}
        )

        def solved(**more):
            try:
                return solution(inp, cons, **{**kwargs, **more})
            except SolverError as e:
                return str(e)
        soln = solved()
        again = solved()
        without = solved(store_internal=False)
        require(inp.asdict() == before[0], "input was modified")
        for con, old in ((cons, before[1]), (modified, before[2])):
            require(con is None or (
                vars(con).keys() == old.keys() and
                all(same(v, old[k]) for k, v in vars(con).items())
            ), "initial conditions were modified")
        self.compare(soln, again, "solved again")
        if not sonic.startswith("interp"):
            self.compare(soln, without, "without internal data", data=False)
        if isinstance(soln, str):
            return self.failed(soln, sonic, num, stop, start)
        require(soln.solution_input is inp or soln.solution_input == inp,
                "input of the solution")
        for key, val in vars(soln.initial_conditions).items():
            require(same(val, before[1][key]), "conditions of the solution")
        self.rows(soln, inp, cons, modified, start, sonic, stop, kwargs)
        return {
            "outcome": (start, sonic, stop, str(soln.flag)),
            "states": len(soln.angles), "nontrivial": len(soln.angles) > 2,
        }

    @staticmethod
    def modified(inp, cons, num):
        """Conditions off the midplane"""
        θ = np.radians(0.05)
        kw = dict(init_con=cons.init_con, γ=cons.γ, a_0=cons.a_0)
        opts = dict(η_derivs=inp.η_derivs, use_E_r=inp.use_E_r)
        state = cons.init_con + θ * get_taylor_first_order(**kw) + (
            θ**2 / 2 * get_taylor_second_order(**kw, **opts)
        ) + θ**3 / 6 * get_taylor_third_order(**kw, **opts)
        return InitialConditions(
            norm_kepler_sq=cons.norm_kepler_sq, a_0=cons.a_0, γ=cons.γ,
            init_con=state, angles=np.linspace(θ, cons.angles[-1], num),
        )

    @staticmethod
    def compare(a, b, what, data=True):
        """Both are the same solution"""
        if isinstance(a, str) or isinstance(b, str):
            require(a == b, lambda: "{}: {!r} and {!r}".format(what, a, b))
            return
        for key in ("angles", "solution", "t_roots", "y_roots"):
            require(
                same(getattr(a, key), getattr(b, key)),
                "{} differ: {}".format(key, what)
            )
        require(a.flag == b.flag, "flag: " + what)
        if not data:
            require(b.internal_data is None, "internal data not asked for")
            return
        for key in ("angles", "params", "derivs"):
            require(same(
                getattr(a.internal_data, key), getattr(b.internal_data, key)
            ), "internal {} differ: {}".format(key, what))

    @staticmethod
    def failed(soln, sonic, num, stop, start):
        """Whether this may have no result"""
        if "Insufficient angles" in soln:
            # nothing is left to be solved after a part
            require(
                sonic != "none", lambda: "there are angles: " + soln
            )
        elif "Taylor" in soln:
            require(start.startswith("series") and (
                stop == "steps" or num < 4
            ), lambda: soln)
        else:
            raise Violation("failed: " + soln)
        return {"outcome": "refused: " + soln[:20], "nontrivial": False}

    def rows(self, soln, inp, cons, modified, start, sonic, stop, kwargs):
        """All rows of a solution"""
        angles, states = soln.angles, soln.solution
        require(
            states.shape == (len(angles), NVARS) and angles.ndim == 1,
            "one state for each angle"
        )
        require(np.all(np.isfinite(angles)), "angles")
        opts = dict(
            γ=cons.γ, a_0=cons.a_0, norm_kepler_sq=cons.norm_kepler_sq,
            init_con=cons.init_con, η_derivs=inp.η_derivs,
            use_E_r=inp.use_E_r, store_internal=False,
        )
        normal, _ = ode_system(**opts)
        taylor, _ = ode_system(with_taylor=True, **opts)
        requested = list(cons.angles if modified is None else modified.angles)
        head = [0] if modified is None else [requested[0]]
        first = cons.init_con if modified is None else modified.init_con
        require(
            angles[0] == head[0] and same(states[0], first),
            "does not start with the initial conditions"
        )
        at = 0
        turn = np.radians(inp.taylor_stop_angle)
        if start != "direct":
            # off the midplane
            if "jump" in start:
                at = 1
                kw = dict(init_con=cons.init_con, γ=cons.γ, a_0=cons.a_0)
                more = dict(η_derivs=inp.η_derivs, use_E_r=inp.use_E_r)
                want = cons.init_con + turn * get_taylor_first_order(**kw) + (
                    turn**2 / 2 * get_taylor_second_order(**kw, **more)
                ) + turn**3 / 6 * get_taylor_third_order(**kw, **more)
                require(
                    np.isclose(angles[1], turn, rtol=1e-12) and
                    np.allclose(states[1], want, rtol=1e-12, atol=1e-15),
                    lambda: "series gives {} at {}, not {} at {}".format(
                        want, turn, states[1], angles[1]
                    )
                )
            else:
                while at + 1 < len(angles) and angles[at] < turn * (1 - 1e-9):
                    self.step(taylor, soln, at, "series")
                    at += 1
                require(np.isclose(angles[at], turn, rtol=1e-9),
                        "series does not end where it should")
        pieces = self.pieces(soln, inp, at, sonic, kwargs)
        covered = list(angles[:at + 1])
        for kind, begin, end, func in pieces:
            system = normal if func is None else ode_system(
                deriv_v_θ_func=func, **opts
            )[0]
            few = end - begin <= 6
            for i in range(begin, end):
                if few or (i - begin) % 4 == 0 or i == end - 1:
                    self.step(system, soln, i, kind)
        require(
            np.all(np.diff(angles) >= 0), "angles do not increase"
        )
        joints = {begin for _, begin, _, _ in pieces[1:]}
        for i in np.nonzero(np.diff(angles) == 0)[0]:
            require(
                i + 1 in joints and same(states[i], states[i + 1]),
                "angle twice"
            )
        self.requested(
            soln, requested, turn if start != "direct" else None, start,
            pieces, covered,
        )
        self.ending(soln, inp, requested, sonic, stop)
        self.internal(soln, normal, taylor, pieces, start, turn)

    def pieces(self, soln, inp, at, sonic, kwargs):
        """
        The parts (kind, first row, last row, function of the derivative of
        the velocity)
        """
        angles, states = soln.angles, soln.solution
        v = states[:, ODEIndex.v_θ]
        last = len(angles) - 1
        if sonic == "none":
            return [("main", at, last, None)]
        # up to where the same gets which stops before the sonic point
        plain = solution_input(**{
            **inp.asdict(), "jump_before_sonic": None,
            "sonic_interp_size": None, "after_sonic": None,
        })
        base = solution(
            plain, soln.initial_conditions, **{
                **kwargs, "root_func": velocity_stop_generator(1 - F(
                    1 - TARGET
                )), "root_func_args": 1,
            }
        )
        n = len(base.angles)
        require(
            same(base.angles, angles[:n]) and same(base.solution, states[:n]),
            "part before the sonic point differs"
        )
        require(base.flag == soln.flag and same(base.t_roots, soln.t_roots)
                and same(base.y_roots, soln.y_roots), lambda: (
                    "flag and roots: {} {} and {} {}".format(
                        base.flag, base.t_roots, soln.flag, soln.t_roots
                    )))
        end = n - 1
        if sonic.startswith("jump"):
            out = np.empty(NVARS)
            system, _ = ode_system(
                γ=soln.initial_conditions.γ, a_0=soln.initial_conditions.a_0,
                norm_kepler_sq=soln.initial_conditions.norm_kepler_sq,
                init_con=soln.initial_conditions.init_con,
                η_derivs=inp.η_derivs, use_E_r=inp.use_E_r,
                store_internal=False,
            )
            system(angles[end], states[end], out)
            size = (1 - TARGET) + (
                (0.02 - 1 + TARGET) if sonic == "jump-after" else 1 - TARGET
            )
            way = size / out[ODEIndex.v_θ]
            require(n < len(angles), "nothing after the jump")
            require(
                np.isclose(angles[n], angles[end] + way, rtol=1e-9) and
                np.allclose(states[n], states[end] + out * way, rtol=1e-9,
                            atol=1e-12),
                lambda: "jump of {} to {} at {}, not {} at {}".format(
                    size, states[n], angles[n], states[end] + out * way,
                    angles[end] + way
                )
            )
            require(np.isclose(v[n], v[end] + size, rtol=1e-9), "jump")
            return [("main", at, end, None), ("after", n, last, None)]
        data = base.internal_data
        xs, ys = dedup(
            list(data.angles[inp.interp_slice]),
            list(data.derivs[inp.interp_slice, ODEIndex.v_θ])
        )
        if len(xs) < 4:
            require(last == end, "continued without interpolation")
            return [("main", at, end, None)]
        func = interp1d(xs, ys, kind="cubic", fill_value="extrapolate")
        require(last > end and angles[n] == angles[end] and
                same(states[n], states[end]), "does not continue")
        # the last but one angle which occurs twice starts the final part
        twice = [
            i for i in range(n, last) if angles[i] == angles[i + 1]
        ]
        require(len(twice) == 1, lambda: "joints: {}".format(angles))
        mid = twice[0]
        require(same(states[mid], states[mid + 1]), "does not continue")
        require(v[mid] <= 0.09 + 1e-6, "interpolated beyond its end")
        # interpolation ended there because the next one is beyond
        return [
            ("main", at, end, None), ("interp", n, mid, func),
            ("after", mid + 1, last, None)
        ]

    @staticmethod
    def step(system, soln, i, kind):
        """Row i leads to row i + 1"""
        v = soln.solution[i:i + 2, ODEIndex.v_θ]
        if v[0] < 1.1 and v[1] > 0.9:
            # the equations are singular in between
            return
        if not np.all(np.isfinite(soln.solution[i:i + 2])):
            raise Violation("row {} of {} is not finite".format(i, kind))
        want = flow(
            system, soln.angles[i], soln.solution[i], soln.angles[i + 1]
        )
        if want is None or not np.all(np.isfinite(want)):
            return
        got = soln.solution[i + 1]
        tol = 1e-4 * np.abs(want - soln.solution[i]) + 1e-5 * np.abs(want)
        tol[ODEIndex.B_φ_prime] += 1e-4 * np.abs(want[ODEIndex.B_φ_prime])
        require(
            np.all(np.abs(got - want) <= 20 * tol + 1e-7),
            lambda: "row {} ({}) at {} is {}, not {}".format(
                i + 1, kind, soln.angles[i + 1], got, want
            )
        )

    @staticmethod
    def requested(soln, requested, turn, start, pieces, covered):
        """Which angles there are"""
        angles = list(soln.angles)
        gaps = []
        if turn is not None and "jump" in start:
            gaps.append((0, turn))
        for (_, _, end, _), (_, begin, _, _) in zip(pieces, pieces[1:]):
            gaps.append((angles[end], angles[begin]))
        extra = {angles[0]} | {b for _, b in gaps} | (
            set() if turn is None else {turn}
        )
        for angle in requested:
            if angle > angles[-1] or any(a < angle <= b for a, b in gaps):
                continue
            require(
                angle in angles, lambda: "no state for the angle {}".format(
                    angle
                )
            )
        for angle in angles:
            require(
                angle in requested or
                any(np.isclose(angle, e, rtol=1e-12) for e in extra),
                lambda: "angle {} was not requested".format(angle)
            )

    @staticmethod
    def ending(soln, inp, requested, sonic, stop):
        """Where it ended, and why"""
        if sonic != "none":
            return
        angles, v = soln.angles, soln.solution[:, ODEIndex.v_θ]
        target = FLAGS[stop]
        flag = soln.flag
        if flag == StatusEnum.SUCCESS:
            require(angles[-1] == requested[-1], "success before the end")
            require(stop != "root" and stop != "root-stop" or
                    v[-1] <= TARGET * (1 + 1e-3), "went past the root")
            require(stop not in ("tstop", "tstop-stop") or
                    angles[-1] <= TSTOP, "went past tstop")
        elif flag == target and flag != StatusEnum.SUCCESS:
            require(angles[-1] < requested[-1] or stop != "steps", "stopped")
            if flag == StatusEnum.TSTOP_RETURN:
                nxt = min(a for a in requested if a > angles[-1])
                require(angles[-1] <= TSTOP <= nxt, "tstop")
        if flag == StatusEnum.ROOT_RETURN or (
            stop == "root-continue" and soln.t_roots is not None
        ):
            root, state = soln.t_roots, soln.y_roots
            require(len(root) == len(state) >= 1, "roots")
            require(
                abs(state[0][ODEIndex.v_θ] - TARGET) < 1e-6, "not a root"
            )
            before = angles[angles <= root[0]]
            after = angles[angles > root[0]]
            if flag == StatusEnum.ROOT_RETURN:
                require(len(after) == 0, "went past the root")
                nxt = [a for a in requested if a > before[-1]]
                require(nxt and root[0] <= nxt[0], "stopped before the root")

    @staticmethod
    def internal(soln, normal, taylor, pieces, start, turn):
        """Internal data of all the parts, in order"""
        data = soln.internal_data
        require(
            len(data.angles) == len(data.params) == len(data.derivs) > 0,
            "internal data"
        )
        out = np.empty(NVARS)
        spans = []
        if start.startswith("series"):
            spans.append((0, turn, taylor))
        interp = any(kind == "interp" for kind, *_ in pieces)
        for kind, begin, end, _ in pieces:
            if end > begin:
                spans.append((soln.angles[begin], soln.angles[end], normal))
        require(
            not spans or np.isclose(data.angles[0], spans[0][0], atol=1e-12),
            "internal data does not start with the first part"
        )
        for lo, hi, _ in spans:
            require(
                np.any((data.angles >= lo - 1e-15) & (
                    data.angles <= hi * (1 + 1e-12) + 1e-15
                )), "no internal data for a part"
            )
        series = start.startswith("series")
        for θ, p, d in list(zip(data.angles, data.params, data.derivs))[::17]:
            matches = []
            for system in (normal, taylor) if series else (normal,):
                if system(θ, p, out) != 0:
                    continue
                cols = [i for i in range(NVARS) if i != ODEIndex.v_θ]
                matches.append(same(out, d) or (interp and same(
                    out[ODEIndex.B_r], d[ODEIndex.B_r]
                ) and len(cols)))
            require(any(matches), "internal data is not of the equations")


if __name__ == "__main__":
    main(C21())
