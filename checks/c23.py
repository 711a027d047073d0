# -*- coding: utf-8 -*-
"""
C23: stream and field lines from a grid of starting points through a set of
solutions, every point and step of which is checked against the solution
"""
import bisect
import csv
import itertools
import math
import os
import re
from pathlib import Path
from unittest import mock

import numpy as np
from h5preserve import open as h5open

from mc.core import Check, main, require, scratch, in_dir
from mc.util import make_run, make_solution, solution_input, ODEIndex, NVARS
from mc.runs import digest
from checks.c15 import ref_point
from mc.physics import speeds

from disc_solver.file_format import registries
from disc_solver.solve.solution import solution as solve
from disc_solver.solve.config import define_conditions
from disc_solver.analyse.trajectory import (
    follow_trajectory, get_trajectory, traj_main, plot, plot_main,
    generate_plot,
)

EPS = 1e-12
GRIDS = {
    "even": np.linspace(0, 0.5, 11),
    "fine": np.linspace(0, 0.5, 501),
    "uneven": 0.5 * np.linspace(0, 1, 23)**2,
    "two": np.array([0.0, 0.4]),
    "one": np.array([0.3]),
    "off": np.linspace(0.1, 0.9, 9),
    "high": np.linspace(0, 1.5, 40),
    "twice": np.array([0.0, 0.1, 0.2, 0.2, 0.3, 0.4]),
}
# components along r and θ, by the angle
FIELDS = {
    "spiral": lambda θ: (0 * θ + 1, 0 * θ + 0.5),
    "inward": lambda θ: (0 * θ - 1, 0 * θ + 0.25),
    "vertical": lambda θ: (np.sin(θ), np.cos(θ)),
    "sideways": lambda θ: (np.cos(θ), -np.sin(θ)),
    "around": lambda θ: (0 * θ, 0 * θ + 1),
    "out": lambda θ: (0 * θ + 2.0, 0 * θ),
    "down": lambda θ: (0 * θ + 0.5, 0 * θ - 1),
    "wind": lambda θ: (4 * θ - 1, 30 * θ**2),
    "jumpy": lambda θ: (np.cos(40 * θ), np.sin(40 * θ)),
    "still": lambda θ: (0 * θ, 0 * θ),
}
POWERS = (-0.5, -1.25)
STARTS = (0.0, 0.001, 0.1, 0.2, 0.25, 0.3, 0.39, 0.4999, 0.5, 0.6, 1.4)
STEPS = (0.3, 0.02, 0.001)
COUNTS = (0, 1, 2, 150)


def direction(angles, r_vals, θ_vals, θ):
    """The directions the field can have at an angle: those of the samples"""
    low = bisect.bisect_left(angles, θ - EPS)
    high = bisect.bisect_right(angles, θ + EPS)
    near = range(max(low - 1, 0), min(high + 1, len(angles)))
    out = []
    for i in near:
        turn = math.atan2(θ_vals[i], r_vals[i]) + θ
        out.append((math.cos(turn), math.sin(turn)))
    return out


def monitor(points, *, start, angles, r_vals, θ_vals, step, count):
    """All points of a line follow the field, in order"""
    angles, r_vals, θ_vals = map(list, (angles, r_vals, θ_vals))
    last = max(angles)

    def inside(pos):
        return math.atan2(pos[1], pos[0]) <= last

    def near_edge(pos):
        return abs(math.atan2(pos[1], pos[0]) - last) <= EPS
    require(len(points) <= count, lambda: "{} points, asked for {}".format(
        len(points), count
    ))
    if not inside(start) and not near_edge(start):
        require(not points, "a line from outside of the solution")
        return "outside"
    if count == 0:
        return "none"
    if not points and near_edge(start):
        return "edge"
    require(points, "no line")
    require(tuple(points[0][1]) == tuple(start), lambda: "starts at {}".format(
        points[0][1]
    ))
    used = step
    shrunk_at = 0
    for n, (vals, pos) in enumerate(points):
        require(inside(pos) or near_edge(pos), lambda: "{} outside".format(
            pos
        ))
        θ = math.atan2(pos[1], pos[0])
        wants = direction(angles, r_vals, θ_vals, θ)
        require(
            any(abs(vals[0] - w[0]) + abs(vals[1] - w[1]) < 1e-9
                for w in wants),
            lambda: "at angle {} it moves along {}, not {}".format(
                θ, vals, wants
            )
        )
        if n + 1 == len(points):
            break
        new = points[n + 1][1]
        tol = 1e-12 * (abs(pos[0]) + abs(pos[1]) + step)

        def stepped(size):
            return [pos[0] + size * vals[0], pos[1] + size * vals[1]]

        def moved(size):
            want = stepped(size)
            return abs(new[0] - want[0]) + abs(new[1] - want[1]) <= tol
        if moved(used):
            continue
        if n and shrunk_at == n and tuple(new) == tuple(pos):
            # where the step got smaller the point is repeated
            continue
        full = stepped(used)
        require(not inside(full) or near_edge(full), lambda: (
            "from {} to {} is not a step of {} along {}".format(
                pos, new, used, vals
            )
        ))
        if moved(used / 100):
            used /= 100
            shrunk_at = n + 1
            continue
        require(False, lambda: "from {} to {}".format(pos, new))
    if len(points) < count:
        vals, pos = points[-1]
        ends = [
            (pos[0] + size * vals[0], pos[1] + size * vals[1])
            for size in (used, used / 100)
        ]
        require(
            not any(inside(e) and not near_edge(e) for e in ends),
            lambda: "ends after {} points at {}, could go on to {}".format(
                len(points), pos, ends
            )
        )
        return "ended" if len(points) > 1 else "single"
    return "shrunk" if shrunk_at else "complete"


class C23(Check):
    id = "C23"
    level = "exploration"
    rule = (
        "A case is a solution (a kind of field over a kind of grid of "
        "angles, or a real one) and a size of step, with all starting angles "
        "and radii and numbers of steps: every point and step is checked "
        "against the field, lines are continued from points of them, and "
        "scaled. The commands are checked with all choices of options."
    )
    assumptions = (
        "between the angles of a solution its values are those of one of the "
        "two next to it",
        "starting points are not below the first angle of the solution",
    )
    chunk = 2
    real = None

    def setup(self, tier):
        inp = solution_input(
            num_angles=60, stop=np.float64(0.6), γ=np.float64(0.01)
        )
        self.real = solve(inp, define_conditions(inp), store_internal=False)
        os.environ["DISC_SOLVER_DISABLE_THREADING"] = "true"

    def cases(self, tier):
        deep = tier == "thorough"
        for field, grid in itertools.product(FIELDS, GRIDS):
            for step in STEPS + ((0.1, 1e-4) if deep else ()):
                for power in POWERS:
                    yield ["line", field, grid, step, power, deep]
        for which in ("v", "B"):
            for step in STEPS:
                yield ["real", which, step, deep]
        for field in ("spiral", "vertical", "sideways", "out", "around"):
            for step in (0.01, 0.001):
                yield ["curve", field, step]
        for v in (None, (2.0, 0.25), (1.0, 0.0), (3.0, 2.9)):
            for b in (None, (2.0, 0.25), (1.0, 0.0)):
                for counts in ((50, 40), (7, 300)):
                    for pick in ("0", "1", "final"):
                        yield ["save", v, b, counts, pick]
        for existing in ("stats", "v", "B"):
            yield ["exists", existing]
        for v in (None, (2.0, 0.25), (1.0, 0.0)):
            for flags in itertools.product((False, True), repeat=3):
                yield ["plot", v, flags]
        for flags in itertools.product((False, True), repeat=6):
            yield ["markers", str(sum(flags) % 2), flags]
        for pick in ("0", "1", "final"):
            for v in (False, True):
                for b in (False, True):
                    for max_v in (False, True):
                        yield ["command", pick, v, b, max_v]

    def evaluate(self, case):
        return getattr(self, "on_" + case[0])(*case[1:])

    @staticmethod
    def lines(angles, r_vals, θ_vals, step, power, deep):
        """All lines through a solution"""
        outcomes = set()
        points_seen = 0
        counts = COUNTS if step > 0.001 else (0, 1, 2, 3000 if deep else 250)
        backup = [np.array(x) for x in (angles, r_vals, θ_vals)]
        for at in STARTS:
            if at < angles[0]:
                continue
            for radius in (1.0, 3.7):
                start = (radius * math.cos(at), radius * math.sin(at))
                full = None
                for count in counts:
                    args = dict(
                        angles=angles, r_vals=r_vals, θ_vals=θ_vals,
                        radial_power=power, max_steps=count, step_scaling=step,
                    )
                    points = [
                        (tuple(map(float, v)), tuple(map(float, p)))
                        for v, p in follow_trajectory(
                            x_start=start[0], y_start=start[1], **args
                        )
                    ]
                    points_seen += len(points)
                    outcomes.add(monitor(
                        points, start=start, angles=angles, r_vals=r_vals,
                        θ_vals=θ_vals, step=step, count=count,
                    ))
                    if full is not None:
                        short = min(len(points), len(full))
                        require(
                            points[:short] == full[:short],
                            "the line depends on how far it is followed"
                        )
                    full = points
                # from the last count on
                vals, pos = get_trajectory(
                    x_start=start[0], y_start=start[1], **args
                )
                require(len(vals) == len(pos) == len(full),
                        "different number of points")
                require(
                    [(tuple(v), tuple(p)) for v, p in zip(vals, pos)] ==
                    full, "not the same line again"
                )
                args["step_scaling"] = 2 * step
                monitor(
                    [
                        (tuple(map(float, v)), tuple(map(float, p)))
                        for v, p in follow_trajectory(
                            x_start=2 * start[0], y_start=2 * start[1], **args
                        )
                    ], start=(2 * start[0], 2 * start[1]), angles=angles,
                    r_vals=r_vals, θ_vals=θ_vals, step=2 * step,
                    count=counts[-1],
                )
                args["step_scaling"] = step
                if len(full) > 3:
                    cut = len(full) // 3
                    args["max_steps"] = 5
                    before = full[cut][1]
                    more = list(follow_trajectory(
                        x_start=before[0], y_start=before[1], **args
                    ))
                    same = step
                    for (v, a), (_, b) in zip(full[:cut], full[1:cut + 1]):
                        if abs(math.dist(a, b) - step) > 1e-9:
                            same = None
                    if same:
                        require(
                            all(
                                tuple(v) == w and tuple(p) == q
                                for (v, p), (w, q) in zip(more, full[cut:])
                            ), "continued line is different"
                        )
        for old, new in zip(backup, (angles, r_vals, θ_vals)):
            require(np.array_equal(old, new), "the solution was modified")
        return {
            "outcome": sorted(outcomes), "states": points_seen,
            "transitions": points_seen,
        }

    def on_line(self, field, grid, step, power, deep):
        """Lines through synthetic solutions"""
        angles = GRIDS[grid]
        r_vals, θ_vals = FIELDS[field](angles)
        return self.lines(angles, r_vals, θ_vals, step, power, deep)

    def on_real(self, which, step, deep):
        """Lines through a real solution"""
        soln = self.real.solution
        r, θ = {
            "v": (ODEIndex.v_r, ODEIndex.v_θ),
            "B": (ODEIndex.B_r, ODEIndex.B_θ),
        }[which]
        return self.lines(
            self.real.angles, soln[:, r], soln[:, θ], step, -0.5, deep
        )

    @staticmethod
    def on_curve(field, step):
        """Lines which are known"""
        angles = np.linspace(0, 1.2, 4001)
        r_vals, θ_vals = FIELDS[field](angles)
        worst = 0
        total = 0
        for at in (0.0, 0.2, 0.7):
            x, y = math.cos(at), math.sin(at)
            _, pos = get_trajectory(
                x_start=x, y_start=y, angles=angles, r_vals=r_vals,
                θ_vals=θ_vals, radial_power=-1.25,
                max_steps=int(0.5 / step), step_scaling=step,
            )
            θ = np.arctan2(pos[:, 1], pos[:, 0])
            r = np.hypot(pos[:, 0], pos[:, 1])
            off = {
                "spiral": lambda: np.log(r) - 2 * (θ - at),
                "vertical": lambda: pos[:, 0] - x,
                "sideways": lambda: pos[:, 1] - y,
                "out": lambda: θ - at,
                "around": lambda: r - 1,
            }[field]()
            worst = max(worst, np.abs(off).max())
            total += len(pos)
            way = np.hypot(*(pos[-1] - pos[0]))
            require(way > 0.2 or θ[-1] > 1.19 or (
                field == "sideways"
            ), lambda: "line from {} ends at {}".format(at, pos[-1]))
        require(worst < step, lambda: "{} away from the line".format(worst))
        return {"outcome": field, "states": total, "transitions": total}

    @staticmethod
    def write(path):
        """A file with two solutions"""
        solns = []
        with h5open(path, registries, mode="x") as f:
            run = make_run()
            f["run"] = run
            for i, (v, b, γ) in enumerate((
                ("wind", "vertical", 0.25), ("spiral", "jumpy", 0.001),
            )):
                angles = GRIDS["high"] / (i + 1)
                s = np.ones((len(angles), NVARS))
                s *= (np.arange(NVARS) + 2) / 7
                s[:, ODEIndex.v_r], s[:, ODEIndex.v_θ] = FIELDS[v](angles)
                s[:, ODEIndex.B_r], s[:, ODEIndex.B_θ] = FIELDS[b](angles)
                soln = make_solution(
                    i, n=len(angles), angles=angles, solution=s,
                    inp=solution_input(γ=np.float64(γ)),
                )
                solns.append(soln)
                run.solutions.add_solution(soln)
            run.final_solution = run.solutions["1"]
        return solns

    @staticmethod
    def want(soln, which, start, count, step):
        """The line which should be saved or drawn"""
        r, θ = {
            "v": (ODEIndex.v_r, ODEIndex.v_θ),
            "B": (ODEIndex.B_r, ODEIndex.B_θ),
        }[which]
        args = dict(
            angles=soln.angles, r_vals=soln.solution[:, r],
            θ_vals=soln.solution[:, θ],
        )
        points = [
            (tuple(map(float, v)), tuple(map(float, p)))
            for v, p in follow_trajectory(
                x_start=start[0], y_start=start[1], radial_power=-0.5,
                max_steps=count, step_scaling=step, **args
            )
        ]
        monitor(points, start=start, step=step, count=count, **args)
        return np.array(points).reshape(len(points), 4)

    @staticmethod
    def points_of(soln):
        """Angles of the critical points"""
        slow, alfven, fast = speeds(soln.solution)
        v = soln.solution[:, ODEIndex.v_θ]
        out = {}
        for name, mach in (
            ("slow", np.abs(v) / slow), ("sonic", v),
            ("alfven", np.abs(v) / alfven), ("fast", np.abs(v) / fast),
        ):
            out[name] = ref_point(soln.angles, mach) if (
                mach > 1
            ).any() else None
        return out

    def on_save(self, v, b, counts, pick):
        """ds-flow-file"""
        with scratch() as path, in_dir(path):
            solns = self.write("run.hdf5")
            before = digest("run.hdf5")
            soln = solns[0 if pick == "0" else 1]
            args = [
                "run.hdf5", pick, "--v-max-steps", str(counts[0]),
                "--B-max-steps", str(counts[1]), "--v-step-scaling", "0.02",
                "--stats-output-file", "s", "--v-output-file", "v.csv",
                "--B-output-file", "b.csv",
            ]
            if v:
                args += ["--v-start-position", str(v[0]), str(v[1])]
            if b:
                args += ["--B-start-position", str(b[0]), str(b[1])]
                args += ["--B-step-scaling", "0.01"]
            traj_main(args)
            require(digest("run.hdf5") == before, "the file was changed")
            require(
                sorted(os.listdir()) == ["b.csv", "run.hdf5", "s", "v.csv"],
                lambda: "files {}".format(os.listdir())
            )
            tables = {}
            for name in ("s", "v.csv", "b.csv"):
                lines = Path(name).read_text().splitlines()
                comments = [x for x in lines if x.startswith("#")]
                require(sorted(comments) == [
                    "#filename=run.hdf5", "#soln_range=" + pick
                ], lambda: "{}".format(comments))
                tables[name] = list(csv.DictReader(
                    lines[2:], dialect="unix"
                ))
        for name, which, start, count, step in (
            ("v.csv", "v", v or (2.0, 0.1), counts[0], 0.02),
            ("b.csv", "B", b or (1.0, 0.0), counts[1], 0.01 if b else 0.001),
        ):
            want = self.want(soln, which, start, count, step)
            have = np.array([
                [float(row[k]) for k in (
                    which + "_x", which + "_y", "x", "y"
                )] for row in tables[name]
            ])
            require(
                len(have) == len(want) and np.allclose(
                    have.reshape(len(want), 4), want, rtol=1e-12, atol=1e-14
                ), lambda: "saved {} line is a different one".format(which)
            )
        require(len(tables["s"]) == 1, "one row of angles")
        row = tables["s"][0]
        angles = self.points_of(soln)
        angles["max_soln"] = soln.angles.max()
        for name, val in angles.items():
            have = row[name + "_angle"]
            require(
                have == "" if val is None else
                have != "" and abs(float(have) - val) <= 1e-6 * abs(val),
                lambda: "{} angle is {!r}, not {}".format(name, have, val)
            )
        return {"outcome": [pick, len(tables["v.csv"])], "traces": 2}

    def on_exists(self, which):
        """Files there are never overwritten"""
        with scratch() as path, in_dir(path):
            self.write("run.hdf5")
            Path(which).write_text("mine")
            try:
                traj_main([
                    "run.hdf5", "0", "--v-max-steps", "5",
                    "--B-max-steps", "5", "--stats-output-file", "stats",
                    "--v-output-file", "v", "--B-output-file", "B",
                ])
            except FileExistsError:
                pass
            else:
                require(False, "no error")
            require(Path(which).read_text() == "mine", "was overwritten")
        return {"outcome": "refused"}

    def on_plot(self, v, flags):
        """The lines and angles drawn"""
        max_v, no_version, title = flags
        with scratch() as path, in_dir(path):
            solns = self.write("run.hdf5")
            before = digest("run.hdf5")
            kwargs = {"with_max_v_angle": max_v}
            if v:
                kwargs["v_start_position"] = v
            if title:
                kwargs["title"] = "the title"
            fig = plot(
                "run.hdf5", soln_range="1", v_max_steps=70, B_max_steps=60,
                v_step_scaling=0.02, B_step_scaling=0.01, close=False,
                with_version=not no_version, plot_filename="out.png", **kwargs
            )
            require(Path("out.png").stat().st_size > 0, "no plot")
            require(digest("run.hdf5") == before, "the file was changed")
        soln = solns[1]
        want = {
            "v": self.want(soln, "v", v or (2.0, 0.1), 70, 0.02),
            "B": self.want(soln, "B", (1.0, 0.0), 60, 0.01),
        }
        angles = {"sonic": self.points_of(soln)["sonic"]}
        if max_v:
            p = want["v"]
            angles["max v"] = np.arctan2(p[:, 3], p[:, 2]).max()
        return self.drawn(fig, want, angles)

    @staticmethod
    def drawn(fig, want, angles):
        """The lines and angles drawn are those wanted, at their labels"""
        import matplotlib.pyplot as plt
        ax = fig.axes[0]
        sloped = {
            line.get_label(): line for line in ax.lines
            if hasattr(line, "get_slope")
        }
        curves = {
            line.get_label(): line.get_xydata() for line in ax.lines
            if not hasattr(line, "get_slope")
        }
        plt.close(fig)
        require(len(curves) == 2, lambda: "lines {}".format(list(curves)))
        for label, data in curves.items():
            which = "v" if "v" in label else "B"
            require(
                data.shape == want[which][:, 2:].shape and
                np.allclose(data, want[which][:, 2:], rtol=1e-12, atol=1e-14),
                "line of {} is a different one".format(label)
            )
        angles = {k: a for k, a in angles.items() if a is not None}
        require(len(sloped) == len(angles), lambda: (
            "angles {} instead of {}".format(list(sloped), angles)
        ))
        for name, angle in angles.items():
            found = [
                line for label, line in sloped.items()
                if all(re.search(r"\b%s\b" % n, label, re.I)
                       for n in name.split())
            ]
            require(len(found) == 1, lambda: "no {} in {}".format(
                name, list(sloped)
            ))
            line, = found
            slope = line.get_slope()
            if slope is None:
                (x1, y1), (x2, y2) = line.get_xy1(), line.get_xy2()
                slope = (y2 - y1) / (x2 - x1)
            x, y = line.get_xy1()
            require(
                abs(slope - math.tan(angle)) <= 2e-6 * math.tan(angle) and
                abs(y - slope * x) < 1e-9,
                lambda: "{} is drawn at slope {} from {}, not {}".format(
                    name, slope, (x, y), math.tan(angle)
                )
            )
            given = re.search(r"(-?\d+\.?\d*(e-?\d+)?) *°", line.get_label())
            require(
                given and abs(
                    float(given.group(1)) - math.degrees(angle)
                ) < 2e-3 * (1 + math.degrees(angle)),
                lambda: "{!r} is at {}°".format(
                    line.get_label(), math.degrees(angle)
                )
            )
        return {"outcome": sorted(angles), "traces": 2}

    def on_markers(self, pick, flags):
        """All combinations of angles drawn"""
        slow, sonic, alfven, fast, half, end = flags
        with scratch() as path, in_dir(path):
            solns = self.write("run.hdf5")
        run = make_run()
        for soln in solns:
            run.solutions.add_solution(soln)
        fig = generate_plot(
            run, pick, filename="x", v_max_steps=30, B_max_steps=20,
            v_step_scaling=0.02, B_step_scaling=0.01, with_slow=slow,
            with_sonic=sonic, with_alfven=alfven, with_fast=fast,
            with_45_line=half, with_max_soln_angle=end,
            with_max_v_angle=False,
        )
        soln = solns[int(pick)]
        points = self.points_of(soln)
        angles = {}
        for name, on in (
            ("slow", slow), ("sonic", sonic), ("alfven", alfven),
            ("fast", fast),
        ):
            if on:
                angles[name] = points[name]
        if half:
            angles["45"] = math.pi / 4
        if end:
            angles["max solution"] = soln.angles.max()
        return self.drawn(fig, {
            "v": self.want(soln, "v", (2.0, 0.1), 30, 0.02),
            "B": self.want(soln, "B", (1.0, 0.0), 20, 0.01),
        }, angles)

    def on_command(self, pick, v, b, max_v):
        """The plotting command with its options"""
        import matplotlib.pyplot as plt
        plt.close("all")
        args = [
            pick, "--v-max-steps", "30", "--B-max-steps", "20",
            "--v-step-scaling", "0.02", "--B-step-scaling", "0.01", "--show",
        ]
        if v:
            args += ["--v-start-position", "2.5", "0.5"]
        if b:
            args += ["--B-start-position", "1.5", "0.25"]
        if not max_v:
            args.append("--no-max-v-angle")
        kept = []
        with scratch() as path, in_dir(path), mock.patch.object(
            plt, "show", lambda *_, **__: kept.extend(
                map(plt.figure, plt.get_fignums())
            )
        ):
            solns = self.write("run.hdf5")
            plot_main(["run.hdf5"] + args)
        require(len(kept) == 1, lambda: "{} plots shown".format(len(kept)))
        soln = solns[0 if pick == "0" else 1]
        want = {
            "v": self.want(soln, "v", (2.5, 0.5) if v else (2.0, 0.1), 30,
                           0.02),
            "B": self.want(soln, "B", (1.5, 0.25) if b else (1.0, 0.0), 20,
                           0.01),
        }
        angles = {"sonic": self.points_of(soln)["sonic"]}
        if max_v:
            p = want["v"]
            angles["max v"] = np.arctan2(p[:, 3], p[:, 2]).max()
        return self.drawn(kept[0], want, angles)


if __name__ == "__main__":
    main(C23())
