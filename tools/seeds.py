# -*- coding: utf-8 -*-
"""
Descriptions of the planted bugs: python3 tools/seeds.py [NAME...] writes them
"""
import sys

from seedlib import seed, write, SEEDS

seed(
    "s01-step-limit", "C10",
    [("solve/stepper.py", """            if soln_type == SplitterStatus.DIVERGE:
                raise StepperStop("Hit numerical limit")
""", """            if soln_type != SplitterStatus.STOP:
                raise StepperStop("Hit numerical limit")
""")],
    "the bisection of γ going on until the step no longer changes γ, with the "
    "attempt at that point being a sign flip",
    "the search then ends with a sign flip as the final solution, instead of "
    "going up to the next diverging one",
    """
from disc_solver.solve.stepper import step_input, SplitterStatus
soln = make_soln(make_input(γ=np.float64(0.5)))
new = step_input()(soln, SplitterStatus.SIGN_FLIP, 1e-18)
assert 0.5 < new.γ < 0.5 + 1e-15, new.γ
try:
    step_input()(soln, SplitterStatus.DIVERGE, 1e-18)
except Exception:
    pass
else:
    raise SystemExit("no stop")
""")

seed(
    "s02-golden-value", "C11",
    [("solve/fast_crosser.py", """                limits["mid"] = hmid_lim
                limits["mid_val"] = hmid_val
""", """                limits["mid"] = hmid_lim
""")],
    "a golden section search which moves its lower limit up at least once and "
    "needs the value of the point kept afterwards",
    "the value remembered for the best point inside is that of another point, "
    "so the interval narrows to a point which is not the maximum",
    """
from disc_solver.solve.fast_crosser import stepper_creator
best = 1.0361
stepper = stepper_creator(
    lambda soln, attempt: None, step_size=0.01,
    solution_input=make_input(v_rin_on_c_s=1.0),
)
inp = make_input(v_rin_on_c_s=1.0)
tried = []
try:
    for attempt in range(60):
        tried.append(inp.v_rin_on_c_s)
        q = 1 - abs(inp.v_rin_on_c_s - best) * (
            1 if inp.v_rin_on_c_s < best else 1.05)
        inp = stepper(make_soln(inp, angles=np.array([0, q / 2, q])), attempt)
except Exception as e:
    print(e)
assert abs(tried[-1] - best) < 1e-3, tried[-5:]
""")

seed(
    "s03-sound-speed", "C15",
    [("critical_points.py", """            (v_a_sq + sound_speed**2)**2 -
            4 * v_a_sq * sound_speed**2 * cos_sq_psi
        )
    )
    alfven""", """            (v_a_sq + sound_speed**2)**2 -
            4 * v_a_sq * sound_speed * cos_sq_psi
        )
    )
    alfven""")],
    "wave speeds asked for with a sound speed which is not one",
    "the slow speed is wrong (the default sound speed of one hides it)",
    """
from disc_solver.critical_points import mhd_wave_speeds
state = np.zeros(11)
state[[ODEIndex.B_r, ODEIndex.B_φ, ODEIndex.B_θ]] = 0.0, 0.0, 10.0
state[ODEIndex.ρ] = 1
slow, alfven, fast = mhd_wave_speeds(values=state, sound_speed=2.0)
assert abs(slow - 4) < 1e-9, slow
assert abs(fast - alfven) < 1e-9
""")

seed(
    "s04-scale-point", "C16",
    [("utils.py",
      "        scaled_soln[DIFFUSIVE_INDEXES] = η_scale * "
      "soln[DIFFUSIVE_INDEXES]\n",
      "        scaled_soln[DIFFUSIVE_INDEXES] = v_scale * "
      "soln[DIFFUSIVE_INDEXES]\n")],
    "converting a single point (one dimension) away from the midplane",
    "the diffusivities get the power of radius of the velocities; whole "
    "solutions are right",
    """
from disc_solver.utils import convert_spherical_to_cylindrical as conv
soln = make_soln()
args = dict(γ=0.001, c_s_on_v_k=0.03, use_E_r=False)
angles = np.linspace(0, 0.7, 3)
_, whole = conv(angles, soln.solution, **args)
for i in range(3):
    _, one = conv(angles[i], soln.solution[i], **args)
    np.testing.assert_allclose(one, whole[i])
""")

seed(
    "s05-last-of-many", "C07",
    [("file_format/_containers.py",
      "        return self[sorted(list(self), key=int)[-1]]\n",
      "        return self[list(self)[-1]]\n")],
    "more than ten solutions in a file which is opened again (where they come "
    "in alphabetical order)",
    "the last solution is the one numbered 9, not the one added last",
    """
from h5preserve import open as h5open
from disc_solver.file_format import registries
run = make_run()
for i in range(12):
    run.solutions.add_solution(make_soln(make_input(γ=np.float64(1 + i))))
run.final_solution = None
assert run.solutions.get_last_solution().solution_input.γ == 12
with h5open("a.hdf5", registries, mode="x") as f:
    f["run"] = run
with h5open("a.hdf5", registries, mode="r") as f:
    last = f["run"].solutions.get_last_solution()
    assert last.solution_input.γ == 12, last.solution_input.γ
""")

seed(
    "s06-shared-problems", "C17",
    [("file_format/_containers.py",
      "        problems = Problems(**self.problems)"
      "  # pylint: disable=not-a-mapping\n",
      "        problems = self.problems\n")],
    "joining internal data and using the first part again (as the matching "
    "method does for each guess)",
    "the problems of each part joined add up in the first part",
    """
a, b = InternalData(), InternalData()
a.problems[0.5].append("negative velocity")
b.problems[0.75].append("negative density")
both = a + b
assert sorted(both.problems) == ["0.5", "0.75"]
assert sorted(a.problems) == ["0.5"], a.problems
""")

seed(
    "s07-digits", "C03",
    [("file_format/_containers.py",
      "            v_a_on_c_s=str(self.v_a_on_c_s),\n",
      "            v_a_on_c_s=format(self.v_a_on_c_s, \".16g\"),\n")],
    "a value which needs seventeen digits",
    "it is not the same to the last bit after being converted to a "
    "configuration",
    """
for i in range(1, 200):
    val = np.float64(1) + i / np.float64(7)
    back = make_input(v_a_on_c_s=val).to_config_input("a").to_soln_input()
    assert back.v_a_on_c_s == val, (val, back.v_a_on_c_s)
""")

seed(
    "s08-back-below-sonic", "C14",
    [("solve/stepper.py", """    v_θ_above_sonic = v_θ > 1
    if np_any(v_θ_above_sonic):
""", """    if v_θ[-1] > 1:
""")],
    "a solution which passes the sonic point, and comes down again before its "
    "end",
    "it is taken for a sign flip and γ is moved the wrong way",
    """
from disc_solver.solve.stepper import v_θ_deriv_splitter, SplitterStatus
def kind(*v):
    s = make_soln(n=len(v))
    s.solution[:, ODEIndex.v_θ] = v
    return v_θ_deriv_splitter(s)
assert kind(0.5, 0.95, 1.2) == SplitterStatus.DIVERGE
assert kind(0.5, 0.95, 0.93, 1.2, 0.95) == SplitterStatus.DIVERGE
assert kind(0.5, 0.95, 0.93) == SplitterStatus.SIGN_FLIP
""")

seed(
    "s09-shared-input", "C12",
    [("solve/mcmc.py",
      "    soln_input = SolutionInput(**vars(old_soln_input))\n",
      "    soln_input = old_soln_input\n")],
    "keeping the input of a proposal while looking at another one",
    "all proposals share one input, which also is that of the run",
    """
from disc_solver.solve.mcmc import (
    sys_vars_to_solution_input, generate_sysvars_enum,
)
inp = make_input()
names = generate_sysvars_enum(inp)
a = sys_vars_to_solution_input([0.5] * len(names), inp, names)
b = sys_vars_to_solution_input([0.25] * len(names), inp, names)
assert a.γ == 0.5 and b.γ == 0.25, (a.γ, b.γ)
assert inp.γ == np.float64(0.001), inp.γ
""")

seed(
    "s10-table-order", "C13",
    [("solve/csvrunner.py", "pool.imap(", "pool.imap_unordered(")],
    "more than one worker, with an earlier row taking longer than a later one",
    "the rows of the table are in the order in which they were finished",
    """
import time
from disc_solver.solve import SONIC_METHOD_MAP
from disc_solver.solve.csvrunner import csvrunner


def method(soln_input, run, **kwargs):
    time.sleep(2 if soln_input.γ == 1 else 0)
    run.solutions.add_solution(make_soln(soln_input))
    run.final_solution = run.solutions.get_last_solution()
    return True


SONIC_METHOD_MAP["step"] = method
names = list(make_config().asdict())
with open("in.csv", "w") as f:
    f.write(",".join(names) + "\\n")
    for γ in (1, 2, 3):
        cfg = make_config(γ=np.float64(γ)).asdict()
        f.write(",".join('"%s"' % cfg[n] for n in names) + "\\n")
csvrunner(
    output_file="out.csv", input_file="in.csv", nworkers=2,
    store_internal=False, sonic_method="step", overrides=None,
)
from csv import DictReader
with open("out.csv") as f:
    rows = [float(r["γ"]) for r in DictReader(
        line for line in f if not line.startswith("#"))]
assert rows == [1, 2, 3], rows
""")

seed(
    "s11-shock-start", "C18",
    [("solve/shock.py",
      "    post_jump_angles = angles[angles >= jump_θ]\n",
      "    post_jump_angles = angles[angles > jump_θ]\n")],
    "trying a shock",
    "the state behind the shock is put at the angle after that of the shock",
    """
from disc_solver.solve.shock import get_shock_modified_initial_conditions
s = make_soln(n=6)
mod = get_shock_modified_initial_conditions(
    initial_conditions=s.initial_conditions, angles=s.angles,
    jump_θ=s.angles[2], pre_jump_values=s.solution[2],
)
assert list(mod.angles) == list(s.angles[2:]), mod.angles
""")

seed(
    "s12-override-equal", "C05",
    [("solve/config.py", """        if key in overrides:
            continue
        elif val != soln_dict[key]:
""", """        if key in overrides and val != overrides[key]:
            continue
        elif val != soln_dict[key]:
""")],
    "overriding a setting with exactly the text or value the configuration "
    "has, for a solution made with another value (as found by the step "
    "method)",
    "the value of the stored solution is used and not the override",
    """
from disc_solver.solve.config import new_inputs_with_overrides
cfg = make_config(split_method="human")
inp = make_input(split_method="v_θ_deriv")
_, new = new_inputs_with_overrides(cfg, inp, {"split_method": "human"})
assert new.split_method == "human", new.split_method
_, new = new_inputs_with_overrides(cfg, inp, {})
assert new.split_method == "v_θ_deriv"
""")

seed(
    "s13-overwrite", "C09",
    [("solve/hdf5runner.py",
      "            with h5open(output_file, registries, mode='x') as f:\n",
      "            with h5open(output_file, registries, mode='w') as f:\n")],
    "a batch run whose output file exists",
    "the existing file is overwritten",
    """
from pathlib import Path
from disc_solver.solve import SONIC_METHOD_MAP
from disc_solver.solve.hdf5runner import SolutionFinder


def method(soln_input, run, **kwargs):
    run.solutions.add_solution(make_soln(soln_input))
    run.final_solution = run.solutions.get_last_solution()
    return True


SONIC_METHOD_MAP["step"] = method
Path("a.hdf5").write_bytes(b"precious")
try:
    SolutionFinder(
        sonic_method="step", store_internal=False, output_file="a.hdf5",
        output_dir=Path("."), overrides=None,
    )(make_config().asdict())
except Exception as e:
    print(type(e))
assert Path("a.hdf5").read_bytes() == b"precious"
""")

seed(
    "s14-unflipped", "C25",
    [("solve/sonic_root.py", """            initial_solution.internal_data +
            sonic_solution.internal_data.flip()
""", """            initial_solution.internal_data +
            sonic_solution.internal_data
""")],
    "matching at the sonic point with internal data kept for both sides",
    "the internal data of the sonic side goes the other way than its states",
    """
from disc_solver.solve.sonic_root import write_solution


def data(*angles):
    d = InternalData()
    for a in angles:
        d.angles.append(a)
        d.params.append(np.full(11, a))
        d.derivs.append(np.full(11, a))
    return d


inp, run = make_input(), make_run()
one = make_soln(inp, internal_data=data(0.0, 0.1))
two = make_soln(
    inp, internal_data=data(0.3, 0.2), angles=np.array([0.3, 0.25, 0.2]),
    initial_conditions=one.initial_conditions,
)
write_solution(run, one, two)
got = list(run.solutions["0"].internal_data.angles)
assert got == [0.0, 0.1, 0.2, 0.3], got
""")

seed(
    "s15-interp-derivs", "C21",
    [("solve/solution.py", """                onroot_func=onroot_func, tstop=tstop,
                ontstop_func=ontstop_func, η_derivs=η_derivs,
""", """                onroot_func=onroot_func, tstop=tstop,
                ontstop_func=ontstop_func,
""")],
    "crossing the sonic point by interpolation with constant diffusivities",
    "the part beyond the sonic point lets the diffusivities change",
    """
from disc_solver.solve.config import define_conditions
from disc_solver.solve.solution import solution
F = np.float64
inp = make_input(
    num_angles=61, stop=F(0.6), γ=F(0.01), sonic_interp_size=F(0.92),
    after_sonic=F(-0.91), interp_slice=slice(-40, None), η_derivs=False,
)
soln = solution(inp, define_conditions(inp))
assert soln.solution[-1, ODEIndex.v_θ] > 0.1, soln.solution[:, 5]
η = soln.solution[:, ODEIndex.η_O]
np.testing.assert_allclose(η, η[0], rtol=1e-12)
""")

seed(
    "s16-latest-text", "C08",
    [("utils.py",
      "        soln_range = str(max(int(soln) for soln in run.solutions))\n",
      "        soln_range = max(run.solutions)\n")],
    "asking for the latest of more than ten solutions of a run with no final "
    "one",
    "the one numbered 9 is given",
    """
from disc_solver.utils import get_solutions
run = make_run()
for i in range(12):
    run.solutions.add_solution(make_soln(make_input(γ=np.float64(1 + i))))
run.final_solution = None
got = get_solutions(run, "latest").solution_input.γ
assert got == 12, got
""")

seed(
    "s17-electric-field", "C19",
    [("solve/j_e_funcs.py",
      "J_φ * b_θ * b_φ - J_θ * (1 - b_θ ** 2)",
      "J_φ * b_θ * b_φ - J_θ * (1 - b_θ)")],
    "solving with E_r, ambipolar diffusion and a field which is not vertical",
    "the derivative of E_r does not use the electric field of the model",
    """
from disc_solver.solve.j_e_funcs import E_θ_func
got = E_θ_func(
    v_r=0.0, v_φ=0.0, B_r=0.0, B_φ=0.0, J_r=0.0, J_θ=1.0, J_φ=0.0, η_O=0.0,
    η_A=1.0, η_H=0.0, b_r=0.6, b_θ=0.8, b_φ=0.0,
)
assert abs(got - 0.36) < 1e-12, got
""")

seed(
    "s18-series-order", "C20",
    [("solve/deriv_midplane.py",
      "            dderiv_η_P - 2 * η_A * deriv_b_φ ** 2\n        )\n",
      "            dderiv_η_P - η_A * deriv_b_φ ** 2\n        )\n")],
    "a series off the midplane with ambipolar and Hall diffusion",
    "its coefficients no longer agree with the equations",
    """
from disc_solver.solve.deriv_midplane import midplane_deriv_A_func
got = midplane_deriv_A_func(
    dderiv_η_H=0.0, dderiv_b_θ=0.0, C=1.0, η_A=1.0, deriv_b_φ=1.0,
    deriv_b_r=0.0, η_P=1.0, η_H=1.0, dderiv_η_P=0.0,
)
assert got == 2, got
""")

seed(
    "s19-indented-comment", "C06",
    [("solve/utils.py",
      "        if line.strip().startswith(self.comment):\n",
      "        if line.startswith(self.comment):\n")],
    "a comment in a batch file which does not start in the first column",
    "it is read as a row (or as the header)",
    """
from disc_solver.solve.utils import get_csv_inputs
cfg = make_config().asdict()
with open("in.csv", "w") as f:
    f.write(",".join(cfg) + "\\n")
    f.write("  # a comment\\n")
    f.write(",".join('"%s"' % v for v in cfg.values()) + "\\n")
rows = get_csv_inputs("in.csv", label="a")
assert len(rows) == 1, rows
""")

seed(
    "s20-old-problems", "C02",
    [("file_format/_loaders.py", """        ρ_taylor=group["ρ_taylor"]["data"],
        problems=group["problems"],
    )
""", """        ρ_taylor=group["ρ_taylor"]["data"],
    )
""")],
    "a file with internal data of version 2 which has problems stored",
    "the problems are lost when loading",
    """
import h5py
from h5preserve import open as h5open
from disc_solver.file_format import registries
run = make_run()
data = InternalData()
data.problems[0.5].append("negative velocity")
run.solutions.add_solution(make_soln(internal_data=data))
run.final_solution = None
with h5open("a.hdf5", registries, mode="x") as f:
    f["run"] = run
with h5py.File("a.hdf5", "r+") as f:
    attrs = f["run/solutions/0/internal_data"].attrs
    name, = [n for n in attrs if "version" in n]
    attrs[name] = 2
with h5open("a.hdf5", registries, mode="r") as f:
    got = f["run"].solutions["0"].internal_data.problems
assert list(got["0.5"]) == ["negative velocity"], got
""")

seed(
    "s21-slice-step", "C01",
    [("file_format/_loaders.py", """        ensure_fully_loaded(group["stop"]),
        ensure_fully_loaded(group["step"]),
""", """        ensure_fully_loaded(group["stop"]),
""")],
    "a slice of data for interpolation which has a step",
    "the step is lost when reading the file",
    """
from h5preserve import open as h5open
from disc_solver.file_format import registries
run = make_run()
run.solutions.add_solution(
    make_soln(make_input(interp_slice=slice(-1000, -100, 3))))
run.final_solution = None
with h5open("a.hdf5", registries, mode="x") as f:
    f["run"] = run
with h5open("a.hdf5", registries, mode="r") as f:
    got = f["run"].solutions["0"].solution_input.interp_slice
assert got == slice(-1000, -100, 3), got
""")

seed(
    "s22-first-override", "C04",
    [("solve/utils.py",
      "            clean_overrides[name] = value\n",
      "            clean_overrides.setdefault(name, value)\n")],
    "the same setting overridden twice on the command line",
    "the first override wins, and not the last",
    """
from disc_solver.solve.utils import validate_overrides
got = validate_overrides([("γ", "1"), ("stop", "2"), ("γ", "3")])
assert got == {"γ": "3", "stop": "2"}, got
""")

seed(
    "s23-internal-default", "C28",
    [("solve/utils.py", """    internal_store_group.add_argument(
        "--store-internal", action='store_true', default=store_internal
    )
    internal_store_group.add_argument(
        "--no-store-internal", action='store_false', dest="store_internal",
    )
""", """    internal_store_group.add_argument(
        "--no-store-internal", action='store_false', dest="store_internal",
    )
    internal_store_group.add_argument(
        "--store-internal", action='store_true', default=store_internal
    )
""")],
    "running the batch to table command with no option on internal data",
    "internal data is kept by default, as the first option added decides the "
    "default",
    """
from argparse import ArgumentParser
from disc_solver.solve.utils import add_solver_arguments
for default in (True, False):
    for argv, expect in (
        ([], default), (["--store-internal"], True),
        (["--no-store-internal"], False),
    ):
        parser = ArgumentParser()
        add_solver_arguments(parser, store_internal=default)
        got = parser.parse_args(argv).store_internal
        assert got is expect, (default, argv, got)
""")

seed(
    "s24-stdin-spaces", "C22",
    [("analyse/stats.py", "            yield line.strip()\n",
      "            yield line.split()[0]\n")],
    "a file whose name has a space in it, given on standard input",
    "the part of the name after the space is lost, so the file is not found "
    "(or another one is read)",
    """
import io
from types import SimpleNamespace
from disc_solver.analyse import stats
stats.stdin = io.StringIO("a.hdf5\\nmy run.hdf5\\n")
got = list(stats.get_all_files(SimpleNamespace(
    solution_files=["x y"], with_stdin=True)))
assert got == ["x y", "a.hdf5", "my run.hdf5"], got
""")

seed(
    "s25-stats-all-nan", "C22",
    [("analyse/stats.py", """            idx = nanargmax(mach)
        except ValueError:
            return nan
""", """            idx = nanargmax(mach)
        except ValueError:
            idx = 0
""")],
    "a solution for which one of the wave speeds is not a number at all "
    "angles",
    "the angle of the maximum is given as that of the first point, though "
    "there is no maximum",
    """
import warnings
from disc_solver.analyse import stats
warnings.simplefilter("ignore")
soln = make_soln()
one = np.array([0.5, 2.0, 1.0])
stats.get_mach_numbers = lambda s: (one * np.nan, one, one, one[::-1])
got = stats.get_max_mach_numbers(soln)
assert got["max_sonic_mach_angle_degrees"] == np.degrees(soln.angles[1])
assert np.isnan(got["max_slow_mach_angle_degrees"]), got
""")

seed(
    "s26-field-line-file", "C23",
    [("analyse/trajectory.py", "    with open(B_output_file, 'x') as f:\n",
      "    with open(B_output_file, 'w') as f:\n")],
    "writing the field line to a file which exists, with the other outputs "
    "to new files",
    "the file is overwritten, and no error is given",
    """
from h5preserve import open as h5open
from disc_solver.file_format import registries
from disc_solver.analyse.trajectory import save_trajectory
run = make_run()
soln = make_soln(n=20)
run.solutions.add_solution(soln)
run.final_solution = soln
with h5open("a.hdf5", registries, mode="x") as f:
    f["run"] = run
open("B.csv", "w").write("precious")
failed = False
try:
    save_trajectory(
        "a.hdf5", soln_range="0", stats_output_file="s.csv",
        v_output_file="v.csv", B_output_file="B.csv", v_max_steps=3,
        B_max_steps=3)
except FileExistsError:
    failed = True
assert open("B.csv").read() == "precious"
assert failed
""")

seed(
    "s27-other-side", "C23",
    [("analyse/trajectory.py", "    array, sin, cos, arctan2, degrees, tan,\n",
      "    array, sin, cos, arctan, arctan2, degrees, tan,\n"),
     ("analyse/trajectory.py", "    θ_pos = arctan2(y, x)\n",
      "    θ_pos = arctan(y / x)\n")],
    "a line which crosses the axis, or starts on the other side of it",
    "the line is continued (by the values of the wrong angle) where there is "
    "no solution",
    """
from disc_solver.analyse.trajectory import get_trajectory
angles = np.linspace(0, 1.2, 30)
vals, pos = get_trajectory(
    x_start=-1.0, y_start=0.5, angles=angles, r_vals=np.ones(30),
    θ_vals=np.ones(30), radial_power=-0.5, max_steps=10)
assert len(pos) == 0, pos
vals, pos = get_trajectory(
    x_start=1.0, y_start=0.5, angles=angles, r_vals=np.ones(30),
    θ_vals=np.ones(30), radial_power=-0.5, max_steps=10)
assert len(pos) == 10
""")

seed(
    "s28-pool-after-error", "C24",
    [("utils.py", """        yield pool
    finally:
        # terminate is usually called, which can break stuff if there's a
        # problem
        pool.close()
        pool.join()
""", """        yield pool
        # terminate is usually called, which can break stuff if there's a
        # problem
        pool.close()
    except Exception:
        pool.terminate()
        raise
    finally:
        pool.join()
""")],
    "an error after work was given to the pool, before it is done",
    "the work already given to the pool is lost",
    """
import time
from pathlib import Path
from disc_solver.utils import nicer_mp_pool


def work(i):
    time.sleep(0.3)
    Path("done%d" % i).touch()


if __name__ == "__main__":
    try:
        with nicer_mp_pool(2) as pool:
            for i in range(6):
                pool.apply_async(work, (i,))
            raise KeyError("stop")
    except KeyError:
        pass
    got = [i for i in range(6) if Path("done%d" % i).exists()]
    assert got == list(range(6)), got
""")

seed(
    "s29-file-level", "C24",
    [("logging.py", """            level=args.get("log_file_level", "DEBUG").upper(), bubble=True
""", """            level=stderr_handler.level_name.upper() if args.get("verbose")
            else args.get("log_file_level", "DEBUG").upper(), bubble=True
""")],
    "a level for the log file together with the verbose option",
    "the verbose option, which is about the terminal, also changes the level "
    "of the log file",
    """
import logbook
from argparse import ArgumentParser
from disc_solver.logging import log_handler, logging_options
parser = ArgumentParser()
logging_options(parser)
args = parser.parse_args([
    "--log-file", "l.txt", "--log-file-level", "error", "--verbose"])
log = logbook.Logger("x")
with log_handler(args, thread_wrapping=False):
    log.info("small")
    log.error("large")
text = open("l.txt").read()
assert "large" in text and "small" not in text, text
""")

seed(
    "s30-vert-offset", "C26",
    [("analyse/vert_plot.py", """        ordering, initial_conditions=cons, v_φ_offset=sqrt(
            cons.norm_kepler_sq / get_vertical_scaling(
                angles, c_s_on_v_k=inp.c_s_on_v_k
            )
        ),
""", """        ordering, initial_conditions=cons, v_φ_offset=sqrt(
            cons.norm_kepler_sq / get_vertical_scaling(
                angles[0], c_s_on_v_k=inp.c_s_on_v_k
            )
        ),
""")],
    "points away from the midplane in the vertical plot",
    "the Keplerian velocity of the midplane is taken off at all heights",
    """
import matplotlib.pyplot as plt
from disc_solver.analyse import vert_plot
soln = make_soln(n=20)
soln.angles = np.linspace(0, 1.0, 20)
run = make_run()
run.solutions.add_solution(soln)
fig = vert_plot.generate_plot(run, "0", filename="x")
from disc_solver.utils import convert_spherical_to_cylindrical, \\
    CylindricalODEIndex
inp = soln.solution_input
heights, vert = convert_spherical_to_cylindrical(
    soln.angles, soln.solution, γ=inp.γ, c_s_on_v_k=inp.c_s_on_v_k,
    use_E_r=False)
i = int(CylindricalODEIndex.v_φ)
y = fig.axes[i].lines[0].get_ydata()
R = 1 + (heights * inp.c_s_on_v_k) ** 2
off = vert[:, i][heights <= 90] - y
print(off)
assert not np.allclose(off[:3], off[0], rtol=1e-6, atol=0), off
""")

seed(
    "s31-first-angle", "C26",
    [("analyse/combine_plot.py",
      "    indexes = (start <= degrees(angles)) & (degrees(angles) <= stop)\n",
      "    indexes = (degrees(angles) > start) & (degrees(angles) <= stop)\n"),
     ],
    "a solution with a point exactly at the start of the range of angles",
    "the point at the start of the range is not shown",
    """
from disc_solver.analyse import combine_plot
soln = make_soln(n=20)
run = make_run()
run.solutions.add_solution(soln)
fig = combine_plot.generate_plot_combine(run, "0", filename="x")
x = fig.axes[0].lines[0].get_xdata()
assert np.array_equal(x, np.degrees(soln.angles)), x
fig = combine_plot.generate_plot_combine(
    run, "0", filename="x", start=float(np.degrees(soln.angles)[3]))
x = fig.axes[0].lines[0].get_xdata()
assert np.array_equal(x, np.degrees(soln.angles)[3:]), x
""")

seed(
    "s32-ambipolar-field", "C30",
    [("solve/j_e_funcs.py",
      "J_r * b_r * b_θ + J_φ * b_θ * b_φ - J_θ * (1 - b_θ ** 2)",
      "J_r * b_r * b_θ + J_φ * b_θ * b_φ - J_θ * (1 + b_θ ** 2)")],
    "ambipolar diffusion with a polar component of both field and current",
    "the polar electric field has the wrong sign in one term",
    """
from disc_solver.solve.j_e_funcs import E_θ_func
# current along the field: no ambipolar part
b = np.array([2.0, 3.0, 6.0]) / 7
got = E_θ_func(
    v_r=0.0, v_φ=0.0, B_r=b[0], B_φ=b[2], J_r=b[0], J_θ=b[1], J_φ=b[2],
    η_O=0.0, η_A=1.0, η_H=0.0, b_r=b[0], b_θ=b[1], b_φ=b[2])
assert abs(got) < 1e-12, got
""")

seed(
    "s33-uneven-angles", "C30",
    [("analyse/validate_plot.py",
      "            gradient(solution.solution[:, i], solution.angles)\n",
      "            gradient(\n"
      "                solution.solution[:, i],\n"
      "                solution.angles[1] - solution.angles[0],\n"
      "            )\n")],
    "a solution without internal data whose angles are not evenly spaced",
    "the derivatives, and so the residuals of the equations, are wrong",
    """
from disc_solver.analyse.validate_plot import get_values
angles = np.array([0, 0.01, 0.03, 0.04, 0.08])
sol = np.ones((5, 11))
sol[:, ODEIndex.v_r] = 3 * angles
soln = make_soln(n=5, angles=angles, solution=sol)
got = get_values(soln).deriv.v_r
assert np.allclose(got, 3), got
""")

seed(
    "s34-modified-midplane", "C31",
    [("solve/mod_hydro.py",
      "        2 * sqrt(norm_kepler_sq) - v_r * η_H / (2 * η_P)\n",
      "        2 * sqrt(norm_kepler_sq) + v_r * η_H / (2 * η_P)\n")],
    "mod_hydro with Hall diffusivity",
    "the conditions at the midplane do not fulfil the radial momentum",
    """
from disc_solver.solve.mod_hydro import mod_hydro_define_conditions
f = np.float64
inp = make_input(η_O=f(1), η_A=f(0), η_H=f(0.5))
cons = mod_hydro_define_conditions(inp)
v_r, v_φ = cons.init_con[ODEIndex.v_r], cons.init_con[ODEIndex.v_φ]
K = cons.norm_kepler_sq
slope = cons.init_con[ODEIndex.B_φ_prime]
# no azimuthal electric field
J_φ = -v_r - 0.5 * slope
left = v_r**2 / 2 + 2.5 + 2 * np.sqrt(K) * v_φ - 2 * K + J_φ * cons.a_0
assert abs(left) < 1e-8, left
""")

seed(
    "s35-tracked-root", "C31",
    [("solve/mod_hydro.py",
      """        return cubic_solver.solve_root([a_3, a_2, a_1, a_0])
""",
      """        v_r = cubic_solver.solve_root([a_3, a_2, a_1, a_0])
        if abs(v_r) > 2 * abs(initial_v_r):
            # lost the solution
            v_r = initial_v_r
        return v_r
""")],
    "a radial velocity which becomes more than twice that at the midplane, "
    "with E_r",
    "the velocities of the solution do not fulfil the momentum equations",
    """
from disc_solver.solve.mod_hydro import ode_system
init = np.array([0, 0, 1, -0.01, 33, 0, 1, -16, 1, 0, 0], dtype=float)
rhs, _ = ode_system(a_0=1.0, norm_kepler_sq=1100.0, init_con=init,
                    store_internal=False, use_E_r=True)
K, θ, found = 1100.0, 0.05, []
for E_r in (-16.6, -15.0, -10.0):
    p = np.array([0.1, -0.3, 1, 0, 0, 0, 0.8, E_r, 1, 0, 0])
    d = np.zeros(11)
    assert rhs(θ, p, d) == 0
    v_r, v_φ = p[ODEIndex.v_r], p[ODEIndex.v_φ]
    left = v_r * v_φ / 2 - (
        d[1] + 0.3 * 0.1 / 4 + 0.3 * np.tan(θ)) / 0.8
    found.append(abs(left) / abs(v_r * v_φ))
    J_φ = d[0] + 0.25
    found.append(abs(
        v_r**2 / 2 + 2.5 + 2 * np.sqrt(K) * v_φ - 2 * K +
        (J_φ + 0.25 * 0.3**2) / 0.8) / K)
assert max(found) < 1e-9, found
""")

seed(
    "s36-given-gamma", "C31",
    [("solve/hydrostatic.py",
      "        v_r=v_r, η_H=η_H, η_P=η_P, norm_kepler_sq=norm_kepler_sq, a_0=a_0, γ=0\n",
      "        v_r=v_r, η_H=η_H, η_P=η_P, norm_kepler_sq=norm_kepler_sq, a_0=a_0,\n"
      "        γ=inp.γ\n")],
    "the hydrostatic method with an input whose γ is not 0",
    "the conditions at the midplane do not fulfil the radial momentum",
    """
from disc_solver.solve.hydrostatic import hydrostatic_define_conditions
one, two = [
    hydrostatic_define_conditions(make_input(
        γ=np.float64(γ), η_O=np.float64(1))).init_con
    for γ in (0, 0.25)
]
assert np.array_equal(one, two), (one, two)
""")

seed(
    "s37-shared-conditions", "C32",
    [("solve/taylor_space.py",
      "    for i, inp in enumerate(solution_input_generator(",
      "    last = None\n"
      "    for i, inp in enumerate(solution_input_generator("),
     ("solve/taylor_space.py",
      "        taylor_orders[i] = compute_taylor_values(inp)\n",
      "        point = (inp.γ, inp.v_rin_on_c_s, inp.v_a_on_c_s)\n"
      "        if point == last:\n"
      "            taylor_orders[i] = taylor_orders[i - 1]\n"
      "        else:\n"
      "            taylor_orders[i] = compute_taylor_values(inp)\n"
      "        last = point\n")],
    "ranges which hold all but c_s_on_v_k fixed",
    "the samples have the coefficients of the first sample",
    """
from disc_solver.solve.taylor_space import compute_taylor_space
space = compute_taylor_space(
    γ=[0.001, 0.001], v_rin_on_c_s=[0.5, 0.5], v_a_on_c_s=[1.0, 1.0],
    c_s_on_v_k=[0.03, 0.05], η_O=0.01, num_samples=5)
v_φ = space.taylor_orders[:, 0, ODEIndex.v_φ]
assert len(set(v_φ)) == 5, v_φ
""")

seed(
    "s38-series-tolerances", "C33",
    [("solve/solution.py",
      """                relative_tolerance=relative_tolerance,
                absolute_tolerance=absolute_tolerance, max_steps=max_steps,
                taylor_stop_angle=taylor_stop_angle, η_derivs=η_derivs,
""",
      """                relative_tolerance=relative_tolerance,
                max_steps=max_steps,
                taylor_stop_angle=taylor_stop_angle, η_derivs=η_derivs,
""")],
    "the series integrated (no jump) with an absolute tolerance which is not "
    "the default one",
    "the first stage of the solution ignores the absolute tolerance",
    """
from disc_solver.solve.config import define_conditions
from disc_solver.solve.solution import solution
f = np.float64
ends = []
for tol in (1e-3, 1e-13):
    inp = make_input(
        γ=f(0.01), stop=f(0.6), num_angles=20, use_taylor_jump=False,
        taylor_stop_angle=f(0.1), relative_tolerance=f(1e-12),
        absolute_tolerance=f(tol), max_steps=100000)
    ends.append(solution(inp, define_conditions(inp)).solution[3])
assert not np.array_equal(*ends), ends
""")

seed(
    "s39-interp-steps", "C33",
    [("solve/solution.py",
      """            absolute_tolerance=absolute_tolerance, max_steps=max_steps,
            θ_scale=θ_scale, use_E_r=use_E_r, store_internal=store_internal,
            interp_slice=interp_slice, after_sonic=(
""",
      """            absolute_tolerance=relative_tolerance, max_steps=max_steps,
            θ_scale=θ_scale, use_E_r=use_E_r, store_internal=store_internal,
            interp_slice=interp_slice, after_sonic=(
""")],
    "interpolating across the sonic point with tolerances far apart",
    "the stage across the sonic point uses the relative tolerance as the "
    "absolute one",
    """
import scikits.odes
import disc_solver.solve.solution as module
from disc_solver.solve.config import define_conditions
given, real = set(), scikits.odes.ode


def ode(*args, **kwargs):
    given.add(float(kwargs["atol"]))
    return real(*args, **kwargs)


for name, val in list(vars(module).items()):
    if val is real:
        setattr(module, name, ode)
f = np.float64
inp = make_input(
    γ=f(0.01), stop=f(0.6), num_angles=20, sonic_interp_size=f(0.95),
    after_sonic=f(-0.91), interp_slice=slice(-40, None),
    relative_tolerance=f(1e-5), absolute_tolerance=f(1e-12))
module.solution(inp, define_conditions(inp))
assert given == {1e-12}, given
""")

if __name__ == "__main__":
    write(sys.argv[1:] or list(SEEDS))
