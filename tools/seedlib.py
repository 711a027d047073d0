# -*- coding: utf-8 -*-
"""
Write planted bugs to /verif/seeded from their descriptions (see seeds.py):
the edits are made in a scratch copy of /repo, and the difference, a
demonstration and a description are stored. No check uses any of this.
"""
import json
import shutil
import subprocess
import sys
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
DEMO_SH = """#!/bin/bash
# run in the repository: succeeds if the code behaves, fails if it does not
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH=$PWD/src MPLBACKEND=Agg OMP_NUM_THREADS=1
export PYTHONDONTWRITEBYTECODE=1 PYTHONUTF8=1
scratch=$(mktemp -d) || exit 2
trap 'rm -rf "$scratch"' EXIT
cd "$scratch" || exit 2
MPLCONFIGDIR=$scratch/mpl timeout 280 /opt/venv/bin/python "$here/demo.py"
"""

PRELUDE = """# -*- coding: utf-8 -*-
import numpy as np
from disc_solver.file_format import (
    Solution, SolutionInput, InternalData, InitialConditions, Problems, Run,
    ConfigInput,
)
from disc_solver.utils import ODEIndex
from scikits.odes.sundials.cvode import StatusEnum


def make_input(**kwargs):
    f = np.float64
    base = dict(
        start=f(0), stop=f(5), taylor_stop_angle=f(0.001), max_steps=10000,
        num_angles=50, relative_tolerance=f(1e-6),
        absolute_tolerance=f(1e-10), γ=f(0.001), nwalkers=8, iterations=3,
        threads=1, target_velocity=f(0.9), split_method="v_θ_deriv",
        v_rin_on_c_s=f(1), v_a_on_c_s=f(1), c_s_on_v_k=f(0.03), η_O=f(0.001),
        η_H=f(0.0001), η_A=f(0.0005),
    )
    base.update(kwargs)
    return SolutionInput(**base)


def make_soln(inp=None, n=3, **kwargs):
    base = dict(
        solution_input=make_input() if inp is None else inp,
        angles=np.linspace(0, 0.1, n),
        solution=1 + np.arange(n * 11, dtype=float).reshape(n, 11) / 16,
        flag=StatusEnum.SUCCESS, coordinate_system="spherical midplane 0",
        internal_data=None, initial_conditions=InitialConditions(
            norm_kepler_sq=1000.0, a_0=1.0, γ=0.001,
            init_con=np.arange(1.0, 12), angles=np.linspace(0, 0.1, n),
        ),
        t_roots=None, y_roots=None, sonic_point=None, sonic_point_values=None,
    )
    base.update(kwargs)
    return Solution(**base)


def make_config(**kwargs):
    return make_input(**kwargs).to_config_input(label="lbl")


def make_run(**kwargs):
    base = dict(
        config_input=make_config(), config_filename="x.conf",
        disc_solver_version="v", float_type="f8", sonic_method="single",
    )
    base.update(kwargs)
    return Run(**base)


"""
SEEDS = {}


def seed(name, prop, edits, needs, breaks, demo):
    """Describe a planted bug; edits are (file, old, new[, which])"""
    assert name not in SEEDS, name
    SEEDS[name] = dict(
        prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo,
    )


def apply(base, edits):
    """Make the edits in a copy"""
    for edit in edits:
        path, old, new = edit[:3]
        which = edit[3] if len(edit) > 3 else None
        file = Path(base) / "src/disc_solver" / path
        text = file.read_text(encoding="utf8")
        count = text.count(old)
        if which is None:
            assert count == 1, (path, old, count)
            text = text.replace(old, new)
        else:
            parts = text.split(old)
            text = (
                old.join(parts[:which + 1]) + new +
                old.join(parts[which + 1:])
            )
        file.write_text(text, encoding="utf8")


def write(names, work="/tmp/seed/work"):
    """Write the folders of the seeds named"""
    for name in names:
        info = SEEDS[name]
        shutil.rmtree(work, ignore_errors=True)
        subprocess.run(
            ["git", "clone", "-q", "/repo", work], check=True)
        apply(work, info["edits"])
        diff = subprocess.run(
            ["git", "-C", work, "diff"], check=True, capture_output=True,
        ).stdout
        assert diff, name
        folder = VERIF / "seeded" / name
        folder.mkdir(parents=True, exist_ok=True)
        (folder / "patch.diff").write_bytes(diff)
        (folder / "demo.sh").write_text(DEMO_SH, encoding="utf8")
        (folder / "demo.sh").chmod(0o755)
        (folder / "demo.py").write_text(PRELUDE + info["demo"].lstrip(),
                                        encoding="utf8")
        (folder / "meta.json").write_text(json.dumps({
            "property": info["prop"], "needs": info["needs"],
            "what_it_breaks": info["breaks"],
        }, ensure_ascii=False, indent=1) + "\n", encoding="utf8")
        good = subprocess.run(
            [str(folder / "demo.sh")], cwd="/repo", capture_output=True)
        bad = subprocess.run(
            [str(folder / "demo.sh")], cwd=work, capture_output=True)
        print(name, "good", good.returncode, "bad", bad.returncode,
              "" if good.returncode == 0 and bad.returncode != 0 else
              "PROBLEM\n" + (good.stdout + good.stderr).decode()[-800:] +
              (bad.stdout + bad.stderr).decode()[-400:])
        print("   ", (bad.stdout + bad.stderr).decode()[-150:].strip()
              .replace("\n", " | "))
        shutil.rmtree(work, ignore_errors=True)
        sys.stdout.flush()
