SOLN = '''
import os
import tempfile
import numpy as np
from disc_solver.file_format import (
    Solution, SolutionInput, ConfigInput, InitialConditions, Run,
)


def make(**kw):
    args = dict(
        start=0.0, stop=5.0, taylor_stop_angle=0.001, max_steps=10000,
        num_angles=200, relative_tolerance=1e-6, absolute_tolerance=1e-10,
        γ=0.001, nwalkers=8, iterations=3, threads=1, target_velocity=0.9,
        split_method="v_θ_deriv", v_rin_on_c_s=1.0, v_a_on_c_s=1.0,
        c_s_on_v_k=0.03, η_O=0.001, η_H=0.0001, η_A=0.0005, η_derivs=True)
    args.update(kw)
    return SolutionInput(**args)


def build(values, angles, flag=0, roots=None, **kw):
    """A solution with the values given"""
    inp = make(**kw)
    return Solution(
        solution_input=inp, angles=angles, solution=values, flag=flag,
        coordinate_system="spherical midplane 0", internal_data=None,
        initial_conditions=InitialConditions(
            norm_kepler_sq=inp.c_s_on_v_k ** -2, a_0=inp.v_a_on_c_s ** 2,
            γ=inp.γ, init_con=values[0].copy(), angles=angles.copy()),
        t_roots=None if roots is None else roots[0],
        y_roots=None if roots is None else roots[1],
        sonic_point=None, sonic_point_values=None, derivatives=None)


def rows(n, seed=1):
    rng = np.random.default_rng(seed)
    values = rng.uniform(0.3, 1.0, (n, 11))
    values[:, 5] = np.linspace(0, 0.9, n)
    values[:, 4] += 30
    return values, np.linspace(0.0, 0.5, n)


def run_of(*solns):
    run = Run(
        config_input=None, config_filename="a", disc_solver_version="1",
        float_type="float64", sonic_method="single")
    for soln in solns:
        run.solutions.add_solution(soln)
    return run
'''
BUGS = [
    dict(
        id="c12-comment-anywhere", property="C12", file="solve/utils.py",
        edits=[("        if line.strip().startswith(self.comment):\n",
                "        if self.comment in line:\n")],
        needs="a row of a table with the comment character within a cell",
        breaks="rows which have a # in a cell are dropped as comments",
        demo='''
import csv
from disc_solver.solve.utils import CSVReaderHelper
lines = ["# a comment\\n", "label,v_a_on_c_s\\n", "first,1\\n", "run #2,2\\n"]
rows = list(csv.DictReader(CSVReaderHelper(lines)))
assert [r["label"] for r in rows] == ["first", "run #2"], rows
'''),
    dict(
        id="c13-last-solution-as-text", property="C13",
        file="file_format/_containers.py",
        edits=[("self[sorted(list(self), key=int)[-1]]",
                "self[sorted(list(self))[-1]]")],
        needs="a run with more than ten solutions",
        breaks="the last solution is the last by the text of its number",
        demo='''
from disc_solver.file_format import Run
run = Run(config_input=None, config_filename="a", disc_solver_version="1",
          float_type="float64", sonic_method="step")
for i in range(13):
    run.solutions.add_solution("solution %d" % i)
assert run.solutions.get_last_solution() == "solution 12"
'''),
    dict(
        id="c14-problems-replaced", property="C14",
        file="file_format/_containers.py",
        edits=[("        problems.update(other.problems)\n",
                "        problems.update({\n"
                "            key: val for key, val in other.problems.items()\n"
                "            if key not in list(problems)\n        })\n")],
        needs="two parts of internal data with problems at the same angle",
        breaks="problems found at the same angle of the second part are lost",
        demo='''
from disc_solver.file_format import InternalData
a, b = InternalData(), InternalData()
a.problems["0.5"] = "negative density"
b.problems["0.5"] = "negative velocity"
b.problems["0.6"] = "other"
total = dict((a + b).problems.items())
assert total == {
    "0.5": ["negative density", "negative velocity"], "0.6": ["other"],
}, total
'''),
    dict(
        id="c15-closest-leading-nan", property="C15", file="utils.py",
        edits=[("    if a[first_nan_free_index] < val:\n",
                "    if a[0] < val:\n")],
        needs="values which are unknown (NaN) at the first angle",
        breaks="the crossing of a wave speed is not found where the first "
        "mach numbers are NaN",
        demo='''
import numpy as np
from disc_solver.utils import first_closest_index
a = np.array([np.nan, 0.2, 0.8, 1.3, 1.9])
assert first_closest_index(a, 1) == 3, first_closest_index(a, 1)
'''),
    dict(
        id="c16-single-row-diffusivities", property="C16", file="utils.py",
        edits=[(
            "        scaled_soln[DIFFUSIVE_INDEXES] = η_scale * "
            "soln[DIFFUSIVE_INDEXES]\n",
            "        scaled_soln[DIFFUSIVE_INDEXES] = v_scale * "
            "soln[DIFFUSIVE_INDEXES]\n")],
        needs="a single row of values, not a whole solution",
        breaks="diffusivities of single rows scale as velocities",
        demo='''
import numpy as np
from disc_solver.utils import scale_solution_to_radii
row = np.arange(1, 12) / 7
one = scale_solution_to_radii(row, 4.0, γ=0.1, use_E_r=False)
many = scale_solution_to_radii(
    np.array([row, row]), np.array([4.0, 4.0]), γ=0.1, use_E_r=False)
assert np.allclose(one, many[0], rtol=1e-12), (one, many[0])
'''),
    dict(
        id="c17-min-limit-quality", property="C17",
        file="solve/fast_crosser.py",
        edits=[('''                limits["min"] = current_v_r
                limits["min_val"] = current_quality
                log.notice("searching for min''',
                '''                limits["min"] = current_v_r
                log.notice("searching for min''')],
        needs="more than one improving step towards lower velocities, of "
        "which a later one is worse than the one before",
        breaks="the search for the lower limit goes on past the best "
        "velocity, comparing with the quality at the start",
        demo='''
from types import SimpleNamespace
import numpy as np
from disc_solver.file_format import SolutionInput
from disc_solver.solve.fast_crosser import stepper_creator
inp = SolutionInput(
    start=0, stop=5, taylor_stop_angle=0, max_steps=10, num_angles=10,
    relative_tolerance=1e-6, absolute_tolerance=1e-6, γ=0.001, nwalkers=1,
    iterations=1, threads=1, target_velocity=1, split_method="v_θ_deriv",
    v_rin_on_c_s=1.0, v_a_on_c_s=1, c_s_on_v_k=0.1, η_O=1, η_H=1, η_A=1)


def quality(v):  # best at 0.8, but still better at 0.6 than at 1
    return 10 - abs(v - 0.8) + (0 if v > 0.7 else 0.05)


step = stepper_creator(
    lambda soln, attempt: None, step_size=0.1, solution_input=inp)
tried, now = [], inp
for attempt in range(6):
    tried.append(round(now.v_rin_on_c_s, 9))
    now = step(SimpleNamespace(
        solution_input=now, angles=np.array([0, quality(now.v_rin_on_c_s)]),
    ), attempt)
# 1, up 1.1 (worse), down 0.9, 0.8, 0.7 (worse than 0.8): section
assert tried[:5] == [1.0, 1.1, 0.9, 0.8, 0.7], tried
assert tried[5] > 0.8, tried
'''),
    dict(
        id="c18-post-max-forgets-min-angle", property="C18",
        file="solve/shock.py",
        edits=[("        min_angle_rad = max(min_angle_rad, "
                "angles[max_v_θ_index])\n",
                "        min_angle_rad = angles[max_v_θ_index]\n")],
        needs="a profile whose fastest row is below the minimum angle",
        breaks="shocks are tried below the minimum angle asked for",
        demo=SOLN + '''
from disc_solver.solve.shock import find_shock_test_values
values, angles = rows(21)
angles = np.radians(np.linspace(0, 80, 21))
values[:, 5] = np.concatenate([np.linspace(0, 4, 6), np.linspace(3.9, 2, 15)])
got, _ = find_shock_test_values(build(values, angles), min_angle=40)
assert np.degrees(got).min() > 40, np.degrees(got)
'''),
    dict(
        id="c21-resolve-overwrites", property="C21", file="solve/resolve.py",
        edits=[("    with h5open(output_file, registries, mode='x') as f:\n",
                "    with h5open(output_file, registries, mode='w') as f:\n")],
        needs="re-solving to an output file which exists",
        breaks="an existing file of results is overwritten by ds-resoln",
        demo=SOLN + '''
import contextlib
import io
from pathlib import Path
import disc_solver.solve.resolve as resolve
from h5preserve import open as h5open
from disc_solver.file_format import registries

with tempfile.TemporaryDirectory() as d:
    d = Path(d)
    values, angles = rows(5)
    run = run_of(build(values, angles))
    inp = vars(make())
    run.config_input = ConfigInput(
        label="a", **{k: str(v) for k, v in inp.items()})
    run.final_solution = run.solutions["0"]
    with h5open(d / "old.hdf5", registries, mode="x") as f:
        f["run"] = run
        run.finalise()
    (d / "kept.hdf5").write_bytes(b"precious")
    resolve.SONIC_METHOD_MAP = {"single": lambda inp, run, **kw: False}
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            resolve.resolve(
                output_file="kept.hdf5", sonic_method="single",
                soln_filename=d / "old.hdf5", soln_range="0", output_dir=d,
                store_internal=True)
    except Exception:
        pass
    assert (d / "kept.hdf5").read_bytes() == b"precious"
'''),
    dict(
        id="c22-mach-maximum-nan", property="C22", file="analyse/stats.py",
        edits=[("            idx = nanargmax(mach)\n",
                "            idx = mach.argmax()\n")],
        needs="mach numbers that are not defined in some rows",
        breaks="the angle of the greatest mach number is that of a row where "
        "it is NaN",
        demo=SOLN + '''
from disc_solver.analyse.stats import get_max_mach_numbers
values, angles = rows(12)
values[4, 6] = np.nan  # density
with np.errstate(all="ignore"):
    got = get_max_mach_numbers(build(values, angles))
for name in ("slow", "fast", "alfven"):
    at = got["max_%s_mach_angle_degrees" % name]
    assert abs(at - np.degrees(angles[4])) > 1e-6, (name, at)
'''),
    dict(
        id="c23-E-polar-sign", property="C23", file="analyse/validate_plot.py",
        edits=[("    E_θ_dash = E_θ + values.v_r * values.B_φ - "
                "values.v_φ * values.B_r\n",
                "    E_θ_dash = E_θ + values.v_φ * values.B_r - "
                "values.v_r * values.B_φ\n")],
        needs="the polar electric field in the frame of the fluid",
        breaks="E_θ' has the wrong sign of the part from the velocity",
        demo=SOLN + '''
from disc_solver.analyse.validate_plot import get_values
values, angles = rows(8)
v = get_values(build(values, angles))
B = np.array([v.B_r, v.B_θ, v.B_φ])
V = np.array([v.v_r, v.v_θ, v.v_φ])
E = np.array([v.E_r, v.E_θ, v.E_φ])
# E' = E + v x B, whose part along the velocity is that of E
dash = np.array([v.E_r_dash, v.E_θ_dash, v.E_φ_dash])
assert np.allclose((dash * V).sum(0), (E * V).sum(0), rtol=1e-6), "E' . v"
'''),
    dict(
        id="c24-point-diffusivities", property="C24",
        file="analyse/compute_jacobian.py",
        edits=[('''    return compute_jacobian(
        γ=γ, a_0=a_0, norm_kepler_sq=norm_kepler_sq, init_con=init_con,
        θ_scale=θ_scale, η_derivs=η_derivs, use_E_r=use_E_r, θ=angles,
        params=solution, eps=eps,
    )[0]
''', '''    return compute_jacobian(
        γ=γ, a_0=a_0, norm_kepler_sq=norm_kepler_sq, init_con=solution[0],
        θ_scale=θ_scale, η_derivs=η_derivs, use_E_r=use_E_r, θ=angles,
        params=solution, eps=eps,
    )[0]
''')],
        needs="a Jacobian at a point away from the midplane",
        breaks="the Jacobian at a critical point takes the diffusivities of "
        "that point to be those of the midplane",
        demo=SOLN + '''
from disc_solver.analyse.compute_jacobian import (
    compute_jacobian_at_index, compute_jacobian_from_solution)
values, angles = rows(9, seed=3)
soln = build(values, angles + 0.1)
for i in (4, 8):
    one = compute_jacobian_at_index(soln, eps=1e-6, index=i)
    all_ = compute_jacobian_from_solution(soln, eps=1e-6)[i]
    assert np.allclose(one, all_, rtol=1e-5, atol=1e-5), i
'''),
    dict(
        id="c25-field-line-start", property="C25",
        file="analyse/trajectory.py",
        edits=[("            x_start=float(B_start_position[0]),\n"
                "            y_start=float(B_start_position[1]),\n"
                "            angles=angles,\n"
                "            r_vals=solution[:, ODEIndex.B_r],\n",
                "            x_start=float(v_start_position[0]),\n"
                "            y_start=float(v_start_position[1]),\n"
                "            angles=angles,\n"
                "            r_vals=solution[:, ODEIndex.B_r],\n")],
        needs="flow lines saved with different starts for velocity and field",
        breaks="field lines saved start at the position of the flow line",
        demo=SOLN + '''
import contextlib
import csv
import io
from disc_solver.analyse import trajectory as t
values, angles = rows(9)
run = run_of(build(values, angles))
run.final_solution = run.solutions["0"]
with tempfile.TemporaryDirectory() as d:
    names = [os.path.join(d, n) for n in ("v.csv", "B.csv")]
    with contextlib.redirect_stdout(io.StringIO()):
        t.save_trajectory.__wrapped__(
            run, soln_range="0", filename="a", stats_output_file=os.path.join(d, "s.csv"),
            v_output_file=names[0], B_output_file=names[1],
            v_start_position=(1.0, 0.1), B_start_position=(2.0, 0.3),
            v_max_steps=3, B_max_steps=3, v_step_scaling=1e-3,
            B_step_scaling=1e-3)
    with open(names[1]) as f:
        first = next(csv.DictReader(l for l in f if l[0] != "#"))
assert abs(float(first["x"]) - 2) < 0.1, first
'''),
    dict(
        id="c26-density-at-the-end", property="C26", file="solve/utils.py",
        edits=[("    if np_any(ρ < 0):\n", "    if ρ[-1] < 0:\n")],
        needs="a density which is negative between rows where it is positive",
        breaks="solutions with negative densities before the last row pass",
        demo=SOLN + '''
from disc_solver.solve.utils import validate_solution
values, angles = rows(9)
assert validate_solution(build(values, angles))[1]
values[4, 6] = -0.1
assert not validate_solution(build(values, angles))[1]
'''),
    dict(
        id="c27-roots-offset", property="C27", file="analyse/plot.py",
        edits=[("                roots_values[:, i] - "
                "settings.get(\"offset\", 0),\n",
                "                roots_values[:, i],\n")],
        needs="a solution with roots, in the panel of the azimuthal velocity",
        breaks="roots are drawn at the whole azimuthal velocity, the line "
        "without the Keplerian one",
        demo=SOLN + '''
import matplotlib
matplotlib.use("agg")
import contextlib
import io
from disc_solver.analyse.plot import generate_plot
values, angles = rows(9)
run = run_of(build(values, angles, roots=(angles[3:5], values[3:5])))
with contextlib.redirect_stdout(io.StringIO()):
    fig = generate_plot(run, "0", filename="a")
for ax in fig.axes:
    curve = ax.get_lines()[0].get_ydata()
    drawn = [l for l in ax.get_lines() if l.get_marker() == "."]
    assert np.allclose(drawn[0].get_ydata(), curve[3:5]), ax.get_ylabel()
'''),
]
