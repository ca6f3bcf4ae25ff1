# -*- coding: utf-8 -*-
"""C18: shocks conserve mass and momentum, and runs of them say so."""
import contextlib
import io
import os
from collections import namedtuple
from unittest import mock

import numpy as np
from hypothesis import strategies as st

from engine import relation, fail
import phys
import profiles
import solving
import storage
from gens import flt, mag, sig
from storage import difference

from disc_solver.file_format import Run, Solution
from solving import full
from disc_solver.solve import shock

ASSUMPTIONS = [
    "isothermal shocks travelling across the disc, in units of the sound "
    "speed; fields and the other velocities are continuous, as diffusion is "
    "wider than the shock",
]
Hunt = namedtuple("Hunt", [
    "profile", "low", "high", "angle", "post_max",
])
hunts = st.builds(
    Hunt, profile=profiles.profiles(
        st.integers(2, 25), kinds=("falling", "falling", "wandering",
                                   "rising", "above")),
    low=st.sampled_from([1, 1, 1.0, 1.5, 0.2]),
    high=st.sampled_from([10, 10, 3, 1.2]),
    # in degrees, or at the angle of a row
    angle=st.one_of(
        st.just(40), flt(0, 60).map(lambda x: sig(x, 5)), st.just("row")),
    post_max=st.sampled_from([True, True, False]),
)


def silent():
    return contextlib.redirect_stdout(io.StringIO())


def snapshot(soln):
    return (
        soln.angles.copy(), soln.solution.copy(),
        soln.initial_conditions.init_con.copy(),
        soln.initial_conditions.angles.copy(), dict(vars(soln.solution_input)),
    )


def unchanged(soln, before):
    after = snapshot(soln)
    if any(
        not np.array_equal(a, b, equal_nan=True)
        for a, b in zip(before[:4], after[:4])
    ) or before[4] != after[4]:
        fail("the solution the shock is looked for in was changed",
             key="changed")


def candidates(case, soln):
    """The rows shocks are tried at."""
    angles, v = soln.angles, soln.solution[:, phys.VT]
    least = np.radians(min_angle(case, soln))
    top = int(np.nanargmax(v))
    return [
        i for i in range(len(angles))
        if case.low < v[i] < case.high and angles[i] > least
        and (not case.post_max or angles[i] > angles[top])
    ]


def min_angle(case, soln):
    if case.angle == "row":
        return float(np.degrees(soln.angles[len(soln.angles) // 2]))
    return case.angle


@relation(
    hunts, quick=400, thorough=20000,
    rule="some but not all of the rows are candidates",
)
def places(case):
    soln = profiles.build(case.profile)
    before = snapshot(soln)
    want = candidates(case, soln)
    angles, values = shock.find_shock_test_values(
        soln, min_v_θ_pre=case.low, max_v_θ_pre=case.high,
        min_angle=min_angle(case, soln), post_max=case.post_max,
    )
    # at the very angle asked for is a matter of rounding
    edge = [
        i for i in range(len(soln.angles)) if abs(
            soln.angles[i] - np.radians(min_angle(case, soln))) < 1e-12
    ]
    got = [int(np.flatnonzero(soln.angles == a)[0]) for a in angles]
    if [i for i in got if i not in edge] != [
        i for i in want if i not in edge
    ]:
        fail(f"rows {got}, not {want}, of v_θ={soln.solution[:, phys.VT]!r} "
             f"at {soln.angles!r}, for {case!r}", key="rows")
    if not np.array_equal(values, soln.solution[got]):
        fail("values are not those of the rows", key="values")
    unchanged(soln, before)
    return 0 < len(want) < len(soln.angles) or None


def check_jump(pre, post, what):
    """Rankine-Hugoniot, isothermal, hydrodynamic."""
    v, ρ = pre[phys.VT], pre[phys.RHO]
    w, σ = post[phys.VT], post[phys.RHO]
    for name, a, b in (
        ("mass flux", ρ * v, σ * w),
        ("momentum flux", ρ * (v ** 2 + 1), σ * (w ** 2 + 1)),
    ):
        if not abs(a - b) <= 1e-12 * abs(a):
            fail(f"{what}: {name} goes from {a!r} to {b!r}, v_θ from {v!r} "
                 f"to {w!r}, ρ from {ρ!r} to {σ!r}", key=name)
    if v > 1 and not (σ > ρ and w < 1):
        fail(f"{what}: v_θ from {v!r} to {w!r}, ρ from {ρ!r} to {σ!r} is no "
             "shock", key="no shock")
    for i in range(11):
        if i not in (phys.VT, phys.RHO) and post[i] != pre[i]:
            fail(f"{what}: component {i} goes from {pre[i]!r} to {post[i]!r}",
                 key="others")


@relation(
    st.tuples(profiles.profiles(st.integers(2, 12)), st.integers(0, 11)),
    quick=300, thorough=10000, rule="supersonic before the shock",
)
def jumps(case):
    c, i = case
    soln = profiles.build(c)
    i = i % c.rows
    pre = soln.solution[i]
    if pre[phys.VT] <= 0:
        return None
    before = snapshot(soln)
    with silent():
        new = shock.get_shock_modified_initial_conditions(
            initial_conditions=soln.initial_conditions, angles=soln.angles,
            jump_θ=soln.angles[i], pre_jump_values=pre,
        )
    unchanged(soln, before)
    check_jump(pre, new.init_con, f"shock at row {i}")
    if not np.array_equal(new.angles, soln.angles[i:]):
        fail(f"after the shock on {new.angles!r}, not {soln.angles[i:]!r}",
             key="angles")
    old = soln.initial_conditions
    for name in ("norm_kepler_sq", "a_0", "γ"):
        if getattr(new, name) != getattr(old, name):
            fail(f"{name} goes from {getattr(old, name)!r} to "
                 f"{getattr(new, name)!r}", key=name)
    return bool(pre[phys.VT] > 1) or None


@relation(
    st.tuples(
        profiles.profiles(st.integers(4, 8), kinds=("falling", "above"),
                          use_E_r=st.booleans()),
        st.integers(0, 11),
        st.sampled_from([None, None, "taylor", "interp", "jump"]),
    ), quick=40, thorough=3000, cost=3,
    rule="integrated over at least one interval after the shock",
)
def after_shock(case):
    """What is solved for after a shock starts from the jump."""
    c, i, sonic = case
    # gentle enough to integrate
    c = c._replace(
        last=0.004 + c.last * 0.03, smooth=True, level=min(c.level, 1.5),
        m=c.m._replace(
            η_O=c.m.η_O + 0.1, c_s_on_v_k=max(c.m.c_s_on_v_k, 0.03)))
    soln = profiles.build(c)
    inp = soln.solution_input
    inp.relative_tolerance = 1e-7
    if sonic == "jump":
        inp.jump_before_sonic = 0.1
    elif sonic == "interp":
        inp.sonic_interp_size, inp.interp_slice = 0.1, slice(-50, -1)
    elif sonic == "taylor":
        inp.use_taylor_jump = False
    supersonic = np.flatnonzero(soln.solution[:, phys.VT] > 1)
    if not len(supersonic):
        return None
    i = int(supersonic[i % min(len(supersonic), 4)])
    made = []
    real = shock.solution

    def recorder(*args, **kwargs):
        made.append(real(*args, **kwargs))
        return made[-1]
    before = snapshot(soln)
    with silent(), mock.patch.object(shock, "stderr", io.StringIO()) as err, \
            storage.scratch_dir() as d, \
            mock.patch.object(shock, "solution", recorder), \
            mock.patch.object(shock, "plot_shock_solution"):
        finder = shock.ShockFinder(
            new_solution_input=inp.new_without_sonic_taylor(),
            initial_conditions=soln.initial_conditions, angles=soln.angles,
            store_internal=True, output_dir=d, run=shock_run(),
        )
        finder((soln.angles[i], soln.solution[i]))
    unchanged(soln, before)
    if not made:
        reason = err.getvalue()
        if "SolverError" in reason or "Insufficient angles" in reason:
            return None
        if i == len(soln.angles) - 1:
            return None  # nothing left to integrate over
        fail(f"nothing solved after the shock: {reason[-500:]}", key="none")
    new = made[0]
    if not len(new.angles):
        return None
    if not new.is_post_shock_only:
        fail("not marked as being after a shock only", key="mark")
    grid = soln.angles[i:]
    if len(new.angles) > len(grid) or not np.allclose(
        new.angles, grid[:len(new.angles)], rtol=1e-12, atol=1e-14,
    ):
        fail(f"solved on {new.angles!r}, not {grid!r}", key="grid")
    check_jump(soln.solution[i], new.solution[0], "first row")
    rhs = rhs_from(soln.initial_conditions, inp)
    a, s = new.angles, new.solution
    scale = np.max(np.abs(s), axis=0) + 1e-6
    done = 0
    for k in range(len(a) - 1):
        if not 1e-3 < s[k, phys.VT] < 0.95 or s[k + 1, phys.VT] > 0.95:
            continue
        try:
            end = solving.reference(rhs, a[k], s[k], a[k + 1], calls=400)
        except solving.Budget:
            continue
        done += 1
        if np.max(np.abs(end - s[k + 1]) / scale) > 1e-3:
            fail(f"interval {k} after the shock does not follow the "
                 f"derivatives: {s[k + 1]!r}, not {end!r}", key="derivatives")
    return done > 0 or None


def rhs_from(cons, inp):
    """The derivatives, with arguments from the initial conditions."""
    system, _ = full.ode_system(
        γ=cons.γ, a_0=cons.a_0, norm_kepler_sq=cons.norm_kepler_sq,
        init_con=cons.init_con, η_derivs=inp.η_derivs, use_E_r=inp.use_E_r,
        store_internal=False,
    )

    def rhs(θ, p):
        d = np.zeros(11)
        with np.errstate(all="ignore"):
            flag = system(θ, np.array(p, dtype=float), d)
        return flag, d
    return rhs


def shock_run(**kw):
    args = dict(
        config_input=storage.build_config(storage_config()),
        config_filename="a.cfg", disc_solver_version="1", float_type="f",
        sonic_method="single",
    )
    args.update(kw)
    return Run(**args)


def storage_config():
    return (
        ("start", "0"), ("stop", "5"), ("taylor_stop_angle", "0.001"),
        ("max_steps", "500"), ("num_angles", "10"), ("label", "label"),
        ("relative_tolerance", "1e-6"), ("absolute_tolerance", "1e-10"),
        ("γ", "0.001"), ("nwalkers", "8"), ("iterations", "3"),
        ("threads", "1"), ("target_velocity", "0.9"),
        ("split_method", "v_θ_deriv"), ("v_rin_on_c_s", "1"),
        ("v_a_on_c_s", "1"), ("c_s_on_v_k", "0.05"), ("η_O", "0.1"),
        ("η_H", "0.1"), ("η_A", "0.1"), ("jump_before_sonic", "None"),
        ("η_derivs", "True"), ("use_taylor_jump", "True"),
        ("use_E_r", "False"), ("v_θ_sonic_crit", "None"),
        ("after_sonic", "None"), ("interp_slice", "-1000,-100"),
        ("sonic_interp_size", "None"), ("interp_range", "10"),
        ("mcmc_vars", "None"),
    )


Batch = namedtuple("Batch", ["hunt", "outcomes", "name", "workers", "there"])


@relation(
    st.builds(
        Batch, hunt=st.builds(
            Hunt, profile=profiles.profiles(
                st.integers(5, 20), kinds=("falling", "wandering"),
            ).map(lambda c: c._replace(last=max(c.last, 1.2))),
            low=st.just(1), high=st.sampled_from([10, 1.7]),
            angle=flt(0, 40).map(lambda x: sig(x, 5)), post_max=st.just(True),
        ),
        outcomes=st.lists(st.sampled_from(
            ["solved", "solved", "solved", "short", "error", "plot error"],
        ), min_size=1, max_size=6).map(tuple),
        name=st.sampled_from(["0", "latest", "final"]),
        workers=st.integers(1, 3), there=st.booleans(),
    ), quick=40, thorough=1500, cost=4,
    rule="several shocks tried, one at least was written",
)
def runs_of_shocks(case):
    """One file for each shock which can be solved, and what it says."""
    hunt = case.hunt
    soln = profiles.build(hunt.profile)
    want = candidates(hunt, soln)
    edge = abs(
        soln.angles - np.radians(min_angle(hunt, soln))) < 1e-12
    if np.any(edge):
        return None
    before = snapshot(soln)
    original = shock_run()
    original.solutions.add_solution(soln)

    def outcome(θ):
        i = int(np.flatnonzero(soln.angles == θ)[0])
        return case.outcomes[i % len(case.outcomes)]

    def solve(soln_input, cons, *, modified_initial_conditions, **kwargs):
        angles = modified_initial_conditions.angles
        kind = outcome(angles[0])
        if kind == "error":
            raise RuntimeError("planned")
        rows = 4 if kind == "short" else 6
        return Solution(
            solution_input=soln_input, initial_conditions=cons, flag=0,
            coordinate_system="spherical midplane 0", internal_data=None,
            angles=angles[0] + np.arange(rows) / 1000,
            solution=np.tile(modified_initial_conditions.init_con, (rows, 1)),
            t_roots=None, y_roots=None, sonic_point=None,
            sonic_point_values=None,
            is_post_shock_only=kwargs["is_post_shock_only"],
        )

    def plot(run, *, plot_filename, output_hdf5_filename):
        if outcome(run.final_solution.angles[0]) == "plot error":
            raise RuntimeError("planned")

    new_run = original.create_shock_run(
        filename="/a/file.hdf5", solution_name=case.name)
    where = os.getcwd()
    found = []
    with storage.scratch_dir() as d, silent(), \
            mock.patch.object(shock, "stderr", io.StringIO()), \
            mock.patch.object(shock, "solution", solve), \
            mock.patch.object(shock, "plot_shock_solution", plot):
        os.chdir(d)
        try:
            if case.there:
                os.mkdir("shock_tests")
            shock.compute_shock(
                soln, min_v_θ_pre=hunt.low, max_v_θ_pre=hunt.high,
                min_angle=min_angle(hunt, soln), store_internal=False,
                run=new_run, nworkers=case.workers,
            )
        finally:
            os.chdir(where)
        others = os.listdir(d)
        files = os.path.join(d, "shock_tests")
        for name in sorted(os.listdir(files) if others else []):
            if not name.endswith(".hdf5"):
                fail(f"wrote {name!r}", key="files")
            with storage.opened(
                os.path.join(d, "shock_tests", name), "r"
            ) as f:
                found.append(contents(f["run"]))
    if others not in (["shock_tests"], []):
        fail(f"wrote {others!r}", key="files")
    unchanged(soln, before)
    if list(original.solutions) != ["0"] or original.is_post_shock_only or (
        original.based_on_solution_filename is not None
    ):
        fail("the run the shocks are looked for in was changed",
             key="changed run")
    kept = [
        i for i in want if outcome(soln.angles[i]) not in ("error", "short")
    ]
    starts = sorted(s.angles[0] for _, s, _ in found)
    if not np.array_equal(starts, soln.angles[kept]):
        fail(f"shocks at {starts!r} written, tried {soln.angles[want]!r}, "
             f"solved at {soln.angles[kept]!r}", key="which")
    for run, first, final in found:
        for name, value in (
            ("is_post_shock_only", True),
            ("based_on_solution_filename", "/a/file.hdf5"),
            ("based_on_solution_solution_name", case.name),
            ("config_filename", "a.cfg"), ("sonic_method", "single"),
        ):
            if run[name] != value:
                fail(f"{name} is {run[name]!r}, not {value!r}", key=name)
        if run["names"] != ["0"]:
            fail(f"solutions are {run['names']!r}", key="solutions")
        diff = difference(original.config_input, run["config_input"], "config")
        diff = diff or difference(first, final, "final solution")
        if diff is not None:
            fail(diff, key="contents")
        i = int(np.flatnonzero(soln.angles == first.angles[0])[0])
        check_jump(soln.solution[i], first.solution[0], "stored")
        if not first.is_post_shock_only:
            fail("solution not marked as being after a shock", key="mark")
    return len(want) > 1 and len(kept) > 0 or None


def contents(run):
    return {
        name: getattr(run, name) for name in (
            "is_post_shock_only", "based_on_solution_filename",
            "based_on_solution_solution_name", "config_filename",
            "sonic_method", "config_input",
        )
    } | {"names": sorted(run.solutions)}, run.solutions["0"], \
        run.final_solution
