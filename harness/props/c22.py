# -*- coding: utf-8 -*-
"""C22: what is reported about a file is what the file holds."""
import csv
import io
from collections import namedtuple
from pathlib import Path

import numpy as np
from hypothesis import strategies as st

import figures
import gens
import phys
import profiles
import storage
from engine import relation, fail
from props import c15, c23
from storage import opened, scratch_dir, standard_streams

from disc_solver.file_format import InternalData

ASSUMPTIONS = [
    "profiles hold no NaN but in densities at their start, and γ is not zero where rates of flow are compared",
]

Case = namedtuple("Case", [
    "profiles", "final", "which", "config", "texts", "internal", "flag",
    "seed", "unknown",
])

texts = st.text("abZ αθ:%-_.0", min_size=1, max_size=8)
cases = st.builds(
    Case, st.lists(profiles.profiles(rows=st.integers(2, 15)), min_size=1,
                   max_size=4),
    st.one_of(st.none(), st.integers(0, 3), st.integers(0, 3)),
    st.one_of(st.integers(0, 3).map(str), st.sampled_from(
        ["final", "latest", None])),
    storage.run_specs.map(lambda r: dict(r)["config"]),
    st.tuples(texts, texts, texts, texts), st.booleans(),
    st.sampled_from([0, 1, 2, -1, -2, 99]), st.integers(0, 2 ** 20),
    # rows at the start whose density is not known
    st.sampled_from([0, 0, 1, 2]),
)


def internal(c):
    rng = np.random.default_rng(c.seed + 9)
    rows = int(rng.integers(1, 8))
    angles = np.sort(rng.uniform(0, 1.2, rows))
    p = rng.standard_normal((rows, 11))
    for i in (phys.BT, phys.RHO, phys.VT, phys.EO, phys.EA):
        p[:, i] = np.exp(p[:, i])
    d = rng.standard_normal((rows, 11)) * 3
    return InternalData(derivs=d, params=p, angles=angles)


def make(case):
    """(run, solutions, index of the final one)"""
    solutions = []
    for i, c in enumerate(case.profiles):
        soln = profiles.build(c)
        soln.flag = case.flag
        if case.internal and i % 2 == 0:
            soln.internal_data = internal(c)
        if len(soln.angles) > 3 * case.unknown:
            soln.solution[:case.unknown, phys.RHO] = np.nan
        solutions.append(soln)
    final = None if case.final is None else case.final % len(solutions)
    version, method, name, _ = case.texts
    run = figures.make_run(
        solutions, final, use_E_r=bool(case.seed % 2),
        config_input=storage.build_config(case.config),
        config_filename=name, disc_solver_version=version,
        sonic_method=method,
    )
    return run, solutions, final


def chosen(case, solutions, final):
    """The solution which is asked for, and how"""
    if case.which is None:
        return None, solutions[0]
    if case.which == "final":
        return "final", None if final is None else solutions[final]
    if case.which == "latest":
        return "latest", solutions[-1 if final is None else final]
    i = int(case.which) % len(solutions)
    return str(i), solutions[i]


def store(case, path):
    run, solutions, final = make(case)
    with opened(str(path), "x") as f:
        f["run"] = run
    return run, solutions, final


def report(path, group, which):
    from disc_solver.analyse.info import info
    out = io.StringIO()
    info(str(path), group=group, soln_range=which, output_file=out)
    return out.getvalue()


def said(text, name):
    """What is said about something: the text following its name"""
    found = []
    lines = text.split("\n")
    for i, line in enumerate(lines):
        head, sep, tail = line.partition(":")
        if sep and head.strip() == name:
            found.append("\n".join([tail] + lines[i + 1:]).lstrip(" "))
    return found


def expect(text, name, value, which=0):
    found = said(text, name)
    want = str(value)
    if len(found) <= which or not found[which].startswith(
        want.lstrip(" ") + "\n"
    ):
        fail(f"{name} is reported as {found!r}, it is {want!r}", key=name)


@relation(
    cases, quick=50, thorough=2500, cost=12,
    rule="more than one solution in the file",
)
def information(case):
    """Every group of information on every selection."""
    with scratch_dir() as d:
        path = Path(d) / (case.texts[3].replace("%", "") + ".hdf5")
        run, solutions, final = store(case, path)
        which, soln = chosen(case, solutions, final)
        before = path.read_bytes()
        text = report(path, "run", which)
        expect(text, "filename", path)
        expect(text, "label", run.config_input.label)
        expect(text, "config filename", run.config_filename)
        expect(text, "sonic method", run.sonic_method)
        expect(text, "DiscSolver version", run.disc_solver_version)
        expect(text, "using E_r", run.use_E_r)
        expect(text, "number of solutions", len(solutions))
        for name, value in vars(run.config_input).items():
            expect(text, name, value, which=1 if name == "label" else 0)
        text = report(path, "solutions", which)
        names = text.split()
        if sorted(names) != sorted(str(i) for i in range(len(solutions))):
            if not any(n == "final" for n in names):
                fail(f"solutions are {names!r} of {len(solutions)}",
                     key="solutions")
        if soln is None:
            return ["no final"]
        text = report(path, "status", which)
        expect(text, "ODE return flag", soln.flag)
        expect(text, "Coordinate System", soln.coordinate_system)
        expect(text, "Has internal data", soln.internal_data is not None)
        expect(text, "Has derivatives", soln.derivatives is not None)
        expect(text, "Has t_roots", soln.t_roots is not None)
        expect(text, "Has y_roots", soln.y_roots is not None)
        text = report(path, "input", which)
        for name, value in vars(soln.solution_input).items():
            expect(text, name, value)
        text = report(path, "initial-conditions", which)
        for name, value in vars(soln.initial_conditions).items():
            expect(text, name, value)
        points(case, run, soln, path, which)
        if path.read_bytes() != before:
            fail("the file was changed", key="changed")
    return [str(case.which)] if len(solutions) > 1 else None


ORDER = ("fast", "alfven", "sonic", "slow")


def points(case, run, soln, path, which):
    """Where the velocity passes the wave speeds."""
    a_0 = soln.initial_conditions.a_0
    ys, err = c15.machs(soln.solution, a_0)
    if any(
        np.any(np.abs(ys[n] - 1) <= err[n] * 1000 + 1e-12) for n in ys
    ):
        return  # which side is a matter of rounding
    where = {n: c15.crossing(soln.angles, ys[n]) for n in ys}
    text = report(path, "sonic-points", which)
    label = run.config_input.label
    for name, n in (
        ("slow sonic point", "slow"), ("sonic point", "sonic"),
        ("alfven sonic point", "alfven"), ("fast sonic point", "fast"),
    ):
        got = said(text, name)
        if not got:
            fail(f"{name} is not reported", key="points")
        got = got[0].split("\n")[0]
        check_point(name, got, where[n])
    passed = [n for n in ORDER if where[n] is not None] + ["none"]
    text = report(path, "crosses-points", which).rstrip("\n")
    if text != f"{label}: {passed[0]}":
        fail(f"passes {passed[0]}, reported as {text!r}", key="passes")
    text = report(path, "sonic-on-scale", which).rstrip("\n")
    head, _, got = text.rpartition(": ")
    if head != str(label):
        fail(f"sonic point of {head!r}, not {label!r}", key="label")
    height = soln.solution_input.c_s_on_v_k
    check_point("sonic point in scale heights", got, None if where[
        "sonic"] is None else tuple(
            x / height for x in where["sonic"][0]) and (tuple(
                x / height for x in where["sonic"][0]), 0))


def check_point(name, got, where):
    if where is None:
        if got != "None" and got != "":
            fail(f"{name} is reported as {got!r}, there is none", key="point")
        return
    lo, hi = where[0]
    try:
        value = float(got)
    except ValueError:
        fail(f"{name} is reported as {got!r}, it is in [{lo}, {hi}]",
             key="point")
    ε = 1e-9 * (abs(lo) + abs(hi))
    if not min(lo, hi) - ε <= value <= max(lo, hi) + ε:
        fail(f"{name} is reported as {got!r}, it is in [{lo}, {hi}]",
             key="point")


Stats = namedtuple("Stats", ["files", "broken", "how"])


def number(row, name):
    try:
        return float(row[name])
    except ValueError:
        fail(f"{name} is {row[name]!r}", key=name)


def rows_of(paths, out, how="arguments"):
    from disc_solver.analyse.stats import stats_main
    args = ["--quiet"]
    given = ""
    if how != "stdout":
        args += ["--file", str(out)]
    if how == "stdin":
        given = "".join(f"{p}\n" for p in paths)
        args += ["--with-stdin"]
    elif how == "both":
        given = "".join(f"{p}\n" for p in paths[1:])
        args += ["--with-stdin", str(paths[0])]
    else:
        args += [str(p) for p in paths]
    with standard_streams(given) as streams:
        rc = stats_main(args)
    if rc not in (None, 0):
        fail(f"stats failed with {rc!r}", key="failed")
    if how == "stdout":
        if out.exists():
            fail("written to a file", key="file")
        return list(csv.DictReader(io.StringIO(streams.text), dialect="unix"))
    with out.open(encoding="utf-8", newline="") as f:
        return list(csv.DictReader(f, dialect="unix"))


@relation(
    st.builds(Stats, st.lists(cases, min_size=1, max_size=2),
              st.booleans(),
              st.sampled_from(["arguments", "stdin", "both", "stdout"])),
    quick=60, thorough=2500, cost=12,
    rule="more than one solution is reported on",
)
def statistics(case):
    """A row for every solution of every file, with its own values."""
    with scratch_dir() as d:
        paths, wanted, before = [], [], []
        for i, part in enumerate(case.files):
            path = Path(d) / f"{i}.hdf5"
            _, solutions, final = store(part, path)
            before.append((path, path.read_bytes()))
            paths.append(path)
            for j, soln in enumerate(solutions):
                wanted.append((path, str(j), soln))
            if final is not None:
                wanted.append((path, "final", solutions[final]))
            if case.broken and i == 0:
                bad = Path(d) / "bad.hdf5"
                bad.write_bytes(b"not a file of solutions")
                paths += [bad, Path(d) / "missing.hdf5"]
        # nothing can be said about a row on its own
        wanted = [w for w in wanted if (
            w[2].internal_data is None
            or len(w[2].internal_data.angles) >= 1
        )]
        rows = rows_of(paths, Path(d) / "out.csv", case.how)
        for path, content in before:
            if path.read_bytes() != content:
                fail("the file was changed", key="changed")
        found = [(r["filename"], r["solution_name"]) for r in rows]
        if found != [(str(p), n) for p, n, _ in wanted]:
            fail(f"reported on {found!r}, not {wanted!r}", key="rows")
        for row, (_, _, soln) in zip(rows, wanted):
            expect_row(row, soln)
    return [
        case.how,
        "broken" if case.broken else "",
    ] if len(wanted) > 1 else None


def near(row, name, want, tol):
    got = number(row, name)
    if not abs(got - want) <= tol:
        fail(f"{name} is reported as {got!r}, it is {want!r}", key=name)


def expect_row(row, soln):
    inp = soln.solution_input
    for name, value in vars(inp).items():
        if isinstance(value, float):
            near(row, name, value, 0)
        elif row[name] != ("" if value is None else str(value)):
            fail(f"{name} is reported as {row[name]!r}, it is {value!r}",
                 key=name)
    angles, p = soln.angles, soln.solution
    a_0 = soln.initial_conditions.a_0
    deg = np.degrees(angles)
    machs, err = c15.machs(p, a_0)
    for n in c15.NAMES:
        m = machs[n]
        top, unsure = np.nanmax(m), np.nanmax(err[n])
        near(row, f"max_{n}_mach", top, (100 * unsure + 1e-10) * abs(top))
        at = number(row, f"max_{n}_mach_angle_degrees")
        here = np.argmin(np.abs(deg - at))
        if abs(deg[here] - at) > 1e-9 or not m[here] >= top * (
            1 - 1e-9 - 100 * unsure
        ):
            fail(f"the largest {n} Mach number is reported at {at!r}, it is "
                 f"at {deg[np.nanargmax(m)]!r}", key="angle of the largest")
        if not np.any(np.abs(m - 1) <= err[n] * 1000 + 1e-12):
            check_point(
                f"{n}_sonic_point", row[f"{n}_sonic_point"],
                c15.crossing(angles, m))
    near(row, "max_angle_reached_degrees", deg.max(), 1e-9)
    v = p[:, phys.VT]
    if row["v_θ_starts_monotonic"] != str(
        bool(np.all(np.diff(v[deg <= 20]) >= 0))
    ):
        fail(f"v_θ_starts_monotonic is {row['v_θ_starts_monotonic']!r}",
             key="v_θ_starts_monotonic")
    if row["v_θ_ends_low"] != str(bool(v[-1] <= 10)):
        fail(f"v_θ_ends_low is {row['v_θ_ends_low']!r}", key="v_θ_ends_low")
    # at the same distance from the axis, velocities are the radius' to -1/2
    v_z = np.sqrt(np.cos(angles)) * (
        p[:, phys.VR] * np.sin(angles) + v * np.cos(angles)
    )
    size = np.abs(p[:, phys.VR]).max() + np.abs(v).max()
    near(row, "max_jet_v_z", v_z.max(), 1e-10 * size)
    height = number(row, "max_jet_v_z_height")
    heights = np.tan(angles) / inp.c_s_on_v_k
    here = np.argmin(np.abs(heights - height))
    if abs(heights[here] - height) > 1e-9 * (1 + abs(height)) or not v_z[
        here] >= v_z.max() - 1e-10 * size:
        fail(f"the fastest jet is reported at {height!r}, it is at "
             f"{heights[np.argmax(v_z)]!r}", key="height of the fastest")
    ratio = p[:, phys.BP] / np.hypot(p[:, phys.BR], p[:, phys.BT])
    near(row, "max_B_p_on_B_t", ratio.max(), 1e-12 * np.abs(ratio).max())
    differences(row, soln)


def differences(row, soln):
    """How far the stored solution is from each of the equations."""
    inner = soln.internal_data
    if inner is not None:
        angles, p, d = (
            np.asarray(x) for x in (inner.angles, inner.params, inner.derivs)
        )
    else:
        angles, p = soln.angles, soln.solution
        d = np.stack([np.gradient(col, angles) for col in p.T], axis=1)
    inp = soln.solution_input
    m = gens.Mid(
        inp.γ, inp.v_rin_on_c_s, inp.v_a_on_c_s, inp.c_s_on_v_k, inp.η_O,
        inp.η_A, inp.η_H, inp.η_derivs,
    )
    want = c23.expected(m, angles, p, d, d[:, phys.BP])
    for name, ours in (
        ("continuity", "continuity"), ("solenoid", "solenoidal field"),
        ("radial_momentum", "radial momentum"),
        ("azimuthal_momentum", "azimuthal momentum"),
        ("polar_momentum", "polar momentum"),
        ("polar_induction", "toroidal electric field"),
        ("E_φ", "toroidal electric field"),
    ):
        total, scale = want[ours]
        near(row, "max_diff_" + name, np.nanmax(np.abs(total)),
             1e-9 * np.nanmax(scale))


Flow = namedtuple("Flow", ["profile", "seed", "factor", "what"])


@relation(
    st.builds(
        Flow, profiles.profiles(rows=st.integers(3, 15)),
        st.integers(0, 2 ** 20), gens.mag(-1, 1).map(lambda x: x + 0.01),
        st.sampled_from(["density", "outflow", "inflow", "name"]),
    ), quick=40, thorough=1500, cost=8,
    rule="γ is not zero and the disc as a whole moves in",
)
def rates_of_flow(case):
    """Rates of flow and the surface density go with what flows."""
    c = case.profile
    if c.m.γ == 0 or abs(c.m.γ - 0.5) < 1e-3:
        return None  # powers which need a logarithm
    soln, other = profiles.build(c), profiles.build(c)
    for s in (soln, other):
        s.solution[:, phys.VR] = -np.abs(s.solution[:, phys.VR]) - 0.01
        s.solution[-1, phys.VT] += 0.01
    if case.what == "density":
        other.solution[:, phys.RHO] *= case.factor
        want = (1, case.factor)
    elif case.what == "outflow":
        other.solution[-1, phys.VT] *= case.factor
        want = (case.factor, 1)
    elif case.what == "inflow":
        other.solution[:, phys.VR] *= case.factor
        want = (1 / case.factor, 1)
    else:
        want = (1, 1)
    with scratch_dir() as d:
        path = Path(d) / "run.hdf5"
        with opened(str(path), "x") as f:
            f["run"] = figures.make_run([soln, other], 1)
        first, second, final = rows_of([path], Path(d) / "out.csv")
    for name, factor in zip(("M_dot_out_on_M_dot_in", "Σ"), want):
        a, b = number(first, name), number(second, name)
        if not (np.isfinite(a) and a):
            fail(f"{name} is {a!r}", key="nothing")
        if not abs(b / a / factor - 1) < 1e-9:
            fail(f"{name} goes from {a!r} to {b!r}, not by {factor!r}, with "
                 f"the {case.what}", key=name)
        if final[name] != second[name]:
            fail("the final solution is not what it is", key="final")
    return [case.what]


@relation(
    cases, quick=80, thorough=2000, cost=4,
    rule="more than one solution",
)
def selecting(case):
    """The same name selects the same solution, from file or memory."""
    from disc_solver.utils import get_solutions
    run, solutions, final = make(case)
    with scratch_dir() as d:
        path = Path(d) / "run.hdf5"
        with opened(str(path), "x") as f:
            f["run"] = make(case)[0]
        with opened(str(path), "r") as f:
            loaded = f["run"]
            for which, want in [
                (None, solutions[0]),
                ("final", None if final is None else solutions[final]),
                ("latest", solutions[-1 if final is None else final]),
            ] + [(str(i), s) for i, s in enumerate(solutions)]:
                # what a run not yet finished has for its final solution is
                # for the file to say
                for r in (run, loaded) if final is not None else (loaded,):
                    got = get_solutions(r, which)
                    if want is None:
                        if got is not None:
                            fail("a final solution where there is none",
                                 key="none")
                        continue
                    diff = storage.difference(want, got, f"{which!r}")
                    if diff:
                        fail(diff, key=str(which))
            for bad in (str(len(solutions)), "-1", "first"):
                try:
                    got = get_solutions(loaded, bad)
                except (KeyError, ValueError):
                    continue
                fail(f"{bad!r} selects a solution", key="bad")
    return len(solutions) > 1 or None
