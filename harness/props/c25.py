# -*- coding: utf-8 -*-
"""C25: streamlines and field lines follow the stored velocity and field."""
import csv
from collections import namedtuple
from pathlib import Path

import numpy as np
from hypothesis import strategies as st

import figures
import phys
import profiles
from engine import relation, fail
from gens import flt, mag, sig
from props import c15
from storage import opened, scratch_dir

ASSUMPTIONS = [
    "starting points are not the origin; where the stored vector is zero no "
    "direction is asked for",
    "either of two stored rows equally close to a position may be used, to "
    "rounding",
]

Line = namedtuple("Line", ["radius", "part", "steps", "size"])
Case = namedtuple("Case", ["profile", "v", "B", "which", "as_command"])


def line():
    return st.builds(
        Line, mag(-2, 2).map(lambda x: sig(x, 6)),
        # where between the midplane and the last stored angle
        st.one_of(st.just(0.0), flt(0, 1).map(lambda x: sig(x, 6)),
                  flt(0, 1).map(lambda x: sig(x, 6)),
                  st.sampled_from([1.2, 3.0, -0.3])),
        st.integers(1, 120), mag(-5, -0.5).map(lambda x: sig(x, 4)),
    )


def cases():
    return st.builds(
        Case, profiles.profiles(rows=st.integers(2, 40)), line(), line(),
        st.integers(0, 2), st.booleans(),
    )


def start(l, angles):
    θ = min(l.part * angles[-1], 3.0)
    # what is given is what the text says
    return tuple(
        float(repr(float(x)))
        for x in (l.radius * np.cos(θ), l.radius * np.sin(θ))
    )


def rows_near(angles, θ):
    """Rows which can be said to be the closest"""
    gap = np.abs(angles - θ)
    return np.flatnonzero(gap <= gap.min() + 1e-12)


def directions(angles, radial, polar, pos):
    θ = np.arctan2(pos[1], pos[0])
    found = []
    for i in rows_near(angles, θ):
        if radial[i] == 0 and polar[i] == 0:
            return None
        # the polar angle is measured up from the midplane
        v = (radial[i] * np.array([np.cos(θ), np.sin(θ)])
             + polar[i] * np.array([-np.sin(θ), np.cos(θ)]))
        found.append(v / np.hypot(*v))
    return found


def side(angles, pos):
    """Whether a position is beyond what is stored: True, False or unclear"""
    θ = np.arctan2(pos[1], pos[0])
    if abs(θ - angles[-1]) <= 1e-12 or (
        pos[0] < 0 and abs(pos[1]) <= 1e-12 * abs(pos[0])
    ):
        return None
    return bool(θ > angles[-1])


def follows(name, angles, radial, polar, begin, l, values, positions):
    """Check a line; labels saying what it does"""
    labels = set()
    begin = np.array(begin)
    if len(values) != len(positions):
        fail(f"{name}: {len(values)} values at {len(positions)} positions",
             key="lengths")
    if len(positions) > l.steps:
        fail(f"{name}: {len(positions)} steps, {l.steps} were allowed",
             key="too many steps")
    outside = side(angles, begin)
    if not len(positions):
        if outside is False:
            fail(f"{name}: nothing from {begin!r}, which is in the solution",
                 key="missing")
        return {"outside"}
    if outside:
        fail(f"{name}: {len(positions)} steps from {begin!r}, which is not in "
             "the solution", key="start outside")
    if not np.array_equal(positions[0], begin):
        fail(f"{name}: starts at {positions[0]!r} not {begin!r}", key="start")
    size = l.size
    unclear = False
    for i, (pos, val) in enumerate(zip(positions, values)):
        if side(angles, pos):
            fail(f"{name}: step {i} at {pos!r} is beyond what is stored, "
                 f"angle {angles[-1]!r}", key="beyond")
        wanted = directions(angles, radial, polar, pos)
        if wanted is None:
            unclear = True
        elif not any(np.allclose(val, w, rtol=0, atol=1e-9) for w in wanted):
            fail(f"{name}: step {i} at {pos!r} goes in the direction {val!r}, "
                 f"not {wanted!r}", key="direction")
        if len(angles) > 2 and not any(
            k in (0, len(angles) - 1)
            for k in rows_near(angles, np.arctan2(pos[1], pos[0]))
        ):
            labels.add("inside")
        if i + 1 == len(positions):
            break
        ε = 1e-9 * size + 4e-16 * np.abs(pos).max() * 4
        moved = positions[i + 1] - pos
        if not np.allclose(moved, size * val, rtol=0, atol=ε):
            if not moved.any() and i and "reduced" in labels:
                continue  # the position is said twice
            beyond = side(angles, pos + size * val)
            if beyond is False:
                fail(f"{name}: step {i} from {pos!r} moves by {moved!r}, not "
                     f"{size!r} times {val!r}", key="step")
            size *= 0.01
            if not np.allclose(moved, size * val, rtol=0, atol=ε):
                fail(f"{name}: step {i} from {pos!r} moves by {moved!r}, not "
                     f"{size!r} times {val!r}", key="smaller step")
            labels.add("reduced")
    if len(positions) < l.steps:
        labels.add("ends")
        if side(angles, positions[-1] + 0.01 * size * values[-1]) is False:
            # it may be on its way with the last, smaller, steps
            fail(f"{name}: stops at {positions[-1]!r} after "
                 f"{len(positions)} of {l.steps} steps", key="stops")
    if not unclear and len(positions) > 2:
        labels.add("moves")
    return labels


def both(soln, case, v, B):
    """Check the pair of lines"""
    p, angles = soln.solution, soln.angles
    labels = set()
    for name, l, (values, positions), r, t in (
        ("v", case.v, v, phys.VR, phys.VT), ("B", case.B, B, phys.BR, phys.BT),
    ):
        labels |= {f"{name} {x}" for x in follows(
            name, angles, p[:, r], p[:, t], start(l, angles), l,
            values, positions,
        )}
    return labels


def stored(case, path):
    """Solutions in a file, and the one asked for"""
    others = [case.profile._replace(seed=case.profile.seed + i)
              for i in range(3)]
    solutions = [profiles.build(c) for c in others]
    with opened(str(path), "x") as f:
        f["run"] = figures.make_run(
            solutions, 1, use_E_r=case.profile.use_E_r)
    return solutions[case.which]


def read(path, names):
    with path.open(encoding="utf-8", newline="") as f:
        text = [x for x in f if not x.startswith("#")]
    rows = list(csv.DictReader(text, dialect="unix"))
    if rows and tuple(rows[0]) != names:
        fail(f"columns are {tuple(rows[0])!r}", key="columns")
    return rows


def numbers(path, names):
    rows = read(path, names)
    table = np.array(
        [[float(r[n]) for n in names] for r in rows]).reshape(-1, 4)
    return table[:, :2], table[:, 2:]


NAMES = ("stats", "B", "v")


def save(case, soln, path, outs):
    from disc_solver.analyse import trajectory
    v, B = start(case.v, soln.angles), start(case.B, soln.angles)
    with figures.silent():
        if case.as_command:
            args = ["--quiet"]
            for n, l, at in (("v", case.v, v), ("B", case.B, B)):
                if min(at) >= 0:
                    args += [f"--{n}-start-position", *map(repr, at)]
                args += [f"--{n}-max-steps", str(l.steps),
                         f"--{n}-step-scaling", repr(l.size)]
            for n in NAMES:
                args += [f"--{n}-output-file", str(outs[n])]
            trajectory.traj_main(args + [str(path), str(case.which)])
        else:
            trajectory.save_trajectory(
                str(path), soln_range=str(case.which),
                stats_output_file=outs["stats"], B_output_file=outs["B"],
                v_output_file=outs["v"], v_start_position=v,
                B_start_position=B, v_max_steps=case.v.steps,
                B_max_steps=case.B.steps, v_step_scaling=case.v.size,
                B_step_scaling=case.B.size,
            )


def clear(soln):
    """Whether the points are known to be where they are"""
    ys, err = c15.machs(soln.solution, soln.initial_conditions.a_0)
    if any(
        np.any(np.abs(ys[n] - 1) <= err[n] * 1000 + 1e-12) for n in ys
    ):
        return None
    return {n: c15.crossing(soln.angles, ys[n]) for n in ys}


@relation(
    cases(), quick=250, thorough=10000, cost=8,
    rule="a line takes more than two steps",
)
def saved(case):
    """The lines written to files, and the angles written with them."""
    # a position below the midplane cannot be given to the command
    if case.as_command:
        case = case._replace(
            v=case.v._replace(part=min(abs(case.v.part), 1.0)),
            B=case.B._replace(part=min(abs(case.B.part), 1.0)))
    with scratch_dir() as d:
        path = Path(d) / "a.hdf5"
        soln = stored(case, path)
        before = path.read_bytes()
        outs = {n: Path(d) / f"{n}.csv" for n in NAMES}
        save(case, soln, path, outs)
        if path.read_bytes() != before:
            fail("the file of solutions was changed", key="changed")
        row, = read(outs["stats"], tuple(
            f"{n}_angle" for n in c15.NAMES + ("max_soln",)))
        if float(row["max_soln_angle"]) != soln.angles.max():
            fail(f"the last angle is {soln.angles.max()!r}, written as "
                 f"{row['max_soln_angle']!r}", key="last angle")
        where = clear(soln)
        for n in c15.NAMES if where is not None else ():
            text = row[f"{n}_angle"]
            if (text == "") != (where[n] is None):
                fail(f"the {n} point {where[n]!r} is written as {text!r}",
                     key="points")
            if text != "":
                lo, hi = where[n][0]
                ε = 1e-9 * (abs(lo) + abs(hi))
                if not lo - ε <= float(text) <= hi + ε:
                    fail(f"the {n} point is written as {text!r}, it is in "
                         f"[{lo}, {hi}]", key="points")
        labels = both(
            soln, case, numbers(outs["v"], ("v_x", "v_y", "x", "y")),
            numbers(outs["B"], ("B_x", "B_y", "x", "y")),
        )
    if "v moves" in labels or "B moves" in labels:
        return sorted(labels) + ["command" if case.as_command else ""]
    return None


@relation(
    st.tuples(cases(), st.sampled_from(NAMES), st.booleans()), quick=20,
    thorough=500, cost=8, rule="always",
)
def kept(case):
    """What is in the way of the files written is kept."""
    case, name, empty = case
    case = case._replace(
        v=case.v._replace(part=0.0), B=case.B._replace(part=0.0))
    with scratch_dir() as d:
        path = Path(d) / "a.hdf5"
        soln = stored(case, path)
        outs = {n: Path(d) / f"{n}.csv" for n in NAMES}
        outs[name].write_text("" if empty else "kept\n")
        try:
            save(case, soln, path, outs)
        except FileExistsError:
            pass
        else:
            fail(f"nothing said about the existing file of {name}",
                 key="existing")
        if outs[name].read_text() != ("" if empty else "kept\n"):
            fail(f"the existing file of {name} was overwritten",
                 key="overwritten")
    return [name]


Options = namedtuple("Options", [
    "with_slow", "with_sonic", "with_alfven", "with_fast", "with_45_line",
    "with_max_soln_angle", "with_max_v_angle",
])
WORDS = {
    "slow": "Slow point", "sonic": "Sonic point", "alfven": "alfven point",
    "fast": "fast point",
}


@relation(
    st.tuples(cases(), st.builds(Options, *[st.booleans()] * 7)), quick=60,
    thorough=3000, cost=30, rule="a line takes more than two steps",
)
def drawn(case):
    """The lines of the figure."""
    from disc_solver.analyse.trajectory import generate_plot
    case, options = case
    solutions = [profiles.build(case.profile)]
    soln = solutions[0]
    run = figures.make_run(solutions, use_E_r=case.profile.use_E_r)
    p, angles = soln.solution.copy(), soln.angles.copy()
    with figures.drawn(
        generate_plot, run, "0",
        v_start_position=start(case.v, angles),
        B_start_position=start(case.B, angles),
        v_max_steps=case.v.steps, B_max_steps=case.B.steps,
        v_step_scaling=case.v.size, B_step_scaling=case.B.size,
        **options._asdict(),
    ) as fig:
        ax, = fig.axes
        named = {l.get_label(): l for l in ax.get_lines()}
    if not (np.array_equal(soln.solution, p)
            and np.array_equal(soln.angles, angles)):
        fail("the solution was changed", key="changed")
    parts = {}
    for name, word in (("v", "$v$ streamline"), ("B", "$B$ field line")):
        line = named.pop(word, None)
        if line is None:
            fail(f"no {word!r} in {list(named)!r}", key="line")
        positions = np.column_stack(line.get_data(orig=True)).reshape(-1, 2)
        i, j = (phys.VR, phys.VT) if name == "v" else (phys.BR, phys.BT)
        values = []
        # only the positions are shown: what is said to move them is what does
        for k, pos in enumerate(positions):
            wanted = directions(angles, p[:, i], p[:, j], pos)
            if wanted is None:
                wanted = [np.array([np.cos(a), np.sin(a)]) for a in [
                    np.arctan2(pos[1], pos[0])]]
            if k + 1 < len(positions):
                moved = positions[k + 1] - pos
                wanted.sort(key=lambda w: -float(w @ moved))
            values.append(wanted[0])
        parts[name] = np.array(values).reshape(-1, 2), positions
    labels = both(soln, case, parts["v"], parts["B"])
    # angles drawn from the origin
    slopes = {}
    for label, line in named.items():
        if tuple(line.get_xy1()) != (0, 0):
            fail(f"{label!r} goes through {line.get_xy1()!r}", key="origin")
        slopes[label] = np.arctan(line.get_slope())
    where = clear(soln)

    def expect(word, wanted, lo=None, hi=None):
        got = [a for l, a in slopes.items() if l.startswith(word)]
        if len(got) != (1 if wanted else 0):
            fail(f"{word!r} is drawn {len(got)} times, not {int(wanted)}: "
                 f"{list(slopes)!r}", key=word)
        if wanted:
            # a line is at an angle or the one opposite to it
            a, lo, hi = np.tan(got[0]), lo - 1e-9, hi + 1e-9
            if not any(lo <= got[0] + k * np.pi <= hi for k in (-1, 0, 1)):
                fail(f"{word!r} has a slope of {a!r}, not of an angle between "
                     f"{lo!r} and {hi!r}", key=word)

    for n, word in WORDS.items():
        asked = getattr(options, f"with_{n}")
        if not asked:
            expect(word, False)
        elif where is not None:
            if where[n] is None:
                expect(word, False)
            else:
                expect(word, True, *where[n][0])
    expect("45", options.with_45_line, np.pi / 4, np.pi / 4)
    expect("Max angle in solution", options.with_max_soln_angle,
           angles.max(), angles.max())
    positions = parts["v"][1]
    top = max(np.arctan2(positions[:, 1], positions[:, 0]), default=None)
    expect("Max angle in v", options.with_max_v_angle and top is not None,
           top, top)
    if "v moves" in labels or "B moves" in labels:
        return sorted(labels)
    return None
