# -*- coding: utf-8 -*-
"""
C11: solving again with overrides changes the overridden fields and no other.
"""
import os
from collections import namedtuple
from pathlib import Path

import attr
from hypothesis import strategies as st

from engine import relation, fail
import storage
from props import c10
from storage import (
    build_config, build_input, difference, opened, scratch_dir,
)

FIELDS = None


@relation(st.lists(
    st.one_of(
        st.tuples(st.sampled_from(c10.OPTIONS), storage.TEXT),
        st.tuples(st.sampled_from([
            "gamma", "eta_O", "", "asdict", "to_soln_input", "Start",
            "v_θ_sonic", "__class__", "solutions",
        ]), storage.TEXT),
    ), max_size=5,
).map(tuple), quick=300)
def validation(pairs):
    """
    Overrides naming options are passed on, the last one given winning; any
    other name is refused.
    """
    from disc_solver.solve.utils import validate_overrides, SolverError
    bad = [name for name, _ in pairs if name not in c10.OPTIONS]
    try:
        got = validate_overrides([list(p) for p in pairs])
    except SolverError as e:
        if not bad:
            fail(f"{pairs} was refused: {e}")
        if not any(name in str(e) for name in bad):
            fail(f"the error does not say which option is wrong: {e}")
        return ["refused"]
    if bad:
        fail(f"{bad} are no options, but were accepted")
    if got != dict(pairs):
        fail(f"{pairs} became {got}")
    return ["accepted"] if pairs else None


Merge = namedtuple("Merge", ["config", "changes", "overrides"])


@st.composite
def merges(draw):
    config = draw(c10.full_options)
    inp = dict(draw(c10.solver_inputs()))
    inp.pop("numpy_floats")
    names = draw(st.lists(st.sampled_from(sorted(inp)), max_size=6,
                          unique=True))
    return Merge(
        config=config,
        changes=tuple((name, inp[name]) for name in sorted(names)),
        overrides=draw(st.one_of(
            st.none(), c10.some_options(max_size=5))),
    )


def plain(name, value):
    if value is not None and name == "mcmc_vars":
        return storage.build_mcmc(value)
    if value is not None and name == "interp_slice":
        return slice(*value)
    return value


def stored_input(case):
    inp = build_config(case.config).to_soln_input()
    return attr.evolve(inp, **{
        name: plain(name, value) for name, value in case.changes
    })


def expected(case):
    """(configuration, solver input) after the overrides."""
    overrides = dict(case.overrides or ())
    config = dict(case.config)
    config.update(overrides)
    new_config = build_config(tuple(config.items()))
    parsed = new_config.to_soln_input()
    inp = stored_input(case)
    for name in overrides:
        if name != "label":
            inp = attr.evolve(inp, **{name: getattr(parsed, name)})
    return new_config, inp


def labels_of(case):
    out = []
    overridden = {k for k, _ in case.overrides or ()}
    changed = {k for k, _ in case.changes}
    if case.changes:
        out.append("input differs from configuration")
    if overridden:
        out.append("overrides")
    if overridden & changed:
        out.append("overrides what differs")
    return out


@relation(merges(), quick=500)
def merging(case):
    """The new input is the stored one with the overrides, nothing else."""
    from disc_solver.solve.config import new_inputs_with_overrides
    config, inp = build_config(case.config), stored_input(case)
    overrides = None if case.overrides is None else dict(case.overrides)
    new_config, new_inp = new_inputs_with_overrides(
        config_input=config, solution_input=inp, overrides=overrides)
    want_config, want_inp = expected(case)
    for want, got, where in (
        (want_config, new_config, "new configuration"),
        (want_inp, new_inp, "new input"),
        (build_config(case.config), config, "stored configuration"),
        (stored_input(case), inp, "stored input"),
    ):
        diff = difference(want, got, where)
        if diff:
            fail(diff)
    if overrides is not None and overrides != dict(case.overrides):
        fail("the overrides were changed")
    return labels_of(case)


@relation(st.tuples(c10.full_options, st.one_of(
    st.none(), c10.some_options(max_size=4))), quick=200)
def adding(case):
    """Adding overrides to a configuration leaves the original alone."""
    from disc_solver.solve.utils import add_overrides
    spec, overrides = case
    config = build_config(spec)
    new = add_overrides(
        config_input=config,
        overrides=None if overrides is None else dict(overrides))
    c10.expect_config(new, {**dict(spec), **dict(overrides or ())}, "new")
    c10.expect_config(config, dict(spec), "original")
    return ["overrides"] if overrides else None


Resolve = namedtuple("Resolve", ["merge", "run", "which", "method", "fails"])
resolves = st.builds(
    Resolve, merges(), storage.run_specs,
    st.sampled_from(["0", "1", "2", "final", "latest"]),
    st.sampled_from(["single", "step", "hydrostatic"]), st.booleans(),
)


def stored_run(case):
    """A run whose selected solution has the case's input."""
    spec = dict(case.run)
    spec["config"] = case.merge.config
    run, solutions, final = storage.build_run(tuple(spec.items()))
    which = case.which
    if which.isdigit():
        which = str(int(which) % len(solutions))
        index = int(which)
    else:
        index = final
    solutions[index].solution_input = stored_input(case.merge)
    for soln in solutions:
        run.solutions.add_solution(soln)
    run.final_solution = solutions[final]
    return run, which


@relation(resolves, quick=80, cost=5)
def resolving(case):
    """
    Solving a stored solution again hands the merged input to the method asked
    for, records where it came from, and leaves the stored file alone.
    """
    from disc_solver.solve import SONIC_METHOD_MAP
    from disc_solver.solve.resolve import resolve
    seen = []

    def fake(soln_input, run, *, store_internal, **kwargs):
        seen.append((soln_input, run, store_internal, kwargs))
        soln = storage.build_solution(dict(case.run)["solutions"][0])
        soln.solution_input = soln_input
        run.solutions.add_solution(soln)
        return not case.fails

    old = SONIC_METHOD_MAP[case.method]
    SONIC_METHOD_MAP[case.method] = fake
    try:
        with scratch_dir() as d:
            path = Path(d) / "old.hdf5"
            run, which = stored_run(case)
            with opened(str(path), "x") as f:
                f["run"] = run
            before = path.read_bytes()
            overrides = case.merge.overrides
            out, succeeded = resolve(
                output_file="new.hdf5", sonic_method=case.method,
                soln_filename=path, soln_range=which, output_dir=Path(d),
                store_internal=True,
                overrides=None if overrides is None else dict(overrides))
            if path.read_bytes() != before:
                fail("the file solved again was changed")
            if Path(out) != Path(d) / "new.hdf5":
                fail(f"written to {out}")
            with opened(str(out), "r") as f:
                new = f["run"]
                check_new_run(case, new, path, which)
            if sorted(os.listdir(d)) != ["new.hdf5", "old.hdf5"]:
                fail(f"files left: {os.listdir(d)}")
    finally:
        SONIC_METHOD_MAP[case.method] = old
    if bool(succeeded) is case.fails:
        fail(f"success reported as {succeeded}")
    if len(seen) != 1:
        fail(f"solved {len(seen)} times")
    diff = difference(expected(case.merge)[1], seen[0][0], "input solved")
    if diff:
        fail(diff)
    if seen[0][2] is not True:
        fail("store_internal was not passed on")
    return labels_of(case.merge) + [case.which]


def check_new_run(case, new, path, which):
    want_config, want_inp = expected(case.merge)
    diff = difference(want_config, new.config_input, "config_input")
    diff = diff or difference(
        want_inp, new.final_solution.solution_input,
        "final_solution.solution_input")
    diff = diff or difference(bool(want_inp.use_E_r), new.use_E_r, "use_E_r")
    diff = diff or difference(case.method, new.sonic_method, "sonic_method")
    diff = diff or difference(
        dict(case.run)["config_filename"], new.config_filename,
        "config_filename")
    diff = diff or difference(
        str(path), new.based_on_solution_filename,
        "based_on_solution_filename")
    diff = diff or difference(
        which, new.based_on_solution_solution_name,
        "based_on_solution_solution_name")
    if diff:
        fail(diff)
    if new.is_post_shock_only:
        fail("marked as solved from a shock")
