# -*- coding: utf-8 -*-
"""
C08: what is written to an output file reads back equal.

Cases are contents (plain values).  The contents are built twice: one copy is
written, the other is what is expected back, so that a change made to the
objects on the way out shows as well.
"""
import os
from collections import namedtuple

from hypothesis import strategies as st

from engine import relation, fail
import storage
from storage import (
    build_run, build_config, build_input, build_internal, build_solution,
    build_mcmc, build_problems, difference, opened, scratch_dir,
)

Stored = namedtuple("Stored", ["spec", "how", "no_cache", "order"])
HOWS = ("whole", "incremental", "finalise")


def write_run(path, spec, how):
    run, solutions, final = build_run(spec)
    names = []
    if how == "whole":
        for soln in solutions:
            names.append(run.solutions.add_solution(soln))
        run.final_solution = solutions[final]
        with opened(path, "x") as f:
            f["run"] = run
    else:
        # as the solvers do it
        with opened(path, "x") as f:
            f["run"] = run
            for soln in solutions:
                names.append(run.solutions.add_solution(soln))
            if how == "incremental":
                run.final_solution = run.solutions[names[final]]
            run.finalise()
            check_run(run, spec, names, how, "in memory")
    return names


def check_run(run, spec, names, how, where):
    expected, solutions, final = build_run(spec)
    if how == "finalise":
        final = len(solutions) - 1
    for field in (
        "config_input", "config_filename", "disc_solver_version", "float_type",
        "sonic_method", "time", "use_E_r", "is_post_shock_only",
        "based_on_solution_filename", "based_on_solution_solution_name",
    ):
        diff = difference(
            getattr(expected, field), getattr(run, field), "run." + field)
        if diff:
            fail(f"{where}: {diff}")
    if sorted(run.solutions) != sorted(names):
        fail(f"{where}: solutions {list(run.solutions)} not {names}")
    for name, soln in zip(names, solutions):
        diff = difference(soln, run.solutions[name], f"run.solutions[{name}]")
        if diff:
            fail(f"{where}: {diff}")
    diff = difference(
        solutions[final], run.final_solution, "run.final_solution")
    if diff:
        fail(f"{where}: {diff}")


def run_labels(spec, how):
    out = [how]
    d = dict(spec)
    for soln in d["solutions"]:
        s = dict(soln)
        if s["internal"] is None:
            out.append("no internal data")
        elif s["internal"] != "empty":
            out.append("internal data")
        if s["derivatives"] is not None:
            out.append("derivatives")
        if s["roots"] is not None:
            out.append("roots")
        i = dict(s["solution_input"])
        out.append(
            "numpy floats" if i["numpy_floats"] else "python floats")
    if len(d["solutions"]) > 1:
        out.append("several solutions")
    return sorted(set(out))


runs = st.builds(
    Stored, storage.run_specs, st.sampled_from(HOWS), st.booleans(),
    st.permutations(range(3)).map(tuple),
)


@relation(runs, quick=150, cost=6, rule=(
    "every run has at least one solution; counted with what it contains"
))
def run_round_trip(case):
    """A run written whole, or as the solvers do it, reads back equal."""
    with scratch_dir() as d:
        path = os.path.join(d, "run.hdf5")
        names = write_run(path, case.spec, case.how)
        before = os.path.getmtime(path), os.path.getsize(path)
        os.environ.pop("NO_CACHE", None)
        if case.no_cache:
            os.environ["NO_CACHE"] = "1"
        try:
            with opened(path, "r") as f:
                run = f["run"]
                for i in case.order:
                    # any order of access
                    run.solutions[names[i % len(names)]]
                check_run(run, case.spec, names, case.how, "read back")
                if case.no_cache:
                    check_run(run, case.spec, names, case.how, "read again")
                else:
                    # what was read is as good as what was written
                    again = os.path.join(d, "again.hdf5")
                    with opened(again, "x") as g:
                        g["run"] = run
                    with opened(again, "r") as g:
                        check_run(
                            g["run"], case.spec, names, case.how,
                            "written again and read back",
                        )
        finally:
            os.environ.pop("NO_CACHE", None)
        if (os.path.getmtime(path), os.path.getsize(path)) != before:
            fail("reading the file changed it")
    return run_labels(case.spec, case.how)


def round_trip(obj):
    with scratch_dir() as d:
        path = os.path.join(d, "obj.hdf5")
        with opened(path, "x") as f:
            f["obj"] = obj
        with opened(path, "r") as f:
            return f["obj"]


def check_objects(build, spec, name):
    diff = difference(build(spec), round_trip(build(spec)), name)
    if diff:
        fail(diff)


@relation(storage.config_specs, quick=250, cost=2)
def config(spec):
    """Every configuration reads back as the text it was."""
    check_objects(build_config, spec, "config_input")
    back = round_trip(build_config(spec))
    if back != build_config(spec):
        fail(f"configuration {build_config(spec)} became {back}")
    if str(back.label) != dict(spec)["label"]:
        fail("label changed")
    return [
        k for k, v in spec if k in storage.OPTIONAL_FLOATS and v is None
    ] or ["all options"]


@relation(storage.input_specs, quick=250, cost=2)
def solution_input(spec):
    """Every solver input reads back equal, absent staying absent."""
    check_objects(build_input, spec, "solution_input")
    d = dict(spec)
    out = ["numpy floats" if d["numpy_floats"] else "python floats"]
    out += [
        k + (" absent" if d[k] is None else "")
        for k in storage.OPTIONAL_FLOATS + ("mcmc_vars", "interp_slice")
    ]
    return out


@relation(storage.internal_specs.filter(lambda s: s is not None), quick=150,
          cost=2)
def internal_data(spec):
    """Internal data, Jacobians and problems read back equal."""
    back = round_trip(build_internal(spec))
    want = build_internal(spec)
    if spec == "empty" or dict(spec)["as_lists"]:
        want._finalise()  # pylint: disable=protected-access
    diff = difference(want, back, "internal_data")
    if diff:
        fail(diff)
    if spec == "empty":
        return ["empty"]
    return ["problems"] if dict(spec)["problems"] else ["no problems"]


@relation(storage.solution_specs, quick=150, cost=3)
def solution(spec):
    """A single solution, of whatever parts, reads back equal."""
    check_objects(build_solution, spec, "solution")
    d = dict(spec)
    return [
        k + (" absent" if d[k] is None else "")
        for k in ("internal", "roots", "sonic_point", "derivatives")
    ]


small = st.one_of(
    storage.MCMC.map(lambda t: ("mcmc", t)),
    storage.SLICE.map(lambda t: ("slice", t)),
    storage.problem_specs.map(lambda t: ("problems", t)),
)


@relation(small, quick=150, cost=1)
def small_objects(case):
    """Variable choices, slices and problems read back equal."""
    what, spec = case
    build = {
        "mcmc": build_mcmc, "slice": lambda s: slice(*s),
        "problems": build_problems,
    }[what]
    check_objects(build, spec, what)
    return [what]
