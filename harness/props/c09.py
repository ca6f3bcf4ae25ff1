# -*- coding: utf-8 -*-
"""
C09: files written by earlier versions load with their meaning kept.

The oracle is a table of what each version of each stored object held, where
(attribute or item), used to write files as those versions did; the values
written are generated, and what is loaded is compared with them.
"""
import os
from collections import namedtuple
from fractions import Fraction

import numpy as np
from hypothesis import strategies as st

from engine import relation, fail
import storage
from gens import flt, sig
from storage import (
    array, build_run, build_solution, build_mcmc, build_problems, build_config,
    build_input, build_jacobian, difference, kind, opened, scratch_dir,
)

NEWEST = {
    "Run": 6, "ConfigInput": 14, "SolutionInput": 14, "Solution": 4,
    "InternalData": 3, "InitialConditions": 3,
}

# ------------------------------------------------- what each version stored

INPUT_ADDED = (
    # (since version, name, how)
    (1, "start", "attr"), (1, "stop", "attr"), (1, "taylor_stop_angle", "attr"),
    (1, "max_steps", "attr"), (1, "num_angles", "attr"),
    (1, "relative_tolerance", "attr"), (1, "absolute_tolerance", "attr"),
    (1, "v_rin_on_c_s", "attr"), (1, "v_a_on_c_s", "attr"),
    (1, "c_s_on_v_k", "attr"), (1, "η_O", "attr"), (1, "η_H", "attr"),
    (1, "η_A", "attr"),
    (2, "jump_before_sonic", "item"),
    (3, "η_derivs", "attr"),
    (4, "γ", "attr"),
    (5, "nwalkers", "attr"), (5, "iterations", "attr"), (5, "threads", "attr"),
    (6, "target_velocity", "attr"),
    (7, "split_method", "attr"),
    (8, "use_taylor_jump", "attr"),
    (9, "mcmc_vars", "item"),
    (10, "v_θ_sonic_crit", "item"),
    (11, "after_sonic", "item"),
    (12, "sonic_interp_size", "item"), (12, "interp_range", "moved"),
    (13, "interp_slice", "item"),
    (14, "use_E_r", "attr"),
)
SINCE = {name: version for version, name, _ in INPUT_ADDED}
UNKNOWN_BEFORE = ("nwalkers", "iterations", "threads", "target_velocity")


def group(label, version, attrs, items):
    from h5preserve import GroupContainer
    g = GroupContainer(attrs=attrs, **items)
    # pylint: disable=protected-access
    g._namespace = "disc_solver"
    g._label = label
    g._version = version
    return g


def old_input(label, version, values):
    """Config or solver input as the version wrote it."""
    attrs, items = {}, {}
    for since, name, how in INPUT_ADDED:
        if version < since:
            continue
        if how == "moved":
            how = "attr" if version == 12 else "item"
        (attrs if how == "attr" else items)[name] = values[name]
    if label == "ConfigInput":
        attrs["label"] = values["label"]
    if version < 4:
        attrs["β"] = values["β"]
    return group(label, version, attrs, items)


def expected_input(label, version, values, run_use_E_r=None):
    """Field by field, what should be loaded."""
    from disc_solver.file_format import ConfigInput, SolutionInput
    cls = ConfigInput if label == "ConfigInput" else SolutionInput
    import attr
    want = {}
    for field in attr.fields(cls):
        name = field.name
        if name == "label":
            want[name] = values[name]
        elif version >= SINCE[name]:
            want[name] = values[name]
        elif name == "γ":
            want[name] = ...
        elif name == "split_method":
            want[name] = "v_θ_deriv"
        elif name in UNKNOWN_BEFORE:
            want[name] = None
        elif name == "use_E_r":
            if run_use_E_r is None:
                want[name] = ...
            elif label == "ConfigInput":
                want[name] = str(run_use_E_r)
            else:
                want[name] = run_use_E_r
        else:
            # the option's default
            want[name] = field.default
    if label == "ConfigInput":
        for name in (
            "jump_before_sonic", "mcmc_vars", "v_θ_sonic_crit", "after_sonic",
            "sonic_interp_size", "interp_range", "interp_slice",
        ):
            if want[name] == "":
                want[name] = "None"
    return want


def check_input(label, version, values, loaded, where, run_use_E_r=None):
    want = expected_input(label, version, values, run_use_E_r)
    for name, value in want.items():
        got = getattr(loaded, name)
        if value is ...:
            continue
        diff = difference(value, got, f"{where}.{name}")
        if diff:
            fail(f"{label} version {version}: {diff}")
    if version < 4:
        if label == "ConfigInput":
            γ = Fraction(5, 4) - Fraction(values["β"])
            if kind(loaded.γ) != "str" or Fraction(loaded.γ) != γ:
                fail(f"{where}: β={values['β']} became γ={loaded.γ!r}")
        else:
            γ = 1.25 - values["β"]
            if not abs(loaded.γ - γ) <= 1e-15 * max(1, abs(γ)):
                fail(f"{where}: β={values['β']} became γ={loaded.γ!r}")


OldRun = namedtuple("OldRun", [
    "run_version", "config_version", "input_version", "solution_version",
    "internal_version", "initial_version", "spec", "β", "β_text", "short",
    "as_dict",
])

versions = {
    # (run, config, input, solution, internal data, initial conditions)
    name: st.integers(1, newest) for name, newest in NEWEST.items()
}


def numpy_input(spec):
    d = dict(spec)
    d["numpy_floats"] = True
    return tuple(d.items())


def concrete(spec):
    """Make a solution of the kind old files have."""
    d = dict(spec)
    d["solution_input"] = numpy_input(d["solution_input"])
    if d["internal"] in (None, "empty"):
        d["internal"] = (
            ("main", (3, 2, ())), ("jacobian", (4, 2, ())),
            ("taylor", (5, 1, ())), ("problems", ()), ("as_lists", False),
        )
    else:
        inner = dict(d["internal"])
        inner["as_lists"] = False
        d["internal"] = tuple(inner.items())
    return tuple(d.items())


def concrete_run(spec):
    d = dict(spec)
    d["solutions"] = tuple(concrete(s) for s in d["solutions"])
    return tuple(d.items())


old_runs = st.builds(
    OldRun, versions["Run"], versions["ConfigInput"],
    versions["SolutionInput"], versions["Solution"],
    versions["InternalData"], versions["InitialConditions"],
    storage.run_specs.map(concrete_run),
    flt(-3, 3).map(lambda x: sig(x, 8)), storage.NUMERIC_TEXT,
    st.booleans(), st.booleans(),
)


def input_values(case, spec, version):
    obj = build_input(spec)
    values = obj.asdict()
    values["β"] = np.float64(case.β)
    if version == 12 and values["interp_range"] is None:
        # could not be absent then
        values["interp_range"] = 10
    return values


def config_values(case, spec):
    values = build_config(spec).asdict()
    values["β"] = case.β_text
    return values


def old_solution(case, spec):
    soln = build_solution(spec)
    d = dict(spec)
    inner = dict(d["internal"])
    i = soln.internal_data
    items = {
        name: getattr(i, name) for name in (
            "derivs", "params", "angles", "v_r_normal", "v_φ_normal",
            "ρ_normal", "v_r_taylor", "v_φ_taylor", "ρ_taylor",
        )
    }
    if case.internal_version >= 2:
        items["problems"] = build_problems(inner["problems"])
    if case.internal_version >= 3:
        items["jacobian_data"] = build_jacobian(inner["jacobian"])
    internal = group("InternalData", case.internal_version, {}, items)

    c = soln.initial_conditions
    attrs = {
        "norm_kepler_sq": c.norm_kepler_sq, "η_O": c.η_O, "η_A": c.η_A,
        "η_H": c.η_H,
        "init_con": c.init_con[:8] if case.short else c.init_con,
    }
    if case.initial_version >= 2:
        attrs["a_0"] = c.a_0
    if case.initial_version >= 3:
        attrs["γ"] = c.γ
    else:
        attrs["β"] = case.β
    initial = group(
        "InitialConditions", case.initial_version, attrs, {"angles": c.angles})

    attrs = {"flag": soln.flag, "coordinate_system": soln.coordinate_system}
    items = {
        "angles": soln.angles, "solution": soln.solution,
        "internal_data": internal, "initial_conditions": initial,
        "t_roots": soln.t_roots, "y_roots": soln.y_roots,
        "solution_input": old_input(
            "SolutionInput", case.input_version,
            input_values(
                case, d["solution_input"], case.input_version)),
    }
    if case.solution_version >= 2:
        items["derivatives"] = soln.derivatives
    if case.solution_version >= 3:
        items["sonic_point"] = soln.sonic_point
        items["sonic_point_values"] = soln.sonic_point_values
    if case.solution_version >= 4:
        attrs["is_post_shock_only"] = soln.is_post_shock_only
    return group("Solution", case.solution_version, attrs, items)


def old_run(case):
    d = dict(case.spec)
    run, solutions, final = build_run(case.spec)
    v = case.run_version
    names = [str(i) for i in range(len(solutions))]
    stored = {
        name: old_solution(case, spec)
        for name, spec in zip(names, d["solutions"])
    }
    if v == 1 and case.as_dict:
        container = group("dict", None, {}, stored)
        # pylint: disable=protected-access
        container._namespace = "Python: dict as group"
        container._version = None
    else:
        container = group("Solutions", 1, {}, stored)
    items = {
        "config_input": old_input(
            "ConfigInput", case.config_version,
            config_values(case, d["config"])),
        "config_filename": run.config_filename, "time": run.time,
        "final_solution": old_solution(case, d["solutions"][final]),
        "solutions": container,
    }
    attrs = {}
    if v >= 2:
        items["disc_solver_version"] = run.disc_solver_version
    if v >= 3:
        items["float_type"] = run.float_type
    if v >= 4:
        items["sonic_method"] = run.sonic_method
    if v >= 5:
        items["use_E_r"] = run.use_E_r
    if v >= 6:
        attrs["is_post_shock_only"] = run.is_post_shock_only
        for name in (
            "based_on_solution_filename", "based_on_solution_solution_name",
        ):
            items[name] = getattr(run, name)
    return group("Run", v, attrs, items), names, final


def check_solution(case, spec, soln, where, run_use_E_r):
    d = dict(spec)
    want = build_solution(spec)
    fields = [
        "angles", "solution", "flag", "coordinate_system", "t_roots",
        "y_roots",
    ]
    absent = []
    for since, names in (
        (2, ["derivatives"]), (3, ["sonic_point", "sonic_point_values"]),
    ):
        (fields if case.solution_version >= since else absent).extend(names)
    for name in fields:
        diff = difference(
            getattr(want, name), getattr(soln, name), f"{where}.{name}")
        if diff:
            fail(f"Solution version {case.solution_version}: {diff}")
    for name in absent:
        if getattr(soln, name) is not None:
            fail(f"{where}.{name} came from nowhere")
    post_shock = (
        want.is_post_shock_only if case.solution_version >= 4 else False)
    if bool(soln.is_post_shock_only) is not post_shock:
        fail(f"{where}.is_post_shock_only is {soln.is_post_shock_only}")

    check_input(
        "SolutionInput", case.input_version,
        input_values(case, d["solution_input"], case.input_version),
        soln.solution_input,
        where + ".solution_input", run_use_E_r)

    for name in (
        "derivs", "params", "angles", "v_r_normal", "v_φ_normal", "ρ_normal",
        "v_r_taylor", "v_φ_taylor", "ρ_taylor",
    ):
        diff = difference(
            getattr(want.internal_data, name),
            getattr(soln.internal_data, name), f"{where}.internal_data.{name}")
        if diff:
            fail(f"InternalData version {case.internal_version}: {diff}")
    problems = soln.internal_data.problems
    diff = difference(
        want.internal_data.problems if case.internal_version >= 2
        else build_problems(()), problems, where + ".internal_data.problems")
    if diff:
        fail(diff)
    if case.internal_version >= 3:
        diff = difference(
            want.internal_data.jacobian_data, soln.internal_data.jacobian_data,
            where + ".jacobian_data")
        if diff:
            fail(diff)
    elif len(soln.internal_data.jacobian_data.jacobians):
        fail(f"{where}: jacobians came from nowhere")

    c, got = want.initial_conditions, soln.initial_conditions
    for name in ("norm_kepler_sq", "η_O", "η_A", "η_H", "angles", "init_con"):
        diff = difference(
            getattr(c, name), getattr(got, name),
            f"{where}.initial_conditions.{name}")
        if diff:
            fail(f"InitialConditions version {case.initial_version}: {diff}")
    if case.initial_version >= 2:
        if got.a_0 != c.a_0:
            fail(f"{where}: a_0={c.a_0} became {got.a_0}")
    elif not np.isnan(got.a_0):
        fail(f"{where}: a_0={got.a_0} is invented")
    γ = c.γ if case.initial_version >= 3 else 1.25 - case.β
    if not abs(got.γ - γ) <= 1e-15 * max(1, abs(γ)):
        fail(f"{where}: γ should be {γ}, is {got.γ}")


def check_old_run(case, run, names, final, where):
    d = dict(case.spec)
    want, _, _ = build_run(case.spec)
    v = case.run_version
    for since, name, otherwise in (
        (1, "config_filename", None), (1, "time", None),
        (2, "disc_solver_version", None), (3, "float_type", None),
        (4, "sonic_method", "unknown"), (5, "use_E_r", False),
        (6, "is_post_shock_only", False),
        (6, "based_on_solution_filename", None),
        (6, "based_on_solution_solution_name", None),
    ):
        diff = difference(
            getattr(want, name) if v >= since else otherwise,
            getattr(run, name), f"{where}.{name}")
        if diff:
            fail(f"Run version {v}: {diff}")
    use_E_r = want.use_E_r if v >= 5 else False
    check_input(
        "ConfigInput", case.config_version, config_values(case, d["config"]),
        run.config_input, where + ".config_input", use_E_r)
    if sorted(run.solutions) != sorted(names):
        fail(f"{where}: solutions are {sorted(run.solutions)}")
    for name, spec in zip(names, d["solutions"]):
        check_solution(
            case, spec, run.solutions[name], f"{where}.solutions[{name}]",
            use_E_r)
    check_solution(
        case, d["solutions"][final], run.final_solution,
        where + ".final_solution", use_E_r)


@relation(old_runs, quick=250, cost=8, rule=(
    "counted with the version of each object, where not the newest"
))
def old_files(case):
    """A file of any mix of versions loads with every value in its place."""
    with scratch_dir() as d:
        path = os.path.join(d, "old.hdf5")
        stored, names, final = old_run(case)
        with opened(path, "x") as f:
            f["run"] = stored
        with opened(path, "r") as f:
            run = f["run"]
            check_old_run(case, run, names, final, "run")
            if (
                case.config_version >= 6 and case.input_version >= 6
                and isinstance(run.solutions, type(build_run(
                    case.spec)[0].solutions))
            ):
                # everything is known, so it can be written again
                again = os.path.join(d, "again.hdf5")
                before = dict_of(run.solutions)
                with opened(again, "x") as g:
                    g["run"] = run
                with opened(again, "r") as g:
                    new = g["run"]
                    diff = difference(run.config_input, new.config_input)
                    diff = diff or difference(
                        before, dict_of(new.solutions))
                    diff = diff or difference(
                        run.final_solution, new.final_solution)
                    if diff:
                        fail("written in the present format: " + diff)
    out = []
    for label, version in (
        ("Run", case.run_version), ("ConfigInput", case.config_version),
        ("SolutionInput", case.input_version),
        ("Solution", case.solution_version),
        ("InternalData", case.internal_version),
        ("InitialConditions", case.initial_version),
    ):
        if version < NEWEST[label]:
            out.append(f"{label} {version}")
    return out


def dict_of(solutions):
    return tuple((key, solutions[key]) for key in sorted(solutions))


OldInput = namedtuple("OldInput", ["label", "spec", "β", "β_text"])
old_inputs = st.one_of(
    st.builds(
        OldInput, st.just("ConfigInput"), storage.config_specs, st.just(0.0),
        storage.NUMERIC_TEXT),
    st.builds(
        OldInput, st.just("SolutionInput"),
        storage.input_specs.map(numpy_input),
        flt(-3, 3).map(lambda x: sig(x, 8)), st.just("0")),
)


@relation(old_inputs, quick=120, cost=4, rule=(
    "every case is stored and read in all 14 versions of its object"
))
def old_configurations(case):
    """
    Configurations and solver inputs of every version load with every value in
    its place, and describe an input of the solver where nothing is unknown.
    """
    values = {}
    with scratch_dir() as d:
        path = os.path.join(d, "old.hdf5")
        with opened(path, "x") as f:
            for version in range(1, 15):
                if case.label == "ConfigInput":
                    vals = config_values(case, case.spec)
                else:
                    vals = input_values(case, case.spec, version)
                values[version] = vals
                f[str(version)] = old_input(case.label, version, vals)
        with opened(path, "r") as f:
            for version, vals in values.items():
                check_loaded(case, version, vals, f[str(version)])
    d = dict(case.spec)
    return [case.label] + [
        f"{name} absent" for name in storage.OPTIONAL_FLOATS + ("mcmc_vars",)
        if d[name] is None
    ]


def check_loaded(case, version, values, loaded):
    check_input(case.label, version, values, loaded, "loaded")
    if case.label == "ConfigInput" and version >= 6:
        loaded.use_E_r = loaded.use_E_r or "False"
        soln_input = loaded.to_soln_input()
        for name in ("γ", "start", "η_H", "target_velocity"):
            want = float(Fraction(values[name]))
            if abs(getattr(soln_input, name) - want) > 1e-15 * abs(want):
                fail(f"{name}: {values[name]} is solved as {soln_input}")


parts = st.tuples(
    storage.ARRAY, st.booleans(),
    st.lists(st.tuples(st.integers(0, 10 ** 6).map(str), storage.ARRAY),
             max_size=3, unique_by=lambda t: t[0]).map(tuple),
)


@relation(parts, quick=100, cost=1)
def dictionaries(case):
    """Dictionaries of old files load with keys, values and attributes."""
    spec, with_attrs, pairs = case
    attrs = {"colour": "red", "n": 3} if with_attrs else {}
    with scratch_dir() as d:
        path = os.path.join(d, "old.hdf5")
        with opened(path, "x") as f:
            g = group("dict", None, attrs, {k: array(v) for k, v in pairs})
            # pylint: disable=protected-access
            g._namespace = "Python: dict as group"
            g._version = None
            f["obj"] = g
            f["plain"] = {k: array(v) for k, v in pairs}
        with opened(path, "r") as f:
            loaded, plain = f["obj"], f["plain"]
    for obj, has_attrs in ((loaded, with_attrs), (plain, False)):
        if not isinstance(obj, dict):
            fail(f"a {type(obj)}, not a dictionary")
        keys = {k for k, _ in pairs} | ({"attrs"} if has_attrs else set())
        if set(obj) != keys:
            fail(f"keys {set(obj)} not {keys}")
        for k, v in pairs:
            diff = difference(array(v), obj[k]["data"], k)
            if diff:
                fail(diff)
    if with_attrs and dict(loaded["attrs"]) != attrs and not all(
        loaded["attrs"][k] == v for k, v in attrs.items()
    ):
        fail(f"attributes became {loaded['attrs']}")
    return ["attrs"] if with_attrs else (["plain"] if pairs else None)
